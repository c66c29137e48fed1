#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property: compiles its harnesses together with /repo's current headers to LLVM bitcode, executes them
symbolically (engine/nsym), lets the SMT solver decide every assertion over all values within the bounds, replays any
counterexample against the same harness built natively by g++ with sanitizers, and writes evidence/PROPERTY.json."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, SERIOUS_ASSUMPTIONS

REPO = os.environ.get('NSYM_REPO', '/repo')        # only for the framework's own experiments; checks use /repo
BUILD = os.path.join(HERE, '.build')
HARN = os.path.join(HERE, 'harness')
T0 = time.time()

def sh(cmd, timeout=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b'').decode(errors='replace'), (e.stderr or b'').decode(errors='replace')

def compile(cmd, timeout=300):
    """a compiler that was killed or ran out of time says nothing about the code: try again"""
    for attempt in range(3):
        rc, o, e = sh(cmd, timeout=timeout)
        if rc == 0 or ('error:' in e and 'internal compiler error' not in e and 'fatal error: Killed' not in e): break
    return rc, o, e

def defs(v):
    return (['-DELEM=' + v['elem']] if 'elem' in v else []) + ['-D' + d for d in v.get('defs', [])]

def clang_bc(v, out):
    mode = ['-DAS_GCC'] + (['-U__EXCEPTIONS'] if v['mode'] == 'nx' else [])
    rc, o, e = compile(['clang++', '-std=gnu++11', '-w', '-I' + REPO, '-I' + HARN, '-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only',
                   *mode, *defs(v), '-c', '-emit-llvm', os.path.join(HARN, v['src']), '-o', out + '.raw'])
    if rc: return rc, e
    rc, o, e = compile(['opt-18', '-passes=sroa', out + '.raw', '-o', out])
    os.unlink(out + '.raw')
    return rc, e

def native(v, out, sanitize=True):
    mode = ['-fno-exceptions'] if v['mode'] == 'nx' else []
    san = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'] if sanitize else []
    gxx = 'g++-13' if shutil.which('g++-13') else 'g++'
    o1 = out + '.o'
    rc, o, e = compile([gxx, '-std=gnu++11', '-w', '-g', '-I' + REPO, '-I' + HARN, *san, *mode, *defs(v), '-c', os.path.join(HARN, v['src']), '-o', o1])
    if rc: return rc, e
    rc, o, e = compile([gxx, '-std=gnu++11', '-w', '-g', *san, o1, os.path.join(HARN, 'rt.cpp'), '-o', out])
    return rc, e

def replay_env():
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:allocator_may_return_null=1'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=98'
    return env

def write_input(path, params, inputs):
    with open(path, 'w') as f:
        for k, x in params.items(): f.write('P %s %d\n' % (k, x))
        for name, x in inputs: f.write('I %s %d\n' % (re.sub(r'\s+', '_', name) or '_', int(x)))

def run_native(exe, inp, timeout=60):
    rc, o, e = sh([exe, inp], timeout=timeout, env=replay_env())
    return rc, (o + '\n' + e).strip()

def merge(path):
    t = {}
    wall = 0
    with open(path) as f:
        for line in f:
            if not line.strip(): continue
            d = json.loads(line)
            wall = max(wall, d.get('wall_s', 0))
            for k, x in d.items():
                if isinstance(x, bool): t[k] = t.get(k, True) and x
                elif k in ('max_constraints', 'max_vars'): t[k] = max(t.get(k, 0), x)
                elif isinstance(x, (int, float)): t[k] = t.get(k, 0) + x
                elif isinstance(x, list):
                    l = t.setdefault(k, [])
                    l += [y for y in x if y not in l]
                elif isinstance(x, dict):
                    m = t.setdefault(k, {})
                    for a, c in x.items(): m[a] = m.get(a, 0) + c
    t['wall_s'] = wall
    return t

class Result:
    def __init__(s, v): s.v = v; s.status = 'ok'; s.why = ''; s.t = {}; s.replay = None; s.native = None; s.traces = 0; s.params = {}; s.detail = ''

def decide(prop, tier, v, wd, budget):
    r = Result(v)
    name = v['name']
    base = os.path.join(wd, name)
    r.params = dict(v.get('params', {}))
    if tier == 'thorough': r.params.update(v.get('deep', {}))
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(clang_bc, v, base + '.bc'); fn = ex.submit(native, v, base + '.exe')
        (rb, eb), (rn, en) = fb.result(), fn.result()
    if rn and rb and v.get('optional'):      # looks inside the implementation, which is free to change
        r.status = 'skipped'; r.why = 'names parts of the implementation that are not there: ' + first_error(en); return r
    if rn and 'error:' not in en: r.status = 'error'; r.why = 'g++ ended without a verdict (%s)' % rn; return r
    if rn:
        # the project's own compiler rejects a use of the public interface
        p = save(prop, v, r.params, [], 'the public interface exercised by this harness does not compile', en[:4000], compile_only=True)
        r.status = 'violation' if rb else 'error'
        r.why = 'harness does not compile' + ('' if rb else ' with g++ (clang accepts it)') + ': ' + first_error(en)
        r.replay = p
        return r
    if rb: r.status = 'error'; r.why = 'clang rejects the harness: ' + first_error(eb); return r
    args = [os.path.join(BUILD, 'nsym'), base + '.bc', '--out', base + '.json', '--jobs', str(v.get('jobs', 2)), '--timeout', str(budget), '--query-timeout-ms', '60000']
    if 'max_steps' in r.params: args += ['--max-steps', str(r.params['max_steps'])]
    for k, x in r.params.items(): args += ['-P', '%s=%d' % (k, x)]
    rc, o, e = sh(args, timeout=budget + 60)
    try: r.t = merge(base + '.json')
    except Exception as ex: r.status = 'error'; r.why = 'engine: rc=%d %s %s' % (rc, e[-500:], ex); return r
    if not r.t: r.status = 'error'; r.why = 'engine: rc=%d %s' % (rc, (o + e)[-500:]); return r
    # counterexamples
    unrep = []
    for viol in r.t.get('violations', [])[:6]:
        inp = base + '.in'
        write_input(inp, r.params, viol['inputs'])
        rc, out = run_native(base + '.exe', inp)
        ok = rc not in (0, 78)
        if rc == 0:
            # what sanitizers cannot see: reads of uninitialised memory
            if not os.path.exists(base + '.plain'): native(v, base + '.plain', sanitize=False)
            rc2, o2, e2 = sh(['valgrind', '-q', '--error-exitcode=97', '--leak-check=no', base + '.plain', inp], timeout=120)
            if rc2 == 97: ok, rc, out = True, 97, o2 + e2
        if ok:
            r.status = 'violation'; r.why = viol['msg']
            r.detail = 'counterexample: %s\nengine: %s: %s\n%s\nnative run (exit %s):\n%s' % (
                ' '.join('%s=%s' % (a, b) for a, b in viol['inputs']), viol['kind'], viol['msg'], viol['where'], 'timeout' if rc == -999 else rc, out[:3000])
            r.replay = save(prop, v, r.params, viol['inputs'], viol['msg'], r.detail)
            return r
        unrep.append(viol)
    if unrep:
        r.status = 'error'
        r.why = 'counterexample does not reproduce natively: %s [%s] %s' % (unrep[0]['msg'], unrep[0]['kind'], unrep[0]['where'][:300])
        return r
    bad = []
    if rc not in (0, 1): bad.append('engine: a worker ended with an error (rc=%d) %s' % (rc, e[-300:]))
    if not r.t.get('complete'): bad.append('exploration incomplete (%s states left)' % r.t.get('left'))
    if r.t.get('inconclusive'): bad.append('inconclusive: %s' % r.t['inconclusive'])
    if r.t.get('unknown'): bad.append('%d solver queries undecided' % r.t['unknown'])
    missing = set(r.t.get('expect_covers', [])) - set(r.t.get('covers', [])) - set(v.get('ignore_covers', []))
    if missing: bad.append('vacuous: never reached %s' % sorted(missing))
    if not r.t.get('checks'): bad.append('vacuous: no assertion evaluated')
    if bad: r.status = 'error'; r.why = '; '.join(bad)
    # translation validation: concrete models of explored paths, run natively through the real build
    for s in r.t.get('samples', [])[:int(os.environ.get('NSYM_TRACES', '4'))]:
        ins = [x.rsplit('=', 1) for x in s.split(' ') if '=' in x]
        inp = base + '.in'; write_input(inp, r.params, ins)
        # a genuine difference fails every time; a run cut short by the machine (out of memory, out of time) does not
        for attempt in range(3):
            rc, out = run_native(base + '.exe', inp)
            if rc == 0: break
        if rc == 0: r.traces += 1
        elif rc in (-999, -9, -15):
            r.status = 'error'; r.why = 'a native run of an explored path did not end by itself (%s)' % ('timeout' if rc == -999 else rc); return r
        else:
            r.status = 'violation'; r.why = 'a path the solver accepted fails natively'; r.detail = 'native run (exit %s):\n%s' % (rc, out[:3000])
            r.replay = save(prop, v, r.params, ins, r.why, r.detail); return r
    return r

def first_error(e):
    m = re.search(r'^.*error:.*$', e, re.M)
    return m.group(0) if m else e[-300:]

def save(prop, v, params, inputs, msg, detail, compile_only=False):
    d = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s' % (prop, v['name']))
    write_input(p + '.in', params, inputs)
    exc = ' -fno-exceptions' if v['mode'] == 'nx' else ''
    with open(p + '.sh', 'w') as f:
        f.write('#!/bin/bash\n# %s: %s\n# exits nonzero while the violation is present\n' % (prop, msg.replace('\n', ' ')))
        f.write(''.join('# %s\n' % l for l in detail.split('\n')[:60]))
        f.write('t=$(mktemp -d); trap \'rm -rf "$t"\' EXIT; d=$(cd "$(dirname "$0")" && pwd)\nf="-std=gnu++11 -w -g -fsanitize=address,undefined -fno-sanitize-recover=undefined -I%s -I%s"\n' % (REPO, HARN))
        f.write('g++ $f%s %s -c %s -o $t/h.o || exit 1\n' % (exc, ' '.join("'%s'" % x for x in defs(v)), os.path.join(HARN, v['src'])))
        if not compile_only:
            f.write('g++ $f $t/h.o %s -o $t/h || exit 2\nASAN_OPTIONS=detect_leaks=0 timeout 60 $t/h $d/%s.in\n' % (os.path.join(HARN, 'rt.cpp'), os.path.basename(p)))
    os.chmod(p + '.sh', 0o755)
    return p + '.sh'

def known():
    out = []
    try:
        for l in open(os.path.join(HERE, 'known-findings.txt')):
            m = re.match(r'known: property=(\S+) variant=(\S+) msg="([^"]*)" (.*)', l.strip())
            if m: out.append(m.groups())
    except FileNotFoundError: pass
    return out

def main():
    prop = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER') or 'quick')
    c = CHECKS[prop]
    rc, o, e = sh(['bash', os.path.join(HERE, 'engine', 'build.sh')], timeout=600)
    if rc: print('cannot build the engine: ' + e[-800:]); return 2
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    wd = tempfile.mkdtemp(prefix=prop + '.', dir=BUILD)
    budget = 600 if tier == 'quick' else c.get('deep_budget', 3600)
    try:
        vs = [dict(v) for v in c['variants']]
        if tier == 'thorough': vs += [dict(v) for v in c.get('deep_variants', [])]
        for i, v in enumerate(vs):
            v['name'] = '%02d-%s-%s%s' % (i, os.path.splitext(v['src'])[0], v['mode'], re.sub(r'\W+', '', '-' + v.get('elem', '') + ''.join(v.get('defs', []))))
        if len(sys.argv) > 3: vs = [v for v in vs if re.search(sys.argv[3], v['name'])]
        vs.sort(key=lambda v: -v.get('jobs', 2))
        res = []
        with cf.ThreadPoolExecutor(5 if tier == 'quick' else 3) as ex:
            for f in cf.as_completed([ex.submit(decide, prop, tier, v, wd, budget) for v in vs]): res.append(f.result())
        res.sort(key=lambda r: r.v['name'])
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    ignored = [r for r in res if r.status == 'violation' for k in known() if k[0] == prop and k[1] == r.v['name'] and k[2] == r.why]
    viol = [r for r in res if r.status == 'violation' and r not in ignored]
    errs = [r for r in res if r.status == 'error']
    tot = lambda k: sum(r.t.get(k, 0) for r in res)
    for r in res:
        if r.status == 'skipped': print('SKIPPED %s %s: %s' % (prop, r.v['name'], r.why))
    lib = sorted(set(x for r in res for x in r.t.get('functions', [])))
    cov = {
        'states': tot('paths'), 'transitions': tot('steps'), 'traces_validated_against_impl': sum(r.traces for r in res),
        'samples': [s for r in res for s in r.t.get('samples', [])[:1]][:6] or ['(none)'],
        'paths_feasible': tot('paths'), 'paths_with_symbolic_condition': tot('sym_paths'), 'instructions_executed_symbolically': tot('steps'),
        'assertions_decided': tot('checks'), 'assertions_with_symbolic_condition': tot('checks_symbolic'), 'memory_accesses_decided': tot('mem_checks'),
        'solver_queries': tot('queries'), 'solver_sat': tot('sat'), 'solver_unsat': tot('unsat'), 'solver_unknown': tot('unknown'), 'solver_seconds': round(tot('solver_s'), 2),
        'solver': 'z3 (libz3, bit-vectors)', 'functions_encoded': lib, 'functions_encoded_count': len(lib),
        'exhaustive_within_bounds': not viol and not errs,
        'bounds': [{'harness': r.v['src'], 'mode': 'exceptions' if r.v['mode'] == 'ex' else 'no exceptions', 'defines': ([r.v['elem']] if 'elem' in r.v else []) + r.v.get('defs', []),
                    'params': r.params, 'paths': r.t.get('paths', 0), 'queries': r.t.get('queries', 0), 'assertions': r.t.get('checks', 0), 'wall_s': r.t.get('wall_s', 0), 'result': r.status} for r in res],
        'bounds_text': c['bounds'] if tier == 'quick' else c.get('deep_bounds', c['bounds']),
    }
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'coverage': cov,
          'assumptions': SERIOUS_ASSUMPTIONS + c.get('assumptions', []), 'wall_s': round(time.time() - T0, 2), 'violations': len(viol)}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for r in ignored: print('KNOWN-FINDING: property=%s %s' % (prop, r.why))
    for r in errs: print('NO-ANSWER %s %s: %s' % (prop, r.v['name'], r.why))
    for r in viol:
        print('%s %s: %s' % (prop, r.v['name'], r.why)); print(r.detail[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, r.replay))
    print('%s %s: %d variants, %d paths, %d assertions, %d solver queries (%.1f s), %d traces replayed, %.1f s' % (
        prop, tier, len(res), cov['states'], cov['assertions_decided'], cov['solver_queries'], cov['solver_seconds'], cov['traces_validated_against_impl'], ev['wall_s']))
    return 1 if viol else 2 if errs else 0

if __name__ == '__main__':
    try: code = main()
    except BaseException:
        import traceback
        traceback.print_exc(); code = 2
    sys.stdout.flush(); sys.exit(code)
