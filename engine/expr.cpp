#include "expr.h"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <string>
ExprPool P;

static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(3); }

void Solver::init() {
  Z3_config cfg = Z3_mk_config();
  c = Z3_mk_context(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(c, zerr);
  s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV"));
  Z3_solver_inc_ref(c, s);
  Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
  Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), timeoutMs);
  Z3_solver_set_params(c, s, p); Z3_params_dec_ref(c, p);
}
Z3_ast Solver::bl(E e) {
  if (e->zb) return e->zb;
  Z3_ast r;
  switch (e->k) {
    case K::Const: r = e->val ? Z3_mk_true(c) : Z3_mk_false(c); break;
    case K::Eq: r = (e->a->w == 1) ? Z3_mk_iff(c, bl(e->a), bl(e->b)) : Z3_mk_eq(c, bv(e->a), bv(e->b)); break;
    case K::Ult: r = Z3_mk_bvult(c, bv(e->a), bv(e->b)); break;
    case K::Ule: r = Z3_mk_bvule(c, bv(e->a), bv(e->b)); break;
    case K::Slt: r = Z3_mk_bvslt(c, bv(e->a), bv(e->b)); break;
    case K::Sle: r = Z3_mk_bvsle(c, bv(e->a), bv(e->b)); break;
    case K::And: { Z3_ast x[2] = {bl(e->a), bl(e->b)}; r = Z3_mk_and(c, 2, x); break; }
    case K::Or: { Z3_ast x[2] = {bl(e->a), bl(e->b)}; r = Z3_mk_or(c, 2, x); break; }
    case K::Xor: r = (e->b->k == K::Const && e->b->val) ? Z3_mk_not(c, bl(e->a)) : Z3_mk_xor(c, bl(e->a), bl(e->b)); break;
    case K::Ite: r = Z3_mk_ite(c, bl(e->a), bl(e->b), bl(e->c)); break;
    default: r = Z3_mk_eq(c, bv(e), Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))); break;
  }
  return e->zb = r;
}
Z3_ast Solver::bv(E e) {
  if (e->zbv) return e->zbv;
  Z3_ast r;
  if (e->w == 1 && (ExprPool::isCmp(e->k) || e->k == K::And || e->k == K::Or || e->k == K::Xor || e->k == K::Ite)) {
    Z3_sort s1 = Z3_mk_bv_sort(c, 1);
    r = Z3_mk_ite(c, bl(e), Z3_mk_unsigned_int64(c, 1, s1), Z3_mk_unsigned_int64(c, 0, s1));
    return e->zbv = r;
  }
  switch (e->k) {
    case K::Const: r = Z3_mk_unsigned_int64(c, e->val, Z3_mk_bv_sort(c, e->w)); break;
    case K::Sym: {
      char nm[48]; snprintf(nm, sizeof nm, "v%llu_%u", (unsigned long long)e->val, e->w);
      r = Z3_mk_const(c, Z3_mk_string_symbol(c, nm), Z3_mk_bv_sort(c, e->w)); break; }
    case K::Add: r = Z3_mk_bvadd(c, bv(e->a), bv(e->b)); break;
    case K::Sub: r = Z3_mk_bvsub(c, bv(e->a), bv(e->b)); break;
    case K::Mul: r = Z3_mk_bvmul(c, bv(e->a), bv(e->b)); break;
    case K::UDiv: r = Z3_mk_bvudiv(c, bv(e->a), bv(e->b)); break;
    case K::SDiv: r = Z3_mk_bvsdiv(c, bv(e->a), bv(e->b)); break;
    case K::URem: r = Z3_mk_bvurem(c, bv(e->a), bv(e->b)); break;
    case K::SRem: r = Z3_mk_bvsrem(c, bv(e->a), bv(e->b)); break;
    case K::And: r = Z3_mk_bvand(c, bv(e->a), bv(e->b)); break;
    case K::Or: r = Z3_mk_bvor(c, bv(e->a), bv(e->b)); break;
    case K::Xor: r = Z3_mk_bvxor(c, bv(e->a), bv(e->b)); break;
    case K::Shl: r = Z3_mk_bvshl(c, bv(e->a), bv(e->b)); break;
    case K::LShr: r = Z3_mk_bvlshr(c, bv(e->a), bv(e->b)); break;
    case K::AShr: r = Z3_mk_bvashr(c, bv(e->a), bv(e->b)); break;
    case K::ZExt: r = Z3_mk_zero_ext(c, e->w - e->a->w, bv(e->a)); break;
    case K::SExt: r = Z3_mk_sign_ext(c, e->w - e->a->w, bv(e->a)); break;
    case K::Extract: r = Z3_mk_extract(c, e->lo + e->w - 1, e->lo, bv(e->a)); break;
    case K::Concat: r = Z3_mk_concat(c, bv(e->a), bv(e->b)); break;
    case K::Ite: r = Z3_mk_ite(c, bl(e->a), bv(e->b), bv(e->c)); break;
    default: fprintf(stderr, "bv: bad kind\n"); abort();
  }
  return e->zbv = r;
}
void Solver::sync(const std::vector<E> &pc) {
  size_t i = 0;
  while (i < pc.size() && i < asserted.size() && pc[i] == asserted[i]) ++i;
  if (asserted.size() > i) { Z3_solver_pop(c, s, asserted.size() - i); asserted.resize(i); }
  for (; i < pc.size(); ++i) { Z3_solver_push(c, s); Z3_solver_assert(c, s, bl(pc[i])); asserted.push_back(pc[i]); }
}
int Solver::check(const std::vector<E> &pc, E extra, std::vector<uint64_t> *model, const std::vector<uint8_t> &widths) {
  auto t0 = std::chrono::steady_clock::now();
  sync(pc);
  Z3_solver_push(c, s);
  Z3_solver_assert(c, s, bl(extra));
  Z3_lbool r = Z3_solver_check(c, s);
  ++queries;
  int res;
  if (r == Z3_L_TRUE) {
    res = 1; ++sat;
    if (model) {
      Z3_model m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, m);
      model->assign(widths.size(), 0);
      for (size_t i = 0; i < widths.size(); ++i) {
        E sy = P.sym(i, widths[i]);
        if (!sy->zbv) continue;       // never reached the solver: unconstrained
        Z3_ast out = nullptr;
        if (Z3_model_eval(c, m, sy->zbv, true, &out) && out) { uint64_t v = 0; if (Z3_get_numeral_uint64(c, out, &v)) (*model)[i] = v; }
      }
      Z3_model_dec_ref(c, m);
    }
  } else if (r == Z3_L_FALSE) { res = 0; ++unsat; } else { res = -1; ++unknown; }
  Z3_solver_pop(c, s, 1);
  secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  return res;
}
