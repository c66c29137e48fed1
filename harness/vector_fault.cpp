// C04 (default): whatever single step of whatever operation fails (allocation, element copy, element construction), once or
// persistently, the error is reported, nothing leaks, nothing is destroyed twice and the vector stays usable.
// C05 (-DSTRONG): which part of the content is guaranteed to be untouched after a failure.
#include "vec.hpp"
static void prefix(V& v, const Seq& s, unsigned n, const char* what)
{
    CHECK(v.size() >= n, what);
    bool ok = true;
    for (unsigned i = 0; i < n; ++i) ok &= val(v[i]) == s.a[i];
    CHECK(ok, what);
}
void harness()
{
    {
        V v(mkalloc(1)); Seq s;
        build(v, s, nsym_param("maxn", 4), nsym_param("slack", 2));
        g_oom = true;
        int steps = nsym_param("steps", 1);
        for (int st = 0; st < steps; ++st)
        {
            Seq before = s; const E* data = v.empty() ? nullptr : &v[0]; unsigned cap = v.capacity();
            unsigned op = nsym_choice("op", SWAP);
            Ran r; Err err;
            g_faults = nsym_param("faults", 1);
            run_op(v, s, r, err, op);
            g_faults = 0;
            reported(err);
            if (!err) { nsym_cover("success"); observe(v, s); continue; }
            nsym_cover("failure");
            CHECK(g_live == live_of<E>(v.size()), "after a failure the number of live elements differs from the size");
            CHECK(v.size() <= v.capacity(), "after a failure size exceeds capacity");
#ifdef STRONG
            bool append = op == PUSH_C || op == PUSH_M || op == EMPLACE_BACK || ((op == INSERT_C || op == INSERT_M) && r.pos == before.n);
            if (append || op == RESERVE || op == SHRINK) { prefix(v, before, before.n, "an append, reserve or shrink that failed changed the elements"); CHECK(v.size() == before.n, "an append, reserve or shrink that failed changed the size"); nsym_cover("strong"); }
            if (op == RESERVE || op == SHRINK) CHECK(v.capacity() == cap && (v.empty() || &v[0] == data), "a failed reserve or shrink moved the elements");
            if (op == RESIZE || op == RESIZE_V) prefix(v, before, r.k < before.n ? r.k : before.n, "a failed resize lost original elements");
            if (op == INSERT_C || op == INSERT_M || op == INSERT_RANGE || op == INSERT_INPUT) { prefix(v, before, r.pos, "a failed insert changed elements before the insertion point"); nsym_cover("insert"); }
#endif
            // every remaining element is alive, and the vector can be used on
            s.clear(); for (unsigned i = 0; i < v.size(); ++i) s.push(val(v[i]));
            observe(v, s);
            Err e2; unsigned y = nsym_u32("again");
            switch (nsym_choice("then", 3))
            {
            case 0: v.push_back_nothrow(e2, E(y)); CHECK(!e2, "the vector is unusable after a failure"); s.push(y); observe(v, s); break;
            case 1: v.clear(); s.clear(); observe(v, s); break;
            default: v.insert_nothrow(e2, v.cbegin(), E(y)); CHECK(!e2, "the vector is unusable after a failure"); s.insert(0, y); observe(v, s); break;
            }
        }
    }
    all_gone();
}
