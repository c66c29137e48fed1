// C12: whatever step of insert or copy fails, the error is reported, nothing leaks; a failed insert leaves the set as it was.
#include "sets.hpp"
void harness()
{
    {
        unsigned how = nsym_choice("order", 2); S s(Ord(how), mkalloc(1)); Ref r; Err e;
        unsigned n = sized("size", nsym_param("maxn", 5) + 1, 20);
        for (unsigned i = 0; i < n; ++i) insert(s, r, how, (pattern(3, i, n) * 2 + 1) * 4, 1, e);
        CHECK(!e, "insert failed although nothing can fail");
        g_oom = true; g_faults = nsym_param("faults", 2);
        unsigned op = nsym_choice("op", 4);
        if (op < 2)
        {
            unsigned x = KEY("x"); insert(s, r, how, x, op, e); g_faults = 0;
            reported(e);
            if (e) { nsym_cover("failed insert"); CHECK(g_live == live_of<E>(r.n), "a failed insert leaked or destroyed an element"); }
            observe(s, r, how);
        }
        else
        {
            S o(Ord(op & 1), mkalloc(2)); Ref t; g_faults = 0; unsigned m = sized("target", 4, 12);
            for (unsigned i = 0; i < m; ++i) insert(o, t, op & 1, i * 24 + 3, 0, e);
            CHECK(!e, "insert failed although nothing can fail");
            g_faults = nsym_param("faults", 2); arm(); o.copy_nothrow(e, s); disarm(); g_faults = 0;
            reported(e);
            observe(s, r, how);
            if (e) { nsym_cover("failed copy"); CHECK(g_live == live_of<E>(r.n + o.size()), "a failed copy leaked or destroyed elements"); }
            else CHECK(o.size() == r.n, "a copy has another size");
            Ref u; bool ok = true; unsigned i = 0; for (S::iterator it = o.begin(); it != o.end(); ++it, ++i) { if (i >= o.size()) nsym_fail("iteration after a copy visits too many elements"); u.add(val(*it), &*it); ok &= e ? true : r.find(how, val(*it)) >= 0; }
            CHECK(ok, "a copied element differs");
            if (!e) observe(o, u, how);
            else { o.clear(); Ref none; observe(o, none, how); }
            Err e2; Ref v; o.clear(); insert(o, v, how, 3, 0, e2); CHECK(!e2, "the set is unusable after a failed copy"); observe(o, v, how);
        }
        Err e3; unsigned y = KEY("again"); insert(s, r, how, y, 0, e3); CHECK(!e3, "the set is unusable after a failure"); observe(s, r, how);
        if (r.n) erase_nth(s, r, pick("nth", r.n)); observe(s, r, how);
    }
    all_gone();
}
