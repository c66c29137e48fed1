// C08: whatever step of whatever list operation fails, the error is reported, nothing leaks and the list stays usable;
// a failed insertion leaves the previous elements in place.
#include "lst.hpp"
void harness()
{
    {
        L l(mkalloc(1)); LSeq s;
        build(l, s, nsym_param("maxn", 3));
        g_oom = true;
        int steps = nsym_param("steps", 1);
        for (int st = 0; st < steps; ++st)
        {
            LSeq before = s; unsigned op = nsym_choice("op", NFALLIBLE); Ran r; Err err;
            g_faults = nsym_param("faults", 1);
            run_op(l, s, r, err, op);
            g_faults = 0;
            reported(err);
            if (!err) { nsym_cover("success"); observe(l, s); continue; }
            nsym_cover("failure");
            CHECK(g_live == live_of<E>(l.size()), "after a failure the number of live elements differs from the size");
            if (op <= EMPLACE)
            {
                // elements in front of and behind the insertion point are untouched; in between only a prefix of the new ones
                unsigned n = l.size();
                CHECK(n >= before.n && n - before.n <= (r.k ? r.k - 1 : 0), "a failed insertion inserted too much or lost elements");
                unsigned added = n - before.n, i = 0; bool ok = true;
                for (L::iterator it = l.begin(); it != l.end(); ++it, ++i)
                {
                    if (i < r.pos) ok &= &*it == before.p[i] && val(*it) == before.a[i];
                    else if (i >= r.pos + added) ok &= &*it == before.p[i - added] && val(*it) == before.a[i - added];
                }
                CHECK(ok, "a failed insertion changed existing elements"); nsym_cover("insert");
                if (r.k == 0) CHECK(added == 0, "a failed single insertion changed the list");
            }
            s.clear(); memset(s.p, 0, sizeof s.p);
            for (L::iterator it = l.begin(); it != l.end(); ++it) s.push(val(*it));
            observe(l, s);
            Err e2; unsigned y = nsym_u32("again");
            if (nsym_choice("then", 2)) { l.push_back_nothrow(e2, E(y)); CHECK(!e2, "the list is unusable after a failure"); s.push(y); }
            else { l.clear(); s.clear(); }
            observe(l, s);
        }
    }
    all_gone();
}
