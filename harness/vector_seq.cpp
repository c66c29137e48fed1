// C01: for every reachable vector (within bounds) and every sequence of operations with arbitrary values, the vector
// holds exactly the sequence the same operations produce on a mathematical sequence.
#include "vec.hpp"
void harness()
{
    {
        V v(mkalloc(1)); Seq s;
        build(v, s, nsym_param("maxn", 4), nsym_param("slack", 2));
        observe(v, s);
        int steps = nsym_param("steps", 1);
        for (int i = 0; i < steps; ++i)
        {
            unsigned op = nsym_choice("op", NOPS);
            Ran r; Err err;
            run_op(v, s, r, err, op);
            CHECK(!err, "an operation failed although nothing can fail");
            observe(v, s);
            CHECK(g_live == live_of<E>(s.n), "the number of live elements differs from the size");
        }
#if !EXC || defined(NX_TYPE)
        // equality
        V w(mkalloc(1)); Err e; unsigned k = nsym_choice("eq", 3);
        w.copy_nothrow(e, nx(v));
        CHECK(!e, "copy failed although nothing can fail");
        if (k == 0) { CHECK(v == w, "a copy does not compare equal"); nsym_cover("eq"); }
        if (k == 1) { w.push_back_nothrow(e, E(1u)); CHECK(!(v == w) && !(w == v), "vectors of different length compare equal"); }
        if (k == 2 && s.n) { unsigned i = nsym_choice("at", s.n), x = nsym_u32("other"); setval(w[i], x); CHECK((v == w) == (s.a[i] == x), "comparison is wrong"); nsym_cover("ne"); }
#endif
    }
    all_gone();
}
