// C06 (default): for every list and every sequence of operations with arbitrary values the list holds exactly the sequence the
// same operations produce on a mathematical sequence.
// C09 (-DSTABLE): an element never changes its address, and iterators and references to it stay valid, until it is erased.
#include "lst.hpp"
void harness()
{
    {
        L l(mkalloc(1)); LSeq s;
        build(l, s, nsym_param("maxn", 4));
        observe(l, s);
        int steps = nsym_param("steps", 1);
        for (int i = 0; i < steps; ++i)
        {
            unsigned op = nsym_choice("op", NOPS); Ran r; Err err;
#ifdef STABLE
            L::iterator keep[LSeq::CAP]; LSeq old = s; L::iterator end = l.end();
            { unsigned j = 0; for (L::iterator it = l.begin(); it != l.end(); ++it) keep[j++] = it; }
#endif
            run_op(l, s, r, err, op);
            CHECK(!err, "an operation failed although nothing can fail");
#ifndef STABLE
            memset(s.p, 0, sizeof s.p);
#endif
            observe(l, s);
#ifdef STABLE
            // an iterator taken before the operation still designates its element unless that was erased
            bool whole = op == SWAP || op == MOVE_CTOR || op == MOVE_ASSIGN;
            for (unsigned j = 0; j < old.n; ++j)
                for (unsigned k = 0; k < s.n; ++k)
                    if (old.p[j] == s.p[k])
                    {
                        CHECK((&*keep[j] == s.p[k]) & (val(*keep[j]) == s.a[k]), "an iterator no longer designates its element");
                        L::iterator nx = keep[j]; ++nx;
                        CHECK(k + 1 < s.n ? &*nx == s.p[k + 1] : nx == l.end(), "an iterator no longer reaches the next element");
                        nsym_cover("kept");
                    }
            if (!whole) CHECK(end == l.end(), "end() changed");
            if (op <= EMPLACE) { unsigned c = 0; for (unsigned j = 0; j < old.n; ++j) for (unsigned k = 0; k < s.n; ++k) c += old.p[j] == s.p[k]; CHECK(c == old.n, "an insertion moved existing elements"); }
#else
            CHECK(g_live == live_of<E>(s.n), "the number of live elements differs from the size");
#endif
            if (r.applicable) nsym_cover("op");
        }
#if !WR && !defined(STABLE) && !defined(HIST)
        L w(mkalloc(1)); Err e; unsigned k = nsym_choice("eq", 3);
        w.copy_nothrow(e, l);
        CHECK(!e, "copy failed although nothing can fail");
        if (k == 0) { CHECK(l == w, "a copy does not compare equal"); nsym_cover("eq"); }
        if (k == 1) { w.push_back_nothrow(e, E(1u)); CHECK(!(l == w) && !(w == l), "lists of different length compare equal"); }
        if (k == 2 && s.n) { unsigned i = nsym_choice("at", s.n), x = nsym_u32("other"); setval(*at(w, i), x); CHECK((l == w) == (s.a[i] == x), "comparison is wrong"); nsym_cover("ne"); }
#endif
    }
    all_gone();
}
