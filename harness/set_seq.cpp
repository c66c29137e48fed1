// C10 (default): the set holds exactly the distinct keys inserted and not erased, in comparator order, under every operation.
// C13 (-DSTABLE): elements never move and iterators survive all operations on other elements.
#include "sets.hpp"
static unsigned step(S& s, Ref& r, unsigned& how)
{
    Err e; unsigned op = nsym_choice("op", 8), x = KEY("x");
    switch (op)
    {
    case 0: insert(s, r, how, x, 0, e); break;
    case 1: insert(s, r, how, x, 1, e); break;
    case 2: erase_key(s, r, how, x); break;
    case 3: if (r.n) erase_nth(s, r, nsym_choice("nth", r.n)); break;
    case 4: { const S::const_iterator it = s.cbegin(); if (r.n) { int j = r.at(&*it); s.erase(it); r.del(j); } else s.clear(); break; }
    case 5: s.clear(); r.n = 0; break;
    case 6:                                      // move construction and assignment keep the elements where they are
    {
        S o(std::move(s)); observe(o, r, how); Ref none; observe(s, none, how);
        insert(s, none, how, x, 0, e); observe(s, none, how);   // a moved-from set is usable
        s = std::move(o); Ref none2; observe(o, none2, how);
        insert(o, none2, how, x, 1, e); observe(o, none2, how);
        // a set with another comparator takes over comparator and elements
        unsigned h2 = how ? 0 : 1; S q(Ord(h2), mkalloc(1)); Ref t; insert(q, t, h2, x, 0, e); insert(q, t, h2, 5, 0, e);
        q = std::move(s); observe(q, r, how); insert(q, r, how, x ^ 1, 0, e); observe(q, r, how);
        s = std::move(q); Ref none3; observe(q, none3, how);
        break;
    }
    default:                                     // copy
    {
        S o(Ord(how ? 0 : 1), mkalloc(2)); Ref t; insert(o, t, how ? 0 : 1, x, 0, e);
        o.copy_nothrow(e, s);
        CHECK(!e, "copy failed although nothing can fail");
        CHECK(o.size() == r.n, "a copy has another size");
        CHECK(g_live == live_of<E>(2 * r.n), "a copy left old elements alive or shares elements");
        Ref u; S::iterator a = s.begin();
        for (S::iterator b = o.begin(); b != o.end() && a != s.end(); ++a, ++b) { CHECK(val(*a) == val(*b) && &*a != &*b, "a copied element differs"); u.add(val(*b), &*b); }
        observe(o, u, how); observe(s, r, how);
        if (u.n) { erase_nth(o, u, 0); observe(s, r, how); observe(o, u, how); }
        insert(o, u, how, x, 0, e); observe(o, u, how);         // the copy uses the comparator of its source
        s.copy_nothrow(e, s); CHECK(!e, "copy of a set onto itself failed");
        break;
    }
    }
    CHECK(!e, "an operation failed although nothing can fail");
    return op;
}
void harness()
{
    {
        unsigned how = nsym_choice("order", 3); S s(Ord(how), mkalloc(1)); Ref r;
        unsigned big = nsym_param("big", 0);
        if (big) grow(s, r, how, nsym_choice("pattern", 4), big + nsym_choice("more", nsym_param("span", 3)));
        else { Err e; unsigned n = nsym_choice("inserts", nsym_param("maxn", 4) + 1); for (unsigned i = 0; i < n; ++i) insert(s, r, how, KEY("key"), i & 1, e); CHECK(!e, "insert failed although nothing can fail"); }
        observe(s, r, how);
        int steps = nsym_param("steps", 1);
        for (int st = 0; st < steps; ++st)
        {
#ifdef STABLE
            S::iterator keep[Ref::CAP]; S::const_iterator ckeep[Ref::CAP]; Ref old = r; { unsigned j = 0; for (S::iterator it = s.begin(); it != s.end(); ++it) ckeep[j] = keep[j] = it, ++j; } S::iterator end = s.end();
            const E* kp[Ref::CAP]; unsigned kv[Ref::CAP]; for (unsigned j = 0; j < old.n; ++j) { kp[j] = &*keep[j]; kv[j] = val(*keep[j]); }
            step(s, r, how);
            observe(s, r, how);
            CHECK(end == s.end(), "end() changed");
            for (unsigned j = 0; j < old.n; ++j) if (r.at(kp[j]) >= 0)
            {
                CHECK((&*keep[j] == kp[j]) & (val(*keep[j]) == kv[j]) & (&*ckeep[j] == kp[j]), "an iterator no longer designates its element");
                S::iterator it = s.begin(); while (it != s.end() && it != keep[j]) ++it;
                CHECK(it == keep[j], "an iterator is no longer part of its set");
                S::iterator nx = keep[j]; ++nx; ++it; CHECK(nx == it, "an iterator no longer reaches the next element");
                if (keep[j] != s.begin()) { S::iterator pv = keep[j]; --pv; ++pv; CHECK(pv == keep[j], "an iterator no longer reaches the previous element"); }
                nsym_cover("kept");
            }
#else
            step(s, r, how);
            observe(s, r, how);
            CHECK(g_live == live_of<E>(r.n), "the number of live elements differs from the size");
#endif
        }
#ifndef STABLE
        lookup(s, r, how, KEY("probe")); nsym_cover("lookup");
#endif
        CHECK(alloc_id(s.get_allocator()) == alloc_id(mkalloc(1)), "the set forgot its allocator");
    }
    all_gone();
}
