// C07: sort and merge: ordered result, stable, every element exactly once and at its old address, other list empty.
#include "lst.hpp"
static unsigned g_cmp;
struct Gt { bool operator()(const E& a, const E& b) const { ++g_cmp; return val(b) < val(a); } };
struct Half { bool operator()(const E& a, const E& b) const { ++g_cmp; return (val(a) >> 16) < (val(b) >> 16); } };   // a weak order: many equivalent elements

// which: 0 ascending, 1 descending, 2 by upper half
static bool before(unsigned which, unsigned a, unsigned b) { return which == 0 ? a < b : which == 1 ? b < a : (a >> 16) < (b >> 16); }
static void verify(L& l, const LSeq& s, unsigned which)          // s: the elements in the order stability is judged by
{
    CHECK(l.size() == s.n, "sort or merge changed the number of elements");
    bool seen[LSeq::CAP] = {}; unsigned prev = 0, pv = 0, i = 0; bool ok = true, stable = true, same = true;
    for (L::iterator it = l.begin(); it != l.end(); ++it, ++i)
    {
        if (i >= s.n) nsym_fail("sort or merge corrupted the list: too many elements");
        unsigned j = 0; while (j < s.n && s.p[j] != &*it) ++j;
        if (j == s.n || seen[j]) nsym_fail("sort or merge lost, duplicated or moved an element");
        seen[j] = true; unsigned v = val(*it); same &= v == s.a[j];
        if (i) { ok &= !before(which, v, pv); stable &= before(which, pv, v) | (prev < j); }
        prev = j; pv = v;
    }
    CHECK(same, "sort or merge changed the value of an element");
    CHECK(ok, "the result is not ordered");
    CHECK(stable, "equivalent elements were reordered");
    i = s.n; for (L::iterator it = l.end(); it != l.begin();) { if (!i--) nsym_fail("sort or merge corrupted the backward links"); --it; }
    CHECK(i == 0, "sort or merge corrupted the backward links");
}
static void sorted_fill(L& l, LSeq& s, unsigned n, unsigned which)
{
    Err e; unsigned prev = 0;
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned x = nsym_u32("key"); if (i) nsym_assume(!before(which, x, prev)); prev = x;
        l.push_back_nothrow(e, E(x)); s.push(x); s.p[s.n - 1] = &l.back();
    }
    CHECK(!e, "building the list failed although nothing can fail");
}
static void do_sort(L& l, unsigned which) { if (which == 0) l.sort(); else if (which == 1) l.sort(Gt()); else l.sort(Half()); }

void harness()
{
    {
        int part = nsym_param("part", -1); if (part < 0) part = nsym_choice("part", 3);
        L l(mkalloc(1)); LSeq s; unsigned which = nsym_choice("order", 3);
        if (part == 0)
        {
            fill(l, s, nsym_choice("size", nsym_param("maxn", 5) + 1));
            do_sort(l, which); verify(l, s, which); nsym_cover("sort");
        }
        else if (part == 1)
        {   // longer lists: a fixed pattern with arbitrary values at two arbitrary places
            unsigned n = nsym_param("big", 8) + nsym_choice("more", nsym_param("span", 10)); Err e;
            unsigned p1 = n / 3, p2 = n - 1 - n / 4;
            for (unsigned i = 0; i < n; ++i)
            {
                unsigned x = i == p1 || i == p2 ? nsym_u32("key") : ((i * 7 + 3) % n + 1) << 14;
                l.push_back_nothrow(e, E(x)); s.push(x); s.p[s.n - 1] = &l.back();
            }
            CHECK(!e, "building the list failed although nothing can fail");
            do_sort(l, which); verify(l, s, which); nsym_cover("long");
        }
        else
        {
            L o(mkalloc(1)); LSeq os;
            sorted_fill(l, s, nsym_choice("size", nsym_param("m1", 3) + 1), which); sorted_fill(o, os, nsym_choice("other", nsym_param("m2", 3) + 1), which);
            for (unsigned i = 0; i < os.n; ++i) s.insert(s.n, os.a[i], os.p[i]);
            bool rv = nsym_choice("rvalue", 2);
            if (which == 0) { if (rv) l.merge(std::move(o)); else l.merge(o); }
            else if (which == 1) { if (rv) l.merge(std::move(o), Gt()); else l.merge(o, Gt()); }
            else { if (rv) l.merge(std::move(o), Half()); else l.merge(o, Half()); }
            verify(l, s, which); LSeq none; observe(o, none); nsym_cover("merge");
        }
        // the list is fully usable afterwards
        Err e; l.push_front_nothrow(e, E(1u)); CHECK(!e && l.size() == s.n + 1, "the list is unusable after sort or merge");
        l.pop_front(); l.clear(); CHECK(l.empty(), "clear left elements");
    }
    all_gone();
}
