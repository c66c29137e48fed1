// C02: capacity contract.
#include "vec.hpp"
static unsigned long copies0;
// as many appends again as there are elements: a constant number of allocations
template <typename W> static void seenlarge(W& v, Err& e, unsigned y)
{
    unsigned n = v.size(), allocs = g_allocs; for (unsigned i = 0; i < n; ++i) v.push_back_nothrow(e, y);
    CHECK(!e && v.size() == 2 * n, "an append failed although nothing can fail"); CHECK(g_allocs - allocs <= 12, "n appends need more than O(log n) allocations");
}
void harness()
{
    unsigned part = nsym_choice("part", 6);
    if (part == 0)
    {   // nothing that fits into the capacity reallocates; elements before the insertion point stay where they are
        V v(mkalloc(1)); Seq s; build(v, s, nsym_param("maxn", 4), nsym_param("slack", 4));
        unsigned cap = v.capacity(), allocs = g_allocs; E* data = v.empty() ? nullptr : &v[0];
        static const unsigned ops[] = { PUSH_C, PUSH_M, EMPLACE_BACK, INSERT_C, INSERT_M, INSERT_RANGE, INSERT_INPUT, RESIZE, RESIZE_V, RESERVE, CLEAR };
        Ran r; Err e; unsigned n0 = s.n;
        run_op(v, s, r, e, ops[nsym_choice("op", sizeof ops / sizeof *ops)]);
        CHECK(!e, "an operation failed although nothing can fail");
        bool fits = r.op == RESERVE ? r.k <= cap : s.n <= cap;
        if (fits)
        {
            nsym_cover("fits");
            CHECK(g_allocs == allocs, "an operation that fits into the capacity allocates memory");
            CHECK(v.capacity() == cap, "an operation that fits into the capacity changes it");
            if (data && s.n) CHECK(&v[0] == data, "an operation that fits into the capacity moves the elements");
        }
        else { nsym_cover("grows"); CHECK(v.capacity() >= s.n, "capacity is below size"); }
        (void)n0;
        observe(v, s);
    }
    else if (part == 1)
    {   // reserve(k): then k - size appends neither allocate nor move anything
        V v(mkalloc(1)); Seq s; build(v, s, nsym_param("maxn", 4), 2);
        unsigned k = nsym_range("reserve", 9); Err e;
        v.reserve_nothrow(e, k); CHECK(!e && v.capacity() >= k, "reserve did not provide the capacity");
        unsigned allocs = g_allocs; const E* data = nullptr;
        while (s.n < k)
        {
            unsigned x = nsym_u32("x"); v.push_back_nothrow(e, E(x)); s.push(x);
            if (!data) data = &v[0];
            CHECK(!e && &v[0] == data && g_allocs == allocs, "an append within the reserved capacity reallocated");
        }
        observe(v, s); nsym_cover("reserve");
    }
    else if (part == 2)
    {   // amortised growth
        V v(mkalloc(1)); unsigned n = nsym_param("grow", 48); Err e; Seq s;
        unsigned x = nsym_u32("x"), form = nsym_choice("form", 4); copies0 = g_ctors; unsigned allocs = g_allocs;
        for (unsigned i = 0; i < n; ++i)
        {
            { const E y(x + i); if (form == 0) v.push_back_nothrow(e, E(x + i)); else if (form == 1) v.push_back_nothrow(e, y); else if (form == 2) v.emplace_back_nothrow(e, x + i); else v.insert_nothrow(e, v.cend(), y); }
            s.push(x + i); CHECK(!e, "an append failed although nothing can fail");
            unsigned lg = 0; while ((1u << lg) <= i + 1) ++lg;
            CHECK(g_allocs - allocs <= 3 * lg + 4, "n appends need more than O(log n) allocations");
            CHECK(g_ctors - copies0 <= 10 * (i + 1) + 16, "n appends move more than O(n) elements");
        }
        observe(v, s); nsym_cover("growth");
    }
    else if (part == 4)
    {   // the same over a long run of appends of a plain value
        typedef nestl::no_exceptions::vector<unsigned, TAlloc<unsigned> > W;
        W v(TAlloc<unsigned>(1)); unsigned n = nsym_param("long", 6000); Err e; unsigned long moved = 0; g_maxbytes = 1ul << 24;
        unsigned x = nsym_u32("x"), allocs = g_allocs, seen = g_allocs;
        for (unsigned i = 0; i < n; ++i)
        {
            v.push_back_nothrow(e, i & 1023 ? i : x); CHECK(!e, "an append failed although nothing can fail");
            if (g_allocs == seen) continue;
            moved += i * (g_allocs - seen); seen = g_allocs;
            unsigned lg = 0; while ((1u << lg) <= i + 1) ++lg;
            CHECK(g_allocs - allocs <= 3 * lg + 4, "n appends need more than O(log n) allocations");
            CHECK(moved <= 10ul * (i + 1) + 16, "n appends move more than O(n) elements");
        }
        CHECK(v.size() == n && v[0] == x && v[n - 1] == ((n - 1) & 1023 ? n - 1 : x), "a long run of appends gave another content"); nsym_cover("long growth");
    }
    else if (part == 5)
    {   // the capacity contract on large vectors
        typedef nestl::no_exceptions::vector<unsigned, TAlloc<unsigned> > W; static const unsigned sizes[] = { 9, 16, 17, 33, 64, 100, 255, 256, 1000, 3000 };
        W v(TAlloc<unsigned>(1)); Err e; g_maxbytes = 1ul << 24; unsigned n = sizes[nsym_choice("large", sizeof sizes / sizeof *sizes)], room = nsym_choice("room", 5), x = nsym_u32("x"), y = nsym_u32("y");
        room = room == 3 ? n / 16 : room == 4 ? n : room == 2 ? 9 : room; v.reserve_nothrow(e, n + room); CHECK(!e && v.capacity() >= n + room, "reserve did not provide the capacity");
        for (unsigned i = 0; i < n; ++i) v.push_back_nothrow(e, i % 8 ? i : x + i);
        unsigned cap = v.capacity(), allocs = g_allocs, need = n, at = n; const unsigned* data = &v[0];
        unsigned op = nsym_choice("op", 7);
        switch (op)
        {
        case 0: v.clear(); CHECK(v.capacity() == cap && g_allocs == allocs, "clear changed the capacity"); v.resize_nothrow(e, n, 5u); break;
        case 1: v.shrink_to_fit_nothrow(e); CHECK(v.capacity() == n, "shrink_to_fit left spare capacity"); cap = 0; break;
        case 2: { unsigned k = nsym_choice("reserve", 5); need = k == 0 ? n : k == 1 ? cap : k == 2 ? cap + 1 : k == 3 ? cap + cap / 32 + 1 : 2 * cap + 1; v.reserve_nothrow(e, need); CHECK(v.capacity() >= need, "reserve did not provide the capacity"); break; }
        case 3: { unsigned k = nsym_choice("pos", 3); at = k == 0 ? 0 : k == 1 ? n / 2 : n; v.insert_nothrow(e, v.cbegin() + at, y); need = n + 1; break; }
        case 4: { const unsigned z[3] = { y, y + 1, y + 2 }; at = nsym_choice("front", 2) ? 0 : n; v.insert_nothrow(e, v.cbegin() + at, z, z + 3); need = n + 3; break; }
        case 5: need = n + 1 + nsym_choice("more", 2) * 8; v.resize_nothrow(e, need, y); break;
        default: v.resize_nothrow(e, n / 2); CHECK(v.capacity() == cap && g_allocs == allocs, "a resize that fits into the capacity changes it"); for (unsigned i = n / 2; i < n; ++i) v.push_back_nothrow(e, i); break;
        }
        CHECK(!e, "an operation failed although nothing can fail");
        if (need <= cap) { CHECK(g_allocs == allocs, "an operation that fits into the capacity allocates memory"); CHECK(v.capacity() == cap, "an operation that fits into the capacity changes it"); CHECK(&v[0] == data, "an operation that fits into the capacity moves the elements"); nsym_cover("large fits"); }
        bool same = true; unsigned m = op == 2 ? n : need; CHECK(v.size() == m && v.capacity() >= m, "another size than expected");
        for (unsigned i = 0; i < m; ++i)
        {
            unsigned j = i < at ? i : i - (m - n), was = j % 8 ? j : x + j, want = op == 0 ? 5 : op == 5 && i >= n ? y : op == 6 && i >= n / 2 ? i : op == 3 && i == at ? y : op == 4 && i >= at && i < at + 3 ? y + (i - at) : was;
            same &= v[i] == want;
        }
        CHECK(same, "the content of a large vector is wrong"); seenlarge(v, e, y);
        nsym_cover("large");
    }
    else
    {   // shrink_to_fit and clear
        V v(mkalloc(1)); Seq s; build(v, s, nsym_param("maxn", 4), 3); Err e;
        unsigned cap = v.capacity();
        if (nsym_choice("clear", 2)) { v.clear(); s.clear(); CHECK(v.capacity() == cap, "clear changed the capacity"); }
        observe(v, s);
        v.shrink_to_fit_nothrow(e);
        CHECK(!e && v.capacity() == s.n, "shrink_to_fit left spare capacity");
        observe(v, s); nsym_cover("shrink");
    }
    all_gone();
}
