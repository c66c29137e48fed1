// C25: arguments that are owned by an element of the container (not elements themselves): they go away with their owner.
#ifndef CAUSE
#define CAUSE
#endif
#include "common.hpp"
struct Own                                       // a value and, perhaps, a heap-allocated child; copies are deep
{
    unsigned v; Own* kid;
    Own() noexcept : v(0), kid(nullptr) { ++g_live; }
    explicit Own(unsigned x) noexcept : v(x), kid(nullptr) { ++g_live; }
    Own(const Own& o) noexcept(!EXC) : v(o.v), kid(nullptr) { risky(); if (o.kid) kid = make(o.kid->v); ++g_live; }
    Own(Own&& o) noexcept : v(o.v), kid(o.kid) { o.v = MOVED; o.kid = nullptr; ++g_live; }
    Own& operator=(Own o) noexcept { unsigned t = v; v = o.v; o.v = t; Own* k = kid; kid = o.kid; o.kid = k; return *this; }
    ~Own() { if (kid) { kid->~Own(); nsym_free(kid); } v = 0xdead; --g_live; }
    static Own* make(unsigned x) { return new (nsym_malloc(sizeof(Own))) Own(x); }
    static void risky()
    {
#if EXC
        if (fault(C_THROW + 1)) throw Boom{1};
#endif
    }
};
inline bool operator==(const Own& a, const Own& b) noexcept { return a.v == b.v; }
inline bool operator<(const Own& a, const Own& b) noexcept { return a.v < b.v; }
struct Row { unsigned n, v[12], k[12]; Row() : n(0) {} void ins(unsigned p, unsigned x, unsigned y) { for (unsigned i = n; i > p; --i) { v[i] = v[i - 1]; k[i] = k[i - 1]; } v[p] = x; k[p] = y; ++n; } };
#ifdef LISTS
typedef nestl::impl::list<Own, TAlloc<Own>> C;
#else
typedef nestl::impl::vector<Own, TAlloc<Own>> C;
#endif
static C::iterator at(C& c, unsigned i) { C::iterator it = c.begin(); while (i--) ++it; return it; }
static void is(C& c, const Row& r, const char* what)
{
    CHECK(c.size() == r.n, what); unsigned i = 0; bool ok = true;
    for (C::iterator it = c.begin(); it != c.end() && i < r.n; ++it, ++i) { Own& o = *it; ok &= o.v == r.v[i]; if (r.k[i]) { if (!o.kid) nsym_fail("an element lost what it owns"); ok &= o.kid->v == r.k[i]; } else CHECK(!o.kid, "an element owns more than it should"); }
    CHECK(ok, what);
}
void harness()
{
    {
        Err e; C c(TAlloc<Own>(1)); Row r; unsigned n = 1 + nsym_choice("size", nsym_param("maxn", 3)), i = nsym_choice("which", n);
#ifndef LISTS
        unsigned slack = nsym_choice("slack", 3); c.reserve_nothrow(e, n + slack);
#endif
        for (unsigned j = 0; j < n; ++j) { unsigned x = nsym_u32("elem"); Own o(x); if (j == i) o.kid = Own::make(7); c.push_back_nothrow(e, std::move(o)); r.ins(j, x, j == i ? 7 : 0); }
        unsigned x = nsym_u32("owned"); at(c, i)->kid->v = x; nsym_assume(x != 0); r.k[i] = x;
        CHECK(!e, "building failed although nothing can fail"); is(c, r, "the initial content differs"); Row was = r;
        Own& q = *at(c, i)->kid; unsigned p = nsym_choice("pos", n + 1), k, op = nsym_choice("op", 9);
        g_oom = true; g_faults = nsym_param("faults", 1); arm();
        switch (op)
        {
        case 0: c.push_back_nothrow(e, q); p = n; r.ins(p, x, 0); break;
        case 1: c.emplace_back_nothrow(e, static_cast<const Own&>(q)); p = n; r.ins(p, x, 0); break;
        case 2: c.insert_nothrow(e, at(c, p), q); r.ins(p, x, 0); break;
        case 3: c.push_back_nothrow(e, std::move(q)); p = n; r.ins(p, x, 0); break;
        case 4: c.insert_nothrow(e, at(c, p), std::move(q)); r.ins(p, x, 0); break;
        case 5: c.insert_nothrow(e, at(c, p), &q, &q + 1); r.ins(p, x, 0); break;
#ifdef LISTS
        case 6: c.push_front_nothrow(e, q); p = 0; r.ins(0, x, 0); break;
        case 7: c.emplace_nothrow(e, at(c, p), q.v); r.ins(p, x, 0); break;
        default: k = nsym_choice("count", 4); c.insert_nothrow(e, at(c, p), (std::size_t)k, q); while (k--) r.ins(p, x, 0); break;
#else
        case 6: case 7: k = nsym_choice("count", n + 4); c.resize_nothrow(e, k, q); while (r.n < k) r.ins(r.n, x, 0); r.n = k; break;
        default: c.emplace_back_nothrow(e, q.v); p = n; r.ins(p, x, 0); break;
#endif
        }
        disarm(); reported(e); g_faults = 0;
        unsigned live = 0; for (C::iterator it = c.begin(); it != c.end(); ++it) live += 1 + (it->kid != nullptr);
        CHECK(g_live == (int)live, "objects were leaked or lost");
        if (!e)
        {
            if (op == 3 || op == 4) { unsigned j = op == 4 && p <= i ? i + 1 : i; Own* o = at(c, j)->kid; if (!o) nsym_fail("an element lost what it owns"); CHECK(o->v == x || o->v == (unsigned)MOVED, "a moved-from object has a third value"); o->v = x; }
            is(c, r, "the outcome differs from that with a copied argument"); nsym_cover("done");
        }
        else nsym_cover("failed");
        Err e2; c.push_back_nothrow(e2, Own(5)); CHECK(!e2 && c.size() && c.back().v == 5, "the container is unusable afterwards");
    }
    all_gone();
}
