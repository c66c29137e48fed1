// C22: allocators: a container takes memory only from the allocator it was given (or took over by swap or move), says which one that
// is, and gives every block back to the allocator it came from, with the size it was asked for.
#include "common.hpp"
typedef Elem<0> E;
// The least an allocator may offer: no rebind, no pointer types. PROP: the allocator goes along with a copy.
template <typename T> struct MinAlloc
{
    typedef T value_type; typedef std::true_type propagate_on_container_move_assignment;
#ifdef PROP
    typedef std::true_type propagate_on_container_copy_assignment;
#endif
    int id;
    MinAlloc() noexcept : id(-1) {} explicit MinAlloc(int i) noexcept : id(i) {} MinAlloc(const MinAlloc& o) noexcept : id(o.id) {} template <typename U> MinAlloc(const MinAlloc<U>& o) noexcept : id(o.id) {}
    MinAlloc& operator=(const MinAlloc& o) noexcept { id = o.id; return *this; }
    template <typename E> T* allocate(E& err, std::size_t n, const void*) noexcept { return TAlloc<T>(id).allocate(err, n); }
    void deallocate(T* p, std::size_t n) noexcept { TAlloc<T>(id).deallocate(p, n); }
};
template <typename T, typename U> bool operator==(const MinAlloc<T>& a, const MinAlloc<U>& b) noexcept { return a.id == b.id; }
// rebind names another template: that is the one to use for nodes
template <typename T> struct NodeAlloc : TAlloc<T> { NodeAlloc() noexcept {} explicit NodeAlloc(int i) noexcept : TAlloc<T>(i) {} template <typename U> NodeAlloc(const TAlloc<U>& o) noexcept : TAlloc<T>(o.id) {} template <typename U> struct rebind { typedef NodeAlloc<U> other; }; };
template <typename T> struct FrontAlloc : TAlloc<T>
{
    FrontAlloc() noexcept {} explicit FrontAlloc(int i) noexcept : TAlloc<T>(i) {} template <typename U> FrontAlloc(const TAlloc<U>& o) noexcept : TAlloc<T>(o.id) {} template <typename U> struct rebind { typedef NodeAlloc<U> other; };
    template <typename E> T* allocate(E& err, std::size_t n, const void* = 0) noexcept { nsym_fail("a node was allocated with another allocator type than rebind names"); return TAlloc<T>::allocate(err, n); }
};
#ifndef ALLOC
#define ALLOC TAlloc
#endif
typedef ALLOC<E> A;
#ifdef WRAPPED
namespace box = nestl::has_exceptions;
#define RAW(x) (x).as_noexcept()
#else
namespace box = nestl::no_exceptions;
#define RAW(x) (x)
#endif
#if defined(VECTORS)
typedef box::vector<E, A> C; static void put(C& c, unsigned x, Err& e) { c.push_back_nothrow(e, E(x)); }
#elif defined(LISTS)
typedef box::list<E, A> C; static void put(C& c, unsigned x, Err& e) { c.push_back_nothrow(e, E(x)); }
#else
typedef nestl::set<E, std::less<E>, A> C; static void put(C& c, unsigned x, Err& e) { c.insert_nothrow(e, E(x)); }
#endif
static int grows(C& c, unsigned x)               // which allocator serves the next element
{
    int b1 = live_blocks(1), b2 = live_blocks(2), b3 = live_blocks(3); Err e; unsigned n = c.size();
#ifdef VECTORS
    c.shrink_to_fit_nothrow(e); b1 = live_blocks(1); b2 = live_blocks(2); b3 = live_blocks(3); unsigned a = g_allocs; int before = g_nblk; (void)before;
    put(c, x, e); CHECK(!e && c.size() == n + 1 && g_allocs == a + 1, "an append failed although nothing can fail");
    for (int i = 0; i < g_nblk; ++i) if (g_blk[i].p == static_cast<void*>(&c[0])) return g_blk[i].id;
    return 0;
#else
    put(c, x, e); CHECK(!e && c.size() == n + 1, "an insertion failed although nothing can fail");
    return live_blocks(1) > b1 ? 1 : live_blocks(2) > b2 ? 2 : live_blocks(3) > b3 ? 3 : 0;
#endif
}
static void owns(C& c, int id, unsigned fresh)
{
    CHECK(c.get_allocator().id == id, "get_allocator() reports another allocator");
    CHECK(grows(c, fresh) == id, "memory was requested from another allocator than get_allocator() reports");
}
static void has(C& c, const Seq& s) { bool ok = c.size() == s.n; unsigned i = 0; for (C::iterator k = c.begin(); k != c.end(); ++k, ++i) { if (i >= s.n) nsym_fail("too many elements"); ok &= val(*k) == s.a[i]; } CHECK(ok && i == s.n, "elements changed"); }
void harness()
{
    {
        C a((A(1))), b((A(2))); Seq sa, sb; Err e; unsigned n = sized("n", 4, 9), m = sized("m", 4, 9);
        // keys in increasing order, so that all three containers keep them the way they were put in
        unsigned base = nsym_u8("base"); for (unsigned i = 0; i < n; ++i) { put(a, base + i, e); sa.push(base + i); } for (unsigned i = 0; i < m; ++i) { put(b, base + 16 * i, e); sb.push(base + 16 * i); }
        CHECK(!e && live_blocks(3) == 0 && (live_blocks(1) > 0) == (n > 0) && (live_blocks(2) > 0) == (m > 0), "memory was requested from another allocator than the one given");
        int ida = 1, idb = 2; unsigned f = 4096;
#if defined(LISTS) && defined(WRAPPED)
        unsigned f2 = 5000;                      // the throwing list gives no access to the nothrow one
        switch (nsym_range("op", 5))
        {
        case 0: a = b; sa = sb; ida = 0; break;
        case 1: a = std::move(b); sa = sb; sb.clear(); ida = 2; idb = 0; break;
        case 2: { C t(std::move(a)); has(t, sa); owns(t, 1, f); Seq none; has(a, none); sa.clear(); CHECK(a.get_allocator().id == 1, "a moved-from container lost its allocator"); break; }
        case 3: { C t((A(3))); put(t, 9, e); t = std::move(a); has(t, sa); owns(t, 1, f); sa.clear(); ida = 0; break; }
        default: { C t(a); has(t, sa); CHECK(t.get_allocator().id == 1, "a copy uses another allocator than its source"); owns(t, 1, f2); C u((A(3))); u = a; has(u, sa); CHECK(grows(u, f2) == u.get_allocator().id, "memory was requested from another allocator than get_allocator() reports");
                   a.sort(); b.assign_nothrow(e, a.begin(), a.end()); sb = sa; CHECK(!e, "an assignment failed although nothing can fail"); break; }
        }
#else
        unsigned f2 = 5000; (void)f2;
        switch (nsym_range("op", 10))
        {
        case 0: a.copy_nothrow(e, RAW(b)); CHECK(!e, "a copy failed although nothing can fail"); sa = sb;
#if defined(PROP) && !defined(VECTORS) && !defined(LISTS)
                ida = 2;
#endif
                break;
        case 1: a = std::move(b); sa = sb; sb.clear(); ida = 2; idb = 0; break;
        case 2: { C t(std::move(a)); has(t, sa); owns(t, 1, f); Seq none; has(a, none); sa.clear(); CHECK(a.get_allocator().id == 1, "a moved-from container lost its allocator"); break; }
        case 3: { C t((A(3))); put(t, 9, e); t = std::move(a); has(t, sa); owns(t, 1, f); sa.clear(); ida = 0; break; }
        case 4: a.clear(); sa.clear(); CHECK(a.get_allocator().id == 1, "clear changed the allocator"); break;
        case 5: { Err e2; C t((A(3))); t.copy_nothrow(e2, RAW(a)); has(t, sa); CHECK(!e2 && (!n || (live_blocks(3) > 0)
#if defined(PROP) && !defined(VECTORS) && !defined(LISTS)
                  || true
#endif
                  ), "a copy took memory from the source's allocator"); break; }
#if defined(VECTORS) || defined(LISTS)
        case 6: RAW(a).swap(RAW(b)); { Seq t = sa; sa = sb; sb = t; } ida = 2; idb = 1; break;
        case 8: { C t(a.get_allocator()); Seq st; 
#ifdef LISTS
                  a.sort(); for (unsigned i = 0; i < 3; ++i) { put(t, 9000 + i, e); sa.push(9000 + i); } RAW(a).splice(a.end(), RAW(t), t.begin()); RAW(a).splice(a.end(), RAW(t)); for (unsigned i = 0; i < 2; ++i) { put(t, 9500 + i, e); sa.push(9500 + i); } RAW(a).merge(RAW(t)); a.sort(); if (n) { a.pop_front(); sa.erase(0); }
                  C u(b.get_allocator()); u.assign_nothrow(e, a.begin(), a.end()); has(u, sa); owns(u, 2, f2); b.assign_nothrow(e, (std::size_t)2, E(base)); sb.clear(); sb.push(base); sb.push(base); b.insert_nothrow(e, b.end(), u.begin(), u.begin());
#else
                  a.reserve_nothrow(e, n + 4); owns(a, 1, f2); sa.push(f2); a.resize_nothrow(e, 2); while (sa.n > 2) sa.erase(sa.n - 1); while (sa.n < 2) sa.push(0); a.insert_nothrow(e, a.cbegin(), b.begin(), b.end()); for (unsigned i = 0; i < sb.n; ++i) sa.insert(i, sb.a[i]);
                  b.assign_nothrow(e, a.begin(), a.end()); sb = sa; C u(b.get_allocator()); u.assign_nothrow(e, (std::size_t)3, E(base)); owns(u, 2, f2);
#endif
                  CHECK(!e, "an operation failed although nothing can fail"); has(t, st); break; }
#ifdef WRAPPED
        case 9: { C t(a); has(t, sa); CHECK(grows(t, f2) == t.get_allocator().id && t.get_allocator().id == 1, "a copy uses another allocator than its source"); C u((A(3))); u = a; has(u, sa); CHECK(grows(u, f2) == u.get_allocator().id, "memory was requested from another allocator than get_allocator() reports");
                  C w(b.as_noexcept()); has(w, sb); CHECK(grows(w, f2) == w.get_allocator().id, "memory was requested from another allocator than get_allocator() reports"); w = a.as_noexcept(); has(w, sa); CHECK(grows(w, f2) == w.get_allocator().id, "memory was requested from another allocator than get_allocator() reports"); 
                  C m(std::move(a.as_noexcept())); has(m, sa); owns(m, 1, f2); Seq sm = sa; sm.push(f2); sa.clear(); b = std::move(m.as_noexcept()); sb = sm; idb = 1; break; }
#endif
        default: { C t((A(3))); RAW(t).swap(RAW(a)); owns(a, 3, f); has(t, sa); RAW(t).swap(RAW(a)); has(a, sa); C u((A(3))); u = std::move(t); owns(u, 3, f + 1); break; }
#else
        case 6: { Err e2; if (sa.n) { a.erase(a.begin()); sa.erase(0); } break; }
        default: { C t(std::move(b)); b = std::move(t); break; }
#endif
        }
#endif
        has(a, sa); has(b, sb);
        if (ida) { owns(a, ida, f); sa.push(f); has(a, sa); } else { CHECK(a.get_allocator().id > 0, "a moved-from container lost its allocator"); CHECK(grows(a, f) == a.get_allocator().id, "memory was requested from another allocator than get_allocator() reports"); }
        if (idb) { owns(b, idb, f); sb.push(f); has(b, sb); } else { CHECK(b.get_allocator().id > 0, "a moved-from container lost its allocator"); CHECK(grows(b, f) == b.get_allocator().id, "memory was requested from another allocator than get_allocator() reports"); }
        nsym_cover("end");
    }
    all_gone();
}
