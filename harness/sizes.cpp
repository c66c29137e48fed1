// C03: every size a caller can ask for, over the whole range of the size type, is either honoured in full or refused with an error;
// no request is silently cut down by arithmetic overflow.
#include "common.hpp"
struct B1 { unsigned char x[1]; }; struct B2 { unsigned short x; }; struct B3 { unsigned char x[3]; }; struct B8 { unsigned long x; };
struct B16 { unsigned long x[2]; }; struct B24 { unsigned long x[3]; }; struct B40 { unsigned char x[40]; };
enum { LIMIT = 96 };
struct Far                                       // a random access range of n equal values
{
    typedef std::random_access_iterator_tag iterator_category; typedef unsigned long value_type; typedef std::ptrdiff_t difference_type;
    typedef const unsigned long* pointer; typedef const unsigned long& reference;
    long i; static unsigned long x;
    explicit Far(long k) : i(k) {}
    const unsigned long& operator*() const { return x; }
    Far& operator++() { ++i; return *this; }
    Far operator++(int) { Far t(*this); ++i; return t; }
    bool operator==(const Far& o) const { return i == o.i; }
    bool operator!=(const Far& o) const { return i != o.i; }
    std::ptrdiff_t operator-(const Far& o) const { return i - o.i; }
};
unsigned long Far::x;
struct LX { unsigned long v; LX() noexcept : v(0) {} LX(unsigned long x) noexcept : v(x) {} };

template <typename T> static void alloc_part()
{
    nestl::allocator<T> a; Err e; unsigned long n = nsym_u64("n");
    T* p = a.allocate(e, n);
    if (p)
    {
        CHECK(!e, "allocate returned memory and an error");
        CHECK(n <= g_maxbytes / sizeof(T) && g_lastbytes >= nsym_fork64(n) * sizeof(T), "allocate returned a block smaller than n elements");
        n = nsym_fork64(n);
        memset(static_cast<void*>(p), 0, n * sizeof(T));           // the whole block is usable
        a.deallocate(p, n); nsym_cover("served");
    }
    else
    {
        CHECK(!!e, "allocate returned no memory and no error"); CHECK(why(e) == C_ALLOC, "the error reported is another one than the one that happened");
        CHECK(n > g_maxbytes / sizeof(T), "allocate refused a request the system can serve");
        nsym_cover("refused");
    }
}

// an allocator that counts in 8 bits
template <typename T> struct Narrow
{
    typedef T value_type; typedef unsigned char size_type; typedef std::true_type propagate_on_container_move_assignment;
    template <typename U> struct rebind { typedef Narrow<U> other; };
    Narrow() noexcept {} template <typename U> Narrow(const Narrow<U>&) noexcept {}
    template <typename E> T* allocate(E& err, size_type n, const void* = 0) noexcept { T* p = n > g_maxbytes / sizeof(T) ? nullptr : static_cast<T*>(track_alloc(n, sizeof(T), 1)); if (!p) build_bad_alloc(err); return p; }
    void deallocate(T* p, size_type n) noexcept { track_free(p, n, sizeof(T), 1); }
};
static void narrow_part()
{
    typedef nestl::impl::vector<B1, Narrow<B1>> V;
    g_maxbytes = 400;
    {
    V v; Err e; unsigned n0 = nsym_choice("size", 3); n0 = n0 == 0 ? 0 : n0 == 1 ? 90 : 140;
    B1 x; x.x[0] = 7;
    for (unsigned i = 0; i < n0; ++i) v.push_back_nothrow(e, x);
    CHECK(!e, "push_back failed although nothing can fail");
    unsigned long n = nsym_u64("n"); unsigned op = nsym_choice("op", 5), cap = v.capacity();
    if (!nsym_param("all", 0)) nsym_assume(n < 2 || n - n0 < 3 || n > 252);
    switch (op)
    {
    case 0: v.reserve_nothrow(e, n); break;
    case 1: v.resize_nothrow(e, n); break;
    case 2: v.resize_nothrow(e, n, x); break;
    case 3: v.assign_nothrow(e, n, x); break;
    default: n = 300; while (!e && v.size() < n) v.push_back_nothrow(e, x); break;
    }
    if (e) { CHECK(n > 255, "a size request was refused although the memory is there"); if (op < 3) CHECK(v.size() == n0 && v.capacity() == cap, "a refused size request changed the vector"); nsym_cover("narrow refused"); }
    else { CHECK(n <= 255, "more elements than the allocator can count were reported as served"); n = nsym_fork64(n); if (op) CHECK(v.size() == n, "resize(n) or assign(n) succeeded without n elements"); CHECK(v.capacity() >= n, "a request succeeded without capacity for n elements"); nsym_cover("narrow served"); }
    for (unsigned long i = 0; i < v.size(); ++i) v[i] = x;
    }
    all_gone();
}

template <typename T> static void vec_part()
{
    typedef nestl::no_exceptions::vector<T> V;
    V v; Err e; unsigned n0 = nsym_choice("size", 3);
    for (unsigned i = 0; i < n0; ++i) v.push_back_nothrow(e, T());
    CHECK(!e, "push_back failed although nothing can fail");
    CHECK(v.max_size() <= ~0ul / sizeof(T), "max_size() claims more elements than can be addressed");
    unsigned long n = nsym_u64("n"), fit = g_maxbytes / sizeof(T), cap = v.capacity(); T x = T();
    unsigned op = nsym_choice("op", 4);
    switch (op)
    {
    case 0: v.reserve_nothrow(e, n); break;
    case 1: v.resize_nothrow(e, n); break;
    case 2: v.resize_nothrow(e, n, x); break;
    case 3: v.assign_nothrow(e, n, x); break;
    }
    if (e)
    {
        CHECK(n > fit / 2, "a size request was refused although the memory is there");
#ifdef CAUSE
        CHECK(why(e) == (n > v.max_size() ? C_INIT : C_ALLOC), "the error reported is another one than the one that happened");
        if (n > v.max_size()) nsym_cover("too long"); else nsym_cover("no memory");
#endif
        if (op == 3) CHECK(v.size() <= n, "a failed assign left more elements than asked for");
        else { CHECK(v.size() == n0, "a refused size request changed the size"); CHECK(v.capacity() == cap, "a refused size request changed the capacity"); }
        nsym_cover("refused");
    }
    else
    {
        CHECK(n <= fit || n <= cap, "a size request beyond the available memory was reported as served");
        n = nsym_fork64(n);
        if (op == 0) { CHECK(v.size() == n0 && v.capacity() >= n, "reserve(n) succeeded without capacity for n elements"); while (v.size() < n) { v.push_back_nothrow(e, x); CHECK(!e, "append within the reserved capacity failed"); } }
        else CHECK(v.size() == n && v.capacity() >= n, "resize(n) or assign(n) succeeded without n elements");
        for (unsigned long i = 0; i < v.size(); ++i) v[i] = x;
        nsym_cover("served");
    }
}

static void range_part()
{
    typedef nestl::no_exceptions::vector<LX> V;
    V v; Err e; unsigned n0 = nsym_choice("size", 3);
    for (unsigned i = 0; i < n0; ++i) v.push_back_nothrow(e, LX(i));
    unsigned long n = nsym_u64("n"); nsym_assume(n < (1ul << 63)); Far::x = nsym_u64("x");
    v.assign_nothrow(e, Far(0), Far((long)n));
    if (e) { CHECK(n > g_maxbytes / sizeof(LX) / 2, "a range assign was refused although the memory is there"); nsym_cover("refused"); }
    else { CHECK(v.size() == n, "a range assign succeeded with another number of elements"); bool ok = true; for (unsigned long i = 0; i < v.size(); ++i) ok &= v[i].v == Far::x; CHECK(ok, "an assigned element differs"); nsym_cover("served"); }
}

static void list_part()
{
    typedef nestl::no_exceptions::list<LX> L;
    L l; Err e; l.push_back_nothrow(e, LX(7)); CHECK(!e, "push_back failed although nothing can fail");
    unsigned long n = nsym_u64("n"); LX x(nsym_u64("x"));
    bool ins = nsym_choice("op", 2);
    g_oom = true; g_armed = 1; g_at = 5; g_sticky = 1; g_tick = g_hits = 0;      // the system has five more nodes
    if (ins) l.insert_nothrow(e, l.cbegin(), n, x); else l.assign_nothrow(e, n, x);
    g_armed = 0;
    if (e) { CHECK(why(e) == C_ALLOC, "the error reported is another one than the one that happened"); CHECK(g_hits > 0, "a count was refused although nothing failed"); nsym_cover("refused"); }
    else { CHECK(l.size() == n + ins, "n copies were reported as inserted but the size differs"); nsym_cover("served"); }
}

void harness()
{
    g_maxbytes = nsym_param("limit", LIMIT);
    switch (nsym_choice("part", 13))
    {
    case 0: alloc_part<B1>(); break;
    case 1: alloc_part<B2>(); break;
    case 2: alloc_part<B3>(); break;
    case 3: alloc_part<B8>(); break;
    case 4: alloc_part<B16>(); break;
    case 5: alloc_part<B24>(); break;
    case 6: alloc_part<B40>(); break;
    case 7: vec_part<LX>(); break;
    case 8: vec_part<B16>(); break;
    case 9: vec_part<B24>(); break;
    case 10: range_part(); break;
    case 11: list_part(); break;
    default: narrow_part(); break;
    }
}
