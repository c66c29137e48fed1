// C26, C16, C17: of the constructors of a type it is the one named by the arguments that is called, not one taking a braced list.
#include "common.hpp"
#include <initializer_list>
struct Odd
{
    unsigned v, how;
    Odd() noexcept : v(0), how(1) { ++g_live; }
    explicit Odd(unsigned x) noexcept : v(x), how(2) { ++g_live; }
    Odd(unsigned x, unsigned y) noexcept : v(x ^ y), how(3) { ++g_live; }
    Odd(std::initializer_list<unsigned> l) noexcept : v((unsigned)l.size()), how(9) { ++g_live; }
    Odd(const Odd& o) noexcept : v(o.v), how(o.how) { ++g_live; }
    Odd(Odd&& o) noexcept : v(o.v), how(o.how) { o.v = MOVED; ++g_live; }
    Odd& operator=(const Odd& o) noexcept { v = o.v; how = o.how; return *this; }
    Odd& operator=(Odd&& o) noexcept { v = o.v; how = o.how; return *this; }
    Odd& operator=(std::initializer_list<unsigned>) noexcept { how = 9; return *this; }
    ~Odd() { --g_live; }
    // what a class may define for its own use, and a library of generic code must not get hold of
    Odd* operator&() { nsym_fail("the library uses an overloaded operator& of an element"); return nullptr; }
    const Odd* operator&() const { nsym_fail("the library uses an overloaded operator& of an element"); return nullptr; }
    static void* operator new(std::size_t, void* p) noexcept { nsym_fail("the library uses the operator new of an element type"); return p; }
    static void* operator new(std::size_t) noexcept { nsym_fail("the library uses the operator new of an element type"); return nullptr; }
    static void operator delete(void*) noexcept { nsym_fail("the library uses the operator delete of an element type"); }
};
inline bool operator==(const Odd& a, const Odd& b) noexcept { return a.v == b.v; }
inline bool operator<(const Odd& a, const Odd& b) noexcept { return a.v < b.v; }
static void is(const Odd& o, unsigned v, unsigned how) { CHECK(o.v == v, "the element has another value"); CHECK(o.how == how, "another constructor was called than the arguments name"); }
#if defined(VECTORS) || defined(LISTS)
#ifdef VECTORS
typedef nestl::impl::vector<Odd, TAlloc<Odd>> C;
static C::iterator at(C& c, unsigned i) { return c.begin() + i; }
#else
typedef nestl::impl::list<Odd, TAlloc<Odd>> C;
static C::iterator at(C& c, unsigned i) { C::iterator it = c.begin(); while (i--) ++it; return it; }
#endif
static void body(unsigned x, unsigned y)
{
    Err e; C c(TAlloc<Odd>(1)); unsigned n = nsym_choice("size", 3), how = 2; Odd src(x);
    for (unsigned i = 0; i < n; ++i) c.emplace_back_nothrow(e, i);
    unsigned pos = nsym_choice("pos", n + 1), more = 1; 
    switch (nsym_choice("op", 9))
    {
    case 0: pos = n; c.emplace_back_nothrow(e, x); break;
    case 1: pos = n; c.emplace_back_nothrow(e, x, y); x ^= y; how = 3; break;
    case 2: pos = n; c.push_back_nothrow(e, src); break;
    case 3: pos = n; c.push_back_nothrow(e, std::move(src)); break;
    case 4: c.insert_nothrow(e, at(c, pos), src); break;
    case 5: c.insert_nothrow(e, at(c, pos), std::move(src)); break;
    case 6: { Odd* r = std::addressof(src); c.insert_nothrow(e, at(c, pos), r, r + 1); break; }
    case 7: c.assign_nothrow(e, 2, src); n = 1; pos = 0; is(*at(c, 1), x, 2); break;
    default:
#ifdef VECTORS
        pos = n; c.resize_nothrow(e, n + 2); more = 2; x = 0; how = 1; is(*at(c, n + 1), 0, 1); c.shrink_to_fit_nothrow(e); CHECK(c.data() + pos == std::addressof(c[pos]), "data() differs from the address of an element");
#else
        c.emplace_nothrow(e, at(c, pos), x, y); x ^= y; how = 3;
#endif
    }
    CHECK(!e, "an operation failed although nothing can fail");
    is(*at(c, pos), x, how); CHECK(std::addressof(at(c, pos)->v) == std::addressof((*at(c, pos)).v), "-> and * of an iterator differ");
    is(c.front(), pos ? 0 : x, pos ? 2 : how);
    C d(TAlloc<Odd>(2)); d.copy_nothrow(e, c); CHECK(!e && d.size() == c.size(), "a copy differs"); is(*at(d, pos), x, how);
    C f(std::move(d)); f.swap(c); is(*at(c, pos), x, how);
#ifdef LISTS
    c.erase(at(c, pos)); CHECK(c.size() == f.size() - 1, "erase removed another number of elements");
#endif
    c.clear(); (void)more; nsym_cover("odd");
}
#elif defined(SETS)
typedef nestl::impl::set<Odd, std::less<Odd>, TAlloc<Odd>> C;
static void body(unsigned x, unsigned y)
{
    Err e; C c(std::less<Odd>(), TAlloc<Odd>(1)); Odd a(x), b(y, 0u);
    C::iterator_with_flag p = c.insert_nothrow(e, a), q = c.insert_nothrow(e, std::move(b)); b.v = y;
    CHECK(!e && p.second, "an operation failed although nothing can fail"); is(*p.first, x, 2); is(*q.first, y, x == y ? 2 : 3);
    C d(std::less<Odd>(), TAlloc<Odd>(2)); d.copy_nothrow(e, c); is(*d.find(a), x, 2); is(*d.find(b), y, x == y ? 2 : 3);
    C f(std::move(c)); c = std::move(f); CHECK(c.erase(a) == 1 && c.size() == (x == y ? 0u : 1u), "an element was not erased"); nsym_cover("odd");
}
#else
template <typename P> static void made(const P& p, const Err& e, unsigned v, unsigned how) { CHECK(!e && !!p, "make_shared failed although nothing can fail"); is(*p, v, how); CHECK(std::addressof(*p) == p.get(), "* and get() differ"); }
static void body(unsigned x, unsigned y)
{
    typedef nestl::shared_ptr<Odd> S; Err e; TAlloc<Odd> a(1);
    made(nestl::make_shared_a_nothrow<Odd>(e, a), e, 0, 1);
    made(nestl::make_shared_a_nothrow<Odd>(e, a, x), e, x, 2);
    S p = nestl::make_shared_a_nothrow<Odd>(e, a, x, y); made(p, e, x ^ y, 3);
    made(nestl::make_shared_a_nothrow<Odd>(e, a, *p), e, x ^ y, 3);
    made(nestl::make_shared_nothrow<Odd>(e, x, y), e, x ^ y, 3);
    made(nestl::make_shared_nothrow<Odd>(e), e, 0, 1);
    nestl::weak_ptr<Odd> w(p); S q(w.lock()), r; r.swap(q); p.reset(); is(*r, x ^ y, 3);
    nestl::shared_ptr<const Odd> c(r); is(*c, x ^ y, 3);
    // one object
    nestl::aligned_buffer<Odd> b; Odd* o = static_cast<Odd*>(b.address());
    switch (nsym_choice("op", 3)) { case 0: nestl::class_operations::construct(e, o); is(*o, 0, 1); break; case 1: nestl::class_operations::construct(e, o, x); is(*o, x, 2); break; default: nestl::class_operations::construct(e, o, x, y); is(*o, x ^ y, 3); }
    nestl::class_operations::assign(e, *o, *r); is(*o, x ^ y, 3); CHECK(!e, "an operation failed although nothing can fail"); o->~Odd();
    // the algorithms
    Odd s[2] = { Odd(x), Odd(y) }, t[2]; typedef Odd* I; I s0 = std::addressof(s[0]), t0 = std::addressof(t[0]);
    CHECK(nestl::copy(e, s0, s0 + 2, t0) == t0 + 2, "copy returned another position"); is(t[0], x, 2); is(t[1], y, 2); nsym_cover("odd");
}
#endif
void harness()
{
    unsigned x = nsym_u32("x"), y = nsym_u32("y"); nsym_assume(x != MOVED && y != MOVED);
    body(x, y);
    all_gone();
}
