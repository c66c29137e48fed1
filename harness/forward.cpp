// C26: what a container is given reaches the new element exactly as given: lvalues are copied and stay as they were, rvalues are moved and
// never copied, several arguments keep their order, constness and identity; elements that can only be moved work in lists and sets.
#include "common.hpp"
static unsigned g_lost;
struct Fw                                        // copied: how many copies lie between the object given and this one
{
    unsigned v, how, copied; const void* ref;
    struct Tok { unsigned v; explicit Tok(unsigned x) : v(x) {} };
    Fw() noexcept : v(0), how(0), copied(0), ref(nullptr) { ++g_live; }
    explicit Fw(unsigned x) noexcept : v(x), how(0), copied(0), ref(nullptr) { ++g_live; }
    Fw(const Fw& o) noexcept : v(o.v), how(o.how), copied(o.copied + 1), ref(o.ref) { ++g_live; }
    Fw(Fw&& o) noexcept : v(o.v), how(o.how), copied(o.copied), ref(o.ref) { o.v = MOVED; ++g_live; }
    Fw& operator=(const Fw& o) noexcept { v = o.v; how = o.how; copied = o.copied + 1; ref = o.ref; return *this; }
    Fw& operator=(Fw&& o) noexcept { v = o.v; how = o.how; copied = o.copied; ref = o.ref; o.v = MOVED; return *this; }
    Fw(Tok& t, unsigned& r, std::nullptr_t) noexcept : v(t.v), how(1), copied(0), ref(&r) { ++g_live; }
    Fw(const Tok& t, unsigned& r, std::nullptr_t) noexcept : v(t.v), how(2), copied(0), ref(&r) { ++g_live; }
    Fw(Tok&& t, unsigned& r, std::nullptr_t) noexcept : v(t.v), how(3), copied(0), ref(&r) { t.v = MOVED; ++g_live; }
    Fw(unsigned& r, Tok&& t) noexcept : v(t.v), how(4), copied(0), ref(&r) { t.v = MOVED; ++g_live; }
    Fw(const unsigned& r, Tok&& t) noexcept : v(t.v), how(5), copied(0), ref(&r) { t.v = MOVED; ++g_live; }
    ~Fw() { --g_live; }
};
inline bool operator<(const Fw& a, const Fw& b) { return a.v < b.v; }
struct Mo                                        // can only be moved
{
    unsigned v;
    explicit Mo(unsigned x) noexcept : v(x) { ++g_live; }
    Mo(Mo&& o) noexcept : v(o.v) { o.v = MOVED; ++g_live; }
    Mo(const Mo&) = delete; Mo& operator=(const Mo&) = delete;
    ~Mo() { --g_live; }
};
inline bool operator<(const Mo& a, const Mo& b) { return a.v < b.v; }
// initialised in two phases from arguments of different categories
struct Tw { unsigned v, how; const void* ref; Tw() noexcept : v(0), how(0), ref(nullptr) { ++g_live; } Tw(Tw&& o) noexcept : v(o.v), how(o.how), ref(o.ref) { ++g_live; } Tw(const Tw&) = delete; Tw& operator=(const Tw&) = delete; ~Tw() { --g_live; } };
namespace nestl { template <> struct two_phase_initializator<Tw> {
    template <typename E> static void init(E&, Tw& d, const Tw& o) noexcept { d.v = o.v; d.how = o.how; d.ref = o.ref; }
    template <typename E> static void init(E&, Tw& d, Fw::Tok& t, unsigned& r) noexcept { d.v = t.v; d.how = 1; d.ref = &r; }
    template <typename E> static void init(E&, Tw& d, const Fw::Tok& t, unsigned& r) noexcept { d.v = t.v; d.how = 2; d.ref = &r; }
    template <typename E> static void init(E&, Tw& d, Fw::Tok&& t, unsigned& r) noexcept { d.v = t.v; d.how = 3; d.ref = &r; t.v = MOVED; }
}; }

#if defined(VECTORS)
typedef nestl::impl::vector<Fw, TAlloc<Fw>> C; typedef nestl::impl::vector<Tw, TAlloc<Tw>> CT;
template <typename X> static typename X::iterator at(X& c, unsigned i) { return c.begin() + i; }
template <typename X> static void room(X& c, unsigned n) { Err e; c.reserve_nothrow(e, n); CHECK(!e, "reserve failed although nothing can fail"); }
#elif defined(LISTS)
typedef nestl::impl::list<Fw, TAlloc<Fw>> C; typedef nestl::impl::list<Tw, TAlloc<Tw>> CT;
template <typename X> static typename X::iterator at(X& c, unsigned i) { typename X::iterator it = c.begin(); while (i--) ++it; return it; }
template <typename X> static void room(X&, unsigned) {}
#endif
enum { N = 3 };
#ifndef SETS
static void given(const Fw& e, unsigned x) { CHECK(e.v == x, "the new element has another value"); }
static void harness_seq()
{
    unsigned n = sized("size", N, 9), x = nsym_u32("x"), y = nsym_u32("y"), slot = 0; Err e;
    C c(TAlloc<Fw>(1));
    if (nsym_choice("room", 2)) room(c, n + 2);
    for (unsigned i = 0; i < n; ++i) c.emplace_back_nothrow(e, i);
    Fw src(x), src2(y); const Fw& csrc = src; unsigned pos = n;
    nsym_assume(x != MOVED); nsym_assume(y != MOVED);
#ifdef LISTS
    enum { OPS = 12 };
#else
    enum { OPS = 9 };
#endif
    unsigned op = nsym_range("op", OPS);
    switch (op)
    {
    case 0: c.push_back_nothrow(e, std::move(src)); break;
    case 1: if (nsym_choice("const", 2)) c.push_back_nothrow(e, csrc); else c.push_back_nothrow(e, src); break;
    case 2: pos = pick("pos", n + 1); c.insert_nothrow(e, at(c, pos), std::move(src)); break;
    case 3: pos = pick("pos", n + 1); c.insert_nothrow(e, at(c, pos), csrc); break;
    case 4: c.emplace_back_nothrow(e, std::move(src)); break;
    case 5: if (nsym_choice("const", 2)) c.emplace_back_nothrow(e, csrc); else c.emplace_back_nothrow(e, src); break;
    case 6: case 9: case 10:
    {
        Fw::Tok t(x); const Fw::Tok& ct = t; unsigned how = nsym_range("how", 5) + 1;
        if (op == 10) pos = pick("pos", n + 1); else if (op == 9) pos = 0;
#define GO(...) if (op == 6) c.emplace_back_nothrow(e, __VA_ARGS__); else EMP(__VA_ARGS__)
#ifdef LISTS
#define EMP(...) if (op == 9) c.emplace_front_nothrow(e, __VA_ARGS__); else { C::iterator it = c.emplace_nothrow(e, at(c, pos), __VA_ARGS__); CHECK(it == at(c, pos), "emplace returned an iterator to another place"); }
#else
#define EMP(...) {}
#endif
        const unsigned& cs = slot;
        switch (how)
        {
        case 1: GO(t, slot, nullptr) break;
        case 2: GO(ct, slot, nullptr) break;
        case 3: GO(std::move(t), slot, nullptr) break;
        case 4: GO(slot, std::move(t)) break;
        default: GO(cs, std::move(t)) break;
        }
        CHECK(!e, "an operation failed although nothing can fail");
        const Fw& f = *at(c, pos);
        CHECK(f.how == how && f.ref == &slot, "arguments did not reach the constructor as they were given"); given(f, x); CHECK(f.copied == 0, "an element made from arguments was copied");
        CHECK(how >= 3 ? t.v == MOVED : t.v == x, "an argument was not passed through as given"); nsym_cover("emplaced");
        break;
    }
    case 7: case 8:                              // ranges of rvalues
    {
        Fw r[2] = { Fw(x), Fw(y) }; unsigned k = nsym_range("count", 3), mv = nsym_choice("move", 2);
        if (op == 7)
        {
            pos = pick("pos", n + 1);
            if (mv) c.insert_nothrow(e, at(c, pos), std::make_move_iterator(r), std::make_move_iterator(r + k)); else c.insert_nothrow(e, at(c, pos), r, r + k);
        }
        else { pos = 0; n = 0; if (mv) c.assign_nothrow(e, std::make_move_iterator(r), std::make_move_iterator(r + k)); else c.assign_nothrow(e, r, r + k); }
        CHECK(!e, "an operation failed although nothing can fail");
        CHECK(c.size() == n + k, "another number of elements was inserted");
        for (unsigned i = 0; i < k; ++i) { given(*at(c, pos + i), i ? y : x); CHECK(r[i].v == (mv ? (unsigned)MOVED : i ? y : x), mv ? "a range of rvalues was copied" : "a range that was to be copied was changed"); }
        for (unsigned i = k; i < 2; ++i) CHECK(r[i].v == (i ? y : x), "an object behind the range was changed");
        nsym_cover("range");
        break;
    }
#ifdef LISTS
    case 11: pos = 0; if (nsym_choice("front_rvalue", 2)) { op = 0; c.push_front_nothrow(e, std::move(src)); } else { op = 1; c.push_front_nothrow(e, csrc); } break;
#endif
    }
    CHECK(!e, "an operation failed although nothing can fail");
    if (op <= 5)
    {
        bool rv = false; if (op == 0 || op == 2 || op == 4) rv = true; given(*at(c, pos), x);
        CHECK(src.v == (rv ? (unsigned)MOVED : x), rv ? "an rvalue was not moved" : "an lvalue argument was changed");
        if (rv) CHECK(at(c, pos)->copied == 0, "an rvalue was copied");
        nsym_cover(rv ? "moved" : "copied");
    }
}
static void harness_phases()
{
    unsigned y = nsym_u32("y"), slot = 0;
    nsym_assume(y != MOVED);
    {
        CT d(TAlloc<Tw>(2)); Fw::Tok t(y); const Fw::Tok& ct = t; unsigned how = nsym_range("phase", 3) + 1; Err e2;
        if (how == 1) d.emplace_back_nothrow(e2, t, slot); else if (how == 2) d.emplace_back_nothrow(e2, ct, slot); else d.emplace_back_nothrow(e2, std::move(t), slot);
        CHECK(!e2 && d.size() == 1 && d.front().v == y && d.front().how == how && d.front().ref == &slot && (t.v == (how == 3 ? (unsigned)MOVED : y)), "arguments did not reach the initialisation as they were given");
    }
}
static void harness_others()
{
    unsigned x = nsym_u32("x"), y = nsym_u32("y");
    nsym_assume(x != MOVED); nsym_assume(y != MOVED);
#ifdef LISTS
    {
        typedef nestl::impl::list<Mo, TAlloc<Mo>> M; M m(TAlloc<Mo>(3)); Err e3;
        Mo a(x); m.push_back_nothrow(e3, std::move(a)); m.emplace_front_nothrow(e3, y); m.emplace_nothrow(e3, m.cend(), Mo(7u)); m.insert_nothrow(e3, m.cbegin(), Mo(8u));
        CHECK(!e3 && m.size() == 4 && a.v == MOVED, "a list of elements that can only be moved does not work");
        unsigned want[4] = { 8, y, x, 7 }, i = 0; for (M::iterator it = m.begin(); it != m.end(); ++it, ++i) CHECK(it->v == want[i], "a list of elements that can only be moved holds other values");
        m.sort(); M o(std::move(m)); o.splice(o.cbegin(), o, --o.end()); o.erase(o.begin()); CHECK(o.size() == 3 && m.empty(), "a list of elements that can only be moved does not work");
        m = std::move(o); m.swap(o); CHECK(o.size() == 3, "a list of elements that can only be moved does not work");
    }
#endif
#if EXC
    {                                            // the throwing interface
#ifdef VECTORS
        nestl::has_exceptions::vector<Fw, TAlloc<Fw>> w{TAlloc<Fw>(4)};
#else
        nestl::has_exceptions::list<Fw, TAlloc<Fw>> w{TAlloc<Fw>(4)};
#endif
        Fw a(x), b(y); const Fw& cb = b;
        w.push_back(std::move(a)); CHECK(w.front().v == x && w.front().copied == 0 && a.v == MOVED, "a throwing push_back did not move an rvalue");
        w.push_back(cb); w.push_back(b); CHECK(w.size() == 3 && w.back().v == y && b.v == y, "a throwing push_back changed an lvalue");
    }
#endif
}
#else
static void harness_set()
{
    {
        nestl::set<Fw, std::less<Fw>, TAlloc<Fw>> s(std::less<Fw>(), TAlloc<Fw>(1)); Err e; unsigned n = sized("size", N, 9);
        for (unsigned i = 0; i < n; ++i) { Fw k((unsigned)nsym_u8("key")); s.insert_nothrow(e, k); }
        unsigned x = nsym_u8("x"), mv = nsym_choice("move", 3); Fw k(x); const Fw& ck = k; std::size_t before = s.size();
        auto r = mv == 2 ? s.insert_nothrow(e, std::move(k)) : mv ? s.insert_nothrow(e, ck) : s.insert_nothrow(e, k);
        CHECK(!e, "an operation failed although nothing can fail");
        CHECK(r.first->v == x && s.size() == before + r.second, "insert made another element");
        CHECK(k.v == (mv == 2 && r.second ? (unsigned)MOVED : x), mv == 2 && r.second ? "an rvalue was not moved" : "an argument that was not to be consumed was changed");
        if (mv == 2 && r.second) { CHECK(r.first->copied == 0, "an rvalue was copied"); nsym_cover("moved"); }
        if (mv == 2 && !r.second) nsym_cover("present");
        if (mv < 2) nsym_cover("copied");
    }
    {
        typedef nestl::set<Mo, std::less<Mo>, TAlloc<Mo>> M; M m(std::less<Mo>(), TAlloc<Mo>(3)); Err e;
        unsigned a = nsym_u8("a"), b = nsym_u8("b"), c = nsym_u8("c"); Mo x(a), y(b), z(c);
        m.insert_nothrow(e, std::move(x)); m.insert_nothrow(e, std::move(y)); bool fresh = m.insert_nothrow(e, std::move(z)).second;
        CHECK(!e && x.v == MOVED && fresh == (c != a && c != b) && (fresh ? z.v == MOVED : z.v == c), "a set of elements that can only be moved does not work");
        M o(std::move(m)); CHECK(m.empty() && o.size() == 1u + (b != a) + fresh, "moving a set of elements that can only be moved lost some"); m = std::move(o); o = std::move(m);
        CHECK(o.erase(Mo(a)) == 1 && o.find(Mo(a)) == o.end() && (b == a || o.find(Mo(b))->v == b), "a set of elements that can only be moved does not work");
    }
}
#endif
void harness()
{
#ifdef SETS
    harness_set();
#else
    switch (nsym_choice("part", 3)) { case 0: harness_seq(); break; case 1: harness_phases(); break; default: harness_others(); break; }
#endif
    all_gone();
}
