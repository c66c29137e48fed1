// C01, C06: ranges given to assign and insert may come from any container and any kind of iterator, over values of another type.
#include "common.hpp"
#include <iterator>
typedef Elem<0> E;
#ifdef LISTS
typedef nestl::no_exceptions::list<E, TAlloc<E>> C;
#else
typedef nestl::no_exceptions::vector<E, TAlloc<E>> C;
#endif
// an iterator of a given category that yields values (or references) made on the fly and counts every access
struct Tag : std::random_access_iterator_tag {};
static unsigned g_derefs;
template <typename Cat, typename Val, bool ByValue> struct Gen
{
    typedef Cat iterator_category; typedef Val value_type; typedef std::ptrdiff_t difference_type; typedef const Val* pointer; typedef typename std::conditional<ByValue, Val, const Val&>::type reference;
    const Val* p; const Val* end;
    Gen(const Val* q, const Val* e) : p(q), end(e) {}
    reference operator*() const { if (p >= end) nsym_fail("a range is read past its end"); ++g_derefs; return *p; }
    Gen& operator++() { if (p >= end) nsym_fail("a range is stepped past its end"); ++p; return *this; }
    Gen operator++(int) { Gen t(*this); ++*this; return t; }
    Gen& operator--() { --p; return *this; }
    Gen& operator+=(std::ptrdiff_t n) { p += n; if (p > end) nsym_fail("a range is stepped past its end"); return *this; }
    Gen operator+(std::ptrdiff_t n) const { Gen t(*this); t += n; return t; }
    std::ptrdiff_t operator-(const Gen& o) const { return p - o.p; }
    bool operator==(const Gen& o) const { return p == o.p; }
    bool operator!=(const Gen& o) const { return p != o.p; }
};
static C::iterator at(C& c, unsigned i) { C::iterator it = c.begin(); while (i--) ++it; return it; }
static C* g_c; static Seq g_s; static unsigned g_op, g_pos;
template <typename I> static void run(Err& e, I f, I l, const unsigned* want, unsigned k)
{
    g_derefs = 0;
    if (g_op) { g_c->insert_nothrow(e, at(*g_c, g_pos), f, l); for (unsigned i = 0; i < k; ++i) g_s.insert(g_pos + i, want[i]); }
    else { g_c->assign_nothrow(e, f, l); g_s.clear(); for (unsigned i = 0; i < k; ++i) g_s.push(want[i]); }
}
void harness()
{
    {
        C c(TAlloc<E>(1)); g_c = &c; g_s = Seq(); Err e; unsigned n = nsym_choice("size", nsym_param("maxn", 3) + 1), k = nsym_choice("count", nsym_param("maxk", 4) + 1), x[16], up[16], rev[16];
#ifndef LISTS
        c.reserve_nothrow(e, n + nsym_choice("slack", 2) * 2);
#endif
        for (unsigned i = 0; i < n; ++i) { unsigned v = nsym_u32("elem"); c.push_back_nothrow(e, E(v)); g_s.push(v); }
        for (unsigned i = 0; i < k; ++i) x[i] = nsym_u32("value") & 0xffff;
        for (unsigned i = 0; i < k; ++i) { rev[k - 1 - i] = x[i]; up[i] = i * 3 + 1; }
        g_op = nsym_choice("op", 2); g_pos = g_op ? nsym_choice("pos", n + 1) : 0;
        nestl::no_exceptions::vector<E> v; nestl::no_exceptions::list<E> l; nestl::set<E> s; unsigned short h[16]; E a[16];
        for (unsigned i = 0; i < k; ++i) { v.push_back_nothrow(e, E(x[i])); l.push_back_nothrow(e, E(x[i])); s.insert_nothrow(e, E(up[k - 1 - i])); h[i] = (unsigned short)x[i]; setval(a[i], x[i]); }
        int live = g_live - (int)n; unsigned kind = nsym_choice("kind", 15); const unsigned short* hp = h; const E* ap = a; const nestl::no_exceptions::list<E>& cl = l; const nestl::no_exceptions::vector<E>& cv = v;
        typedef std::input_iterator_tag In; typedef std::forward_iterator_tag Fw; typedef std::bidirectional_iterator_tag Bi; typedef std::random_access_iterator_tag Ra; bool counted = false;
        switch (kind)
        {
        case 0: run(e, v.begin(), v.end(), x, k); break;
        case 1: run(e, cv.rbegin(), cv.rend(), rev, k); break;
        case 2: run(e, l.begin(), l.end(), x, k); break;
        case 3: run(e, cl.begin(), cl.end(), x, k); break;
        case 4: run(e, l.rbegin(), l.rend(), rev, k); break;
        case 5: run(e, s.begin(), s.end(), up, k); break;
        case 6: run(e, hp, hp + k, x, k); break;
        case 7: run(e, Gen<In, unsigned short, true>(hp, hp + k), Gen<In, unsigned short, true>(hp + k, hp + k), x, k); counted = true; break;
        case 8: run(e, Gen<Fw, unsigned short, false>(hp, hp + k), Gen<Fw, unsigned short, false>(hp + k, hp + k), x, k); break;
        case 9: run(e, Gen<Bi, E, false>(ap, ap + k), Gen<Bi, E, false>(ap + k, ap + k), x, k); break;
        case 10: run(e, Gen<Ra, E, true>(ap, ap + k), Gen<Ra, E, true>(ap + k, ap + k), x, k); break;
        case 11: run(e, Gen<Tag, E, false>(ap, ap + k), Gen<Tag, E, false>(ap + k, ap + k), x, k); break;
        case 12: run(e, Gen<In, E, true>(ap, ap + k), Gen<In, E, true>(ap + k, ap + k), x, k); counted = true; break;
        case 13: run(e, std::make_move_iterator(a), std::make_move_iterator(a + k), x, k); for (unsigned i = 0; i < k; ++i) CHECK(val(a[i]) == (unsigned)MOVED, "an element of a range of rvalues was copied"); break;
        default: run(e, v.rbegin(), v.rend(), rev, k); break;
        }
        CHECK(!e, "an operation failed although nothing can fail");
        if (counted) CHECK(g_derefs == k, "an element of a range is not read exactly once");
        CHECK(c.size() == g_s.n, "another number of elements than the range has arrived"); bool ok = true; unsigned i = 0;
        for (C::iterator it = c.begin(); it != c.end(); ++it, ++i) { if (i >= g_s.n) nsym_fail("iteration visits too many elements"); ok &= val(*it) == g_s.a[i]; }
        CHECK(ok && i == g_s.n, "the content differs from the range given");
        i = 0; for (nestl::no_exceptions::vector<E>::iterator it = v.begin(); it != v.end(); ++it, ++i) ok &= val(*it) == x[i];
        i = 0; for (nestl::no_exceptions::list<E>::iterator it = l.begin(); it != l.end(); ++it, ++i) ok &= val(*it) == x[i];
        CHECK(ok, "the source of a range changed"); CHECK(g_live == live + (int)g_s.n, "elements were leaked or lost"); nsym_cover("ranges");
    }
    all_gone();
}
