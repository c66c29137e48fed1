// C21: copy, copy_if, equal, lexicographical_compare over arbitrary ranges; copying stops at the first failure and says where.
#ifndef CAUSE
#define CAUSE
#endif
#include "common.hpp"
#ifndef ELEM
#define ELEM Elem<1>
#endif
typedef ELEM E;
#ifdef MID
enum { MAXN = 20, MAXD = 20 };
#else
enum { MAXN = 5, MAXD = 8 };
#endif
template <typename T> struct It                  // a single pass iterator that watches its range
{
    typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T* pointer; typedef T& reference;
    T* p; T* end;
    It(T* q, T* e) : p(q), end(e) {}
    T& operator*() const { if (p >= end) nsym_fail("an algorithm reads or writes past the end of a range"); return *p; }
    It& operator++() { if (p >= end) nsym_fail("an algorithm steps past the end of a range"); ++p; return *this; }
    It operator++(int) { It t(*this); ++*this; return t; }
    bool operator==(const It& o) const { return p == o.p; }
    bool operator!=(const It& o) const { return p != o.p; }
};
// like a floating point number: some values (0..3 modulo 8) are equal to nothing, not even to themselves
struct Part { unsigned v; explicit Part(unsigned x = 0) : v(x) {} bool none() const { return (v & 7) < 4; } bool operator==(const Part& o) const { return !none() && v == o.v; } bool operator<(const Part& o) const { return !none() && !o.none() && v < o.v; } };
static unsigned g_calls;
struct Odd { unsigned bit; bool operator()(const E& e) const { ++g_calls; return (val(e) >> bit) & 1; } };
struct Same { bool operator()(const E& a, const E& b) const { return (val(a) & 15) == (val(b) & 15); } };
struct Down { bool operator()(const E& a, const E& b) const { return (val(a) & 15) > (val(b) & 15); } };
static int cmp(const unsigned* a, unsigned n, const unsigned* b, unsigned m, int how)   // -1, 0, 1 in the order `how`
{
    for (unsigned i = 0; i < n && i < m; ++i)
    {
        unsigned x = a[i], y = b[i]; if (how) { x = 15 - (x & 15); y = 15 - (y & 15); }
        if (x < y) return -1; if (y < x) return 1;
    }
    return n < m ? -1 : n > m ? 1 : 0;
}
void harness()
{
    {
        unsigned op = nsym_choice("op", 4), n = sized("n", nsym_param("maxn", 4) + 1, op ? 17 : 9), a[MAXN], b[MAXN]; Err e;
        nestl::list<E> la, lb; nestl::vector<E> va, vb;
        for (unsigned i = 0; i < n; ++i) { a[i] = nsym_u32("a"); va.push_back_nothrow(e, E(a[i])); la.push_back_nothrow(e, E(a[i])); }
        E* p = n ? &va[0] : nullptr;
        if (op == 0)
        {
            unsigned d0[MAXD]; E* d; nestl::vector<E> vd; for (unsigned i = 0; i < MAXD; ++i) { d0[i] = nsym_u32("d"); vd.push_back_nothrow(e, E(d0[i])); } d = &vd[0];
            unsigned bit = nsym_range("bit", 32), how = nsym_choice("how", 5), m = 0, want[MAXD];
            bool all = how == 0 || how == 1 || how == 4;
            for (unsigned i = 0; i < n; ++i) if (all || ((a[i] >> bit) & 1)) want[m++] = a[i];
            int live = g_live; E* q; g_calls = 0; g_faults = 2; arm(); Odd odd = { bit };
            switch (how)
            {
            case 0: q = nestl::copy(e, It<const E>(p, p + n), It<const E>(p + n, p + n), It<E>(d, d + m)).p; break;
            case 1: q = nestl::copy(e, la.begin(), la.end(), d); break;
            case 2: q = nestl::copy_if(e, It<const E>(p, p + n), It<const E>(p + n, p + n), It<E>(d, d + m), odd).p; break;
            case 3: q = nestl::copy_if(e, la.cbegin(), la.cend(), d, odd); break;
            default: m = n ? n - 1 : 0; for (unsigned i = 0; i < m; ++i) want[i] = a[i + 1]; q = nestl::copy(e, p + (n ? 1 : 0), p + n, p); d = p; break;   // to the left within one range
            }
            disarm(); g_faults = 0; reported(e); CHECK(g_live == live, "copy made or destroyed elements");
            unsigned done = (unsigned)(q - d); CHECK(q >= d && (e ? done < m : done == m), "copy returned another end of the result"); bool ok = true;
            if (how != 4) { for (unsigned i = 0; i < MAXD; ++i) ok &= val(d[i]) == (i < done ? want[i] : d0[i]); for (unsigned i = 0; i < n; ++i) ok &= val(p[i]) == a[i]; }
            else for (unsigned i = 0; i < n; ++i) ok &= val(p[i]) == (i < done ? want[i] : a[i]);
            CHECK(ok, e ? "a failed copy wrote something else than the elements it reported" : "copy gave another result");
            if (!e && how >= 2 && how <= 3) CHECK(g_calls == n, "copy_if asks the predicate another number of times than there are elements");
            if (e) nsym_cover("failed"); else nsym_cover("copied");
        }
        else if (op == 3)
        {   // comparison of whole containers
            unsigned m = pick("m", nsym_param("maxn", 4) + 1); nestl::no_exceptions::vector<E> x, y; nestl::no_exceptions::list<E> k, l; x.reserve_nothrow(e, n + 2);
            for (unsigned i = 0; i < n; ++i) { x.push_back_nothrow(e, E(a[i])); k.push_back_nothrow(e, E(a[i])); }
            for (unsigned i = 0; i < m; ++i) { b[i] = nsym_u32("b"); y.push_back_nothrow(e, E(b[i])); l.push_back_nothrow(e, E(b[i])); }
            bool want = n == m; for (unsigned i = 0; i < n && i < m; ++i) want &= a[i] == b[i];
            CHECK((x == y) == want && (y == x) == want && x == x, "comparison of vectors is wrong"); CHECK((k == l) == want && (l == k) == want && k == k, "comparison of lists is wrong"); nsym_cover("containers");
            if (n == m)
            {
                nestl::no_exceptions::vector<Part> px; nestl::no_exceptions::list<Part> pk; unsigned odd = pick("odd", n + 1);   // one element, or none of them, does not equal itself
                for (unsigned i = 0; i < n; ++i) { px.push_back_nothrow(e, Part(i == odd ? 3 : 8 * i + 4)); pk.push_back_nothrow(e, Part(i == odd ? 3 : 8 * i + 4)); }
                bool self = odd == n;
                CHECK((px == px) == self && (pk == pk) == self && nestl::equal(px.begin(), px.end(), px.begin()) == self, "a range with an element that does not equal itself was not compared by its elements");
                CHECK(!nestl::lexicographical_compare(px.begin(), px.end(), pk.begin(), pk.end()), "lexicographical_compare() is wrong"); nsym_cover("irreflexive");
            }
        }
        else
        {
            unsigned m = op == 1 ? n : pick("m", nsym_param("maxn", 4) + 1); for (unsigned i = 0; i < m; ++i) { b[i] = nsym_u32("b"); vb.push_back_nothrow(e, E(b[i])); lb.push_back_nothrow(e, E(b[i])); }
            E* r = m ? &vb[0] : nullptr; unsigned how = nsym_choice("how", 4);
            if (op == 1)
            {
                bool want = true, got; for (unsigned i = 0; i < n; ++i) want &= how & 1 ? (a[i] & 15) == (b[i] & 15) : a[i] == b[i];
                switch (how) { case 0: got = nestl::equal(It<const E>(p, p + n), It<const E>(p + n, p + n), It<const E>(r, r + m)); break; case 1: got = nestl::equal(It<const E>(p, p + n), It<const E>(p + n, p + n), It<const E>(r, r + m), Same()); break;
                               case 2: got = nestl::equal(la.begin(), la.end(), vb.begin()); break; default: got = nestl::equal(va.cbegin(), va.cend(), lb.cbegin(), Same()); break; }
                CHECK(got == want, "equal() is wrong"); nsym_cover("equal");
            }
            else
            {
                bool got, want = cmp(a, n, b, m, how & 1) < 0;
                switch (how) { case 0: got = nestl::lexicographical_compare(It<const E>(p, p + n), It<const E>(p + n, p + n), It<const E>(r, r + m), It<const E>(r + m, r + m)); break; case 1: got = nestl::lexicographical_compare(It<const E>(p, p + n), It<const E>(p + n, p + n), It<const E>(r, r + m), It<const E>(r + m, r + m), Down()); break;
                               case 2: got = nestl::lexicographical_compare(la.begin(), la.end(), vb.begin(), vb.end()); break; default: got = nestl::lexicographical_compare(va.cbegin(), va.cend(), lb.cbegin(), lb.cend(), Down()); break; }
                CHECK(got == want, "lexicographical_compare() is wrong"); nsym_cover("less");
            }
        }
    }
    all_gone();
}
