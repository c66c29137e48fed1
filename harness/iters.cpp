// Iterators (C01, C06, C10): every step from every position, in both spellings, for every kind of iterator, on contents with arbitrary values.
#include "common.hpp"
typedef Elem<0> E;
template <typename I> static const E* arrow(const I& it) { return it.operator->(); }
static const E* arrow(E* it) { return it; }
static const E* arrow(const E* it) { return it; }
template <typename C, typename I> static I at(I it, unsigned p) { while (p--) ++it; return it; }
template <typename I> static void steps(I begin, I end, const unsigned* ref, unsigned n)
{
    unsigned p = nsym_choice("position", n + 1); I it = at<int>(begin, p), old = it; I other; other = it;
    CHECK(it == other && !(it != other) && it == old, "a copy of an iterator differs from it");
    CHECK((it == end) == (p == n) && (it != end) == (p != n) && (it == begin) == (p == 0) && (begin != it) == (p != 0), "iterators compare wrongly");
    if (p < n) CHECK((val(*it) == ref[p]) & (val(*arrow(it)) == ref[p]) & (&*it == arrow(it)), "an iterator does not denote its element");
    unsigned to = p;
    switch (nsym_choice("step", 4))
    {
    case 0: if (p < n) { I& r = ++it; CHECK(&r == &it, "++it does not return it"); to = p + 1; } break;
    case 1: if (p < n) { I r = it++; CHECK(r == old, "it++ does not return the old position"); to = p + 1; } break;
    case 2: if (p) { I& r = --it; CHECK(&r == &it, "--it does not return it"); to = p - 1; } break;
    default: if (p) { I r = it--; CHECK(r == old, "it-- does not return the old position"); to = p - 1; } break;
    }
    CHECK(it == at<int>(begin, to) && other == old && (it == old) == (to == p), "a step leads to another position");
    if (to < n) CHECK(val(*it) == ref[to], "an iterator does not denote its element");
    std::swap(it, old); CHECK(old == at<int>(begin, to) && it == at<int>(begin, p), "swapping iterators is wrong"); nsym_cover("stepped");
}
template <typename C> static auto put(C& c, Err& e, unsigned x, int) -> decltype(c.push_back_nothrow(e, E(x))) { c.push_back_nothrow(e, E(x)); }
template <typename C> static void put(C& c, Err& e, unsigned x, long) { c.insert_nothrow(e, E(x)); }
template <typename C, bool Set> static void kinds()
{
    C c; const C& k = c; Err e; unsigned n = nsym_choice("size", nsym_param("n", 4)), ref[8], rev[8];
    for (unsigned i = 0; i < n; ++i) { ref[i] = nsym_u32("x"); if (Set && i) nsym_assume(ref[i] > ref[i - 1]); rev[n - 1 - i] = ref[i]; put(c, e, ref[i], 0); }
    CHECK(!e && c.size() == n, "building failed although nothing can fail");
    unsigned (*const r)[8] = &ref; unsigned (*const b)[8] = &rev;
    switch (nsym_choice("kind", 8))
    {
    case 0: steps<typename C::iterator>(c.begin(), c.end(), *r, n); break;
    case 1: steps<typename C::const_iterator>(k.begin(), k.end(), *r, n); break;
    case 2: steps<typename C::const_iterator>(c.cbegin(), c.cend(), *r, n); break;
    case 3: steps<typename C::reverse_iterator>(c.rbegin(), c.rend(), *b, n); break;
    case 4: steps<typename C::const_reverse_iterator>(k.rbegin(), k.rend(), *b, n); break;
    case 5: steps<typename C::const_reverse_iterator>(c.crbegin(), c.crend(), *b, n); break;
    case 6: { typename C::const_iterator f = c.begin(), t = c.end(); steps<typename C::const_iterator>(f, t, *r, n); break; }
    default: { typename C::const_iterator f = k.begin(); typename C::iterator i = c.begin(); unsigned p = nsym_choice("position", n + 1); while (p--) { ++i; f++; } CHECK(f == typename C::const_iterator(i) && f == i && !(f != i), "an iterator differs from its constant counterpart"); break; }
    }
}
typedef nestl::no_exceptions::vector<E> V; typedef nestl::no_exceptions::list<E> L; typedef nestl::set<E> S;
void harness()
{
#if defined(LISTS)
    kinds<L, false>();
#elif defined(SETS)
    kinds<S, true>();
#else
    kinds<V, false>();
#endif
    all_gone();
}
