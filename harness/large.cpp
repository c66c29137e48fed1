// The same guarantees on large containers (C01, C06, C07, C09, C10, C13, C14, C15): contents of a fixed pattern with arbitrary values at some places,
// sizes beyond every table, counter or threshold the small scopes could miss.
#include "common.hpp"
typedef Elem<0> E;
#ifdef TRACK                                        // an allocator that checks what it is given back
#define ALLOC , TAlloc<E>
#define MK(i) (TAlloc<E>(i))
#else
#define ALLOC
#define MK(i)
#endif
static unsigned g_cmp;
struct Hi { bool operator()(const E& a, const E& b) const { ++g_cmp; return (val(a) >> 8) < (val(b) >> 8); } };
enum { CAP = 4200 };
static unsigned ref[CAP], nref; static const E* adr[CAP];               // what is expected, and where (null: anywhere)
static void r_insert(unsigned pos, unsigned x) { for (unsigned i = nref; i > pos; --i) { ref[i] = ref[i - 1]; adr[i] = adr[i - 1]; } ref[pos] = x; adr[pos] = nullptr; ++nref; }
static void r_erase(unsigned pos) { for (unsigned i = pos; i + 1 < nref; ++i) { ref[i] = ref[i + 1]; adr[i] = adr[i + 1]; } --nref; }
template <typename C> static void mark(C& c) { unsigned i = 0; for (typename C::iterator it = c.begin(); it != c.end(); ++it) adr[i++] = &*it; }
template <typename C> static void stay(C& c) { bool ok = true; unsigned i = 0; for (typename C::iterator it = c.begin(); it != c.end() && i < nref; ++it, ++i) ok &= !adr[i] || adr[i] == &*it; CHECK(ok, "an element moved to another address"); }
static unsigned pat(unsigned i, unsigned n) { return (i * 7919u + 13u) % n; }        // a permutation for the n used here
static unsigned place(const char* name, unsigned n) { unsigned k = nsym_choice(name, 3); return k == 0 ? 0 : k == 1 ? n / 3 : n; }
template <typename C> static void same(C& c)
{
    CHECK(c.size() == nref && c.empty() == (nref == 0), "size() differs from the number of elements"); bool ok = true; unsigned i = 0;
    for (typename C::iterator it = c.begin(); it != c.end(); ++it, ++i) { if (i >= nref) nsym_fail("iteration visits too many elements"); ok &= val(*it) == ref[i]; }
    CHECK(i == nref && ok, "an element differs from the expected sequence");
    for (typename C::reverse_iterator it = c.rbegin(); it != c.rend(); ++it) { if (!i) nsym_fail("reverse iteration visits too many elements"); ok &= val(*it) == ref[--i]; }
    CHECK(i == 0 && ok, "reverse iteration differs from the expected sequence");
}
#if defined(SORT)
static void part()
{
    typedef nestl::no_exceptions::list<E> L; L l; Err e; unsigned n = nsym_param("n", 260) + nsym_choice("more", nsym_param("span", 2)), way = nsym_choice("pattern", 3), at = way == 0 ? n / 3 : way == 1 ? 0 : n - 1;
    static const E* where[CAP]; unsigned x = nsym_u32("key"), keys = nsym_param("keys", 64);
    if (keys) nsym_assume(x < keys << 8);
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned k = way == 0 ? pat(i, 65521) & 1023 : way == 1 ? n - i : i;
        ref[i] = i == at ? x : k << 8 | 1; l.push_back_nothrow(e, E(ref[i])); where[i] = &l.back();
    }
    CHECK(!e, "building the list failed although nothing can fail");
    g_cmp = 0; l.sort(Hi());
    unsigned lg = 0; while ((1u << lg) < n) ++lg;
    CHECK(g_cmp <= 2 * n * (lg + 2), "sort needs more than O(n log n) comparisons");
    CHECK(l.size() == n, "sort changed the number of elements"); bool ok = true; unsigned prev = 0, i = 0;
    static unsigned char seen[CAP]; memset(seen, 0, sizeof seen);
    for (L::iterator it = l.begin(); it != l.end(); ++it, ++i)
    {
        if (i >= n) nsym_fail("sort corrupted the list: too many elements");
        if (i) ok &= prev <= (val(*it) >> 8);
        prev = val(*it) >> 8;
    }
    CHECK(ok && i == n, "the result is not ordered");
    // every element is still there, once, unchanged, at its old address; equivalent ones in their old order
    for (unsigned k = 0; k < n; ++k) CHECK(val(*where[k]) == ref[k], "sort changed or moved an element");
    static const E* order[CAP]; i = 0; for (L::iterator it = l.begin(); it != l.end(); ++it) order[i++] = &*it;
    bool stable = true; static unsigned pos[CAP];
    // address -> original index, by binary search over the (concrete) addresses
    static unsigned idx[CAP]; for (unsigned k = 0; k < n; ++k) { unsigned j = k; while (j && where[idx[j - 1]] > where[k]) { idx[j] = idx[j - 1]; --j; } idx[j] = k; }
    for (unsigned k = 0; k < n; ++k)
    {
        unsigned lo = 0, hi = n; while (hi - lo > 1) { unsigned m = (lo + hi) / 2; if (where[idx[m]] <= order[k]) lo = m; else hi = m; }
        if (where[idx[lo]] != order[k] || seen[idx[lo]]) nsym_fail("sort lost, duplicated or moved an element");
        seen[idx[lo]] = 1; pos[k] = idx[lo];
        if (k) stable &= (ref[pos[k - 1]] >> 8) != (ref[pos[k]] >> 8) || pos[k - 1] < pos[k];
    }
    CHECK(stable, "equivalent elements were reordered");
    i = n; for (L::iterator it = l.end(); it != l.begin();) { if (!i--) nsym_fail("sort corrupted the backward links"); --it; }
    CHECK(i == 0, "sort corrupted the backward links"); nsym_cover("sorted");
}
#elif defined(LISTS)
static void part()
{
    g_maxbytes = 1ul << 24; typedef nestl::no_exceptions::list<E ALLOC> L; L l MK(1), o MK(1); Err e; unsigned n = nsym_param("n", 300), k = nsym_param("k", 40), x = nsym_u32("x");
    for (unsigned i = 0; i < n; ++i) { unsigned v = i == n / 2 ? x : i; l.push_back_nothrow(e, E(v)); ref[nref++] = v; }
    for (unsigned i = 0; i < k; ++i) o.push_front_nothrow(e, E(5000 + i));
    CHECK(!e, "building failed although nothing can fail"); same(l); mark(l);
    unsigned p = place("pos", n), op = nsym_choice("op", 8); L::iterator it = l.begin(); for (unsigned i = 0; i < p; ++i) ++it; L::iterator f = o.begin(), t = f; for (unsigned i = 0; i < 3; ++i) ++f; for (unsigned i = 0; i < k - 3; ++i) ++t;
    switch (op)
    {
    case 0: l.insert_nothrow(e, it, (std::size_t)k, E(x)); for (unsigned i = 0; i < k; ++i) r_insert(p, x); break;
    case 1: l.insert_nothrow(e, it, o.begin(), o.end()); for (unsigned i = 0; i < k; ++i) r_insert(p + i, 5000 + k - 1 - i); break;
    case 2: l.splice(it, o); for (unsigned i = 0; i < k; ++i) r_insert(p + i, 5000 + k - 1 - i); CHECK(o.empty(), "splice left elements behind"); break;
    case 3: l.splice(it, o, f, t); for (unsigned i = 0; i < k - 6; ++i) r_insert(p + i, 5000 + k - 4 - i); CHECK(o.size() == 6, "splice took another number of elements"); break;
    case 4: { L::iterator q = it; unsigned c = 0; while (q != l.end() && c < 100) { ++q; ++c; } L::iterator r = l.erase(it, q); CHECK(r == q, "range erase did not return the end of the erased range"); for (unsigned i = 0; i < c; ++i) r_erase(p); break; }
    case 5: l.assign_nothrow(e, (std::size_t)(n + k), E(x)); nref = n + k; for (unsigned i = 0; i < nref; ++i) { ref[i] = x; adr[i] = nullptr; } break;
    case 6: { L c MK(3); c.copy_nothrow(e, l); same(c); stay(l); c.swap(l); stay(c); c.clear(); mark(l); L m(std::move(l)); same(m); l = std::move(m); CHECK(m.empty(), "a moved-from list is not empty"); break; }
    default: while (nref > k) { if (nref & 1) { l.pop_back(); --nref; } else { l.pop_front(); r_erase(0); } } break;
    }
    CHECK(!e, "an operation failed although nothing can fail"); same(l); stay(l); nsym_cover("large list");
}
#elif defined(VECTORS)
static void part()
{
    g_maxbytes = 1ul << 24; typedef nestl::no_exceptions::vector<E ALLOC> V; V v MK(1), o MK(2); Err e; unsigned n = nsym_param("n", 300), k = nsym_param("k", 40), x = nsym_u32("x");
    for (unsigned i = 0; i < n; ++i) { unsigned y = i == n / 2 ? x : i; v.push_back_nothrow(e, E(y)); ref[nref++] = y; }
    for (unsigned i = 0; i < k; ++i) o.push_back_nothrow(e, E(5000 + i));
    CHECK(!e, "building failed although nothing can fail"); same(v);
    unsigned p = place("pos", n), op = nsym_choice("op", 8);
    switch (op)
    {
    case 0: for (unsigned i = 0; i < k; ++i) { V::iterator it = v.insert_nothrow(e, v.cbegin() + p, E(x + i)); r_insert(p, x + i); CHECK(it == v.begin() + p, "insert returned another position"); } break;
    case 1: v.insert_nothrow(e, v.cbegin() + p, o.begin(), o.end()); for (unsigned i = 0; i < k; ++i) r_insert(p + i, 5000 + i); break;
    case 2: v.resize_nothrow(e, n + 2 * k, E(x)); for (unsigned i = 0; i < 2 * k; ++i) ref[nref++] = x; break;
    case 3: v.resize_nothrow(e, p); nref = p; same(v); v.shrink_to_fit_nothrow(e); CHECK(v.capacity() == p, "shrink_to_fit left spare capacity"); break;
    case 4: v.reserve_nothrow(e, 4 * n); CHECK(v.capacity() >= 4 * n, "reserve did not provide the capacity"); break;
    case 5: v.assign_nothrow(e, (std::size_t)(n + k), E(x)); nref = n + k; for (unsigned i = 0; i < nref; ++i) ref[i] = x; break;
    case 6: { V c MK(3); c.copy_nothrow(e, v); same(c); CHECK(c == v, "a copy differs"); c.swap(v); c.clear(); V m(std::move(v)); same(m); v = std::move(m); CHECK(m.empty(), "a moved-from vector is not empty"); break; }
    default: v.assign_nothrow(e, InIt(ref + p), InIt(ref + n)); for (unsigned i = 0; i + p < n; ++i) ref[i] = ref[i + p]; nref = n - p; break;
    }
    CHECK(!e, "an operation failed although nothing can fail"); same(v); nsym_cover("large vector");
}
#elif defined(SETS)
static void part()
{
    typedef nestl::set<E, std::less<E> ALLOC> S; S s MK(1); Err e; unsigned n = nsym_param("n", 300), x = nsym_range("key", 8 * nsym_param("keys", 6)) + 8 * nsym_param("from", 0), way = nsym_choice("pattern", 3); nref = n;
    for (unsigned i = 0; i < n; ++i) { unsigned k = way == 0 ? i : way == 1 ? n - 1 - i : (i * 7) % n; ref[k] = 8 * k + 4; s.insert_nothrow(e, E(ref[k])); }    // n is no multiple of 7
    CHECK(!e, "building failed although nothing can fail"); same(s); mark(s);
    unsigned at = 0; while (at < n && ref[at] < x) ++at;                      // one path per place the key can have
    bool there = at < n && ref[at] == x;
    if (nsym_choice("erase", 2))
    {
        unsigned c = s.erase(E(x)); CHECK(c == there, "erase reported another number of elements"); if (there) r_erase(at);
    }
    else
    {
        auto r = s.insert_nothrow(e, E(x)); CHECK(!e && r.second == !there && val(*r.first) == x, "insert reported something else"); if (!there) r_insert(at, x);
    }
    same(s); stay(s);
    if (nsym_choice("copy", 2)) { S c MK(3); c.copy_nothrow(e, s); CHECK(!e, "copy failed although nothing can fail"); same(c); stay(s); s.clear(); CHECK(s.empty() && s.begin() == s.end(), "clear left elements"); mark(c); s = std::move(c); same(s); S m(std::move(s)); same(m); s = std::move(m); }
    stay(s);
    CHECK((s.find(E(x)) != s.end()) == (there ? nref == n : nref > n), "find is wrong"); nsym_cover("large set");
}
#else
static void part()
{
    typedef nestl::no_exceptions::shared_ptr<E> P; typedef nestl::no_exceptions::weak_ptr<E> W;
    Err e; unsigned x = nsym_u32("x"); long n = nsym_param("n", 70000); g_maxbytes = 1ul << 24;
    P p = nestl::make_shared_nothrow<E>(e, x); CHECK(!e && p.use_count() == 1, "make_shared failed although nothing can fail");
    if (nsym_choice("weak", 2))
    {
        W w(p); W* ws = static_cast<W*>(nsym_malloc(n * sizeof(W))); for (long i = 0; i < n; ++i) new (ws + i) W(w);
        CHECK(p.use_count() == 1 && w.use_count() == 1 && !w.expired(), "observers are counted as owners");
        bool early = nsym_choice("early", 2); if (early) { p.reset(); CHECK(g_live == 0 && w.expired() && !w.lock(), "observers keep the value alive"); }
        for (long i = 0; i < n; ++i) { if ((i & 4095) == 1) CHECK(early ? ws[i].expired() && !ws[i].lock() : ws[i].lock().get() == p.get(), "lock() is wrong"); ws[i].~W(); }
        CHECK(early ? w.expired() : w.lock().use_count() == 2, "observers are counted as owners"); nsym_free(ws); nsym_cover("observers");
    }
    else
    {
        P* ps = static_cast<P*>(nsym_malloc(n * sizeof(P))); for (long i = 0; i < n; ++i) new (ps + i) P(p);
        CHECK(p.use_count() == n + 1 && !p.unique(), "use_count() differs from the number of owners");
        for (long i = 0; i < n; ++i) { ps[i].~P(); if ((i & 4095) == 1) CHECK(g_live == 1 && val(*p) == x && p.use_count() == n - i, "use_count() differs from the number of owners"); }
        CHECK(p.unique() && g_live == 1 && val(*p) == x, "the value did not survive its other owners"); nsym_free(ps); nsym_cover("owners");
    }
}
#endif
void harness() { part(); all_gone(); }
