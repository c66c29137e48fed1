// C27: the ordered tree under the set: equal keys, hints, ranges, bounds, with a key inside a larger value; a failure changes nothing.
#include "common.hpp"
#ifndef ELEM
#define ELEM Elem<0>
#endif
typedef ELEM E;
struct P                                         // a value that contains its key
{
    E k; unsigned tag;
    P(unsigned key, unsigned t) noexcept(noexcept(E(1u))) : k(key), tag(t) {}
};
struct KeyOf { const E& operator()(const P& p) const noexcept { return p.k; } };
struct Cmp
{
    bool down; explicit Cmp(bool d = false) noexcept : down(d) {}
    bool operator()(const E& a, const E& b) const noexcept { return down ? val(b) < val(a) : val(a) < val(b); }
};
static bool g_down;
static bool before(unsigned a, unsigned b) { return g_down ? b < a : a < b; }
typedef nestl::impl::detail::rb_tree<E, P, KeyOf, Cmp, TAlloc<P>> T;
struct Ref                                       // the sequence the tree must be: keys in order, tags, addresses
{
    enum { CAP = 40 };
    unsigned n, k[CAP], tag[CAP]; const P* p[CAP];
    Ref() : n(0) {}
    unsigned lower(unsigned x) const { unsigned c = 0; for (unsigned i = 0; i < n; ++i) if (before(k[i], x)) ++c; return c; }
    unsigned upper(unsigned x) const { unsigned c = 0; for (unsigned i = 0; i < n; ++i) if (!before(x, k[i])) ++c; return c; }
    void put(unsigned pos, unsigned x, unsigned t, const P* q) { for (unsigned i = n; i > pos; --i) { k[i] = k[i - 1]; tag[i] = tag[i - 1]; p[i] = p[i - 1]; } k[pos] = x; tag[pos] = t; p[pos] = q; ++n; }
    void del(unsigned f, unsigned l) { for (unsigned i = l; i < n; ++i) { k[f + i - l] = k[i]; tag[f + i - l] = tag[i]; p[f + i - l] = p[i]; } n -= l - f; }
};
static unsigned place(T& t, T::iterator it) { unsigned i = 0; for (T::iterator j = t.begin(); j != t.end(); ++j, ++i) { if (i > 64) nsym_fail("iteration does not end"); if (j == it) return i; } if (it != t.end()) nsym_fail("an iterator that was returned is not in the tree"); return i; }
static T::iterator at(T& t, unsigned i) { T::iterator it = t.begin(); while (i--) ++it; return it; }
static void observe(T& t, const Ref& r, int live)
{
    const T& c = t; bool ok = true; unsigned i = 0;
    CHECK(t.size() == r.n && t.empty() == (r.n == 0) && t.max_size() >= r.n, "size() or empty() is wrong");
    for (T::iterator it = t.begin(); it != t.end(); ++it, ++i) { if (i >= r.n) nsym_fail("iteration visits too many elements"); if (&*it != r.p[i]) nsym_fail("an element is at another place in the order, or moved in memory"); ok &= (val(it->k) == r.k[i]) & (it->tag == r.tag[i]); if (i) ok &= !before(r.k[i], r.k[i - 1]); }
    CHECK(i == r.n, "iteration visits too few elements"); CHECK(ok, "the elements are not the expected ones in ascending order");
    for (T::reverse_iterator it = t.rbegin(); it != t.rend(); ++it) if (!i || &*it != r.p[--i]) nsym_fail("reverse iteration differs from iteration");
    CHECK(i == 0, "reverse iteration visits too few elements");
    for (T::const_iterator it = c.begin(); it != c.end(); ++it, ++i) if (i >= r.n || &*it != r.p[i]) nsym_fail("const iteration differs from iteration");
    CHECK(i == r.n, "const iteration visits too few elements"); CHECK(t.key_comp().down == g_down, "the comparator was lost");
    CHECK(g_live == live, "elements are left undestroyed or were destroyed twice");
}
static inline bool operator==(const P& a, const P& b) { return (val(a.k) == val(b.k)) & (a.tag == b.tag); }
static inline bool operator<(const P& a, const P& b) { return (val(a.k) < val(b.k)) | ((val(a.k) == val(b.k)) & (a.tag < b.tag)); }
#define KEY(name) ((unsigned)nsym_u8(name))
static void lookups(T& t, const Ref& r, unsigned x)
{
    const T& c = t; E key(x); unsigned lo = r.lower(x), up = r.upper(x);
    CHECK(place(t, t.lower_bound(key)) == lo, "lower_bound is not the first element that is not before the key");
    CHECK(place(t, t.upper_bound(key)) == up, "upper_bound is not the first element after the key");
    CHECK(c.lower_bound(key) == T::const_iterator(t.lower_bound(key)) && c.upper_bound(key) == T::const_iterator(t.upper_bound(key)), "the const bounds differ");
    std::pair<T::iterator, T::iterator> q = t.equal_range(key); CHECK(place(t, q.first) == lo && place(t, q.second) == up, "equal_range is not the range of the elements equal to the key");
    std::pair<T::const_iterator, T::const_iterator> cq = c.equal_range(key); CHECK(cq.first == T::const_iterator(q.first) && cq.second == T::const_iterator(q.second), "the const equal_range differs");
    CHECK(c.count(key) == up - lo, "count is not the number of elements equal to the key");
    unsigned f = place(t, t.find(key)); CHECK(lo == up ? f == r.n : f >= lo && f < up, "find misses a key or finds another one"); CHECK(c.find(key) == T::const_iterator(t.find(key)), "const find differs");
}
static unsigned hinted(const Ref& r, unsigned h, unsigned x)
{
    if (h < r.n && before(r.k[h], x)) return r.lower(x);
    return h == 0 || !before(x, r.k[h - 1]) ? h : r.upper(x);
}
// what a unique insertion did: r is brought up to date
static void unique(T& t, Ref& r, T::iterator it, unsigned x, unsigned tag)
{
    unsigned lo = r.lower(x), up = r.upper(x), at = place(t, it);
    if (lo == up) { CHECK(at == lo && it != t.end() && val(it->k) == x && it->tag == tag, "a new key was not inserted at its place"); r.put(lo, x, tag, &*it); }
    else CHECK(at >= lo && at < up, "an insertion of a key that is present did not return that element");
}
static void equal(T& t, Ref& r, T::iterator it, unsigned pos, unsigned x, unsigned tag)
{
    CHECK(it != t.end() && val(it->k) == x && it->tag == tag, "the iterator returned does not show the new element"); r.put(pos, x, tag, &*it);
}
void harness()
{
    {
        g_down = nsym_choice("descending", 2); T t((Cmp(g_down)), TAlloc<P>(1)); Ref r; Err e; int b = g_live;
#ifdef MID
        unsigned n = nsym_param("mid", 12) + nsym_choice("more", nsym_param("more", 3)), pat = nsym_choice("pattern", 3);
        for (unsigned i = 0; i < n; ++i) { unsigned x = (pat == 0 ? i / 2 : pat == 1 ? n - i : i * 5 % 7) * 8 + 4, pos = r.upper(x); equal(t, r, t.m_emplace_equal(e, x, i), pos, x, i); }
#else
        unsigned n = nsym_choice("size", nsym_param("maxn", 4) + 1);
        for (unsigned i = 0; i < n; ++i) { unsigned x = KEY("key"), pos = r.upper(x); equal(t, r, t.m_emplace_equal(e, x, i), pos, x, i); }
#endif
        CHECK(!e, "an insertion failed although nothing can fail"); observe(t, r, b + n);
        g_faults = nsym_param("faults", 0); unsigned op = nsym_choice("op", 15), x = KEY("x"), h = op == 2 || op == 4 || op == 6 || op == 8 || op == 9 ? pick("at", n + 1) : 0; T::iterator it; std::pair<T::iterator, bool> q;
        if (op < 8)
        {
            T::iterator hint = at(t, h); unsigned had = r.upper(x) - r.lower(x);
            {
                P v(x, 77), w[2] = {P(x, 77), P(x ^ 9, 78)}; arm();
                switch (op)
                {
                case 0: q = t.m_insert_unique(e, static_cast<const P&>(v)); it = q.first; break;
                case 1: q = t.m_insert_unique(e, std::move(v)); it = q.first; break;
                case 2: it = t.m_insert_unique_at(e, hint, static_cast<const P&>(v)); break;
                case 3: q = t.m_emplace_unique(e, x, 77u); it = q.first; break;
                case 4: it = t.m_emplace_hint_unique(e, hint, x, 77u); break;
                case 5: it = t.m_emplace_equal(e, x, 77u); break;
                case 6: it = t.m_emplace_hint_equal(e, hint, x, 77u); break;
                default: t.m_insert_unique(e, w, w + 2); break;
                }
                disarm(); reported(e); CHECK(val(w[0].k) == x, "an argument was changed");
            }
            if (e && op != 7) { nsym_cover("failed"); CHECK(it == t.end(), "a failed insertion returned an element"); }
            else if (op == 7)
            {   // a range: the keys that were absent have arrived, up to the failure
                for (unsigned j = 0; j < 2; ++j)
                {
                    unsigned z = x ^ (j * 9), lo = r.lower(z); if (lo != r.upper(z)) continue;
                    T::iterator d = t.find(E(z)); if (d == t.end()) { CHECK(!!e, "a key of a range was not inserted"); break; }
                    equal(t, r, d, lo, z, 77 + j);
                }
            }
            else if (op < 5) { unique(t, r, it, x, 77); if (op == 0 || op == 1 || op == 3) CHECK(q.second == !had, "an insertion reports the wrong outcome"); }
            else { unsigned pos = op == 5 ? r.upper(x) : hinted(r, h, x); equal(t, r, it, pos, x, 77); }
        }
        else switch (op)
        {
        case 8: if (h < n) { it = nsym_choice("const", 2) ? t.erase(T::const_iterator(at(t, h))) : t.erase(at(t, h)); r.del(h, h + 1); CHECK(place(t, it) == h, "erase did not return the next element"); } break;
        case 9: { unsigned l = h + pick("len", n - h + 1); it = t.erase(T::const_iterator(at(t, h)), T::const_iterator(at(t, l))); r.del(h, l); CHECK(place(t, it) == h, "erase did not return the element after the range"); break; }
        case 10: { unsigned lo = r.lower(x), up = r.upper(x); CHECK(t.erase(E(x)) == up - lo, "erase(key) returned another number"); r.del(lo, up); break; }
        case 11: { E ks[2] = {E(x), E(x ^ 9)}; static_cast<void>(t.erase(static_cast<const E*>(ks), static_cast<const E*>(ks + 2))); for (unsigned i = 0; i < 2; ++i) r.del(r.lower(x ^ (i * 9)), r.upper(x ^ (i * 9))); break; }
        case 12: t.clear(); r.n = 0; break;
        case 13: { T u(std::move(t)); Ref none; observe(u, r, b + n); observe(t, none, b + n); T w((Cmp(!g_down)), TAlloc<P>(1)); w.m_emplace_equal(e, 3u, 3u); CHECK(!e, "an insertion failed"); w.m_move_assign(u); observe(u, none, b + n); observe(w, r, b + n); t.m_move_assign(w); break; }
        default:
        {
            T u((Cmp(!g_down)), TAlloc<P>(1)); u.m_emplace_equal(e, 3u, 3u); u.copy_nothrow(e, t); CHECK(!e, "a copy failed although nothing can fail"); CHECK(u.size() == n, "a copy has another size"); Ref c = r; unsigned i = 0;
            for (it = u.begin(); it != u.end() && i < n; ++it) c.p[i++] = &*it;
            CHECK(i == n && it == u.end(), "a copy has another number of elements"); for (i = 0; i < n; ++i) if (c.p[i] == r.p[i]) nsym_fail("a copy shares an element"); observe(u, c, b + 2 * n); observe(t, r, b + 2 * n);
            CHECK(t == u && !(t != u) && !(t < u) && !(t > u) && t <= u && t >= u, "a copy does not compare equal");
            u.m_emplace_equal(e, x, 99u); CHECK(!(t == u) && t != u, "trees of another size compare equal"); unsigned up = r.upper(x); 
            CHECK((t < u) == (up == n || x > r.k[up]), "the order of two trees is not the lexicographical one");
            CHECK((u < t) == !(t < u) && (t > u) == (u < t) && (t <= u) == !(u < t) && (t >= u) == !(t < u), "the comparisons of two trees contradict each other");
            break;
        }
        }
        g_faults = 0; observe(t, r, b + r.n);
        lookups(t, r, op == 8 || op == 12 ? KEY("y") : x);
        Err e2; unsigned y = x, pos = r.upper(y); equal(t, r, t.m_emplace_equal(e2, y, 55u), pos, y, 55); CHECK(!e2, "the tree is unusable afterwards"); observe(t, r, b + r.n);
    }
    all_gone();
}
