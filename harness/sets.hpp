// Set: a reference set (unordered array of distinct keys, with the address each key lives at) and the observations a user can make.
#ifndef SETS_HPP
#define SETS_HPP
#include "common.hpp"
#ifndef ELEM
#define ELEM Elem<0>
#endif
typedef ELEM E;
#ifdef WIDE
#define KEY(name) nsym_u32(name)
#else
#define KEY(name) ((unsigned)nsym_u8(name))        // the set sees keys only through the comparator; 8 bits give every order of the keys in play
#endif
#ifdef ALLOC_DEF
typedef nestl::allocator<E> A;
static A mkalloc(int) { return A(); }
static int alloc_id(const A&) { return 0; }
#else
typedef TAlloc<E> A;
static A mkalloc(int id) { return A(id); }
static int alloc_id(const A& a) { return a.id; }
#endif
static unsigned g_cmp;
struct Ord                                       // a comparator with state: ascending, descending, or ignoring the lowest bit (equivalent but different keys)
{
    unsigned how;
    explicit Ord(unsigned h = 3) noexcept : how(h) {}
#ifdef RISKY_ASSIGN
    Ord(const Ord&) noexcept = default;
    Ord& operator=(const Ord& o) { if (fault(C_THROW + 8)) throw Boom{8}; how = o.how; return *this; }
#endif
    static unsigned key(unsigned how, unsigned x) { return how == 2 ? x >> 1 : x; }
    static bool less(unsigned how, unsigned a, unsigned b)
    {
        if (how > 2) nsym_fail("the comparator given to the set was lost");
        return how == 1 ? b < a : key(how, a) < key(how, b);
    }
    bool operator()(const E& a, const E& b) const noexcept { ++g_cmp; return less(how, val(a), val(b)); }
};
typedef nestl::set<E, Ord, A> S;

struct Ref
{
    enum { CAP = 136 };
    unsigned n, a[CAP]; const E* p[CAP];
    Ref() : n(0) { memset(a, 0, sizeof a); memset(p, 0, sizeof p); }
    int find(unsigned how, unsigned x) const { for (unsigned i = 0; i < n; ++i) if (Ord::key(how, a[i]) == Ord::key(how, x)) return i; return -1; }
    int at(const E* q) const { for (unsigned i = 0; i < n; ++i) if (p[i] == q) return i; return -1; }
    void add(unsigned x, const E* q) { a[n] = x; p[n] = q; ++n; }
    void del(unsigned i) { --n; a[i] = a[n]; p[i] = p[n]; }
};

// every way of looking at the set agrees with the reference; kept: elements must still be at their recorded address
static void observe(S& s, const Ref& r, unsigned how)
{
    const S& c = s;
    CHECK(s.size() == r.n && c.size() == r.n, "size() differs from the number of distinct keys");
    CHECK(s.empty() == (r.n == 0), "empty() is wrong");
    CHECK(s.max_size() >= r.n, "max_size() is below size()");
    bool seen[Ref::CAP] = {}, same = true, ord = true; unsigned i = 0, prev = 0;
    const E* seq[Ref::CAP];
    for (S::iterator it = s.begin(); it != s.end(); ++it, ++i)
    {
        if (i >= r.n) nsym_fail("iteration visits too many elements");
        int j = r.at(&*it);
        if (j < 0 || seen[j]) nsym_fail("an element was lost, duplicated or moved in memory");
        seen[j] = true; seq[i] = &*it;
        unsigned v = val(*it); same &= v == r.a[j] && val(*it.operator->()) == v;
        if (i) ord &= Ord::less(how, prev, v);
        prev = v;
    }
    CHECK(i == r.n, "iteration visits too few elements");
    CHECK(same, "an element changed its value");
    CHECK(ord, "iteration is not in strictly ascending order");
    i = 0; for (S::const_iterator it = c.begin(); it != c.end(); it++, ++i) if (i >= r.n || &*it != seq[i]) nsym_fail("const iteration differs from iteration");
    CHECK(i == r.n, "const iteration visits too few elements");
    i = r.n; for (S::iterator it = s.end(); it != s.begin();) { if (i & 1) --it; else it--; if (!i || &*it != seq[--i]) nsym_fail("backward iteration differs from iteration"); }
    CHECK(i == 0, "backward iteration visits too few elements");
    i = r.n; for (S::const_iterator it = c.end(); it != c.begin();) { if (i & 1) --it; else it--; if (!i || &*it != seq[--i]) nsym_fail("const backward iteration differs from iteration"); }
    CHECK(i == 0, "const backward iteration visits too few elements");
    i = r.n; for (S::reverse_iterator it = s.rbegin(); it != s.rend(); ++it) if (!i || &*it != seq[--i]) nsym_fail("reverse iteration differs from iteration");
    CHECK(i == 0, "reverse iteration visits too few elements");
    i = r.n; for (S::const_reverse_iterator it = c.rbegin(); it != c.rend(); ++it) if (!i || &*it != seq[--i]) nsym_fail("const reverse iteration differs from iteration");
    CHECK(i == 0, "const reverse iteration visits too few elements");
    CHECK(s.cbegin() == c.begin() && s.cend() == c.end() && s.crbegin() == c.rbegin() && s.crend() == c.rend() && S::const_iterator(s.begin()) == c.begin(), "const iterators disagree");
}
// find agrees with the reference, for an arbitrary key
static void lookup(S& s, const Ref& r, unsigned how, unsigned x)
{
    const S& c = s; E k(x);
    S::iterator it = s.find(k); S::const_iterator ct = c.find(k);
    bool in = false; for (unsigned i = 0; i < r.n; ++i) in |= Ord::key(how, r.a[i]) == Ord::key(how, x);
    if (it == s.end()) { CHECK(!in, "find misses a key that is present"); CHECK(ct == c.end(), "const find disagrees with find"); }
    else { CHECK(in, "find finds a key that is not there"); CHECK((Ord::key(how, val(*it)) == Ord::key(how, x)) & (r.at(&*it) >= 0), "find returned another element"); CHECK(ct == S::const_iterator(it), "const find disagrees with find"); }
}
static void insert(S& s, Ref& r, unsigned how, unsigned x, unsigned mv, Err& e)
{
    std::pair<S::iterator, bool> q; bool in = false; 
    E k(x);
    arm(); if (mv) q = s.insert_nothrow(e, std::move(k)); else q = s.insert_nothrow(e, k); disarm(); kept(e, k, x, mv);
    if (e) return;
    for (unsigned i = 0; i < r.n; ++i) in |= Ord::key(how, r.a[i]) == Ord::key(how, x);
    CHECK(q.second == !in, "insert reports the wrong outcome");
    if (q.second) { if (r.at(&*q.first) >= 0) nsym_fail("insert returned an iterator to an old element as new"); CHECK(val(*q.first) == x, "the inserted element has another value"); r.add(x, &*q.first); }
    else { if (r.at(&*q.first) < 0) nsym_fail("insert of a present key returned an iterator to no element"); CHECK(Ord::key(how, val(*q.first)) == Ord::key(how, x), "insert of a present key returned another element"); }
}
static void erase_key(S& s, Ref& r, unsigned how, unsigned x)
{
    int live = g_live; E k(x); unsigned c = s.erase(k); int j = r.find(how, x);
    CHECK(c == (j >= 0), "erase(key) returned the wrong number of elements");
    if (j >= 0) r.del(j);
    CHECK(g_live == live + 1 - (j >= 0 ? live_of<E>(1) : 0) || live_of<E>(1) == 0, "erase(key) destroyed another number of elements");
}
static void erase_nth(S& s, Ref& r, unsigned i)
{
    S::iterator it = s.begin(); while (i--) ++it;
    int j = r.at(&*it); S::iterator nx = it; ++nx; const E* np = nx == s.end() ? nullptr : &*nx;
    S::iterator res = s.erase(it); r.del(j);
    CHECK(np ? res != s.end() && &*res == np : res == s.end(), "erase(iterator) did not return the next element");
}
// concrete insertion orders for larger trees
static unsigned pattern(unsigned pat, unsigned i, unsigned n)
{
    switch (pat) { case 0: return i; case 1: return n - 1 - i; case 2: return i & 1 ? n - 1 - i / 2 : i / 2; default: { unsigned st = n % 5 ? 5 : n % 7 ? 7 : 11; return (i * st + 2) % n; } }
}
static void grow(S& s, Ref& r, unsigned how, unsigned pat, unsigned n)
{
    Err e; for (unsigned i = 0; i < n; ++i) insert(s, r, how, (pattern(pat, i, n) * 2 + 1) * 4, i & 1, e);
    CHECK(!e, "insert failed although nothing can fail"); CHECK(r.n == n, "insert of a new key reported it as present");
}
#endif
