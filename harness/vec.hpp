// Vector: arbitrary reachable states, every operation, a reference sequence, and the observations a user can make.
#ifndef VEC_HPP
#define VEC_HPP
#include "common.hpp"

#ifndef ELEM
#define ELEM Elem<0>
#endif
typedef ELEM E;
#ifdef ALLOC_DEF
typedef nestl::allocator<E> A;
static A mkalloc(int) { return A(); }
static int alloc_id(const A&) { return 0; }
#else
typedef TAlloc<E> A;
static A mkalloc(int id) { return A(id); }
static int alloc_id(const A& a) { return a.id; }
#endif
#ifdef NX_TYPE                                  // the no-exceptions type is public in both modes
typedef nestl::no_exceptions::vector<E, A> V;
static V& nx(V& v) { return v; }
#elif EXC
typedef nestl::vector<E, A> V;
static nestl::no_exceptions::vector<E, A>& nx(V& v) { return v.as_noexcept(); }
#else
typedef nestl::vector<E, A> V;
static V& nx(V& v) { return v; }
#endif

// An arbitrary state: 0..maxn elements of arbitrary value, 0..slack unused slots, or no storage at all.
static void build(V& v, Seq& s, unsigned maxn, unsigned maxslack)
{
#ifdef MID
    unsigned n = maxn == 3 ? 9 : nsym_param("mid", 10), k = maxslack == 1 ? 0 : nsym_choice("slack", 3) * 6;
#else
    unsigned n = nsym_choice("size", maxn + 1), k = nsym_choice("slack", maxslack + 1);
#endif
    Err e;
    if (n + k) v.reserve_nothrow(e, n + k);
    for (unsigned i = 0; i < n; ++i) { unsigned x = nsym_u32("elem"); v.push_back_nothrow(e, E(x)); s.push(x); }
    CHECK(!e, "building the initial vector failed although nothing can fail");
}

static void observe(V& v, const Seq& s)
{
    const V& c = v;
    CHECK(v.size() == s.n, "size() differs from the number of elements");
    CHECK(v.empty() == (s.n == 0), "empty() is wrong");
    CHECK(v.capacity() >= v.size(), "capacity() is below size()");
    CHECK(v.max_size() >= v.size(), "max_size() is below size()");
    CHECK((unsigned)(v.end() - v.begin()) == s.n, "end() - begin() differs from size()");
    CHECK(c.begin() == v.begin() && c.end() == v.end() && v.cbegin() == c.begin() && v.cend() == c.end(), "const and non-const iterators disagree");
    bool ok = true;
    unsigned i = 0;
    for (V::iterator it = v.begin(); it != v.end() && i < s.n; ++it, ++i) ok &= val(*it) == s.a[i];
    for (i = 0; i < s.n; ++i) ok &= val(v[i]) == s.a[i];
    for (i = 0; i < s.n; ++i) ok &= val(c[i]) == s.a[i];
    CHECK(ok, "an element differs from the expected sequence");
    i = s.n;
    for (V::reverse_iterator it = v.rbegin(); it != v.rend() && i; ++it) ok &= val(*it) == s.a[--i];
    CHECK(i == 0, "reverse iteration visits another number of elements");
    i = s.n;
    for (V::const_reverse_iterator it = c.rbegin(); it != c.rend() && i; ++it) ok &= val(*it) == s.a[--i];
    CHECK(i == 0, "const reverse iteration visits another number of elements");
    CHECK(v.crbegin() == c.rbegin() && v.crend() == c.rend(), "crbegin/crend disagree with rbegin/rend");
    CHECK(ok, "reverse iteration differs from the expected sequence");
    if (s.n)
        CHECK((val(v.front()) == s.a[0]) & (val(c.front()) == s.a[0]) & (val(v.back()) == s.a[s.n - 1]) & (val(c.back()) == s.a[s.n - 1]), "front() or back() is wrong");
#if !EXC || defined(NX_TYPE)
    if (s.n) CHECK(v.data() == v.begin() && c.data() == c.begin(), "data() is not the first element");
#endif
}

enum Op { PUSH_C, PUSH_M, EMPLACE_BACK, INSERT_C, INSERT_M, INSERT_RANGE, INSERT_INPUT, ASSIGN_N, ASSIGN_RANGE, ASSIGN_INPUT, COPY,
          RESIZE, RESIZE_V, RESERVE, SHRINK, CLEAR, SWAP, MOVE_CTOR, MOVE_ASSIGN, NOPS };

struct Ran                                       // what happened
{
    unsigned op, pos, k; bool failed; unsigned others;   // others: live elements outside the vector
    Ran() : op(0), pos(0), k(0), failed(false), others(0) {}
};

struct Row { E e[MAXK]; explicit Row(const unsigned* x) { for (unsigned i = 0; i < MAXK; ++i) setval(e[i], x[i]); } };
// Runs one arbitrary operation on v and keeps s in step when it succeeds.
static void run_op(V& v, Seq& s, Ran& r, Err& err, unsigned op)
{
    r.op = op; r.pos = s.n; r.k = 0; g_hits = 0;
    unsigned x[MAXK]; for (unsigned i = 0; i < MAXK; ++i) x[i] = nsym_u32("arg");
    switch (op)
    {
    case PUSH_C: { E e(x[0]); arm(); v.push_back_nothrow(err, e); disarm(); kept(err, e, x[0], false); if (!err) s.push(x[0]); break; }
    case PUSH_M: { E e(x[0]); arm(); v.push_back_nothrow(err, std::move(e)); disarm(); kept(err, e, x[0], true); if (!err) s.push(x[0]); break; }
    case EMPLACE_BACK:
    {
        arm();
        if (nsym_choice("args", 2)) { v.emplace_back_nothrow(err, x[0]); if (!err) s.push(x[0]); }
        else { v.emplace_back_nothrow(err); if (!err) s.push(0); }
        disarm(); break;
    }
    case INSERT_C: case INSERT_M:
    {
        r.pos = pick("pos", s.n + 1);
        E e(x[0]); V::const_iterator p = v.cbegin() + r.pos; V::iterator it;
        arm();
        if (op == INSERT_C) it = v.insert_nothrow(err, p, e); else it = v.insert_nothrow(err, p, std::move(e));
        disarm(); kept(err, e, x[0], op == INSERT_M);
        if (!err) { s.insert(r.pos, x[0]); CHECK((unsigned)(it - v.begin()) == r.pos, "insert returned an iterator to another place"); }
        else CHECK(it == v.end(), "a failed insert did not return end()");
        break;
    }
    case INSERT_RANGE: case INSERT_INPUT:
    {
        r.pos = pick("pos", s.n + 1); r.k = pick("count", MAXK + 1);
        V::const_iterator p = v.cbegin() + r.pos;
        if (op == INSERT_RANGE) { Row row(x); const E* e = row.e; arm(); v.insert_nothrow(err, p, e, e + r.k); disarm(); }
        else { arm(); v.insert_nothrow(err, p, InIt(x), InIt(x + r.k)); disarm(); }
        if (!err) for (unsigned i = 0; i < r.k; ++i) s.insert(r.pos + i, x[i]);
        break;
    }
    case ASSIGN_N: { r.k = pickr("count", MAXK + 4); E e(x[0]); std::size_t k = r.k; arm(); v.assign_nothrow(err, k, e); disarm(); kept(err, e, x[0], false); if (!err) { s.clear(); for (unsigned i = 0; i < r.k; ++i) s.push(x[0]); } break; }
    case ASSIGN_RANGE: case ASSIGN_INPUT:
    {
        r.k = pick("count", MAXK + 1);
        if (op == ASSIGN_RANGE) { Row row(x); const E* e = row.e; arm(); v.assign_nothrow(err, e, e + r.k); disarm(); }
        else { arm(); v.assign_nothrow(err, InIt(x), InIt(x + r.k)); disarm(); }
        if (!err) { s.clear(); for (unsigned i = 0; i < r.k; ++i) s.push(x[i]); }
        break;
    }
    case COPY:
    {
        V o(mkalloc(2)); Seq os; build(o, os, 3, 1);
        r.k = os.n;
        arm(); v.copy_nothrow(err, nx(o)); disarm();
        observe(o, os);
        if (!err) s = os;
        break;
    }
    case RESIZE: { r.k = pickr("count", s.n + 5); arm(); v.resize_nothrow(err, r.k); disarm(); if (!err) { while (s.n < r.k) s.push(0); s.n = r.k; } break; }
    case RESIZE_V: { r.k = pickr("count", s.n + 5); E e(x[0]); arm(); v.resize_nothrow(err, r.k, e); disarm(); kept(err, e, x[0], false); if (!err) { while (s.n < r.k) s.push(x[0]); s.n = r.k; } break; }
    case RESERVE: { r.k = pickr("count", s.n + 5); arm(); v.reserve_nothrow(err, r.k); disarm(); if (!err) CHECK(v.capacity() >= r.k, "reserve did not provide the capacity asked for"); break; }
    case SHRINK: arm(); v.shrink_to_fit_nothrow(err); disarm(); if (!err) CHECK(v.capacity() == s.n, "shrink_to_fit left spare capacity"); break;
    case CLEAR: { unsigned c = v.capacity(); v.clear(); s.clear(); CHECK(v.capacity() == c, "clear changed the capacity"); break; }
    case SWAP:
    {
        V o(mkalloc(2)); Seq os; build(o, os, 3, 1);
        v.swap(nx(o));
        CHECK(alloc_id(v.get_allocator()) == (alloc_id(mkalloc(2))), "swap did not exchange the allocators");
        Seq before = s; observe(o, s); observe(v, os);
        v.swap(nx(o)); observe(o, os); s = before;
        break;
    }
    case MOVE_CTOR:
    {
        V o(std::move(v));
        observe(o, s);
        CHECK(v.empty() && v.size() == 0, "a moved-from vector is not empty");
        v.swap(nx(o));
        break;
    }
    case MOVE_ASSIGN:
    {
        V o(mkalloc(1)); Seq os; build(o, os, 3, 1);
        o = std::move(v);
        observe(o, s);
        Seq none; observe(v, none);                 // a moved-from vector is empty and usable
        unsigned live = g_live;
        v.push_back_nothrow(err, E(x[0])); CHECK(!err, "push_back into a moved-from vector failed");
        v = std::move(o);
        CHECK((unsigned)g_live == live, "move assignment kept the old elements alive");
        Seq none2; observe(o, none2);
        break;
    }
    default: break;
    }
    r.failed = !!err;
}
#endif
