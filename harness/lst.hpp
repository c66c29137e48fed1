// List: arbitrary states, every operation, a reference sequence that also tracks where each element lives.
#ifndef LST_HPP
#define LST_HPP
#include "common.hpp"
#ifndef ELEM
#define ELEM Elem<0>
#endif
typedef ELEM E;
#ifdef ALLOC_DEF
typedef nestl::allocator<E> A;
static A mkalloc(int) { return A(); }
#else
typedef TAlloc<E> A;
static A mkalloc(int id) { return A(id); }
#endif
#if defined(WRAPPED) && EXC
typedef nestl::list<E, A> L;                     // the exception-throwing type
#define WR 1
#else
typedef nestl::no_exceptions::list<E, A> L;
#define WR 0
#endif

struct LSeq
{
    enum { CAP = 72 };
    unsigned n, a[CAP]; const E* p[CAP];
    LSeq() : n(0) { memset(a, 0, sizeof a); memset(p, 0, sizeof p); }
    void insert(unsigned pos, unsigned x, const E* q = nullptr) { for (unsigned i = n; i > pos; --i) { a[i] = a[i - 1]; p[i] = p[i - 1]; } a[pos] = x; p[pos] = q; ++n; }
    void erase(unsigned pos) { for (unsigned i = pos; i + 1 < n; ++i) { a[i] = a[i + 1]; p[i] = p[i + 1]; } --n; }
    void push(unsigned x) { insert(n, x); }
    void clear() { n = 0; }
};

static void observe(L& l, LSeq& s)
{
    const L& c = l;
    CHECK(l.size() == s.n && c.size() == s.n, "size() differs from the number of elements");
    CHECK(l.empty() == (s.n == 0), "empty() is wrong");
    CHECK(l.max_size() >= s.n, "max_size() is below size()");
    bool ok = true, stable = true;
    unsigned i = 0;
    for (L::iterator it = l.begin(); it != l.end(); ++it, ++i)
    {
        if (i >= s.n) nsym_fail("forward iteration visits too many elements");
        ok &= val(*it) == s.a[i]; ok &= val(*it.operator->()) == s.a[i];
        if (s.p[i]) stable &= &*it == s.p[i]; else s.p[i] = &*it;
    }
    CHECK(i == s.n, "forward iteration visits too few elements");
    CHECK(ok, "an element differs from the expected sequence");
    CHECK(stable, "an element moved in memory: references and iterators to it are invalid");
    i = 0;
    for (L::const_iterator it = c.begin(); it != c.end(); it++, ++i) { if (i >= s.n) nsym_fail("const iteration visits too many elements"); ok &= val(*it) == s.a[i]; }
    CHECK(i == s.n && ok, "const iteration differs from the expected sequence");
    i = s.n;
    for (L::iterator it = l.end(); it != l.begin();) { if (!i) nsym_fail("backward iteration visits too many elements"); if (i & 1) --it; else it--; ok &= val(*it) == s.a[--i]; }
    CHECK(i == 0 && ok, "backward iteration differs from the expected sequence");
    i = s.n;
    for (L::reverse_iterator it = l.rbegin(); it != l.rend(); ++it) { if (!i) nsym_fail("reverse iteration visits too many elements"); ok &= val(*it) == s.a[--i]; }
    CHECK(i == 0 && ok, "reverse iteration differs from the expected sequence");
    i = s.n;
    for (L::const_reverse_iterator it = c.crbegin(); it != c.crend(); ++it) { if (!i) nsym_fail("const reverse iteration visits too many elements"); ok &= val(*it) == s.a[--i]; }
    CHECK(i == 0 && ok, "const reverse iteration differs from the expected sequence");
    i = s.n;
    for (L::const_iterator it = c.end(); it != c.begin();) { if (!i) nsym_fail("const backward iteration visits too many elements"); if (i & 1) it--; else --it; ok &= val(*it) == s.a[--i] && val(*it.operator->()) == s.a[i]; }
    CHECK(i == 0 && ok, "const backward iteration differs from the expected sequence");
    CHECK(l.cbegin() == c.begin() && l.cend() == c.end() && c.rbegin() == l.crbegin() && c.rend() == l.crend(), "const iterators disagree");
    if (s.n)
        CHECK((val(l.front()) == s.a[0]) & (val(c.front()) == s.a[0]) & (val(l.back()) == s.a[s.n - 1]) & (val(c.back()) == s.a[s.n - 1]), "front() or back() is wrong");
}

static void fill(L& l, LSeq& s, unsigned n)
{
    Err e;
    for (unsigned i = 0; i < n; ++i) { unsigned x = nsym_u32("elem"); l.push_back_nothrow(e, E(x)); s.push(x); }
    CHECK(!e, "building the initial list failed although nothing can fail");
    unsigned i = 0; for (L::iterator it = l.begin(); it != l.end() && i < s.n; ++it) s.p[i++] = &*it;
}
static void build(L& l, LSeq& s, unsigned maxn) { fill(l, s, sized("size", maxn + 1, 10)); }
static L::iterator at(L& l, unsigned i) { L::iterator it = l.begin(); while (i--) ++it; return it; }

enum Op { PUSH_BACK_C, PUSH_BACK_M, EMPLACE_BACK, PUSH_FRONT_C, PUSH_FRONT_M, EMPLACE_FRONT, INSERT_C, INSERT_M, INSERT_N, INSERT_RANGE, INSERT_INPUT, EMPLACE,
          ASSIGN_N, ASSIGN_RANGE, ASSIGN_INPUT, COPY, NFALLIBLE,
          POP_BACK = NFALLIBLE, POP_FRONT, ERASE, ERASE_RANGE, CLEAR, SWAP, MOVE_CTOR, MOVE_ASSIGN, SPLICE_ALL, SPLICE_ONE, SPLICE_RANGE, SELF_ONE, SELF_RANGE, NOPS };

struct Ran { unsigned op, pos, k; bool failed, applicable; Ran() : op(0), pos(0), k(0), failed(false), applicable(true) {} };

struct Row { E e[MAXK]; explicit Row(const unsigned* x) { for (unsigned i = 0; i < MAXK; ++i) setval(e[i], x[i]); } };
static void run_op(L& l, LSeq& s, Ran& r, Err& err, unsigned op)
{
    r.op = op; r.pos = s.n; r.k = 0; g_hits = 0;
    unsigned x[MAXK]; for (unsigned i = 0; i < MAXK; ++i) x[i] = nsym_u32("arg");
    switch (op)
    {
    case PUSH_BACK_C: { E e(x[0]); arm(); l.push_back_nothrow(err, e); disarm(); kept(err, e, x[0], false); if (!err) s.push(x[0]); break; }
    case PUSH_BACK_M: { E e(x[0]); arm(); l.push_back_nothrow(err, std::move(e)); disarm(); kept(err, e, x[0], true); if (!err) s.push(x[0]); break; }
    case EMPLACE_BACK: if (nsym_choice("args", 2)) { arm(); l.emplace_back_nothrow(err, x[0]); disarm(); if (!err) s.push(x[0]); } else { arm(); l.emplace_back_nothrow(err); disarm(); if (!err) s.push(0); } break;
    case PUSH_FRONT_C: { r.pos = 0; E e(x[0]); arm(); l.push_front_nothrow(err, e); disarm(); kept(err, e, x[0], false); if (!err) s.insert(0, x[0]); break; }
    case PUSH_FRONT_M: { r.pos = 0; E e(x[0]); arm(); l.push_front_nothrow(err, std::move(e)); disarm(); kept(err, e, x[0], true); if (!err) s.insert(0, x[0]); break; }
    case EMPLACE_FRONT: { r.pos = 0; arm(); l.emplace_front_nothrow(err, x[0]); disarm(); if (!err) s.insert(0, x[0]); break; }
    case INSERT_C: case INSERT_M: case EMPLACE:
    {
        r.pos = pick("pos", s.n + 1);
        L::const_iterator p = at(l, r.pos); E e(x[0]); L::iterator it;
        arm();
        if (op == INSERT_C) it = l.insert_nothrow(err, p, e); else if (op == INSERT_M) it = l.insert_nothrow(err, p, std::move(e)); else it = l.emplace_nothrow(err, p, x[0]);
        disarm(); kept(err, e, x[0], op == INSERT_M);
        if (!err) { s.insert(r.pos, x[0]); CHECK(it == at(l, r.pos), "insert returned an iterator to another element"); }
        else CHECK(it == l.end(), "a failed insert did not return end()");
        break;
    }
    case INSERT_N: { r.pos = pick("pos", s.n + 1); r.k = pickr("count", MAXK + 1); E e(x[0]); L::const_iterator p = at(l, r.pos); std::size_t k = r.k; arm(); l.insert_nothrow(err, p, k, e); disarm(); kept(err, e, x[0], false); if (!err) for (unsigned i = 0; i < r.k; ++i) s.insert(r.pos, x[0]); break; }
    case INSERT_RANGE: case INSERT_INPUT:
    {
        r.pos = pick("pos", s.n + 1); r.k = pick("count", MAXK + 1);
        L::const_iterator p = at(l, r.pos);
        if (op == INSERT_RANGE) { Row row(x); const E* e = row.e; arm(); l.insert_nothrow(err, p, e, e + r.k); disarm(); }
        else { arm(); l.insert_nothrow(err, p, InIt(x), InIt(x + r.k)); disarm(); }
        if (!err) for (unsigned i = 0; i < r.k; ++i) s.insert(r.pos + i, x[i]);
        break;
    }
    case ASSIGN_N: { r.k = pickr("count", MAXK + 2); E e(x[0]); std::size_t k = r.k; arm(); l.assign_nothrow(err, k, e); disarm(); kept(err, e, x[0], false); if (!err) { s.clear(); for (unsigned i = 0; i < r.k; ++i) s.push(x[0]); } break; }
    case ASSIGN_RANGE: case ASSIGN_INPUT:
    {
        r.k = pick("count", MAXK + 1);
        if (op == ASSIGN_RANGE) { Row row(x); const E* e = row.e; arm(); l.assign_nothrow(err, e, e + r.k); disarm(); }
        else { arm(); l.assign_nothrow(err, InIt(x), InIt(x + r.k)); disarm(); }
        if (!err) { s.clear(); for (unsigned i = 0; i < r.k; ++i) s.push(x[i]); }
        break;
    }
    case POP_BACK: if (!s.n) { r.applicable = false; break; } l.pop_back(); s.erase(s.n - 1); break;
    case POP_FRONT: if (!s.n) { r.applicable = false; break; } l.pop_front(); s.erase(0); break;
    case ERASE:
    {
        if (!s.n) { r.applicable = false; break; }
        unsigned i = pick("pos", s.n); L::iterator it = l.erase(at(l, i)); s.erase(i);
        CHECK(it == at(l, i), "erase did not return the next element"); break;
    }
    case ERASE_RANGE:
    {
        unsigned f = pick("first", s.n + 1), k = pick("count", s.n - f + 1);
        L::iterator it = l.erase(at(l, f), at(l, f + k)); for (unsigned i = 0; i < k; ++i) s.erase(f);
        CHECK(it == at(l, f), "range erase did not return the end of the erased range"); break;
    }
    case CLEAR: l.clear(); s.clear(); break;
#if !WR
    case COPY:
    {
        L o(mkalloc(2)); LSeq os; build(o, os, 3); r.k = os.n;
        arm(); l.copy_nothrow(err, o); disarm();
        observe(o, os);
        if (!err) { s = os; memset(s.p, 0, sizeof s.p); }
        break;
    }
    case SWAP:
    {
        L o(mkalloc(2)); LSeq os; build(o, os, 3);
        l.swap(o); observe(o, s); observe(l, os);
        l.swap(o); observe(o, os);
        break;
    }
#endif
    case MOVE_CTOR:
    {
        L o(std::move(l)); observe(o, s);
        LSeq none; observe(l, none);
        l = std::move(o);
        break;
    }
    case MOVE_ASSIGN:
    {
        L o(mkalloc(1)); LSeq os; build(o, os, 3);
        o = std::move(l); observe(o, s);
        LSeq none; observe(l, none);
        int live = g_live;
        l.push_back_nothrow(err, E(x[0])); CHECK(!err, "push_back into a moved-from list failed");
        l = std::move(o);
        CHECK(g_live == live, "move assignment kept the old elements alive");
        LSeq none2; observe(o, none2);
        break;
    }
    case SPLICE_ALL: case SPLICE_ONE: case SPLICE_RANGE:
    {
        L o(mkalloc(1)); LSeq os; build(o, os, 3);
        unsigned pos = pick("pos", s.n + 1), f = 0, k = os.n;
        if (op == SPLICE_ONE) { if (!os.n) { r.applicable = false; break; } f = pick("first", os.n); k = 1; }
        if (op == SPLICE_RANGE) { f = pick("first", os.n + 1); k = pick("count", os.n - f + 1); }
        L::const_iterator p = at(l, pos);
        if (op == SPLICE_ALL) { if (x[0] & 1) l.splice(p, o); else l.splice(p, std::move(o)); }
        else if (op == SPLICE_ONE) { if (x[0] & 1) l.splice(p, o, at(o, f)); else l.splice(p, std::move(o), at(o, f)); }
        else { if (x[0] & 1) l.splice(p, o, at(o, f), at(o, f + k)); else l.splice(p, std::move(o), at(o, f), at(o, f + k)); }
        for (unsigned i = 0; i < k; ++i) { s.insert(pos + i, os.a[f], os.p[f]); os.erase(f); }
        observe(o, os);
        break;
    }
    case SELF_ONE:
    {
        if (!s.n) { r.applicable = false; break; }
        unsigned f = pick("first", s.n), pos = pick("pos", s.n + 1);
        l.splice(at(l, pos), l, at(l, f));
        unsigned v = s.a[f]; const E* q = s.p[f]; s.erase(f); s.insert(pos > f ? pos - 1 : pos, v, q);
        break;
    }
    case SELF_RANGE:                             // pos outside (first, last)
    {
        unsigned f = pick("first", s.n + 1), k = pick("count", s.n - f + 1), pos = pick("pos", s.n + 1);
        if (pos >= f && pos < f + k) { r.applicable = false; break; }
        l.splice(at(l, pos), l, at(l, f), at(l, f + k));
        for (unsigned i = 0; i < k; ++i)
            if (pos <= f) { unsigned v = s.a[f + i]; const E* q = s.p[f + i]; s.erase(f + i); s.insert(pos + i, v, q); }
            else { unsigned v = s.a[f]; const E* q = s.p[f]; s.erase(f); s.insert(pos - 1, v, q); }
        break;
    }
    default: r.applicable = false; break;
    }
    r.failed = !!err;
}
#endif
