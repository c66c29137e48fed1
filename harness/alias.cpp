// C25: arguments that belong to the container itself: the outcome is as if the argument had been copied before the call.
#ifndef CAUSE
#define CAUSE
#endif
#if defined(LISTS)
#include "lst.hpp"
typedef L C; typedef LSeq S; static L& nx(L& l) { return l; }
#else
#include "vec.hpp"
typedef V C; typedef Seq S;
#endif
static C::iterator nth(C& c, unsigned i) { C::iterator k = c.begin(); while (i--) ++k; return k; }
static C::const_iterator cnth(const C& c, unsigned i) { C::const_iterator k = c.begin(); while (i--) ++k; return k; }
// an element that was passed as an rvalue is valid afterwards: it has its value or it is moved-from
static void moved(C& c, unsigned at, S& s, unsigned x, unsigned i) { unsigned v = val(*nth(c, at)); CHECK((v == x) | (v == (unsigned)MOVED), "a moved-from element has a third value"); s.a[i] = v; }
static void moved(C& c, unsigned i, S& s, unsigned x) { moved(c, i, s, x, i); }
enum { A_PUSH, A_EMPLACE, A_INSERT, A_ASSIGN_N, A_ASSIGN_RANGE, A_SELF_COPY, A_SELF_SWAP, A_EMPLACE_MOVED, A_THROWING, A_CONT,
#ifdef LISTS
       A_PUSH_FRONT = A_CONT, A_EMPLACE_FRONT, A_INSERT_N, A_EMPLACE_AT, A_INSERT_MOVED, A_NOPS
#else
       A_RESIZE = A_CONT, A_NOPS
#endif
};
void harness()
{
    {
        C c(mkalloc(1)); S s; Err e;
#ifdef LISTS
        build(c, s, nsym_param("maxn", 4));
#else
        build(c, s, nsym_param("maxn", 4), nsym_param("slack", 2));
#endif
        g_oom = true;
        unsigned op = nsym_choice("op", A_NOPS); unsigned n = s.n;
        if (n || op == A_SELF_COPY || op == A_SELF_SWAP || op == A_ASSIGN_RANGE)
        {
            unsigned i = n ? pick("which", n) : 0, x = n ? s.a[i] : 0, pos, k; S t = s;
            g_faults = nsym_param("faults", 0);
            switch (op)
            {
            case A_PUSH: { E& r = *nth(c, i); arm(); c.push_back_nothrow(e, r); disarm(); s.push(x); break; }
            case A_EMPLACE: { const E& r = *nth(c, i); arm(); c.emplace_back_nothrow(e, r); disarm(); s.push(x); break; }
#if EXC && ((defined(LISTS) && WR) || (!defined(LISTS) && !defined(NX_TYPE)))
            case A_THROWING: { const E& r = *nth(c, i); arm(); try { c.push_back(r); } catch (...) { from_exception_ptr(e, std::current_exception()); } disarm(); s.push(x); break; }
#endif
            case A_EMPLACE_MOVED: { E& r = *nth(c, i); arm(); c.emplace_back_nothrow(e, std::move(r)); disarm(); moved(c, i, s, x); s.push(x); break; }
            case A_INSERT: { pos = pick("pos", n + 1); const E& r = *nth(c, i); arm(); C::iterator k = c.insert_nothrow(e, cnth(c, pos), r); disarm(); s.insert(pos, x); if (!e) CHECK(k == nth(c, pos), "insert returned another position"); break; }
            case A_ASSIGN_N: { std::size_t m = pickr("count", n + 3); const E& r = *nth(c, i); arm(); c.assign_nothrow(e, m, r); disarm(); s = S(); for (unsigned j = 0; j < m; ++j) s.push(x); break; }
#ifndef LISTS
            case A_ASSIGN_RANGE: { pos = pick("from", n + 1); k = pick("len", n - pos + 1); C::const_iterator f = cnth(c, pos), l = cnth(c, pos + k); arm(); c.assign_nothrow(e, f, l); disarm(); S u; for (unsigned j = 0; j < k; ++j) u.push(s.a[pos + j]); s = u; break; }
#endif
#if !(defined(LISTS) && WR)
            case A_SELF_COPY: arm(); c.copy_nothrow(e, nx(c)); disarm();
#ifdef LISTS
                memset(s.p, 0, sizeof s.p);
#endif
                break;
            case A_SELF_SWAP: c.swap(nx(c)); break;
#endif
#ifdef LISTS
            case A_PUSH_FRONT: { const E& r = *nth(c, i); arm(); c.push_front_nothrow(e, r); disarm(); s.insert(0, x); break; }
            case A_EMPLACE_FRONT: { const E& r = *nth(c, i); arm(); c.emplace_front_nothrow(e, r); disarm(); s.insert(0, x); break; }
            case A_INSERT_N: { pos = pick("pos", n + 1); k = nsym_choice("count", 4); const E& r = *nth(c, i); arm(); c.insert_nothrow(e, cnth(c, pos), (std::size_t)k, r); disarm(); for (unsigned j = 0; j < k; ++j) s.insert(pos, x); break; }
            case A_EMPLACE_AT: { pos = pick("pos", n + 1); const E& r = *nth(c, i); arm(); c.emplace_nothrow(e, cnth(c, pos), r); disarm(); s.insert(pos, x); break; }
            case A_INSERT_MOVED: { pos = pick("pos", n + 1); E& r = *nth(c, i); arm(); c.insert_nothrow(e, cnth(c, pos), std::move(r)); disarm(); moved(c, i + (pos <= i && !e), s, x, i); s.insert(pos, x); break; }
#else
            case A_RESIZE: { k = pickr("count", n + 5); const E& r = *nth(c, i); arm(); c.resize_nothrow(e, k, r); disarm(); while (s.n < k) s.push(x); s.n = k; break; }
#endif
            default: break;
            }
            g_faults = 0; reported(e);
            if (e) { nsym_cover("failed"); s = S(); for (C::iterator k = c.begin(); k != c.end(); ++k) s.push(val(*k)); }
            else nsym_cover("done");
            CHECK(g_live == live_of<E>(s.n), "the number of live elements differs from the size");
            observe(c, s); Err e2; c.push_back_nothrow(e2, E(5)); CHECK(!e2, "the container is unusable afterwards"); s.push(5); observe(c, s);
        }
    }
    all_gone();
}
