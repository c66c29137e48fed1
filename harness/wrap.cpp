// C19: the throwing interface: it throws exactly when the operation underneath fails, throws that very failure, and then leaves
// everything as it was; otherwise it has the same effect.
#include "common.hpp"
#ifndef ELEM
#define ELEM Elem<1>
#endif
typedef ELEM E;
#ifdef ALLOC_DEF
typedef nestl::allocator<E> A; static A mkalloc(int) { return A(); }
#else
typedef TAlloc<E> A; static A mkalloc(int id) { return A(id); }
#endif
#ifdef LISTS
typedef nestl::list<E, A> C;
#else
typedef nestl::vector<E, A> C; typedef nestl::no_exceptions::vector<E, A> N;
#endif
struct Snap { Seq s; const E* at[16]; unsigned long cap; };
static void snap(Snap& p, const C& c) { p.s.clear(); for (C::const_iterator i = c.begin(); i != c.end(); ++i) { p.at[p.s.n] = &*i; p.s.push(val(*i)); }
#ifndef LISTS
    p.cap = c.capacity();
#endif
}
static void same(const C& c, const Seq& s, const char* what)
{
    CHECK(c.size() == s.n && c.empty() == !s.n, what);
    bool ok = true; unsigned i = 0; for (C::const_iterator k = c.begin(); k != c.end(); ++k, ++i) { if (i >= s.n) nsym_fail(what); ok &= val(*k) == s.a[i]; }
    CHECK(ok && i == s.n, what);
}
static void untouched(const C& c, const Snap& p, const char* what)
{
    same(c, p.s, what); bool ok = true; unsigned i = 0; for (C::const_iterator k = c.begin(); k != c.end(); ++k, ++i) ok &= &*k == p.at[i];
#ifndef LISTS
    ok &= c.capacity() == p.cap;
#endif
    CHECK(ok, what);
}
static void fill(C& c, unsigned max)
{
    Err e; unsigned n = sized("size", max + 1, 9);
#ifndef LISTS
    unsigned k = nsym_choice("slack", 2); if (n + k) c.reserve_nothrow(e, n + k);
#endif
    for (unsigned i = 0; i < n; ++i) c.push_back_nothrow(e, E(nsym_u32("elem")));
    CHECK(!e, "building a container failed although nothing can fail");
}
static int caught()                              // what was thrown, as a cause
{
    try { throw; } catch (const Boom& b) { return C_THROW + b.id; } catch (const std::bad_alloc&) { return C_ALLOC; } catch (const std::length_error&) { return C_INIT; } catch (...) {} return -1;
}
enum { PUSH, PUSH_MOVE, COPY_CTOR, ASSIGN, SELF, MOVE_CTOR, MOVE_ASSIGN, FROM_N, ASSIGN_N, FROM_NM, ASSIGN_NM, NOPS
#ifdef LISTS
    = FROM_N
#endif
};
void harness()
{
    CHECK((std::is_nothrow_constructible<C, C&&>::value && std::is_nothrow_assignable<C&, C&&>::value && std::is_nothrow_destructible<C>::value),
          "a move or a destructor does not promise not to throw");
    g_oom = true;
    {
        C c(mkalloc(1)), o(mkalloc(2)); fill(c, nsym_param("maxn", 4)); fill(o, 3);
        Snap sc, so; snap(sc, c); snap(so, o); unsigned x = nsym_u32("x"), op = nsym_range("op", NOPS); E e(x); int live = g_live, thrown = 0; Seq want = sc.s;
        g_faults = nsym_param("faults", 2); arm();
        try
        {
            switch (op)
            {
            case PUSH: c.push_back(e); want.push(x); disarm(); CHECK(e.v == x && g_live == live + 1, "push_back changed its argument"); break;
            case PUSH_MOVE: c.push_back(std::move(e)); want.push(x); disarm(); CHECK(e.v == MOVED && g_live == live + 1, "push_back did not move its argument"); break;
            case COPY_CTOR: { C t(o); disarm(); same(t, so.s, "a copy differs from its original"); CHECK(g_live == live + (int)so.s.n, "a copy has another number of elements"); untouched(o, so, "copying changed the original"); break; }
            case ASSIGN: c = o; disarm(); want = so.s; CHECK(g_live == live - (int)sc.s.n + (int)so.s.n, "assignment leaked or lost elements"); break;
            case SELF: { C& r = c; c = r; disarm(); CHECK(g_live == live, "self assignment changed the number of elements"); break; }
            case MOVE_CTOR: { C t(std::move(c)); disarm(); untouched(t, sc, "move construction changed or relocated elements"); Seq none; same(c, none, "a moved-from container is not empty"); c = std::move(t); same(t, none, "a moved-from container is not empty"); untouched(c, sc, "move assignment changed or relocated elements"); break; }
            case MOVE_ASSIGN: { c = std::move(o); disarm(); untouched(c, so, "move assignment changed or relocated elements"); want = so.s; so.s.clear(); CHECK(g_live == live - (int)sc.s.n, "move assignment kept the old elements"); break; }
#ifndef LISTS
            case FROM_N: { C t(static_cast<const N&>(o.as_noexcept())); disarm(); same(t, so.s, "a copy differs from its original"); break; }
            case ASSIGN_N: c = static_cast<const N&>(o.as_noexcept()); disarm(); want = so.s; CHECK(g_live == live - (int)sc.s.n + (int)so.s.n, "assignment leaked or lost elements"); break;
            case FROM_NM: { C t(std::move(c.as_noexcept())); disarm(); untouched(t, sc, "move construction changed or relocated elements"); want.clear(); break; }
            default: c = std::move(o.as_noexcept()); disarm(); untouched(c, so, "move assignment changed or relocated elements"); want = so.s; so.s.clear(); break;
#endif
            }
        }
        catch (...) { disarm(); thrown = caught(); }
        g_faults = 0;
        CHECK((thrown != 0) == (g_hits > 0), thrown ? "an exception was thrown although nothing failed" : "a failure was swallowed by the throwing interface");
        if (thrown)
        {
            bool ok = false; for (unsigned i = 0; i < 4 && i < g_hits; ++i) ok |= thrown == g_why[i];
            CHECK(ok, "the exception thrown is not the failure that happened"); CHECK(g_live == live, "a throwing operation leaked or lost elements");
            untouched(c, sc, "an operation that threw changed its target"); untouched(o, so, "an operation that threw changed its source"); nsym_cover("thrown");
        }
        else { same(c, want, "the throwing interface gave another result"); if (so.s.n) untouched(o, so, "the source of an operation changed"); else CHECK(o.empty(), "the source of an operation changed"); nsym_cover("done"); }
        c.push_back(E(x)); o.push_back(E(x)); want = thrown ? sc.s : want; want.push(x); same(c, want, "the container is unusable afterwards"); so.s.push(x); same(o, so.s, "the source is unusable afterwards");
    }
    all_gone();
}
