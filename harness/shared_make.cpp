// C16: making a shared value: allocation and construction happen through the given allocator and arguments; if either fails the error is
// reported, the result is empty and nothing is left behind.
#include "common.hpp"
#ifndef ELEM
#define ELEM Elem<5>
#endif
typedef ELEM T;
typedef nestl::shared_ptr<T> SP; typedef nestl::weak_ptr<T> WP;
struct Pair { T* first; unsigned y; Pair(T& a, unsigned b) noexcept : first(&a), y(b) { ++g_live; } ~Pair() { --g_live; } };
struct Sink { unsigned x; bool rv; Sink(const T& t) noexcept : x(val(t)), rv(false) { ++g_live; } Sink(T&& t) noexcept : x(val(t)), rv(true) { t.v = MOVED; ++g_live; } ~Sink() { --g_live; } };
template <typename P> static void outcome(const P& p, const Err& e)
{
    reported(e);
    if (e) { CHECK(!p && p.get() == nullptr && p.use_count() == 0, "a failed make_shared returned a pointer"); nsym_cover("failed"); }
    else { CHECK(!!p && p.get() && p.use_count() == 1 && p.unique(), "make_shared did not return the only owner"); nsym_cover("made"); }
}
template <typename Q, typename... Args> static nestl::shared_ptr<Q> make(Err& e, int id, Args&&... args)
{
#ifdef ALLOC_DEF
    return nestl::make_shared_nothrow<Q>(e, std::forward<Args>(args)...);
#else
    TAlloc<Q> a(id); return nestl::make_shared_a_nothrow<Q>(e, a, std::forward<Args>(args)...);
#endif
}
static int blocks() {
#ifdef ALLOC_DEF
    return -1;
#else
    return live_blocks();
#endif
}
void harness()
{
    g_oom = true; g_faults = nsym_param("faults", 2);
    {
        unsigned x = nsym_u32("x"), y = nsym_u32("y"); Err e; g_faults = 0; T src(x); g_faults = nsym_param("faults", 2);
        unsigned id = 1 + nsym_range("allocator", 3); int live = g_live, b0 = blocks();
        unsigned op = nsym_range("op", 8);
        if (op <= 4)
        {
            SP p; WP w; unsigned want = x;
            arm();
            switch (op)
            {
            case 0: p = make<T>(e, id, x); break;
            case 1: p = make<T>(e, id); want = 0; break;
            case 2: p = make<T>(e, id, static_cast<const T&>(src)); break;
            case 3: p = make<T>(e, id, std::move(src)); break;
#ifdef TWOP
            default: p = make<T>(e, id, static_cast<const T&>(src), y); want = x + y; break;
#else
            default: p = make<T>(e, id, x, y); want = x + y; break;
#endif
            }
            disarm();
            outcome(p, e); kept(e, src, x, op == 3);
            if (e) { CHECK(g_live == live, "a failed make_shared left an object behind"); CHECK(blocks() == b0, "a failed make_shared kept its memory"); }
            else
            {
                CHECK(g_live == live + 1 && val(*p) == want, "make_shared built another value");
                CHECK(op != 3 || src.v == MOVED, "an rvalue argument was not moved");
                CHECK(op == 3 || src.v == x, "an lvalue argument was changed");
                if (blocks() >= 0) CHECK(live_blocks(id) == b0 + 1 && blocks() == b0 + 1, "make_shared took its memory from another allocator");
                w = p; SP q = p; p.reset(); CHECK(g_live == live + 1 && val(*q) == want && q.unique(), "the value went with an owner that was not the last");
                q.reset(); CHECK(g_live == live && w.expired(), "the value outlives its last owner");
                if (blocks() >= 0) CHECK(blocks() == b0 + 1, "the block went while an observer was left");
                w.reset(); if (blocks() >= 0) CHECK(blocks() == b0, "the block outlives its last observer");
            }
        }
        else if (op == 5)
        {
            arm(); nestl::shared_ptr<Pair> p = make<Pair>(e, id, src, y); disarm(); outcome(p, e);
            if (!e) CHECK(p->first == &src && p->y == y, "arguments were not forwarded by reference");
        }
        else
        {
            arm(); nestl::shared_ptr<Sink> p; if (op == 6) p = make<Sink>(e, id, static_cast<const T&>(src)); else p = make<Sink>(e, id, std::move(src)); disarm(); outcome(p, e); kept(e, src, x, op == 7);
            if (!e) CHECK(p->x == x && p->rv == (op == 7), "value category of the argument was lost");
        }
        CHECK(g_live == live, "objects are left undestroyed (or were destroyed twice)");
        // and it can be tried again
        Err e2; SP again = make<T>(e2, id, y); CHECK(!e2 && again && val(*again) == y, "make_shared is unusable after a failure");
    }
    all_gone();
}
