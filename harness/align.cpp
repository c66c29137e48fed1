// C24: every element of every container, and every temporary the library makes, lives at an address aligned for its type.
#include "common.hpp"
#include <cstdint>
#ifndef AL
#define AL 64
#endif
struct alignas(AL) E
{
    unsigned v; unsigned char tail[AL > 4 ? 5 : 1];
    E() noexcept : v(0) { born(); } E(unsigned x) noexcept : v(x) { born(); } E(const E& o) noexcept : v(o.v) { o.ok(); born(); } E(E&& o) noexcept : v(o.v) { o.ok(); born(); o.v = MOVED; }
    E& operator=(const E& o) noexcept { ok(); o.ok(); v = o.v; return *this; } E& operator=(E&& o) noexcept { ok(); o.ok(); v = o.v; return *this; } ~E() { ok(); --g_live; }
    void born() { ok(); ++g_live; }
    unsigned val() const { ok(); return v; }
    void ok() const { if (reinterpret_cast<std::uintptr_t>(this) % AL) nsym_fail("an element lives at an address that is not aligned for its type"); }
};
static bool operator<(const E& a, const E& b) { return a.val() < b.val(); }
// memory aligned for T and not for more
template <typename T> struct AAlloc
{
    typedef T value_type; typedef std::true_type propagate_on_container_move_assignment; template <typename U> struct rebind { typedef AAlloc<U> other; };
    AAlloc() noexcept {} template <typename U> AAlloc(const AAlloc<U>&) noexcept {}
    template <typename Er> T* allocate(Er& err, std::size_t n, const void* = 0) noexcept
    {
        const std::size_t a = alignof(T) < 16 ? 16 : alignof(T);
        char* p = static_cast<char*>(nsym_malloc(n * sizeof(T) + 3 * a)); std::uintptr_t q = (reinterpret_cast<std::uintptr_t>(p) + 16 + 2 * a - 1) / (2 * a) * (2 * a);
        if (q - reinterpret_cast<std::uintptr_t>(p) >= a + 16) q -= a; else q += a;
        char* r = p + (q - reinterpret_cast<std::uintptr_t>(p)); memcpy(r - sizeof p, &p, sizeof p); ++g_allocs; return reinterpret_cast<T*>(r);
    }
    void deallocate(T* t, std::size_t) noexcept { if (!t) return; char* p; memcpy(&p, reinterpret_cast<char*>(t) - sizeof p, sizeof p); nsym_free(p); --g_allocs; }
};
template <typename T> bool operator==(const AAlloc<T>&, const AAlloc<T>&) noexcept { return true; }
typedef nestl::no_exceptions::vector<E, AAlloc<E> > V; typedef nestl::no_exceptions::list<E, AAlloc<E> > L; typedef nestl::set<E, std::less<E>, AAlloc<E> > S;
static __attribute__((noinline)) void work()
{
    Err e; unsigned x = nsym_u32("x"), k = nsym_choice("container", 4), n = nsym_choice("n", 4);
    if (k == 0)
    {
        V v; for (unsigned i = 0; i < n; ++i) v.push_back_nothrow(e, E(x + i)); unsigned pos = nsym_choice("pos", n + 1); if (nsym_choice("room", 2)) v.reserve_nothrow(e, n + 3);
        E a[2]; switch (nsym_choice("op", 8)) { case 0: v.insert_nothrow(e, v.cbegin() + pos, E(7)); break; case 1: v.insert_nothrow(e, v.cbegin() + pos, static_cast<const E*>(a), static_cast<const E*>(a + 2)); break; case 2: v.assign_nothrow(e, std::size_t(3), a[0]); break; case 3: v.resize_nothrow(e, n + 2); break;
            case 4: v.resize_nothrow(e, n + 2, a[0]); break; case 5: { V w; w.copy_nothrow(e, v); break; } case 6: v.shrink_to_fit_nothrow(e); break; default: v.emplace_back_nothrow(e, x); break; }
        for (V::iterator i = v.begin(); i != v.end(); ++i) (*i).ok();
    }
    else if (k == 1)
    {
        L l, o; for (unsigned i = 0; i < n; ++i) l.push_back_nothrow(e, E(x - i)); l.push_front_nothrow(e, E(3)); o.copy_nothrow(e, l); o.emplace_back_nothrow(e, x); l.assign_nothrow(e, std::size_t(2), E(x)); l.insert_nothrow(e, l.cbegin(), std::size_t(2), E(x)); l.sort(); l.splice(l.cend(), o); for (L::iterator i = l.begin(); i != l.end(); ++i) (*i).ok();
    }
    else if (k == 2)
    {
        S s, t; for (unsigned i = 0; i < n; ++i) { E a(nsym_u8("key")); s.insert_nothrow(e, a); } s.insert_nothrow(e, E(x)); t.copy_nothrow(e, s); s.erase(E(x)); for (S::iterator i = t.begin(); i != t.end(); ++i) (*i).ok();
    }
    else { AAlloc<E> a; nestl::shared_ptr<E> p = nestl::make_shared_a_nothrow<E>(e, a, x); p->ok(); nestl::weak_ptr<E> w(p); CHECK(val(*p) == x, "another value"); p.reset(); }
    CHECK(!e, "an operation failed although nothing can fail");
}
// from stack frames at different offsets, so that a temporary is not aligned by luck
template <int D> struct Deep { static __attribute__((noinline)) void go(unsigned d) { volatile char pad[16 + 16 * D]; pad[0] = 0; if (d) Deep<D - 1>::go(d - 1); else work(); pad[1] = 0; } };
template <> struct Deep<0> { static void go(unsigned) { work(); } };
void harness()
{
    Deep<4>::go(nsym_choice("depth", 4)); nsym_cover("end");
    CHECK(g_allocs == 0, "memory was never returned"); all_gone();
}
