// Shared by every harness: tracked element types, fault injection, a tracking allocator, and the global operator new
// the library's own allocator ends up in.
#ifndef COMMON_HPP
#define COMMON_HPP
#include "nsym.h"
#include <cstddef>
#include <cstring>
#include <cassert>
#include <functional>
#include <iterator>
#include <limits>
#include <memory>
#include <new>
#include <stdexcept>
#include <exception>
#include <type_traits>
#include <utility>

#ifdef AS_GCC                       // take the configuration branch the project's own build takes
#undef __clang__
#endif

#include <nestl/config.hpp>
#include <nestl/default_operation_error.hpp>
#include <nestl/vector.hpp>
#include <nestl/list.hpp>
#include <nestl/set.hpp>
#include <nestl/shared_ptr.hpp>
#include <nestl/algorithm.hpp>
#include <nestl/class_operations.hpp>
#include <nestl/implementation/detail/red_black_tree.hpp>

#if defined(__EXCEPTIONS)
#define EXC 1
#else
#define EXC 0
#endif
static_assert(nestl::exception_support_t::value == (EXC == 1), "exception mode not detected");

enum { C_ALLOC = 1, C_INIT = 2, C_THROW = 16 };   // why something failed; C_THROW + id for a thrown Boom{id}
struct Boom { int id; };
struct BoomStd : std::exception { int id; explicit BoomStd(int i) noexcept : id(i) {} };      // failures come as exceptions of several kinds
struct BoomSub : BoomStd { unsigned mark; explicit BoomSub(int i) noexcept : BoomStd(i), mark(0xb00b5) {} };
enum { K_STD = 64, K_SUB = 128, K_INT = 192 };
#if EXC
static inline int cause_of(std::exception_ptr p)
{
    try { std::rethrow_exception(p); }
    catch (const Boom& b) { return C_THROW + b.id; }
    catch (const BoomSub& b) { return b.mark == 0xb00b5 ? C_THROW + b.id + K_SUB : -1; }
    catch (const BoomStd& b) { return C_THROW + b.id + K_STD; }
    catch (int i) { return C_THROW + i + K_INT; }
    catch (const std::bad_alloc&) { return C_ALLOC; }
    catch (const std::length_error&) { return C_INIT; }
    catch (...) {}
    return -1;
}
#endif
#ifdef USER_ERR
// An error type of the user's own: all the library may rely on is operator bool and the functions found by argument dependent lookup.
namespace user
{
struct error { int why; error() noexcept : why(0) {} explicit operator bool() const noexcept { return why != 0; } };
inline void build_length_error(error& e) noexcept { e.why = C_INIT; }
inline void build_bad_alloc(error& e) noexcept { e.why = C_ALLOC; }
#if EXC
inline void from_exception_ptr(error& e, std::exception_ptr p) noexcept { e.why = cause_of(p); }
#endif
}
typedef user::error Err;
static inline int why(const Err& e) { return e.why; }
#else
typedef nestl::default_operation_error Err;
#if EXC
static inline int why(const Err& e) { return e ? cause_of(e.value()) : 0; }
#else
static inline int why(const Err& e) { return e.value() == nestl::errc::not_enough_memory ? C_ALLOC : e.value() == nestl::errc::value_too_large ? C_INIT : e.value() ? -1 : 0; }
#endif
#endif

#define CHECK(c, m) nsym_check(!!(c), m)

// ---------------------------------------------------------------- fault injection
// Every fault point asks fault(); the k-th call fails, for an arbitrary k (and, when sticky, every later call too).
static unsigned g_tick, g_at, g_armed, g_sticky, g_hits, g_faults;   // g_faults: 0 never, 1 one fault, 2 one or persistent
static int g_why[4];                             // the causes of the first failures
static inline bool fault(int cause)
{
    if (!g_armed) return false;
    unsigned t = g_tick++;
    bool hit = (g_hits && g_sticky) || t == g_at;
    if (hit) { if (g_hits < 4) g_why[g_hits] = cause; ++g_hits; }
    return hit;
}
static inline void arm()
{
    g_tick = 0; g_hits = 0; g_sticky = 0;
    if (!g_faults) return;
    g_at = nsym_u32("fault_at"); g_armed = 1;
    if (g_faults > 1) g_sticky = nsym_choice("fault_sticky", 2);
}
static inline void disarm() { g_armed = 0; }
// an error is reported iff something failed, and it says what
static inline void reported(const Err& e)
{
    CHECK(!!e == (g_hits > 0), g_hits ? "a failure was swallowed: no error reported" : "an error was reported although nothing failed");
#ifdef CAUSE
    if (e) { bool ok = false; int w = why(e); for (unsigned i = 0; i < 4 && i < g_hits; ++i) ok |= w == g_why[i]; CHECK(ok, "the error reported is another one than the one that happened"); nsym_cover("cause"); }
#endif
}

// ---------------------------------------------------------------- memory under nestl::allocator
static unsigned long g_maxbytes = 1ul << 16;     // larger requests are refused, as a real system would at some size
static unsigned long g_lastbytes; static unsigned g_allocs; static bool g_oom;   // g_oom: operator new is a fault point
static inline void* raw_alloc(std::size_t n)
{
    if (n > g_maxbytes) return nullptr;
    n = nsym_fork64(n);
    g_lastbytes = n; ++g_allocs;
    return nsym_malloc(n);
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { if (g_oom && fault(C_ALLOC)) return nullptr; return raw_alloc(n); }
void operator delete(void* p) noexcept { nsym_free(p); }
void operator delete(void* p, std::size_t) noexcept { nsym_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { nsym_free(p); }

// ---------------------------------------------------------------- elements
static int g_live;                               // number of live tracked objects
static unsigned g_copies, g_ctors;
enum { MOVED = 0x5eed0bad };

// K bits: 1 copy may fail (throws), 2 move may throw, 4 default/value construction may fail
template <int K>
struct Elem
{
    unsigned v;
    const Elem* self;

    Elem() noexcept(!(K & 4)) : v(0), self(nullptr) { risky(K & 4, 3); born(); }
    Elem(unsigned x) noexcept(!(K & 4)) : v(x), self(nullptr) { risky(K & 4, 4); born(); }
    Elem(unsigned x, unsigned y) noexcept(!(K & 4)) : v(x + y), self(nullptr) { risky(K & 4, 5); born(); }
    Elem(const Elem& o) noexcept(!(K & 1)) : v(0), self(nullptr) { o.alive(); risky(K & 1, 1); v = o.v; ++g_copies; born(); }
    Elem(Elem&& o) noexcept(!(K & 2)) : v(0), self(nullptr) { o.alive(); risky(K & 2, 2); v = o.v; o.v = MOVED; born(); }
    ~Elem() { alive(); self = nullptr; --g_live; }
    Elem& operator=(const Elem& o) noexcept(!(K & 1)) { alive(); o.alive(); risky(K & 1, 6); v = o.v; return *this; }
    Elem& operator=(Elem&& o) noexcept(!(K & 2)) { alive(); o.alive(); risky(K & 2, 7); unsigned t = o.v; if (&o != this) o.v = MOVED; v = t; return *this; }
    void alive() const { if (self != this) nsym_fail("an object is used that is not alive (never constructed, already destroyed, or relocated bitwise)"); }
    unsigned val() const { alive(); return v; }
private:
    void born() { self = this; ++g_live; ++g_ctors; }
    static void risky(int may, int id)
    {
#if EXC
        if (!may) return;
#ifdef CAUSE
        if (!fault(C_THROW + id)) return;
        unsigned k = nsym_choice("exception", 4);
        if (g_hits <= 4) g_why[g_hits - 1] += 64 * k;
        if (k == 1) throw BoomStd(id);
        if (k == 2) throw BoomSub(id);
        if (k == 3) throw int(id);
        throw Boom{id};
#else
        if (fault(C_THROW + id)) throw Boom{id};
#endif
#else
        (void)may; (void)id;
#endif
    }
};
template <int K> bool operator==(const Elem<K>& a, const Elem<K>& b) noexcept { return a.val() == b.val(); }
template <int K> bool operator<(const Elem<K>& a, const Elem<K>& b) noexcept { return a.val() < b.val(); }

// copied only by two-phase initialisation, which may report an error in either mode
struct TwoP
{
    unsigned v;
    const TwoP* self;
    TwoP() noexcept : v(0), self(this) { ++g_live; ++g_ctors; }
    TwoP(unsigned x) noexcept : v(x), self(this) { ++g_live; ++g_ctors; }
    TwoP(TwoP&& o) noexcept : v((o.alive(), o.v)), self(this) { o.v = MOVED; ++g_live; ++g_ctors; }
    TwoP(const TwoP&) = delete;
    TwoP& operator=(const TwoP&) = delete;
    ~TwoP() { alive(); self = nullptr; --g_live; }
    void alive() const { if (self != this) nsym_fail("an object is used that is not alive (never constructed, already destroyed, or relocated bitwise)"); }
    unsigned val() const { alive(); return v; }
};
inline bool operator==(const TwoP& a, const TwoP& b) noexcept { return a.val() == b.val(); }
inline bool operator<(const TwoP& a, const TwoP& b) noexcept { return a.val() < b.val(); }
namespace nestl
{
template <> struct two_phase_initializator<TwoP>
{
    template <typename E> static void init(E& err, TwoP& d, const TwoP& o) noexcept
    {
        d.alive(); o.alive();
        if (fault(C_INIT)) { build_length_error(err); return; }
        d.v = o.v; ++g_copies;
    }
    template <typename E> static void init(E& err, TwoP& d, const TwoP& o, unsigned add) noexcept
    {
        d.alive(); o.alive();
        if (fault(C_INIT)) { build_length_error(err); return; }
        d.v = o.v + add; ++g_copies;
    }
};
}

// trivially copyable and destructible, of an odd size with padding
struct Pod
{
    unsigned v; unsigned char t[5];
    Pod() noexcept : v(0) { fill(); }
    Pod(unsigned x) noexcept : v(x) { fill(); }
    Pod(unsigned x, unsigned y) noexcept : v(x + y) { fill(); }
    void fill() { for (int i = 0; i < 5; ++i) t[i] = (unsigned char)(v >> i * 6); }
    unsigned val() const { for (int i = 0; i < 5; ++i) CHECK(t[i] == (unsigned char)(v >> i * 6), "an element was copied in part"); return v; }
};
inline bool operator==(const Pod& a, const Pod& b) noexcept { return a.val() == b.val(); }
inline bool operator<(const Pod& a, const Pod& b) noexcept { return a.val() < b.val(); }

template <typename T> inline unsigned val(const T& e) { return e.val(); }
template <typename T> inline void setval(T& e, unsigned x) { e.v = x; }
inline void setval(unsigned& e, unsigned x) { e = x; }
inline void setval(Pod& e, unsigned x) { e = Pod(x); }
template <typename T> inline int live_of(unsigned n) { return (int)n; }      // how many tracked objects n elements are
template <> inline int live_of<unsigned>(unsigned) { return 0; }
template <> inline int live_of<Pod>(unsigned) { return 0; }
template <> inline unsigned val<unsigned>(const unsigned& e) { return e; }

// an argument passed by reference never changes; one passed as an rvalue does not when there was no memory
template <typename T> static inline void kept(const Err& err, const T& arg, unsigned x, bool rvalue)
{
    if (!rvalue) CHECK(val(arg) == x, "an argument passed by reference was changed");
    else if (err && g_why[0] == C_ALLOC) CHECK(val(arg) == x, "an rvalue argument was consumed although there was no memory for it");
}

// ---------------------------------------------------------------- tracking allocator
// Every block remembers which allocator family it came from and how many elements it was asked for.
struct Block { void* p; std::size_t n; unsigned size; int id; };
enum { MAXB = 160 };
static Block g_blk[MAXB];
static int g_nblk, g_badid;
static inline void* track_alloc(std::size_t n, unsigned size, int id)
{
    if (n > g_maxbytes / size) return nullptr;
    n = nsym_fork64(n);
    void* p = nsym_malloc(n * size);
    int i = 0;
    while (i < g_nblk && g_blk[i].p) ++i;
    if (i == g_nblk) { if (g_nblk == MAXB) nsym_fail("harness: too many blocks"); ++g_nblk; }
    g_blk[i].p = p; g_blk[i].n = n; g_blk[i].size = size; g_blk[i].id = id;
    ++g_allocs;
    return p;
}
static inline void track_free(void* p, std::size_t n, unsigned size, int id)
{
    if (!p) return;
    for (int i = 0; i < g_nblk; ++i)
        if (g_blk[i].p == p)
        {
            CHECK(g_blk[i].id == id, "memory is returned to another allocator than the one it came from");
            CHECK(g_blk[i].n == n && g_blk[i].size == size, "memory is returned with another size than it was requested with");
            g_blk[i].p = nullptr;
            nsym_free(p);
            return;
        }
    nsym_fail("a pointer is deallocated that no allocator handed out (or it is deallocated twice)");
}
static inline int live_blocks(int id) { int c = 0; for (int i = 0; i < g_nblk; ++i) if (g_blk[i].p && (id == 0 || g_blk[i].id == id)) ++c; return c; }
static inline int live_blocks() { return live_blocks(0); }

static int g_allocators;                          // allocator objects alive
template <typename T>
struct TAlloc
{
    typedef T value_type;
    typedef std::true_type propagate_on_container_move_assignment;
    template <typename U> struct rebind { typedef TAlloc<U> other; };
    int id;
    TAlloc() noexcept : id(-1) { ++g_allocators; }                 // a default constructed allocator must never serve memory here
    explicit TAlloc(int i) noexcept : id(i) { ++g_allocators; }
    TAlloc(const TAlloc& o) noexcept : id(o.id) { ++g_allocators; }
    template <typename U> TAlloc(const TAlloc<U>& o) noexcept : id(o.id) { ++g_allocators; }
    ~TAlloc() { --g_allocators; }
#ifdef RISKY_ASSIGN                              // the assignment of an allocator may fail, too
    typedef std::true_type propagate_on_container_copy_assignment;
    TAlloc& operator=(const TAlloc& o) { if (fault(C_THROW + 9)) throw Boom{9}; id = o.id; return *this; }
#else
    TAlloc& operator=(const TAlloc& o) noexcept { id = o.id; return *this; }
#endif
    template <typename E>
    T* allocate(E& err, std::size_t n, const void* = 0) noexcept
    {
        CHECK(id > 0, "memory is requested from an allocator nobody passed in");
        if (fault(C_ALLOC)) { build_bad_alloc(err); return nullptr; }
        T* p = static_cast<T*>(track_alloc(n, sizeof(T), id));
        if (!p) build_bad_alloc(err);
        return p;
    }
    void deallocate(T* p, std::size_t n) noexcept { track_free(p, n, sizeof(T), id); }
};
template <typename T, typename U> bool operator==(const TAlloc<T>& a, const TAlloc<U>& b) noexcept { return a.id == b.id; }
template <typename T, typename U> bool operator!=(const TAlloc<T>& a, const TAlloc<U>& b) noexcept { return a.id != b.id; }

static inline void all_gone()
{
    CHECK(g_live == 0, "objects are left undestroyed (or were destroyed twice)");
    CHECK(live_blocks() == 0, "memory was never returned to its allocator");
    CHECK(g_allocators == 0, "a copy of an allocator was never destroyed (or twice)");
}

// ---------------------------------------------------------------- reference sequence
struct Seq
{
    enum { CAP = 64 };
    unsigned n, a[CAP];
    Seq() : n(0) { memset(a, 0, sizeof a); }
    void insert(unsigned pos, unsigned x) { for (unsigned i = n; i > pos; --i) a[i] = a[i - 1]; a[pos] = x; ++n; }
    void erase(unsigned pos) { for (unsigned i = pos; i + 1 < n; ++i) a[i] = a[i + 1]; --n; }
    void push(unsigned x) { a[n++] = x; }
    void clear() { n = 0; }
};

// ---------------------------------------------------------------- arbitrary positions and counts; -DMID: containers of a fixed middle size, positions near both ends and in the middle
#ifdef MID
static inline unsigned pick(const char* name, unsigned n) { if (n <= 6) return nsym_choice(name, n); unsigned k = nsym_choice(name, 6); return k < 2 ? k : k == 2 ? n / 2 : n - 6 + k; }
static inline unsigned pickr(const char* name, unsigned n) { return pick(name, n); }
static inline unsigned sized(const char*, unsigned, unsigned mid) { return nsym_param("mid", mid); }
#define MAXK 11
#else
static inline unsigned pick(const char* name, unsigned n) { return nsym_choice(name, n); }
static inline unsigned pickr(const char* name, unsigned n) { return nsym_range(name, n); }
static inline unsigned sized(const char* name, unsigned n, unsigned) { return nsym_choice(name, n); }
#ifndef MAXK
#define MAXK 3
#endif
#endif
// ---------------------------------------------------------------- a single pass input iterator over an array
struct InIt
{
    typedef std::input_iterator_tag iterator_category;
    typedef unsigned value_type;
    typedef std::ptrdiff_t difference_type;
    typedef const unsigned* pointer;
    typedef const unsigned& reference;
    const unsigned* p;
    explicit InIt(const unsigned* q) : p(q) {}
    const unsigned& operator*() const { return *p; }
    InIt& operator++() { ++p; return *this; }
    InIt operator++(int) { InIt t(*this); ++p; return t; }
    bool operator==(const InIt& o) const { return p == o.p; }
    bool operator!=(const InIt& o) const { return p != o.p; }
};
#endif
