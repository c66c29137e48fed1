// C17: building and assigning one object through nestl::class_operations, the step every container is made of: exactly one object is
// made, from exactly the given arguments; a failure is reported with its cause and leaves no object and no change behind.
#ifndef CAUSE
#define CAUSE
#endif
#include "common.hpp"
#ifndef ELEM
#define ELEM Elem<7>
#endif
typedef ELEM T;
namespace co = nestl::class_operations;
// Default construction and initialisation may both fail; init may find the object in its default state only.
struct Mixed
{
    Elem<4> e; unsigned extra;
    Mixed() noexcept(!EXC) : e(), extra(7) {}
    Mixed(const Mixed&) = delete; Mixed& operator=(const Mixed&) = delete;
};
struct Held { int* r; Held(int& x, std::nullptr_t) noexcept : r(&x) { ++g_live; } ~Held() { --g_live; } };
struct Cat { int how; Cat(T&) noexcept : how(1) { ++g_live; } Cat(const T&) noexcept : how(2) { ++g_live; } Cat(T&&) noexcept : how(3) { ++g_live; } Cat(const T&&) noexcept : how(4) { ++g_live; } ~Cat() { --g_live; }
             Cat() noexcept : how(0) { ++g_live; } Cat& operator=(T&) noexcept { how = 1; return *this; } Cat& operator=(const T&) noexcept { how = 2; return *this; } Cat& operator=(T&&) noexcept { how = 3; return *this; } };
static int g_inits;
namespace nestl { template <> struct two_phase_initializator<Mixed> {
    template <typename E> static void init(E& err, Mixed& m, unsigned x, unsigned& out) noexcept { ++g_inits; CHECK(m.e.val() == 0 && m.extra == 7, "two-phase initialisation got an object that is not freshly made"); out = x; if (fault(C_INIT)) { build_length_error(err); return; } m.e.v = x; m.extra = x + 1; }
}; }
// 1 iff T can be built from (copy) without two phases
void harness()
{
    g_faults = 0; unsigned x = nsym_u32("x"), y = nsym_u32("y"), op = nsym_range("op", 12);
    {
        T src(x); int live = g_live; Err e; g_faults = nsym_param("faults", 2);
        if (op <= 4)
        {
            nestl::aligned_buffer<T> buf[3]; memset(static_cast<void*>(buf), 0x5a, sizeof buf);
            CHECK(buf[1].ptr() == reinterpret_cast<T*>(buf + 1) && buf[1].address() == static_cast<void*>(buf + 1) && static_cast<const nestl::aligned_buffer<T>&>(buf[1]).ptr() == buf[1].ptr(), "aligned_buffer hands out another address");
            T* p = buf[1].ptr(); unsigned want = x;
            arm();
            switch (op)
            {
            case 0: co::construct(e, p, x); break;
            case 1: co::construct(e, p); want = 0; break;
            case 2: co::construct(e, p, static_cast<const T&>(src)); break;
            case 3: co::construct(e, p, std::move(src)); break;
#ifdef TWOP
            default: co::construct(e, p, static_cast<const T&>(src), y); want = x + y; break;
#else
            default: co::construct(e, p, x, y); want = x + y; break;
#endif
            }
            disarm(); reported(e);
            if (e) { CHECK(g_live == live && src.v == x, "a failed construction left an object behind or changed its argument"); nsym_cover("not made"); }
            else
            {
                CHECK(g_live == live + 1 && val(*p) == want, "construction made another value");
                CHECK(op == 3 ? src.v == MOVED : src.v == x, "an argument was not passed through as given"); nsym_cover("made");
            }
            const unsigned char* c = reinterpret_cast<const unsigned char*>(buf); bool ok = true;
            for (unsigned i = 0; i < sizeof buf[0]; ++i) ok &= c[i] == 0x5a && c[2 * sizeof buf[0] + i] == 0x5a;
            CHECK(ok, "construction wrote outside the object");
            if (!e) p->~T();
        }
        else if (op == 5)
        {
            nestl::aligned_buffer<Mixed> b; unsigned out = ~x; g_inits = 0; arm(); co::construct(e, b.ptr(), x, out); disarm(); reported(e);
            if (e) { CHECK(g_live == live, "failed two-phase construction left an object behind (or destroyed one that was never made)"); CHECK(g_inits == (why(e) == C_INIT), "initialisation ran on an object that was never made"); }
            else { CHECK(g_inits == 1 && out == x && val(b.ptr()->e) == x && b.ptr()->extra == x + 1 && g_live == live + 1, "two-phase construction did not initialise the object"); b.ptr()->~Mixed(); }
            nsym_cover("two-phase");
        }
        else if (op == 6)
        {
            nestl::aligned_buffer<Held> b; int z = 3; arm(); co::construct(e, b.ptr(), z, nullptr); disarm(); reported(e); CHECK(b.ptr()->r == &z, "a reference argument was copied"); b.ptr()->~Held();
        }
        else if (op == 7)
        {
            nestl::aligned_buffer<Cat> b; Cat d; unsigned how = nsym_choice("category", 4); arm();
            switch (how) { case 0: co::construct(e, b.ptr(), src); co::assign(e, d, src); break; case 1: co::construct(e, b.ptr(), static_cast<const T&>(src)); co::assign(e, d, static_cast<const T&>(src)); break;
                           case 2: co::construct(e, b.ptr(), std::move(src)); co::assign(e, d, std::move(src)); break; default: co::construct(e, b.ptr(), static_cast<const T&&>(src)); d.how = 4; break; }
            disarm(); reported(e); CHECK(b.ptr()->how == (int)how + 1 && d.how == (int)how + 1, "value category or constness of an argument was lost"); b.ptr()->~Cat(); nsym_cover("category");
        }
#ifndef TWOP
        else if (op <= 10)
        {
            g_faults = 0; T d(y); int l2 = g_live; g_faults = nsym_param("faults", 2); unsigned copies = g_copies; (void)copies; arm();
            if (op == 8) co::assign(e, d, static_cast<const T&>(src)); else if (op == 9) co::assign(e, d, std::move(src)); else co::assign(e, d, d);
            disarm(); reported(e); CHECK(g_live == l2, "assignment made or destroyed an object");
            if (e) { CHECK(val(d) == y && val(src) == x, "a failed assignment changed something"); nsym_cover("not assigned"); }
            else { CHECK(val(d) == (op == 10 ? y : x), "assignment gave another value"); CHECK(src.v == (op == 9 ? (unsigned)MOVED : x), "an assigned value was not passed through as given"); nsym_cover("assigned"); }
        }
        else
        {   // conversions and plain types
            unsigned char d = 0; unsigned w = 0; arm(); co::assign(e, w, (unsigned char)y); co::assign(e, d, (unsigned char)y); nestl::aligned_buffer<unsigned long> b; co::construct(e, b.ptr(), x); disarm(); reported(e); CHECK(w == (y & 255) && d == (y & 255) && *b.ptr() == x, "assignment of a plain value gave another value");
        }
#endif
        g_faults = 0;
    }
    all_gone();
}
