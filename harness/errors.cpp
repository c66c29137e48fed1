// C18: error objects: an error is clear until something is put into it, keeps exactly what was put in through copies and assignments,
// and hands the original exception back when it is thrown.
#include "common.hpp"
#if EXC
struct Payload : std::exception { unsigned v; int* count; Payload(unsigned x, int* c) : v(x), count(c) { ++*c; } Payload(const Payload& o) noexcept : std::exception(o), v(o.v), count(o.count) { ++*count; } ~Payload() noexcept { --*count; } };
struct Derived : Payload { unsigned w; Derived(unsigned x, unsigned y, int* c) : Payload(x, c), w(y) {} };
static int kind_of(std::exception_ptr p, unsigned& v, unsigned& w)
{
    v = w = 0;
    try { std::rethrow_exception(p); }
    catch (const Derived& d) { v = d.v; w = d.w; return 5; }
    catch (const Payload& d) { v = d.v; return 4; }
    catch (const std::bad_alloc&) { return 1; }
    catch (const std::length_error&) { return 2; }
    catch (const Boom& b) { v = b.id; return 3; }
    catch (unsigned x) { v = x; return 6; }
    catch (...) { return 7; }
}
static int g_count;
// puts an arbitrary error into e and says what it is
static int put(Err& e, unsigned x, unsigned y)
{
    unsigned k = nsym_range("kind", 9);
    switch (k)
    {
    case 0: return 0;
    case 1: build_bad_alloc(e); return 1;
    case 2: build_length_error(e); return 2;
    case 3: from_exception(e, Boom{(int)x}); return 3;
    case 4: from_exception(e, Payload(x, &g_count)); return 4;
    case 5: try { throw Derived(x, y, &g_count); } catch (const std::exception&) { from_exception_ptr(e, std::current_exception()); } return 5;
    case 6: try { throw x; } catch (...) { from_exception_ptr(e, std::current_exception()); } return 6;
    case 7: e = Err(std::make_exception_ptr(Boom{(int)x})); return 3;
    default: try { try { throw Derived(x, y, &g_count); } catch (const Payload& p) { throw; } } catch (...) { e = Err(std::current_exception()); } return 5;
    }
}
static void is(const Err& e, int kind, unsigned x, unsigned y)
{
    CHECK(!!e == (kind != 0), "operator bool of an error is wrong");
    CHECK((e.value() != nullptr) == (kind != 0), "value() of an error is wrong");
    if (!kind) return;
    unsigned v, w; int k = kind_of(e.value(), v, w);
    CHECK(k == kind, "an error holds another exception than the one put in");
    CHECK(kind < 3 || v == x, "the exception held by an error lost its content"); CHECK(kind != 5 || w == y, "the exception held by an error lost its content");
    bool thrown = false;
    try { throw_exception(e); } catch (...) { thrown = true; k = kind_of(std::current_exception(), v, w); }
    CHECK(thrown && k == kind && (kind < 3 || v == x) && (kind != 5 || w == y), "throw_exception threw something else than the error holds");
}
void harness()
{
    unsigned x = nsym_u32("x"), y = nsym_u32("y");
    {
        Err none; is(none, 0, 0, 0); Err nul((std::exception_ptr())); is(nul, 0, 0, 0);
        Err e; int k = put(e, x, y); is(e, k, x, y);
        Err c(e); is(c, k, x, y); is(e, k, x, y);
        Err d; int k2 = put(d, y, x); is(d, k2, y, x);           // a second error does not disturb the first
        is(e, k, x, y);
        d = e; is(d, k, x, y); is(e, k, x, y);
        e = Err(); is(e, 0, 0, 0); is(d, k, x, y); is(c, k, x, y);
        Err m(std::move(d)); is(m, k, x, y);
        from_exception_ptr(m, std::exception_ptr()); is(m, 0, 0, 0);
        from_exception_ptr(c, e.value()); is(c, 0, 0, 0);
        nsym_cover("done");
    }
    CHECK(g_count == 0, "an exception outlives the errors that held it");
}
#else
void harness()
{
    int v = (int)nsym_u32("value"), w = (int)nsym_u32("other");
    Err none; CHECK(!none && none.value() == 0, "a fresh error is not clear");
    Err e(v); CHECK(e.value() == v && !!e == (v != 0), "an error lost its code");
    Err c(e); CHECK(c.value() == v && !!c == (v != 0), "a copied error lost its code");
    Err d(w); d = e; CHECK(d.value() == v && e.value() == v, "an assigned error lost its code");
    d = Err(w); CHECK(d.value() == w && e.value() == v && c.value() == v, "errors are not independent of each other");
    Err m(std::move(d)); CHECK(m.value() == w, "a moved error lost its code");
    build_bad_alloc(m); CHECK(!!m && m.value() == ENOMEM && m.value() == nestl::errc::not_enough_memory, "out of memory is reported with another code");
    build_length_error(c); CHECK(!!c && c.value() == ERANGE && c.value() == nestl::errc::value_too_large, "excess length is reported with another code");
    CHECK(nestl::errc::invalid_argument == EINVAL, "another code"); e = Err(); CHECK(!e && e.value() == 0, "an error cannot be cleared");
    nsym_cover("done");
}
#endif
