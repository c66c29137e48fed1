// C14: a shared_ptr to a base (at another address, without a virtual destructor) or to const owns the same value as the pointer it was made from.
#include "common.hpp"
struct B1 { unsigned a; B1() noexcept : a(0) {} virtual ~B1() {} };
struct B2 { unsigned b; B2() noexcept : b(0) {} };
static int g_state[4];
struct D : B1, B2 { Elem<0> e; int id; D(unsigned v, int i) noexcept : e(v), id(i) { a = v + 1; b = v + 2; g_state[i] = 1; } ~D() { if (g_state[id] != 1) nsym_fail("a value is destroyed twice"); g_state[id] = 2; } };
typedef nestl::shared_ptr<D> SD; typedef nestl::shared_ptr<B2> SB; typedef nestl::shared_ptr<const D> SC; typedef nestl::weak_ptr<B2> WB;
static SD d[2]; static SB b; static SC c; static WB w;
static int md[2], mb, mc, mw; static D* raw[2]; static unsigned v[2];
static long own(int o) { return (md[0] == o) + (md[1] == o) + (mb == o) + (mc == o); }
static void observe(long extra = 0, int eo = -1)
{
    for (int i = 0; i < 2; ++i) { CHECK(d[i].get() == (md[i] < 0 ? nullptr : raw[md[i]]), "a shared_ptr designates another value"); CHECK(d[i].use_count() == (md[i] < 0 ? 0 : own(md[i]) + (eo == md[i] ? extra : 0)), "use_count() differs from the number of owners"); }
    CHECK(b.get() == (mb < 0 ? nullptr : static_cast<B2*>(raw[mb])), "a pointer to a base designates another object");
    CHECK(b.use_count() == (mb < 0 ? 0 : own(mb) + (eo == mb ? extra : 0)), "use_count() of a pointer to a base differs from the number of owners");
    if (mb >= 0) CHECK(b->b == v[mb] + 2 && (*b).b == v[mb] + 2 && !!b, "a pointer to a base reads another value");
    CHECK(c.get() == (mc < 0 ? nullptr : raw[mc]) && c.use_count() == (mc < 0 ? 0 : own(mc) + (eo == mc ? extra : 0)), "a pointer to const differs from the pointer it was made from");
    if (mc >= 0) CHECK(c->e.val() == v[mc], "a pointer to const reads another value");
    CHECK(w.use_count() == (mw < 0 ? 0 : own(mw) + (eo == mw ? extra : 0)), "an observer of a base reports another number of owners");
    if (mw >= 0 && own(mw) + (eo == mw ? extra : 0)) CHECK(w.lock().get() == static_cast<B2*>(raw[mw]), "lock() of an observer of a base designates another object"); else CHECK(!w.lock(), "lock() revived a destroyed value");
    int live = 0; for (int o = 0; o < 2; ++o) { bool a = own(o) || (eo == o && extra); CHECK((g_state[o] == 1) == a, a ? "a value is destroyed while it still has an owner" : "a value is still alive after its last owner is gone"); live += a; }
    CHECK(g_live == live, "the number of live values differs");
}
// two pointers of one type to different parts of the same value: assigning one to the other changes where it points, not who owns
struct Root { unsigned r; Root() noexcept : r(0) {} }; struct Lp : Root {}; struct Rp : Root { unsigned pad; Rp() noexcept : pad(0) {} };
struct Both : Lp, Rp { Elem<0> e; Both(unsigned x) noexcept : e(x) { Lp::r = x; Rp::r = x + 1; } };
static void twins()
{
    typedef nestl::shared_ptr<Root> SR; typedef nestl::weak_ptr<Root> WR; Err e; unsigned x = nsym_u32("value"); Root* at[2];
    SR p[2]; WR w[2]; { TAlloc<Both> al(1); nestl::shared_ptr<Both> s = nestl::make_shared_a_nothrow<Both>(e, al, x); CHECK(!e, "make_shared failed although nothing can fail");
      nestl::shared_ptr<Lp> l(s); nestl::shared_ptr<Rp> r(s); p[0] = l; p[1] = r; at[0] = static_cast<Lp*>(s.get()); at[1] = static_cast<Rp*>(s.get()); w[0] = p[0]; w[1] = p[1]; }
    int m[2] = { 0, 1 }, mw[2] = { 0, 1 }; long own = 2;
    for (int k = 0; k < 2; ++k)
    {
        unsigned i = nsym_choice("i", 2);
        switch (nsym_choice("op", 9))
        {
        case 0: p[i] = p[1 - i]; m[i] = m[1 - i]; break;
        case 1: p[i] = std::move(p[1 - i]); m[i] = m[1 - i]; m[1 - i] = -1; break;
        case 2: p[i].swap(p[1 - i]); { int t = m[0]; m[0] = m[1]; m[1] = t; } break;
        case 3: w[i] = p[i]; mw[i] = m[i]; break;
        case 4: w[i] = w[1 - i]; mw[i] = mw[1 - i]; break;
        case 5: w[i] = std::move(w[1 - i]); mw[i] = mw[1 - i]; mw[1 - i] = -1; break;
        case 6: p[i] = w[i].lock(); m[i] = own ? mw[i] : -1; break;
        case 7: { SR t(p[i]); p[i] = p[1 - i]; p[1 - i] = t; int q = m[0]; m[0] = m[1]; m[1] = q; break; }
        default: p[i].reset(); m[i] = -1; break;
        }
        own = (m[0] >= 0) + (m[1] >= 0); CHECK(g_live == (own ? 1 : 0), "a value with two pointers to parts of it is not destroyed with its last owner");
        for (int j = 0; j < 2; ++j)
        {
            CHECK(p[j].get() == (m[j] < 0 ? nullptr : at[m[j]]) && p[j].use_count() == (m[j] < 0 ? 0 : own), "a pointer to one part of a value designates another part or has another number of owners");
            if (m[j] >= 0) CHECK(p[j]->r == x + m[j], "a pointer to one part of a value reads another part");
            CHECK(w[j].lock().get() == (mw[j] < 0 || !own ? nullptr : at[mw[j]]), "an observer of one part of a value designates another part");
        }
    }
    nsym_cover("twins");
}
void harness()
{
    if (nsym_choice("twins", 2)) { twins(); all_gone(); nsym_end(); return; }
    { Err e; TAlloc<D> al(1); SD p[2];
      for (int i = 0; i < 2; ++i) { v[i] = nsym_u32("value"); p[i] = nestl::make_shared_a_nothrow<D>(e, al, v[i], i); CHECK(!e, "make_shared failed although nothing can fail"); raw[i] = p[i].get(); }
      for (int i = 0; i < 2; ++i) { md[i] = (int)nsym_choice("owner", 3) - 1; if (md[i] >= 0) d[i] = p[md[i]]; }
      mb = (int)nsym_choice("base", 3) - 1; if (mb >= 0) b = p[mb];
      mc = (int)nsym_choice("const", 3) - 1; if (mc >= 0) { SC t(p[mc]); c = t; }
      mw = (int)nsym_choice("observer", 3) - 1; if (mw >= 0) { SB t(p[mw]); w = t; } }
    observe();
    int steps = nsym_param("steps", 1);
    for (int k = 0; k < steps; ++k)
    {
    unsigned i = nsym_range("i", 2);
    switch (nsym_range("op", 14))
    {
    case 0: b = d[i]; mb = md[i]; break;
    case 1: b = std::move(d[i]); mb = md[i]; md[i] = -1; break;
    case 2: { SB t(d[i]); observe(1, md[i]); CHECK(t.get() == (md[i] < 0 ? nullptr : static_cast<B2*>(raw[md[i]])), "a pointer to a base designates another object"); break; }
    case 3: c = d[i]; mc = md[i]; break;
    case 4: c = std::move(d[i]); mc = md[i]; md[i] = -1; break;
    case 5: { SC t(d[i]); observe(1, md[i]); break; }
    case 6: { SB t(b); b.swap(t); observe(1, mb); if (i) { b = std::move(t); } break; }
    case 7: b.reset(); mb = -1; break;
    case 8: d[i].reset(); md[i] = -1; break;
    case 9: w = b; mw = mb; break;
    case 10: b = w.lock(); mb = mw >= 0 && own(mw) ? mw : -1; break;
    case 11: { SB t(d[i]); b.swap(t); mb = md[i]; break; }
    case 12: d[i] = d[1 - i]; md[i] = md[1 - i]; break;
    default: { SB t(std::move(b)); int q = mb; mb = -1; observe(1, q); if (i) { b = t; t.reset(); mb = q; } break; }
    }
    observe(); nsym_cover("step");
    }
    for (int i = 0; i < 2; ++i) { d[i].reset(); md[i] = -1; } c.reset(); mc = -1; b.reset(); mb = -1; observe();
    w.reset(); mw = -1; all_gone(); nsym_cover("end"); nsym_end();
}
