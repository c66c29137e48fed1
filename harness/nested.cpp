// C23: containers of containers (elements that are copied in two phases): copies are deep and independent, a failure anywhere inside is
// reported and leaves whole inner containers only, moving an inner container keeps its elements in place.
#ifndef CAUSE
#define CAUSE
#endif
#include "common.hpp"
#ifndef ELEM
#define ELEM Elem<1>
#endif
typedef ELEM E;
#if defined(INNER_LIST)
typedef nestl::no_exceptions::list<E> I;
#elif defined(INNER_WRAP)
typedef nestl::vector<E> I;
#elif defined(INNER_WLIST)
typedef nestl::list<E> I;
#else
typedef nestl::no_exceptions::vector<E> I;
#endif
#if defined(OUTER_LIST)
typedef nestl::no_exceptions::list<I, TAlloc<I> > O;
#else
typedef nestl::no_exceptions::vector<I, TAlloc<I> > O;
#endif
struct M { unsigned n, k[16], v[16][3]; M() : n(0) { memset(k, 0, sizeof k); memset(v, 0, sizeof v); }
    void ins(unsigned p, const M& o, unsigned j) { for (unsigned i = n; i > p; --i) { k[i] = k[i - 1]; memcpy(v[i], v[i - 1], sizeof v[i]); } k[p] = o.k[j]; memcpy(v[p], o.v[j], sizeof v[p]); ++n; } };
static int total(const M& m) { int t = 0; for (unsigned i = 0; i < m.n; ++i) t += m.k[i]; return t; }
static void fill(I& in, M& m, unsigned j, unsigned max)
{
    Err e;
#ifdef MID
    m.k[j] = j % 3 < max ? j % 3 : max;
#else
    m.k[j] = nsym_choice("inner", max + 1);
#endif
    for (unsigned i = 0; i < m.k[j]; ++i) { m.v[j][i] = nsym_u32("value"); in.push_back_nothrow(e, E(m.v[j][i])); } CHECK(!e, "filling failed although nothing can fail");
}
static bool same(const I& in, const M& m, unsigned j) { if (in.size() != m.k[j]) return false; bool ok = true; unsigned i = 0; for (I::const_iterator k = in.begin(); k != in.end(); ++k, ++i) { if (i >= m.k[j]) return false; ok &= val(*k) == m.v[j][i]; } return ok & (i == m.k[j]); }
static void is(O& o, const M& m, const char* what) { CHECK(o.size() == m.n, what); unsigned i = 0; bool ok = true; for (O::iterator k = o.begin(); k != o.end(); ++k, ++i) { if (i >= m.n) nsym_fail(what); ok &= same(*k, m, i); } CHECK(ok, what); }
static O::const_iterator at(const O& o, unsigned i) { O::const_iterator k = o.begin(); while (i--) ++k; return k; }
void harness()
{
    {
        O o((TAlloc<I>(1))); M m; Err e; unsigned n = sized("outer", nsym_param("maxn", 2) + 1, 9);
        for (unsigned i = 0; i < n; ++i) { I in; fill(in, m, i, 2); o.push_back_nothrow(e, std::move(in)); CHECK(!e && in.empty(), "appending an inner container failed"); ++m.n; }
        is(o, m, "an appended inner container differs"); CHECK(g_live == total(m), "moving an inner container copied its elements");
        I x; M mx; mx.n = 1; fill(x, mx, 0, 2); M was = m; int live = g_live; unsigned op = nsym_choice("op", 8); g_oom = true; g_faults = nsym_param("faults", 2);
        const E* first = x.empty() ? nullptr : &*x.begin(); unsigned pos = 0, k = 0;
        switch (op)
        {
        case 0: arm(); o.push_back_nothrow(e, x); disarm(); pos = m.n; m.ins(pos, mx, 0); break;
        case 1: arm(); o.push_back_nothrow(e, std::move(x)); disarm(); pos = m.n; m.ins(pos, mx, 0); if (!e) { CHECK(x.empty() && (!first || &*(*at(o, pos)).begin() == first), "a moved inner container was copied"); mx.k[0] = 0; } break;
        case 2: pos = pick("pos", m.n + 1); arm(); o.insert_nothrow(e, at(o, pos), x); disarm(); m.ins(pos, mx, 0); break;
        case 3: pos = m.n; arm(); o.emplace_back_nothrow(e, static_cast<const I&>(x)); disarm(); m.ins(pos, mx, 0); break;
        case 4: { O c((TAlloc<I>(2))); g_faults = 0; I y; M my; fill(y, my, 0, 1); Err e2; c.push_back_nothrow(e2, y); g_faults = nsym_param("faults", 2); arm(); c.copy_nothrow(e, o); disarm(); g_faults = 0; is(o, m, "copying changed the original");
                  if (!e) { is(c, m, "a copy differs from the original"); if (m.n && m.k[0]) { setval(*(*o.begin()).begin(), 77); is(c, m, "a copy shares elements with the original"); m.v[0][0] = 77; was = m; } o.clear(); m = M(); if (nsym_choice("then", 2)) c.clear(); } break; }
        case 5: k = pick("count", m.n + 2); arm(); o.assign_nothrow(e, (std::size_t)k, x); disarm(); m = M(); for (unsigned i = 0; i < k; ++i) m.ins(i, mx, 0); break;
#ifndef OUTER_LIST
        case 6: k = pick("count", m.n + 3); arm(); o.resize_nothrow(e, k, x); disarm(); while (m.n < k) m.ins(m.n, mx, 0); m.n = k; break;
        default: arm(); o.reserve_nothrow(e, 5); disarm(); break;
#else
        case 6: pos = pick("pos", m.n + 1); arm(); o.insert_nothrow(e, at(o, pos), (std::size_t)2, x); disarm(); m.ins(pos, mx, 0); m.ins(pos, mx, 0); break;
        default: if (!m.n) break; o.erase(o.begin()); for (unsigned i = 0; i + 1 < m.n; ++i) { m.k[i] = m.k[i + 1]; memcpy(m.v[i], m.v[i + 1], sizeof m.v[i]); } --m.n; break;
#endif
        }
        g_faults = 0; reported(e); CHECK(same(x, mx, 0), "an argument changed");
        if (!e) { is(o, m, "the container of containers differs"); CHECK(g_live == total(m) + (int)mx.k[0], "elements were leaked or lost"); nsym_cover("done"); if (o.size() && !x.empty()) { setval(*x.begin(), 99); is(o, m, "an inner container shares elements with its original"); mx.v[0][0] = 99; } }
        else
        {
            nsym_cover("failed");
            // what is there are whole containers: those that were there or the one that was passed
            int t = 0; unsigned q = 0; for (O::iterator i = o.begin(); i != o.end(); ++i, ++q) { t += (*i).size(); bool known = same(*i, mx, 0); for (unsigned j = 0; j < was.n; ++j) known |= same(*i, was, j); CHECK(known, "after a failure an inner container is incomplete"); }
            CHECK(g_live == t + (int)mx.k[0], "a failure leaked or lost elements");
            if (op == 0 || op == 1 || op == 3) is(o, was, "a failed append changed the container");
        }
        Err e2; o.push_back_nothrow(e2, x); CHECK(!e2 && o.size() && same(*at(o, o.size() - 1), mx, 0), "the container is unusable afterwards");
    }
    all_gone();
}
