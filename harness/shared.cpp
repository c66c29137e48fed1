// C14: shared ownership: for every graph of owners, every operation leaves use counts exact, destroys each value exactly when its
// last owner goes, and releases its memory exactly when the last owner and observer are gone.
// C15 (-DWEAK): observers: an observer never revives a destroyed value, knows exactly whether it is alive and keeps nothing but the block.
#include "common.hpp"
enum { NOBJ = 6, NS = 2, NW = 2 };
struct Node;
typedef nestl::shared_ptr<Node> SP; typedef nestl::weak_ptr<Node> WP;
static int g_state[NOBJ];                        // 0 not made, 1 alive, 2 destroyed
struct Node
{
    Elem<0> e; SP next; WP back; int id;
    Node(unsigned v, int i) noexcept : e(v), id(i) { g_state[i] = 1; }
    ~Node() { if (g_state[id] != 1) nsym_fail("a value is destroyed twice"); g_state[id] = 2; SP s = back.lock(); if (s && g_state[s->id] != 1) nsym_fail("lock() revived a value that is being destroyed"); }
};
// ---- model: who points where
struct Model
{
    int s[NS], w[NW], next[NOBJ], back[NOBJ], n; unsigned v[NOBJ]; Node* raw[NOBJ]; bool alive[NOBJ];
    Model() : n(0) { for (int i = 0; i < NS; ++i) s[i] = -1; for (int i = 0; i < NW; ++i) w[i] = -1; for (int i = 0; i < NOBJ; ++i) next[i] = back[i] = -1, alive[i] = false, v[i] = 0, raw[i] = nullptr; }
    long strong(int o) const { long c = 0; for (int i = 0; i < NS; ++i) c += s[i] == o; for (int i = 0; i < n; ++i) c += alive[i] && next[i] == o; return c; }
    long weak(int o) const { long c = 0; for (int i = 0; i < NW; ++i) c += w[i] == o; for (int i = 0; i < n; ++i) c += alive[i] && back[i] == o; return c; }
    void settle() { for (int k = 0; k < NOBJ; ++k) for (int o = 0; o < n; ++o) if (alive[o] && strong(o) == 0) alive[o] = false; }
};
static SP sh[NS]; static WP wk[NW]; static Model m;
static TAlloc<Node> g_alloc(1);
static SP mk(unsigned v)
{
    Err e; int id = m.n; SP p = nestl::make_shared_a_nothrow<Node>(e, g_alloc, v, id);
    CHECK(!e && p && p.use_count() == 1 && p.unique() && p.get(), "make_shared failed although nothing can fail");
    m.raw[id] = p.get(); m.v[id] = v; m.alive[id] = true; ++m.n; return p;
}
static void look(const SP& p, int o, long extra = 0)
{
    if (o < 0) { CHECK(p.get() == nullptr && !p && p.use_count() == 0 && !p.unique(), "an empty shared_ptr does not look empty"); return; }
    CHECK(p.get() == m.raw[o] && !!p, "a shared_ptr designates another value");
    CHECK(p.use_count() == m.strong(o) + extra, "use_count() differs from the number of owners");
    CHECK(p.unique() == (m.strong(o) + extra == 1), "unique() is wrong");
    CHECK((*p).e.val() == m.v[o] && p->e.val() == m.v[o] && p->id == o, "the value changed");
}
static void look(WP& w, int o, long extra = 0)
{
    if (o < 0) { CHECK(w.expired() && w.use_count() == 0 && !w.lock(), "an empty weak_ptr does not look empty"); return; }
    long c = m.strong(o) + extra;
    CHECK(w.use_count() == c && w.expired() == (c == 0), "weak_ptr reports another number of owners");
    SP p = w.lock();
    if (c == 0) CHECK(!p && p.get() == nullptr && p.use_count() == 0, "lock() revived a destroyed value");
    else look(p, o, extra + 1);
}
static void observe()
{
    for (int i = 0; i < NS; ++i) look(sh[i], m.s[i]);
    for (int i = 0; i < NW; ++i) look(wk[i], m.w[i]);
    int live = 0, blocks = 0;
    for (int o = 0; o < m.n; ++o)
    {
        CHECK((g_state[o] == 1) == m.alive[o], m.alive[o] ? "a value is destroyed while it still has an owner" : "a value is still alive after its last owner is gone");
        if (m.alive[o]) { ++live; look(m.raw[o]->next, m.next[o]); look(m.raw[o]->back, m.back[o]); }
        if (m.alive[o] || m.weak(o)) ++blocks;
    }
    CHECK(g_live == live, "the number of live values differs");
    CHECK(live_blocks(1) == blocks, blocks < live_blocks(1) ? "memory is kept although no owner or observer is left" : "memory is released while an observer is left");
}
enum Op { S_COPY, S_MOVE, S_CTOR, S_MCTOR, S_SWAP, S_RESET, S_NULL, S_MAKE, S_FROM_NEXT, S_MOVE_NEXT, NEXT_S, NEXT_MS, SWAP_NEXT, NEXT_RESET, NEXT_NEXT, S_LOCK, S_LOCK_BACK,
          W_FROM_S, W_COPY, W_MOVE, W_RESET, W_CTOR, W_MCTOR, W_SCTOR, W_NEXT, BACK_S, W_BACK, W_MBACK, NOPS, FIRST_WEAK = S_LOCK };
static bool step(unsigned op)
{
    int i = nsym_range("i", 2), j = nsym_range("j", 2), o = m.s[j];
    switch (op)
    {
    case S_COPY: sh[i] = sh[j]; m.s[i] = m.s[j]; break;
    case S_MOVE: sh[i] = std::move(sh[j]); if (i != j) { m.s[i] = m.s[j]; m.s[j] = -1; } break;
    case S_CTOR: { SP t(sh[j]); look(t, m.s[j], 1); if (i) { SP u; u.swap(t); look(u, m.s[j], 1); look(t, -1); } break; }
    case S_MCTOR: { SP t(std::move(sh[j])); m.s[j] = -1; look(t, o, 1); look(sh[j], -1); if (i) break; sh[j] = t; m.s[j] = o; look(t, o, 1); break; }
    case S_SWAP: { sh[i].swap(sh[j]); int t = m.s[i]; m.s[i] = m.s[j]; m.s[j] = t; break; }
    case S_RESET: sh[i].reset(); m.s[i] = -1; break;
    case S_NULL: sh[i] = nullptr; m.s[i] = -1; break;
    case S_MAKE: { SP t = mk(nsym_u32("value")); int id = m.n - 1; if (j) sh[i] = t; else sh[i] = std::move(t); m.s[i] = id; if (j) look(t, id, 1); else look(t, -1); break; }
    case S_FROM_NEXT: if (o < 0) return false; sh[i] = sh[j]->next; m.s[i] = m.next[o]; break;
    case S_MOVE_NEXT: if (o < 0) return false; sh[i] = std::move(sh[j]->next); m.s[i] = m.next[o]; m.next[o] = -1; break;
    case NEXT_S: if (o < 0) return false; sh[j]->next = sh[i]; m.next[o] = m.s[i]; break;
    case NEXT_MS: if (o < 0) return false; sh[j]->next = std::move(sh[i]); m.next[o] = m.s[i]; m.s[i] = -1; break;
    case SWAP_NEXT: { if (o < 0) return false; sh[i].swap(sh[j]->next); int t = m.s[i]; m.s[i] = m.next[o]; m.next[o] = t; break; }
    case NEXT_RESET: if (o < 0) return false; if (i) sh[j]->next.reset(); else sh[j]->next = nullptr; m.next[o] = -1; break;
    case NEXT_NEXT: { if (o < 0 || m.next[o] < 0) return false; int q = m.next[o]; sh[j]->next = sh[j]->next->next; m.next[o] = m.next[q]; break; }
    case S_LOCK: sh[i] = wk[j].lock(); m.s[i] = m.w[j] >= 0 && m.alive[m.w[j]] ? m.w[j] : -1; break;
    case S_LOCK_BACK: { if (o < 0) return false; int b = m.back[o]; sh[i] = sh[j]->back.lock(); m.s[i] = b >= 0 && m.alive[b] ? b : -1; break; }
    case W_FROM_S: wk[i] = sh[j]; m.w[i] = m.s[j]; break;
    case W_COPY: wk[i] = wk[j]; m.w[i] = m.w[j]; break;
    case W_MOVE: wk[i] = std::move(wk[j]); if (i != j) { m.w[i] = m.w[j]; m.w[j] = -1; } break;
    case W_RESET: wk[i].reset(); m.w[i] = -1; break;
    case W_CTOR: { WP t(wk[j]); look(t, m.w[j]); if (i) { wk[j].reset(); int q = m.w[j]; m.w[j] = -1; look(t, q); } break; }
    case W_MCTOR: { WP t(std::move(wk[j])); int q = m.w[j]; m.w[j] = -1; look(t, q); look(wk[j], -1); if (i) { wk[j] = t; m.w[j] = q; } break; }
    case W_SCTOR: { WP t(sh[j]); look(t, m.s[j]); if (i) { sh[j].reset(); m.s[j] = -1; m.settle(); look(t, o); } break; }
    case W_NEXT: if (o < 0) return false; wk[i] = sh[j]->next; m.w[i] = m.next[o]; break;
    case BACK_S: if (o < 0) return false; sh[j]->back = sh[i]; m.back[o] = m.s[i]; break;
    case W_BACK: if (o < 0) return false; wk[i] = sh[j]->back; m.w[i] = m.back[o]; break;
    case W_MBACK: if (o < 0) return false; wk[i] = std::move(sh[j]->back); m.w[i] = m.back[o]; m.back[o] = -1; break;
    default: return false;
    }
    m.settle();
    return true;
}
static int pick(const char* name, int n) { return (int)nsym_choice(name, n + 1) - 1; }
void harness()
{ g_allocators = 0;      // not counting g_alloc
   
    bool links = nsym_param("links", 0);
    {   // an arbitrary ownership graph: two live values, an already destroyed one, arbitrary owners and observers
        SP a = mk(nsym_u32("a")), b = mk(nsym_u32("b")); WP gone; { SP c = mk(nsym_u32("c")); gone = c; m.alive[2] = false; }
        SP* pp[2] = { &a, &b };
        for (int i = 0; i < NS; ++i) { m.s[i] = pick("owner", 2); if (m.s[i] >= 0) sh[i] = *pp[m.s[i]]; }
        for (int i = 0; i < (links ? 1 : NW); ++i) { m.w[i] = pick("observer", 3); if (m.w[i] == 2) wk[i] = gone; else if (m.w[i] >= 0) wk[i] = *pp[m.w[i]]; }
        if (links) for (int o = 0; o < 2; ++o)
        {
            m.next[o] = pick("next", 2); if (m.next[o] >= 0) m.raw[o]->next = *pp[m.next[o]];
            if (!o || nsym_param("backs", 1) > 1) m.back[o] = pick("back", 2); if (m.back[o] >= 0) m.raw[o]->back = *pp[m.back[o]];
        }
    }
    m.settle(); observe();
    int steps = nsym_param("steps", 1);
    for (int k = 0; k < steps; ++k)
    {
#ifdef WEAK
        unsigned op = k + 1 == steps ? FIRST_WEAK + nsym_range("op", NOPS - FIRST_WEAK) : nsym_range("op", NOPS);
#else
        unsigned op = nsym_range("op", nsym_param("strong", 0) ? (unsigned)FIRST_WEAK : (unsigned)NOPS);
#endif
        if (!step(op)) break;
        observe(); nsym_cover("step");
    }
    // take everything apart; cycles are broken by hand
    for (int i = 0; i < NS; ++i) { sh[i].reset(); m.s[i] = -1; m.settle(); }
    observe();
    for (int o = 0; o < m.n; ++o) if (m.alive[o]) { m.next[o] = -1; m.raw[o]->next.reset(); m.settle(); }
    observe(); CHECK(g_live == 0, "a value outlives its last owner");
    for (int i = 0; i < NW; ++i) { wk[i].reset(); m.w[i] = -1; }
    observe(); all_gone(); nsym_cover("end");
    nsym_end();
}
