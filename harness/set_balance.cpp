// C11: no history of insertions and erasures makes the set degenerate: lookup, insertion and erasure need O(log n) comparisons.
// C10 with -DCONTENT: larger trees, several erasures in a row: content, order and iteration.
#include "sets.hpp"
static unsigned lg(unsigned n) { unsigned k = 0; while ((1u << (k + 1)) <= n + 1) ++k; return k; }     // floor(log2(n + 1))
#ifdef COLORS
// The conditions that bound the cost for every further history, read off the tree the iterators walk on.
typedef nestl::impl::detail::rb_tree_node_base Node;
static int bh(const Node* x)
{
    if (!x) return 0;
    int l = bh(x->m_left), r = bh(x->m_right);
    if (x->m_left && x->m_left->m_parent != x) nsym_fail("a left child does not know its parent");
    if (x->m_right && x->m_right->m_parent != x) nsym_fail("a right child does not know its parent");
    bool red = x->m_color == nestl::impl::detail::rb_red;
    if (red && ((x->m_left && x->m_left->m_color == nestl::impl::detail::rb_red) || (x->m_right && x->m_right->m_color == nestl::impl::detail::rb_red))) nsym_fail("the tree is out of balance: a red node has a red child");
    if (l != r) nsym_fail("the tree is out of balance: two paths have another number of black nodes");
    return l + !red;
}
static void balanced(S& s)
{
    if (s.empty()) return;
    const Node* x = s.begin().m_node; while (x->m_parent->m_parent != x) x = x->m_parent;
    if (x->m_color == nestl::impl::detail::rb_red) nsym_fail("the tree is out of balance: the root is red");
    bh(x); nsym_cover("balanced");
}
#else
static void balanced(S&) {}
#endif
static void bounded(S& s, unsigned n, unsigned x)
{
    unsigned h = 2 * lg(n) + (n > 0), c0 = g_cmp; E k(x);
    const S& c = s;
    s.find(k); unsigned f = g_cmp - c0; CHECK(f <= h + 1, "find needs more than 2 log2(n + 1) comparisons: the tree is out of balance");
    c0 = g_cmp; c.find(k); f = g_cmp - c0; CHECK(f <= h + 1, "const find needs more than 2 log2(n + 1) comparisons: the tree is out of balance");
}
static void change(S& s, Ref& r, unsigned how, unsigned top)
{
    unsigned h = 2 * lg(r.n) + (r.n > 0), c0 = g_cmp; Err e;
    unsigned i = nsym_range("which", top), x = (2 * i + 1) * 4;          // one of the keys put in at the start
    if (nsym_choice("erase", 2)) { erase_key(s, r, how, x); CHECK(g_cmp - c0 <= 2 * h + 4, "erase needs more than O(log n) comparisons: the tree is out of balance"); }
    else { insert(s, r, how, x + 2, 0, e); CHECK(!e, "insert failed although nothing can fail"); CHECK(g_cmp - c0 <= h + 3, "insert needs more than O(log n) comparisons: the tree is out of balance"); }
    balanced(s);
}
void harness()
{
    {
        unsigned how = nsym_param("order", 0); S s(Ord(how), mkalloc(1)); Ref r;
        unsigned n = nsym_param("n", 7) + nsym_choice("more", nsym_param("span", 4));
        unsigned pat = nsym_choice("pattern", 4);
        Err e;
        for (unsigned i = 0; i < n; ++i)
        {
            unsigned c0 = g_cmp, h = 2 * lg(i) + (i > 0);
            insert(s, r, how, (pattern(pat, i, n) * 2 + 1) * 4, i & 1, e); CHECK(!e, "insert failed although nothing can fail");
            CHECK(g_cmp - c0 <= h + 3, "insert needs more than O(log n) comparisons: the tree is out of balance");
            balanced(s);
        }
        if (nsym_param("drain", 0))
        {   // take elements out in a regular order, then look for an arbitrary key
            unsigned how2 = nsym_choice("drain", 4), k = nsym_range("count", n); unsigned done = 0;
            while (done < k) { unsigned at = pattern(how2, done, n); erase_key(s, r, how, (at * 2 + 1) * 4); ++done; balanced(s); }
            nsym_cover("drained");
        }
        int steps = nsym_param("steps", 2);
        for (int i = 0; i < steps; ++i) { change(s, r, how, n);
#ifdef CONTENT
            observe(s, r, how);
#endif
        }
#ifdef CONTENT
        observe(s, r, how); lookup(s, r, how, KEY("probe"));
#else
        bounded(s, r.n, KEY("probe"));
#endif
    }
    all_gone();
}
