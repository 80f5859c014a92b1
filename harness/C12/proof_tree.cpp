// Contracts on the search tree of an index list (the real tree_algorithms template, instantiated over abstract nodes): a tree of any
// size and shape. A node carries the open interval of keys its subtree covers (the search tree invariant); the set is seen through the
// arbitrary key w. Nothing of w's subtree is in an empty child slot.
#include <v.h>
#include <vrt.hpp>
#include <cstdint>
#include <list>
#include <cassert>
#include <vector>
typedef uint64_t Key;
static Key g_w, g_key; static bool g_in; static int g_dir;
struct P { uint64_t kind = 0; /* 0: null, 1: node, 2: header */ Key key = 0, lo = 0, hi = 0; bool hasLo = false, hasHi = false;
    bool operator!() const { return kind == 0; }
    explicit operator bool() const { return kind != 0; }
    bool operator==(const P &o) const { return (kind == o.kind) & ((kind != 1) | (key == o.key)); }
    bool operator!=(const P &o) const { return !(*this == o); } };
static bool in(const P &x, Key k) { return (!x.hasLo | (x.lo < k)) & (!x.hasHi | (k < x.hi)); }
static bool isNode(const P &x) { return (x.kind <= 1) & ((x.kind == 1) | !(g_in & in(x, g_w))) & ((x.kind == 0) | (in(x, x.key) & ((x.key != g_w) | g_in))); }
static bool has(const P &x) { return g_in & in(x, g_w); }
static P sub(bool hasLo, Key lo, bool hasHi, Key hi) { P p; p.kind = v_fresh64(); p.key = v_fresh64(); p.lo = lo; p.hi = hi; p.hasLo = hasLo; p.hasHi = hasHi; v_assume(isNode(p)); return p; }
// the join stack: the path of nodes that are still ahead of the walk. What is pushed justifies what is found when it is popped.
static bool ahead(Key a, Key b) { return g_dir > 0 ? a >= b : a <= b; }
static bool entered(const P &e) { return g_dir > 0 ? (!e.hasLo | (e.lo < g_key)) : (!e.hasHi | (e.hi > g_key)); } // the key searched for lies inside the near end
static bool last(const P &e) { return g_dir > 0 ? !e.hasHi : !e.hasLo; } // nothing lies behind its subtree
namespace std { template <> class list<P, std::allocator<P>> { public:
    bool m_any = false; P m_top;
    bool empty() const { return !m_any; }
    const P &back() const { v_require(m_any, "the top of a stack that is not empty"); return m_top; }
    void push_back(const P &p) { v_require(p.kind == 1, "a node is pushed"); v_require(entered(p), "pushed: the key lies inside its near end"); v_require(m_any | last(p), "pushed first: nothing lies behind it"); v_require(!m_any | ahead(m_top.key, p.key), "pushed: not behind the one below it"); m_any = true; m_top = p; }
    void pop_back() { v_require(m_any, "popped from a stack that is not empty"); P o = m_top; m_any = v_fresh64() & 1; P t; t.kind = v_fresh64(); t.key = v_fresh64(); t.lo = v_fresh64(); t.hi = v_fresh64(); t.hasLo = v_fresh64() & 1; t.hasHi = v_fresh64() & 1; v_assume(!m_any | ((t.kind == 1) & isNode(t) & entered(t) & ahead(t.key, o.key))); v_assume(m_any | last(o)); m_top = t; }
    void clear() { m_any = false; } }; }
static bool lt(Key a, Key b) { return g_dir > 0 ? a < b : a > b; }
// found so far: y is the first node behind what x covers
static bool want(Key k) { return g_in & (g_dir > 0 ? g_w >= k : g_w <= k); }
static bool best(const P &y, Key key, const P &x) { return ((y.kind == 2) | ((y.kind == 1) & ahead(y.key, key) & ((y.key != g_w) | g_in) & (g_dir > 0 ? x.hasHi & (x.hi <= y.key) : x.hasLo & (x.lo >= y.key)))) & (!want(key) | has(x) | ((y.kind == 1) & ahead(g_w, y.key))); }
static bool best(const P &y, Key key) { return ((y.kind == 2) | ((y.kind == 1) & ahead(y.key, key) & ((y.key != g_w) | g_in))) & (!want(key) | ((y.kind == 1) & ahead(g_w, y.key))); }
template <typename S> static bool up(const S &it, const P &x, Key key) { const P &t = it.m_top; return (x.kind == 1) & isNode(x) & entered(x) & (it.m_any ? (t == x) & (t.lo == x.lo) & (t.hi == x.hi) & (t.hasLo == x.hasLo) & (t.hasHi == x.hasHi) : last(x) & lt(x.key, key)); }
template <typename S> static bool down(const S &it, const P &x, Key key) {
    const P &t = it.m_top; bool near = g_dir > 0 ? x.hasHi & (x.hi <= t.key) : x.hasLo & (x.lo >= t.key); bool top = (t.kind == 1) & isNode(t) & entered(t) & ahead(t.key, key) & (near | ((t == x) & (x.kind == 1)));
    return isNode(x) & entered(x) & (it.m_any ? top : last(x)) & (!want(key) | has(x) | (it.m_any & ahead(g_w, t.key)));
}
static bool slot(const P &y, const P &x, Key key) { return isNode(x) & (!x.hasLo | (x.lo <= key)) & (!x.hasHi | (key < x.hi)) & ((y.kind == 2) | (y.kind == 1)) & ((y.kind == 1) | (!x.hasLo & !x.hasHi)) & ((y.kind == 2) | (key < y.key ? x.hasHi & (x.hi == y.key) & (x.hasLo == y.hasLo) & (!x.hasLo | (x.lo == y.lo)) : x.hasLo & (x.lo == y.key) & (x.hasHi == y.hasHi) & (!x.hasHi | (x.hi == y.hi)))); }
#undef INV_tree_lower_bound
#undef INV_tree_upper_equal_bound
#undef INV_tree_lower_equal_bound
#undef INV_tree_join_fwd_up
#undef INV_tree_join_fwd_down
#undef INV_tree_join_back_up
#undef INV_tree_join_back_down
#undef INV_tree_link_upper
#undef INV_tree_insert_upper
#undef INV_tree_minimum
#undef INV_tree_maximum
#define INV_tree_lower_bound v_inv(isNode(x) & (x.kind == 1) & best(y, key, x));
#define INV_tree_upper_equal_bound v_inv(isNode(x) & (x.kind == 1) & best(y, key, x));
#define INV_tree_lower_equal_bound v_inv(isNode(x) & (x.kind == 1) & best(y, key, x));
#define INV_tree_join_fwd_up v_inv(it.m_any & up(it, x, key));
#define INV_tree_join_back_up v_inv(it.m_any & up(it, x, key));
#define INV_tree_join_fwd_down v_inv(down(it, x, key) & (x.kind == 1));
#define INV_tree_join_back_down v_inv(down(it, x, key) & (x.kind == 1));
#define INV_tree_link_upper v_inv(slot(ld.y, x, key) & (x.kind == 1));
#define INV_tree_insert_upper v_inv(slot(y, x, new_node.key) & (x.kind == 1));
#define INV_tree_minimum v_inv((p.kind == 1) & isNode(p) & (p_left.kind == 1) & isNode(p_left) & p_left.hasHi & (p_left.hi == p.key) & (p_left.hasLo == p.hasLo) & (p_left.lo == p.lo) & (p.lo == g_from.lo) & (p.hasLo == g_from.hasLo) & (p.key <= g_from.key) & (!has(g_from) | has(p_left) | (g_w >= p.key)));
#define INV_tree_maximum v_inv((p.kind == 1) & isNode(p) & (p_right.kind == 1) & isNode(p_right) & p_right.hasLo & (p_right.lo == p.key) & (p_right.hasHi == p.hasHi) & (p_right.hi == p.hi) & (p.hi == g_from.hi) & (p.hasHi == g_from.hasHi) & (p.key >= g_from.key) & (!has(g_from) | has(p_right) | (g_w <= p.key)));
static P g_from;
#undef DB0_INVARIANT
#define DB0_INVARIANT(x) INV_##x
#include <dbzero/core/intrusive/detail/tree_algorithms.hpp>
// the links written by the code under proof
struct Link { unsigned what; P of, to; }; static Link g_links[12]; static unsigned g_nlinks;
static P g_root, g_first, g_last;
struct Traits {
    typedef P node; typedef P node_ptr; typedef P const_node_ptr;
    static P get_null() { return P(); }
    static P get_parent(const P &n) { v_require(n.kind == 2, "the root of the tree"); return g_root; }
    static P get_left(const P &n) { v_require(n.kind != 0, "of a node"); return n.kind == 2 ? g_first : sub(n.hasLo, n.lo, true, n.key); }
    static P get_right(const P &n) { v_require(n.kind != 0, "of a node"); return n.kind == 2 ? g_last : sub(true, n.key, n.hasHi, n.hi); }
    static void set(unsigned what, const P &n, const P &t) { v_require(n.kind != 0, "a link of a node"); if (g_nlinks < 12) { g_links[g_nlinks].what = what; g_links[g_nlinks].of = n; g_links[g_nlinks].to = t; } g_nlinks++; }
    static void set_parent(const P &n, const P &t) { set(0, n, t); }
    static void set_left(const P &n, const P &t) { set(1, n, t); }
    static void set_right(const P &n, const P &t) { set(2, n, t); }
};
typedef intrusive::detail::tree_algorithms<Traits> Tree;
struct Cmp { static void ok(const P &x) { v_require(x.kind == 1, "a node is compared"); } bool operator()(const P &x, Key k) const { ok(x); return x.key < k; } bool operator()(Key k, const P &x) const { ok(x); return k < x.key; } bool operator()(const P &a, const P &b) const { ok(a); ok(b); return a.key < b.key; } };
static P g_header;
static P any(unsigned k) { P p; p.kind = k; p.key = v_fresh64(); return p; }
static void tree(int dir) {
    g_dir = dir; g_nlinks = 0; g_w = v_in64("w"); g_in = v_inbool("held"); g_key = v_in64("key"); g_header = P(); g_header.kind = 2; g_root = sub(false, 0, false, 0); v_assume(!g_in | (g_root.kind == 1));
    // the header also links the first and the last node
    if (g_root.kind == 0) { g_first = g_last = g_header; } else { g_first = sub(false, 0, v_fresh64() & 1, v_fresh64()); g_last = sub(v_fresh64() & 1, v_fresh64(), false, 0); v_assume((g_first.kind == 1) & (g_last.kind == 1) & (g_first.key <= g_root.key) & (g_last.key >= g_root.key) & (!g_in | ((g_first.key <= g_w) & (g_w <= g_last.key)))); }
}
static void found(const P &y) { if (y.kind == 2) v_cover("none"); else v_cover("found"); V_ASSERT(best(y, g_key)); }
V_UNIT(tree_lower_bound) { tree(1); found(Tree::lower_bound(g_header, g_key, Cmp())); }
V_UNIT(tree_upper_equal_bound) { tree(1); found(Tree::upper_equal_bound(g_header, g_key, Cmp())); }
V_UNIT(tree_lower_equal_bound) { tree(-1); found(Tree::lower_equal_bound(g_header, g_key, Cmp())); }
V_UNIT(tree_find) { tree(1); v_assume(g_w == g_key); P y = Tree::find(g_header, g_key, Cmp()); if (g_in) { v_cover("found"); V_ASSERT((y.kind == 1) & (y.key == g_key)); } else { v_cover("none"); V_ASSERT(y.kind == 2); } }
static Tree::join_stack g_s;
// the first join of a walk, and a later one (to a key that is not behind the last)
static void joined(bool r) { V_ASSERT(r == g_s.m_any); if (r) { v_cover("found"); V_ASSERT(best(g_s.m_top, g_key)); } else { v_cover("none"); V_ASSERT(!want(g_key)); } }
static void joinBegin(int dir) { tree(dir); g_s.m_any = false; if (dir > 0) { v_assume((g_root.kind == 0) | (g_key >= g_first.key)); Tree::beginJoinForward(g_header, g_s, g_key, Cmp()); } else Tree::beginJoinBackward(g_header, g_s, g_key, Cmp()); if (g_root.kind == 0) { V_ASSERT(g_s.empty()); return; } V_ASSERT(!g_s.empty()); if (dir > 0) joined(Tree::joinForward(g_s, g_key, Cmp())); else joined(Tree::joinBackward(g_s, g_key, Cmp())); }
V_UNIT(tree_join_first_fwd) { joinBegin(1); }
V_UNIT(tree_join_first_back) { joinBegin(-1); }
static void joinNext(int dir) { tree(dir); Key old = v_in64("key before"); P t; t.kind = 1; t.key = v_in64("at"); t.lo = v_in64("lo"); t.hi = v_in64("hi"); t.hasLo = v_inbool("has lo"); t.hasHi = v_inbool("has hi"); v_assume(isNode(t) & ahead(t.key, old) & ahead(g_key, old) & (dir > 0 ? !t.hasLo | (t.lo < old) : !t.hasHi | (t.hi > old))); g_s.m_any = true; g_s.m_top = t; if (dir > 0) joined(Tree::joinForward(g_s, g_key, Cmp())); else joined(Tree::joinBackward(g_s, g_key, Cmp())); }
V_UNIT(tree_join_fwd) { joinNext(1); }
V_UNIT(tree_join_back) { joinNext(-1); }
// where a new key is linked: an empty slot whose interval holds the key
static void slotOk(const P &y, bool left, Key key) { if (y.kind == 2) { v_cover("first"); V_ASSERT(left & (g_root.kind == 0)); } else { v_cover("slot"); V_ASSERT(y.kind == 1); V_ASSERT(left == (key < y.key)); V_ASSERT(left ? (!y.hasLo | (y.lo <= key)) : (!y.hasHi | (key < y.hi))); V_ASSERT(!(g_in & (left ? (!y.hasLo | (y.lo < g_w)) & (g_w < y.key) : (y.key < g_w) & (!y.hasHi | (g_w < y.hi))))); } }
V_UNIT(tree_link_point) { tree(1); Tree::link_data ld; std::size_t depth; Tree::link_equal_upper_bound(g_header, g_key, Cmp(), ld, &depth); slotOk(ld.y, ld.link_left, g_key); }
static bool wrote(unsigned what, const P &n) { bool r = false; for (unsigned i = 0; i < 12; i++) if (i < g_nlinks) r = r | ((g_links[i].what == what) & (g_links[i].of == n)); return r; }
static P linkOf(unsigned what, const P &n) { for (unsigned i = 12; i-- > 0;) if ((i < g_nlinks) && (g_links[i].what == what) && g_links[i].of == n) return g_links[i].to; v_require(false, "the link is written"); return P(); }
// linking a node there: the slot and, for a new first or last node, the header are written, nothing else; the node starts without children
static bool g_new_first, g_new_last;
static void link(unsigned which) {
    tree(1); P z = any(1), y; bool left = v_inbool("left"); z.key = g_key; if (which == 0) { v_assume(g_root.kind == 0); y = g_header; } else { v_assume(g_root.kind == 1); y = which == 1 ? g_first : which == 2 ? g_last : any(1); if (which == 3) v_assume((y.key > g_first.key) & (y.key < g_last.key)); if (which == 1) v_assume(left | (y.key != g_last.key)); if (which == 2) v_assume(!left | (y.key != g_first.key)); v_assume((z.key != y.key) & (z.key != g_first.key) & (z.key != g_last.key)); }
    Tree::link(g_header, z, y, left); V_ASSERT(linkOf(0, z) == y); V_ASSERT(linkOf(1, z).kind == 0); V_ASSERT(linkOf(2, z).kind == 0);
    if (which == 0) { V_ASSERT(linkOf(0, g_header) == z); V_ASSERT(linkOf(1, g_header) == z); V_ASSERT(linkOf(2, g_header) == z); V_ASSERT(g_nlinks == 6); return; }
    V_ASSERT(linkOf(left ? 1 : 2, y) == z); bool first = left && y == g_first, last = !left && y == g_last; if (first) { V_ASSERT(linkOf(1, g_header) == z); } if (last) { V_ASSERT(linkOf(2, g_header) == z); } V_ASSERT(g_nlinks == 4u + first + last); g_new_first = first; g_new_last = last;
}
V_UNIT(tree_insert) { tree(1); P z = any(1); z.key = g_key; v_assume((g_root.kind == 0) | ((z.key != g_first.key) & (z.key != g_last.key))); P r = Tree::insert_equal_upper_bound(g_header, z, Cmp()); V_ASSERT(r == z); P y = linkOf(0, z); v_assume((y.kind == 2) | (y.key != g_key)); /* a new key */ bool left = y.kind == 2 ? true : wrote(1, y); V_ASSERT((y.kind == 2) | (left != wrote(2, y))); slotOk(y, left, g_key); if (y.kind == 1) V_ASSERT(linkOf(left ? 1 : 2, y) == z); }
V_UNIT(tree_link_empty) { link(0); }
V_UNIT(tree_link_at_first) { link(1); if (g_new_first) v_cover("a new first"); }
V_UNIT(tree_link_at_last) { link(2); if (g_new_last) v_cover("a new last"); }
V_UNIT(tree_link_inside) { link(3); }
V_UNIT(tree_minimum) { tree(1); g_from = sub(v_inbool("has lo"), v_in64("lo"), v_inbool("has hi"), v_in64("hi")); v_assume(g_from.kind == 1); P m = Tree::minimum(g_from); V_ASSERT((m.kind == 1) & (m.key <= g_from.key) & (!has(g_from) | (m.key <= g_w)) & in(g_from, m.key) & ((m.key != g_w) | g_in)); }
V_UNIT(tree_maximum) { tree(1); g_from = sub(v_inbool("has lo"), v_in64("lo"), v_inbool("has hi"), v_in64("hi")); v_assume(g_from.kind == 1); P m = Tree::maximum(g_from); V_ASSERT((m.kind == 1) & (m.key >= g_from.key) & (!has(g_from) | (m.key >= g_w)) & in(g_from, m.key) & ((m.key != g_w) | g_in)); }
