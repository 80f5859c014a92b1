// Contracts on an index of blocks (v_bindex: any number of blocks, any number of items in them): inserting and erasing one item, and
// the lookups. v_bindex and v_bindex_iterator are the real templates, instantiated with contract types for what bindex_types gives
// them: the tree of blocks (proof_tree.cpp) and a block (proof_vector.cpp). The collection is seen through the arbitrary item w,
// which (if held) lies in block g_bw; the block an operation works on is held as an array of any size.
#include <v.h>
#include <vrt.hpp>
#include <cstdint>
typedef uint64_t D; static uint64_t g_zero; /* 0, as an index that the engine does not fold */ static D *g_e, *g_post, *g_lo, g_w, g_item; static uint64_t g_B, g_t, g_bw, g_n, g_x, g_p, g_total, g_nn; static bool g_in, g_new, g_ins, g_opened, g_gone, g_gone2; static uint32_t g_cap, g_ncap;
static const uint64_t NONE = ~0ull, NEW = ~0ull - 1; static D g_lot, g_lon; static uint64_t g_split; static uint64_t g_at, g_atn; // the bounds and addresses of the block worked on and of a new block
static int g_where = -1; static bool g_same; // the cases an insertion is split into
// the elements: in order; between the bounds of the block, or the item itself; w at g_x
static D loOf(uint64_t i) { return g_lo[v_ite(i < g_B, i, g_zero)]; }
static D item(uint64_t i) { return g_e[v_ite(i < g_n, i, g_zero)]; }
static void sortedE(uint64_t i, uint64_t j) { D a = item(i), b = item(j); v_assume((i >= g_n) | (j >= g_n) | (i == j) | ((i < j) & (a <= b)) | ((i > j) & (a >= b))); }
static void seenE(uint64_t i) { D d = item(i); bool own = (g_B > 0) & (d >= loOf(g_t)) & ((g_t + 1 >= g_B) | (d < loOf(g_t + 1))); v_assume((i >= g_n) | own | (g_ins & (d == g_item))); sortedE(i, g_x); sortedE(i, g_p); }
static void seenP(const D *p) { seenE(p - g_e); }
struct Cmp { bool operator()(const D &a, const D &b) const { seenP(&a); seenP(&b); return a < b; } };
template <typename A> static bool splitInv(A, A) { return true; } template <typename A> static void atSplit(A &, A &) {}
static bool splitInv(const D *s, const D *n) { uint64_t i = s - g_e; return (n == s + 1) & (i + 1 < g_n) & (i < g_n); } static void atSplit(const D *&s, const D *&n) { uint64_t i = v_fresh64(); v_assume((i < g_n) & (s == g_e + i)); s = g_e + i; n = g_e + i + 1; }
#undef INV_bindex_insert_split
#define INV_bindex_insert_split v_inv(splitInv(it_split, it_next)); atSplit(it_split, it_next);
#undef DB0_INVARIANT
#define DB0_INVARIANT(x) INV_##x
#include <dbzero/core/collections/b_index/bindex_types.hpp>
using db0::Address;
static uint64_t num(Address a) { return (uint64_t)a; }
// what is known of a block that is not worked on
static void known(uint64_t i) { v_assume((i + 1 >= g_B) | (loOf(i) < loOf(i + 1))); }
static uint64_t addressOf(uint64_t i) { return i == NEW ? g_atn : i == g_t ? g_at : (i + 1) * 16; }
namespace cn {
struct Rec { struct { D lo_bound; Address ptr_b_data; } m_data; };
static Rec g_rt, g_rn; // the nodes of the block worked on and of a new block
struct NodeIt {
    uint64_t i = NONE; mutable Rec r;
    const Rec *operator->() const { v_require((i == NEW) | (i < g_B), "a block of the index"); if (i == NEW) { v_require(g_new, "a new block"); return &g_rn; } if (i == g_t) return &g_rt; r.m_data.lo_bound = g_lo[i]; r.m_data.ptr_b_data = Address::fromValue(addressOf(i)); return &r; }
    Rec &modify() { if (i == NEW) { v_require(g_new, "a new block"); return g_rn; } v_require((i == g_t) & (i < g_B), "only the node of the block worked on changes"); return g_rt; }
    void operator++() { if (i == NEW) { v_require(g_new & (g_B == 0), "the only block"); i = g_B; return; } v_require(i < g_B, "not past the last block"); ++i; }
    void operator--() { v_require((i > 0) & (i <= g_B), "not before the first block"); --i; }
    bool operator==(const NodeIt &o) const { return i == o.i; }
    bool operator!=(const NodeIt &o) const { return i != o.i; }
};
struct Tree {
    struct { uint64_t size; } m_c; 
    const auto *operator->() const { return &m_c; }
    NodeIt end() const { NodeIt n; n.i = g_B; return n; }
    NodeIt begin() const { NodeIt n; n.i = 0; return n; }
    NodeIt lower_equal_bound(D key) const { // the last block that starts at or before `key`
        v_require(!g_new & !g_ins, "before the index changes"); uint64_t r = v_fresh64(); v_assume(r <= g_B); v_assume((r >= g_B) | (loOf(r) <= key)); v_assume((r >= g_B) | (r + 1 >= g_B) | (loOf(r + 1) > key)); v_assume((r < g_B) | (g_B == 0) | (loOf(g_zero) > key)); 
        g_t = v_ite(r < g_B, r, 0); g_at = (g_t + 1) * 16; g_lot = loOf(g_t); g_rt.m_data.lo_bound = g_lot; g_rt.m_data.ptr_b_data = Address::fromValue(g_at); known(g_t); if (g_where >= 0) v_assume((g_where == (g_B == 0 ? 0 : r == g_B ? 1 : r + 1 == g_B ? 2 : 3)) & (g_same == (g_in & (g_bw == g_t)))); NodeIt n; n.i = r; return n; }
    NodeIt insert_equal(D key) { v_require(!g_new, "one new block"); if (g_B > 0) { v_require(g_rt.m_data.lo_bound < key, "behind the block that is split"); if (g_t + 1 < g_B) v_require(key < g_lo[g_t + 1], "before the next block"); } g_new = true; g_rn.m_data.lo_bound = key; g_rn.m_data.ptr_b_data = Address{}; m_c.size++; NodeIt n; n.i = NEW; return n; }
    void erase(NodeIt n) { v_require(n.i < g_B, "a block of the index"); if (n.i == g_t) { v_require(g_nn == 0, "a block that is empty"); g_gone = true; } else { v_require((n.i == g_t + 1) & g_gone2, "a block whose items were moved"); } m_c.size--; }
};
// a block: its size and its items (of the block worked on: g_e[0..g_nn))
struct Cont {
    uint32_t m_size, m_capacity; uint64_t b; mutable D m_front;
    const D *begin() const { v_require(b == g_t, "the block worked on"); return g_e; }
    const D *begin(uint64_t i) const { v_require((b == g_t) & (i < m_size), "an item of the block"); return g_e + i; }
    const D *end() const { v_require(b == g_t, "the block worked on"); return g_e + m_size; }
    const D &front() const { if (b == NEW) { v_require(g_split < g_n, "a block with items"); return g_e[g_split]; } v_require((b == g_t) & (m_size > 0), "a block with items"); m_front = g_e[g_zero]; if (g_gone3()) { m_front = g_e[g_p == 0 ? 1 : 0]; seenE(g_p == 0 ? 1 : 0); } return m_front; }
    static bool g_gone3(); uint64_t getItemIndex(const D *p) const { v_require(b == g_t, "the block worked on"); return p - g_e; }
    const D *find(D key) const { v_require(b == g_t, "the block worked on"); uint64_t r = v_fresh64(); v_assume(r <= g_n); if (r == g_n) { v_assume((g_x >= g_n) | (g_w != key)); return nullptr; } v_assume(g_e[r] == key); return g_e + r; }
    const D *findLowerEqualBound(D key) const { v_require(b == g_t, "the block worked on"); uint64_t r = v_fresh64(); v_assume(r <= g_n); if (r == g_n) { v_assume((g_x >= g_n) | (g_w > key)); v_assume(g_n == 0 || g_e[g_zero] > key); return nullptr; } v_assume(g_e[r] <= key); v_assume((g_x >= g_n) | (g_w > key) | (g_e[r] >= g_w)); seenE(r); return g_e + r; }
    D &modifyItem(uint64_t i) { v_require((b == g_t) & (i < m_size), "an item of the block"); return g_e[i]; }
};
static bool g_erased_; static bool g_erased() { return g_erased_; } bool Cont::g_gone3() { return g_erased_; }
struct Vec {
    uint64_t b = NONE; mutable Cont c; typedef const D *const_iterator; typedef D *iterator; struct joinable_const_iterator {};
    Vec() {}
    Vec(db0::Memspace &, uint32_t cap, db0::sv_state, std::function<void(const D &)> = {}) { v_require((g_B == 0) & g_new & !g_opened, "the first block"); v_require(cap > 0, "with room"); g_opened = true; b = NEW; g_atn = 16; g_n = g_nn = 0; g_x = NONE; }
    Vec(db0::mptr p, std::function<void(const D &)> = {}) { open(num(p.m_address)); }
    void open(uint64_t a) { if (a == g_at) { v_require(g_B > 0, "the address of a block"); b = g_t; if (!g_opened) { g_opened = true; g_n = g_nn = v_fresh64(); v_assume((g_n > 0) & (g_n < (1u << 30)) & (g_n <= g_cap)); v_assume(g_e[g_zero] == g_lo[g_t]); bool h = g_in & (g_bw == g_t); g_x = v_fresh64(); v_assume(h ^ (g_x == NONE)); v_assume(!h | ((g_x < g_n) & (item(g_x) == g_w))); } } else { v_require((g_t + 1 < g_B) & (a == (g_t + 2) * 16), "the address of the next block"); b = g_t + 1; } }
    const Cont *operator->() const { c.b = b; if (b == g_t || (b == NEW && g_B == 0)) { c.m_size = (uint32_t)g_nn; c.m_capacity = g_cap; if (b == NEW) c.b = g_t; } else if (b == NEW) c.m_size = (uint32_t)(g_n - g_split); else { c.m_size = g_ncap; c.m_capacity = g_ncap; } return &c; }
    Cont &modify() { return *const_cast<Cont *>(operator->()); }
    Address getAddress() const { v_require(b != NONE, "a block"); return Address::fromValue(b == NEW ? g_atn : b == g_t ? g_at : addressOf(b)); }
    const D *find(D k) const { auto r = (*this)->find(k); return r ? r : (*this)->end(); } const D *end() const { return (*this)->end(); } const D *begin() const { return (*this)->begin(); }
    bool empty() const { return (*this)->m_size == 0; }
    void moved() { if (v_fresh64() & 1) g_at += 8; }
    D *insert(D item, bool &changed, std::optional<uint32_t> max) { // in order; the block may be moved
        v_require(((b == g_t) | ((b == NEW) & (g_B == 0))) & !g_ins, "into the block"); v_require(!max || g_n + 1 <= *max, "within the limit given"); g_ins = true; g_n++; g_nn++; g_e = g_post; v_assume(g_e[g_zero] == v_ite((g_B == 0) | (item < loOf(g_t)), item, loOf(g_t))); g_p = v_fresh64(); v_assume(g_p < g_n); v_assume(g_e[g_p] == item); uint64_t y = v_fresh64(); v_assume((y < g_n) & (y != g_p) | (g_x == NONE)); v_assume((g_x == NONE) | (::item(y) == g_w)); g_x = v_ite(g_x == NONE, NONE, y); sortedE(g_x, g_p);
        bool m = v_fresh64() & 1; if (b == NEW) g_atn += 8 * (uint64_t)m; else g_at += 8 * (uint64_t)m; changed = changed | m; return g_e + g_p; }
    Vec split(const D *it) { v_require(b == g_t, "the block worked on"); uint64_t s = it - g_e; v_require((s > 0) & (s < g_n), "between two items"); g_split = s; g_nn = s; g_atn = 8; Vec v; v.b = NEW; return v; }
    void eraseItem(const D *it, bool &changed) { uint64_t i = it - g_e; v_require((b == g_t) & (i < g_n) & !g_erased_, "an item of the block"); g_erased_ = true; g_p = i; g_nn = g_n - 1; sortedE(g_p, g_x); bool m = v_fresh64() & 1; g_at += 8 * (uint64_t)m; changed = changed | m; }
    bool compact() { v_require(b == g_t, "the block worked on"); bool m = v_fresh64() & 1; g_at += 8 * (uint64_t)m; return m; }
    void moveSorted(Vec &&o) { v_require((b == g_t) & (o.b == g_t + 1), "the items of the next block"); v_require(g_nn + g_ncap <= g_cap, "into room that is there"); g_gone2 = true; }
    static uint32_t getMaxSize(uint64_t) { return 0; }
};
struct Box { uint64_t size; }; struct Cn {};
}
namespace db0 {
template <> class bindex_types<uint64_t, cn::Cn, Cmp> { public: using node_iterator = cn::NodeIt; using bindex_tree_t = cn::Tree; struct node_stack {}; using join_stack = node_stack; using data_vector = cn::Vec; using bindex_container = cn::Box; };
alignas(16) static unsigned char g_space[sizeof(Memspace)];
template <> class v_object<cn::Box> { public: mutable cn::Box box; const cn::Box *operator->() const { return &box; } cn::Box &modify() { return box; } Memspace &getMemspace() const { return *(Memspace *)g_space; } };
}
#include <dbzero/core/collections/b_index/v_bindex.hpp>
using namespace db0; typedef v_bindex<uint64_t, cn::Cn, Cmp> Index; typedef v_bindex_iterator<uint64_t, cn::Cn, Cmp> It; using cn::g_erased;
// an arbitrary index: w in its block, between its bound and the next one
static Index &index() {
    static Index *x; x = new Index(); g_B = v_in64("blocks"); v_assume(g_B < (1ull << 40)); g_lo = (D *)v_buf("bounds", g_B * 8 + 8, 8); g_e = (D *)v_buf("items", 8ull << 31, 8); g_zero = v_fresh64(); v_assume(g_zero == 0); g_post = (D *)v_buf("items after", 8ull << 31, 8); g_w = v_in64("w"); g_in = v_inbool("held"); g_bw = v_in64("block of w"); g_item = v_in64("item"); g_cap = v_in32("capacity"); g_ncap = v_in32("size of the next block"); v_assume((g_ncap > 0)); g_t = NONE; g_p = g_x = NONE;
    if (g_in) { v_assume(g_bw < g_B); v_assume(loOf(g_bw) <= g_w); v_assume((g_bw + 1 >= g_B) | (g_w < loOf(g_bw + 1))); } g_total = v_in64("total"); v_assume(g_total < ~0ull); x->m_index.m_c.size = g_B; x->m_max_size = v_in32("limit"); v_assume(x->m_max_size > 0); x->box.size = g_total; return *x;
}
// the blocks are in order of their bounds (used for the block worked on and the block of w)
static void order() { bool ok = (g_bw >= g_B) | (g_t >= g_B); uint64_t b = g_bw, t = g_t; v_assume(ok | (b == t) | ((b < t) & (loOf(b) < loOf(t))) | ((b > t) & (loOf(b) > loOf(t)))); v_assume(ok | (t + 1 >= g_B) | (b <= t + 1) | (loOf(b) > loOf(t + 1))); v_assume(ok | (b + 1 >= g_B) | (t <= b) | (loOf(b + 1) <= loOf(t))); }
// where a lookup finds the item d at position i of the block worked on: the block it is in starts at or before it, the next one behind it
static void placed(uint64_t i, D d) {
    D lo = cn::g_rt.m_data.lo_bound, ln = cn::g_rn.m_data.lo_bound; if (g_B == 0) { V_ASSERT(ln <= d); return; }
    bool split = g_new; V_ASSERT(split & (i >= g_split) ? ln <= d : lo <= d); V_ASSERT(!split | (i >= g_split) | (d < ln)); V_ASSERT((g_t + 1 >= g_B) | (d < loOf(g_t + 1)));
}
static void nodes(Index &x) {
    if (g_B > 0) { V_ASSERT(num(cn::g_rt.m_data.ptr_b_data) == g_at); V_ASSERT((cn::g_rt.m_data.lo_bound == g_lot) | (g_t == 0) | g_erased()); } if (g_new) V_ASSERT(num(cn::g_rn.m_data.ptr_b_data) == g_atn); V_ASSERT(x.m_index.m_c.size == g_B + g_new - g_gone - g_gone2);
}
static void insert(int where, bool same) { // 0: the first item, 1: before all, 2: into the last block, 3: into another one
    Index &x = index(); g_where = where; g_same = same; x.insert(g_item); if (same) { V_ASSERT(g_x < g_n); seenE(g_x); placed(g_x, g_w); return; }
    V_ASSERT(g_ins); V_ASSERT((g_B > 0 ? cn::g_rt : cn::g_rn).m_data.lo_bound == g_e[g_zero]); V_ASSERT(x.box.size == g_total + 1); nodes(x); placed(g_p, g_item); if (g_new & (g_B > 0)) { V_ASSERT((g_split > 0) & (g_split < g_n)); V_ASSERT(cn::g_rn.m_data.lo_bound == g_e[g_split]); }
    if (g_in) { order(); V_ASSERT(!g_new | (cn::g_rn.m_data.lo_bound <= g_lo[g_bw]) | (cn::g_rn.m_data.lo_bound > g_w)); V_ASSERT((g_t != 0) | (g_bw > 0)); }
}
V_UNIT(insert_first) { insert(0, false); }
V_UNIT(insert_front) { insert(1, true); if (g_new) v_cover("split"); }
V_UNIT(insert_front_other) { insert(1, false); if (g_new) v_cover("split"); }
V_UNIT(insert_last) { insert(2, true); if (g_new) v_cover("split"); }
V_UNIT(insert_last_other) { insert(2, false); if (g_new) v_cover("split"); }
V_UNIT(insert_inner) { insert(3, true); if (g_new) v_cover("split"); }
V_UNIT(insert_inner_other) { insert(3, false); if (g_new) v_cover("split"); }
static void same(Index &x) { V_ASSERT(!g_new & !g_ins & !g_erased() & (x.box.size == g_total) & (x.m_index.m_c.size == g_B)); }
V_UNIT(find) { Index &x = index(); It i = x.find<D>(g_item); same(x); if (i.isEnd()) { order(); V_ASSERT(!g_in | (g_w != g_item)); } else { v_cover("found"); V_ASSERT(*i == g_item); V_ASSERT(i.m_node_iterator.i == g_t); } }
V_UNIT(find_one) { Index &x = index(); D d = g_item; bool r = x.findOne(d); same(x); if (!r) { order(); V_ASSERT(!g_in | (g_w != g_item)); } else { v_cover("found"); V_ASSERT(d == g_item); } }
V_UNIT(find_lower_equal) { Index &x = index(); It i = x.findLowerEqualBound<D>(g_item); same(x); order(); if (i.isEnd()) { V_ASSERT(!g_in | (g_w > g_item)); } else { v_cover("found"); D d = *i; V_ASSERT(d <= g_item); V_ASSERT(!g_in | (g_w > g_item) | (d >= g_w)); } }
V_UNIT(update_existing) { Index &x = index(); D old = 0; bool r = x.updateExisting(g_item, &old); same(x); if (!r) { order(); V_ASSERT(!g_in | (g_w != g_item)); } else { v_cover("found"); V_ASSERT(old == g_item); } }
static void erase(bool same) {
    Index &x = index(); v_assume((g_B > 0) & (g_total > 0)); g_t = v_in64("block"); v_assume((g_t < g_B) & (same == (g_in & (g_bw == g_t)))); g_at = (g_t + 1) * 16; g_lot = loOf(g_t); cn::g_rt.m_data.lo_bound = g_lot; cn::g_rt.m_data.ptr_b_data = Address::fromValue(g_at); known(g_t); known(g_t + 1);
    It i; i.m_node_iterator.i = g_t; i.m_node_end = x.m_index.end(); i.m_node_begin = x.m_index.begin(); i.m_it_data.m_data_buf.open(g_at); uint64_t p = v_in64("position"); v_assume((p < g_n) & (p != g_x)); g_p = p; seenE(p); i.m_it_data.m_it_data = g_e + p; x.erase(i);
    V_ASSERT(g_erased()); V_ASSERT(g_p == p); V_ASSERT(x.box.size == g_total - 1); V_ASSERT(x.m_index.m_c.size == g_B - g_gone - g_gone2); V_ASSERT(!g_gone | !g_gone2); V_ASSERT(g_gone == (g_nn == 0)); if (g_gone) { V_ASSERT(!same); return; }
    V_ASSERT(num(cn::g_rt.m_data.ptr_b_data) == g_at); D lo = cn::g_rt.m_data.lo_bound; V_ASSERT(lo == g_e[v_ite(p == 0, 1, g_zero)]); V_ASSERT(lo >= g_lot);
    if (same) { seenE(g_x); V_ASSERT(lo <= g_w); V_ASSERT((g_t + 1 >= g_B) | (g_w < loOf(g_t + 1))); } else if (g_in) { order(); V_ASSERT((g_bw < g_t) | (lo <= g_w)); if (g_gone2) { V_ASSERT((g_bw != g_t + 1) | (g_t + 2 >= g_B) | (g_w < loOf(g_t + 2))); } }
}
V_UNIT(erase_same) { erase(true); }
V_UNIT(erase_other) { erase(false); if (g_gone) v_cover("an empty block"); if (g_gone2) v_cover("merged"); }
