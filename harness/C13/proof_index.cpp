// Contracts on a walk over the keys of an index list: blocks of keys (any number of blocks, any number of keys) under a search tree.
// v_bindex_joinable_const_iterator and FT_IndexIterator are the real templates, instantiated with contract types for what they are
// given by bindex_types: the tree of blocks (its join: proof_tree.cpp) and a block of keys (its walk: proof_sorted.cpp). The set is
// seen through the arbitrary key w, which (if held) lies in block bw.
#include <v.h>
#include <vrt.hpp>
#include <dbzero/core/collections/b_index/bindex_types.hpp>
static uint64_t *g_lo, *g_hi, g_B, g_bw; static bool g_in; static uint64_t g_cur, g_r, g_k; static bool g_called;
#include <dbzero/core/collections/full_text/FT_IteratorBase.cpp>
#include <dbzero/core/collections/full_text/FT_Iterator.cpp>
#include "children.hpp"
// what holds for a block: its keys lie between its bounds, and in the order of the blocks
static void seen(uint64_t i) { uint64_t l = g_lo[i], h = g_hi[i]; v_assume((i >= g_B) | ((l <= h) & (((l != g_w) & (h != g_w)) | (g_in & (i == g_bw))) & (!g_in | ((i == g_bw) & (l <= g_w) & (g_w <= h)) | ((i < g_bw) & (h < g_w)) | ((i > g_bw) & (l > g_w))))); }
static void seen(uint64_t i, uint64_t j) { v_assume((i >= g_B) | (j >= g_B) | (i == j) | ((i < j) & (g_hi[i] < g_lo[j])) | ((i > j) & (g_lo[i] > g_hi[j]))); }
namespace cn {
struct Rec { struct { uint64_t lo_bound, ptr_b_data; } m_data; };
struct NodeIt {
    uint64_t i = 0; mutable Rec r;
    const Rec *operator->() const { v_require(i < g_B, "a block of the list"); seen(i); r.m_data.lo_bound = g_lo[i]; r.m_data.ptr_b_data = i; return &r; }
    void operator++() { v_require(i < g_B, "not past the last block"); seen(i, i + 1); ++i; seen(i); }
    void operator--() { v_require(i > 0, "not before the first block"); --i; seen(i, i + 1); seen(i); }
    bool operator==(const NodeIt &o) const { return i == o.i; }
    bool operator!=(const NodeIt &o) const { return i != o.i; }
    void detach() {}
};
struct Stack { bool m_begun = false; Key m_last; NodeIt m_at; NodeIt operator*() const { return m_at; } void clear() { m_begun = false; } };
struct Tree {
    bool empty() const { return g_B == 0; }
    NodeIt begin() const { NodeIt n; n.i = 0; return n; }
    NodeIt end() const { NodeIt n; n.i = g_B; return n; }
    uint64_t myPtr(uint64_t p) const { return p; }
    db0::Memspace &getMemspace() const { v_require(false, "memspace"); return *(db0::Memspace *)nullptr; }
    // the first block that starts at or behind `key` (backwards: the last one that starts at or before it); a stack is moved in one direction
    template <typename K, typename C> bool join(Stack &s, const K &key, C, int d) const {
        v_require(d == g_dir, "in the direction of the walk"); v_require((d < 0) | s.m_begun | (key >= g_lo[0]), "a forward walk does not start before the first block"); v_require(!s.m_begun | le(s.m_last, key), "a join stack moves on"); uint64_t r = v_fresh64(); v_assume(r <= g_B); seen(r); seen(r, g_cur);
        uint64_t q = v_fresh64(); v_assume(d > 0 ? ((r > 0) & (q == r - 1)) | ((r == 0) & (q == g_B)) : ((r < g_B) & (q == r + 1)) | ((r == g_B) & (q == 0))); seen(q); seen(q, r); seen(q, g_cur);
        v_assume((r >= g_B) | (d > 0 ? g_lo[r] >= key : g_lo[r] <= key)); v_assume((q >= g_B) | (d > 0 ? g_lo[q] < key : g_lo[q] > key));
        if (g_called) v_assume((g_k != key) | (g_r == r)); /* the block of a key is one block */ g_called = true; g_k = key; g_r = r;
        s.m_begun = r < g_B; s.m_last = key; s.m_at.i = r; return r < g_B;
    }
    template <typename K> bool join(Stack &, const K &, int) const { v_require(false, "peek"); return false; }
    template <typename K, typename C> void joinBound(Stack &, const K &, C) const { v_require(false, "joinBound"); }
};
struct End {}; struct Begin {};
// a walk of one block (the contract of joinable_const_iterator)
struct BIt {
    uint64_t b = 0; bool m_null = true, m_end = false; Key m_pos = 0;
    bool isValid() const { return !m_null & !m_end; }
    void reset() { m_null = true; }
    bool is_end() const { return m_end; }
    const Key &operator*() const { v_require(isValid(), "at a key"); return m_pos; }
    bool has() const { return g_in & (b == g_bw); }
    void to(Key from, bool strict, Key last) { bool c = has() & (strict ? lt(from, g_w) : le(from, g_w)); Key p = v_fresh64(); bool e = v_fresh64() & 1; v_assume(!e | (strict ? le(last, from) : lt(last, from))); v_assume(e | ((strict ? lt(from, p) : le(from, p)) & le(p, last))); v_assume(!c | (!e & le(p, g_w))); v_assume(e | (p != g_w) | has()); m_end = e; m_pos = p; }
    bool join(Key k, int d) { v_require(isValid(), "from a key"); v_require(d == g_dir, "in the direction of the walk"); Key o = m_pos; to(le(k, o) ? o : k, false, d > 0 ? g_hi[b] : g_lo[b]); return !m_end; }
    void operator++() { v_require(isValid() & (g_dir > 0), "steps on"); to(m_pos, true, g_hi[b]); }
    void operator--() { v_require(isValid() & (g_dir < 0), "steps on"); v_require(m_pos != g_lo[b], "not before the first key of a block"); to(m_pos, true, g_lo[b]); }
    bool operator==(End) const { return m_end; }
    bool operator!=(End) const { return !m_end; }
    bool operator==(Begin) const { v_require(isValid(), "at a key"); return m_pos == g_lo[b]; }
    bool operator!=(Begin) const { v_require(isValid(), "at a key"); return m_pos != g_lo[b]; }
    void joinBound(Key) { v_require(false, "joinBound"); }
    std::pair<Key, bool> peek(Key) const { v_require(false, "peek"); return {}; }
};
struct Vec {
    uint64_t b = 0; typedef BIt joinable_const_iterator;
    Vec() {}
    explicit Vec(uint64_t p) : b(p) { v_require(p < g_B, "the keys of a block"); }
    const Vec *operator->() const { return this; }
    BIt beginJoin(int d) const { v_require(d == g_dir, "in the direction of the walk"); seen(b); BIt i; i.b = b; i.m_null = false; i.m_pos = d > 0 ? g_lo[b] : g_hi[b]; return i; }
    End end() const { return {}; }
    Begin begin() const { return {}; }
    Key back() const { v_require(false, "back"); return 0; }
    void detach() {}
};
struct Cn {};
}
namespace db0 {
template <> class bindex_types<uint64_t, cn::Cn, std::less<uint64_t>> {
public:
    using node_iterator = cn::NodeIt; using bindex_tree_t = cn::Tree; using node_stack = cn::Stack; using data_vector = cn::Vec; struct bindex_container {};
    template <class K> struct cast_then_compare { bool operator()(const cn::NodeIt &, K) const; };
};
}
#include <dbzero/core/collections/full_text/FT_IndexIterator.hpp>
using namespace db0;
typedef v_bindex_joinable_const_iterator<uint64_t, cn::Cn> Walk;
static cn::Tree g_tree;
struct Set { typedef Walk joinable_const_iterator; Walk beginJoin(int d) const { return Walk(g_tree, 16, d); } static std::uint64_t getSerialTypeId() { return 0; } db0::Memspace &getMemspace() const { return g_tree.getMemspace(); } uint64_t getAddress() const { return 0; } };
typedef FT_IndexIterator<Set, Key> Leaf;
static bool g_lim; static Key g_limit, g_old;
static void set(int dir) { g_dir = dir; g_B = v_in64("blocks"); v_assume(g_B <= (1ull << 40)); g_lo = (uint64_t *)v_buf("first", g_B * 8 + 8, 8); g_hi = (uint64_t *)v_buf("last", g_B * 8 + 8, 8); g_w = v_in64("w"); g_in = v_inbool("held"); g_bw = v_in64("block of w"); v_assume(!g_in | (g_bw < g_B)); if (g_in) seen(g_bw); }
static bool bound(Key k) { return !g_lim | (g_dir > 0 ? k < g_limit : k > g_limit); }
// a walk at an arbitrary key, with or without a limit
static void at(Walk &t) {
    uint64_t c = v_in64("block"); v_assume(c < g_B); g_cur = c; seen(c); seen(0); seen(0, c); if (g_in) seen(c, g_bw); t.m_node.i = c; t.m_data_buf.b = c; t.m_it_data.b = c; t.m_it_data.m_null = false; t.m_it_data.m_end = false; Key p = g_old = v_in64("at"); v_assume((p >= g_lo[c]) & (p <= g_hi[c]) & ((p != g_w) | (g_in & (g_bw == c)))); t.m_it_data.m_pos = p;
    t.m_stack.m_begun = v_inbool("begun"); Key l = t.m_stack.m_last = v_in64("joined"); v_assume(!t.m_stack.m_begun | le(l, p)); g_lim = v_inbool("limited"); g_limit = v_in64("limit"); if (g_lim) t.m_bound_check.limitBy(g_limit); v_assume(bound(p));
}
static void moved(Walk &t, Key from, bool strict) {
    bool c = g_in & bound(g_w) & (strict ? lt(from, g_w) : le(from, g_w));
    if (t.is_end()) { v_cover("end"); V_ASSERT(!c); } else { v_cover("at a key"); Key p = *t; V_ASSERT(strict ? lt(from, p) : le(from, p)); V_ASSERT(bound(p)); V_ASSERT(!c | le(p, g_w)); V_ASSERT((p != g_w) | g_in); uint64_t b = t.m_node.i; V_ASSERT((b < g_B) & (t.m_it_data.b == b) & (t.m_data_buf.b == b)); V_ASSERT((g_lo[b] <= p) & (p <= g_hi[b])); V_ASSERT(!t.m_stack.m_begun | le(t.m_stack.m_last, p)); }
}
static void begin(int dir) { set(dir); bool any = g_B > 0; Walk t(g_tree, 16, dir); seen(0); g_lim = false; V_ASSERT(t.is_end() == !any); if (any) { uint64_t b = dir > 0 ? 0 : g_B - 1; seen(b); V_ASSERT(*t == (dir > 0 ? g_lo[b] : g_hi[b])); } moved(t, any ? *t : g_w, false); }
V_UNIT(walk_begin_fwd) { begin(1); }
V_UNIT(walk_begin_back) { begin(-1); }
static void leaf(Leaf &l) { at(l.m_iterator); }
#define LEAF(name, ...) static void name(int dir) { set(dir); v_assume(g_B > 0); Set s; Leaf l(s, dir); leaf(l); Walk &t = l.m_iterator; __VA_ARGS__ } V_UNIT(name##_fwd) { name(1); } V_UNIT(name##_back) { name(-1); }
LEAF(leaf_join, { Key k = v_in64("key"); bool r = l.Leaf::join(k, dir); V_ASSERT(r == !l.Leaf::isEnd()); moved(t, le(k, g_old) ? g_old : k, false); })
LEAF(leaf_step, { if (dir > 0) l.Leaf::operator++(); else l.Leaf::operator--(); moved(t, g_old, true); })
static void leafNext() { set(-1); v_assume(g_B > 0); Set s; Leaf l(s, -1); leaf(l); bool buf = v_inbool("buf"); Key out = 1; l.Leaf::next(buf ? &out : nullptr); V_ASSERT(out == (buf ? g_old : 1)); moved(l.m_iterator, g_old, true); }
V_UNIT(leaf_next_back) { leafNext(); }
LEAF(leaf_key, { V_ASSERT(!l.Leaf::isEnd()); V_ASSERT(l.Leaf::getKey() == g_old); V_ASSERT(!l.Leaf::isNextKeyDuplicated()); V_ASSERT(l.Leaf::getKey() == g_old); })
LEAF(leaf_limit, { g_limit = v_in64("new limit"); g_lim = true; bool r = l.Leaf::limitBy(g_limit); V_ASSERT(r == bound(g_old)); V_ASSERT(l.Leaf::isEnd() == !r); if (r) { V_ASSERT(*t == g_old); } })
LEAF(leaf_stop, { l.Leaf::stop(); V_ASSERT(l.Leaf::isEnd()); })
// a copy of a walk stands where the walk stands
static void copied(int dir) { set(dir); v_assume(g_B > 0); Walk t(g_tree, 16, dir); at(t); v_assume(g_in & (g_old == g_w)); bool end = v_inbool("at the end"); if (end) t.stop(); Walk u(t); V_ASSERT(u.is_end() == end); if (!end) { V_ASSERT(*u == g_old); moved(u, g_old, false); } }
V_UNIT(walk_copy_fwd) { copied(1); }
V_UNIT(walk_copy_back) { copied(-1); }
