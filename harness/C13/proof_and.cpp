// Contracts on the and-node of a query: a key is yielded iff every child holds it. Seen through one arbitrary key w; children are
// abstract (children.hpp).
#include <v.h>
#include <vrt.hpp>
#include <cstdint>
static bool andInv(const void *grp, void **it); static void andSplit(void **grp, void **&it); static bool uniqInv(const uint64_t &next_key); template <typename T> bool uniqInv(const T &) { return true; }
#define INV_next_unique_key v_inv(uniqInv(next_key));
#define INV_and_join_all v_inv(andInv(&*m_joinable.begin(), (void **)&*it)); andSplit((void **)&*m_joinable.begin(), *(void ***)&it);
#undef DB0_INVARIANT
#define DB0_INVARIANT(x) INV_##x
#include <dbzero/core/collections/full_text/FT_IteratorBase.cpp>
#include <dbzero/core/collections/full_text/FT_Iterator.cpp>
#include <dbzero/core/collections/full_text/IteratorGroup.cpp>
#include <dbzero/core/collections/full_text/FT_ANDIterator.cpp>
#include "children.hpp"
using namespace db0;
typedef FT_JoinANDIterator<Key, true> And; typedef FT_JoinANDIterator<Key, false> AndDup;
static unsigned g_n; static Key g_k0; static bool g_all; static And *g_and; static void *g_grp[4]; static Key g_wlow; static Child &K(unsigned i); static bool g_fresh;
// the children of the node in question
static Child &K(unsigned i) { return g_fresh ? *(Child *)g_bb[i] : C(i); }
// index of a child in the group
static uint64_t at(void **g, unsigned c) { return v_ite(g[0] == (void *)&K(c), 0, g_n == 2 ? 1 : v_ite(g[1] == (void *)&K(c), 1, 2)); }
// a candidate: every child holds w, and it does not lie before the key the walk was asked to go to
static bool cand() { bool a = K(0).m_has & K(1).m_has; if (g_n == 3) a = a & K(2).m_has; return a & le(g_wlow, g_w); }
static bool andInv(const void *grp, void **it) {
    void **g = (void **)grp; uint64_t t = it - g; Key j = g_and->m_join_key; bool r = (t < g_n) & le(g_k0, j) & !g_and->m_end; bool ca = cand();
    for (unsigned c = 0; c < g_n; c++) { uint64_t x = at(g, c); r = r & !K(c).m_e & ((x > t) | (K(c).m_pos == j)) & (!(K(c).m_pos == g_w) | K(c).m_has) & (!ca | le(K(c).m_pos, g_w)); }
    if (g_n == 2) r = r & (((g[0] == &K(0)) & (g[1] == &K(1))) | ((g[0] == &K(1)) & (g[1] == &K(0))));
    else { bool p = false; static const int P[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; for (auto &q : P) p = p | ((g[0] == &K(q[0])) & (g[1] == &K(q[1])) & (g[2] == &K(q[2]))); r = r & p; }
    return r & (!ca | le(j, g_w));
}
static void andSplit(void **g, void **&it) {
    if (!v_symbolic_mode()) return; static const int P2[2][2] = {{0,1},{1,0}}, P3[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
    uint64_t q = v_fresh64(), n = g_n == 2 ? 2 : 6; v_assume(q < n); q = v_case(q, n); for (unsigned i = 0; i < g_n; i++) { void *c = &K(g_n == 2 ? P2[q][i] : P3[q][i]); v_assume(g[i] == c); g[i] = c; }
    uint64_t t = v_fresh64(); v_assume(t < g_n); t = v_case(t, g_n); v_assume(it == g + t); it = g + t;
}
alignas(16) static unsigned char g_raw[sizeof(And)]; static_assert(sizeof(And) == sizeof(AndDup));
static And &node(unsigned n, int dir) {
    g_n = n; g_dir = dir; g_fresh = false; children(n, false); g_and = (And *)g_raw; memset(g_raw, 0, sizeof(g_raw)); const_cast<int &>(g_and->m_direction) = dir; for (unsigned i = 0; i < n; i++) g_grp[i] = &C(i);
    void **v = (void **)&g_and->m_joinable.m_group; v[0] = g_grp; v[1] = v[2] = g_grp + n; g_and->m_join_key = v_in64("join_key"); for (unsigned i = 0; i < n; i++) v_assume(C(i).m_pos == g_and->m_join_key); // a node not at its end: all children at its key
    return *g_and;
}
static bool allHave() { bool a = K(0).m_has & K(1).m_has; if (g_n == 3) a = a & K(2).m_has; return a; }
// what a parent sees
static void result(Key from, bool strict, bool whole = false) {
    bool c = allHave() & (whole | (strict ? lt(from, g_w) : le(from, g_w)));
    if (g_and->m_end) { v_cover("end"); V_ASSERT(!c); return; }
    v_cover("at a key"); Key k = g_and->m_join_key; V_ASSERT(whole | (strict ? lt(from, k) : le(from, k))); V_ASSERT(!c | le(k, g_w)); V_ASSERT((k != g_w) | allHave()); for (unsigned i = 0; i < g_n; i++) V_ASSERT(!K(i).m_e & (K(i).m_pos == k));
}
static void join(unsigned n, int dir) { auto &s = node(n, dir); Key k = v_in64("k"), o = s.m_join_key, from = le(k, o) ? o : k; g_k0 = g_wlow = from; bool r = s.And::join(k, dir); V_ASSERT(r == !s.m_end); V_ASSERT(s.And::isEnd() == !r); if (r) V_ASSERT(s.And::getKey() == s.m_join_key); result(from, false); }
V_UNIT(and_join_fwd2) { join(2, 1); }
V_UNIT(and_join_back2) { join(2, -1); }
V_UNIT(and_join_fwd3) { join(3, 1); }
V_UNIT(and_join_back3) { join(3, -1); }
static Key g_o;
static bool uniqInv(const Key &nk) { auto &c = C(0); return (nk == g_o) & !c.m_e & (c.m_pos == g_o) & (c.m_moves == c.m_moves); }
static void nextUnique() { v_replace("db0::IteratorGroup<unsigned long, unsigned long>::GroupItem::nextUniqueKey(int, unsigned long*)", (void *)+[](IteratorGroup<Key>::GroupItem *g, int d, Key *k) -> bool { Child *c = (Child *)g->m_iterator; v_require(!c->m_e & (d == g_dir), "in the direction of the walk"); Key o = c->m_pos; c->move(o, true); v_assume(c->m_e | lt(o, c->m_pos)); if (!c->m_e) *k = c->m_pos; return !c->m_e; }); }
static void step(unsigned n, int dir) { auto &s = node(n, dir); nextUnique(); Key o = s.m_join_key; g_wlow = dir > 0 ? o + 1 : o - 1; bool last = g_wlow == (dir > 0 ? 0 : ~0ull); if (last) g_wlow = o; v_assume(!last | (g_w != o)); g_k0 = g_wlow; if (dir > 0) s.And::operator++(); else s.And::operator--(); result(o, true); }
V_UNIT(and_next_fwd2) { step(2, 1); }
V_UNIT(and_next_back2) { step(2, -1); }
V_UNIT(and_next_fwd3) { step(3, 1); }
V_UNIT(and_next_back3) { step(3, -1); }
static void nextUniqueKey(int dir) {
    g_dir = dir; children(1, false); auto &c = C(0); g_o = c.m_pos; c.m_dup = v_inbool("dup"); IteratorGroup<Key>::GroupItem g{&c}; bool ask = v_inbool("ask"); Key k = v_in64("key"), k0 = k; bool r = g.nextUniqueKey(dir, ask ? &k : nullptr); V_ASSERT(r == !c.m_e);
    bool w = c.m_has & lt(g_o, g_w); if (r) { v_cover("moved"); V_ASSERT(lt(g_o, c.m_pos)); V_ASSERT(!w | le(c.m_pos, g_w)); V_ASSERT(k == (ask ? c.m_pos : k0)); } else { v_cover("end"); V_ASSERT(!w); V_ASSERT(k == k0); }
}
V_UNIT(next_unique_fwd) { nextUniqueKey(1); }
V_UNIT(next_unique_back) { nextUniqueKey(-1); }
// started over: every child is started over, and the first key all of them hold is found
static void begin(unsigned n, int dir) {
    auto &s = node(n, dir); bool dir2 = v_inbool("kept"); int d = dir; const_cast<int &>(s.m_direction) = dir2 ? dir : -dir; s.m_end = v_inbool("ended"); g_fresh = true; g_k0 = g_wlow = dir > 0 ? 0 : ~0ull; static And *r;
    v_replace("operator new(unsigned long)", (void *)+[](size_t n) -> void * { void *p = malloc(n); if (n == sizeof(And)) g_and = (And *)p; return p; });
    auto p = s.And::beginTyped(d); r = (And *)p.release(); V_ASSERT(r == g_and); V_ASSERT(g_begun == g_n); V_ASSERT(r->m_direction == d); V_ASSERT(r->m_joinable.size() == g_n); V_ASSERT(r->And::isEnd() == r->m_end); result(0, false, true);
}
V_UNIT(and_begin_fwd2) { begin(2, 1); }
V_UNIT(and_begin_back2) { begin(2, -1); }
V_UNIT(and_begin_fwd3) { begin(3, 1); }
V_UNIT(and_begin_back3) { begin(3, -1); }
