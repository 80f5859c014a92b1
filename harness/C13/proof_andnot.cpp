// Contracts on the and-not node of a query: a key of the base is yielded iff no subtrahend holds it (one or two subtrahends, any keys).
#include <v.h>
#include <vrt.hpp>
#include <cstdint>
static bool heapInv(const void *first, const void *last); static void heapSplit(void *first, void **last); static bool nextInv();
#define INV_andnot_in_result v_inv(heapInv(m_subtrahends_heap._M_impl._M_start, m_subtrahends_heap._M_impl._M_finish) && !m_subtrahends_heap.empty()); heapSplit(m_subtrahends_heap._M_impl._M_start, (void **)&m_subtrahends_heap._M_impl._M_finish);
#define INV_andnot_next v_inv(nextInv());
#undef DB0_INVARIANT
#define DB0_INVARIANT(x) INV_##x
#include <dbzero/core/collections/full_text/FT_IteratorBase.cpp>
#include <dbzero/core/collections/full_text/FT_Iterator.cpp>
#include <dbzero/core/collections/full_text/FT_ANDNOTIterator.cpp>
#include "children.hpp"
using namespace db0;
typedef FT_ANDNOTIterator<Key> Not; typedef Not::HeapItem Item;
static unsigned g_n; static bool g_fresh; static Key g_low, g_o; static Not *g_not; static void *g_join[3]; alignas(16) static unsigned char g_heap[2][sizeof(Item)]; alignas(16) static unsigned char g_raw[sizeof(Not)];
static Child &K(unsigned i) { return g_fresh ? *(Child *)g_bb[i] : C(i); } // 0: base, 1..: subtrahends
static bool subHas() { return K(1).m_has | (g_n == 3 ? K(2).m_has : false); }
static bool cand() { return K(0).m_has & !subHas(); }
// the heap holds the subtrahends that have not ended, the foremost first; none of them has passed a key that can still be asked for
static bool heapInv(const void *first, const void *last) {
    const Item *h = (const Item *)first; uint64_t n = (const Item *)last - h; bool r = n < g_n; bool two = n == 2, one = n >= 1;
    for (unsigned s = 1; s < g_n; s++) { bool in = (one & (h[0].it == &K(s))) | (g_n == 3 ? two & (h[1].it == &K(s)) : false); r = r & (!(K(s).m_has & le(g_low, g_w)) | (in & !K(s).m_e & le(K(s).m_pos, g_w))) & (!in | (!K(s).m_e & (!(K(s).m_pos == g_w) | K(s).m_has))); }
    for (unsigned i = 0; i + 1 < g_n; i++) { bool used = n > i, m = false; for (unsigned s = 1; s < g_n; s++) m = m | ((h[i].it == &K(s)) & (h[i].key == K(s).m_pos)); r = r & (!used | m); }
    if (g_n == 3) r = r & (!two | ((h[0].it != h[1].it) & le(h[0].key, h[1].key)));
    return r;
}
static void heapSplit(void *first, void **last) {
    if (!v_symbolic_mode()) return; Item *h = (Item *)first; uint64_t n = v_fresh64(); v_assume((n >= 1) & (n < g_n)); n = v_case(n, 3); v_assume(*last == (void *)(h + n)); *last = h + n;
    uint64_t q = v_fresh64(); v_assume(q < g_n - 1); q = v_case(q, 2); for (unsigned i = 0; i < n; i++) { Child *c = &K(1 + (q ^ i)); v_assume(h[i].it == c); h[i].it = c; }
}
static Not &node(unsigned n, int dir, bool heap) {
    g_n = n; g_dir = dir; g_fresh = false; children(n, true); Not *s = g_not = (Not *)g_raw; memset(g_raw, 0, sizeof(g_raw)); s->m_direction = dir; for (unsigned i = 0; i < n; i++) g_join[i] = &C(i); void **v = (void **)&s->m_joinable; v[0] = g_join; v[1] = v[2] = g_join + n;
    Item *h = (Item *)g_heap; v = (void **)&s->m_subtrahends_heap; v[0] = h; v[2] = h + 2; v_assume(!C(0).m_e); uint64_t k = 0;
    if (heap) { k = v_in64("heap_size"); v_assume(k < n); k = v_case(k, 3); uint64_t q = v_in64("order"); v_assume(q < n - 1); q = v_case(q, 2); for (unsigned i = 0; i < k; i++) { h[i].it = &C(1 + (q ^ i)); h[i].key = C(1 + (q ^ i)).m_pos; } }
    v[1] = h + k; return *s;
}
// ---- whether a key is in the result
static void inResult(unsigned n, int dir) {
    auto &s = node(n, dir, true); Key k = v_in64("k"); g_low = k; v_assume(heapInv(s.m_subtrahends_heap._M_impl._M_start, s.m_subtrahends_heap._M_impl._M_finish)); bool r = s.inResult(k, dir); if (r) v_cover("in"); else v_cover("excluded");
    V_ASSERT((k != g_w) | (r == !subHas())); V_ASSERT(heapInv(s.m_subtrahends_heap._M_impl._M_start, s.m_subtrahends_heap._M_impl._M_finish));
}
V_UNIT(in_result_fwd1) { inResult(2, 1); }
V_UNIT(in_result_back1) { inResult(2, -1); }
V_UNIT(in_result_fwd2) { inResult(3, 1); }
V_UNIT(in_result_back2) { inResult(3, -1); }
// ---- moving, over the contract of inResult
static unsigned g_asked; static bool g_heapok;
static void askStub() { g_asked = 0; v_replace("db0::FT_ANDNOTIterator<unsigned long>::inResult(unsigned long const&, int)", (void *)+[](Not *s, const Key &k, int d) -> bool { v_require(s == g_not, "of this node"); v_require(d == g_dir, "in the direction of the walk"); v_require(le(g_low, k), "keys are asked in the order of the walk"); v_require(!K(0).m_e & (k == K(0).m_pos), "the key of the base"); if (g_fresh) v_require(heapInv(s->m_subtrahends_heap._M_impl._M_start, s->m_subtrahends_heap._M_impl._M_finish), "the heap of the subtrahends"); g_low = k; g_asked++; bool r = v_fresh64() & 1; v_assume((k != g_w) | (r == !subHas())); return r; }); }
static bool nextInv() { auto &b = K(0); return !b.m_e & le(g_o, b.m_pos) & le(g_low, b.m_pos) & (!(cand() & lt(g_o, g_w)) | lt(b.m_pos, g_w)) & (!(b.m_pos == g_w) | b.m_has); }
static void result(Key from, bool strict) {
    bool c = cand() & (strict ? lt(from, g_w) : le(from, g_w)); auto &b = K(0); if (b.m_e) { v_cover("end"); V_ASSERT(!c); return; }
    v_cover("at a key"); V_ASSERT(strict & b.m_uniq ? lt(from, b.m_pos) : le(from, b.m_pos)); V_ASSERT(!c | le(b.m_pos, g_w)); V_ASSERT((b.m_pos != g_w) | cand());
}
static void advance(int dir) { auto &s = node(3, dir, false); askStub(); g_o = g_low = C(0).m_pos; C(0).m_uniq = v_inbool("unique"); bool given = v_inbool("given"); Key out = v_in64("out"), out0 = out; bool plain = v_inbool("plain"); if (plain) { if (dir > 0) s.Not::operator++(); else s.Not::operator--(); } else { bool r = s.next(dir, given ? &out : nullptr); V_ASSERT(r == !C(0).m_e); V_ASSERT(out == (given ? g_o : out0)); } V_ASSERT(s.Not::isEnd() == C(0).m_e); result(g_o, true); }
V_UNIT(andnot_next_fwd) { advance(1); }
V_UNIT(andnot_next_back) { advance(-1); }
static void nextStub() { v_replace("db0::FT_ANDNOTIterator<unsigned long>::next(int, void*)", (void *)+[](Not *s, int d, void *buf) -> bool { v_require((s == g_not) & (d == g_dir) & (buf == nullptr), "in the direction of the walk"); auto &b = K(0); v_require(!b.m_e & le(g_low, b.m_pos), "not at the end"); Key o = b.m_pos; bool c = cand() & lt(o, g_w); b.m_e = v_fresh64() & 1; b.m_pos = v_fresh64(); v_assume(b.m_e | lt(o, b.m_pos)); v_assume(!c | (!b.m_e & le(b.m_pos, g_w))); v_assume(b.m_e | (b.m_pos != g_w) | cand()); return !b.m_e; }); }
static void join(int dir) { auto &s = node(3, dir, false); askStub(); nextStub(); Key o = C(0).m_pos, k = v_in64("k"), from = le(k, o) ? o : k; g_low = o; bool r = s.Not::join(k, dir); V_ASSERT(r == !C(0).m_e); if (r) V_ASSERT(s.Not::getKey() == C(0).m_pos); result(from, false); }
V_UNIT(andnot_join_fwd) { join(1); }
V_UNIT(andnot_join_back) { join(-1); }
static void begin(unsigned n, int dir) {
    auto &s = node(n, dir, false); s.m_direction = v_inbool("turned") ? -dir : dir; askStub(); nextStub(); g_fresh = true; g_low = dir > 0 ? 0 : ~0ull;
    v_replace("operator new(unsigned long)", (void *)+[](size_t n) -> void * { void *p = malloc(n); if (n == sizeof(Not)) g_not = (Not *)p; return p; });
    auto p = s.Not::beginTyped(dir); Not *r = (Not *)p.release(); V_ASSERT(r == g_not); V_ASSERT(g_begun == n); V_ASSERT(r->m_direction == dir); V_ASSERT(r->m_joinable.size() == n); V_ASSERT(r->Not::isEnd() == K(0).m_e); V_ASSERT(r->m_joinable[0].get() == &K(0));
    auto &b = K(0); if (b.m_e) { v_cover("end"); V_ASSERT(!cand()); } else { v_cover("at a key"); V_ASSERT(g_asked == 1); V_ASSERT(!cand() | le(b.m_pos, g_w)); V_ASSERT((b.m_pos != g_w) | cand()); }
}
V_UNIT(andnot_begin_fwd1) { begin(2, 1); }
V_UNIT(andnot_begin_back1) { begin(2, -1); }
V_UNIT(andnot_begin_fwd2) { begin(3, 1); }
V_UNIT(andnot_begin_back2) { begin(3, -1); }
