// Contracts on the or-node of a query (exclusive form, as find() builds it): a key is yielded, once, iff some child holds it.
#include <v.h>
#include <vrt.hpp>
#include <cstdint>
template <typename T> bool orSkip(T *, int) { return true; } template <typename T> bool orJoin(T *, int) { return true; } template <typename T> void orSplit(T *) {}
struct OrNode;
#define INV_or_skip v_inv(orSkip(this, 0)); orSplit(this);
#define INV_or_join v_inv(orJoin(this, 0)); orSplit(this);
#undef DB0_INVARIANT
#define DB0_INVARIANT(x) INV_##x
#include <dbzero/core/collections/full_text/FT_ORXIterator.hpp>
typedef db0::FT_JoinORXIterator<uint64_t> Or; static bool orSkip(Or *, int); static bool orJoin(Or *, int); static void orSplit(Or *);
#include <dbzero/core/collections/full_text/FT_IteratorBase.cpp>
#include <dbzero/core/collections/full_text/FT_Iterator.cpp>
#include <dbzero/core/collections/full_text/FT_ORXIterator.cpp>
#include "children.hpp"
using namespace db0;
typedef Or::heap_item Item; struct Heap { size_t size; Item *b, *e, *c; }; static_assert(sizeof(Heap) <= sizeof(heap<Item, Or::forward_comp_t>)); 
static unsigned g_n; static bool g_fresh, g_strict; static Key g_from, g_o; static Or *g_or; alignas(16) static unsigned char g_hb[4][sizeof(Item)]; alignas(16) static unsigned char g_raw[sizeof(Or)];
static Child &K(unsigned i) { return g_fresh ? *(Child *)g_bb[i] : C(i); }
static Heap &H(Or *s) { return g_dir > 0 ? *(Heap *)&s->m_forward_heap : *(Heap *)&s->m_back_heap; }
static bool anyHas() { return K(0).m_has | K(1).m_has | (g_n == 3 ? K(2).m_has : false); }
// the heap holds the children that have not ended, the foremost first, with their keys; no key from `low` on was passed
static bool heapInv(Or *s, Key low, bool strict, bool front) {
    Heap &h = H(s); Item *i = h.b; uint64_t n = h.size; bool r = n <= g_n; bool w = strict ? lt(low, g_w) : le(low, g_w);
    for (unsigned c = 0; c < g_n; c++) { bool in = false; for (unsigned k = 0; k < g_n; k++) in = in | ((n > k) & (i[k].it == &K(c))); r = r & (!(K(c).m_has & w) | (in & le(K(c).m_pos, g_w))) & (in == !K(c).m_e) & (K(c).m_e | !(K(c).m_pos == g_w) | K(c).m_has); }
    for (unsigned k = front ? 1 : 0; k < g_n; k++) { bool m = false; for (unsigned c = 0; c < g_n; c++) m = m | ((i[k].it == &K(c)) & (i[k].m_key == K(c).m_pos)); r = r & ((n <= k) | (m & !i[k].is_end)); }
    for (unsigned k = 1; k < g_n; k++) r = r & ((n <= k) | le(i[0].m_key, i[k].m_key));
    for (unsigned k = 0; k < g_n; k++) for (unsigned l = 0; l < k; l++) r = r & ((n <= k) | (i[k].it != i[l].it));
    return r;
}
static bool above(Or *s, Key low) { Heap &h = H(s); bool r = true; for (unsigned k = 0; k < g_n; k++) r = r & ((h.size <= k) | le(low, h.b[k].m_key)); return r; }
static const int P2[5][2] = {{9,9},{0,9},{1,9},{0,1},{1,0}}, P3[16][3] = {{9,9,9},{0,9,9},{1,9,9},{2,9,9},{0,1,9},{0,2,9},{1,0,9},{1,2,9},{2,0,9},{2,1,9},{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
// case split on which children are in the heap, in which order
static void split(Or *s, uint64_t q, bool assume) {
    Heap &h = H(s); unsigned m = g_n == 2 ? 5 : 16; v_assume(q < m); q = v_case(q, m); unsigned n = 0; for (unsigned i = 0; i < g_n; i++) { int c = g_n == 2 ? P2[q][i] : P3[q][i]; if (c == 9) break; n++; if (assume) v_assume(h.b[i].it == &K(c)); h.b[i].it = &K(c); if (!assume) { h.b[i].m_key = K(c).m_pos; h.b[i].is_end = false; } }
    if (assume) v_assume(h.size == n); h.size = n;
}
static bool anyInv(Or *s, Key low, bool strict); static void anySplit(); static bool g_any;
static void orSplit(Or *s) { if (g_any) return anySplit(); if (v_symbolic_mode()) split(s, v_fresh64(), true); }
static bool orSkip(Or *s, int) { if (g_any) return anyInv(s, g_o, true); return (H(s).size > 0) && heapInv(s, g_o, true, false) && above(s, g_o) && !s->m_end; }
static bool orJoin(Or *s, int) { if (g_any) return anyInv(s, g_from, false); return (H(s).size > 0) && heapInv(s, g_from, false, false) && above(s, g_o) && !s->m_end; }
static Or &node(unsigned n, int dir) {
    g_n = n; g_dir = dir; g_fresh = false; children(n, true); Or *s = g_or = (Or *)g_raw; memset(g_raw, 0, sizeof(g_raw)); const_cast<int &>(s->m_direction) = dir; s->m_is_orx = true; Heap &h = H(s); h.b = (Item *)g_hb; h.e = h.c = h.b + 4; split(s, v_in64("heap"), false);
    v_assume(h.size > 0); s->m_join_key = h.b[0].m_key; g_o = s->m_join_key; v_assume(heapInv(s, g_o, false, false)); return *s; // a node not at its end
}
static void result(Key from, bool strict, bool whole = false) {
    Or *s = g_or; bool c = anyHas() & (whole | (strict ? lt(from, g_w) : le(from, g_w))); Heap &h = H(s); V_ASSERT(s->m_end == (h.size == 0)); if (s->m_end) { v_cover("end"); V_ASSERT(!c); return; }
    Key k = s->m_join_key; v_cover("at a key"); V_ASSERT(whole | (strict ? lt(from, k) : le(from, k))); V_ASSERT(!c | le(k, g_w)); V_ASSERT((k != g_w) | anyHas()); V_ASSERT(k == h.b[0].m_key); V_ASSERT(heapInv(s, k, false, false));
}
static void step(unsigned n, int dir) { auto &s = node(n, dir); bool given = v_inbool("given"); Key out = v_in64("out"), out0 = out; if (dir > 0) s.Or::operator++(); else if (v_inbool("plain")) { s.Or::operator--(); given = false; } else s._next(given ? &out : nullptr); if (dir < 0) V_ASSERT(out == (given ? g_o : out0)); result(g_o, true); }
V_UNIT(or_next_fwd2) { step(2, 1); }
V_UNIT(or_next_back2) { step(2, -1); }
static void join(unsigned n, int dir) { auto &s = node(n, dir); Key k = v_in64("k"); g_from = le(k, g_o) ? g_o : k; bool r = s.Or::join(k, dir); V_ASSERT(r == !s.m_end); V_ASSERT(s.Or::isEnd() == !r); if (r) { V_ASSERT(s.Or::getKey() == s.m_join_key); Key o; s.Or::getKey(o); V_ASSERT(o == s.m_join_key); } result(g_from, false); }
V_UNIT(or_join_fwd2) { join(2, 1); }
V_UNIT(or_join_back2) { join(2, -1); }
static void begin(unsigned n, int dir) {
    auto &s = node(n, dir); s.m_end = v_inbool("ended"); const_cast<int &>(s.m_direction) = v_inbool("turned") ? -dir : dir; struct N { void *n, *p; void *c; }; static N nodes[4]; N *head = (N *)&s.m_joinable; head->n = &nodes[0]; for (unsigned i = 0; i < n; i++) { nodes[i].c = &C(i); nodes[i].n = i + 1 < n ? (void *)&nodes[i + 1] : head; nodes[i].p = i ? (void *)&nodes[i - 1] : head; } head->p = &nodes[n - 1];
    g_fresh = true; g_or = nullptr; v_replace("operator new(unsigned long)", (void *)+[](size_t n) -> void * { void *p = malloc(n); if (n == sizeof(Or)) g_or = (Or *)p; return p; });
    auto p = s.Or::beginTyped(dir); Or *r = (Or *)p.release(); V_ASSERT(r == g_or); V_ASSERT(g_begun == n); V_ASSERT((r->m_direction == dir) & r->m_is_orx); V_ASSERT(r->m_joinable.size() == n); result(0, false, true);
}
V_UNIT(or_begin_fwd2) { begin(2, 1); }
V_UNIT(or_begin_back2) { begin(2, -1); }
V_UNIT(or_begin_fwd3) { begin(3, 1); }
V_UNIT(or_begin_back3) { begin(3, -1); }
// ---- any number of children, over the contract of the heap (proof_heap): one arbitrary child (0), and whichever is in front
struct { Item f; uint64_t size; bool in; Key lb; } G;
static bool fork(uint64_t b);
static void pick() { bool f = fork(v_fresh64()); v_assume(!f | G.in); v_assume(f | (G.size > G.in)); if (f) { G.f.it = &C(0); G.f.m_key = C(0).m_pos; } else { Child &c = C(1); c.m_pos = v_fresh64(); c.m_has = v_fresh64() & 1; c.m_e = c.m_dup = false; v_assume(!(c.m_pos == g_w) | c.m_has); v_assume(le(G.lb, c.m_pos)); v_assume(!G.in | le(c.m_pos, C(0).m_pos)); G.f.it = &c; G.f.m_key = c.m_pos; } G.f.is_end = false; G.lb = G.f.m_key; }
static bool anyInv(Or *s, Key low, bool strict) {
    bool f = G.f.it == &C(0); bool r = !s->m_end & (G.size > 0) & (f | (G.f.it == &C(1))) & (!f | G.in) & (f | (G.size > G.in)) & (G.size >= G.in) & !G.f.is_end & (G.lb == G.f.m_key) & le(g_o, G.f.m_key);
    r = r & (!f | (G.f.m_key == C(0).m_pos)) & (f | ((G.f.m_key == C(1).m_pos) & !C(1).m_e)) & (G.in == !C(0).m_e) & (!G.in | le(G.f.m_key, C(0).m_pos)); for (int i = 0; i < 2; i++) r = r & (C(i).m_e | (C(i).m_pos != g_w) | C(i).m_has);
    return r & (!(C(0).m_has & (strict ? lt(low, g_w) : le(low, g_w))) | (G.in & le(C(0).m_pos, g_w)));
}
static bool fork(uint64_t b) { v_assume(b < 2); return v_case(b, 2); }
static void anySplit() { bool f = fork(v_fresh64()); Child *c = &C(f ? 0 : 1); v_assume(G.f.it == c); G.f.it = c; }
template <typename HeapT> static void heapStubs(const char *front, const char *cfront, const char *empty, const char *down, const char *pop) {
    v_replace(front, (void *)+[](HeapT *) -> Item & { v_require(G.size > 0, "front of a heap that is not empty"); return G.f; });
    v_replace(empty, (void *)+[](const HeapT *) -> bool { return G.size == 0; });
    v_replace(down, (void *)+[](HeapT *) { v_require((G.size > 0) & le(G.lb, G.f.m_key) & !G.f.is_end, "the front moved on"); Child *c = (Child *)G.f.it; v_require(!c->m_e & (G.f.m_key == c->m_pos), "with the key of its child"); pick(); });
    v_replace(pop, (void *)+[](HeapT *) { v_require(G.size > 0, "an element to remove"); Child *c = (Child *)G.f.it; v_require(c->m_e, "only a child that has ended"); if (c == &C(0)) G.in = false; G.size--; if (G.size) pick(); });
}
#define HN(c) "db0::heap<db0::FT_JoinORXIterator<unsigned long, unsigned long>::heap_item, db0::FT_JoinORXIterator<unsigned long, unsigned long>::" c "_comp_t>::"
static Or &anyNode(int dir) {
    g_any = true; g_n = 2; g_dir = dir; g_fresh = false; children(2, true); Or *s = g_or = (Or *)g_raw; memset(g_raw, 0, sizeof(g_raw)); const_cast<int &>(s->m_direction) = dir; s->m_is_orx = true; G.size = v_in64("size"); G.in = !C(0).m_e; bool f = fork(v_in64("front")); G.f.it = &C(f ? 0 : 1); G.f.m_key = G.lb = ((Child *)G.f.it)->m_pos; G.f.is_end = false; v_assume(!((Child *)G.f.it)->m_e); s->m_join_key = g_o = G.f.m_key; v_assume(anyInv(s, g_o, false));
    if (dir > 0) heapStubs<heap<Item, Or::forward_comp_t>>(HN("forward") "front()", "", HN("forward") "empty() const", HN("forward") "downfix()", HN("forward") "pop_front()"); else heapStubs<heap<Item, Or::back_comp_t>>(HN("back") "front()", "", HN("back") "empty() const", HN("back") "downfix()", HN("back") "pop_front()");
    return *s;
}
static void anyResult(Key from, bool strict) { Or *s = g_or; bool c = C(0).m_has & (strict ? lt(from, g_w) : le(from, g_w)); V_ASSERT(s->m_end == (G.size == 0)); if (s->m_end) { v_cover("end"); V_ASSERT(!c); return; } Key k = s->m_join_key; v_cover("at a key"); V_ASSERT(strict ? lt(from, k) : le(from, k)); V_ASSERT(!c | le(k, g_w)); V_ASSERT((k != g_w) | ((Child *)G.f.it)->m_has); V_ASSERT(k == G.f.m_key); V_ASSERT(anyInv(s, k, false)); }
static void anyStep(int dir) { auto &s = anyNode(dir); if (dir > 0) s.Or::operator++(); else s.Or::operator--(); anyResult(g_o, true); }
V_UNIT(or_next_fwd_any) { anyStep(1); }
V_UNIT(or_next_back_any) { anyStep(-1); }
static void anyJoin(int dir) { auto &s = anyNode(dir); Key k = v_in64("k"); g_from = le(k, g_o) ? g_o : k; bool r = s.Or::join(k, dir); V_ASSERT(r == !s.m_end); anyResult(g_from, false); }
V_UNIT(or_join_fwd_any) { anyJoin(1); }
V_UNIT(or_join_back_any) { anyJoin(-1); }
