// Contracts on the two heaps the query nodes use: the front is the foremost element, nothing is lost or added. One unit per size
// (up to seven elements), all keys.
#include <v.h>
#include <vrt.hpp>
#include <functional>
#include <algorithm>
#include <dbzero/core/utils/heap.hpp>
#include <dbzero/core/utils/heap_utils.hpp>
using namespace db0; typedef uint64_t Key; typedef heap<Key> H;
alignas(16) static unsigned char g_raw[sizeof(H)]; static Key *g_b; static Key g_w; static unsigned g_n;
static H &make(unsigned n, unsigned from) { // heap order, except for the element at `from` - 1 when that is not 0
    g_n = n; H *h = (H *)g_raw; g_b = (Key *)v_buf("keys", 16 * 8, 8); g_w = v_in64("w"); h->m_size = n; Key **v = (Key **)&h->m_heap; v[0] = g_b; v[1] = v[2] = g_b + 16; for (unsigned i = 1; i < n; i++) { unsigned p = (i - 1) / 2; if (from == 0 || p >= from) v_assume(g_b[p] <= g_b[i]); } return *h;
}
static unsigned count(const Key *b, unsigned n) { unsigned c = 0; for (unsigned i = 0; i < n; i++) c += b[i] == g_w; return c; }
static void ordered(const Key *b, unsigned n) { bool r = true; for (unsigned i = 1; i < n; i++) r = r & (b[(i - 1) / 2] <= b[i]); V_ASSERT(r); }
static void down(unsigned n) { auto &h = make(n, 1); unsigned c = count(g_b, n); h.downfix(); V_ASSERT(h.size() == n); ordered(g_b, n); V_ASSERT(count(g_b, n) == c); }
static void pop(unsigned n) { auto &h = make(n, 0); unsigned c = count(g_b, n); Key f = h.front(); V_ASSERT(!h.empty()); h.pop_front(); V_ASSERT(h.size() == n - 1); ordered(g_b, n - 1); V_ASSERT(count(g_b, n - 1) + (f == g_w) == c); for (unsigned i = 0; i + 1 < n; i++) V_ASSERT(f <= g_b[i]); }
static void insert(unsigned n) { auto &h = make(n, 0); unsigned c = count(g_b, n); Key k = v_in64("k"); h.insert_grow(k); V_ASSERT(h.size() == n + 1); ordered(g_b, n + 1); V_ASSERT(count(g_b, n + 1) == c + (k == g_w)); }
static void popAll(unsigned n) { auto &h = make(n, 0); unsigned c = count(g_b, n); Key f = h.front(); h.pop_front_all(); ordered(g_b, h.size()); V_ASSERT(count(g_b, h.size()) == (f == g_w ? 0 : c)); bool r = true; for (unsigned i = 0; i < h.size(); i++) r = r & (f < g_b[i]); V_ASSERT(r); }
static void update(unsigned n) { auto &h = make(n, 1); unsigned c = count(g_b, n); update_heap_front(g_b, g_b + n, std::greater<Key>()); ordered(g_b, n); V_ASSERT(count(g_b, n) == c); }
static unsigned any() { uint64_t n = v_in64("n"); v_assume((n >= 1) & (n <= 7)); return v_case(n, 8); }
V_UNIT(heap_down) { down(any()); }
V_UNIT(heap_pop) { pop(any()); }
V_UNIT(heap_insert) { insert(any()); }
V_UNIT(heap_update_front) { update(any()); }
V_UNIT(heap_pop_all3) { popAll(3); }
V_UNIT(heap_pop_all4) { popAll(4); }
