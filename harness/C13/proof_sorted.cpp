// Contracts on the leaves of a query: searching a sorted run of keys and walking it (any length, any keys, both directions). The
// run is seen through one arbitrary element x; that it is sorted is used at the elements that are compared.
#include <v.h>
#include <vrt.hpp>
#include <cstdint>
struct E { uint64_t k; }; static const E *g_a; static uint64_t g_n, g_x, g_it0, g_key; static bool g_q; static void seen(const E *); static void sawI(uint64_t);
template <typename T, typename D> static bool fwdInv(T b, T e, T it, T end, D d) { return true; } template <typename T, typename D> static bool backInv(T b, T e, T begin, T it, D d) { return true; }
static bool fwdInv(const E *b, const E *e, const E *it, const E *end, size_t d) { uint64_t i = it - g_a, n = end - g_a; if (!((i >= g_it0) & (i <= n) & (n <= g_n) & (d == n - i) & (d > 2))) return false; return (!g_q | (g_x >= i)) & ((n == g_n) | (g_a[n - 1].k > g_key)); }
static bool backInv(const E *b, const E *e, const E *begin, const E *it, size_t d) { uint64_t i = begin - g_a, n = it - g_a; if (!((i <= n) & (n <= g_it0) & (d == n - i) & (d > 2))) return false; return (!g_q | (g_x < n)) & ((i == 0) | (g_a[i].k < g_key)); }
// a position in the run, in terms of its start
template <typename T> static void at(T &) {} static void at(const E *&p) { uint64_t i = v_fresh64(); v_assume((i <= g_n) & (p == g_a + i)); p = g_a + i; }
#undef INV_sorted_join_fwd
#undef INV_sorted_join_back
#define INV_sorted_join_fwd v_inv(fwdInv(this->m_begin, this->m_end, it, end, diff)); at(it); at(end);
#define INV_sorted_join_back v_inv(backInv(this->m_begin, this->m_end, begin, it, diff)); at(begin); at(it);
#undef DB0_INVARIANT
#define DB0_INVARIANT(x) INV_##x
#include <dbzero/core/utils/SortedArray.hpp>
#include <dbzero/core/collections/vector/joinable_const_iterator.hpp>
#include <dbzero/core/collections/full_text/FT_IteratorBase.cpp>
#include <dbzero/core/collections/full_text/FT_Iterator.cpp>
#include <dbzero/core/collections/full_text/FT_FixedKeyIterator.cpp>
#include "children.hpp"
using namespace db0;
// sortedness between element i and the arbitrary element x
static void sawI(uint64_t i) { if (i < g_n) v_assume(((i > g_x) | (g_a[i].k <= g_a[g_x].k)) & ((i < g_x) | (g_a[i].k >= g_a[g_x].k))); }
static void seen(const E *p) { sawI(p - g_a); }
struct Cmp { bool operator()(const E &a, Key b) const { seen(&a); return a.k < b; } bool operator()(Key a, const E &b) const { seen(&b); return a < b.k; } };
typedef SortedArray<E, Cmp> Arr;
static Arr arr() { g_n = v_in64("n"); v_assume(g_n <= (1ull << 40)); g_a = (const E *)v_buf("elements", g_n * 8, 8); g_x = v_in64("x"); v_assume((g_x < g_n) | (g_n == 0)); g_key = v_in64("key"); return Arr(g_a, g_n); }
V_UNIT(sorted_join_fwd) {
    Arr a = arr(); g_it0 = v_in64("from"); v_assume(g_it0 <= g_n); g_q = (g_n > 0) & (g_x >= g_it0) && g_a[g_n ? g_x : 0].k >= g_key; const E *r = a.join(g_a + g_it0, (Key)g_key, 1); uint64_t i = r - g_a;
    if (i == g_n) { v_cover("none"); V_ASSERT(!g_q); } else { v_cover("found"); V_ASSERT((i >= g_it0) & (i < g_n)); V_ASSERT(g_a[i].k >= g_key); sawI(i); V_ASSERT(!g_q | (g_a[i].k <= g_a[g_x].k)); V_ASSERT(!g_q | (i <= g_x) | (g_a[i].k == g_key)); }
}
V_UNIT(sorted_join_back) {
    Arr a = arr(); g_it0 = v_in64("from"); v_assume(g_it0 <= g_n); g_q = (g_n > 0) & (g_x < g_it0) && g_a[g_n ? g_x : 0].k <= g_key; const E *r = a.join(g_a + g_it0, (Key)g_key, -1); uint64_t i = r - g_a;
    if (i == g_n) { v_cover("none"); V_ASSERT(!g_q); } else { v_cover("found"); V_ASSERT(i < g_it0); V_ASSERT(g_a[i].k <= g_key); sawI(i); V_ASSERT(!g_q | (g_a[i].k >= g_a[g_x].k)); V_ASSERT(!g_q | (i >= g_x) | (g_a[i].k == g_key)); }
}
// ---- the two leaves, over the contract of join; keys appear once (as in the lists of a tag)
static Key *g_k; static uint64_t g_at0; // the keys
static void sortedAt(uint64_t i, uint64_t j) { if ((i < g_n) & (j < g_n)) v_assume((i == j) | (((i < j) == (g_k[i] < g_k[j])) & (g_k[i] != g_k[j]))); }
static const Key *joinContract(const Key *it, Key key, int d, const Key *begin, const Key *end) {
    v_require((begin == g_k) & (end == g_k + g_n), "the keys"); uint64_t i = it - g_k, r = v_fresh64(); v_require(i <= g_n, "from a position in the keys"); v_assume(r <= g_n); bool q = (g_n > 0) & (d > 0 ? g_x >= i : g_x < i); Key x = g_k[g_n ? g_x : 0]; q = q & (d > 0 ? x >= key : x <= key);
    if (r == g_n) { v_assume(!q); return end; } Key v = g_k[r]; v_assume(d > 0 ? (r >= i) & (v >= key) : (r < i) & (v <= key)); v_assume(!q | (d > 0 ? v <= x : v >= x)); sortedAt(r, g_x); sortedAt(r, g_at0); return g_k + r;
}
typedef joinable_const_iterator<Key, std::less<Key>> Walk; typedef FT_FixedKeyIterator<Key> Fixed;
static void keys(int dir, bool some) { g_dir = dir; g_n = v_in64("n"); v_assume((g_n <= (1ull << 40)) & (!some | (g_n > 0))); g_k = (Key *)v_buf("keys", g_n * 8, 8); g_x = v_in64("x"); v_assume((g_x < g_n) | (g_n == 0)); g_w = g_n ? g_k[g_x] : 0; g_at0 = v_in64("at"); v_assume(g_at0 <= g_n); sortedAt(g_at0, g_x);
    v_replace("unsigned long const* db0::SortedArray<unsigned long, std::less<unsigned long>, unsigned long const*>::join<unsigned long>(unsigned long const*, unsigned long, int) const", (void *)+[](const SortedArray<Key> *a, const Key *it, Key key, int d) -> const Key * { v_require(d == g_dir, "in the direction of the walk"); return joinContract(it, key, d, a->m_begin, a->m_end); }); }
static bool bound(bool has, Key b, Key k) { return !has | (g_dir > 0 ? k < b : k > b); }
// after a move from key `o` to index i: what a parent sees (w is the arbitrary key of the set, `in` whether it lies within the limit)
static void moved(uint64_t i, Key from, bool strict, bool in) { bool c = in & (g_n > 0) & (strict ? lt(from, g_w) : le(from, g_w)); if (i >= g_n) { v_cover("end"); V_ASSERT(i == g_n); V_ASSERT(!c); } else { v_cover("at a key"); Key p = g_k[i]; V_ASSERT(strict ? lt(from, p) : le(from, p)); V_ASSERT(!c | le(p, g_w)); } }
static void walkJoin(int dir) {
    keys(dir, true); v_assume(g_at0 < g_n); Walk w(g_k, g_k + g_n, g_k + g_at0, dir); bool lim = v_inbool("limited"); Key b = v_in64("limit"), k = v_in64("key"); if (lim) w.m_bound_check.limitBy(b); Key o = g_k[g_at0]; v_assume(bound(lim, b, o)); Key from = le(k, o) ? o : k; bool r = w.join(k, dir); uint64_t i = w.m_current - g_k; V_ASSERT(r == (i < g_n)); V_ASSERT(w.is_end() == !r); V_ASSERT(w.isValid() == r); if (r) { V_ASSERT(*w == g_k[i]); V_ASSERT(bound(lim, b, g_k[i])); } moved(i, from, false, bound(lim, b, g_w));
}
V_UNIT(walk_join_fwd) { walkJoin(1); }
V_UNIT(walk_join_back) { walkJoin(-1); }
static void walkStep(int dir) { keys(dir, true); v_assume(g_at0 < g_n); Walk w(g_k, g_k + g_n, g_k + g_at0, dir); bool lim = v_inbool("limited"); Key b = v_in64("limit"); if (lim) w.m_bound_check.limitBy(b); Key o = g_k[g_at0]; sortedAt(g_at0 + dir, g_x); sortedAt(g_at0, g_at0 + dir); if (dir > 0) ++w; else --w; uint64_t i = w.m_current - g_k; V_ASSERT((i == g_n) | (i == g_at0 + dir)); if (i < g_n) V_ASSERT(bound(lim, b, g_k[i])); moved(i, o, true, bound(lim, b, g_w)); }
V_UNIT(walk_next_fwd) { walkStep(1); }
V_UNIT(walk_next_back) { walkStep(-1); }
alignas(16) static unsigned char g_raw[sizeof(Fixed)];
static Fixed &fixed(int dir) { Fixed *f = (Fixed *)g_raw; memset(g_raw, 0, sizeof(g_raw)); Key **v = (Key **)&f->m_sorted_keys; v[0] = g_k; v[1] = v[2] = g_k + g_n; f->m_keys.m_begin = g_k; f->m_keys.m_end = g_k + g_n; const_cast<int &>(f->m_direction) = dir; f->m_current = g_k + g_at0; return *f; }
static void fixedJoin(int dir) { keys(dir, true); v_assume(g_at0 < g_n); auto &f = fixed(dir); Key k = v_in64("key"), o = g_k[g_at0], from = le(k, o) ? o : k; bool r = f.Fixed::join(k, dir); uint64_t i = f.m_current - g_k; V_ASSERT(r == (i < g_n)); V_ASSERT(f.Fixed::isEnd() == !r); if (r) V_ASSERT(f.Fixed::getKey() == g_k[i]); moved(i, from, false, true); }
V_UNIT(fixed_join_fwd) { fixedJoin(1); }
V_UNIT(fixed_join_back) { fixedJoin(-1); }
static void fixedStep(int dir) { keys(dir, true); v_assume(g_at0 < g_n); auto &f = fixed(dir); Key o = g_k[g_at0]; sortedAt(g_at0 + dir, g_x); sortedAt(g_at0, g_at0 + dir); bool give = v_inbool("next"), buf = v_inbool("buf"); Key out = v_in64("out"), out0 = out; if (give) { f.Fixed::next(buf ? &out : nullptr); V_ASSERT(out == (buf ? o : out0)); } else if (dir > 0) f.Fixed::operator++(); else f.Fixed::operator--(); uint64_t i = f.m_current - g_k; V_ASSERT((i == g_n) | (i == g_at0 + dir)); moved(i, o, true, true); }
V_UNIT(fixed_next_fwd) { fixedStep(1); }
V_UNIT(fixed_next_back) { fixedStep(-1); }
