// Contracts on a block of a collection: the sorted vector (any capacity, any size, any content), seen through one arbitrary element.
// The search within it (SortedArray::join) is replaced by its contract, which C13/proof_sorted.cpp proves.
#include <v.h>
#include <vrt.hpp>
#include <cstdint>
typedef uint64_t D; static D *g_a; static unsigned char *g_raw; static uint32_t g_n, g_cap, g_st; static uint64_t g_x, g_p, g_k; static D g_o, g_o1, g_data;
static bool kept(uint64_t n);
// element i, or `other` when there is none
static D el(uint64_t i, uint64_t lim, D other) { if (i < lim) return g_a[i]; return other; }
template <typename T> static bool shiftInv(T, T, T) { return true; } template <typename T, typename U> static void at(T &, U &) {}
// making room at p: everything behind d has moved up by one
static bool shiftInv(D *dst, D *src, D *item) {
    uint64_t d = dst - g_a, p = item - g_a; if (!(kept(g_n) & (src == dst - 1) & (p == g_p) & (p < d) & (d <= g_n))) return false;
    bool a = el(g_x, g_n + 1ull, 0) == (g_x > d ? g_o1 : g_o), b = el(g_x - 1, g_n, g_o1) == g_o1; return (a | (g_x == g_n && d == g_n) | (g_x > g_n)) & (b | (g_x - 1 > d)| (g_x == 0));
}
static void at(D *&dst, D *&src) { uint64_t d = v_fresh64(); v_assume((d > 0) & (d <= g_cap) & (dst == g_a + d)); dst = g_a + d; src = g_a + d - 1; }
template <typename T> static bool packInv(T, T, T) { return true; } template <typename T, typename U> static void atF(T &, U &) {}
// closing a gap of g_k elements at p: everything before d is in place
static bool packInv(D *dst, const D *src, const D *end) {
    uint64_t d = dst - g_a; if (!((src == dst + g_k) & (end == g_a + g_n) & (g_p <= d) & (d < g_n) & (d + g_k < g_n))) return false;
    bool a = el(g_x, g_n, 0) == ((g_x < d) & (g_x >= g_p) ? g_o1 : g_o), b = el(g_x + g_k, g_n, g_o1) == g_o1; return (a | (g_x >= g_n)) & (b | (g_x + g_k < d) | (g_x + g_k >= g_n));
}
template <typename S> static void atF(D *&dst, S &src) { uint64_t d = v_fresh64(); v_assume((d < g_n) & (d + g_k < g_n) & (dst == g_a + d)); dst = g_a + d; src = g_a + d + g_k; }
#undef INV_sv_insert_shift
#undef INV_sv_erase_shift
#undef INV_sv_pop_front_move
#undef INV_sv_pop_front_skip
#undef INV_sv_pop_back_skip
#define INV_sv_insert_shift v_inv(shiftInv(it_dest, it_src, item)); at(it_dest, it_src);
#define INV_sv_erase_shift v_inv(kept(g_n) & packInv(dest, (const D *)src, (const D *)data_end)); atF(dest, src);
#define INV_sv_pop_front_move v_inv(kept(g_n - g_k) & packInv(it_dest, it_src, it_end)); atF(it_dest, it_src);
#define INV_sv_pop_front_skip { int64_t v_c = count; v_inv((v_c >= 0) & (it_src == g_a + (g_k - v_c - 1))); }
#define INV_sv_pop_back_skip { int64_t v_c = count; v_inv((v_c >= 0)); }
// adding elements behind the last one / closing the gaps of the elements that a function selects
static const D *g_src; static uint64_t g_c; static D g_s; template <typename A, typename B> static bool pushInv(A, B, uint64_t) { return true; } template <typename A, typename B> static void atP(A &, B &) {}
static bool pushInv(D *dst, const D *src, uint64_t left) { uint64_t d = dst - g_a; return kept(g_n + g_c) & (d >= g_n) & (d < g_n + g_c) & (left == g_n + g_c - d - 1) & (src == g_src + (d - g_n)) & ((g_x >= d) || g_a[g_x] == g_s); }
static void atP(D *&dst, const D *&src) { uint64_t d = v_fresh64(); v_assume((d >= g_n) & (d - g_n < g_c) & (d < g_cap) & (dst == g_a + d)); dst = g_a + d; src = g_src + (d - g_n); }
static uint64_t g_i, g_ex; static bool g_fx; template <typename A> static bool selInv(A, uint64_t) { return true; } template <typename A> static void atS(A &, uint64_t) {}
static bool selInv(D *it, uint64_t e) { uint64_t i = it - g_a; if (!(kept(g_n) & (i < g_n) & (e <= i))) return false; if (g_x >= i) return (g_x >= g_n) || g_a[g_x] == g_o; return g_fx ? e > 0 : (g_ex <= g_x) & (e >= g_ex) & (e - g_ex <= i - g_x - 1) && g_a[g_x - g_ex] == g_o; }
static void atS(D *&it, uint64_t e) { uint64_t i = v_fresh64(); v_assume((i < g_n) & (it == g_a + i)); it = g_a + i; g_i = i; if (i == g_x) g_ex = e; }
#undef INV_sv_bulk_push_back
#undef INV_sv_bulk_erase
#define INV_sv_bulk_push_back v_inv(pushInv(it_dest, it, count)); atP(it_dest, it);
#define INV_sv_bulk_erase v_inv(selInv(it, erase_count)); atS(it, erase_count);
#undef DB0_INVARIANT
#define DB0_INVARIANT(x) INV_##x
#include <dbzero/core/collections/vector/v_sorted_vector.hpp>
using namespace db0;
typedef o_sv_container<D> Sv; static Sv *g_v;
static bool kept(uint64_t n) { return (g_v->m_size == n) & (g_v->m_capacity == g_cap) & ((uint32_t)g_v->m_state == g_st); }
static Sv &vec() {
    g_cap = v_in32("capacity"); g_n = v_in32("size"); g_st = v_in32("state"); v_assume((g_cap > 0) & (g_n <= g_cap) & (g_cap <= 1u << 30)); g_raw = (unsigned char *)v_buf("vector", sizeof(Sv) + g_cap * 8ull, 4); g_v = (Sv *)g_raw; g_a = (D *)(g_raw + sizeof(Sv));
    g_v->m_capacity = g_cap; g_v->m_size = g_n; g_v->m_state = (sv_state)g_st; V_ASSERT(g_v->getData() == g_a); g_x = v_in64("x"); v_assume(g_x <= g_n); g_data = v_in64("data");
    v_replace("unsigned long const* db0::SortedArray<unsigned long, std::less<unsigned long>, unsigned long const*>::join<unsigned long>(unsigned long const*, unsigned long, int) const", (void *)+[](const SortedArray<D> *a, const D *it, D key, int d) -> const D * {
        v_require((a->m_begin == g_a) & (a->m_end == g_a + g_n), "the elements of the vector"); v_require(d > 0 ? it == g_a : it == g_a + g_n, "over the whole vector"); uint64_t r = v_fresh64(); v_assume(r <= g_n); g_p = r; bool in = g_x < g_n; D x = el(g_x, g_n, 0); bool q = in & (d > 0 ? x >= key : x <= key);
        if (r == g_n) { v_assume(!q); return a->m_end; } D v = g_a[r]; v_assume(d > 0 ? v >= key : v <= key); v_assume(!q | (v == key) | (d > 0 ? r <= g_x : r >= g_x)); v_assume(!in | (r == g_x) | ((r < g_x) & (v <= x)) | ((r > g_x) & (v >= x)));
        if ((g_x > 0) & (g_x - 1 != r)) { D y = g_a[g_x - 1]; v_assume(r < g_x - 1 ? v <= y : v >= y); } return g_a + r; });
    return *g_v;
}
static void inserted(D *it, bool dup) {
    uint64_t r = it - g_a; V_ASSERT(r == g_p); V_ASSERT(g_v->m_capacity == g_cap); V_ASSERT((uint32_t)g_v->m_state == g_st); V_ASSERT(g_v->m_size == (dup ? g_n : g_n + 1)); if (dup) { V_ASSERT(el(g_x, g_n, 0) == g_o); V_ASSERT(*it == g_data); return; }
    V_ASSERT(g_a[g_x] == (g_x < r ? g_o : g_x == r ? g_data : g_o1)); // nothing lost, nothing changed, `data` at r
    V_ASSERT(g_a[r] == g_data); V_ASSERT((g_x >= r) | (g_a[g_x] <= g_data)); V_ASSERT((g_x <= r) | (g_a[g_x] >= g_data)); // and in order
}
// what stood at x and before it, in terms of the order with respect to the position found
static void before() { g_o = el(g_x, g_n, 0); g_o1 = g_x > 0 ? g_a[g_x - 1] : 0; }


V_UNIT(insert) { auto &v = vec(); v_assume(g_n < g_cap); before(); D *it = v.insert(g_data); inserted(it, false); }
V_UNIT(erase_at) { auto &v = vec(); g_p = v_in64("index"); g_k = 1; v_assume(g_p < g_n); g_o = el(g_x, g_n, 0); g_o1 = el(g_x + 1, g_n, 0); v.eraseAt(g_p); V_ASSERT(kept(g_n - 1)); V_ASSERT((g_x >= g_n - 1) || g_a[g_x] == (g_x < g_p ? g_o : g_o1)); }
V_UNIT(pop_front) { auto &v = vec(); uint32_t c = v_in32("count"); v_assume((c <= g_n) & ((int)c >= 0)); g_p = 0; g_k = c; g_o = el(g_x, g_n, 0); g_o1 = el(g_x + g_k, g_n, 0); v.pop_front((int)c); V_ASSERT(kept(g_n - c)); V_ASSERT((g_x >= g_n - c) || g_a[g_x] == g_o1); }
V_UNIT(pop_back) { auto &v = vec(); uint32_t c = v_in32("count"); v_assume((c <= g_n) & ((int)c >= 0)); g_o = el(g_x, g_n, 0); v.pop_back((int)c); V_ASSERT(kept(g_n - c)); V_ASSERT((g_x >= g_n - c) || g_a[g_x] == g_o); }
V_UNIT(push_back) { auto &v = vec(); v_assume(g_n < g_cap); if (g_n > 0) v_assume(g_a[g_n - 1] < g_data); g_o = el(g_x, g_n, g_data); v.push_back(g_data); V_ASSERT(kept(g_n + 1)); V_ASSERT(g_a[g_x] == g_o); }
V_UNIT(find) { auto &v = vec(); g_o = el(g_x, g_n, 0); bool has = (g_x < g_n) & (g_o == g_data); const D *r = v.find(g_data); if (r) { v_cover("found"); uint64_t i = r - g_a; V_ASSERT(i < g_n); V_ASSERT(*r == g_data); } else V_ASSERT(!has); V_ASSERT(kept(g_n)); }
V_UNIT(find_lower_equal) { auto &v = vec(); g_o = el(g_x, g_n, 0); bool has = (g_x < g_n) & (g_o <= g_data); const D *r = v.findLowerEqualBound(g_data); if (r) { v_cover("found"); uint64_t i = r - g_a; V_ASSERT(i < g_n); V_ASSERT(*r <= g_data); V_ASSERT(!has | (*r >= g_o)); } else V_ASSERT(!has); V_ASSERT(kept(g_n)); }
V_UNIT(bulk_push_back) { auto &v = vec(); g_c = v_in64("count"); v_assume((g_c <= g_cap) & (g_n + g_c <= g_cap)); g_src = (const D *)v_buf("source", g_c * 8, 8); g_x = v_in64("position"); v_assume(g_x < g_n + g_c); g_s = el(g_x, g_n, 0); if (g_x >= g_n) g_s = g_src[g_x - g_n]; v.bulkPushBack(g_src, g_c); V_ASSERT(kept(g_n + g_c)); V_ASSERT(g_a[g_x] == g_s); }
V_UNIT(bulk_erase) {
    auto &v = vec(); v_assume(g_x < g_n); g_o = g_a[g_x]; g_fx = v_inbool("erase x"); uint64_t r = v.bulkErase<D>(std::function<bool(D)>([](D d) -> bool { v_require((g_i != g_x) | (d == g_o), "the function is asked for every element"); if (g_i == g_x) return g_fx; return v_fresh64() & 1; }));
    V_ASSERT(r <= g_n); V_ASSERT(kept(g_n - r)); if (g_fx) { v_cover("erased"); V_ASSERT(r > 0); } else { V_ASSERT((g_ex <= g_x) & (g_ex <= r)); V_ASSERT(g_x - g_ex < g_n - r); V_ASSERT(g_a[g_x - g_ex] == g_o); }
}
