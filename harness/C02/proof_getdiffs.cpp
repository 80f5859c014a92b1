// Contracts on the computation of a page difference, with loop invariants in place (DB0_INVARIANT hooks): for every
// page size up to 32 KiB, every pair of images, every limit and every sequence of forced ranges.
#include <v.h>
#include <vrt.hpp>
#include <optional>
#include <vector>
#include <limits>
// ---- ghost state: the runs emitted so far, seen through one arbitrary byte position g_k
static uint64_t g_size, g_k, g_pos, g_cnt, g_prev; static bool g_par, g_kd, g_any; static uint64_t g_max; static const uint8_t *g_a, *g_b;
// forced ranges: the current one is [g_rb, g_rb + g_len)
static uint64_t g_nr, g_idx; static uint16_t g_rb, g_len;
static bool forcedOk(const uint8_t *base, const uint8_t *it, const uint8_t *ds, uint64_t idx) {
    return (idx <= g_nr) & ((ds == nullptr) | ((it <= ds) & ((uint64_t)(ds - base) == g_rb) & ((uint64_t)g_rb + g_len <= g_size) & (idx == g_idx) & (g_idx < g_nr)));
}
#define EQ(i) (g_a[i] == g_b[i])
#define COVERED (!(g_k < g_pos) | g_kd | EQ(g_k))
#define COMMON(base, it) ((uint64_t)((it) - (base)) <= g_size)
#define RUNS(base, it, total) (COMMON(base, it) & ((uint64_t)((it) - (base)) == g_pos) & (g_par == false) & (g_cnt <= 2 * g_pos + 4) & COVERED & ((total) <= g_max) & forcedOk(base, it, diff_start, diff_index))
#define INV_getDiffs_pair_runs v_variant((uint64_t)(end - it_1) + 1); v_inv(RUNS(it_base, it_1, diff_total) & ((uint64_t)(it_2 - g_b) == g_pos) & (!g_any | (diff_bytes > 0)) & (!g_kd | (g_any & (g_cnt != 0))) & (diff_bytes <= diff_total));
#define INV_getDiffs_pair_diff v_inv(COMMON(it_base, it_1) & ((uint64_t)(it_1 - it_base) == g_pos + diff_len) & ((uint64_t)(it_2 - g_b) == g_pos + diff_len) & (diff_index <= g_nr) & forcedOk(it_base, it_1, diff_start, diff_index));
#define INV_getDiffs_pair_same v_variant((uint64_t)(end - it_1)); v_inv(COMMON(it_base, it_1) & ((uint64_t)(it_1 - it_base) == g_pos + sim_len) & ((uint64_t)(it_2 - g_b) == g_pos + sim_len) & forcedOk(it_base, it_1, diff_start, diff_index) & (!((g_k >= g_pos) & (g_k < g_pos + sim_len)) | EQ(g_k)) & ((sim_len > 0) | (it_1 != diff_start)));
#define ZERO(i) (g_a[i] == 0)
#define ZCOVERED (!(g_k < g_pos) | g_kd | ZERO(g_k))
#define INV_getDiffs_zero_runs v_variant((uint64_t)(end - it) + 1); v_inv(COMMON(it_base, it) & ((uint64_t)(it - it_base) == g_pos) & (g_par == false) & ZCOVERED & (g_cnt >= 2) & (g_cnt <= 2 * g_pos + 4) & (diff_total <= g_max) & forcedOk(it_base, it, diff_start, diff_index));
#define INV_getDiffs_zero_diff v_variant((uint64_t)(end - it) + (g_nr - diff_index)); v_inv(COMMON(it_base, it) & ((uint64_t)(it - it_base) == g_pos + diff_len) & (diff_index <= g_nr) & forcedOk(it_base, it, diff_start, diff_index));
#define INV_getDiffs_zero_same v_variant((uint64_t)(end - it)); v_inv(COMMON(it_base, it) & ((uint64_t)(it - it_base) == g_pos + sim_len) & forcedOk(it_base, it, diff_start, diff_index) & (!((g_k >= g_pos) & (g_k < g_pos + sim_len)) | ZERO(g_k)) & ((sim_len > 0) | (it != diff_start)));
#undef DB0_INVARIANT
#define DB0_INVARIANT(x) INV_##x
#include <dbzero/core/memory/diff_utils.cpp>
using namespace db0;
typedef std::vector<uint16_t> Vec;
static bool g_zero;
static void c_push(Vec *, const uint16_t &v) {
    if (g_zero && g_cnt < 2) { v_require(v == 0, "a difference against an empty page starts with the empty-page mark"); g_cnt++; return; }
    uint64_t n = v; v_require(g_pos + n <= g_size, "runs stay inside the page");
    if (!g_par) { if ((g_k >= g_pos) & (g_k < g_pos + n)) g_kd = true; if (n) g_any = true; g_prev = n; }
    else { v_require((n != 0) | (g_prev != 0), "the empty-page mark appears only at the beginning"); v_require(!((g_k >= g_pos) & (g_k < g_pos + n)) | (g_zero ? ZERO(g_k) : EQ(g_k)), "bytes of a run of equal bytes are equal"); }
    g_pos += n; g_par = !g_par; g_cnt++;
}
static void c_push_move(Vec *v, uint16_t &&x) { c_push(v, x); }
static size_t c_size(const Vec *) { return g_cnt; }
static bool g_started; static void c_clear(Vec *) { if (g_started) v_require(!g_any, "only an empty difference is dropped"); g_started = true; g_cnt = 0; g_par = false; g_pos = 0; g_kd = false; g_any = false; }
static bool c_has(const DiffRangeView *) { return g_nr != 0; }
static size_t c_nr(const DiffRangeView *) { return g_nr; }
static std::pair<uint16_t, uint16_t> c_range(const DiffRangeView *, size_t i) {
    v_require(i < g_nr, "a forced range that exists"); v_require((i == g_idx) | (i == g_idx + 1), "forced ranges are visited in order");
    if (i != g_idx) { uint64_t e = (uint64_t)g_rb + g_len; g_idx = i; g_rb = v_in16("range_begin"); g_len = v_in16("range_size"); v_assume((g_rb >= e) & ((uint64_t)g_rb + g_len <= g_size)); }
    return {g_rb, (uint16_t)(g_rb + g_len)};
}
static uint16_t c_sizeOf(const DiffRangeView *, size_t i) { v_require(i == g_idx, "size of the current forced range"); return g_len; }
static void setup() {
    g_size = v_in64("size"); v_assume(g_size <= 32768); g_k = v_in64("k"); v_assume(g_k < g_size); g_a = (const uint8_t *)v_buf("a", g_size, 1); g_b = (const uint8_t *)v_buf("b", g_size, 1);
    g_pos = v_in64("stale"); g_cnt = 5; g_par = true; g_kd = v_inbool("stale_k"); g_any = true; g_idx = 0; g_nr = v_in64("ranges"); v_assume(g_nr <= 4096); g_rb = v_in16("range_begin"); g_len = v_in16("range_size"); v_assume((uint64_t)g_rb + g_len <= g_size);
    v_replace("std::vector<unsigned short, std::allocator<unsigned short>>::push_back(unsigned short const&)", (void *)c_push); v_replace("std::vector<unsigned short, std::allocator<unsigned short>>::push_back(unsigned short&&)", (void *)c_push_move);
    v_replace("std::vector<unsigned short, std::allocator<unsigned short>>::size() const", (void *)c_size); v_replace("std::vector<unsigned short, std::allocator<unsigned short>>::clear()", (void *)c_clear);
    v_replace("db0::DiffRangeView::operator bool() const", (void *)c_has); v_replace("db0::DiffRangeView::size() const", (void *)c_nr); v_replace("db0::DiffRangeView::operator[](unsigned long) const", (void *)c_range); v_replace("db0::DiffRangeView::sizeOf(unsigned long) const", (void *)c_sizeOf);
}
static unsigned char g_vec[sizeof(Vec)] __attribute__((aligned(16)));
static void pairUnit(bool ranges) {
    setup(); v_assume((g_nr != 0) == ranges); g_zero = false; g_max = v_in64("max_diff"); v_assume(g_max <= 32765); uint64_t mx = g_max ? g_max : (g_size * 3) >> 2; uint64_t given = g_max; g_max = mx;
    std::optional<size_t> lim; if (v_inbool("limited")) lim = v_in64("max_size");
    bool r = getDiffs(g_a, g_b, g_size, *(Vec *)g_vec, given, lim, DiffRangeView());
    if (!r) { v_cover("refused"); return; }
    v_cover("computed"); V_ASSERT(g_pos <= g_size);
    // outside the recorded differing runs the images agree; no run recorded at all means identical images
    V_ASSERT(g_kd | EQ(g_k)); V_ASSERT((g_cnt != 0) | EQ(g_k));
}
static void zeroUnit(bool ranges) {
    setup(); v_assume((g_nr != 0) == ranges); g_zero = true; g_max = v_in64("max_diff"); v_assume(g_max <= 32765); uint64_t mx = g_max ? g_max : (g_size * 3) >> 2; uint64_t given = g_max; g_max = mx;
    std::optional<size_t> lim; if (v_inbool("limited")) lim = v_in64("max_size");
    bool r = getDiffs(g_a, g_size, *(Vec *)g_vec, given, lim, DiffRangeView());
    if (!r) { v_cover("refused"); return; }
    v_cover("computed"); V_ASSERT(g_pos <= g_size); V_ASSERT(g_cnt >= 2); V_ASSERT(g_kd | ZERO(g_k));
}
// the same contract, without and with forced ranges
V_UNIT(get_diffs_pair_plain) { pairUnit(false); }
V_UNIT(get_diffs_pair_forced) { pairUnit(true); }
V_UNIT(get_diffs_zero_plain) { zeroUnit(false); }
V_UNIT(get_diffs_zero_forced) { zeroUnit(true); }
