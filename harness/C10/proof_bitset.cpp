// Contracts on the fixed-size bit set, for every content and every position, with loop invariants in place (DB0_INVARIANT
// hooks): bit by bit get/set, lowest and highest position of a value, number of positions of a value.
#include <v.h>
#include <vrt.hpp>
static uint64_t g_j, g_n, g_cid; static const uint8_t *g_mem;
static uint32_t word(uint32_t i) { const uint8_t *p = g_mem + 4 * (uint64_t)i; return p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
static bool bitAt(uint32_t k) { return (g_mem[k >> 3] >> (k & 7)) & 1; }
static uint64_t cnt(uint64_t i) { return v_uf("positions", g_cid, i); } // positions below i holding the value: 0 at 0 and +1 for each
#define WORDOK(i) ((mask == (uint32_t)1 << ((i) & 31)) & (data == word((i) >> 5)))
#define INV_bitset_first v_variant(BitN - i); v_inv((i < BitN) & WORDOK(i) & (!(g_j < i) | (bitAt(g_j) != value)));
#define INV_bitset_count v_variant(BitN - i); v_inv((i < BitN) & WORDOK(i) & (result == (uint32_t)cnt(i)) & (cnt(i) <= i)); v_assume(cnt(i + 1) == cnt(i) + (bitAt(i) == value));
#define INV_bitset_last v_variant((uint64_t)i + 1); v_inv((i >= 0) & (i < (int)BitN) & WORDOK((uint32_t)i) & (!((g_j < BitN) & (g_j > (uint32_t)i)) | (bitAt(g_j) != value)));
#undef DB0_INVARIANT
#define DB0_INVARIANT(x) INV_##x
#include <dbzero/core/collections/bitset/FixedBitset.hpp>
using namespace db0;
template <unsigned N> struct Bits {
    typedef o_fixed_bitset<N> T; T *b;
    Bits() { uint64_t n = ((N - 1) / 32 + 1) * 4; V_ASSERT(sizeof(T) == n); b = (T *)v_buf("bits", n, 1); g_mem = (const uint8_t *)b; g_j = v_in32("j"); v_assume(g_j < N); }
    void set() {
        uint32_t at = v_in32("at"); v_assume(at < N); bool v = v_inbool("value"), before = bitAt(g_j); V_ASSERT(b->get(g_j) == before); b->set(at, v); v_cover("set"); V_ASSERT(b->get(at) == v); V_ASSERT(b->get(g_j) == (g_j == at ? v : before)); V_ASSERT(T::size() == N);
    }
    void first() { bool v = v_inbool("value"); auto r = b->firstIndexOf(v); if (r == T::npos) { v_cover("none"); V_ASSERT(!(g_j < N) | (bitAt(g_j) != v)); } else { v_cover("found"); V_ASSERT(r < N); V_ASSERT(bitAt(r) == v); V_ASSERT(!(g_j < r) | (bitAt(g_j) != v)); } }
    void last() { bool v = v_inbool("value"); int r = b->lastIndexOf(v); if (r < 0) { v_cover("none"); V_ASSERT(r == -1); V_ASSERT(!(g_j < N) | (bitAt(g_j) != v)); } else { v_cover("found"); V_ASSERT(r < (int)N); V_ASSERT(bitAt(r) == v); V_ASSERT(!((g_j < N) & (g_j > (uint32_t)r)) | (bitAt(g_j) != v)); } }
    void count() { bool v = v_inbool("value"); g_cid = 0; v_assume(cnt(0) == 0); auto r = b->count(v); v_cover("counted"); V_ASSERT(r == cnt(N)); V_ASSERT(r <= N); }
    void reset() { b->reset(); v_cover("reset"); V_ASSERT(!bitAt(g_j)); }
};
#define ALL(N) V_UNIT(set_##N) { Bits<N>().set(); } V_UNIT(first_##N) { Bits<N>().first(); } V_UNIT(last_##N) { Bits<N>().last(); } V_UNIT(count_##N) { Bits<N>().count(); } V_UNIT(reset_##N) { Bits<N>().reset(); }
ALL(1) ALL(7) ALL(31) ALL(32) ALL(33) ALL(64) ALL(100) ALL(16384)
// what the reported number means: setting one position changes it by exactly the change of that position (induction over positions)
V_UNIT(count_step) {
    uint64_t n = v_in64("n"); v_assume(n >= 1); v_assume(n <= 16384); uint64_t k = v_in64("k"); v_assume(k < n); bool was = v_inbool("was"), is = v_inbool("is"); v_assume((v_uf("a", 0, 0) == 0) & (v_uf("b", 0, 0) == 0));
    uint64_t i = 0; for (; i < n; i++) { v_variant(n - i); v_inv((i <= n) & (v_uf("b", 0, i) + (k < i ? (uint64_t)was : 0) == v_uf("a", 0, i) + (k < i ? (uint64_t)is : 0))); bool bit = v_uf("bit", 0, i) & 1; v_assume((v_uf("a", 0, i + 1) == v_uf("a", 0, i) + (i == k ? was : bit)) & (v_uf("b", 0, i + 1) == v_uf("b", 0, i) + (i == k ? is : bit))); }
    v_cover("end"); V_ASSERT(v_uf("b", 0, n) + was == v_uf("a", 0, n) + is);
}
