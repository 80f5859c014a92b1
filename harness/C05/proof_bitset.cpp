// Contracts on the page allocator (BitsetAllocator) and on the fixed-range allocators, over the contract of the bit
// set (C10): for every page size, base, direction, bit set content and dynamic bound.
#include <v.h>
#include <vrt.hpp>
#include <dbzero/core/memory/config.cpp>
#include <dbzero/core/memory/Address.cpp>
#include <dbzero/core/memory/Allocator.cpp>
#include <dbzero/core/memory/BitsetAllocator.hpp>
#include <dbzero/core/memory/AlgoAllocator.cpp>
#include <dbzero/core/memory/OneShotAllocator.cpp>
using namespace db0;
// ghost: an arbitrary bit set seen through two positions: the one concerned (g_i) and any other (g_k)
static uint64_t g_npos, g_i, g_k, g_last; static bool g_bi, g_bk, g_full; static unsigned g_sets;
struct Bits {
    static inline uint64_t npos;
    const Bits *operator->() const { return this; } Bits &modify() { return *this; }
    uint64_t firstIndexOf(bool b) const { v_require(!b, "an unset position is looked for"); return g_full ? npos : g_i; }
    uint64_t lastIndexOf(bool b) const { v_require(b, "the last set position is looked for"); return g_last; }
    bool get(uint64_t i) const { v_require(i < npos, "position inside the bit set"); if (i == g_i) return g_bi; if (i == g_k) return g_bk; return v_fresh64() & 1; }
    void set(uint64_t i, bool b) { v_require(i < npos, "position inside the bit set"); g_sets++; if (i == g_k) g_bk = b; if (i == g_i) g_bi = b; }
    uint64_t count(bool) const { return v_fresh64(); } void reset() { g_bi = g_bk = false; } void commit() const {} void detach() const {}
};
typedef BitsetAllocator<Bits> BA;
static uint64_t g_base, g_size, g_bound; static int g_dir;
static BA *any() {
    Bits::npos = g_npos = v_in64("npos"); v_assume(g_npos > 0); v_assume(g_npos <= (1u << 20));
    g_i = v_in64("index"); g_k = v_in64("other"); v_assume(g_i < g_npos); v_assume(g_k < g_npos); v_assume(g_i != g_k);
    g_bi = v_inbool("set_i"); g_bk = v_inbool("set_k"); g_full = v_inbool("full"); g_last = v_in64("last"); v_assume(g_last + 1 <= g_npos); g_sets = 0;
    uint64_t sh = v_in64("page_shift"); v_assume(sh < 17); sh = v_case(sh, 17); g_size = 1ull << sh; // page sizes are powers of two
    uint64_t bp = v_in64("base_page"); v_assume(bp < (1ull << 32)); g_base = bp << sh; g_dir = v_inbool("backwards") ? -1 : 1; if (g_dir < 0) v_assume(bp >= g_npos);
    return new BA(Bits(), Address::fromOffset(g_base), g_size, g_dir);
}
static uint64_t at(uint64_t i) { return g_dir > 0 ? g_base + i * g_size : g_base - (i + 1) * g_size; }
V_UNIT(page_alloc) {
    BA &a = *any(); bool bounded = v_inbool("has_bound"); g_bound = v_in64("bound"); v_assume(g_bound < (1ull << 60)); if (bounded) a.setDynamicBounds([]() { return g_bound; });
    if (!g_full) v_assume(!g_bi); bool bk = g_bk;
    auto r = a.tryAlloc(g_size);
    V_ASSERT(g_bk == bk);
    if (!r) { v_cover("refused"); V_ASSERT(g_sets == 0); V_ASSERT(g_full | (bounded & (g_dir > 0 ? at(g_i) + g_size > g_bound : at(g_i) < g_bound))); return; }
    v_cover("granted"); V_ASSERT(!g_full); V_ASSERT(r->getOffset() == at(g_i)); V_ASSERT(g_bi); V_ASSERT(g_sets == 1);
    if (bounded) V_ASSERT(g_dir > 0 ? r->getOffset() + g_size <= g_bound : r->getOffset() >= g_bound);
    // disjoint from the page of any other position
    uint64_t o = at(g_k); V_ASSERT((o + g_size <= r->getOffset()) | (r->getOffset() + g_size <= o));
    V_ASSERT(a.span() == g_last + 1);
}
V_UNIT(page_free) {
    BA &a = *any(); g_full = false; uint64_t in = v_in64("inner"); v_assume(in < g_size); bool was = g_bi, bk = g_bk; v_throws((in == 0) & !was);
    a.free(Address::fromOffset(at(g_i) + in));
    V_ASSERT(g_bk == bk); if (in) { v_cover("inner"); V_ASSERT(g_bi == was); V_ASSERT(g_sets == 0); } else { v_cover("freed"); V_ASSERT(was); V_ASSERT(!g_bi); V_ASSERT(g_sets == 1); V_ASSERT(a.span() == g_last + 1); }
}
V_UNIT(page_size_of) {
    BA &a = *any(); uint64_t in = v_in64("inner"); v_assume(in < g_size); Address x = Address::fromOffset(at(g_i) + in);
    size_t s = 7; bool r = a.isAllocated(x, &s); V_ASSERT(r == g_bi); V_ASSERT(s == (r ? g_size - in : 7)); V_ASSERT(a.isAllocated(x) == g_bi);
    v_throws(!g_bi); V_ASSERT(a.getAllocSize(x) == g_size - in); v_cover("done"); V_ASSERT(g_bi); V_ASSERT(g_sets == 0);
}
// an allocator of a numbered sequence of equal ranges: the address functions are one-to-one (C06)
static Address c_pool(unsigned i) { return Address::fromOffset(g_base + (uint64_t)i * g_size); }
static unsigned c_rev(Address x) { return (unsigned)((x.getOffset() - g_base) / g_size); }
static AlgoAllocator *anyAlgo() {
    uint64_t sh = v_in64("shift"); v_assume(sh < 17); sh = v_case(sh, 17); g_size = 1ull << sh; uint64_t bp = v_in64("base_page"); v_assume(bp > 0); v_assume(bp < (1ull << 32)); g_base = bp << sh;
    auto *a = new AlgoAllocator([](unsigned i) { return c_pool(i); }, [](Address x) { return c_rev(x); }, g_size); a->m_next_i = v_in32("next"); v_assume(a->m_next_i < (1u << 30)); return a;
}
V_UNIT(sequence_alloc) {
    auto &a = *anyAlgo(); uint64_t n = a.m_next_i; uint32_t k = v_in32("k"); v_assume(k < n);
    auto r = a.tryAlloc(g_size); V_ASSERT(r.has_value()); uint64_t x = r->getOffset(), o = c_pool(k).getOffset(); V_ASSERT((x + g_size <= o) | (o + g_size <= x)); V_ASSERT(a.m_next_i == n + 1);
    V_ASSERT(a.isAllocated(*r)); V_ASSERT(a.isAllocated(c_pool(k))); V_ASSERT(!a.isAllocated(c_pool((unsigned)n + 1))); V_ASSERT(a.getAllocSize(*r) == g_size); v_cover("done");
}
V_UNIT(sequence_free) {
    auto &a = *anyAlgo(); uint64_t n = a.m_next_i; uint32_t i = v_in32("i"); v_assume(i < (1u << 30)); uint64_t in = v_in64("inner"); v_assume(in < g_size);
    v_throws((in == 0) & (i >= n)); a.free(Address::fromOffset(c_pool(i).getOffset() + in));
    // only the last range can be given back; any other stays taken
    V_ASSERT(a.m_next_i == (in == 0 && i == n - 1 ? n - 1 : n)); v_cover("done");
}
V_UNIT(sequence_max) {
    auto &a = *anyAlgo(); uint32_t i = v_in32("i"); v_assume(i < (1u << 30)); uint64_t in = v_in64("inner"); v_assume(in < g_size);
    a.setMaxAddress(Address::fromOffset(c_pool(i).getOffset() + in)); V_ASSERT(a.m_next_i == i + 1); V_ASSERT(a.getRootAddress() == c_pool(0)); a.reset(); V_ASSERT(a.m_next_i == 0); v_cover("done");
}
V_UNIT(one_shot) {
    uint64_t x = v_in64("addr"), s = v_in64("size"), y = v_in64("other"), t = v_in64("other_size"); OneShotAllocator a(Address::fromOffset(x), s); v_assume(y != x);
    auto r = a.tryAlloc(t); V_ASSERT(r.has_value() == (t == s)); if (!r) { v_cover("refused"); V_ASSERT(!a.isAllocated(Address::fromOffset(x))); return; }
    V_ASSERT(r->getOffset() == x); V_ASSERT(!a.tryAlloc(s).has_value()); size_t z = 3; V_ASSERT(a.isAllocated(*r, &z)); V_ASSERT(z == s); V_ASSERT(a.getAllocSize(*r) == s); V_ASSERT(!a.isAllocated(Address::fromOffset(y)));
    a.free(*r); V_ASSERT(!a.isAllocated(*r)); V_ASSERT(a.tryAlloc(s).has_value()); v_cover("again");
    v_throws(1); a.free(Address::fromOffset(y)); V_ASSERT(false);
}
