// Contracts on the address arithmetic of the meta allocator: metadata pages and slabs of a prefix, for every index and the
// listed page and slab sizes. The real functions are built (their closures called) exactly as MetaAllocator does.
#include <v.h>
#include <vrt.hpp>
#include <dbzero/core/memory/MetaAllocator.cpp>
#include <dbzero/core/memory/utils.cpp>
using namespace db0;
struct Cfg { uint64_t ps, slab; };
static const Cfg g_cfg[] = {{4096, 64ull << 20}, {4096, 1 << 20}, {4096, 128 << 10}, {16384, 64ull << 20}, {65536, 16ull << 20}, {4096, 1ull << 30}, {4096, 100 * 4096}, {8192, 1 << 20}};
static Cfg cfg() { uint64_t k = v_in64("configuration"); v_assume(k < 8); return g_cfg[v_case(k, 8)]; }
static const uint64_t OFF = 40; // size of the header in front (rounded up to a page)
static uint64_t base(const Cfg &c) { return c.ps; }
static uint64_t slabs(const Cfg &c) { return MetaAllocator::getSlabCount(c.ps, c.slab); }
static uint64_t block(const Cfg &c) { return 4 * c.ps + c.slab * slabs(c); }
// a metadata page index maps to an address, and back
V_UNIT(meta_pages) {
    auto c = cfg(); uint64_t B = block(c); auto f = MetaAllocator::getAddressPool(OFF, c.ps, c.slab); unsigned i = v_in32("i"); v_assume(i < 1u << 24); v_cover("configuration");
    V_ASSERT(slabs(c) >= 1); V_ASSERT(B < (1ull << 32)); auto a = f(i); V_ASSERT(a.getOffset() == base(c) + (i / 4) * B + (i % 4) * c.ps);
}
V_UNIT(meta_pages_back) {
    auto c = cfg(); uint64_t B = block(c); auto g = MetaAllocator::getReverseAddressPool(OFF, c.ps, c.slab); uint64_t q = v_in64("block"), r = v_in64("page"); v_assume(q < 1u << 22); v_assume(r < 4); v_cover("configuration");
    uint64_t a = base(c) + q * B + r * c.ps; V_ASSERT((a - base(c)) / B == q); V_ASSERT((a - base(c)) % B == r * c.ps); // lemmas
    V_ASSERT(g(Address::fromOffset(a)) == q * 4 + r);
}
V_UNIT(meta_not_page) { // an address that is not a metadata page address is refused
    auto c = cfg(); uint64_t B = block(c); auto g = MetaAllocator::getReverseAddressPool(OFF, c.ps, c.slab); uint64_t q = v_in64("block"), d = v_in64("d"); v_assume(q < 1u << 22); v_assume(d < 4 * c.ps); v_cover("configuration"); v_throws((d & (c.ps - 1)) != 0);
    uint64_t a = base(c) + q * B + d; V_ASSERT((a - base(c)) % B == d); V_ASSERT((a - base(c)) / B == q); // lemmas
    g(Address::fromOffset(a)); V_ASSERT((d & (c.ps - 1)) == 0);
}
// every address of a slab maps to the slab's index; the images of different slabs never overlap each other or the metadata
V_UNIT(slab_address) {
    auto c = cfg(); uint64_t B = block(c), n = slabs(c); auto f = getSlabAddressFunction(OFF, c.ps, c.slab); uint64_t q = v_in64("block"), s = v_in64("slab"); v_assume(q < 1u << 18); v_assume(s < n); v_cover("configuration");
    V_ASSERT(f((unsigned)(q * n + s)).getOffset() == base(c) + q * B + 4 * c.ps + s * c.slab);
}
V_UNIT(slab_id) {
    auto c = cfg(); uint64_t B = block(c), n = slabs(c); auto g = MetaAllocator::getSlabIdFunction(OFF, c.ps, c.slab); uint64_t q = v_in64("block"), s = v_in64("slab"), d = v_in64("d"); v_assume(q < 1u << 18); v_assume(s < n); v_assume(d < c.slab); v_cover("configuration");
    uint64_t a = base(c) + q * B + 4 * c.ps + s * c.slab + d; V_ASSERT((a - base(c)) / B == q); // lemma
    V_ASSERT((a - base(c)) % B >= 4 * c.ps); // outside the metadata pages of its block
    V_ASSERT(g(Address::fromOffset(a)) == q * n + s);
}
// addresses inside a slab: relative positions invert exactly
V_UNIT(slab_relative) {
    static char mem[sizeof(SlabAllocator)]; auto &x = *(SlabAllocator *)mem; uint64_t b = v_in64("begin"); v_assume(b < (1ull << 50)); const_cast<Address &>(x.m_begin_addr) = Address::fromOffset(b); uint32_t r = v_in32("relative"), t = v_in32("relative2"); v_cover("slab");
    auto a = x.makeAbsolute(r); V_ASSERT(a.getOffset() == b + r); V_ASSERT(x.makeRelative(a) == r); V_ASSERT((x.makeAbsolute(t) == a) == (t == r));
}
// page arithmetic
V_UNIT(page_shift) { uint64_t p = v_in64("page_size"); bool strict = v_in8("strict") & 1; bool pow2 = (p & (p - 1)) == 0; v_throws(strict & !pow2); unsigned s = getPageShift(p, strict); if (pow2 && p) { v_cover("power of two"); V_ASSERT(s < 64); V_ASSERT(p == 1ull << s); V_ASSERT(getPageMask(p) == (1ull << s) - 1); } else { v_cover("other"); V_ASSERT(s == 0); V_ASSERT(!strict | !p); } }
V_UNIT(page_align) {
    uint64_t sh = v_in64("page_shift"); v_assume(sh < 20); sh = v_case(sh, 20); uint64_t ps = 1ull << sh, x = v_in64("address"), size = v_in64("size"); v_assume(x < (1ull << 50)); v_assume(size < (1ull << 50)); v_cover("page");
    uint64_t up = alignAddress(Address::fromOffset(x), ps, 1), dn = alignAddress(Address::fromOffset(x), ps, -1); V_ASSERT((up & (ps - 1)) == 0); V_ASSERT((dn & (ps - 1)) == 0); V_ASSERT(dn <= x); V_ASSERT(x <= up); V_ASSERT(x - dn < ps); V_ASSERT(up - x < ps);
    uint64_t w = alignWideRange(Address::fromOffset(x), size, ps, 1); V_ASSERT(w == (size > 2 * ps ? up : x));
}
