// Contracts on the unit fill map, the allocation record, blanks, and the allocator's own steps
// (callee containers replaced by their contracts).
#include <v.h>
#include <vrt.hpp>
#include <dbzero/core/crdt/CRDT_Allocator.cpp>
#include <dbzero/core/memory/utils.cpp>
using namespace db0;
typedef CRDT_Allocator CA; typedef CA::FillMap FM; typedef CA::Alloc Al; typedef CA::Blank Bl;
static const uint64_t FLAGS = crdt::HAS_STRIPE_BIT | crdt::LOST_STRIPE_BIT;
static unsigned cap(unsigned id) { return id == 0 ? 56 : id == 1 ? 24 : id == 2 ? 8 : 1; }
static uint64_t lowmask(unsigned n) { return n >= 64 ? ~0ull : (1ull << n) - 1; }
// any well-formed fill map: allocation bits below its size, size id, stripe flags
static FM anyMap(unsigned *n, unsigned *id_) {
    uint64_t id = v_in64("size_id"); v_assume(id < 4); id = v_case(id, 4);
    uint64_t bits = v_in64("bits"); v_assume((bits & ~lowmask(cap(id))) == 0);
    uint64_t fl = v_in64("flags"); v_assume((fl & ~FLAGS) == 0);
    FM f; f.m_data = bits | (id << 56) | fl; *n = cap(id); if (id_) *id_ = id; return f;
}
V_UNIT(fm_accessors) {
    unsigned n, id; FM f = anyMap(&n, &id); uint64_t bits = f.m_data & lowmask(n);
    V_ASSERT(f.size() == n && f.sizeId() == id);
    V_ASSERT(f.all() == (bits == lowmask(n)) && f.empty() == (bits == 0));
    unsigned k = (unsigned)v_in32("k"); v_assume(k < n);
    V_ASSERT(f[k] == ((bits >> k) & 1));
    V_ASSERT(f.hasStripe() == ((f.m_data & crdt::HAS_STRIPE_BIT) != 0) && f.stripeFlags() == ((f.m_data & FLAGS) != 0));
    V_ASSERT(f.getHint().first == n && f.getHint().second == 0);
    v_cover("done");
}
V_UNIT(fm_ctor) {
    uint64_t id = v_in64("id"); v_assume(id < 4); id = v_case(id, 4); bool st = v_inbool("stripe");
    FM f(cap(id), st);
    V_ASSERT(f.size() == cap(id) && f.empty() && f.hasStripe() == st && f.unused() == cap(id));
    v_cover("done");
}
V_UNIT(fm_alloc) {
    unsigned n; FM f = anyMap(&n, nullptr); uint64_t old = f.m_data; v_assume(!f.all());
    unsigned r = f.allocUnit();
    V_ASSERT(r < n);
    V_ASSERT(((old >> r) & 1) == 0);
    V_ASSERT(f.m_data == (old | (1ull << r)));
    V_ASSERT((old & lowmask(r)) == lowmask(r));
    v_cover("done");
}
V_UNIT(fm_alloc_hint) {
    unsigned n; FM f = anyMap(&n, nullptr); uint64_t old = f.m_data; v_assume(!f.all());
    uint64_t h = v_in64("hint"); v_assume(h <= n);
    unsigned hint = (unsigned)v_case(h, 57);
    unsigned r = f.allocUnit(n, hint);
    V_ASSERT(r < n);
    V_ASSERT(((old >> r) & 1) == 0);
    V_ASSERT(f.m_data == (old | (1ull << r)));
    V_ASSERT(hint <= n && hint == r + 1);
    v_cover("done");
}
V_UNIT(fm_reset) {
    unsigned n; FM f = anyMap(&n, nullptr); uint64_t old = f.m_data; unsigned k = v_in32("k"); v_assume(k < n);
    f.reset(k);
    V_ASSERT(f.m_data == (old & ~(1ull << k)));
    v_cover("done");
}
V_UNIT(fm_flags) {
    unsigned n; FM f = anyMap(&n, nullptr); uint64_t old = f.m_data; bool b = v_inbool("b");
    f.setHasStripe(b); V_ASSERT(f.hasStripe() == b && ((f.m_data ^ old) & ~FLAGS) == 0);
    FM g; g.m_data = old; g.setLostStripe(); V_ASSERT(((g.m_data ^ old) & ~FLAGS) == 0 && g.stripeFlags());
    v_cover("done");
}
// the highest allocated unit determines the unused tail
V_UNIT(fm_unused) {
    unsigned n; FM f = anyMap(&n, nullptr); uint64_t bits = f.m_data & lowmask(n);
    unsigned u = f.unused();
    V_ASSERT(u <= n && (bits >> (n - u)) == 0);
    V_ASSERT(u == n ? bits == 0 : ((bits >> (n - u - 1)) & 1) == 1);
    V_ASSERT(f.span() == n - u);
    v_cover("done");
}
V_UNIT(fm_downsize) {
    unsigned n; FM f = anyMap(&n, nullptr); uint64_t old = f.m_data, bits = old & lowmask(n);
    unsigned m = v_in32("min"); v_assume(m >= 1);
    bool can = f.canDownsize(m);
    V_ASSERT(f.m_data == old);
    unsigned d = f.tryDownsize(m);
    V_ASSERT((d != 0) == can);
    V_ASSERT(d == 0 || d >= m);
    V_ASSERT(f.size() == n - d);
    V_ASSERT((f.m_data & crdt::NRESERVED_MASK()) == bits);
    V_ASSERT((bits & ~lowmask(n - d)) == 0);
    V_ASSERT(((f.m_data ^ old) & FLAGS) == 0);
    v_cover("done");
}
// ---- allocation record; address range within 32 bits
static Al anyAlloc(unsigned *n) {
    Al a; a.m_fill_map = anyMap(n, nullptr); a.m_address = v_in32("address"); a.m_stride = v_in32("stride");
    v_assume(a.m_stride >= 1); v_assume((uint64_t)a.m_address + (uint64_t)a.m_stride * *n <= 0xffffffffull); return a;
}
// contracts of the fill map (proved above: fm_alloc, fm_alloc_hint, fm_unused, fm_downsize)
static uint32_t g_unit; // ghost: the unit chosen by the contract
static uint32_t c_fmAlloc(FM *f) {
    unsigned n = f->size(); v_require((f->m_data & lowmask(n)) != lowmask(n), "not full");
    uint32_t r = (uint32_t)v_fresh64(); v_assume(r < n && ((f->m_data >> r) & 1) == 0); f->m_data |= 1ull << r; g_unit = r; return r;
}
static uint32_t c_fmAllocHint(FM *f, uint32_t end, uint32_t *hint) {
    v_require(end == f->size() && *hint <= end, "hint within the map");
    uint32_t r = c_fmAlloc(f); *hint = r + 1; return r;
}
static void useFillMapContracts() {
    v_replace("db0::CRDT_Allocator::FillMap::allocUnit()", (void *)c_fmAlloc);
    v_replace("db0::CRDT_Allocator::FillMap::allocUnit(unsigned int, unsigned int&)", (void *)c_fmAllocHint);
}
V_UNIT(alloc_unit) {
    useFillMapContracts();
    unsigned n; Al a = anyAlloc(&n), b = a; v_assume(!a.isFull());
    uint32_t r = a.allocUnit();
    uint32_t u = g_unit; 
    V_ASSERT(u < n && ((b.m_fill_map.m_data >> u) & 1) == 0 && a.m_fill_map.m_data == (b.m_fill_map.m_data | (1ull << u)));
    V_ASSERT(r == b.m_address + b.m_stride * u);
    V_ASSERT(a.m_address == b.m_address && a.m_stride == b.m_stride);
    V_ASSERT(!a.empty() && a.endAddr() == b.endAddr());
    v_cover("done");
}
V_UNIT(alloc_try_bounded) {
    useFillMapContracts();
    unsigned n; Al a = anyAlloc(&n), b = a; std::optional<uint32_t> bound; if (v_inbool("bounded")) bound = v_in32("bound");
    auto r = a.tryAllocUnit(bound);
    V_ASSERT(a.m_address == b.m_address && a.m_stride == b.m_stride);
    if (r) {
        v_cover("ok"); uint32_t u = g_unit; 
        V_ASSERT(u < n && ((b.m_fill_map.m_data >> u) & 1) == 0 && a.m_fill_map.m_data == (b.m_fill_map.m_data | (1ull << u)));
        V_ASSERT(*r == b.m_address + b.m_stride * u);
        V_ASSERT(!bound || *r + b.m_stride <= *bound);
    } else { v_cover("refused"); V_ASSERT(a.m_fill_map.m_data == b.m_fill_map.m_data); V_ASSERT(bound || b.isFull()); }
}
V_UNIT(alloc_try_hint) {
    useFillMapContracts();
    unsigned n; Al a = anyAlloc(&n), b = a; std::optional<uint32_t> bound; if (v_inbool("bounded")) bound = v_in32("bound");
    uint32_t h = v_in32("hint"); v_assume(h <= n); uint32_t hint = h;
    auto r = a.tryAllocUnit(bound, n, hint);
    V_ASSERT(a.m_address == b.m_address && a.m_stride == b.m_stride);
    if (r) {
        v_cover("ok"); uint32_t u = g_unit; 
        V_ASSERT(u < n && ((b.m_fill_map.m_data >> u) & 1) == 0 && a.m_fill_map.m_data == (b.m_fill_map.m_data | (1ull << u)));
        V_ASSERT(*r == b.m_address + b.m_stride * u);
        V_ASSERT(!bound || *r + b.m_stride <= *bound);
        V_ASSERT(hint <= n);
    } else { v_cover("refused"); V_ASSERT(a.m_fill_map.m_data == b.m_fill_map.m_data && hint == h); V_ASSERT(bound || b.isFull()); }
}
// lemma: consecutive units of one record are adjacent and do not wrap (hence, by transitivity, units never overlap)
V_UNIT(alloc_query) {
    unsigned n; Al a = anyAlloc(&n); uint32_t k = v_in32("k"); v_assume(k < n);
    uint32_t ka = a.m_address + (uint32_t)k * a.m_stride; std::size_t sz = 0;
    bool live = a.m_fill_map[k];
    V_ASSERT(a.isAllocated(ka, &sz) == live);
    V_ASSERT(!live || sz == a.m_stride);
    v_cover("done");
}
// an address that is not the start of a live unit is not reported as allocated
V_UNIT(alloc_query_other) {
    Al a; unsigned n = 8; a.m_fill_map = FM(8, true); uint64_t bits = v_in64("bits"); v_assume(bits <= 255); a.m_fill_map.m_data |= bits;
    a.m_address = v_in32("address"); a.m_stride = v_in16("stride"); v_assume(a.m_stride >= 1 && a.m_address < 0xfff00000u);
    uint32_t x = v_in32("x");
    bool r = a.isAllocated(x);
    if (r) { V_ASSERT(x >= a.m_address && x < a.m_address + 8 * a.m_stride); v_cover("live"); }
    V_ASSERT(!r || bits != 0);
}
V_UNIT(alloc_size_of) {
    unsigned n; Al a = anyAlloc(&n); uint32_t k = v_in32("k"); v_assume(k < n);
    v_throws(!a.m_fill_map[k]);
    V_ASSERT(a.getAllocSize(a.m_address + (uint32_t)k * a.m_stride) == a.m_stride);
    V_ASSERT(a.m_fill_map[k]);
    v_cover("done");
}
V_UNIT(alloc_free_unit) {
    unsigned n; Al a = anyAlloc(&n), b = a; uint32_t k = v_in32("k"); v_assume(k < n);
    v_throws(!b.m_fill_map[k]);
    bool more = a.deallocUnit(a.m_address + (uint32_t)k * a.m_stride);
    V_ASSERT(b.m_fill_map[k]);
    V_ASSERT(a.m_fill_map.m_data == (b.m_fill_map.m_data & ~(1ull << k)));
    V_ASSERT(more == !a.empty() && a.m_address == b.m_address && a.m_stride == b.m_stride);
    v_cover("done");
}
// contract of the downsizing of the fill map (proved: fm_downsize)
static unsigned c_fmDown(FM *f, unsigned m) {
    unsigned n = f->size(); v_require(m >= 1, "at least one unit");
    uint64_t d = v_fresh64(); v_assume(d <= n); uint64_t old = f->m_data, bits = old & lowmask(n);
    if (d) { v_assume(d >= m && d < n); uint64_t m2 = n - d; v_assume(m2 == 24 || m2 == 8 || m2 == 1); v_assume((bits & ~lowmask((unsigned)m2)) == 0);
        uint64_t id = m2 == 24 ? 1 : m2 == 8 ? 2 : 3; f->m_data = (old & FLAGS) | bits | (id << 56); }
    return (unsigned)d;
}
V_UNIT(alloc_reclaim) {
    v_replace("db0::CRDT_Allocator::FillMap::tryDownsize(unsigned int)", (void *)c_fmDown);
    unsigned n; Al a = anyAlloc(&n), b = a; uint32_t m = v_in32("min"); v_assume(m >= 1);
    Bl bl = a.reclaimSpace(m);
    unsigned n2 = a.getUnitCount();
    V_ASSERT(n2 <= n && bl.m_size == (n - n2) * a.m_stride);
    V_ASSERT(bl.m_size == 0 || bl.m_size >= m);
    V_ASSERT(bl.m_size == 0 || bl.m_address == a.m_address + a.size());
    V_ASSERT((b.m_fill_map.m_data & lowmask(n)) == (a.m_fill_map.m_data & lowmask(n2)));    // no live unit dropped
    v_cover("done");
}
V_UNIT(alloc_can_reclaim) {
    unsigned n; FM f = anyMap(&n, nullptr); unsigned m = v_in32("min"); v_assume(m >= 1);
    FM g = f; V_ASSERT(f.canDownsize(m) == (g.tryDownsize(m) != 0)); v_cover("done");
}
// ---- blanks: the aligned part lies inside the blank
V_UNIT(blank_aligned) {
    uint64_t sh = v_in64("shift"); v_assume(sh >= 4 && sh <= 20); sh = v_case(sh, 21);
    uint32_t ps = 1u << sh, mask = ps - 1;
    V_ASSERT(db0::getPageMask(ps) == mask);
    Bl b(v_in32("size"), v_in32("address")); v_assume((uint64_t)b.m_size + b.m_address <= 0xf0000000ull && b.m_size > 0);
    uint32_t as = b.getAlignedSize(mask, ps);
    V_ASSERT(as <= b.m_size);
    if (as) { uint32_t aa = b.getAlignedAddress(mask, ps); V_ASSERT((aa & mask) == 0 && aa >= b.m_address && (uint64_t)aa + as == (uint64_t)b.m_address + b.m_size && aa - b.m_address < ps); v_cover("some"); }
    else { v_cover("none"); uint64_t next = ((uint64_t)b.m_address + mask) & ~(uint64_t)mask; V_ASSERT(next >= (uint64_t)b.m_address + b.m_size); }
}
