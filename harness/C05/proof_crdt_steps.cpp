// The allocator's own steps over the contracts of its containers (ordered sets of allocations, blanks and stripes).
#include <v.h>
#include <vrt.hpp>
#include <dbzero/core/crdt/CRDT_Allocator.cpp>
#include <dbzero/core/memory/utils.cpp>
using namespace db0;
typedef CRDT_Allocator CA; typedef CA::Alloc Al; typedef CA::Blank Bl; typedef CA::Stripe St;
// ---- ghost state
static Al g_left, g_mid, g_right, g_new; static bool g_hasLeft, g_hasRight, g_midErased, g_added, g_stripeErased, g_stripeAdded;
static Bl g_e[3], g_i[3], g_a[3]; static unsigned g_ne, g_ni, g_na; static uint32_t g_unit; static Bl g_cand[4]; static unsigned g_nc; static bool g_alignedIndex;
static St g_stripe(1, 0); static bool g_noMore;
static uint32_t g_page;
static bool same(const Bl &a, uint32_t addr, uint32_t size) { return (a.m_address == addr) & (a.m_size == size); }
namespace db0 {
    template <> struct SetContract<CA::AllocSetT> {
        typedef CA::AllocSetT S; typedef S::ConstItemIterator It;
        template <class K> static bool window(const K &k, S::WindowT &w) {
            if (k < g_mid.m_address) return false;
            if (g_hasLeft) w[0].first = &g_left; w[1].first = &g_mid; if (g_hasRight) w[2].first = &g_right; return true;
        }
        static void erase(const Al *a) { v_require(a == &g_mid && !g_midErased, "the emptied allocation is the one erased"); g_midErased = true; }
        static bool empty() { return g_midErased && !g_hasLeft && !g_hasRight; }
        static It find_max() { It i; i.first = g_hasRight ? &g_right : g_hasLeft ? &g_left : &g_mid; return i; }
        static Al *emplace(uint32_t a, uint32_t st, uint32_t n, bool s) { v_require(!g_added, "one allocation added"); g_added = true; g_new = Al(a, st, n, s); return &g_new; }
        static It find_equal(uint32_t) { return {}; } static void insert(const Al &) {} static It next(int) { return {}; } template <class K> static It lower_equal_bound(const K &k) { It i; if (!(k < g_mid.m_address)) i.first = &g_mid; return i; }
    };
    template <> struct SetContract<CA::StripeSetT> {
        typedef CA::StripeSetT::ConstItemIterator It;
        static void insert(const St &s) { const Al &a = g_added ? g_new : g_mid; v_require(!g_stripeAdded && s.m_stride == a.m_stride && s.m_address == a.m_address, "stripe of this allocation, once"); g_stripeAdded = true; }
        static It find_equal(const St &s) { It i; if (g_mid.hasStripe() && s.m_stride == g_mid.m_stride && s.m_address == g_mid.m_address) { i.first = &g_stripe; } return i; }
        static void erase(const St *) { v_require(!g_stripeErased, "stripe erased once"); g_stripeErased = true; }
        template <class K> static It lower_equal_bound(const K &) { return {}; } static It next(int) { return {}; }
    };
    struct BlankSet {
        static void erase(const Bl *b) { v_require(g_ne < 3, "at most two blanks merged"); g_e[g_ne++] = *b; }
        static void insert(const Bl &b) { v_require(g_ni < 3, "at most two blanks given back"); g_i[g_ni++] = b; }
        static Bl any() { Bl b(v_in32("blank_size"), v_in32("blank_addr")); v_assume(b.m_size > 0 && (uint64_t)b.m_address + b.m_size <= 0xf0000000ull); return b; }
        static bool empty() { return false; }
    };
    // every registered blank is also present in the primary index
    template <> struct SetContract<CA::BlankSetT> : BlankSet {
        typedef CA::BlankSetT::ConstItemIterator It;
        static It find_equal(const Bl &b) { It i; static Bl f[3]; static unsigned n; unsigned k = n++ % 3; f[k] = b; i.first = &f[k]; return i; }
        static It upper_equal_bound(const Bl &k) { It i; if (v_inbool("none")) return i; Bl b = any(); v_assume(b.m_size >= k.m_size); g_cand[g_nc] = b; i.first = &g_cand[g_nc++]; return i; }
        static It next(int left) { It i; if (left <= 0 || v_inbool("end")) return i; v_require(g_nc < 4, "iteration bound"); g_cand[g_nc] = any(); i.first = &g_cand[g_nc++]; return i; }
        static It find_max() { return {}; }
    };
    template <> struct SetContract<CA::AlignedBlankSetT> {
        typedef CA::AlignedBlankSetT::ConstItemIterator It;
        static void erase(const Bl *b) { v_require(g_na < 3, "aligned"); g_a[g_na++] = *b; } static void insert(const Bl &) {} static bool empty() { return false; }
        static It find_equal(const Bl &b) { It i; static Bl f[3]; static unsigned n; unsigned k = n++ % 3; f[k] = b; i.first = &f[k]; return i; }
        // only blanks with an aligned part are in this index, ordered by the size of that part
        static Bl any() { Bl b = BlankSet::any(); v_assume(b.getAlignedSize(g_page - 1, g_page) > g_page / 4 && b.getAlignedSize(g_page - 1, g_page) < 4 * g_page); return b; }
        static It upper_equal_bound(const Bl &k) { It i; if (v_inbool("none")) return i; Bl b = any(); v_assume(b.getAlignedSize(g_page - 1, g_page) >= k.m_size); g_cand[g_nc] = b; i.first = &g_cand[g_nc++]; return i; }
        static It next(int left) { It i; if (left <= 0 || v_inbool("end")) return i; v_require(g_nc < 4, "iteration bound"); g_cand[g_nc] = any(); i.first = &g_cand[g_nc++]; return i; }
        static It find_max() { return {}; }
    };
}
static unsigned char g_ca[sizeof(CA)] __attribute__((aligned(16))); static CA::AllocSetT g_allocs; static CA::BlankSetT g_blanks; static CA::AlignedBlankSetT g_ablanks; static CA::StripeSetT g_stripes;
static uint32_t g_size;
static bool c_no(const CA *) { return false; } static bool c_yes(const CA *) { return true; }
static bool g_red; static bool c_red(const CA *) { return g_red; }
static uint32_t g_bound; static bool g_bounded;
static void c_clear(void *) {}
static CA &newCA() {
    g_page = 4096; g_size = v_in32("slab_size"); v_assume(g_size >= 16 * g_page && g_size <= 0x40000000u);
    CA *c = (CA *)g_ca; new (c) CA(g_allocs, g_blanks, g_ablanks, g_stripes, g_size, g_page, {}); return *c;
}
// records of arbitrary geometry: only their extent [address, address + size) matters here, so the product
// units * stride is a ghost value (Alloc::size / capacity are replaced by it; the product itself: proof_crdt.cpp)
static uint32_t g_midSize, g_leftSize, g_rightSize;
static uint32_t c_size(const Al *a) { return a->m_address == g_mid.m_address ? g_midSize : g_hasLeft && a->m_address == g_left.m_address ? g_leftSize : g_rightSize; }
// contract of Alloc::deallocUnit (proved in proof_crdt.cpp): clears one live unit's bit, nothing else
static bool c_dealloc(Al *a, uint32_t) { uint64_t k = v_in64("unit"); v_assume(k < 56 && ((a->m_fill_map.m_data >> k) & 1)); a->m_fill_map.m_data &= ~(1ull << k); return !a->empty(); }
static void freeStep(bool left, bool right) {
    CA &c = newCA();
    v_replace("db0::CRDT_Allocator::Alloc::deallocUnit(unsigned int)", (void *)c_dealloc); v_replace("db0::CRDT_Allocator::Alloc::size() const", (void *)c_size); v_replace("db0::CRDT_Allocator::Alloc::capacity() const", (void *)c_size);
    v_replace("db0::CRDT_Allocator::Alloc::endAddr() const", (void *)c_size);
    v_replace("db0::CRDT_Allocator::criticalZone() const", (void *)c_no);
    v_replace("db0::CRDT_Allocator::redZone() const", (void *)c_red); v_replace("db0::L0_Cache<4>::clear()", (void *)c_clear);
    g_mid = Al(); g_mid.m_stride = v_in32("stride"); g_mid.m_address = v_in32("address"); g_mid.m_fill_map.m_data = v_in64("fill"); v_assume(g_mid.m_stride >= 1);
    v_assume((g_mid.m_fill_map.m_data & ~(((1ull << 58) - 1) | crdt::HAS_STRIPE_BIT)) == 0);
    uint32_t midEnd = v_in32("end"); v_assume(midEnd > g_mid.m_address); g_midSize = midEnd - g_mid.m_address; g_size = v_in32("slab"); v_assume(g_size <= 0x40000000u); c.m_size = g_size;
    v_assume(midEnd <= g_size); g_hasLeft = left; g_hasRight = right; g_red = v_inbool("red");
    g_left = Al(); g_left.m_address = v_in32("left_addr"); uint32_t leftEnd = v_in32("left_end"); v_assume(g_left.m_address < leftEnd && leftEnd <= g_mid.m_address); g_leftSize = leftEnd - g_left.m_address;
    g_right = Al(); g_right.m_address = v_in32("right_addr"); v_assume(g_right.m_address >= midEnd && g_right.m_address <= g_size);
    Al before = g_mid; c.m_alloc_delta = 0; c.m_loss_delta = 0;
    uint32_t mEnd = midEnd, lo = left ? leftEnd : 0, hi = right ? g_right.m_address : g_size;
    uint64_t a = v_in32("a"); v_assume(a >= before.m_address && a < mEnd);
    c.free(a);
    if (!g_mid.empty()) {
        v_cover("others live"); V_ASSERT(!g_midErased & (g_ne == 0) & (g_ni == 0) & (g_mid.m_address == before.m_address) & (g_mid.m_stride == before.m_stride));
        V_ASSERT(!g_stripeErased);
        if (g_stripeAdded) V_ASSERT(g_mid.hasStripe() & !before.hasStripe()); else V_ASSERT(g_mid.hasStripe() == before.hasStripe());
        V_ASSERT(before.hasStripe() | g_red | g_stripeAdded);        // the freed unit can be found again
        V_ASSERT(c.m_loss_delta == (!g_stripeAdded & !before.hasStripe() ? (int64_t)g_midSize : 0));
        V_ASSERT(c.m_alloc_delta == c.m_loss_delta - (int64_t)before.m_stride);
    } else {
        // the emptied record is replaced by one blank covering exactly the whole gap between its neighbours
        v_cover("last unit"); V_ASSERT(g_midErased & (g_stripeErased == before.hasStripe()) & !g_stripeAdded);
        V_ASSERT(g_ni == 1 && same(g_i[0], lo, hi - lo));
        unsigned k = 0; if (lo < before.m_address) { V_ASSERT(g_ne > k && same(g_e[k], lo, before.m_address - lo)); k++; }
        if (mEnd < hi) { V_ASSERT(g_ne > k && same(g_e[k], mEnd, hi - mEnd)); k++; }
        V_ASSERT(g_ne == k); V_ASSERT(c.m_alloc_delta == -(int64_t)before.m_stride);
    }
}
V_UNIT(free_step_alone) { freeStep(false, false); }
V_UNIT(free_step_left) { freeStep(true, false); }
V_UNIT(free_step_right) { freeStep(false, true); }
V_UNIT(free_step_both) { freeStep(true, true); }
// pulled blanks are large enough, and removed from the indexes they are in
static void pull(bool aligned) {
    CA &c = newCA(); uint32_t m = v_in32("min"); v_assume(m >= 1 && m < 0x20000000u); if (aligned) v_assume(m > g_page && m < 4 * g_page);
    g_bounded = v_inbool("bounded"); g_bound = v_in32("bound"); v_assume(g_bound < 0xe0000000u);
}
static bool c_inBounds(const CA *, const void *, const Bl *b, uint32_t size, std::optional<uint32_t> *) { return !g_bounded || v_inbool("in_bounds"); }
static void useBounds() {
    v_bounded("at most 4 candidate blanks visited");
    v_replace("bool db0::CRDT_Allocator::inBounds<*", (void *)c_inBounds);
}
V_UNIT(pull_regular) {
    CA &c = newCA(); useBounds(); uint32_t m = v_in32("min"); v_assume(m >= 1 && m < 0x20000000u); g_bounded = v_inbool("bounded");
    auto b = c.tryPullBlank(g_blanks, m);
    if (!b) { v_cover("none"); V_ASSERT(g_ne == 0 && g_na == 0); return; }
    v_cover("some"); V_ASSERT(b->m_size >= m); V_ASSERT(g_ne == 1 && same(g_e[0], b->m_address, b->m_size));
    V_ASSERT(g_na == (c.isAligned(*b) ? 1u : 0u) && (g_na == 0 || same(g_a[0], b->m_address, b->m_size)));
}
V_UNIT(pull_aligned) {
    CA &c = newCA(); useBounds(); uint32_t m = v_in32("min"); v_assume(m > g_page && m < 4 * g_page); g_bounded = v_inbool("bounded");
    auto b = c.tryPullBlank(g_ablanks, m);
    if (!b) { v_cover("none"); V_ASSERT(g_ne == 0 && g_na == 0); return; }
    v_cover("some"); V_ASSERT(b->getAlignedSize(g_page - 1, g_page) >= m); V_ASSERT(g_ne == 1 && same(g_e[0], b->m_address, b->m_size) && g_na == 1 && same(g_a[0], b->m_address, b->m_size));
}
// contracts of the pull (above)
static uint32_t g_pullMin; static Bl g_pulled(0, 0); static bool g_pull;
static std::optional<Bl> c_pull(CA *, CA::BlankSetT *, uint32_t m) { if (v_inbool("no_blank")) return {}; Bl b = BlankSet::any(); v_assume(b.m_size >= m && (uint64_t)b.m_address + b.m_size <= g_size); g_pulled = b; g_pull = true; return b; }
static std::optional<Bl> c_pullA(CA *, CA::AlignedBlankSetT *, uint32_t m) { if (v_inbool("no_blank")) return {}; Bl b = BlankSet::any(); v_assume(b.getAlignedSize(g_page - 1, g_page) >= m && (uint64_t)b.m_address + b.m_size <= g_size); g_pulled = b; g_pull = true; return b; }
static void c_add(void *, CA::AllocSetT::ConstItemIterator *, Al *) {}
static void usePull() {
    v_replace("*tryPullBlank<db0::SGB_Tree<db0::CRDT_Allocator::Blank, db0::CRDT_Allocator::Blank::CompT*", (void *)c_pull);
    v_replace("*tryPullBlank<db0::SGB_Tree<db0::CRDT_Allocator::Blank, db0::CRDT_Allocator::Blank::AlignedCompT*", (void *)c_pullA);
    v_replace("db0::CRDT_Allocator::redZone() const", (void *)c_no); v_replace("db0::CRDT_Allocator::greenZone() const", (void *)c_yes);
    v_replace("db0::L0_Cache<4>::clear()", (void *)c_clear); v_replace("db0::L0_Cache<4>::addMutable*", (void *)c_add);
}
// the pulled blank is partitioned: front remainder, new record, back remainder
static void partition(uint64_t recAddr, uint64_t recSize) {
    uint64_t lo = g_pulled.m_address, hi = lo + g_pulled.m_size; unsigned k = 0;
    V_ASSERT(lo <= recAddr && recAddr + recSize <= hi);
    if (lo < recAddr) { V_ASSERT(g_ni > k && same(g_i[k], lo, recAddr - lo)); k++; }
    if (recAddr + recSize < hi) { V_ASSERT(g_ni > k && same(g_i[k], recAddr + recSize, hi - recAddr - recSize)); k++; }
    V_ASSERT(g_ni == k && g_stripeAdded);
}
V_UNIT(alloc_from_blanks) {
    CA &c = newCA(); usePull(); uint32_t s = v_in32("stride"); uint64_t id = v_in64("id"); v_assume(id < 4); id = v_case(id, 4); uint32_t n = crdt::SIZE_MAP[id]; v_assume(s >= 1 && s <= 0x00800000u);
    auto r = c.tryAllocFromBlanks(s, n);
    V_ASSERT(!!r == g_pull); if (!r) { V_ASSERT(!g_added && g_ni == 0); v_cover("none"); return; }
    v_cover("some"); V_ASSERT(g_added && *r == g_new.m_address && g_new.m_stride == s && g_new.getUnitCount() == n && g_new.hasStripe() && (g_new.m_fill_map.m_data & ((1ull << n) - 1)) == 1);
    partition(g_new.m_address, (uint64_t)s * n); V_ASSERT(c.m_max_addr >= g_new.m_address + s * n);
}
V_UNIT(aligned_from_blanks) {
    CA &c = newCA(); usePull(); uint32_t s = v_in32("size"); v_assume(s > g_page && s <= 0x00800000u);
    auto r = c.tryAlignedAllocFromBlanks(s);
    V_ASSERT(!!r == g_pull); if (!r) { V_ASSERT(!g_added && g_ni == 0); v_cover("none"); return; }
    v_cover("some"); V_ASSERT(g_added && *r == g_new.m_address && *r % g_page == 0 && g_new.m_stride == s && g_new.getUnitCount() == 1 && g_new.isFull() && g_new.hasStripe());
    partition(g_new.m_address, s); V_ASSERT(c.m_max_addr >= g_new.m_address + s);
}
