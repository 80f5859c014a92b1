// The encodings behind the page indexes: compressed items, block headers and chains of differences.
#include <v.h>
#include <vrt.hpp>
#include <dbzero/core/storage/SparseIndex.cpp>
#include <dbzero/core/storage/DiffIndex.cpp>
#include <dbzero/core/memory/Address.cpp>
#include <dbzero/core/serialization/Foundation.cpp>
using namespace db0;
typedef SparseIndex::BlockHeader H; typedef SparseIndexBase<DI_Item, DI_CompressedItem>::BlockHeader DH;
static SI_Item anyItem() { uint64_t p = v_in64("page"); v_assume(p < (1ull << 56)); uint32_t s = v_in32("state"); uint64_t l = v_in64("loc"); v_assume(l < (1ull << 40)); return SI_Item(p, s, l); }
static bool lt(uint64_t p, uint32_t s, uint64_t q, uint32_t t) { return (p < q) | ((p == q) & (s < t)); }
V_UNIT(item_roundtrip) {
    SI_Item i = anyItem(); uint32_t first = (uint32_t)(i.m_page_num >> 24); SI_CompressedItem c(first, i); SI_Item r = c.uncompress(first);
    V_ASSERT((r.m_page_num == i.m_page_num) & (r.m_state_num == i.m_state_num) & (r.m_storage_page_num == i.m_storage_page_num)); V_ASSERT(r == i);
    V_ASSERT((c.getStateNum() == i.m_state_num) & (c.getStoragePageNum() == i.m_storage_page_num) & (c.getPageNum(first) == i.m_page_num) & (c.getCompressedPageNum() == (i.m_page_num & 0xffffff)));
    v_cover("done");
}
// a location that does not fit is refused, never truncated
V_UNIT(item_location_limit) {
    uint64_t p = v_in64("page"); v_assume(p < (1ull << 56)); uint64_t l = v_in64("loc"); v_throws(l >= (1ull << 40));
    SI_CompressedItem c((uint32_t)(p >> 24), SI_Item(p, v_in32("state"), l)); V_ASSERT(l < (1ull << 40)); V_ASSERT(c.getStoragePageNum() == l); v_cover("fits");
}
// items of one block order like (page, state) whatever their locations; search keys order the same way
V_UNIT(item_order) {
    SI_Item a = anyItem(), b = anyItem(); v_assume(a.m_page_num >> 24 == b.m_page_num >> 24); uint32_t first = (uint32_t)(a.m_page_num >> 24);
    SI_CompressedItem x(first, a), y(first, b), k(first, b.m_page_num, b.m_state_num); bool less = lt(a.m_page_num, a.m_state_num, b.m_page_num, b.m_state_num), more = lt(b.m_page_num, b.m_state_num, a.m_page_num, a.m_state_num);
    SI_CompressedItemCompT comp; SI_CompressedItemEqualT eq;
    V_ASSERT(comp(x, y) == less); V_ASSERT(comp(x, k) == less); V_ASSERT(comp(k, x) == more); V_ASSERT(eq(x, y) == (!less & !more)); V_ASSERT(eq(x, k) == (!less & !more)); v_cover("done");
}
V_UNIT(item_compare) {
    SI_Item a = anyItem(), b = anyItem(); SI_ItemCompT c; SI_ItemEqualT e; std::pair<uint64_t, uint32_t> kb(b.m_page_num, b.m_state_num), ka(a.m_page_num, a.m_state_num);
    bool less = lt(a.m_page_num, a.m_state_num, b.m_page_num, b.m_state_num), same = (a.m_page_num == b.m_page_num) & (a.m_state_num == b.m_state_num);
    V_ASSERT(c(a, b) == less); V_ASSERT(c(a, kb) == less); V_ASSERT(c(ka, b) == less); V_ASSERT(e(a, b) == same); V_ASSERT(e(a, kb) == same); V_ASSERT(e(ka, b) == same); V_ASSERT((a == b) == (same & (a.m_storage_page_num == b.m_storage_page_num))); v_cover("done");
}
V_UNIT(block_header) {
    SI_Item a = anyItem(), b = anyItem(); H h; SI_CompressedItem x = h.compressFirst(a); SI_Item r = h.uncompress(x); V_ASSERT(r == a); V_ASSERT(h.getPageNum(x) == a.m_page_num); V_ASSERT(h.canFit(a));
    bool fit = h.canFit(b); V_ASSERT(fit == (a.m_page_num >> 24 == b.m_page_num >> 24)); V_ASSERT(h.canFit(std::make_pair(b.m_page_num, b.m_state_num)) == fit);
    // an item that does not fit lies wholly before or after every item of the block
    if (!fit) { v_cover("does not fit"); V_ASSERT((b.m_page_num > a.m_page_num) == (b.m_page_num >> 24 > (uint64_t)h.m_first_page_num)); return; }
    v_cover("fits"); SI_CompressedItem y = h.compress(b); SI_Item q = h.uncompress(y); V_ASSERT(q == b); SI_CompressedItem k = h.compress(std::make_pair(b.m_page_num, b.m_state_num)); V_ASSERT(k.getKey() == y.getKey());
}
// ---- chains of differences
typedef DI_Item::DiffArrayT A; typedef o_packed_int_pair<uint32_t, uint64_t> P;
static DI_Item anyChain() { SI_Item i = anyItem(); DI_Item d(i.m_page_num, i.m_state_num, i.m_storage_page_num); unsigned char *b = (unsigned char *)v_buf("chain", 20, 1); for (int k = 0; k < 20; k++) d.m_diff_data[k] = b[k]; return d; }
V_UNIT(diff_roundtrip) {
    DI_Item d = anyChain(); uint32_t first = (uint32_t)(d.m_page_num >> 24); DH h; DI_CompressedItem c = h.compressFirst(d); DI_Item r = h.uncompress(c);
    V_ASSERT((r.m_page_num == d.m_page_num) & (r.m_state_num == d.m_state_num) & (r.m_storage_page_num == d.m_storage_page_num)); int k = (int)v_case((v_assume(1), v_in64("k") & 31), 32); if (k < 20) V_ASSERT(r.m_diff_data[k] == d.m_diff_data[k]);
    V_ASSERT(c.getStateNum() == d.m_state_num && h.getPageNum(c) == d.m_page_num); v_cover("done");
}
V_UNIT(chain_starts_empty) {
    DI_Item d(v_in64("page"), v_in32("state"), v_in64("loc")); auto it = d.beginDiff(); V_ASSERT(it); uint32_t s = 0; uint64_t l = 0; V_ASSERT(!it.next(s, l)); V_ASSERT(!it.next(s)); v_cover("done");
    DI_Item e; auto j = e.beginDiff(); V_ASSERT(!j.next(s)); V_ASSERT(!e);
    it.reset(); V_ASSERT(!it);
}
// appending a change: the bytes of the changes already there are untouched, and reading on from the old end yields
// exactly the appended change and then the end; a chain without room is left alone
V_UNIT(chain_append) {
    DI_Item d = anyChain(); uint32_t first = (uint32_t)(d.m_page_num >> 24); uint64_t n = v_in64("used"); v_assume(n < 20); n = v_case(n, 20); d.m_diff_data[0] = (unsigned char)n;
    DI_CompressedItem c(first, d); DI_CompressedItem before = c;
    uint32_t st = v_in32("new_state"); uint64_t loc = v_in64("new_loc"); v_assume(st >= d.m_state_num); v_assume((loc >= d.m_storage_page_num) & (loc < (1ull << 40)));
    uint32_t rs = st; uint64_t rl = loc; bool room = c.beginAppend(rs, rl);
    for (int k = 0; k < 20; k++) v_assert(c.m_diff_data[k] == before.m_diff_data[k], "asking for room changes nothing");
    if (!room) { v_cover("no room"); V_ASSERT((rs == st) & (rl == loc)); return; }
    v_cover("room"); c.append(rs, rl); V_ASSERT((c.m_high_bits == before.m_high_bits) & (c.m_low_bits == before.m_low_bits));
    unsigned m = c.m_diff_data[0]; V_ASSERT(m > n && m <= 19);
    for (unsigned k = 1; k <= n; k++) v_assert(c.m_diff_data[k] == before.m_diff_data[k], "earlier changes of the chain are untouched");
    DI_Item e = c.uncompress(first); const A &a = A::__const_ref(e.m_diff_data.data());
    DI_Item::ConstIterator it(e.m_state_num, e.m_storage_page_num, A::ConstIterator(e.m_diff_data.data() + 1 + n), a.end());
    uint32_t gs = 0; uint64_t gl = 0; V_ASSERT(it.next(gs, gl)); V_ASSERT((gs == st) & (gl == loc)); V_ASSERT(!it.next(gs, gl));
    DI_Item::ConstIterator it2(e.m_state_num, e.m_storage_page_num, A::ConstIterator(e.m_diff_data.data() + 1 + n), a.end()); gs = 0; V_ASSERT(it2.next(gs)); V_ASSERT(gs == st); V_ASSERT(!it2.next(gs));
    V_ASSERT(a.begin() == A::ConstIterator(e.m_diff_data.data() + 1));
}
// ---- searching a chain, over the contract of its iterator (the k-th call yields the k-th recorded state; a chain of
// 20 bytes holds at most 9 changes of at least two bytes each)
static uint32_t g_st[9]; static unsigned g_n, g_pos;
static bool c_next(DI_Item::ConstIterator *, uint32_t *s) { if (g_pos >= g_n) return false; *s = g_st[g_pos++]; return true; }
static DI_Item chain(uint32_t &q) {
    v_replace("db0::DI_Item::ConstIterator::next(unsigned int&)", (void *)c_next);
    DI_Item d(v_in64("page"), v_in32("state"), v_in64("loc")); uint64_t n = v_in64("n"); v_assume(n < 10); g_n = (unsigned)v_case(n, 10); g_pos = 0; uint32_t prev = d.m_state_num; v_assume(prev >= 1);
    for (unsigned i = 0; i < g_n; i++) { g_st[i] = v_in32("chain_state"); v_assume(g_st[i] > prev); prev = g_st[i]; } q = v_in32("query"); v_assume(q >= 1); return d;
}
V_UNIT(chain_lower) {
    uint32_t q; DI_Item d = chain(q); uint32_t r = d.findLower(q), want = 0; if (d.m_state_num <= q) want = d.m_state_num; for (unsigned i = 0; i < g_n; i++) want = (uint32_t)v_ite(g_st[i] <= q, g_st[i], want); V_ASSERT(r == want); v_cover("done");
}
V_UNIT(chain_upper) {
    uint32_t q; DI_Item d = chain(q); uint32_t r = d.findUpper(q), want = 0; for (unsigned i = g_n; i-- > 0;) want = (uint32_t)v_ite(g_st[i] >= q, g_st[i], want); want = (uint32_t)v_ite(d.m_state_num >= q, d.m_state_num, want); V_ASSERT(r == want); v_cover("done");
}
