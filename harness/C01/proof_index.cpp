// Recording and looking up page versions, over the contract of the ordered tree (contracts/...).
#include <v.h>
#include <vrt.hpp>
#include <dbzero/core/storage/SparseIndex.cpp>
#include <dbzero/core/storage/DiffIndex.cpp>
#include <dbzero/core/memory/Address.cpp>
using namespace db0;
typedef SparseIndexBase<DI_Item, DI_CompressedItem> DB; typedef SparseIndex SB;
static bool le(uint64_t p, uint32_t s, uint64_t q, uint32_t t) { return (p < q) | ((p == q) & (s <= t)); }
// ghost state: the key searched for, its neighbours in the tree (L: the greatest item not after it, U: the smallest
// item not before it), what was inserted, the tree header
static bool g_hasL, g_hasU, g_ins, g_isEmpty; static SI_Item g_L, g_U, g_new; static DI_Item g_Ld, g_Ud; static uint64_t g_page; static uint32_t g_state;
static void key(uint64_t p, uint32_t s) { v_require((p == g_page) & (s == g_state), "searched by the page and transaction asked for"); }
template <class I> static void key(const I &k) { if constexpr (std::is_base_of_v<SI_Item, I>) key(k.m_page_num, k.m_state_num); else key(k.first, k.second); }
namespace db0 {
    static unsigned char g_hdr[sizeof(SB::BlockHeader)], g_dhdr[sizeof(DB::BlockHeader)];
    static SB::o_sparse_index_header g_th; static DB::o_sparse_index_header g_dth; static unsigned char g_c[sizeof(DI_CompressedItem)];
    template <> struct TreeContract<SB::IndexT> {
        typedef SI_Item I;
        static void insert(const I &i) { v_require(!g_ins, "inserted once"); g_ins = true; g_new = i; }
        template <class K> static std::optional<I> lower(const K &k) { key(k); if (!g_hasL) return {}; return g_L; }
        template <class K> static std::optional<I> upper(const K &k) { key(k); if (!g_hasU) return {}; return g_U; }
        template <class K> static const SI_CompressedItem *lowerPtr(const K &k) { return nullptr; }
        static const SB::BlockHeader *header() { return (SB::BlockHeader *)g_hdr; } static auto &th() { return g_th; } static bool empty() { return g_isEmpty; }
    };
    template <> struct TreeContract<DB::IndexT> {
        typedef DI_Item I;
        static void insert(const I &i) { v_require(!g_ins, "inserted once"); g_ins = true; g_new = i; V_ASSERT(i.m_diff_data[0] == 0); }
        template <class K> static std::optional<I> lower(const K &k) { key(k); if (!g_hasL) return {}; return g_Ld; }
        template <class K> static std::optional<I> upper(const K &k) { key(k); if (!g_hasU) return {}; return g_Ud; }
        template <class K> static const DI_CompressedItem *lowerPtr(const K &k) { key(k); return g_hasL ? (DI_CompressedItem *)g_c : nullptr; }
        static const DB::BlockHeader *header() { return (DB::BlockHeader *)g_dhdr; } static auto &th() { return g_dth; } static bool empty() { return g_isEmpty; }
    };
}
static unsigned char g_si[sizeof(SparseIndex)] __attribute__((aligned(16))), g_di[sizeof(DiffIndex)] __attribute__((aligned(16))); static unsigned char g_log[sizeof(std::vector<uint64_t>)] __attribute__((aligned(16)));
static uint64_t g_np; static uint32_t g_ms;
template <class X> static X &index(void *b) {
    X *x = (X *)b; g_np = v_in64("next_page"); g_ms = v_in32("max_state"); v_assume(g_np <= (1ull << 41)); x->m_next_page_num = g_np; x->m_max_state_num = g_ms; x->m_change_log_ptr = new (g_log) std::vector<uint64_t>(); g_th.m_next_page_num = g_dth.m_next_page_num = g_np; g_th.m_max_state_num = g_dth.m_max_state_num = g_ms; g_ins = false; g_isEmpty = v_inbool("empty"); return *x;
}
static void neighbours() {
    g_page = v_in64("page"); g_state = v_in32("state"); v_assume(g_page < (1ull << 56) && g_state >= 1);
    g_hasL = v_inbool("hasL"); g_hasU = v_inbool("hasU"); g_L = SI_Item(v_in64("l_page"), v_in32("l_state"), v_in64("l_loc")); g_U = SI_Item(v_in64("u_page"), v_in32("u_state"), v_in64("u_loc"));
    v_assume(g_L.m_page_num < (1ull << 56) && g_L.m_storage_page_num < (1ull << 40) && g_L.m_state_num >= 1); v_assume(g_U.m_page_num < (1ull << 56) && g_U.m_storage_page_num < (1ull << 40));
    v_assume(le(g_L.m_page_num, g_L.m_state_num, g_page, g_state)); v_assume(le(g_page, g_state, g_U.m_page_num, g_U.m_state_num));
    DI_Item::DiffBufT b; unsigned char *x = (unsigned char *)v_buf("chain", 20, 1); for (int i = 0; i < 20; i++) b[i] = x[i]; g_Ld = DI_Item(g_L, b); g_Ud = DI_Item(g_U, b);
}
// the newest full image not after the transaction: for every recorded image X of the page that qualifies, the answer is one
// that qualifies and is not older; none recorded, none reported
V_UNIT(full_lookup) {
    neighbours(); SparseIndex &s = index<SparseIndex>(g_si); int how = (int)v_case((v_assume(1), v_in64("how") & 1), 2); SI_Item r = how ? s.lookup(g_page, g_state) : s.lookup(SI_Item(g_page, g_state));
    bool hasX = v_inbool("hasX"); uint32_t x = v_in32("x_state"); if (hasX) { v_assume(x >= 1 && x <= g_state); v_assume(g_hasL && le(g_page, x, g_L.m_page_num, g_L.m_state_num)); }   // X is in the tree, so L is not before it
    if (hasX) { v_cover("recorded"); V_ASSERT(!!r); V_ASSERT((r.m_page_num == g_page) & (r.m_state_num >= x) & (r.m_state_num <= g_state) & (r.m_storage_page_num == g_L.m_storage_page_num)); }
    else if (!g_hasL || g_L.m_page_num != g_page) { v_cover("none"); V_ASSERT(!r); }
}
V_UNIT(upper_lookup) {
    neighbours(); SparseIndex &s = index<SparseIndex>(g_si); SI_Item r = s.findUpper(g_page, g_state); bool has = g_hasU && g_U.m_page_num == g_page; V_ASSERT(!!r == (has && g_U.m_state_num != 0)); if (has) { v_cover("found"); V_ASSERT(r == g_U); }
}
V_UNIT(full_record) {
    SparseIndex &s = index<SparseIndex>(g_si); SI_Item i(v_in64("page"), v_in32("state"), v_in64("loc")); v_assume(i.m_storage_page_num < (1ull << 40)); s.insert(i);
    V_ASSERT(g_ins && g_new == i); V_ASSERT(s.m_next_page_num == (i.m_storage_page_num >= g_np ? i.m_storage_page_num + 1 : g_np)); V_ASSERT(g_th.m_next_page_num == s.m_next_page_num);
    V_ASSERT(s.getMaxStateNum() == (i.m_state_num > g_ms ? i.m_state_num : g_ms)); V_ASSERT(g_th.m_max_state_num == s.m_max_state_num); V_ASSERT(s.m_change_log_ptr->size() == 1 && (*s.m_change_log_ptr)[0] == i.m_page_num); v_cover("done");
    auto n = s.getNextStoragePageNum(); V_ASSERT(n.has_value() == !g_isEmpty); if (n) V_ASSERT(*n == s.m_next_page_num);
    s.refresh(); V_ASSERT(s.m_next_page_num == g_th.m_next_page_num && s.m_max_state_num == g_th.m_max_state_num);
}
// ---- differences
static bool g_room, g_appended; static uint32_t g_relS; static uint64_t g_relL;
static bool c_begin(const DI_CompressedItem *c, uint32_t *s, uint64_t *l) { v_require(*s >= g_L.m_state_num && *l >= g_L.m_storage_page_num, "relative to the item extended"); if (!g_room) return false; *s -= g_L.m_state_num; *l -= g_L.m_storage_page_num; return true; }
static void c_append(DI_CompressedItem *c, uint32_t s, uint64_t l) { v_require(c == (DI_CompressedItem *)g_c && !g_appended, "appended once, to the item found"); g_appended = true; g_relS = s; g_relL = l; }
V_UNIT(diff_record) {
    neighbours(); DiffIndex &d = index<DiffIndex>(g_di); v_replace("db0::DI_CompressedItem::beginAppend(unsigned int&, unsigned long&) const", (void *)c_begin); v_replace("db0::DI_CompressedItem::append(unsigned int, unsigned long)", (void *)c_append);
    uint64_t loc = v_in64("loc"); bool ov = v_inbool("overflow"); v_assume(loc < (1ull << 40)); v_assume(loc >= g_L.m_storage_page_num); g_room = v_inbool("room"); g_appended = false;
    DB::BlockHeader h; DI_CompressedItem c = h.compressFirst(g_Ld); memcpy(g_c, &c, sizeof(c)); memcpy(g_dhdr, &h, sizeof(h));
    d.insert(g_page, g_state, loc, ov);
    bool same = g_hasL && g_L.m_page_num == g_page;
    V_ASSERT(g_appended == (same & g_room)); V_ASSERT(g_ins == !g_appended);
    if (g_appended) { v_cover("chained"); V_ASSERT((g_L.m_state_num + g_relS == g_state) & (g_L.m_storage_page_num + g_relL == loc)); } else { v_cover("new item"); V_ASSERT((g_new.m_page_num == g_page) & (g_new.m_state_num == g_state) & (g_new.m_storage_page_num == loc)); }
    uint64_t last = loc + (ov ? 1 : 0); V_ASSERT(d.m_next_page_num == (last >= g_np ? last + 1 : g_np)); V_ASSERT(g_dth.m_next_page_num == d.m_next_page_num); V_ASSERT(d.getMaxStateNum() == (g_state > g_ms ? g_state : g_ms)); V_ASSERT(g_dth.m_max_state_num == d.m_max_state_num);
    V_ASSERT(d.m_change_log_ptr->size() == 1 && (*d.m_change_log_ptr)[0] == g_page);
}
// searching a chain: contracts proved in proof_items.cpp (chain_lower, chain_upper)
static uint32_t g_chainUp, g_chainLow; static uint32_t c_up(const DI_Item *d, uint32_t s) { v_require((s == g_state) & (d->m_page_num == g_L.m_page_num) & (d->m_state_num == g_L.m_state_num), "the item found is searched"); return g_chainUp; }
static uint32_t c_low(const DI_Item *d, uint32_t s) { v_require((s == g_state) & (d->m_state_num == g_L.m_state_num), "the item found is searched"); return g_chainLow; }
// the item holding the smallest difference of the page not before the transaction
V_UNIT(diff_upper) {
    neighbours(); DiffIndex &d = index<DiffIndex>(g_di); v_replace("db0::DI_Item::findUpper(unsigned int) const", (void *)c_up); g_chainUp = v_in32("in_chain"); v_assume(g_chainUp == 0 || g_chainUp >= g_state);
    DB::BlockHeader h; DI_CompressedItem c = h.compressFirst(g_Ld); memcpy(g_c, &c, sizeof(c)); memcpy(g_dhdr, &h, sizeof(h));
    DI_Item r = d.findUpper(g_page, g_state); bool inL = g_hasL && g_L.m_page_num == g_page && g_chainUp != 0, inU = g_hasU && g_U.m_page_num == g_page;
    if (inL) { v_cover("within the item at or before"); V_ASSERT((r.m_page_num == g_page) & (r.m_state_num == g_L.m_state_num) & (r.m_storage_page_num == g_L.m_storage_page_num)); for (int k = 0; k < 20; k++) v_assert(r.m_diff_data[k] == g_Ld.m_diff_data[k], "its chain is returned"); }
    else if (inU) { v_cover("next item"); V_ASSERT((r.m_page_num == g_page) & (r.m_state_num == g_U.m_state_num) & (r.m_storage_page_num == g_U.m_storage_page_num)); }
    else { v_cover("none"); V_ASSERT(!r); }
}
V_UNIT(diff_lower) {
    neighbours(); DiffIndex &d = index<DiffIndex>(g_di); v_replace("db0::DI_Item::findLower(unsigned int) const", (void *)c_low); g_chainLow = v_in32("in_chain"); uint32_t r = d.findLower(g_page, g_state); bool has = g_hasL && g_L.m_page_num == g_page; V_ASSERT(r == (has ? g_chainLow : 0)); if (has) v_cover("found");
}
