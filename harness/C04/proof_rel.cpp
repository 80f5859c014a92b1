// Contracts on the relative page mapping over the contract of its ordered tree (insert, greatest item not above a key):
// for every registered mapping, page and step.
#include <v.h>
#include <vrt.hpp>
#include <dbzero/core/memory/config.cpp>
#include <dbzero/core/storage/REL_Index.cpp>
using namespace db0;
static unsigned char g_mem[sizeof(REL_Index)] __attribute__((aligned(16)));
static unsigned g_ins; static uint64_t g_r, g_s; static bool g_has, g_empty; static uint64_t g_ir, g_is, g_key; static unsigned g_look;
static void c_insert(void *, const REL_Item &i) { g_ins++; g_r = i.m_rel_page_num; g_s = i.m_storage_page_num; }

static std::optional<REL_Item> c_lower(const void *, const uint64_t &k) { g_look = 1; g_key = k; if (g_has) return REL_Item(g_ir, g_is); return {}; }
static std::optional<REL_Item> c_lower_s(const void *, const REL_StoragePageNum &k) { g_look = 2; g_key = k.m_value; if (g_has) return REL_Item(g_ir, g_is); return {}; }
static bool c_empty(const void *) { return g_empty; }
// state: last registered step (storage page, relative number) and the largest relative number assigned
static REL_Index &state(bool open = true) {
    v_replace("*SGB_CompressedLookupTree<db0::REL_Item,*>::insert(*", (void *)c_insert); v_replace("*SGB_CompressedLookupTree<db0::REL_Item,*lower_equal_bound<unsigned long>(*", (void *)c_lower); v_replace("*SGB_CompressedLookupTree<db0::REL_Item,*lower_equal_bound<db0::REL_StoragePageNum>(*", (void *)c_lower_s);
    v_replace("*::empty() const", (void *)c_empty);
    auto &x = *(REL_Index *)g_mem; g_ins = g_look = 0; x.m_storage_page_num = v_in64("storage"); x.m_rel_page_num = v_in64("rel"); x.m_max_rel_page_num = v_in64("max");
    v_assume(x.m_storage_page_num < (1ull << 50)); v_assume(x.m_max_rel_page_num < (1ull << 50)); v_assume(x.m_rel_page_num <= x.m_max_rel_page_num); return x;
}
// the next page written: relative numbers assigned before stay, a new page never shares a number
V_UNIT(rel_assign) {
    auto &x = state(); uint64_t s0 = x.m_storage_page_num, r0 = x.m_rel_page_num, m0 = x.m_max_rel_page_num, p = v_in64("page"); bool first = v_in8("first") & 1; v_assume(p < (1ull << 50));
    // pages are written in increasing order: p is the page after, or one already numbered again
    uint64_t last = s0 + (m0 - r0); v_assume(p >= s0); v_assume(!(first & (p != s0)) | (p > last));
    uint64_t q = x.assignRelative(p, first);
    if (first && p != s0) { v_cover("new step"); V_ASSERT(g_ins == 1); V_ASSERT(g_r == m0 + 1); V_ASSERT(g_s == p); V_ASSERT(q == m0 + 1); V_ASSERT(x.m_storage_page_num == p); V_ASSERT(x.m_rel_page_num == q); V_ASSERT(x.m_max_rel_page_num == q);
        V_ASSERT(g_r > r0); V_ASSERT(g_s > s0); V_ASSERT(g_r - r0 <= g_s - s0); /* both orders agree and numbers of the previous step never reach this one */ }
    else { v_cover("same step"); V_ASSERT(g_ins == 0); V_ASSERT(q == r0 + (p - s0)); V_ASSERT(x.m_storage_page_num == s0); V_ASSERT(x.m_rel_page_num == r0); V_ASSERT(x.m_max_rel_page_num == (q > m0 ? q : m0)); }
    V_ASSERT((q > m0) == (p > last)); // a page not numbered before gets a number never used
    V_ASSERT(x.m_rel_page_num <= x.m_max_rel_page_num);
}
V_UNIT(rel_add) {
    auto &x = state(); g_empty = v_in8("empty") & 1; uint64_t s0 = x.m_storage_page_num, r0 = x.m_rel_page_num, m0 = x.m_max_rel_page_num, s = v_in64("s"), r = v_in64("r"); uint32_t n = v_in32("n"); v_assume(s >= s0); v_assume(s < (1ull << 50)); v_assume(r < (1ull << 50)); v_assume(r >= m0); v_assume(n >= 1);
    x.addMapping(s, r, n); V_ASSERT(x.m_max_rel_page_num == r + n - 1);
    if (!g_empty && s - s0 == r - r0) { v_cover("continued"); V_ASSERT(g_ins == 0); V_ASSERT(x.m_storage_page_num == s0); V_ASSERT(x.m_rel_page_num == r0); }
    else { v_cover("registered"); V_ASSERT(g_ins == 1); V_ASSERT(g_r == r); V_ASSERT(g_s == s); V_ASSERT(x.m_storage_page_num == s); V_ASSERT(x.m_rel_page_num == r); }
    uint64_t j = v_in64("j"); v_assume(j < n); V_ASSERT(x.m_storage_page_num + (r + j - x.m_rel_page_num) == s + j); // every page of the range is mapped
}
V_UNIT(rel_absolute) {
    auto &x = state(); g_has = v_in8("has") & 1; g_ir = v_in64("ir"); g_is = v_in64("is"); uint64_t q = v_in64("q"); v_assume(q < (1ull << 50)); v_assume(g_ir <= q); v_assume(g_is < (1ull << 50)); v_throws(!g_has);
    uint64_t s = x.getAbsolute(q); v_cover("found"); V_ASSERT(g_look == 1); V_ASSERT(g_key == q); V_ASSERT(s == g_is + (q - g_ir));
    // and back: the next step begins at storage page ns with relative number nr, nr - ir <= ns - is (rel_assign), and q < nr
    uint64_t nr = v_in64("nr"), ns = v_in64("ns"); v_assume(nr < (1ull << 50)); v_assume(ns < (1ull << 50)); v_assume(q < nr); v_assume(ns > g_is); v_assume(nr - g_ir <= ns - g_is); V_ASSERT(s >= g_is); V_ASSERT(s < ns); // so the same step is found
    uint64_t b = x.getRelative(s); V_ASSERT(g_look == 2); V_ASSERT(g_key == s); V_ASSERT(b == q);
}
V_UNIT(rel_relative) {
    auto &x = state(); g_has = v_in8("has") & 1; g_ir = v_in64("ir"); g_is = v_in64("is"); uint64_t s = v_in64("s"); v_assume(s < (1ull << 50)); v_assume(g_is <= s); v_assume(g_ir < (1ull << 50)); v_throws(!g_has);
    uint64_t q = x.getRelative(s); v_cover("found"); V_ASSERT(g_look == 2); V_ASSERT(g_key == s); V_ASSERT(q == g_ir + (s - g_is));
}
// compressed items: exact round trip, order preserved within a node, and nothing fits a node that would not be exact
V_UNIT(rel_item) {
    REL_IndexTypes::BlockHeader h; uint64_t r = v_in64("r"), s = v_in64("s"), r2 = v_in64("r2"), s2 = v_in64("s2"); REL_Item a(r, s), b(r2, s2); auto c = h.compressFirst(a);
    auto u = h.uncompress(c); V_ASSERT(u.m_rel_page_num == r); V_ASSERT(u.m_storage_page_num == s); V_ASSERT(h.canFit(a)); V_ASSERT(h.canFit(b) == (r >> 32 == r2 >> 32)); V_ASSERT(h.canFit(r2) == h.canFit(b));
    if (!h.canFit(b)) { v_cover("other node"); return; } v_cover("fits");
    auto d = h.compress(b); auto e = h.compress(r2); auto v = h.uncompress(d); V_ASSERT(v.m_rel_page_num == r2); V_ASSERT(v.m_storage_page_num == s2);
    REL_CompressedItemCompT lt; REL_CompressedItemEqualT eq; V_ASSERT(lt(c, d) == (r < r2)); V_ASSERT(eq(c, d) == (r == r2)); V_ASSERT(lt(c, e) == (r < r2)); V_ASSERT(lt(e, c) == (r2 < r));
    REL_ItemCompT lt2; REL_ItemEqualT eq2; V_ASSERT(lt2(a, b) == (r < r2)); V_ASSERT(lt2(a, r2) == (r < r2)); V_ASSERT(lt2(r2, a) == (r2 < r)); V_ASSERT(eq2(a, b) == (r == r2)); V_ASSERT(eq2(a, r2) == (r == r2)); V_ASSERT(eq2(r2, a) == (r == r2)); V_ASSERT((a == b) == (r == r2));
    REL_StoragePageNum p = h.compress(REL_StoragePageNum{s2}); V_ASSERT(p.m_value == s2); V_ASSERT(h.canFit(p)); V_ASSERT(lt(c, p) == (s < s2)); V_ASSERT(lt(p, c) == (s2 < s)); V_ASSERT(lt2(a, p) == (s < s2)); V_ASSERT(lt2(p, a) == (s2 < s));
}
