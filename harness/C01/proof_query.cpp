// Combining both indexes into the versions of a page as of a transaction, over the contracts of the indexes' lookups
// (proof_index.cpp) and of the iterator over a chain (proof_items.cpp).
#include <v.h>
#include <vrt.hpp>
#include <dbzero/core/storage/SparseIndex.cpp>
#include <dbzero/core/storage/DiffIndex.cpp>
#include <dbzero/core/storage/SparseIndexQuery.cpp>
#include <dbzero/core/memory/Address.cpp>
using namespace db0;
typedef DI_Item::ConstIterator It;
// ghost state: the item of differences being read (head + g_n chained changes, strictly ascending), the next item
// of the page, the read position
static uint64_t g_page; static uint32_t g_query; static SI_Item g_full;
struct Group { DI_Item head; uint32_t st[9]; uint64_t loc[9]; unsigned n; bool has; };
static Group g_cur, g_nxt; static unsigned g_pos; static bool g_second; static uint32_t g_from, g_calls;
static Group &cur() { return g_second ? g_nxt : g_cur; }
static void anyGroup(Group &g, uint32_t &prev, unsigned max) {
    g.head = DI_Item(g_page, v_in32("head_state"), v_in64("head_loc")); v_assume(g.head.m_state_num > prev); prev = g.head.m_state_num; uint64_t n = v_in64("n"); v_assume(n < max + 1); g.n = (unsigned)v_case(n, max + 1); g.has = true;
    for (unsigned i = 0; i < g.n; i++) { g.st[i] = v_in32("chain_state"); g.loc[i] = v_in64("chain_loc"); v_assume(g.st[i] > prev); prev = g.st[i]; }
}
static uint32_t lastOf(Group &g) { return g.n ? g.st[g.n - 1] : g.head.m_state_num; }
// ---- contracts
static SI_Item c_lookup(const SparseIndex *, uint64_t p, uint32_t s) { v_require(p == g_page && s == g_query, "the full image is looked up for the page and transaction asked for"); return g_full; }
static DI_Item c_findUpperAny(const DiffIndex *, uint64_t p, uint32_t s) { v_require(p == g_page, "differences of the page asked for"); g_from = s; g_calls++; return g_cur.has ? g_cur.head : DI_Item(); }
static DI_Item c_findUpperNext(const DiffIndex *, uint64_t p, uint32_t s) { v_require(p == g_page && s > lastOf(cur()), "continue right after the last difference read"); if (g_second || !g_nxt.has) return DI_Item(); g_second = true; g_pos = 0; return g_nxt.head; }
static bool c_next2(It *, uint32_t *s, uint64_t *l) { Group &g = cur(); if (g_pos >= g.n) return false; *s = g.st[g_pos]; *l = g.loc[g_pos++]; return true; }
static bool c_next1(It *, uint32_t *s) { Group &g = cur(); if (g_pos >= g.n) return false; *s = g.st[g_pos++]; return true; }
#define FU "db0::DiffIndex::findUpper(unsigned long, unsigned int) const"
static void common() {
    g_page = v_in64("page"); g_query = v_in32("query"); v_assume(g_query >= 1 && g_query < 0xffffffffu); g_full = SI_Item(); g_cur.has = g_nxt.has = false; g_second = false; g_pos = 0; g_calls = 0;
    v_replace("db0::SparseIndexBase<db0::SI_Item, db0::SI_CompressedItem>::lookup(unsigned long, unsigned int) const", (void *)c_lookup);
    v_replace("db0::DI_Item::ConstIterator::next(unsigned int&, unsigned long&)", (void *)c_next2); v_replace("db0::DI_Item::ConstIterator::next(unsigned int&)", (void *)c_next1);
}
static unsigned char g_si[sizeof(SparseIndex)] __attribute__((aligned(16))), g_di[sizeof(DiffIndex)] __attribute__((aligned(16)));
#define SI (*(SparseIndex *)g_si)
#define DI (*(DiffIndex *)g_di)
static void anyFull() { if (v_inbool("has_full")) { g_full = SI_Item(g_page, v_in32("full_state"), v_in64("full_loc")); v_assume(g_full.m_state_num >= 1 && g_full.m_state_num <= g_query); } }
// one step: the smallest recorded difference after the last version returned, if not after the transaction asked for
static void expect(SparseIndexQuery &q, uint32_t last, bool has, uint32_t st, uint64_t loc) {
    uint32_t s = 0; uint64_t l = 0; bool r = q.next(s, l);
    V_ASSERT(r == (has & (st <= g_query) & (last < g_query))); if (!r) { v_cover("end"); return; }
    v_cover("next"); V_ASSERT(s == st); V_ASSERT(l == loc); V_ASSERT(q.m_state_num == st);
}
V_UNIT(query_start) {
    common(); v_replace(FU, (void *)c_findUpperAny); anyFull(); uint32_t p = 0; if (v_inbool("has_diff")) { anyGroup(g_cur, p, 0); }
    SparseIndexQuery q(SI, DI, g_page, g_query);
    V_ASSERT(g_calls == 1); bool has = g_full.m_state_num != 0;
    if (has) { v_cover("full"); V_ASSERT(g_from == (g_full.m_state_num < g_query ? g_full.m_state_num + 1 : 1)); } else { v_cover("no full"); V_ASSERT(g_from == 1); }
    uint32_t s = 9; uint64_t l = q.first(s); V_ASSERT((s == g_full.m_state_num) & (l == g_full.m_storage_page_num) & (q.firstStateNum() == s)); V_ASSERT(q.m_state_num == s); V_ASSERT(q.first() == l);
    bool e = q.empty(); V_ASSERT(e == (!has & !(g_cur.has && g_cur.head.m_state_num <= g_query)));
}
V_UNIT(query_first_step) {
    common(); anyFull(); uint32_t p = 0; bool any = v_inbool("has_diff"); if (any) anyGroup(g_cur, p, 9);
    // contract of findUpper: the item holding the smallest recorded state that is at least the one asked for
    v_replace(FU, (void *)c_findUpperAny); if (any && g_full && g_full.m_state_num < g_query) v_assume(lastOf(g_cur) > g_full.m_state_num);
    SparseIndexQuery q(SI, DI, g_page, g_query); uint32_t last; q.first(last);
    uint32_t st = 0; uint64_t loc = 0; bool has = false;
    if (any) { for (unsigned i = g_cur.n; i-- > 0;) { bool m = g_cur.st[i] > last; st = (uint32_t)v_ite(m, g_cur.st[i], st); loc = v_ite(m, g_cur.loc[i], loc); has |= m; } bool m = g_cur.head.m_state_num > last; st = (uint32_t)v_ite(m, g_cur.head.m_state_num, st); loc = v_ite(m, g_cur.head.m_storage_page_num, loc); has |= m; }
    v_replace(FU, (void *)c_findUpperNext);
    expect(q, last, has, st, loc);
}
V_UNIT(query_next_step) {
    common(); uint32_t p = 0; v_replace(FU, (void *)c_findUpperAny); anyGroup(g_cur, p, 9); if (v_inbool("has_next")) anyGroup(g_nxt, p, 0);
    SparseIndexQuery q(SI, DI, g_page, g_query); q.m_state_num = 0;
    // reading within the item: everything before the position was returned or precedes the full image
    q.m_diff_it = g_cur.head.beginDiff(); uint64_t k = v_in64("pos"); v_assume(k < 10); k = v_case(k, 10); v_assume(k <= g_cur.n); g_pos = (unsigned)k; uint32_t last = v_in32("last");
    v_assume(last >= (k ? g_cur.st[k - 1] : g_cur.head.m_state_num) && last <= lastOf(g_cur)); q.m_state_num = last;
    uint32_t st = 0; uint64_t loc = 0; bool has = g_nxt.has; if (has) { st = g_nxt.head.m_state_num; loc = g_nxt.head.m_storage_page_num; }
    for (unsigned i = g_cur.n; i-- > 0;) { bool m = g_cur.st[i] > last; st = (uint32_t)v_ite(m, g_cur.st[i], st); loc = v_ite(m, g_cur.loc[i], loc); has |= m; }
    v_replace(FU, (void *)c_findUpperNext);
    expect(q, last, has & ((uint32_t)v_ite(g_cur.head.m_state_num <= g_query, 1, 0) != 0), st, loc);
}
// counting the remaining versions without consuming them
V_UNIT(query_count) {
    v_bounded("at most 3 chained changes per item and two items"); common(); uint32_t p = 0; v_replace(FU, (void *)c_findUpperAny); anyGroup(g_cur, p, 3); if (v_inbool("has_next")) anyGroup(g_nxt, p, 2);
    SparseIndexQuery q(SI, DI, g_page, g_query); uint32_t last = v_in32("last"); v_assume(last < lastOf(g_cur)); q.m_state_num = last; uint64_t size = v_in64("size"); v_assume(size >= 1 && size < 6); size = v_case(size, 6);
    uint64_t have = 0; for (Group *g : { &g_cur, &g_nxt }) if (g->has) { have += v_ite((g->head.m_state_num > last) & (g->head.m_state_num <= g_query), 1, 0); for (unsigned i = 0; i < g->n; i++) have += v_ite((g->st[i] > last) & (g->st[i] <= g_query), 1, 0); }
    v_replace(FU, (void *)c_findUpperNext);
    bool r = q.leftLessThan((unsigned)size); V_ASSERT(r == (have < size)); V_ASSERT(q.m_state_num == last); v_cover("done");
}
static uint32_t g_lower; static uint32_t c_findLower(const DiffIndex *, uint64_t p, uint32_t s) { v_require(p == g_page && s == g_query, "same query"); return g_lower; }
V_UNIT(newest_change) {
    common(); anyFull(); g_lower = v_in32("newest_diff"); v_assume(g_lower <= g_query); v_replace("db0::DiffIndex::findLower(unsigned long, unsigned int) const", (void *)c_findLower);
    uint32_t m = 0; bool r = tryFindMutation(SI, DI, g_page, g_query, m); V_ASSERT(r == ((g_lower != 0) | (g_full.m_state_num != 0))); if (r) V_ASSERT(m == (g_lower > g_full.m_state_num ? g_lower : g_full.m_state_num)); v_cover("done");
}
