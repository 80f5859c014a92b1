// Contracts on the page writer: for every position, step size, header size and any blocks taken by other streams of the
// file. Page sizes are the powers of two from 512 to 65536, blocks hold 1 to 8 pages (one case each).
#include <v.h>
#include <vrt.hpp>
#include <dbzero/core/memory/config.cpp>
#include <dbzero/core/storage/Page_IO.cpp>
using namespace db0;
static unsigned char g_file[64] __attribute__((aligned(16))); static unsigned char g_mem[sizeof(Page_IO)] __attribute__((aligned(16)));
static uint64_t g_ps, g_cap, g_bs, g_hdr, g_tail, g_first; static uint32_t g_count, g_block, g_step; static bool g_known;
static unsigned g_writes; static uint64_t g_at, g_len; static const void *g_from;
static void c_write(CFile *, uint64_t at, size_t n, const void *p) { g_writes++; g_at = at; g_len = n; g_from = p; }
static unsigned g_reads;
static void c_read(const CFile *, uint64_t at, size_t n, void *p) { g_reads++; g_at = at; g_len = n; g_from = p; }
static Page_IO *make(bool cases = true) {
    v_replace("db0::CFile::write(unsigned long, unsigned long, void const*)", (void *)c_write); v_replace("db0::CFile::read(unsigned long, unsigned long, void*) const", (void *)c_read);
    g_writes = g_reads = 0; uint64_t lg = v_in64("log_page_size"); v_assume(lg <= 16); v_assume(lg >= 9); lg = v_case(lg, 17); g_ps = 1ull << lg;
    g_cap = v_in64("block_pages"); v_assume(g_cap <= 8); v_assume(g_cap >= 1); g_cap = v_case(g_cap, 9); g_bs = g_ps * g_cap;
    g_hdr = v_in64("header"); v_assume(g_hdr <= (1u << 30)); g_step = v_in32("step"); v_assume(g_step >= 1); v_assume(g_step <= (1u << 27));
    g_first = v_in64("first_page"); v_assume(g_first <= (1ull << 40)); g_count = v_in32("count"); v_assume(g_count <= g_cap); g_known = v_in8("block_known") & 1; g_block = v_in32("block"); v_assume(g_block < g_step);
    uint64_t t = v_in64("tail_page"); v_assume(t <= (1ull << 40)); g_tail = g_hdr + t * g_ps;
    std::optional<uint32_t> b; if (g_known) b = (uint32_t)g_block;
    return new Page_IO(g_hdr, *(CFile *)g_file, (uint32_t)g_ps, (uint32_t)g_bs, g_hdr + g_first * g_ps, (uint32_t)g_count, (uint32_t)g_step, [] { return g_tail; }, b);
}
// blocks left in the reserved step (the current one included) and the end of the reserved space
static uint64_t left_() { return g_known ? g_step - g_block : 1; }
static uint64_t tailAt() { return g_known ? g_hdr + g_first * g_ps + (uint64_t)(g_step - g_block) * g_bs : g_hdr + g_first * g_ps + g_bs; }
static bool inv(const Page_IO &p) { return (p.m_address == g_hdr + p.m_first_page_num * g_ps) & (p.m_page_count <= g_cap) & (!p.m_block_num.has_value() | (*p.m_block_num < g_step)) & (p.m_block_capacity == g_cap) & (p.m_page_size == g_ps) & (p.m_block_size == g_bs) & (p.m_step_size == g_step) & (p.m_header_size == g_hdr); }
// where the next page goes: still in this block, in the next block of this step, or in a new step behind everything
struct Next { uint64_t page, first, block, count; bool known, fresh; };
static Next next() {
    if (g_count < g_cap) return {g_first + g_count, g_first, g_block, g_count, g_known, false};
    if (g_known & (g_block + 1 < g_step)) return {g_first + g_cap, g_first + g_cap, g_block + 1, 0, true, false};
    uint64_t t = tailAt(), f = g_tail; if (f < t) f = t; f = (f - g_hdr) / g_ps; return {f, f, 0, 0, true, true};
}
static void at(Page_IO &p, const Next &n, uint64_t count) {
    V_ASSERT(inv(p)); V_ASSERT(p.m_first_page_num == n.first); V_ASSERT(p.m_page_count == count); V_ASSERT(p.m_block_num.has_value() == n.known); if (n.known) V_ASSERT(*p.m_block_num == n.block);
}
// the end of the reserved space is a page boundary past every page of the step
V_UNIT(page_tail) { auto &p = *make(); v_cover("any"); V_ASSERT(inv(p)); V_ASSERT(p.tail() == tailAt()); bool f = false; V_ASSERT(p.getEndPageNum(&f) == g_first + g_count); V_ASSERT(f == ((g_count == 0) & g_known & (g_block == 0))); V_ASSERT(p.getPageSize() == g_ps); V_ASSERT(tailAt() >= g_hdr + (g_first + g_cap) * g_ps); }
V_UNIT(page_append) {
    auto &p = *make(); Next n = next(); static uint8_t buf[1]; bool first = false; uint64_t r = p.append(buf, &first);
    if (n.fresh) v_cover("new step"); else if (n.first != g_first) v_cover("next block"); else v_cover("same block");
    V_ASSERT(r == n.page); at(p, n, n.count + 1); V_ASSERT(g_writes == 1); V_ASSERT(g_at == p.m_address + n.count * g_ps); V_ASSERT(g_len == g_ps); V_ASSERT(g_from == (void *)buf);
    V_ASSERT(first == ((n.count == 0) & n.known & (n.block == 0)));
    // consequences: never a page handed out before, and clear of the space of the other streams
    V_ASSERT(p.getEndPageNum() == r + 1); V_ASSERT(n.count < g_cap);
    if (n.fresh) { V_ASSERT(g_at >= g_tail); V_ASSERT(g_at >= tailAt()); V_ASSERT(first); } else { V_ASSERT(r == g_first + g_count); V_ASSERT((n.block < g_step) | !n.known); }
}
V_UNIT(page_next) {
    auto &p = *make(); Next n = next(); bool first = false; auto r = p.getNextPageNum(&first); v_cover("any");
    V_ASSERT(r.first == n.page); V_ASSERT(r.second == g_cap - n.count); V_ASSERT(first == ((n.count == 0) & n.known & (n.block == 0))); at(p, n, n.count); V_ASSERT(g_writes == 0);
}
V_UNIT(page_step_left) { auto &p = *make(); v_throws(!g_known); uint32_t l = p.getCurrentStepRemainingPages(); v_cover("known"); V_ASSERT(l == (uint32_t)((g_step - g_block) * (uint32_t)g_cap - g_count)); }
// position after k more pages from (first, count) in a step with `left` blocks left, and the same reserved space
static void moved(Page_IO &p, uint64_t first, uint64_t block, uint64_t count, uint64_t k) {
    uint64_t end = count + k, d = end ? (end - 1) / g_cap : 0, left = g_step - block;
    V_ASSERT(p.m_first_page_num == first + d * g_cap); V_ASSERT(p.m_page_count == end - d * g_cap); V_ASSERT(p.m_page_count <= g_cap); V_ASSERT(p.m_block_num.has_value()); V_ASSERT((uint64_t)*p.m_block_num == block + d); V_ASSERT(block + d < g_step);
    V_ASSERT(p.m_address == g_hdr + first * g_ps + d * g_bs); V_ASSERT(p.m_address == g_hdr + p.m_first_page_num * g_ps);
    V_ASSERT((p.m_address) + (left - d) * g_bs == g_hdr + first * g_ps + left * g_bs); // same reserved space (page_tail)
    V_ASSERT(p.m_first_page_num + (end - d * g_cap) == first + count + k); // the end page (page_tail)
}
// several pages at once, as the copy of a file does: at most the pages left in the step
V_UNIT(page_append_many) {
    v_replace("db0::Page_IO::getCurrentStepRemainingPages() const", (void *)+[](const Page_IO *p) -> uint32_t { return (uint32_t)((p->m_step_size - *p->m_block_num) * g_cap - p->m_page_count); });
    auto &p = *make(); v_assume(g_known); Next n = next(); uint32_t k = v_in32("pages"); v_assume(k >= 1); v_assume((n.count + k - 1) / g_cap < g_step - n.block); v_assume(k <= (64ull << 20) / g_ps); static uint8_t buf[1];
    v_assume(k <= (g_step - n.block) * g_cap - n.count);
    uint64_t r = p.append(buf, k); v_cover("appended");
    V_ASSERT(r == n.page); V_ASSERT(g_writes == 1); V_ASSERT(g_at == g_hdr + n.first * g_ps + n.count * g_ps); V_ASSERT(g_len == k * g_ps); V_ASSERT(g_from == (void *)buf);
    moved(p, n.first, n.block, n.count, k);
}
V_UNIT(page_move) {
    auto &p = *make(); v_assume(g_known); uint32_t k = v_in32("pages"); uint64_t end = (uint64_t)g_count + k; v_throws(end > 0 && g_block + (end - 1) / g_cap >= g_step);
    p.moveBy(k); v_cover("moved"); moved(p, g_first, g_block, g_count, k);
}
V_UNIT(page_read_write) {
    auto &p = *make(); uint64_t q = v_in64("page"), n = v_in64("n"); v_assume(q < (1ull << 40)); v_assume(n * g_ps <= 0xffffffff); v_assume(n <= 0xffffffff); static uint8_t buf[1];
    p.read(q, buf); V_ASSERT(g_reads == 1); V_ASSERT(g_at == g_hdr + q * g_ps); V_ASSERT(g_len == g_ps); V_ASSERT(g_from == (void *)buf);
    p.read(q, buf, (uint32_t)n); V_ASSERT(g_reads == 2); V_ASSERT(g_at == g_hdr + q * g_ps); V_ASSERT(g_len == n * g_ps);
    p.write(q, buf); V_ASSERT(g_writes == 1); V_ASSERT(g_at == g_hdr + q * g_ps); V_ASSERT(g_len == g_ps); v_cover("any"); V_ASSERT(inv(p)); V_ASSERT(p.getEndPageNum() == g_first + g_count);
}
