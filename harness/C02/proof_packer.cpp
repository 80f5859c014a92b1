// Contracts on packing differences into pages and on reading a difference that continues on the next page: for every
// page size, every fill state and every content.
#include <v.h>
#include <vrt.hpp>
#include <cstring>
#include <dbzero/core/memory/config.cpp>
#include <dbzero/core/storage/Diff_IO.cpp>
using namespace db0;
static uint64_t g_ps, g_size, g_psz, g_appended, g_k; static uint8_t g_content; static bool g_reads; static unsigned char *g_buf; static uint64_t g_page, g_wrote;
static unsigned char g_io[sizeof(Page_IO)] __attribute__((aligned(16)));
// contracts: page store, pair of packed numbers, encoded difference
static uint64_t c_append(Page_IO *, const void *p, bool *) { v_require(p == (void *)g_buf, "the page from the beginning of the buffer is stored"); if (g_k < g_ps) g_content = g_buf[g_k]; g_appended++; return 7; }
static uint32_t c_ps(const Page_IO *) { return (uint32_t)g_ps; }
static void c_write_pair(std::byte *&at, std::pair<uint64_t, uint32_t>) { v_require((uint64_t)((unsigned char *)at - g_buf) + g_psz <= 2 * g_ps, "page and state numbers fit the buffer"); at += g_psz; g_wrote++; }
static size_t c_measure(const std::byte *, const std::vector<uint16_t> &) { return g_size; }
static size_t c_measure_pair(std::pair<uint64_t, uint32_t>) { return g_psz; }
static void c_new(o_diff_buffer *o, const std::byte *, const std::vector<uint16_t> &) { v_require((uint64_t)((unsigned char *)o - g_buf) + g_size <= 2 * g_ps, "the difference fits the buffer"); o->m_size = (uint16_t)g_size; g_wrote++; }
static DiffWriter *writer(bool valid = true) {
    g_ps = v_in64("page_size"); v_assume(g_ps >= 64); v_assume(g_ps <= 65536); g_buf = (unsigned char *)v_buf("buffer", 2 * g_ps, 1); g_k = v_in64("k"); v_assume(g_k < 2 * g_ps); g_appended = g_wrote = 0;
    v_replace("db0::Page_IO::append(void const*, bool*)", (void *)c_append); v_replace("db0::Page_IO::getPageSize() const", (void *)c_ps);
    v_replace("db0::o_packed_int_pair<unsigned long, unsigned int>::write(std::byte*&, std::pair<unsigned long, unsigned int>)", (void *)c_write_pair); v_replace("db0::o_packed_int_pair<unsigned long, unsigned int>::measure(std::pair<unsigned long, unsigned int>)", (void *)c_measure_pair);
    v_replace("db0::o_diff_buffer::measure(std::byte const*, std::vector<unsigned short, std::allocator<unsigned short>> const&)", (void *)c_measure);
    v_replace("db0::o_diff_buffer::o_diff_buffer(std::byte const*, std::vector<unsigned short, std::allocator<unsigned short>> const&)", (void *)c_new);
    DiffWriter *w = new DiffWriter(*(Page_IO *)g_io, (std::byte *)g_buf, (std::byte *)g_buf + 2 * g_ps);
    V_ASSERT(w->m_current == (std::byte *)g_buf + 4); V_ASSERT(w->empty()); V_ASSERT(w->m_header.m_size == 0); V_ASSERT(w->m_header.m_offset == 0);
    // any fill state
    uint64_t at = v_in64("fill"); v_assume(at >= 4); v_assume(at <= 2 * g_ps); w->m_current = (std::byte *)g_buf + at; w->m_header.m_size = v_in16("count"); w->m_header.m_offset = v_in16("offset");
    v_assume((uint64_t)w->m_header.m_offset + 4 <= at); // the rest of the previous difference lies within the written part
    return w;
}
static uint64_t fill(DiffWriter *w) { return (uint64_t)((unsigned char *)w->m_current - g_buf); }
V_UNIT(writer_flush_page) {
    auto &w = *writer(); uint64_t f = fill(&w), n = w.m_header.m_size, o = w.m_header.m_offset; uint64_t j = v_in64("j"); v_assume(j < 2 * g_ps); uint8_t rest = g_buf[j], content = g_buf[g_k]; v_assume(!(f > g_ps) | (f - g_ps <= 65535));
    size_t r = w.flushDP();
    if (n == 0 && o == 0) { v_cover("nothing to write"); V_ASSERT(r == 0); V_ASSERT(g_appended == 0); V_ASSERT(fill(&w) == f); return; }
    V_ASSERT(r == g_ps); V_ASSERT(g_appended == 1); V_ASSERT(!(g_k < g_ps) | (g_content == content)); V_ASSERT(w.m_header.m_size == 0);
    if (f > g_ps) { v_cover("continued"); V_ASSERT(w.m_header.m_offset == f - g_ps); V_ASSERT(fill(&w) == 4 + (f - g_ps)); 
        // the continuation follows the header of the next page
        if (j >= g_ps && j < f) V_ASSERT(g_buf[4 + (j - g_ps)] == rest); }
    else { v_cover("complete"); V_ASSERT(w.m_header.m_offset == 0); V_ASSERT(fill(&w) == 4); V_ASSERT(w.empty()); }
}
V_UNIT(writer_append) {
    auto &w = *writer(); uint64_t f = fill(&w), n = w.m_header.m_size, o = w.m_header.m_offset; v_assume(n < 65535);
    g_psz = v_in64("pair_size"); v_assume(g_psz >= 2); v_assume(g_psz <= 15); g_size = v_in64("diff_size"); v_assume(g_size >= 2); v_assume(g_size <= 65535); v_assume(f + g_psz + g_size <= 2 * g_ps);
    g_k = v_in64("kept"); v_assume(g_k >= 4); v_assume(g_k < f); uint8_t was = g_buf[g_k]; static unsigned char vec[sizeof(std::vector<uint16_t>)]; bool over = false;
    bool r = w.append(nullptr, {v_in64("page"), v_in32("state")}, *(std::vector<uint16_t> *)vec, over);
    V_ASSERT(g_buf[g_k] == was); V_ASSERT(w.m_header.m_offset == o);
    V_ASSERT(r == (f + g_psz + 2 <= g_ps)); // numbers and size of the difference never cross a page end
    if (!r) { v_cover("next page"); V_ASSERT(fill(&w) == f); V_ASSERT(w.m_header.m_size == n); V_ASSERT(!over); return; }
    v_cover("appended"); V_ASSERT(fill(&w) == f + g_psz + g_size); V_ASSERT(w.m_header.m_size == n + 1); V_ASSERT(over == (fill(&w) > g_ps)); V_ASSERT(w.m_last_size == g_psz + g_size);
    V_ASSERT(w.isFull() == (fill(&w) >= g_ps)); V_ASSERT(!w.empty());
    w.revert(); V_ASSERT(fill(&w) == f); V_ASSERT(w.m_header.m_size == n); V_ASSERT(g_buf[g_k] == was);
}
// ---- reader
static unsigned g_rd; static uint64_t g_rpage[4];
static void c_read(const Page_IO *, uint64_t page, void *p) { v_require(p == (void *)(g_buf + g_ps), "a page is read into the second half"); v_require(g_rd < 4, "reads"); g_rpage[g_rd++] = page; }
#include <new>
static void init_settings() { if (v_symbolic_mode()) new ((void *)&Settings::m_decode_error) std::function<void()>([]() { THROWF(db0::InternalException) << "decode"; }); }
V_UNIT(reader_open) {
    init_settings();
    g_ps = v_in64("page_size"); v_assume(g_ps >= 64); v_assume(g_ps <= 65536); g_buf = (unsigned char *)v_buf("buffer", 2 * g_ps, 1); g_rd = 0; uint64_t page = v_in64("page");
    v_replace("db0::Page_IO::read(unsigned long, void*) const", (void *)c_read); v_replace("db0::Page_IO::getPageSize() const", (void *)c_ps);
    uint64_t n = g_buf[g_ps] | g_buf[g_ps + 1] << 8, o = g_buf[g_ps + 2] | g_buf[g_ps + 3] << 8; v_throws(4 + o > g_ps);
    DiffReader r(*(Page_IO *)g_io, page, (std::byte *)g_buf, (std::byte *)g_buf + 2 * g_ps); v_cover("opened");
    V_ASSERT(g_rd == 1); V_ASSERT(g_rpage[0] == page); V_ASSERT(r.m_size == n); V_ASSERT(r.m_current == (std::byte *)g_buf + g_ps + 4 + o); V_ASSERT(4 + o <= g_ps);
}
static uint64_t g_from, g_sizeLeft; static uint8_t g_next[1];
V_UNIT(reader_next_page) {
    g_ps = v_in64("page_size"); v_assume(g_ps >= 64); v_assume(g_ps <= 65536); g_buf = (unsigned char *)v_buf("buffer", 2 * g_ps, 1); g_rd = 0; uint64_t page = v_in64("page"); v_assume(page < (1ull << 50));
    v_replace("db0::Page_IO::getPageSize() const", (void *)c_ps);
    uint64_t at = v_in64("at"); v_assume(at >= g_ps + 4); v_assume(at < 2 * g_ps); uint64_t left = 2 * g_ps - at;
    // the next page: header, then the continuation; b(j) is the byte of the continuation at j
    static uint64_t k, kk; static uint8_t vk, vc; k = v_in64("k"); v_assume(k < left); vk = g_buf[at + k]; kk = v_in64("cont"); v_assume(kk < g_ps - 4); vc = v_in8("cont_byte");
    v_replace("db0::Page_IO::read(unsigned long, void*) const", (void *)+[](const Page_IO *, uint64_t pg, void *p) { v_require(p == (void *)(g_buf + g_ps), "a page is read into the second half"); g_rpage[0] = pg; g_rd++; g_buf[g_ps + 4 + kk] = vc; });
    alignas(8) static unsigned char raw[sizeof(DiffReader)]; struct L { Page_IO *io; uint32_t ps; uint64_t next; std::byte *b; const std::byte *c; const std::byte *e; unsigned n; }; static_assert(sizeof(L) == sizeof(DiffReader), "layout"); *(L *)raw = L{(Page_IO *)g_io, (uint32_t)g_ps, page, (std::byte *)g_buf, (std::byte *)g_buf + at, (std::byte *)g_buf + 2 * g_ps, 3};
    auto &r = *(DiffReader *)raw; r.loadNext(); v_cover("loaded");
    V_ASSERT(g_rd == 1); V_ASSERT(g_rpage[0] == page); V_ASSERT(r.m_size == 3);
    // the first part is followed directly by the continuation
    V_ASSERT((uint8_t)r.m_current[k] == vk); V_ASSERT(r.m_current + left == (std::byte *)g_buf + g_ps + 4); V_ASSERT((uint8_t)r.m_current[left + kk] == vc);
}
