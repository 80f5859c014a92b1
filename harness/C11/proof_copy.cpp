// Contracts on copying the pages of a data file: every page of every run read is appended once, in order, and registered under
// its own relative number; where an arbitrary page g_t ends up is followed through the loops.
#include <v.h>
#include <vrt.hpp>
#include <cstring>
static uint64_t g_P, g_rest, g_n, g_rel, g_t, g_off; static bool g_ext; static char *g_buf;
// inside a run: g_n pages from relative number g_rel on; `start_page_num - g_rel` of them are done
#define INV_copy_run v_inv((page_count == (uint32_t)g_n) & (g_n >= 1) & (g_done == 0));
#define INV_copy_step v_variant(page_count); { uint64_t d_ = g_n - page_count; v_inv((page_count <= g_n) & (page_count >= 1) & (start_page_num == g_rel + d_) & ((char *)buf_ptr == g_buf + d_ * g_P) & (g_done == d_) & (g_ph == 0)); }
static uint64_t g_done, g_next, g_room, g_cnt; static unsigned g_ph;
#undef DB0_INVARIANT
#define DB0_INVARIANT(x) INV_##x
#include <dbzero/core/memory/config.cpp>
#include <dbzero/core/storage/copy_prefix.cpp>
using namespace db0;
static unsigned char g_in[sizeof(Page_IO)] __attribute__((aligned(16))), g_out[sizeof(Page_IO)] __attribute__((aligned(16))), g_se[sizeof(ExtSpace)] __attribute__((aligned(16))), g_de[sizeof(ExtSpace)] __attribute__((aligned(16))); static uint64_t g_endp, g_abs;
static void copyPages(unsigned shift) {
    g_P = 1ull << shift; g_ext = v_inbool("source_mapped"); g_endp = v_in64("end"); g_buf = (char *)v_buf("run", (1ull << 20) * g_P, 8); g_done = g_n = 0; g_ph = 0; static bool differ; differ = v_inbool("differ");
    v_replace("db0::Page_IO::getPageSize() const", (void *)+[](const Page_IO *p) -> uint32_t { return (uint32_t)g_P + ((p == (void *)g_out) & differ); });
    v_replace("db0::ExtSpace::operator!() const", (void *)+[](const ExtSpace *e) -> bool { v_require(e == (void *)g_se, "the source"); return !g_ext; });
    v_replace("db0::ExtSpace::getRelative(unsigned long) const", (void *)+[](const ExtSpace *e, uint64_t a) -> uint64_t { v_require((e == (void *)g_se) & g_ext & (a == g_abs), "of the run read"); return g_rel; });
    v_replace("db0::Page_IO::Reader::Reader(db0::Page_IO const&, db0::ExtSpace const&, std::optional<unsigned long>)", (void *)+[](Page_IO::Reader *, const Page_IO &p, const ExtSpace &e, std::optional<uint64_t> end) { v_require((&p == (void *)g_in) & (&e == (void *)g_se) & end.has_value() && *end == g_endp, "the source up to its end"); }); v_replace("db0::Page_IO::Reader::~Reader()", (void *)+[](Page_IO::Reader *) {});
    v_replace("db0::Page_IO::Reader::next(std::vector<std::byte, std::allocator<std::byte>>&, unsigned long&, unsigned long)", (void *)+[](Page_IO::Reader *, std::vector<std::byte> &v, uint64_t &start, size_t) -> uint32_t { v_require((g_done == g_n) & (g_ph == 0), "the previous run is copied completely"); g_n = v_fresh64(); v_assume(g_n <= (1u << 20)); g_done = 0; g_abs = start = v_fresh64(); g_rel = v_fresh64(); v_assume(g_ext | (g_rel == g_abs)); v_assume((g_rel < (1ull << 50))); v._M_impl._M_start = (std::byte *)g_buf; v._M_impl._M_finish = v._M_impl._M_end_of_storage = (std::byte *)g_buf; return (uint32_t)g_n; }); v_replace("std::vector<std::byte, std::allocator<std::byte>>::~vector()", (void *)+[](std::vector<std::byte> *) {});
    v_replace("db0::Page_IO::getNextPageNum(bool*)", (void *)+[](Page_IO *p, bool *) -> std::pair<uint64_t, uint32_t> { v_require((p == (void *)g_out) & (g_ph == 0), "where the next page goes"); g_ph = 1; g_next = v_fresh64(); g_room = (uint32_t)v_fresh64(); v_assume(g_room >= 1); return { g_next, (uint32_t)g_room }; });
    v_replace("db0::Page_IO::getCurrentStepRemainingPages() const", (void *)+[](const Page_IO *p) -> uint32_t { v_require((p == (void *)g_out) & (g_ph == 1), "after the place is known"); return (uint32_t)g_room; });
    v_replace("db0::Page_IO::append(void const*, unsigned long)", (void *)+[](Page_IO *p, const void *b, uint64_t n) -> uint64_t { v_require((p == (void *)g_out) & (g_ph == 1), "into the target"); v_require((b == g_buf + g_done * g_P) & (n >= 1) & (n <= g_n - g_done), "the pages not yet copied"); v_require(n <= g_room, "within one step"); g_cnt = n; g_ph = 2; return g_next; });
    v_replace("db0::ExtSpace::addMapping(unsigned long, unsigned long, unsigned int)", (void *)+[](ExtSpace *e, uint64_t st, uint64_t rel, uint32_t n) { v_require((e == (void *)g_de) & (g_ph == 2), "of the target"); v_require((st == g_next) & (n == g_cnt), "where they were stored"); v_require(rel == g_rel + g_done, "under their own numbers"); g_done += n; g_ph = 0; });
    v_throws(differ); copyPageIO(*(Page_IO *)g_in, *(ExtSpace *)g_se, *(Page_IO *)g_out, g_endp, *(ExtSpace *)g_de); v_cover("copied"); V_ASSERT(!differ); V_ASSERT(g_done == g_n); V_ASSERT(g_n == 0);
}
#define COPY_UNIT(k) V_UNIT(copy_pages_##k) { copyPages(k); }
COPY_UNIT(9) COPY_UNIT(10) COPY_UNIT(11) COPY_UNIT(12) COPY_UNIT(13) COPY_UNIT(14) COPY_UNIT(15) COPY_UNIT(16)
