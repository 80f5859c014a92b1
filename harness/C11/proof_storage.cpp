// Contracts on the data file: reading a range of pages as of a transaction, writing pages and differences, the order of a flush,
// the position where writing continues, the end of the file. Page contents are abstract: the first word of a page stands for
// its content, applying a difference is an uninterpreted function. The index query, the page store and the relative page
// mapping are used through their contracts (proved as C01, C02, C04).
#include <v.h>
#include <vrt.hpp>
#include <cstring>
static uint64_t rd(const void *p) { uint64_t v; memcpy(&v, p, 8); return v; }
static void wr(void *p, uint64_t v) { memcpy(p, &v, 8); }
static uint64_t g_P, g_begin, g_end, g_w, g_state, g_k, g_page, g_fl; static bool g_ext; static char *g_buf;
static uint64_t U(const char *n, uint64_t a, uint64_t b) { return v_uf(n, a, b); }
static uint32_t g_len, *g_lenp;
#define EMPTY(p) ((U("empty", p, 0) & 1) != 0)
#define NUM(p) v_ite(EMPTY(p), 0, (uint64_t)(uint16_t)U("ndiffs", p, 0)) // recorded differences of page p behind the full image
#define FIRST(p) U("first", p, 0)
#define ABS(r) v_ite(g_ext, U("abs", r, 0), r)
#define DIFF(p, k) U("diff", p, k)
#define DSTATE(p, k) ((uint32_t)U("dstate", p, k))
#define FOLD(p, k) U("fold", p, k) // content of page p after k differences
static uint64_t applied(uint64_t tok, uint64_t page, uint64_t st, uint64_t id, uint64_t has, uint64_t next) { return U("ap1", U("ap2", tok, id), U("ap3", U("ap4", page, st), v_ite(has, next, id + 1))); }
#define WDONE(e) ((g_w >= g_begin) & (g_w < (e)))
#define INV_storage_read_page v_variant(end_page - page_num); v_inv((begin_page == g_begin) & (end_page == g_end) & (page_num >= begin_page) & (page_num <= end_page) & ((char *)read_buf == g_buf + (page_num - g_begin) * g_P) & (page_num == begin_page || (rd(read_buf - g_P) == FOLD(page_num - 1, NUM(page_num - 1))) & !(EMPTY(page_num - 1) & ((g_fl & 1) != 0))) & (*g_lenp == (uint32_t)U("sum", page_num, 0))); g_page = page_num; v_throws(EMPTY(page_num) & ((g_fl & 1) != 0)); v_assume((uint32_t)U("sum", page_num + 1, 0) == (uint32_t)U("sum", page_num, 0) + (uint32_t)NUM(page_num));
#define INV_storage_read_diff v_variant(NUM(page_num) - g_k); v_inv((page_num >= begin_page) & (page_num < end_page) & (begin_page == g_begin) & (end_page == g_end) & (g_page == page_num) & ((char *)read_buf == g_buf + (page_num - g_begin) * g_P) & (g_k >= 1) & (g_k <= NUM(page_num)) & (diff_state_num == DSTATE(page_num, g_k - 1)) & (page_io_id == DIFF(page_num, g_k - 1)) & !EMPTY(page_num) & (rd(read_buf) == FOLD(page_num, g_k - 1)) & (*g_lenp == (uint32_t)U("sum", page_num, 0) + (uint32_t)g_k - 1) & ((uint32_t)U("sum", page_num + 1, 0) == (uint32_t)U("sum", page_num, 0) + (uint32_t)NUM(page_num)));
static unsigned g_ph; // steps of one page: 1 looked up, 2 appended, 3 given a relative number, 9 done
#define INV_storage_write_page v_variant(end_page - page_num); v_inv((begin_page == g_begin) & (end_page == g_end) & (page_num >= begin_page) & (page_num <= end_page) & ((char *)write_buf == g_buf + (page_num - g_begin) * g_P) & (g_ph == v_ite(page_num == begin_page, 0, 9))); g_page = page_num;
#undef DB0_INVARIANT
#define DB0_INVARIANT(x) INV_##x
#include <dbzero/core/memory/config.cpp>
#include <dbzero/core/storage/BDevStorage.cpp>
using namespace db0; typedef BDevStorage BS; typedef SparseIndexQuery Q;
static unsigned char g_raw[sizeof(BS)] __attribute__((aligned(16)));
static BS &storage(bool rw, unsigned shift = 0) {
    BS *s = (BS *)g_raw; auto &c = const_cast<o_prefix_config &>(s->m_config); if (shift) g_P = 1ull << shift; else { g_P = v_in32("page_size"); v_assume((g_P >= 16) & (g_P <= 65536)); } c.m_page_size = g_P; uint32_t cap = v_in16("capacity"); v_assume(cap >= 1); c.m_block_size = cap * (uint32_t)g_P; v_assume((uint64_t)cap * g_P < (1u << 28)); c.m_page_io_step_size = v_in16("step"); 
    s->m_access_type = rw ? AccessType::READ_WRITE : AccessType::READ_ONLY; g_ext = v_inbool("ext"); g_k = 0;
    v_replace("db0::ExtSpace::operator!() const", (void *)+[](const ExtSpace *e) -> bool { v_require(e == &((BS *)g_raw)->m_ext_space, "this space"); return !g_ext; });
    v_replace("db0::ExtSpace::getAbsolute(unsigned long) const", (void *)+[](const ExtSpace *, uint64_t r) -> uint64_t { v_require(g_ext, "only with a mapping"); return ABS(r); });
    v_replace("db0::checkPoisonedOp(unsigned int&)", (void *)+[](unsigned &) {}); return *s;
}
static Q *g_q; static uint64_t g_last;
static void queries() {
    v_replace("db0::SparseIndexQuery::SparseIndexQuery(db0::SparseIndexBase<db0::SI_Item, db0::SI_CompressedItem> const&, db0::DiffIndex const&, unsigned long, unsigned int)", (void *)+[](Q *q, const SparseIndex &a, const DiffIndex &b, uint64_t page, uint32_t st) { v_require(page == g_page, "the page in turn"); v_require(st == g_state, "as of the transaction asked for"); v_require((&a == &((BS *)g_raw)->m_sparse_index) & (&b == &((BS *)g_raw)->m_diff_index), "the indexes of this file"); g_q = q; g_k = 0; v_assume(FIRST(page) == 0 ? FOLD(page, 0) == 0 : !EMPTY(page)); });
    v_replace("db0::SparseIndexQuery::empty() const", (void *)+[](const Q *) -> bool { return EMPTY(g_page); });
    v_replace("db0::SparseIndexQuery::first() const", (void *)+[](const Q *) -> uint64_t { v_require(g_k == 0, "the full image before the differences"); return FIRST(g_page); });
    v_replace("db0::SparseIndexQuery::next(unsigned int&, unsigned long&)", (void *)+[](Q *, uint32_t &st, uint64_t &id) -> bool { if (g_k == NUM(g_page)) return false; st = DSTATE(g_page, g_k); id = DIFF(g_page, g_k); g_k++; return true; });
}
static void readRange(unsigned lo) {
    auto &s = storage(v_inbool("rw"), lo); queries(); if (v_symbolic_mode()) Settings::__storage_validation = false; uint64_t n = v_in32("pages"); v_assume(n < (1u << 20)); g_begin = v_in64("begin"); v_assume(g_begin < (1ull << 40)); g_end = g_begin + n; g_state = v_in32("state"); v_assume(g_state > 0); g_w = v_in64("w"); g_buf = (char *)v_buf("out", n * g_P, 8); g_fl = v_in16("flags"); 
    // the calls for one page, in terms of the page that is in turn
    v_replace("db0::Diff_IO::read(unsigned long, void*) const", (void *)+[](const Diff_IO *, uint64_t id, void *b) { v_require((g_k == 0) & (FIRST(g_page) != 0) & (id == ABS(FIRST(g_page))), "the full image of the page"); v_require((char *)b == g_buf + (g_page - g_begin) * g_P, "into the place of the page"); v_assume(FOLD(g_page, 0) == U("image", id, 0)); wr(b, U("image", id, 0)); });
    v_replace("db0::Diff_IO::applyFrom(unsigned long, void*, std::pair<unsigned long, unsigned int>, std::optional<unsigned long>) const", (void *)+[](const Diff_IO *, uint64_t id, void *b, std::pair<uint64_t, uint32_t> ps, std::optional<uint64_t> nx) {
        uint64_t k = g_k - 1, rel = DIFF(g_page, k); v_require((char *)b == g_buf + (g_page - g_begin) * g_P, "onto the page"); v_require((ps.first == g_page) & (ps.second == DSTATE(g_page, k)), "the difference of this page and transaction"); v_require(id == ABS(rel), "where it was stored");
        // its continuation is the next page of the stream: of the relative numbers if they are used
        uint64_t cap = ((BS *)g_raw)->m_config.m_block_size / (uint32_t)g_P; v_require(nx.has_value() ? g_ext & (*nx == ABS(rel + 1)) : !g_ext | ((id + 1) % cap != 0), "the continuation where it was stored");
        v_assume(FOLD(g_page, k + 1) == applied(FOLD(g_page, k), g_page, ps.second, id, nx.has_value(), nx.has_value() ? *nx : 0)); wr(b, applied(rd(b), g_page, ps.second, id, nx.has_value(), nx.has_value() ? *nx : 0)); });
    g_len = 7; g_lenp = &g_len; v_assume((uint32_t)U("sum", g_begin, 0) == 0);
    bool ro_write = ((g_fl & 2) != 0) & (s.m_access_type == AccessType::READ_ONLY); v_throws(ro_write);
    FlagSet<AccessOptions> f; memcpy(&f, &g_fl, sizeof(f)); s._read(g_begin * g_P, (uint32_t)g_state, n * g_P, g_buf, f, g_lenp); v_cover("read"); V_ASSERT(!ro_write);
    if (n) { V_ASSERT(rd(g_buf + (n - 1) * g_P) == FOLD(g_end - 1, NUM(g_end - 1))); V_ASSERT(!(EMPTY(g_end - 1) & ((g_fl & 1) != 0))); } V_ASSERT(g_len == (uint32_t)U("sum", g_end, 0));
}
#define READ_UNIT(k) V_UNIT(read_range_##k) { readRange(k); }
READ_UNIT(9) READ_UNIT(10) READ_UNIT(11) READ_UNIT(12) READ_UNIT(13) READ_UNIT(14) READ_UNIT(15) READ_UNIT(16)
// ---- writing: each page of the range ends up at a place of its own, under the transaction given
static uint64_t g_at, g_id; static bool g_same, g_firstp, g_over;
static void storeStubs() {
    v_replace("db0::ExtSpace::assignRelative(unsigned long, bool)", (void *)+[](ExtSpace *e, uint64_t id, bool first) -> uint64_t { v_require(g_ext & (e == &((BS *)g_raw)->m_ext_space), "only with a mapping"); v_require(((g_ph == 2) & (id == g_id) & (first == g_firstp)) | ((g_ph == 3) & g_over & (id == g_id + 1) & !first), "the page just stored, with its step mark"); uint64_t r = U("rel", id, 0); v_assume(U("abs", r, 0) == id); g_ph++; return r; });
    v_replace("db0::Diff_IO::append(void const*, bool*)", (void *)+[](Diff_IO *, const void *b, bool *f) -> uint64_t { v_require((g_ph == 1) & !g_same, "a page not yet in this transaction, once"); v_require((char *)b == g_buf + (g_page - g_begin) * g_P, "the content of the page"); g_ph = 2; g_id = v_fresh64(); g_firstp = v_fresh64() & 1; *f = g_firstp; return g_id; });
    v_replace("db0::Diff_IO::write(unsigned long, void*)", (void *)+[](Diff_IO *, uint64_t id, void *b) { v_require((g_ph == 1) & g_same & (id == ABS(g_at)), "the place of the page in this transaction"); v_require((char *)b == g_buf + (g_page - g_begin) * g_P, "the content of the page"); g_ph = 9; });
    v_replace("db0::SparseIndexBase<db0::SI_Item, db0::SI_CompressedItem>::lookup(unsigned long, unsigned int) const", (void *)+[](const SparseIndex *x, uint64_t page, uint32_t st) -> SI_Item { v_require((page == g_page) & (st == g_state) & ((g_ph == 0) | (g_ph == 9)) & (x == &((BS *)g_raw)->m_sparse_index), "the page in turn"); g_ph = 1; SI_Item i; bool found = v_fresh64() & 1; i.m_page_num = page; i.m_state_num = (uint32_t)v_fresh64(); v_assume(i.m_state_num <= st); i.m_storage_page_num = v_fresh64(); if (!found) { i = SI_Item(); } g_at = i.m_storage_page_num; g_same = found & (i.m_state_num == st); return i; });
    v_replace("void db0::SparseIndexBase<db0::SI_Item, db0::SI_CompressedItem>::emplace<unsigned long&, unsigned int&, unsigned long&>(unsigned long&, unsigned int&, unsigned long&)", (void *)+[](SparseIndex *x, uint64_t &page, uint32_t &st, uint64_t &id) { v_require((page == g_page) & (st == g_state) & (x == &((BS *)g_raw)->m_sparse_index), "under this page and transaction"); v_require((g_ph == (g_ext ? 3 : 2)) & (ABS(id) == g_id), "the place where it was stored"); g_ph = 9; });
}
static void writeRange(unsigned shift) {
    auto &s = storage(true, shift); storeStubs(); if (v_symbolic_mode()) { Settings::__storage_validation = false; Settings::__write_poison = 0; } uint64_t n = v_in32("pages"); v_assume(n < (1u << 20)); g_begin = v_in64("begin"); v_assume(g_begin < (1ull << 40)); g_end = g_begin + n; g_state = v_in32("state"); v_assume(g_state > 0); g_buf = (char *)v_buf("data", n * g_P, 8); g_ph = 0;
    s.BS::write(g_begin * g_P, (uint32_t)g_state, n * g_P, g_buf); v_cover("written"); V_ASSERT(g_ph == (n ? 9 : 0));
}
#define WRITE_UNIT(k) V_UNIT(write_range_##k) { writeRange(k); }
WRITE_UNIT(9) WRITE_UNIT(10) WRITE_UNIT(11) WRITE_UNIT(12) WRITE_UNIT(13) WRITE_UNIT(14) WRITE_UNIT(15) WRITE_UNIT(16)
// a difference: only behind an older full image and while the chain is short enough, registered where it was stored
static bool g_left; static uint64_t g_first_state; static unsigned g_max;
static const std::vector<uint16_t> *g_diffs;
V_UNIT(write_difference) {
    auto &s = storage(true); queries(); storeStubs(); if (v_symbolic_mode()) { Settings::__storage_validation = false; Settings::__write_poison = 0; } g_page = g_begin = v_in64("page"); v_assume(g_page < (1ull << 40)); g_state = v_in32("state"); v_assume(g_state > 0); g_buf = (char *)v_buf("data", g_P, 8); g_ph = 0; g_first_state = v_in32("first_state"); v_assume(g_first_state <= g_state); g_left = v_inbool("short"); g_max = v_in32("max"); g_over = v_inbool("two_pages"); static uint64_t ins; ins = 0;
    v_replace("db0::SparseIndexQuery::firstStateNum() const", (void *)+[](const Q *) -> uint32_t { return (uint32_t)g_first_state; });
    v_replace("db0::SparseIndexQuery::leftLessThan(unsigned int) const", (void *)+[](const Q *, unsigned n) -> bool { v_require(n == g_max, "the limit given"); return g_left; });
    v_replace("db0::Diff_IO::appendDiff(void const*, std::pair<unsigned long, unsigned int>, std::vector<unsigned short, std::allocator<unsigned short>> const&, bool*)", (void *)+[](Diff_IO *, const void *b, std::pair<uint64_t, uint32_t> ps, const std::vector<uint16_t> &d, bool *f) -> std::pair<uint64_t, bool> { v_require((g_ph == 0) & ((char *)b == g_buf) & (&d == g_diffs), "the data and its differences, once"); v_require((ps.first == g_page) & (ps.second == g_state), "marked with page and transaction"); g_ph = 2; g_id = v_fresh64(); g_firstp = v_fresh64() & 1; *f = g_firstp; return { g_id, g_over }; });
    v_replace("db0::DiffIndex::insert(unsigned long, unsigned int, unsigned long, bool)", (void *)+[](DiffIndex *x, uint64_t page, uint32_t st, uint64_t id, bool ov) { v_require(x == &((BS *)g_raw)->m_diff_index, "the index of differences"); v_require((page == g_page) & (st == g_state) & (ov == g_over), "under this page and transaction"); v_require((ABS(id) == g_id) & (g_ph == (g_ext ? 3 + g_over : 2)), "where it was stored, continuation included"); ins++; });
    static std::vector<uint16_t> none; g_diffs = &none; bool ok = s.BS::tryWriteDiffs(g_page * g_P, (uint32_t)g_state, g_P, g_buf, none, g_max); V_ASSERT(ok == ((g_first_state != g_state) & g_left)); V_ASSERT(ins == ok); if (ok) v_cover("stored"); else { v_cover("refused"); V_ASSERT(g_ph == 0); }
}
// ---- flush: nothing to do without changes; otherwise everything is in the file, and synced, before the log entry that makes it visible
static unsigned g_step; static uint64_t g_changes, g_endp; static uint32_t g_max_state; static bool g_ended, g_synced;
#define STEP(bit, need, what) v_require((g_step & (need)) == (need), what); v_require(!(g_step & (bit)), "once"); g_step |= (bit);
enum { META = 1, METAF = 2, PAGES = 4, SENTINEL = 8, DPLOG = 16, DRAM = 32, DPF = 64, EXTC = 128, EXTD = 256, EXTF = 512, SYNC1 = 1024, LOG = 2048, SYNC2 = 4096, COMMIT = 8192 };
static void flushStubs() {
    g_step = 0; g_changes = v_in64("changes"); g_max_state = v_in32("max_state"); g_endp = v_in64("end_page");
    v_replace("db0::SparsePair::getChangeLogSize() const", (void *)+[](const SparsePair *) -> size_t { return g_changes; });
    v_replace("db0::SparsePair::getMaxStateNum() const", (void *)+[](const SparsePair *) -> uint32_t { return g_max_state; });
    v_replace("db0::MetaIOStream::checkAndAppend(unsigned int)", (void *)+[](MetaIOStream *, uint32_t st) { STEP(META, 0, "checkpoint first") v_require((st == g_max_state) & (g_step == META), "before the streams are touched"); });
    v_replace("db0::Diff_IO::flush()", (void *)+[](Diff_IO *) { STEP(PAGES, 0, "pages") });
    v_replace("db0::Page_IO::getEndPageNum(bool*) const", (void *)+[](const Page_IO *, bool *f) -> uint64_t { v_require((g_step & PAGES) != 0, "the end after the last page was stored"); *f = g_firstp = v_fresh64() & 1; g_id = g_endp; g_ph = 2; return g_endp; });
    v_replace("db0::SparsePair::extractChangeLog(db0::ChangeLogIOStream<db0::o_change_log<db0::o_dp_changelog_header>>&, unsigned long)", (void *)+[](SparsePair *p, BS::DP_ChangeLogStreamT &log, uint64_t end) { STEP(DPLOG, PAGES, "the list of pages") v_require((&log == &((BS *)g_raw)->m_dp_changelog_io) & (p == &((BS *)g_raw)->m_sparse_pair), "into the page log"); v_require((g_ph == (g_ext ? 3 : 2)) & (ABS(end) == g_endp), "with the end of the pages"); });
    v_replace("db0::DRAM_IOStream::flushUpdates(unsigned int, db0::ChangeLogIOStream<db0::o_change_log<db0::o_dram_changelog_header>>&)", (void *)+[](DRAM_IOStream *d, uint32_t st, BS::DRAM_ChangeLogStreamT &log) { BS &s = *(BS *)g_raw; bool main = d == &s.m_dram_io; v_require(st == g_max_state, "the last transaction"); v_require(!(g_step & LOG), "before the log entry"); if (main) { STEP(DRAM, DPLOG, "the index after the list of pages was taken from it") v_require(&log == &s.m_dram_changelog_io, "the log of the index"); } else { STEP(EXTD, EXTC | DPLOG, "the mapping after its commit") v_require((d == s.m_ext_dram_io.get()) & (&log == s.m_ext_dram_changelog_io.get()) & g_ext, "the log of the mapping"); } });
    v_replace("db0::ExtSpace::commit()", (void *)+[](ExtSpace *) { STEP(EXTC, 0, "mapping") v_require(g_ext, "only with a mapping"); });
    v_replace("db0::BlockIOStream::flush(bool)", (void *)+[](BlockIOStream *b, bool) { BS &s = *(BS *)g_raw; if (b == (BlockIOStream *)&s.m_meta_io) { STEP(METAF, META, "checkpoint") } else if (b == (BlockIOStream *)&s.m_dp_changelog_io) { STEP(DPF, DPLOG, "page log") } else if (b == (BlockIOStream *)s.m_ext_dram_changelog_io.get()) { STEP(EXTF, EXTD, "log of the mapping") } else { v_require(b == (BlockIOStream *)&s.m_dram_changelog_io, "a stream of this file"); STEP(LOG, SYNC1 | METAF | PAGES | DPLOG | DRAM | DPF, "the entry is written last, after everything is in the file") } });
    v_replace("db0::CFile::fsync() const", (void *)+[](const CFile *) { if (!(g_step & LOG)) { STEP(SYNC1, METAF | PAGES | DPLOG | DRAM | DPF, "synced after all writes") v_require(!g_ext | ((g_step & EXTF) != 0), "mapping included"); } else { STEP(SYNC2, LOG, "the entry is synced") } });
    v_replace("db0::SparsePair::commit()", (void *)+[](SparsePair *) { STEP(COMMIT, SYNC2, "after the entry is in the file") });
}
static unsigned char g_dio[sizeof(DRAM_IOStream)] __attribute__((aligned(16))), g_clog[sizeof(BS::DRAM_ChangeLogStreamT)] __attribute__((aligned(16)));
static void extStreams(BS &s, bool on) { memset((void *)&s.m_ext_dram_io, 0, 8); memset((void *)&s.m_ext_dram_changelog_io, 0, 8); if (on) { void *p = g_dio, *q = g_clog; memcpy((void *)&s.m_ext_dram_io, &p, 8); memcpy((void *)&s.m_ext_dram_changelog_io, &q, 8); } }
V_UNIT(flush_order) {
    bool rw = v_inbool("rw"); auto &s = storage(rw); extStreams(s, g_ext); storeStubs(); flushStubs(); v_throws(!rw); bool r = s.BS::flush(nullptr); V_ASSERT(rw); V_ASSERT(r == (g_changes != 0));
    if (!r) { v_cover("nothing"); V_ASSERT(g_step == 0); } else { v_cover("flushed"); V_ASSERT((g_step & COMMIT) != 0); V_ASSERT(((g_step & EXTF) != 0) == g_ext); }
}
// ---- the end of the file: past every stream of it, so that new blocks never land on used ones
static uint64_t g_tails[7]; static unsigned g_seen;
static uint64_t one(unsigned k) { g_seen |= 1u << k; return g_tails[k]; }
static void tailStubs(BS &s, bool ext) {
    extStreams(s, ext); g_seen = 0; for (unsigned i = 0; i < 7; i++) { g_tails[i] = v_in64("tail"); v_assume(g_tails[i] < (1ull << 56)); }
    v_replace("db0::DRAM_IOStream::tail() const", (void *)+[](const DRAM_IOStream *d) -> uint64_t { BS &s = *(BS *)g_raw; if (d == &s.m_dram_io) return one(0); v_require(d == s.m_ext_dram_io.get(), "a stream of this file"); return one(5); });
    v_replace("db0::BlockIOStream::tail() const", (void *)+[](const BlockIOStream *b) -> uint64_t { BS &s = *(BS *)g_raw; if (b == (BlockIOStream *)&s.m_meta_io) return one(1); if (b == (BlockIOStream *)&s.m_dram_changelog_io) return one(2); if (b == (BlockIOStream *)&s.m_dp_changelog_io) return one(3); v_require(b == (BlockIOStream *)s.m_ext_dram_changelog_io.get(), "a stream of this file"); return one(6); });
    v_replace("db0::Page_IO::tail() const", (void *)+[](const Page_IO *) -> uint64_t { return one(4); });
}
V_UNIT(file_tail) {
    auto &s = storage(true); bool ext = v_inbool("streams"), blocks = v_inbool("blocks"); tailStubs(s, ext); uint64_t t = blocks ? s.getBlockIOTailFunction()() : v_inbool("direct") ? s.tail() : s.getTailFunction()(); v_cover("tail"); bool eq = false;
    for (unsigned i = 0; i < 7; i++) { bool counts = (i < 4) | ((i == 4) & !blocks) | ((i > 4) & ext); V_ASSERT(!counts | (t >= g_tails[i])); eq |= counts & (t == g_tails[i]); } V_ASSERT(eq);
}
// ---- where writing continues
static uint64_t g_a, g_cnt; static bool g_bn; static uint32_t g_stepsz, g_bnv; static unsigned g_made;
static void continueAt(unsigned shift) {
    bool ext = v_inbool("streams"); auto &s = storage(true, shift); tailStubs(s, ext); std::optional<uint64_t> hint; bool h = v_inbool("known"); uint64_t p = v_in64("next_page"); v_assume((p >= 1) & (p < (1ull << 40))); if (h) hint = p; uint32_t st = v_in32("steps"); uint64_t cap = s.m_config.m_block_size / g_P; g_made = 0; static unsigned char out[sizeof(Diff_IO)] __attribute__((aligned(16)));
    v_replace("db0::Diff_IO::Diff_IO(unsigned long, db0::CFile&, unsigned int, unsigned int, unsigned long, unsigned int, unsigned int, std::function<unsigned long ()>, std::optional<unsigned int>)", (void *)+[](Diff_IO *, size_t header, CFile &f, uint32_t ps, uint32_t bs, uint64_t a, uint32_t n, uint32_t st, std::function<uint64_t()> tail, std::optional<uint32_t> bn) { BS &s = *(BS *)g_raw; v_require((&f == &s.m_file) & (header == BS::CONFIG_BLOCK_SIZE) & (ps == s.m_config.m_page_size) & (bs == s.m_config.m_block_size), "the layout of this file"); g_a = a; g_cnt = n; g_stepsz = st; g_bn = bn.has_value(); g_bnv = g_bn ? *bn : 0; g_made++; });
    v_replace("db0::Diff_IO::~Diff_IO()", (void *)+[](Diff_IO *) {}); { Diff_IO d = s.getPage_IO(hint, st); } V_ASSERT((g_made == 1) & (g_stepsz == st));
    if (h) { v_cover("after_pages"); V_ASSERT((g_cnt >= 1) & (g_cnt <= cap)); V_ASSERT(g_a + g_cnt * g_P == BS::CONFIG_BLOCK_SIZE + p * g_P); V_ASSERT((g_a - BS::CONFIG_BLOCK_SIZE) % s.m_config.m_block_size == 0); V_ASSERT(!g_bn); }
    else { v_cover("first"); bool eq = false; for (unsigned i = 0; i < 7; i++) { bool counts = (i < 4) | ((i > 4) & ext); V_ASSERT(!counts | (g_a >= g_tails[i])); eq |= counts & (g_a == g_tails[i]); } V_ASSERT(eq); V_ASSERT((g_cnt == 0) & g_bn & (g_bnv == 0)); }
}
#define CONTINUE_UNIT(k) V_UNIT(continue_at_##k) { continueAt(k); }
CONTINUE_UNIT(9) CONTINUE_UNIT(10) CONTINUE_UNIT(11) CONTINUE_UNIT(12) CONTINUE_UNIT(13) CONTINUE_UNIT(14) CONTINUE_UNIT(15) CONTINUE_UNIT(16)
static bool g_known; static uint64_t g_np;
V_UNIT(next_page) {
    auto &s = storage(true); bool noload = v_inbool("no_load"); memset((void *)&s.m_flags, 0, sizeof(s.m_flags)); if (noload) s.m_flags.set(StorageOptions::NO_LOAD); g_known = v_inbool("known"); g_np = v_in64("next"); static uint64_t size; size = v_in64("size"); uint64_t k = v_in32("pages"); v_assume(size == 4096 + k * g_P);
    v_replace("db0::CFile::size() const", (void *)+[](const CFile *) -> size_t { return size; }); v_replace("db0::SparsePair::getNextStoragePageNum() const", (void *)+[](const SparsePair *) -> std::optional<uint64_t> { std::optional<uint64_t> r; if (g_known) r = g_np; return r; });
    auto r = s.getNextStoragePageNum(); if (noload) { v_cover("from_file"); V_ASSERT(r.has_value() && *r == k); } else { v_cover("from_log"); V_ASSERT(r.has_value() == g_known); if (g_known) V_ASSERT(*r == ABS(g_np)); }
}
V_UNIT(begin_refresh) {
    bool rw = v_inbool("rw"); auto &s = storage(rw); static unsigned n; n = 0; static bool more; more = v_inbool("more"); bool was = v_inbool("pending"); s.m_refresh_pending = was; v_replace("db0::BlockIOStream::refresh()", (void *)+[](BlockIOStream *b) -> bool { v_require(b == (BlockIOStream *)&((BS *)g_raw)->m_dram_changelog_io, "the log that announces transactions"); n++; return more; });
    v_throws(rw); bool r = s.BS::beginRefresh(); v_cover("asked"); V_ASSERT(!rw); V_ASSERT(r == (was | more)); V_ASSERT(n == !was); V_ASSERT(s.m_refresh_pending == r);
}
V_UNIT(find_mutation) {
    auto &s = storage(v_inbool("rw")); static bool found; found = v_inbool("found"); static uint32_t at; at = v_in32("at"); g_page = v_in64("page"); g_state = v_in32("state");
    v_replace("db0::tryFindMutation(db0::SparseIndexBase<db0::SI_Item, db0::SI_CompressedItem> const&, db0::DiffIndex const&, unsigned long, unsigned int, unsigned int&)", (void *)+[](const SparseIndex &a, const DiffIndex &b, uint64_t p, uint32_t st, uint32_t &r) -> bool { v_require((p == g_page) & (st == g_state) & (&a == &((BS *)g_raw)->m_sparse_index) & (&b == &((BS *)g_raw)->m_diff_index), "this page as of this transaction"); if (found) r = at; return found; });
    uint32_t r = 5; bool ok = s.BS::tryFindMutation(g_page, (uint32_t)g_state, r); V_ASSERT(ok == found); V_ASSERT(r == (found ? at : 5)); v_cover("tried"); if (found) { V_ASSERT(s.BS::findMutation(g_page, (uint32_t)g_state) == at); v_cover("found"); }
}
