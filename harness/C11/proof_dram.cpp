// Contracts on the stream of index pages: which page images are taken over when it is loaded or followed, which places are free
// to be overwritten, where a changed page is stored. The sets and maps are seen through one arbitrary address / the page in
// question; the containers themselves, the block stream (C03) and the hash function are contracts.
#include <v.h>
#include <vrt.hpp>
#include <cstring>
static uint64_t g_x, g_left, g_cur, g_log_has; static bool g_m, g_lx, g_found; static unsigned g_n;
#define INV_dram_last_log v_variant(g_left); v_inv((g_left >= 1) & ((!g_lx) | g_log_has));
static bool placeFree();
#define INV_dram_find_reusable v_variant(g_left); v_inv((g_left >= 1) & (it == si(&g_node)) & placeFree());
static struct { void *next; uint64_t k; char *b, *e, *c; } g_item; static bool g_vasked;
#define INV_dram_apply v_variant(g_left); v_inv((g_left >= 1) & (is_consistent == g_okall) & (g_n == 0) & !g_vasked & ((const void *)&item == (const void *)&g_item.k));
#include <unordered_set>
#include <unordered_map>
typedef std::unordered_set<uint64_t> Set; static struct { void *next; uint64_t v; } g_node; static Set::iterator si(void *p) { Set::iterator i; memcpy((void *)&i, &p, 8); return i; }
#undef DB0_INVARIANT
#define DB0_INVARIANT(x) INV_##x
static bool g_okall;
#include <dbzero/core/memory/config.cpp>
#include <dbzero/core/storage/DRAM_IOStream.cpp>
using namespace db0; typedef DRAM_IOStream DS;
typedef std::unordered_map<uint32_t, DRAM_PageInfo> Map;
static unsigned char g_raw[sizeof(DS)] __attribute__((aligned(16)));
static struct MN { void *next; uint32_t k; DRAM_PageInfo v; } g_mnode; static DRAM_PageInfo g_new; static bool g_known; static uint32_t g_key; static unsigned g_upd, g_alloc_ins; static uint64_t g_upd_page, g_alloc_v; static const void *g_allocs; static unsigned g_newn; static uint64_t g_x2; static bool g_mark;
static bool placeFree() { return ((g_node.v != g_x) | g_m) & !(g_known & (g_node.v == g_mnode.v.m_address)); }
static DS &dram(bool rw) {
    DS *s = (DS *)g_raw; const_cast<AccessType &>(s->m_access_type) = rw ? AccessType::READ_WRITE : AccessType::READ_ONLY; uint32_t ps = v_in32("dram_page_size"); v_assume((ps >= 64) & (ps <= (1u << 20))); const_cast<uint32_t &>(s->m_dram_page_size) = ps; const_cast<size_t &>(s->m_chunk_size) = ps + sizeof(o_dram_chunk_header);
    g_x = v_in64("an_address"); g_m = v_inbool("free"); g_n = g_upd = g_alloc_ins = g_newn = 0; g_allocs = nullptr;
    v_replace("std::unordered_set<unsigned long, std::hash<unsigned long>, std::equal_to<unsigned long>, std::allocator<unsigned long>>::insert(unsigned long const&)", (void *)+[](Set *t, const uint64_t &k) -> std::pair<Set::iterator, bool> { if (t == &((DS *)g_raw)->m_reusable_chunks) { if (k == g_x) g_m = true; } else { v_require(t == (const void *)g_allocs, "the set of allocations"); g_alloc_ins++; g_alloc_v = k; } return { si(nullptr), true }; });
    v_replace("std::unordered_set<unsigned long, std::hash<unsigned long>, std::equal_to<unsigned long>, std::allocator<unsigned long>>::insert(unsigned long&&)", (void *)+[](Set *t, uint64_t &&k) -> std::pair<Set::iterator, bool> { v_require(t == (const void *)g_allocs, "the set of allocations"); g_alloc_ins++; g_alloc_v = k; return { si(nullptr), true }; });
    v_replace("std::unordered_set<unsigned long, std::hash<unsigned long>, std::equal_to<unsigned long>, std::allocator<unsigned long>>::find(unsigned long const&)", (void *)+[](Set *t, const uint64_t &k) -> Set::iterator { v_require(t == &((DS *)g_raw)->m_reusable_chunks, "the free places"); bool f = k == g_x ? g_m : v_fresh64() & 1; g_node.v = k; return si(f ? &g_node : nullptr); });
    v_replace("std::unordered_set<unsigned long, std::hash<unsigned long>, std::equal_to<unsigned long>, std::allocator<unsigned long>>::erase(std::__detail::_Node_iterator<unsigned long, true, false>)", (void *)+[](Set *t, Set::iterator i) -> Set::iterator { v_require((t == &((DS *)g_raw)->m_reusable_chunks) & (i == si(&g_node)), "the place found"); if (g_node.v == g_x) g_m = false; return si(nullptr); });
    v_replace("std::unordered_map<unsigned int, db0::DRAM_PageInfo, std::hash<unsigned int>, std::equal_to<unsigned int>, std::allocator<std::pair<unsigned int const, db0::DRAM_PageInfo>>>::find(unsigned int const&)", (void *)+[](Map *t, const uint32_t &k) -> Map::iterator { v_require(k == g_key, "the page in question"); Map::iterator i; void *p = g_known ? &g_mnode : nullptr; memcpy((void *)&i, &p, 8); return i; });
    v_replace("std::unordered_map<unsigned int, db0::DRAM_PageInfo, std::hash<unsigned int>, std::equal_to<unsigned int>, std::allocator<std::pair<unsigned int const, db0::DRAM_PageInfo>>>::operator[](unsigned int const&)", (void *)+[](Map *t, const uint32_t &k) -> DRAM_PageInfo & { v_require(k == g_key, "the page in question"); g_newn++; return g_new; });
    v_replace("std::unordered_map<unsigned int, db0::DRAM_PageInfo, std::hash<unsigned int>, std::equal_to<unsigned int>, std::allocator<std::pair<unsigned int const, db0::DRAM_PageInfo>>>::operator[](unsigned int&&)", (void *)+[](Map *t, uint32_t &&k) -> DRAM_PageInfo & { v_require(k == g_key, "the page in question"); g_newn++; return g_new; });
    v_replace("db0::DRAM_Prefix::update(unsigned long, bool)", (void *)+[](DRAM_Prefix *, size_t n, bool dirty) -> void * { v_require(!dirty, "not a change of this process"); g_upd++; g_upd_page = n; return g_raw; });
    g_known = v_inbool("known"); g_mnode.v.m_state_num = v_in32("known_state"); g_mnode.v.m_address = v_in64("known_address"); g_new = DRAM_PageInfo(); return *s;
}
static unsigned char g_hb[sizeof(o_dram_chunk_header)];
static o_dram_chunk_header &header() { auto h = new (g_hb) o_dram_chunk_header(); h->m_hash = v_in64("hash"); h->m_state_num = v_in32("state"); h->m_page_num = v_in32("page"); g_key = (uint32_t)h->m_page_num; g_mnode.k = g_key; return *h; }
// a stored image is taken over iff it belongs to a finished transaction and is not older than the one known
V_UNIT(take_over) {
    bool rw = v_inbool("rw"), ask = v_inbool("ask"); auto &s = dram(rw); auto &h = header(); uint64_t a = v_in64("address"); uint32_t max = v_in32("max"); v_assume(max < 0xffffffffu); if (v_inbool("loading")) g_allocs = &g_hb; bool cons = v_inbool("before"), was = cons, m0 = g_m; uint64_t olda = g_mnode.v.m_address;
    bool empty = (h.m_hash == 0) & (h.m_state_num == 0) & (h.m_page_num == 0), take = !empty & (h.m_state_num <= max) & (!g_known | (h.m_state_num >= g_mnode.v.m_state_num));
    void *r = s.updateDRAMPage(a, (std::unordered_set<size_t> *)g_allocs, h, max, ask ? &cons : nullptr); V_ASSERT((r != nullptr) == take); V_ASSERT(g_upd == take); V_ASSERT(ask ? cons == (empty | (h.m_state_num <= max + 1)) : cons == was);
    V_ASSERT(g_newn == take); V_ASSERT(g_alloc_ins == (take & !g_known & (g_allocs != nullptr)));
    if (take) { v_cover("taken"); V_ASSERT(g_upd_page == h.m_page_num); V_ASSERT((g_new.m_state_num == h.m_state_num) & (g_new.m_address == a)); if (g_alloc_ins) V_ASSERT(g_alloc_v == h.m_page_num * s.m_dram_page_size); V_ASSERT(g_m == ((g_x != a) & (m0 | (rw & g_known & (g_x == olda))))); }
    else { v_cover("left"); V_ASSERT(g_m == (m0 | (rw & (g_x == a)))); }
}
static uint64_t g_hash; static const void *g_hd;
static void hashStub() { g_hash = v_in64("calculated"); v_replace("db0::murmurhash64A(void const*, unsigned long, unsigned long)", (void *)+[](const void *d, size_t n, uint64_t seed) -> uint64_t { v_require((d == g_hd) & (n == ((DS *)g_raw)->m_dram_page_size), "the content of the page"); v_require(seed == (uint64_t)((o_dram_chunk_header *)g_hb)->m_page_num + ((o_dram_chunk_header *)g_hb)->m_state_num, "with page and transaction"); return g_hash; }); }
V_UNIT(valid) {
    auto &s = dram(true); auto &h = header(); hashStub(); uint64_t n = v_in32("bytes"); const char *d = (const char *)v_buf("data", n, 8); g_hd = d; v_throws(n < s.m_dram_page_size); bool r = isDRAM_ChunkValid(s.m_dram_page_size, h, d, d + n); v_cover("checked"); V_ASSERT(n >= s.m_dram_page_size); bool empty = (h.m_hash == 0) & (h.m_state_num == 0) & (h.m_page_num == 0); V_ASSERT(r == (!empty & (h.m_hash == g_hash)));
}
// ---- storing changed pages: one arbitrary page of the flush. It never overwrites what the last log entry announced.
typedef o_change_log<o_dram_changelog_header> CL;
static bool g_last, g_lx0, g_m0, g_reuse, g_dirty; static uint64_t g_addr, g_wr_n, g_pg, g_kk, g_iter0; static uint8_t g_byte; static uint32_t g_st; static const char *g_pb; static char *g_rb; static unsigned g_add, g_app, g_ev; static uint64_t g_clen, g_cfirst;
static void chunkHeader(const void *p) { o_dram_chunk_header h; memcpy((void *)&h, p, sizeof(h)); v_require((h.m_state_num == g_st) & (h.m_page_num == g_pg), "marked with page and transaction"); v_require(h.m_hash == g_hash, "with the hash of the content"); }
V_UNIT(store_page) {
    bool rw = v_inbool("rw"); auto &s = dram(rw); g_st = v_in32("state"); g_pg = v_in32("page"); g_key = (uint32_t)g_pg; g_dirty = v_inbool("dirty"); g_last = v_inbool("has_last"); uint64_t ps = s.m_dram_page_size; g_pb = (const char *)v_buf("page_bytes", ps, 1); g_kk = v_in32("k"); v_assume(g_kk < ps); g_byte = g_pb[g_kk]; g_rb = (char *)v_buf("chunk", ps + 24, 1); g_hash = v_in64("calculated"); g_add = g_app = g_ev = 0; g_wr_n = 0; g_lx = false; g_lx0 = v_inbool("in_last") & g_last; g_log_has = g_lx0; g_reuse = false; g_m0 = g_m; g_addr = 0; g_clen = 0; g_cfirst = 0;
    memset((void *)&s.m_prefix, 0, 16); // invariant: the place of a known page is not free
    v_assume(!(g_known & g_m & (g_x == g_mnode.v.m_address)));
    v_replace("db0::ChangeLogIOStream<db0::o_change_log<db0::o_dram_changelog_header>>::getLastChangeLogChunk() const", (void *)+[](const DS::DRAM_ChangeLogStreamT *) -> const CL * { return g_last ? (const CL *)g_hb : nullptr; });
    v_replace("db0::o_change_log<db0::o_dram_changelog_header>::begin() const", (void *)+[](const CL *c) -> CL::ConstIterator { g_left = v_fresh64(); alignas(16) unsigned char b[sizeof(CL::ConstIterator)] = {0}; return *(CL::ConstIterator *)b; }); v_replace("db0::o_change_log<db0::o_dram_changelog_header>::end() const", (void *)+[](const CL *c) -> CL::ConstIterator { alignas(16) unsigned char b[sizeof(CL::ConstIterator)] = {0}; return *(CL::ConstIterator *)b; });
    v_replace("db0::o_change_log<db0::o_dram_changelog_header>::ConstIterator::operator!=(db0::o_change_log<db0::o_dram_changelog_header>::ConstIterator const&) const", (void *)+[](const CL::ConstIterator *, const CL::ConstIterator &) -> bool { if (g_left == 0) v_assume(!g_log_has | g_lx); return g_left != 0; });
    v_replace("db0::o_change_log<db0::o_dram_changelog_header>::ConstIterator::operator++()", (void *)+[](CL::ConstIterator *c) -> CL::ConstIterator & { g_left--; return *c; });
    v_replace("db0::o_change_log<db0::o_dram_changelog_header>::ConstIterator::operator*() const", (void *)+[](const CL::ConstIterator *) -> uint64_t { uint64_t a = v_fresh64(); v_assume((a != g_x) | g_log_has); return a; });
    v_replace("std::unordered_set<unsigned long, std::hash<unsigned long>, std::equal_to<unsigned long>, std::allocator<unsigned long>>::insert(unsigned long const&)", (void *)+[](Set *t, const uint64_t &k) -> std::pair<Set::iterator, bool> { if (t == &((DS *)g_raw)->m_reusable_chunks) { if (k == g_x) g_m = true; } else { if (k == g_x) g_lx = true; } return { si(nullptr), true }; });
    v_replace("std::unordered_set<unsigned long, std::hash<unsigned long>, std::equal_to<unsigned long>, std::allocator<unsigned long>>::insert(unsigned long&&)", (void *)+[](Set *t, uint64_t &&k) -> std::pair<Set::iterator, bool> { v_require(t != &((DS *)g_raw)->m_reusable_chunks, "the set of the last entry"); if (k == g_x) g_lx = true; return { si(nullptr), true }; });
    v_replace("std::unordered_set<unsigned long, std::hash<unsigned long>, std::equal_to<unsigned long>, std::allocator<unsigned long>>::begin()", (void *)+[](Set *t) -> Set::iterator { v_require(t == &((DS *)g_raw)->m_reusable_chunks, "the free places"); g_left = v_fresh64(); if (!g_left) return si(nullptr); g_node.v = v_fresh64(); v_assume((g_node.v != g_x) | g_m); v_assume(!(g_known & (g_node.v == g_mnode.v.m_address))); return si(&g_node); });
    v_replace("std::__detail::_Node_iterator<unsigned long, true, false>::operator++()", (void *)+[](Set::iterator *i) -> Set::iterator & { g_left--; if (!g_left) *i = si(nullptr); else { *i = si(&g_node); g_node.v = v_fresh64(); v_assume((g_node.v != g_x) | g_m); v_assume(!(g_known & (g_node.v == g_mnode.v.m_address))); } return *i; });
    v_replace("std::unordered_set<unsigned long, std::hash<unsigned long>, std::equal_to<unsigned long>, std::allocator<unsigned long>>::find(unsigned long const&)", (void *)+[](Set *t, const uint64_t &k) -> Set::iterator { bool res = t == &((DS *)g_raw)->m_reusable_chunks; bool f; if (k == g_x) f = res ? g_m : g_lx; else f = v_fresh64() & 1; g_node.v = k; return si(f ? &g_node : nullptr); });
    v_replace("db0::BlockIOStream::prepareChunk(unsigned long, std::vector<char, std::allocator<char>>&) const", (void *)+[](const BlockIOStream *, size_t n, std::vector<char> &v) -> char * { v_require(n == ((DS *)g_raw)->m_chunk_size, "a whole chunk"); v._M_impl._M_start = g_rb; v._M_impl._M_finish = v._M_impl._M_end_of_storage = g_rb + n + 4; return g_rb + 4; }); v_replace("std::vector<char, std::allocator<char>>::~vector()", (void *)+[](std::vector<char> *) {});
    v_replace("db0::murmurhash64A(void const*, unsigned long, unsigned long)", (void *)+[](const void *d, size_t n, uint64_t seed) -> uint64_t { v_require((d == g_pb) & (n == ((DS *)g_raw)->m_dram_page_size), "the content of the page"); v_require(seed == g_pg + g_st, "with page and transaction"); return g_hash; });
    v_replace("db0::BlockIOStream::writeToChunk(unsigned long, void const*, unsigned long)", (void *)+[](BlockIOStream *, uint64_t a, const void *b, size_t n) { v_require((b == g_rb) & (n == ((DS *)g_raw)->m_chunk_size + 4), "the whole chunk"); v_require((a != g_x) | (g_m0 & !g_lx0), "only a free place that the last entry does not name"); chunkHeader(g_rb + 4); v_require((uint8_t)g_rb[4 + sizeof(o_dram_chunk_header) + g_kk] == g_byte, "the content of the page"); g_wr_n++; g_addr = a; g_reuse = true; });
    v_replace("db0::BlockIOStream::addChunk(db0::o_block_io_chunk_header, unsigned long*)", (void *)+[](BlockIOStream *, o_block_io_chunk_header h, uint64_t *a) { v_require((h.m_chunk_size == ((DS *)g_raw)->m_chunk_size) & (g_add == 0), "one chunk"); g_add++; g_addr = *a = v_fresh64(); v_assume(!(g_known & (g_addr == g_mnode.v.m_address))); v_assume((g_addr != g_x) | (!g_m & !g_lx0)); });
    v_replace("db0::BlockIOStream::appendToChunk(void const*, unsigned long)", (void *)+[](BlockIOStream *, const void *b, size_t n) { v_require(g_add == 1, "into the new chunk"); if (g_app == 0) { v_require(n == sizeof(o_dram_chunk_header), "the header first"); chunkHeader(b); } else v_require((g_app == 1) & (b == g_pb) & (n == ((DS *)g_raw)->m_dram_page_size), "then the content"); g_app++; });
    v_replace("db0::BlockIOStream::tellBlock() const", (void *)+[](const BlockIOStream *) -> std::pair<size_t, size_t> { return { v_fresh64(), 0 }; }); v_replace("db0::checkPoisonedOp(unsigned int&)", (void *)+[](unsigned &) {}); if (v_symbolic_mode()) Settings::__dram_io_flush_poison = 0;
    v_replace("db0::DRAM_Prefix::flushDirty(std::function<void (unsigned long, void const*)>) const", (void *)+[](const DRAM_Prefix *, std::function<void(uint64_t, const void *)> f) { v_require(!g_log_has | g_lx, "the last entry is known by now"); if (g_dirty) f(g_pg, g_pb); });
    v_replace("db0::BlockIOStream::flush(bool)", (void *)+[](BlockIOStream *b, bool) { v_require((g_ev == 0) & (b == (BlockIOStream *)g_raw), "the pages before the log entry"); g_ev = 1; });
    v_replace("db0::ChangeLogData::ChangeLogData(std::vector<unsigned long, std::allocator<unsigned long>>&&, bool, bool, bool)", (void *)+[](ChangeLogData *, std::vector<uint64_t> &&v, bool rle, bool dup, bool) { g_clen = v.size(); if (g_clen) g_cfirst = v[0]; v_require(!rle, "every address once, as it is"); }); v_replace("db0::ChangeLogData::~ChangeLogData()", (void *)+[](ChangeLogData *) {});
    v_replace("db0::o_change_log<db0::o_dram_changelog_header> const& db0::ChangeLogIOStream<db0::o_change_log<db0::o_dram_changelog_header>>::appendChangeLog<unsigned int&>(db0::ChangeLogData&&, unsigned int&)", (void *)+[](DS::DRAM_ChangeLogStreamT *, ChangeLogData &&, uint32_t &st) -> const CL & { v_require((g_ev == 1) & (st == g_st), "announced after the pages, under this transaction"); g_ev = 2; return *(const CL *)g_hb; });
    static unsigned char log[sizeof(DS::DRAM_ChangeLogStreamT)] __attribute__((aligned(16))); uint64_t olda = g_mnode.v.m_address; v_throws(!rw); s.flushUpdates(g_st, *(DS::DRAM_ChangeLogStreamT *)log); V_ASSERT(rw); V_ASSERT(g_ev == 2); V_ASSERT(g_clen == g_dirty); V_ASSERT(g_wr_n + g_add == g_dirty); V_ASSERT(g_app == 2 * g_add); V_ASSERT(g_newn == g_dirty);
    if (g_dirty) { if (g_reuse) v_cover("overwritten"); else v_cover("appended"); V_ASSERT(g_cfirst == g_addr); V_ASSERT((g_new.m_state_num == g_st) & (g_new.m_address == g_addr)); V_ASSERT(g_m == ((g_x != g_addr) & (g_m0 | (g_known & (g_x == olda))))); } else { v_cover("nothing"); V_ASSERT(g_m == g_m0); }
}
// ---- following: every chunk read ahead is taken over if it is whole; one that is not, or is too new, makes the refresh repeat
typedef std::unordered_map<uint64_t, std::vector<char>> Ahead; typedef std::pair<const uint64_t, std::vector<char>> Item;
static bool g_valid; static uint32_t g_maxs; static unsigned g_clears;
static Ahead::iterator ai(void *p) { Ahead::iterator i; memcpy((void *)&i, &p, 8); return i; }
static void visited() { v_require((g_n == (g_vasked & g_valid)) & g_vasked, "each chunk is checked, and taken over iff it is whole"); }
V_UNIT(apply_ahead) {
    auto &s = dram(false); uint64_t n = s.m_chunk_size + 4; g_item.b = (char *)v_buf("chunk", n, 1); g_item.e = g_item.c = g_item.b + n; g_maxs = v_in32("max"); g_okall = true; g_clears = 0; g_vasked = false; g_left = v_in64("chunks");
    v_replace("std::unordered_map<unsigned long, std::vector<char, std::allocator<char>>, std::hash<unsigned long>, std::equal_to<unsigned long>, std::allocator<std::pair<unsigned long const, std::vector<char, std::allocator<char>>>>>::begin()", (void *)+[](Ahead *t) -> Ahead::iterator { v_require(t == &((DS *)g_raw)->m_read_ahead_chunks, "the chunks read ahead"); g_item.k = v_fresh64(); g_n = 0; g_vasked = false; return ai(g_left ? &g_item : nullptr); });
    v_replace("std::unordered_map<unsigned long, std::vector<char, std::allocator<char>>, std::hash<unsigned long>, std::equal_to<unsigned long>, std::allocator<std::pair<unsigned long const, std::vector<char, std::allocator<char>>>>>::end()", (void *)+[](Ahead *t) -> Ahead::iterator { return ai(nullptr); });
    v_replace("std::unordered_map<unsigned long, std::vector<char, std::allocator<char>>, std::hash<unsigned long>, std::equal_to<unsigned long>, std::allocator<std::pair<unsigned long const, std::vector<char, std::allocator<char>>>>>::clear()", (void *)+[](Ahead *t) { v_require(t == &((DS *)g_raw)->m_read_ahead_chunks, "the chunks read ahead"); g_clears++; });
    v_replace("std::__detail::_Node_iterator<std::pair<unsigned long const, std::vector<char, std::allocator<char>>>, false, false>::operator++()", (void *)+[](Ahead::iterator *i) -> Ahead::iterator & { visited(); g_left--; g_n = 0; g_vasked = false; g_item.k = v_fresh64(); *i = ai(g_left ? &g_item : nullptr); return *i; });
    v_replace("db0::isDRAM_ChunkValid(unsigned int, db0::o_dram_chunk_header const&, void const*, void const*)", (void *)+[](uint32_t ps, const o_dram_chunk_header &h, const void *b, const void *e) -> bool { v_require(((const char *)&h == g_item.b + 4) & (b == g_item.b + 4 + sizeof(h)) & (e == g_item.e) & (ps == ((DS *)g_raw)->m_dram_page_size), "the chunk in turn"); g_vasked = true; g_valid = v_fresh64() & 1; if (!g_valid) g_okall = false; return g_valid; });
    v_replace("db0::DRAM_IOStream::updateDRAMPage(unsigned long, std::unordered_set<unsigned long, std::hash<unsigned long>, std::equal_to<unsigned long>, std::allocator<unsigned long>>*, db0::o_dram_chunk_header const&, void const*, unsigned int, bool*)", (void *)+[](DS *, uint64_t a, Set *al, const o_dram_chunk_header &h, const void *d, uint32_t max, bool *c) { v_require(g_vasked & g_valid & (g_n == 0), "a whole chunk, once"); v_require((a == g_item.k) & (al == nullptr) & ((const char *)&h == g_item.b + 4) & (d == g_item.b + 4 + sizeof(h)) & (max == g_maxs), "this chunk, up to the transaction followed"); g_n = 1; *c = v_fresh64() & 1; if (!*c) g_okall = false; });
    bool r = s.completeApplyChanges(g_maxs); v_cover("applied"); V_ASSERT(r == g_okall); V_ASSERT((g_clears == 1) & (g_left == 0));
}
V_UNIT(take_over_bytes) {
    auto &s = dram(v_inbool("rw")); auto &h = header(); static bool take; take = v_inbool("take"); static char *out; out = (char *)v_buf("page", s.m_dram_page_size, 1); const char *in = (const char *)v_buf("bytes", s.m_dram_page_size, 1); g_kk = v_in32("k"); v_assume(g_kk < s.m_dram_page_size); uint8_t b = in[g_kk], o = out[g_kk]; static uint64_t a; a = v_in64("address"); g_maxs = v_in32("max"); static bool c;
    v_replace("db0::DRAM_IOStream::updateDRAMPage(unsigned long, std::unordered_set<unsigned long, std::hash<unsigned long>, std::equal_to<unsigned long>, std::allocator<unsigned long>>*, db0::o_dram_chunk_header const&, unsigned int, bool*)", (void *)+[](DS *, uint64_t a2, Set *al, const o_dram_chunk_header &h, uint32_t max, bool *pc) -> void * { v_require((a2 == a) & (al == (Set *)g_hb) & (&h == (void *)g_hb) & (max == g_maxs) & (pc == &c), "as given"); return take ? out : nullptr; });
    s.updateDRAMPage(a, (std::unordered_set<size_t> *)g_hb, h, in, g_maxs, &c); v_cover("done"); V_ASSERT((uint8_t)out[g_kk] == (take ? b : o));
}
