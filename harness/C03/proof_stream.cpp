// Contracts on the block stream, for every block size, position, content and size of the data moved: the stream is a sequence of
// payload bytes g_t -> value, seen through one arbitrary logical position g_t. Loop invariants in place (DB0_INVARIANT hooks).
#include <v.h>
#include <vrt.hpp>
#include <cstring>
static void hav(void *p, uint64_t n) { memcpy(p, v_buf("content", n, 1), n); }
static uint64_t g_B, g_P, g_base, g_p0, g_n, g_t; static uint8_t g_old, g_disk; static const char *g_src; static char *g_dst; static bool g_failed, g_read; static unsigned g_where;
static uint64_t X(uint64_t id, uint64_t i) { return v_uf("xor", id, i); } // xor of the words below i
static const uint64_t *g_words;
#define INV_stream_checksum v_variant((uint64_t)(int_end - int_begin)); { uint64_t i_ = int_begin - g_words; v_inv((i_ <= g_n) & ((((const char *)int_begin - (const char *)g_words) & 7) == 0) & (checksum == X(0, i_))); v_assume(X(0, i_ + 1) == (X(0, i_) ^ *int_begin)); }
#define OFF ((uint64_t)(m_block_pos - m_block_begin))
#define INSIDE (g_t - g_base < g_P)
#define HERE ((uint8_t)m_block_begin[v_ite(INSIDE, g_t - g_base, 0)])
#define NEW(k) (g_t - g_p0 < (k))
#define STORED v_ite(g_t < g_base, g_disk, v_ite(INSIDE, HERE, 0))
#define WANTED(k) (g_where == 0 ? g_old : g_where == 2 ? 0 : v_ite(NEW(k), (uint8_t)g_src[g_t - g_p0], 0)) // before, behind or inside the data
#define INV_stream_write v_variant(size); { uint64_t k_ = g_n - size; v_inv((size <= g_n) & (in == g_src + k_) & (OFF <= g_P) & (g_base + OFF == g_p0 + k_) & (g_base < (1ull << 40)) & (STORED == WANTED(k_)) & m_modified_or_first(k_)); }
#define m_modified_or_first(k) ((k == 0) | m_modified)
#define INV_stream_read v_variant(size); { uint64_t k_ = g_n - size; v_inv((size <= g_n) & (out == g_dst + k_) & (OFF <= g_P) & (g_base + OFF == g_p0 + k_) & (g_base < (1ull << 40)) & (!g_failed) & ((g_where != 1) || (!NEW(k_) | ((uint8_t)g_dst[g_t - g_p0] == g_old))) & (!INSIDE | (HERE == g_old))); }
#define INV_stream_skip v_variant(size); { uint64_t k_ = g_n - size; v_inv((size <= g_n) & (OFF <= g_P) & (g_base + OFF == g_p0 + k_) & (g_base < (1ull << 40)) & (!g_failed) & (!INSIDE | (HERE == g_old))); }
#undef DB0_INVARIANT
#define DB0_INVARIANT(x) INV_##x
#include <dbzero/core/storage/BlockIOStream.cpp>
using namespace db0; typedef BlockIOStream BS;
// ---- a stream in an arbitrary state; the file is a contract
static unsigned char g_sf[sizeof(CFile)] __attribute__((aligned(16))), g_ss[sizeof(BS)] __attribute__((aligned(16))); static bool g_cs; static uint64_t g_fsize, g_k; static AccessType g_access;
static uint64_t g_w_addr, g_w_n; static uint8_t g_w_byte; static uint64_t g_w_next, g_w_sum; static uint64_t g_r_addr, g_r_n; static uint8_t g_r_byte; static uint64_t g_r_sum, g_flushes;
static void c_write(CFile *f, uint64_t a, size_t n, const void *b) { g_w_addr = a; g_w_n++; v_require(n == g_B, "a block is written as a whole"); auto p = (const uint8_t *)b; g_w_byte = p[g_k]; memcpy(&g_w_next, p + g_P, 8); if (g_cs) memcpy(&g_w_sum, p + g_P + 8, 8); }
static void c_read(const CFile *f, uint64_t a, size_t n, void *b) { v_require(n == g_B, "a block is read as a whole"); v_require((a <= g_fsize) & (g_fsize - a >= n), "the block lies inside the file"); g_r_addr = a; g_r_n++; hav(b, g_B); auto p = (uint8_t *)b; g_r_byte = p[g_k]; if (g_cs) memcpy(&g_r_sum, p + g_P + 8, 8); }
static size_t c_size(const CFile *) { return g_fsize; }
static BS &stream(bool rw = true) {
    g_B = v_in32("block_size"); v_assume((g_B >= 64) & (g_B <= (1u << 20)) & ((g_B & 7) == 0)); g_cs = v_inbool("checked"); g_P = g_B - (g_cs ? 16 : 8); g_k = v_in32("k"); v_assume(g_k < g_P); g_access = rw ? AccessType::READ_WRITE : AccessType::READ_ONLY; g_fsize = 0; g_w_n = g_r_n = g_flushes = 0;
    v_replace("db0::CFile::write(unsigned long, unsigned long, void const*)", (void *)c_write); v_replace("db0::CFile::read(unsigned long, unsigned long, void*) const", (void *)c_read); v_replace("db0::CFile::size() const", (void *)c_size); v_replace("db0::CFile::getAccessType() const", (void *)+[](const CFile *) -> AccessType { return AccessType::READ_WRITE; }); v_replace("db0::CFile::flush() const", (void *)+[](const CFile *) { g_flushes++; }); v_replace("db0::CFile::fsync() const", (void *)+[](const CFile *) {}); v_replace("db0::CFile::refresh()", (void *)+[](CFile *) -> bool { return true; });
    uint64_t begin = v_in64("begin"); v_assume(begin < (1ull << 50)); BS *s = new (g_ss) BS(*(CFile *)g_sf, begin, (uint32_t)g_B, {}, g_access, g_cs);
    V_ASSERT(s->m_eos); V_ASSERT(s->m_modified == rw); V_ASSERT(s->m_address == begin); V_ASSERT(s->m_block_pos == s->m_block_begin); V_ASSERT((uint64_t)(s->m_block_end - s->m_block_begin) == g_P); V_ASSERT(s->m_block_begin[g_k] == 0); V_ASSERT(!s->m_block_header.hasNext());
    g_fsize = v_in64("file_size"); v_assume(g_fsize < (1ull << 52)); s->m_address = v_in64("address"); v_assume(s->m_address < (1ull << 50)); hav(s->m_block_begin, g_B); uint64_t off = v_in32("offset"); v_assume(off <= g_P); s->m_block_pos = s->m_block_begin + off; s->m_block_num = v_in64("block_num"); v_assume(s->m_block_num < (1ull << 40)); s->m_modified = rw && v_inbool("modified"); s->m_eos = v_inbool("eos"); s->m_chunk_left_bytes = v_in32("left"); v_assume(s->m_block_header.m_next_block_address < (1ull << 50)); return *s;
}
// ---- moving through the blocks: contract of getNextBlock as seen by write / read / skip / peek
static bool c_next(BS *s, bool write) {
    v_require(s->m_block_pos == s->m_block_end, "the current block is used up"); v_require(write != g_read, "the direction");
    if (!write && v_inbool("no_more")) { g_failed = true; return false; }
    char *b = s->m_block_begin; char *m_block_begin = b; if (write) { g_disk = (uint8_t)v_ite(INSIDE, HERE, g_disk); memset(b, 0, g_B); s->m_modified = true; s->m_eos = true; } g_base += g_P; if (!write) { hav(b, g_B); v_assume(!INSIDE | (HERE == g_old)); }
    s->m_address = v_fresh64(); s->m_block_pos = b; s->m_block_num++; return true;
}
static BS &moving(bool write, unsigned where = 3) { BS &s = stream(true); g_read = !write; g_failed = false; v_replace("db0::BlockIOStream::getNextBlock(bool)", (void *)c_next); g_base = v_in64("base"); v_assume(g_base < (1ull << 39)); g_t = v_in64("t"); v_assume(g_t < (1ull << 41)); g_old = v_in8("old"); g_n = v_in64("size"); v_assume((g_n >= 1) & (g_n <= 0xffffffffull)); g_p0 = g_base + (uint64_t)(s.m_block_pos - s.m_block_begin); uint8_t w = v_in8("where"); v_assume(where < 3 ? w == where : w < 3); g_where = where < 3 ? where : v_case(w, 3); v_assume((g_where == 0) == (g_t < g_p0)); v_assume((g_where == 1) == NEW(g_n)); return s; }
static void writing(unsigned where) {
    auto &s = moving(true, where); g_src = (const char *)v_buf("data", g_n, 1); g_disk = g_old; char *m_block_begin = s.m_block_begin; v_assume(!INSIDE | (HERE == (uint8_t)v_ite(g_t < g_p0, g_old, 0))); bool full = s.m_block_pos == s.m_block_end; uint64_t here = s.m_address + (s.m_block_pos - s.m_block_begin), addr = 0; s.write(g_src, g_n, &addr); v_cover("written");
    V_ASSERT(s.m_modified); V_ASSERT(g_base + (uint64_t)(s.m_block_pos - s.m_block_begin) == g_p0 + g_n); V_ASSERT(STORED == WANTED(g_n)); V_ASSERT(full | (addr == here));
}
// the byte looked at lies before, within or behind the data written
V_UNIT(write_before) { writing(0); }
V_UNIT(write_within) { writing(1); }
V_UNIT(write_behind) { writing(2); }
V_UNIT(new_stream) { auto &s = stream(v_inbool("rw")); v_cover("new"); V_ASSERT(&s.m_block_header == (void *)s.m_block_end); V_ASSERT(&s.m_cs_block_header == (void *)s.m_block_end); V_ASSERT(s.getBlockSize() == g_B); }
V_UNIT(read) {
    auto &s = moving(false); g_dst = (char *)v_buf("out", g_n, 1); char *m_block_begin = s.m_block_begin; v_assume(!INSIDE | (HERE == g_old)); bool eos = s.m_eos; bool ok = s.read(g_dst, g_n); if (!ok) { v_cover("incomplete"); V_ASSERT(g_failed); V_ASSERT(s.m_eos == eos); return; } v_cover("read");
    V_ASSERT(g_base + (uint64_t)(s.m_block_pos - s.m_block_begin) == g_p0 + g_n); if (g_where == 1) V_ASSERT((uint8_t)g_dst[g_t - g_p0] == g_old); V_ASSERT(!INSIDE | (HERE == g_old)); V_ASSERT(s.m_eos == (eos | g_failed)); V_ASSERT(!g_failed | (s.m_block_pos == s.m_block_end));
}
V_UNIT(skip) {
    auto &s = moving(false); char *m_block_begin = s.m_block_begin; v_assume(!INSIDE | (HERE == g_old)); bool eos = s.m_eos; bool ok = s.skip(g_n); if (!ok) { v_cover("incomplete"); V_ASSERT(g_failed); return; } v_cover("skipped");
    V_ASSERT(g_base + (uint64_t)(s.m_block_pos - s.m_block_begin) == g_p0 + g_n); V_ASSERT(!INSIDE | (HERE == g_old)); V_ASSERT(s.m_eos == (eos | g_failed));
}
// a chunk header is seen without moving the logical position, also where it continues in the next block
V_UNIT(peek) {
    auto &s = moving(false); uint8_t h[4], e[4]; g_n = 4; uint64_t off0 = s.m_block_pos - s.m_block_begin; v_assume(NEW(4)); char *m_block_begin = s.m_block_begin; v_assume(!INSIDE | (HERE == g_old)); bool eos = s.m_eos; uint64_t at = 0, na = s.m_block_header.m_next_block_address;
    v_replace("db0::CFile::read(unsigned long, unsigned long, void*) const", (void *)+[](const CFile *, uint64_t a, size_t n, void *b) { v_require(a == ((BS *)g_ss)->m_block_header.m_next_block_address, "the following block"); v_require((a <= g_fsize) & (g_fsize - a >= n), "inside the file"); v_require(n < 4, "the rest of the header"); hav(b, n); uint64_t nb = g_base + g_P; if ((g_t >= nb) & (g_t < nb + n)) v_assume(((uint8_t *)b)[g_t - nb] == g_old); });
    bool ok = s.peek(h, 4, &at); if (!ok) { v_cover("none"); V_ASSERT(g_failed | !s.m_block_header.hasNext() | (g_fsize < s.m_block_header.m_next_block_address + 4)); return; } v_cover("seen");
    V_ASSERT(g_base + (uint64_t)(s.m_block_pos - s.m_block_begin) == g_p0); V_ASSERT(h[g_t - g_p0] == g_old); V_ASSERT(s.m_eos == eos); V_ASSERT(at == s.m_address + (s.m_block_pos - s.m_block_begin)); V_ASSERT(s.m_block_pos != s.m_block_end);
}
// ---- blocks and the file. The checksum of a range of bytes is abstract here, its own contract is below.
static uint64_t g_x1, g_x2, g_calls;
static uint64_t c_sum(const void *b, const void *e) { BS *s = (BS *)g_ss; g_calls++; const char *p = (const char *)b, *q = (const char *)e; bool cur = (p == s->m_block_begin) & (q == s->m_block_end), tmp = (p == s->m_temp_buf.data()) & (q == s->m_temp_block_end); if (cur | tmp) { v_assume(!cur | !tmp); return g_x1; } bool h1 = (p == (const char *)&s->m_cs_block_header), h2 = (p == (const char *)&s->m_temp_block_header); v_require((h1 | h2) & (q == p + 8), "the checksum covers the block up to its checksum field"); return g_x2; }
static BS &withFile(bool rw) { BS &s = stream(rw); g_x1 = v_in64("sum_data"); g_x2 = v_in64("sum_header"); g_calls = 0; if (g_cs) v_replace("db0::checksum(void const*, void const*)", (void *)c_sum); return s; }
V_UNIT(flush_block) { auto &s = withFile(true); bool m = s.m_modified; uint8_t b = s.m_block_begin[g_k]; uint64_t nx = s.m_block_header.m_next_block_address; bool r = s.flushModified(); V_ASSERT(r == m); V_ASSERT(g_w_n == m); V_ASSERT(!s.m_modified); if (m) { v_cover("written"); V_ASSERT(g_w_addr == s.m_address); V_ASSERT(g_w_byte == b); V_ASSERT(g_w_next == nx); if (g_cs) { V_ASSERT(g_w_sum == (g_x1 ^ g_x2)); V_ASSERT(g_calls == 2); } } V_ASSERT((uint8_t)s.m_block_begin[g_k] == b); }
V_UNIT(read_block) {
    auto &s = withFile(false); uint64_t a = v_in64("at"); v_assume((a <= g_fsize) & (g_fsize - a >= g_B)); char *out = (char *)v_buf("out", g_B, 1); uint8_t b = out[g_k]; bool ok = s.readBlock(a, out); V_ASSERT((g_r_n == 1) & (g_r_addr == a)); if (g_cs) { V_ASSERT(ok == (g_r_sum == (g_x1 ^ g_x2))); V_ASSERT(g_calls == 2); } else V_ASSERT(ok); if (ok) { v_cover("accepted"); V_ASSERT((uint8_t)out[g_k] == g_r_byte); } else { v_cover("rejected"); V_ASSERT((uint8_t)out[g_k] == b); } }
static uint64_t g_tailfn;
V_UNIT(next_block_write) {
    auto &s = withFile(true); bool other = v_inbool("other_streams"); g_tailfn = v_in64("tail"); v_assume(g_tailfn < (1ull << 50)); v_assume((g_tailfn != 0)); if (other) s.m_tail_function = []() -> uint64_t { return g_tailfn; }; s.m_eos = true; uint64_t a = s.m_address, nx = s.m_block_header.m_next_block_address, num = s.m_block_num; uint8_t b = s.m_block_begin[g_k]; bool m = s.m_modified; bool r = s.getNextBlock(true); v_cover("next"); V_ASSERT(r);
    // the used block is in the file and points to the new one, which lies past everything in use
    V_ASSERT((g_w_n == 1) | ((g_w_n == 0) & !m & (nx != 0))); if (g_w_n) { V_ASSERT(g_w_addr == a); V_ASSERT(g_w_byte == b); V_ASSERT(g_w_next == s.m_address); } V_ASSERT((nx == 0) | (s.m_address == nx)); V_ASSERT((nx != 0) | ((s.m_address >= a + g_B) & (!other | (s.m_address >= g_tailfn)) & ((s.m_address == a + g_B) | (other & (s.m_address == g_tailfn)))));
    V_ASSERT(s.m_block_begin[g_k] == 0); V_ASSERT(!s.m_block_header.hasNext()); V_ASSERT(s.m_block_pos == s.m_block_begin); V_ASSERT(s.m_modified & s.m_eos); V_ASSERT(s.m_block_num == num + 1); V_ASSERT(g_r_n == 0);
}
V_UNIT(next_block_read) {
    auto &s = withFile(true); s.m_modified = false; uint64_t a = s.m_address, nx = s.m_block_header.m_next_block_address, num = s.m_block_num; char *pos = s.m_block_pos; uint8_t b = s.m_block_begin[g_k]; bool e = s.m_eos; bool r = s.getNextBlock(false); V_ASSERT(g_w_n == 0); V_ASSERT(!s.m_modified); V_ASSERT(s.m_eos == e);
    if (r) { v_cover("next"); V_ASSERT(nx != 0); V_ASSERT(s.m_address == nx); V_ASSERT(g_r_addr == nx); V_ASSERT(s.m_block_pos == s.m_block_begin); V_ASSERT(s.m_block_num == num + 1); V_ASSERT((uint8_t)s.m_block_begin[g_k] == g_r_byte); V_ASSERT(!g_cs | (g_r_sum == (g_x1 ^ g_x2))); }
    else { v_cover("none"); V_ASSERT((nx == 0) | (g_fsize < nx + g_B) | ((g_r_n == 1) & g_cs & (g_r_sum != (g_x1 ^ g_x2)))); V_ASSERT((s.m_address == a) & (s.m_block_pos == pos) & (s.m_block_num == num)); V_ASSERT((uint8_t)s.m_block_begin[g_k] == b); }
}
V_UNIT(tail) { auto &s = stream(); s.m_eos = true; uint64_t nx = s.m_block_header.m_next_block_address, t = s.tail(); v_cover("tail"); V_ASSERT(t >= s.m_address + g_B); V_ASSERT((nx == 0) | (t >= nx + g_B)); V_ASSERT((t == s.m_address + g_B) | (t == nx + g_B)); }
V_UNIT(tail_needs_end) { auto &s = stream(false); s.m_eos = false; v_throws(1); v_replace("__assert_fail", (void *)+[](const char *, const char *, unsigned, const char *) { throw 1; }); s.tail(); V_ASSERT(0 && "tail before the end"); }
// a position is found again
V_UNIT(position) {
    auto &s = withFile(false); v_assume(s.m_block_num < (1u << 20)); auto p = s.getStreamPos(); uint64_t num = s.m_block_num, off = s.m_block_pos - s.m_block_begin; V_ASSERT(p.second / g_B == s.m_block_num); V_ASSERT(p.second % g_B == (uint64_t)(s.m_block_pos - s.m_block_begin)); V_ASSERT(p.first == s.m_address); V_ASSERT(s.tell() == p.second); auto tb = s.tellBlock(); V_ASSERT(off == g_P ? (tb.first == num + 1) & (tb.second == 0) : (tb.first == num) & (tb.second == off)); v_assume((p.first <= g_fsize) & (g_fsize - p.first >= g_B)); v_throws(1);
    s.m_address = v_in64("other"); s.m_block_num = 5; s.m_block_pos = s.m_block_begin; s.setStreamPos(p); v_cover("back"); V_ASSERT(s.m_address == p.first); V_ASSERT(s.m_block_num == num); V_ASSERT((uint64_t)(s.m_block_pos - s.m_block_begin) == off); V_ASSERT((uint8_t)s.m_block_begin[g_k] == g_r_byte); V_ASSERT(!s.m_eos); V_ASSERT(!g_cs | (g_r_sum == (g_x1 ^ g_x2)));
}
// ---- chunks
static uint32_t g_h; static uint64_t g_wr, g_left0; static bool g_peekOk, g_readOk, g_skipOk; static uint64_t g_seq, g_skipped, g_reads, g_rew; static uint64_t g_buf; static std::pair<uint64_t, uint64_t> g_pos;
V_UNIT(add_chunk) {
    auto &s = stream(v_inbool("rw")); uint32_t n = v_in32("chunk"); g_wr = 0; g_h = n; v_replace("db0::BlockIOStream::write(void const*, unsigned long, unsigned long*)", (void *)+[](BS *, const void *b, size_t n, uint64_t *a) { uint32_t h; memcpy(&h, b, 4); v_require((n == 4) & (h == g_h), "the chunk header"); g_wr++; });
    bool ok = (g_access == AccessType::READ_WRITE) & s.m_eos & (s.m_chunk_left_bytes == 0); v_throws(!ok); s.addChunk(n); v_cover("added"); V_ASSERT(ok); V_ASSERT(g_wr == 1); V_ASSERT(s.m_chunk_left_bytes == n);
}
V_UNIT(append_to_chunk) {
    auto &s = stream(); uint64_t n = v_in64("size"); g_wr = 0; static uint64_t want; want = n; static const void *src; src = g_sf; v_replace("db0::BlockIOStream::write(void const*, unsigned long, unsigned long*)", (void *)+[](BS *, const void *b, size_t n, uint64_t *a) { v_require((n == want) & (b == src) & (a == nullptr), "the data"); g_wr++; });
    uint32_t left = s.m_chunk_left_bytes; v_throws(n > left); s.appendToChunk(src, n); v_cover("appended"); V_ASSERT(n <= left); V_ASSERT(g_wr == 1); V_ASSERT(s.m_chunk_left_bytes == left - n);
}
static unsigned char g_vec[sizeof(std::vector<char>)] __attribute__((aligned(16)));
static void chunkStubs() {
    g_peekOk = v_inbool("header"); g_readOk = v_inbool("complete"); g_skipOk = v_inbool("skips"); g_h = v_in32("chunk"); g_skipped = g_reads = g_rew = 0; g_buf = v_in64("buffer");
    v_replace("db0::BlockIOStream::peek(void*, unsigned long, unsigned long*)", (void *)+[](BS *s, void *b, size_t n, uint64_t *a) -> bool { v_require(n == 4, "a header"); if (!g_peekOk) return false; memcpy(b, &g_h, 4); if (a) *a = 77; return true; });
    v_replace("db0::BlockIOStream::skip(unsigned long)", (void *)+[](BS *s, size_t n) -> bool { v_require(g_skipped < 2, "once each"); v_require(n == (g_skipped == 0 ? 4 : g_h), "the header, then the chunk"); g_skipped++; return g_skipped == 1 || g_skipOk; });
    v_replace("db0::BlockIOStream::read(void*, unsigned long)", (void *)+[](BS *s, void *b, size_t n) -> bool { v_require((g_skipped == 1) & (n == g_h) & (g_buf >= n) & (b == g_ss), "the chunk into a buffer that holds it"); g_reads++; return g_readOk; });
    v_replace("db0::BlockIOStream::rewind(std::pair<unsigned long, unsigned long> const&)", (void *)+[](BS *s, const std::pair<uint64_t, uint64_t> &p) { v_require(p.first == g_pos.first, "the begin of the chunk"); v_require(p.second == g_pos.second, "the begin of the chunk"); g_rew++; });
}
static void bufferStubs() {
    v_replace("std::vector<char, std::allocator<char>>::size() const", (void *)+[](const std::vector<char> *v) -> size_t { return (const void *)v == g_vec ? g_buf : g_B; }); v_replace("std::vector<char, std::allocator<char>>::resize(unsigned long)", (void *)+[](std::vector<char> *v, size_t n) { g_buf = n; }); v_replace("std::vector<char, std::allocator<char>>::data()", (void *)+[](std::vector<char> *v) -> char * { return (char *)g_ss; });
}
V_UNIT(read_chunk) {
    auto &s = stream(v_inbool("rw")); chunkStubs(); bufferStubs(); g_pos = s.getStreamPos(); bool e = s.m_eos; uint64_t want = v_in64("expected"), at = 0; bool mis = !e & g_peekOk & (g_h != 0) & (want != 0) & (want != g_h); v_throws(mis); char *pos = s.m_block_pos; bool clr = (g_access == AccessType::READ_WRITE); uint8_t b = s.m_block_begin[g_k]; uint64_t n = s.readChunk(*(std::vector<char> *)g_vec, want, &at); V_ASSERT(!mis);
    if (e | !g_peekOk | (g_h == 0)) { v_cover("end"); V_ASSERT(n == 0); V_ASSERT(s.m_eos); V_ASSERT((g_reads == 0) & (g_skipped == 0)); return; }
    V_ASSERT(g_reads == 1); V_ASSERT(at == 77); if (g_readOk) { v_cover("read"); V_ASSERT(n == g_h); V_ASSERT(g_rew == 0); V_ASSERT(s.m_eos == e); } else { v_cover("incomplete"); V_ASSERT(n == 0); V_ASSERT(s.m_eos); V_ASSERT(g_rew == 1); V_ASSERT(s.m_block_pos == pos); V_ASSERT((uint8_t)s.m_block_begin[g_k] == (clr & (s.m_block_begin + g_k >= pos) ? 0 : b)); }
}
V_UNIT(refresh) {
    auto &s = withFile(v_inbool("rw")); bool e = s.m_eos; g_pos = s.getStreamPos(); chunkStubs(); uint8_t b = s.m_block_begin[g_k]; v_throws(g_access == AccessType::READ_WRITE); bool r = s.refresh(); V_ASSERT(g_access == AccessType::READ_ONLY); V_ASSERT(r == !s.m_eos);
    if (!e) { v_cover("not_at_end"); V_ASSERT(r); V_ASSERT((uint8_t)s.m_block_begin[g_k] == b); } else { v_cover("at_end"); V_ASSERT(r == (g_peekOk & (g_h != 0) & g_skipOk)); V_ASSERT(g_rew == (g_peekOk & (g_h != 0))); bool in = g_fsize >= s.m_address + g_B; V_ASSERT(g_r_n == in); bool good = in & (!g_cs | (g_r_sum == (g_x1 ^ g_x2))); V_ASSERT((uint8_t)s.m_block_begin[g_k] == (good ? g_r_byte : b)); }
}
V_UNIT(rewind) {
    auto &s = withFile(true); s.m_modified = false; v_assume(s.m_block_num < (1u << 20)); auto p = s.getStreamPos(); uint64_t num = s.m_block_num, off = s.m_block_pos - s.m_block_begin; V_ASSERT(p.second / g_B == s.m_block_num); V_ASSERT(p.second % g_B == (uint64_t)(s.m_block_pos - s.m_block_begin)); bool away = v_inbool("away"); if (away) { s.m_address = v_in64("other"); v_assume(s.m_address != p.first); v_assume((p.first <= g_fsize) & (g_fsize - p.first >= g_B)); } s.m_block_num += 3; s.m_block_pos = s.m_block_begin; uint8_t b = s.m_block_begin[g_k]; v_throws(away & g_cs); s.rewind(p); v_cover("back"); V_ASSERT(s.m_address == p.first); V_ASSERT(s.m_block_num == num); V_ASSERT((uint64_t)(s.m_block_pos - s.m_block_begin) == off); V_ASSERT((uint8_t)s.m_block_begin[g_k] == (away ? g_r_byte : b)); V_ASSERT(!away | !g_cs | (g_r_sum == (g_x1 ^ g_x2)));
}
V_UNIT(close) {
    auto &s = stream(v_inbool("rw")); static uint64_t adds, flushes; adds = flushes = 0; v_replace("db0::BlockIOStream::addChunk(db0::o_block_io_chunk_header, unsigned long*)", (void *)+[](BS *, o_block_io_chunk_header h, uint64_t *) { v_require(h.m_chunk_size == 0, "the end mark"); v_require(flushes == 0, "before the flush"); adds++; }); v_replace("db0::BlockIOStream::flush(bool)", (void *)+[](BS *, bool) { flushes++; });
    bool room = (s.m_block_pos != s.m_block_end) | s.m_block_header.hasNext(); s.close(); v_cover("closed"); V_ASSERT(s.m_closed); V_ASSERT(flushes == 1); V_ASSERT(adds == ((g_access == AccessType::READ_WRITE) & s.m_eos & room)); }
// ---- checksum: xor of the words; one damaged byte changes it
V_UNIT(checksum) { g_n = v_in64("words"); v_assume(g_n <= (1u << 17)); g_words = (const uint64_t *)v_buf("block", g_n * 8, 8); v_assume(X(0, 0) == 0); uint64_t r = checksum(g_words, g_words + g_n); v_cover("sum"); V_ASSERT(r == X(0, g_n)); }
V_UNIT(checksum_damage) {
    uint64_t n = v_in64("n"), k = v_in64("k"), d = v_in64("damage"); v_assume((n <= (1u << 17)) & (k < n) & (d != 0)); v_assume((X(1, 0) == 0) & (X(2, 0) == 0)); uint64_t i = 0;
    for (; i < n; i++) { v_variant(n - i); v_inv((i <= n) & (X(2, i) == (X(1, i) ^ (k < i ? d : 0)))); uint64_t w = v_uf("word", 0, i); v_assume((X(1, i + 1) == (X(1, i) ^ w)) & (X(2, i + 1) == (X(2, i) ^ w ^ (i == k ? d : 0)))); }
    v_cover("end"); V_ASSERT(X(2, n) != X(1, n)); V_ASSERT(X(2, n) == (X(1, n) ^ d)); }
// a block is accepted iff the xor of all its words is zero: sum of data, of the next address and the stored sum
V_UNIT(accept_iff_zero) { uint64_t data = v_in64("data"), next = v_in64("next"), stored = v_in64("stored"); v_cover("block"); V_ASSERT(((data ^ next) == stored) == ((data ^ next ^ stored) == 0)); }
