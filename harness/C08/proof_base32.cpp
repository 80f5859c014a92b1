// Contracts on base-32 coding: every byte string of up to 40 bytes and every text of up to 64 characters.
#include <v.h>
#include <vrt.hpp>
#include <dbzero/core/utils/base32.cpp>
using namespace db0;
static char letter(uint8_t g) { return (char)v_ite(g < 26, 'A' + g, '2' + g - 26); }
static uint8_t group(const uint8_t *p, uint64_t n, uint64_t j) { uint64_t b = 5 * j, i = b / 8, o = b % 8; uint32_t w = (uint32_t)p[i] << 8 | (i + 1 < n ? p[i + 1] : 0); return (w >> (11 - o)) & 31; }
static uint64_t g_len;
static size_t c_strlen(const char *) { return g_len; }
// the C library's strchr over the alphabet (base32_alphabet below shows the alphabet is this one)
static const char *c_strchr(const char *s, int c) { uint8_t u = (uint8_t)c; v_require(u != 0, "not called with the terminator"); if ((u >= 'A') & (u <= 'Z')) return s + (u - 'A'); if ((u >= '2') & (u <= '7')) return s + 26 + (u - '2'); return nullptr; }
V_UNIT(base32_alphabet) { uint64_t k = v_in64("k"); v_assume(k < 32); k = v_case(k, 32); v_cover("letter"); V_ASSERT(base_32_chars[k] == (k < 26 ? 'A' + k : '2' + k - 26)); V_ASSERT(base_32_chars[32] == 0); }
V_UNIT(base32_encode) {
    uint64_t n = v_in64("size"); v_assume(n <= 40); n = v_case(n, 41); uint64_t m = (8 * n + 4) / 5; uint8_t *in = (uint8_t *)v_buf("bytes", n, 1); char *out = (char *)v_buf("text", m + 1, 1);
    uint64_t r = base32_encode(in, n, out); v_cover("encoded"); V_ASSERT(r == m); V_ASSERT(out[m] == 0); for (uint64_t j = 0; j < m; j++) V_ASSERT(out[j] == letter(group(in, n, j)));
}
V_UNIT(base32_decode) {
    uint64_t m = v_in64("length"); v_assume(m <= 64); m = v_case(m, 65); uint64_t n = (5 * m + 7) / 8; uint8_t *g = (uint8_t *)v_buf("groups", m, 1); char *t = (char *)v_buf("text", m + 1, 1); uint8_t *out = (uint8_t *)v_buf("bytes", n, 1);
    for (uint64_t j = 0; j < m; j++) { g[j] &= 31; t[j] = letter(g[j]); } t[m] = 0; g_len = m;
    v_replace("strlen", (void *)c_strlen); v_replace("strchr", (void *)+[](const char *s, int c) -> const char * { uint8_t u = (uint8_t)c; v_require(((u >= 'A') & (u <= 'Z')) | ((u >= '2') & (u <= '7')), "a letter"); return s + v_ite((u >= 'A') & (u <= 'Z'), u - 'A', u - '2' + 26); });
    uint64_t r = base32_decode(t, out); v_cover("decoded"); V_ASSERT(r == n);
    for (uint64_t i = 0; i < n; i++) { uint64_t j = 8 * i / 5, o = 8 * i % 5; uint32_t w = (uint32_t)g[j] << 10 | (uint32_t)(j + 1 < m ? g[j + 1] : 0) << 5 | (uint32_t)(j + 2 < m ? g[j + 2] : 0); V_ASSERT(out[i] == (uint8_t)(w >> (7 - o))); }
}
// any text: the decoder stays inside the output that its length calls for and stops at the first other character
V_UNIT(base32_any_text) {
    uint64_t m = v_in64("length"); v_assume(m <= 40); m = v_case(m, 41); uint64_t n = (5 * m + 7) / 8; char *t = (char *)v_buf("text", m + 1, 1); uint8_t *out = (uint8_t *)v_buf("bytes", n, 1);
    for (uint64_t j = 0; j < m; j++) v_assume(t[j] != 0); t[m] = 0; g_len = m; v_replace("strlen", (void *)c_strlen);
    static bool stopped; stopped = false; v_replace("strchr", (void *)+[](const char *s, int c) -> const char * { v_require(!stopped, "stops at the first character outside the alphabet"); uint8_t u = (uint8_t)c; bool ok = ((u >= 'A') & (u <= 'Z')) | ((u >= '2') & (u <= '7')); if (ok) return s + v_ite((u >= 'A') & (u <= 'Z'), u - 'A', u - '2' + 26); stopped = true; return nullptr; });
    uint64_t r = base32_decode(t, out); v_cover("decoded"); V_ASSERT(r <= n);
}
// both together: the bytes come back, with at most one zero byte after them
V_UNIT(base32_both) {
    uint64_t n = v_in64("size"); v_assume(n >= 1); v_assume(n <= 40); n = v_case(n, 41); uint64_t m = (8 * n + 4) / 5; uint8_t *in = (uint8_t *)v_buf("bytes", n, 1); char *t = (char *)v_buf("text", m + 1, 1); uint8_t *out = (uint8_t *)v_buf("back", (5 * m + 7) / 8, 1);
    v_replace("strlen", (void *)c_strlen); v_replace("strchr", (void *)+[](const char *s, int c) -> const char * { uint8_t u = (uint8_t)c; v_require(((u >= 'A') & (u <= 'Z')) | ((u >= '2') & (u <= '7')), "a letter"); return s + v_ite((u >= 'A') & (u <= 'Z'), u - 'A', u - '2' + 26); });
    g_len = base32_encode(in, n, t); uint64_t r = base32_decode(t, out); v_cover("both"); V_ASSERT((r == n) | (r == n + 1)); for (uint64_t i = 0; i < n; i++) V_ASSERT(out[i] == in[i]); if (r == n + 1) V_ASSERT(out[n] == 0);
}
