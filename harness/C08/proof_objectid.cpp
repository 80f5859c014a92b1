// Contracts on object identifiers over the contract of base-32 coding (proof_base32.cpp): every identifier, every text.
#include <v.h>
#include <vrt.hpp>
#include <dbzero/core/memory/Address.cpp>
#include <dbzero/core/serialization/bounded_buf_t.cpp>
#include <dbzero/object_model/value/ObjectId.cpp>
using namespace db0; using namespace db0::object_model;
static uint8_t g_bytes[32]; static uint64_t g_n; static unsigned g_enc, g_dec, g_cmp; static char *g_text; static bool g_extra, g_equal;
static ObjectId any(const char *a, const char *b, const char *c) { ObjectId x; x.m_fixture_uuid = v_in64(a); x.m_address = UniqueAddress::fromValue(v_in64(b)); x.m_storage_class = (StorageClass)v_in8(c); return x; }
// encode: any text stands for the bytes; decode of that text: the bytes, with possibly one zero byte more
static uint64_t c_encode(const uint8_t *p, uint64_t n, char *t) { v_require(n <= 22, "bytes fit the buffer"); for (uint64_t i = 0; i < 22; i++) if (i < n) g_bytes[i] = p[i]; g_n = n; g_enc++; g_text = t; return (8 * n + 4) / 5; }
static uint64_t c_decode(const char *, uint8_t *out) { g_dec++; for (uint64_t i = 0; i < 22; i++) if (i < g_n) out[i] = g_bytes[i]; if (g_extra) { out[g_n] = 0; return g_n + 1; } return g_n; }
static void setup() { g_enc = g_dec = g_cmp = 0; ObjectId::m_throw_func = []() { THROWF(db0::InputException) << "Invalid UUID"; }; v_replace("strlen", (void *)+[](const char *) -> size_t { return (8 * g_n + 4) / 5; }); v_replace("db0::base32_encode(unsigned char const*, unsigned long, char*)", (void *)c_encode); v_replace("db0::base32_decode(char const*, unsigned char*)", (void *)c_decode); }
V_UNIT(id_back) {
    setup(); g_extra = v_in8("padding") & 1; auto x = any("fixture", "address", "class"); static char t[64]; v_replace("strcmp", (void *)+[](const char *a, const char *b) -> int { g_cmp++; return 0; /* the same bytes have the same text */ });
    uint64_t r = x.toBase32(t); V_ASSERT(g_enc == 1); V_ASSERT(r <= ObjectId::maxEncodedSize()); V_ASSERT(g_n >= ObjectId::minSize()); V_ASSERT(g_n <= 20); v_cover("text");
    uint8_t first[24]; uint64_t n1 = g_n; for (uint64_t i = 0; i < 20; i++) first[i] = g_bytes[i];
    auto y = ObjectId::tryFromBase32(t); v_cover("back"); V_ASSERT(y == x); V_ASSERT(y.m_fixture_uuid == x.m_fixture_uuid); V_ASSERT(y.m_address.getValue() == x.m_address.getValue()); V_ASSERT((uint8_t)y.m_storage_class == (uint8_t)x.m_storage_class);
    if (g_enc == 2) { V_ASSERT(g_n == n1); for (uint64_t i = 0; i < 20; i++) if (i < n1) V_ASSERT(g_bytes[i] == first[i]); }
}
// any text: only the exact text of the identifier is accepted
V_UNIT(id_any_text) {
    setup(); static uint64_t len, size; len = v_in64("length"); size = v_in64("decoded size"); v_assume(len <= 60); v_assume(size <= (5 * (len > 36 ? 36 : len) + 7) / 8); size = v_case(size, 24); g_equal = v_in8("same_text") & 1; static char t[64];
    v_replace("strlen", (void *)+[](const char *) -> size_t { return len; }); v_replace("strcmp", (void *)+[](const char *a, const char *b) -> int { v_require(b == t || a == t, "compared with the text given"); v_require(g_enc == 1, "the text of the result"); v_require(a == g_text || b == g_text, "the text of the result"); g_cmp++; return g_equal ? 0 : 1; });
    v_replace("db0::base32_decode(char const*, unsigned char*)", (void *)+[](const char *a, uint8_t *out) -> uint64_t { v_require(len <= 36, "a text longer than any identifier is not decoded"); g_dec++; v_havoc(out, size); return size; });
    v_throws(1); auto y = ObjectId::tryFromBase32(t); if (!!y) { v_cover("accepted"); V_ASSERT(g_cmp == 1); V_ASSERT(g_equal); V_ASSERT(len <= 36); uint64_t f; __builtin_memcpy(&f, g_bytes, 8); V_ASSERT(f == y.m_fixture_uuid); } else { v_cover("rejected"); }
}
V_UNIT(id_strict) { // fromBase32 fails where tryFromBase32 finds nothing
    static ObjectId r; r = any("fixture", "address", "class"); v_replace("db0::object_model::ObjectId::tryFromBase32(char const*)", (void *)+[](const char *) -> ObjectId { return r; }); bool none = (r.m_fixture_uuid == 0) | (r.m_address.getValue() == 0) | ((uint8_t)r.m_storage_class == 0); v_throws(none); static char t[4]; auto y = ObjectId::fromBase32(t); v_cover("found"); V_ASSERT(y == r); V_ASSERT(!none);
}
V_UNIT(id_order) {
    auto x = any("f1", "a1", "c1"), y = any("f2", "a2", "c2"); uint64_t f = x.m_fixture_uuid, g = y.m_fixture_uuid, a = x.m_address.getValue(), b = y.m_address.getValue(); uint8_t c = (uint8_t)x.m_storage_class, d = (uint8_t)y.m_storage_class; v_cover("any");
    bool eq = (f == g) & (a == b) & (c == d), lt = (f < g) | ((f == g) & ((a < b) | ((a == b) & (c < d))));
    V_ASSERT((x == y) == eq); V_ASSERT((x != y) == !eq); V_ASSERT((x < y) == lt); V_ASSERT((x <= y) == (lt | eq)); V_ASSERT((x > y) == !(lt | eq)); V_ASSERT((x >= y) == !lt); V_ASSERT((!x) == ((f == 0) | (a == 0) | (c == 0)));
}
