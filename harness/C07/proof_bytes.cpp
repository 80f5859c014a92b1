// Contracts on length-prefixed byte sequences: strings, binaries, micro arrays, lists.
#define VRT_STRING
#include <v.h>
#include <vrt.hpp>
#include <dbzero/core/serialization/bounded_buf_t.cpp>
#include <dbzero/core/serialization/Foundation.cpp>
#include <dbzero/core/serialization/Types.cpp>
#include <dbzero/core/memory/config.cpp>
#include <dbzero/core/serialization/packed_int.hpp>
#include <dbzero/core/serialization/string.hpp>
#include <dbzero/core/serialization/micro_array.hpp>
#include <dbzero/core/serialization/unbound_array.hpp>
#include <dbzero/core/serialization/list.hpp>
#include <cstring>
using namespace db0;
static const std::function<void()> *handler() { static std::function<void()> f; new (&f) std::function<void()>([]() { THROWF(db0::InternalException) << "decode"; }); return &f; }
static const uint64_t LIM = 1u << 28;

// binary: any size, any content, any probe position
V_UNIT(binary) {
    uint64_t n = v_in64("n"), k = v_in64("k"); v_assume(n < LIM && k < n);
    const std::byte *src = (const std::byte *)v_buf("src", n, 1);
    uint64_t m = o_binary::measure(src, n);
    unsigned char *img = (unsigned char *)v_buf("img", m + 1, 1);
    unsigned char guard = img[m];
    o_binary &o = o_binary::__new((std::byte *)img, src, n);
    V_ASSERT(o.size() == n && o.sizeOf() == m && o_binary::measure(o) == m && !o.empty());
    V_ASSERT(o.begin()[k] == src[k] && o.getBuffer() == o.begin() && o.end() == o.begin() + n);
    V_ASSERT(img[m] == guard);
    V_ASSERT(img[4 + k] == (unsigned char)src[k]);
    v_cover("done");
}
V_UNIT(binary_safe) {
    uint64_t n = v_in64("n"); v_assume(n <= 12); n = v_case(n, 13);
    std::byte *buf = (std::byte *)v_buf("buf", n, 1);
    v_throws(1);
    const_bounded_buf_t b(*handler(), buf, buf + n);
    const o_binary &o = o_binary::__safe_const_ref(b);
    V_ASSERT(o.sizeOf() <= n && o.size() + 4 == o.sizeOf());
    v_cover("done");
}
// string: any size, any content
template <bool N> static void str() {
    typedef o_base_string<ansi_cs_ptr, N> S;
    uint64_t n = v_in64("n"), k = v_in64("k"); v_assume(n < LIM && k < n);
    const char *src = (const char *)v_buf("src", n, 1);
    ansi_cs_ptr p(src, src + n);
    uint64_t m = S::measure(p);
    unsigned char *img = (unsigned char *)v_buf("img", m + 1, 1);
    unsigned char guard = img[m];
    S &o = S::__new((std::byte *)img, p);
    V_ASSERT(o.size() == n && o.sizeOf() == m);
    ansi_cs_ptr r = o.get();
    V_ASSERT(r.size() == n && r.begin().get_raw()[k] == src[k] && !o.isNull());
    V_ASSERT((unsigned char *)r.begin().get_raw() + n == img + m);
    V_ASSERT(img[m] == guard);
}
V_UNIT(string) { str<false>(); v_cover("done"); }
V_UNIT(nullable_string) { str<true>(); v_cover("done"); }
V_UNIT(string_empty) {
    unsigned char img[4]; char c = 'x';
    o_string &o = o_string::__new((std::byte *)img, ansi_cs_ptr(&c, &c));
    V_ASSERT(o.size() == 0 && o.sizeOf() == 1 && o.get().size() == 0);
    o_nullable_string &z = o_nullable_string::__new((std::byte *)img, ansi_cs_ptr(&c, &c));
    V_ASSERT(!z.isNull() && z.size() == 0);
    o_nullable_string &q = o_nullable_string::__new((std::byte *)img, ansi_cs_ptr());
    V_ASSERT(q.isNull() && q.sizeOf() == 1 && q.get().isNull());
    v_cover("done");
}
V_UNIT(string_safe) {
    uint64_t n = v_in64("n"); v_assume(n <= 9); n = v_case(n, 10);
    std::byte *buf = (std::byte *)v_buf("buf", n, 1);
    v_throws(1);
    const_bounded_buf_t b(*handler(), buf, buf + n);
    const o_string &o = o_string::__safe_const_ref(b);
    V_ASSERT(o.sizeOf() <= n);
    V_ASSERT(o.get().begin().get_raw() + o.size() <= (const char *)buf + n);
    v_cover("done");
}
// micro array: header and element placement for any size/offset
V_UNIT(micro_array) {
    typedef o_micro_array<uint16_t> A;
    uint64_t n = v_in64("n"), k = v_in64("k"); v_assume(n < LIM && k < n);
    uint64_t m = A::measure(n);
    unsigned char *img = (unsigned char *)v_buf("img", m, 1);
    A &a = A::__new((std::byte *)img, n);
    V_ASSERT(a.size() == n && a.sizeOf() == m);
    V_ASSERT((unsigned char *)a.end() == img + m && (unsigned char *)a.begin() == img + packed_int32::measure(n));
    uint16_t x = v_in16("x"); uint64_t j = v_in64("j"); v_assume(j < n);
    uint16_t old = a[j];
    a[k] = x;
    V_ASSERT(((const A &)a)[j] == (j == k ? x : old));
    V_ASSERT(a.size() == n && a.sizeOf() == m);
    unsigned pos = 77; uint32_t idx = v_in32("idx");
    V_ASSERT(a.find(idx, pos) == (idx < n));
    V_ASSERT(idx >= n || pos == idx);
    v_cover("done");
}
V_UNIT(micro_array_offset) {
    typedef o_micro_array<uint16_t, true> A;
    uint64_t n = v_in64("n"), k = v_in64("k"); uint32_t off = v_in32("off"); v_assume(n < LIM && k < n && off < 0x7fffffffu);
    uint64_t m = A::measure(n, off);
    unsigned char *img = (unsigned char *)v_buf("img", m, 1);
    A &a = A::__new((std::byte *)img, n, off);
    V_ASSERT(a.size() == n && a.offset() == off && a.sizeOf() == m);
    V_ASSERT(a.getSizeAndOffset().first == n && a.getSizeAndOffset().second == off);
    V_ASSERT((unsigned char *)a.end() == img + m);
    uint16_t x = v_in16("x"); a[k] = x;
    V_ASSERT(((const A &)a)[k] == x && a.size() == n && a.offset() == off);
    unsigned pos = 77; uint32_t idx = v_in32("idx");
    bool in = idx >= off && idx < off + n;
    V_ASSERT(a.find(idx, pos) == in);
    V_ASSERT(!in || pos == idx - off);
    v_cover("done");
}
// list of variable-length items (sequence of three arbitrary values)
V_UNIT(list3) {
    typedef o_list<packed_int32> L;
    v_bounded("lists of 3 items");
    std::vector<uint32_t> v; v.push_back(v_in32("a")); v.push_back(v_in32("b")); v.push_back(v_in32("c"));
    uint64_t m = L::measure(v);
    unsigned char *img = (unsigned char *)v_buf("img", 40, 1);
    L &l = L::__new((std::byte *)img, v);
    V_ASSERT(l.size() == 3 && l.sizeOf() == m && L::safeSizeOf((const std::byte *)img) == m);
    auto it = l.begin();
    V_ASSERT(it->value() == v[0]); ++it; V_ASSERT(it->value() == v[1]); ++it; V_ASSERT(it->value() == v[2]); ++it; V_ASSERT(it == l.end());
    v_cover("done");
}
V_UNIT(unbound_array) {
    typedef o_unbound_array<uint32_t> A;
    uint64_t n = v_in64("n"), k = v_in64("k"), j = v_in64("j"); v_assume(n < LIM && k < n && j < n);
    unsigned char *img = (unsigned char *)v_buf("img", A::measure(n), 1);
    A &a = A::__new((std::byte *)img, n);
    uint32_t old = a[j], x = v_in32("x"); a[k] = x;
    V_ASSERT(a.get(j) == (j == k ? x : old));
    v_cover("done");
}
V_UNIT(simple) {
    uint64_t x = v_in64("x"); unsigned char b[8];
    o_simple<uint64_t> &o = o_simple<uint64_t>::__new((std::byte *)b, x);
    V_ASSERT(o.value() == x && (uint64_t)o == x && o.sizeOf() == 8);
    v_cover("done");
}
