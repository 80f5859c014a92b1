// Contracts on the variable-length integer codec and the containers built directly on it.
#include <v.h>
#include <vrt.hpp>
#include <dbzero/core/serialization/bounded_buf_t.cpp>
#include <dbzero/core/serialization/Foundation.cpp>
#include <dbzero/core/serialization/packed_int.hpp>
#include <dbzero/core/serialization/packed_int_pair.hpp>
#include <dbzero/core/serialization/packed_array.hpp>
#include <dbzero/core/serialization/ref_counter.hpp>
#include <dbzero/core/serialization/optional_item.hpp>
#include <dbzero/core/memory/config.cpp>
#include <cstring>
using namespace db0;
// stands for the installed error handler: raises the decoding error
static void init_settings() { if (v_symbolic_mode()) new ((void *)&Settings::m_decode_error) std::function<void()>([]() { THROWF(db0::InternalException) << "decode"; }); }
// reference: number of 7-bit groups
template <typename T> static unsigned groups(T v) { unsigned n = 1; while (v >>= 7) n++; return n; }

// write+value+read+sizeOf+measure; bytes around the encoding are not touched
template <typename T, bool N> static void roundtrip(T x) {
    typedef o_packed_int<T, N> P;
    unsigned char buf[14];
    for (int i = 0; i < 14; i++) buf[i] = 0xA5;
    std::size_t m = P::measure(x);
    V_ASSERT(m >= groups(x) && m <= groups(x) + (N ? 1 : 0));
    V_ASSERT(m <= P::max_len());
    std::byte *at = (std::byte *)buf + 2;
    P::write(at, x);
    V_ASSERT(at == (std::byte *)buf + 2 + m);
    V_ASSERT(buf[0] == 0xA5 && buf[1] == 0xA5);
    for (std::size_t i = 2 + m; i < 14; i++) v_assert(buf[i] == 0xA5, "write stays within the measured size");
    const std::byte *rd = (std::byte *)buf + 2;
    V_ASSERT(P::read(rd) == x);
    V_ASSERT(rd == (std::byte *)buf + 2 + m);
    const P &o = P::__const_ref((std::byte *)buf + 2);
    V_ASSERT(o.value() == x);
    V_ASSERT(o.sizeOf() == m);
    V_ASSERT((T)o == x);
    V_ASSERT(!o.isNull());
    v_cover("end");
}
V_UNIT(int32_roundtrip) { roundtrip<uint32_t, false>(v_in32("x")); v_cover("done"); }
V_UNIT(int64_roundtrip) { roundtrip<uint64_t, false>(v_in64("x")); v_cover("done"); }
V_UNIT(nullable32_roundtrip) { roundtrip<uint32_t, true>(v_in32("x")); v_cover("done"); }
V_UNIT(nullable64_roundtrip) { roundtrip<uint64_t, true>(v_in64("x")); v_cover("done"); }
V_UNIT(int16_roundtrip) { roundtrip<uint16_t, false>(v_in16("x")); v_cover("done"); }

// two distinct values never share an encoding's meaning, null is distinguishable from every value
V_UNIT(nullable_null) {
    typedef o_packed_int<uint32_t, true> P;
    unsigned char buf[6];
    P &n = P::__new((std::byte *)buf);
    V_ASSERT(n.isNull());
    V_ASSERT(n.sizeOf() == P::measure());
    uint32_t x = v_in32("x");
    P &o = P::__new((std::byte *)buf, x);
    V_ASSERT(!o.isNull());
    V_ASSERT(o.value() == x);
    v_cover("done");
}
// reading a null as a value is refused
V_UNIT(nullable_null_read) {
    typedef o_packed_int<uint32_t, true> P;
    unsigned char buf[6];
    P &n = P::__new((std::byte *)buf);
    v_throws(1); v_cover("null");
    n.value();
    v_assert(0, "decoding null must throw");
}
// construction in place equals write
template <typename T> static void construct(T x) {
    typedef o_packed_int<T, false> P;
    unsigned char a[12], b[12];
    memset(a, 0, 12); memset(b, 0, 12);
    P::__new((std::byte *)a, x);
    std::byte *at = (std::byte *)b; P::write(at, x);
    for (int i = 0; i < 12; i++) v_assert(a[i] == b[i], "construct and write agree");
}
V_UNIT(construct32) { construct<uint32_t>(v_in32("x")); v_cover("done"); }
V_UNIT(construct64) { construct<uint64_t>(v_in64("x")); v_cover("done"); }

// bounded write: writes exactly when it fits and never past the end
template <typename T> static void bwrite(T x, std::size_t room) {
    typedef o_packed_int<T, false> P;
    v_assume(room <= 12);
    std::byte *buf = (std::byte *)v_buf("buf", room, 1);
    std::byte *at = buf;
    v_throws(P::measure(x) > room);
    P::write(at, x, buf + room);
    V_ASSERT(P::measure(x) <= room);
    const std::byte *rd = buf;
    V_ASSERT(P::read(rd) == x && rd == at);
}
V_UNIT(bounded_write32) { bwrite<uint32_t>(v_in32("x"), v_in64("room")); v_cover("done"); }
V_UNIT(bounded_write64) { bwrite<uint64_t>(v_in64("x"), v_in64("room")); v_cover("done"); }

// bounded read of arbitrary bytes: either throws or consumes at most the given range
template <typename T> static void bread(std::size_t n) {
    typedef o_packed_int<T, false> P;
    v_assume(n <= 10); n = v_case(n, 11);
    std::byte *buf = (std::byte *)v_buf("buf", n, 1);
    const std::byte *at = buf;
    v_throws(1);
    init_settings(); P::read(at, buf + n);
    V_ASSERT(at > buf && at <= buf + n);
}
V_UNIT(bounded_read32) { bread<uint32_t>(v_in64("n")); v_cover("done"); }
V_UNIT(bounded_read64) { bread<uint64_t>(v_in64("n")); v_cover("done"); }
// bounded read of a well-formed value does not throw
V_UNIT(bounded_read_valid) {
    typedef o_packed_int<uint32_t, false> P;
    uint32_t x = v_in32("x"); unsigned char buf[8];
    std::byte *at = (std::byte *)buf; P::write(at, x);
    const std::byte *rd = (const std::byte *)buf;
    init_settings(); V_ASSERT(P::read(rd, at) == x);
    V_ASSERT(rd == at);
    v_cover("done");
}
// safeSizeOf of arbitrary bytes never reads outside a bounded buffer
V_UNIT(safe_size) {
    typedef o_packed_int<uint32_t, false> P;
    uint64_t n = v_in64("n"); v_assume(n <= 7); n = v_case(n, 8);
    std::byte *buf = (std::byte *)v_buf("buf", n, 1);
    v_throws(1);
    init_settings(); const_bounded_buf_t b(Settings::m_decode_error, buf, buf + n);
    std::size_t s = P::safeSizeOf(b);
    V_ASSERT(s >= 1 && s <= n && s <= P::max_len());
    v_cover("done");
}
V_UNIT(pair) {
    typedef o_packed_int_pair<uint32_t, uint32_t> PP;
    uint32_t a = v_in32("a"), b = v_in32("b");
    unsigned char buf[12]; buf[11] = 0x5A;
    std::size_t m = PP::measure(a, b);
    PP &o = PP::__new((std::byte *)buf, a, b);
    V_ASSERT(o.value().first == a && o.value().second == b);
    V_ASSERT(o.sizeOf() == m);
    const std::byte *rd = (std::byte *)buf;
    auto p = PP::read(rd);
    V_ASSERT(p.first == a && p.second == b && rd == (std::byte *)buf + m);
    unsigned char buf2[12];
    std::byte *at = (std::byte *)buf2; PP::write(at, {a, b});
    V_ASSERT(at == (std::byte *)buf2 + m && m <= 10 && buf[11] == 0x5A);
    rd = (std::byte *)buf2; auto q = PP::read(rd);
    V_ASSERT(q.first == a && q.second == b);
    v_cover("done");
}
V_UNIT(pair64) {
    typedef o_packed_int_pair<uint64_t, uint32_t> PP;
    uint64_t a = v_in64("a"); uint32_t b = v_in32("b");
    unsigned char buf[16];
    PP &o = PP::__new((std::byte *)buf, a, b);
    V_ASSERT(o.value().first == a && o.value().second == b);
    V_ASSERT(o.sizeOf() == PP::measure(a, b));
    v_cover("done");
}
// packed_array: append adds exactly the item and leaves the rest alone; refused when it does not fit
V_UNIT(packed_array_append) {
    typedef o_packed_array<packed_int32, uint16_t, 24> A;
    struct { unsigned char pre[2]; A a; unsigned char post[2]; } s;
    memset(s.pre, 7, 2); memset(s.post, 9, 2);
    uint64_t used = v_in64("used"); v_assume(used <= 22); used = v_case(used, 23);
    unsigned char *img = (unsigned char *)v_buf("img", 22, 1);
    s.a.m_end_offset = used; memcpy(&s.a.m_payload[0], img, 22);
    uint32_t x = v_in32("x"); unsigned m = packed_int32::measure(x);
    V_ASSERT(s.a.canEmplaceBack(x) == (used + m <= 22));
    auto oldEnd = s.a.end();
    bool ok = s.a.tryEmplaceBack(x);
    V_ASSERT(ok == (used + m <= 22));
    for (unsigned i = 0; i < 22; i++) v_assert(s.a.m_payload[i] == img[i] || (ok && i >= used && i < used + m), "other items unchanged");
    V_ASSERT(s.pre[0] == 7 && s.pre[1] == 7 && s.post[0] == 9 && s.post[1] == 9);
    if (ok) { v_cover("fits"); V_ASSERT((*oldEnd).value() == x); ++oldEnd; V_ASSERT(oldEnd == s.a.end()); V_ASSERT(s.a.m_end_offset == used + m); }
    else { v_cover("full"); V_ASSERT(s.a.m_end_offset == used); }
}
V_UNIT(packed_array_seq) {
    typedef o_packed_array<packed_int32, uint16_t, 24> A;
    A a; uint32_t x = v_in32("x"), y = v_in32("y"), z = v_in32("z");
    V_ASSERT(a.begin() == a.end());
    V_ASSERT(a.tryEmplaceBack(x)); V_ASSERT(a.tryEmplaceBack(y)); V_ASSERT(a.tryEmplaceBack(z));
    auto it = a.begin();
    V_ASSERT((*it).value() == x); ++it; V_ASSERT(it != a.end());
    V_ASSERT((*it).value() == y); ++it; V_ASSERT((*it).value() == z); ++it; V_ASSERT(it == a.end());
    v_cover("done");
}
V_UNIT(optional_item) {
    o_optional_item<uint32_t> o; V_ASSERT(!o.isSet());
    uint32_t x = v_in32("x"); o.set(x); V_ASSERT(o.isSet() && o.get() == x);
    o_optional_item<uint32_t> p(x); V_ASSERT(p.isSet() && p.get() == x);
    std::optional<uint32_t> q = o; V_ASSERT(q && *q == x);
    o.clear(); V_ASSERT(!o.isSet()); q = o; V_ASSERT(!q);
    v_cover("empty"); v_throws(1); o.get(); v_assert(0, "get of an unset item must throw");
}
