// Contracts on the packed slot store, flag sets and fixed number tuples, for every content, slot and value.
#include <v.h>
#include <vrt.hpp>
#include <vector>
#include <cstring>
#include <dbzero/object_model/object/lofi_store.hpp>
#include <dbzero/core/utils/FlagSet.hpp>
#include <dbzero/core/collections/full_text/LongTag.hpp>
#include <dbzero/object_model/value/XValue.cpp>
using namespace db0; using namespace db0::object_model;
template <unsigned S> struct Slots {
    typedef lofi_store<S> T; static constexpr unsigned N = 64 / (S + 1), W = S + 1; uint64_t d; unsigned at, j; T s;
    uint64_t &data() { return *(uint64_t *)&s; }
    bool occ(uint64_t x, unsigned i) { return (x >> (i * W + S)) & 1; } uint64_t val(uint64_t x, unsigned i) { return (x >> (i * W)) & ((1ull << S) - 1); }
    Slots() { V_ASSERT(sizeof(T) == 8); V_ASSERT(T::size() == N); d = v_in64("content"); data() = d; at = v_in32("at"); j = v_in32("j"); v_assume(at < N); v_assume(j < N); }
    void set() { uint64_t v = v_in64("value"); v_assume(v < (1ull << S)); s.set(at, v); v_cover("set"); V_ASSERT(s.isSet(at)); V_ASSERT(s.get(at) == v); V_ASSERT((j == at) | ((s.isSet(j) == occ(d, j)) & (val(data(), j) == val(d, j)))); V_ASSERT(T::create(at, v) == (v | 1ull << S) << (at * W)); }
    void get() { v_assume(occ(d, at)); v_cover("get"); V_ASSERT(s.isSet(at)); V_ASSERT(s.get(at) == val(d, at)); V_ASSERT(s.isSet(j) == occ(d, j)); V_ASSERT(data() == d); }
    void reset() { s.reset(at); v_cover("reset"); V_ASSERT(!s.isSet(at)); V_ASSERT((j == at) | ((s.isSet(j) == occ(d, j)) & (val(data(), j) == val(d, j)))); }
    void full() { bool f = s.isFull(); if (f) { v_cover("full"); V_ASSERT(occ(d, j)); } else { v_cover("room"); uint64_t v = v_in64("value"); v_assume(v < (1ull << S)); unsigned i = s.add(v); V_ASSERT(i < N); V_ASSERT(!occ(d, i)); V_ASSERT(!(j < i) | occ(d, j)); V_ASSERT(s.isSet(i)); V_ASSERT(s.get(i) == v); V_ASSERT((j == i) | ((s.isSet(j) == occ(d, j)) & (val(data(), j) == val(d, j)))); } }
    // iteration: from the first occupied slot, each step to the next one
    void first() { auto it = s.begin(); auto e = s.end(); if (it.isEnd()) { v_cover("empty"); V_ASSERT(!occ(d, j)); V_ASSERT(!(it != e)); } else { v_cover("first"); unsigned k = it.getOffset(); V_ASSERT(k < N); V_ASSERT(occ(d, k)); V_ASSERT(*it == val(d, k)); V_ASSERT(!(j < k) | !occ(d, j)); V_ASSERT(it != e); } }
    void next() { unsigned c = v_case(at, N); typename T::const_iterator it(d, c, N); v_assume(occ(d, c)); V_ASSERT(it.getOffset() == c); ++it; auto e = s.end(); if (it.isEnd()) { v_cover("end"); V_ASSERT(!(j > c) | !occ(d, j)); V_ASSERT(!(it != e)); } else { v_cover("next"); unsigned k = it.getOffset(); V_ASSERT((k < N) & (k > c)); V_ASSERT(occ(d, k)); V_ASSERT(*it == val(d, k)); V_ASSERT(!((j > c) & (j < k)) | !occ(d, j)); V_ASSERT(it != e); } }
    void mask() { v_cover("mask"); V_ASSERT(T::mask(at) == ((1ull << W) - 1) << (at * W)); }
};
template <typename U> struct Flags {
    enum class E : U { none = 0 }; typedef FlagSet<E> F; U x, f, g;
    static U in(const char *n) { return (U)v_in64(n); }
    static bool one(U f) { return (f != 0) & ((f & (U)(f - 1)) == 0); }
    void run() {
        x = in("flags"); f = in("flag"); g = in("other"); v_assume(one(f)); v_assume(one(g)); bool v = v_inbool("value"); F s = F::fromValue(x); V_ASSERT(sizeof(F) == sizeof(U)); V_ASSERT(s.value() == x); V_ASSERT(s.test((E)f) == ((x & f) != 0)); V_ASSERT(s[(E)f] == s.test((E)f)); bool og = (x & g) != 0; v_cover("flags");
        F t = s; t.set((E)f, v); V_ASSERT(t.test((E)f) == v); V_ASSERT((f == g) | (t.test((E)g) == og)); t = s; t.set((E)f); V_ASSERT(t.test((E)f)); V_ASSERT((f == g) | (t.test((E)g) == og)); t.clear((E)f); V_ASSERT(!t.test((E)f)); V_ASSERT((f == g) | (t.test((E)g) == og)); t = s; t += (E)f; V_ASSERT(t.value() == (U)(x | f)); t -= (E)f; V_ASSERT(t.value() == (U)(x & ~f));
        U y = in("mask"); F m = F::fromValue(y); V_ASSERT((s & m).value() == (U)(x & y)); V_ASSERT((s | m).value() == (U)(x | y)); V_ASSERT((s ^ m).value() == (U)(x ^ y)); V_ASSERT((~s).value() == (U)~x); V_ASSERT((s == m) == (x == y)); V_ASSERT((s != m) == (x != y)); V_ASSERT(s.any() == (x != 0)); V_ASSERT(s.none() == (x == 0)); V_ASSERT(s.any(y) == ((x & y) != 0)); V_ASSERT((s & (E)f).value() == (U)(x & f)); V_ASSERT((s | (E)f).value() == (U)(x | f)); V_ASSERT(s.size() == sizeof(U) * 8); F all; V_ASSERT(all.none()); all.set(); V_ASSERT(all.test((E)f));
    }
};
template <typename T, unsigned N> static bool less(const num_pack<T, N> &a, const num_pack<T, N> &b) { bool r = false; for (int i = N - 1; i >= 0; i--) r = (a.data[i] < b.data[i]) | ((a.data[i] == b.data[i]) & r); return r; }
template <typename T, unsigned N> static void packs() {
    typedef num_pack<T, N> P; auto a = *(P *)v_buf("a", sizeof(P), 1), b = *(P *)v_buf("b", sizeof(P), 1); V_ASSERT(sizeof(P) == N * sizeof(T)); bool same = true; for (unsigned i = 0; i < N; i++) { same &= a.data[i] == b.data[i]; V_ASSERT(a[i] == a.data[i]); } v_cover("packs"); V_ASSERT((a == b) == same); V_ASSERT((a != b) == !same); V_ASSERT((a < b) == less(a, b)); V_ASSERT((a < b) + (b < a) + (a == b) == 1); P c = a; V_ASSERT(c == a); }
#define STORE(S) V_UNIT(store##S##_set) { Slots<S>().set(); } V_UNIT(store##S##_get) { Slots<S>().get(); } V_UNIT(store##S##_reset) { Slots<S>().reset(); } V_UNIT(store##S##_full) { Slots<S>().full(); } V_UNIT(store##S##_first) { Slots<S>().first(); } V_UNIT(store##S##_next) { Slots<S>().next(); } V_UNIT(store##S##_mask) { Slots<S>().mask(); }
STORE(1) STORE(2) STORE(4) STORE(8) STORE(16)
// values sharing a packed word differ only if their own slot differs
V_UNIT(packed_value_equal) {
    XValue a, b; uint64_t x = v_in64("a"), y = v_in64("b"); uint32_t i = v_in32("i"), k = v_in32("k"); v_assume((i < 0x1000000) & (k < 0x1000000)); memcpy(&a.m_value, &x, 8); memcpy(&b.m_value, &y, 8); memcpy(a.m_index.data(), &i, 3); memcpy(b.m_index.data(), &k, 3); a.m_type = b.m_type = StorageClass::PACK_2; unsigned at = v_in32("at"); v_assume(at < 21);
    v_cover("compared"); V_ASSERT(a.getIndex() == i); V_ASSERT(a.equalTo(b, at) == ((i == k) & ((x >> (at * 3) & 7) == (y >> (at * 3) & 7))));
}
V_UNIT(flags8) { Flags<uint8_t>().run(); } V_UNIT(flags16) { Flags<uint16_t>().run(); } V_UNIT(flags32) { Flags<uint32_t>().run(); } V_UNIT(flags64) { Flags<uint64_t>().run(); }
// the number of flags set, and the flags listed, for every set of eight flags
V_UNIT(flags_count) { typedef Flags<uint8_t> T; uint64_t x = v_in8("flags"); x = v_case(x, 256); unsigned n = 0; for (int i = 0; i < 8; i++) n += x >> i & 1; auto s = T::F::fromValue(x); v_cover("count"); V_ASSERT(s.count() == n); }
V_UNIT(flags_list) { typedef Flags<uint8_t> T; uint64_t x = v_in8("flags"); x = v_case(x, 256); auto l = T::F::fromValue(x).unpack(); unsigned k = 0; v_cover("list"); for (int i = 0; i < 8; i++) if (x >> i & 1) { V_ASSERT(k < l.size()); V_ASSERT((unsigned)l[k] == 1u << i); k++; } V_ASSERT(l.size() == k); }
V_UNIT(long_tag) { packs<uint64_t, 2>(); uint64_t x = v_in64("x"), y = v_in64("y"); LongTagT t(x, y); V_ASSERT((t[0] == x) & (t[1] == y)); }
V_UNIT(triple) { packs<uint32_t, 3>(); } V_UNIT(quad) { packs<uint8_t, 4>(); }
// the lexicographic order is transitive
V_UNIT(tag_order) { auto a = *(LongTagT *)v_buf("a", 16, 1), b = *(LongTagT *)v_buf("b", 16, 1), c = *(LongTagT *)v_buf("c", 16, 1); if (a < b && b < c) { v_cover("chain"); V_ASSERT(a < c); } }
