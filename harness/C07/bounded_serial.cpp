#include <nb.hpp>
#include <dbzero/core/serialization/string.hpp>
#include <dbzero/core/serialization/micro_array.hpp>
#include <dbzero/core/serialization/packed_array.hpp>
#include <dbzero/core/serialization/packed_int_pair.hpp>
#include <dbzero/core/serialization/list.hpp>
#include <dbzero/core/serialization/optional_item.hpp>
using namespace db0;
// list of packed ints of random length: contents, size, and safe sizing of the image
NB_SECTION(list, "lists of packed ints") {
    nb::loop(4000, rng, [](nb::Rng &r, uint64_t) {
        std::vector<uint32_t> v(r.below(60)); uint64_t h = v.size();
        std::ostringstream s; for (auto &x : v) { x = (uint32_t)r.edgy(32); h = h * 31 + x; s << x << ' '; }
        nb::current = s.str(); nb::note(h); nb::sample(s.str().substr(0, 80));
        typedef o_list<packed_int32> L;
        std::size_t m = L::measure(v); std::vector<std::byte> img(m + 8, std::byte(0xA7));
        L &l = L::__new(img.data(), v);
        NB_CHECK(l.sizeOf() == m && l.size() == v.size() && L::safeSizeOf((const std::byte *)img.data()) == m);
        std::size_t i = 0; for (auto it = l.begin(); it != l.end(); ++it, ++i) { NB_CHECK(i < v.size()); NB_CHECK(it->value() == v[i]); }
        NB_CHECK(i == v.size());
        for (int k = 0; k < 8; k++) NB_CHECK(img[m + k] == std::byte(0xA7));
    });
}
NB_SECTION(parr, "packed array fill") {
    nb::loop(4000, rng, [](nb::Rng &r, uint64_t) {
        typedef o_packed_array<packed_int32, uint16_t, 64> A;
        A a; std::vector<uint32_t> v; uint64_t h = 1; bool full = false;
        for (int i = 0; i < 80 && !full; i++) { uint32_t x = (uint32_t)r.edgy(32); std::size_t used = 0; for (auto y : v) used += packed_int32::measure(y);
            nb::current += std::to_string(x) + " ";
            bool fits = used + packed_int32::measure(x) + 2 <= 64; NB_CHECK(a.canEmplaceBack(x) == fits); bool ok = a.tryEmplaceBack(x); NB_CHECK(ok == fits); if (ok) v.push_back(x); else full = true; h = h * 31 + x; }
        std::size_t i = 0; for (auto it = a.begin(); it != a.end(); ++it, ++i) { NB_CHECK(i < v.size() && (*it).value() == v[i]); } NB_CHECK(i == v.size());
        nb::note(h); nb::current.clear();
    });
}
NB_SECTION(strs, "strings") {
    nb::loop(4000, rng, [](nb::Rng &r, uint64_t) {
        std::string s(r.chance(1, 8) ? r.below(70000) : r.below(300), 'a'); for (auto &c : s) c = (char)r.below(256);
        nb::current = "string of " + std::to_string(s.size()) + " bytes"; nb::note(std::hash<std::string>()(s));
        std::size_t m = o_string::measure(s); std::vector<std::byte> img(m + 4, std::byte(0x5C));
        o_string &o = o_string::__new(img.data(), s);
        NB_CHECK(o.toString() == s && o.sizeOf() == m && o.size() == s.size() && o == s); for (int k = 0; k < 4; k++) NB_CHECK(img[m + k] == std::byte(0x5C));
        std::string t(r.below(6), 'a'); for (auto &c : t) c = (char)('a' + r.below(3)); std::string u = t; if (u.size() && r.chance(1, 2)) u[r.below(u.size())] = 'b';
        std::vector<std::byte> i1(16), i2(16); o_string &x = o_string::__new(i1.data(), t), &y = o_string::__new(i2.data(), u);
        NB_CHECK((x < y) == (t < u)); NB_CHECK((x == y) == (t == u)); NB_CHECK((x > y) == (t > u));
    });
}
NB_SECTION(marr, "micro arrays from ranges") {
    nb::loop(4000, rng, [](nb::Rng &r, uint64_t) {
        std::vector<uint16_t> v(r.below(400)); for (auto &x : v) x = (uint16_t)r.next();
        nb::current = "array of " + std::to_string(v.size()); nb::note(v.size() * 65537 + (v.empty() ? 0 : v[0]));
        typedef o_micro_array<uint16_t> A; std::size_t m = A::measure(v); std::vector<std::byte> img(m + 4, std::byte(0x5C));
        A &a = A::__new(img.data(), v); NB_CHECK(a.size() == v.size() && a.sizeOf() == m);
        for (std::size_t i = 0; i < v.size(); i++) NB_CHECK(((const A &)a)[i] == v[i]);
        for (int k = 0; k < 4; k++) NB_CHECK(img[m + k] == std::byte(0x5C));
        unsigned off = (unsigned)r.edgy(20); typedef o_micro_array<uint16_t, true> B; std::size_t m2 = B::measure(v, off); std::vector<std::byte> img2(m2 + 4, std::byte(0x5C));
        B &b = B::__new(img2.data(), v, off); NB_CHECK(b.size() == v.size() && b.offset() == off && b.sizeOf() == m2);
        for (std::size_t i = 0; i < v.size(); i++) NB_CHECK(((const B &)b)[i] == v[i]);
    });
}
NB_MAIN
