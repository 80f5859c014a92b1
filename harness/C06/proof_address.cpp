// Contracts on object addresses: composition, decomposition and order, for every value.
#include <v.h>
#include <vrt.hpp>
#include <dbzero/core/memory/Address.cpp>
using namespace db0;
static UniqueAddress mk(const char *a, const char *b, uint64_t &o, uint16_t &i) { o = v_in64(a); i = v_in16(b); v_assume(o < (1ull << 50)); v_assume(i > 0); v_assume(i < (1u << 14)); return makeUniqueAddr(o, i); }
V_UNIT(unique_parts) {
    uint64_t o; uint16_t i; auto u = mk("offset", "instance", o, i); v_cover("made");
    V_ASSERT(u.getOffset() == o); V_ASSERT(u.getInstanceId() == i); V_ASSERT(u.hasInstanceId()); V_ASSERT(u.isValid()); V_ASSERT(u.getAddress().getOffset() == o); V_ASSERT(((Address)u).getOffset() == o); V_ASSERT(u.getAddress().getValue() == o);
    auto w = UniqueAddress::fromValue(u.getValue()); V_ASSERT(w == u); V_ASSERT(w.getOffset() == o); V_ASSERT(w.getInstanceId() == i);
    V_ASSERT(!UniqueAddress().isValid()); V_ASSERT(!UniqueAddress().hasInstanceId());
    V_ASSERT(std::hash<UniqueAddress>()(u) == std::hash<UniqueAddress>()(w));
}
V_UNIT(unique_distinct) { // two pairs share an address exactly when they are the same pair
    uint64_t o, p; uint16_t i, j; auto u = mk("offset1", "instance1", o, i); auto w = mk("offset2", "instance2", p, j); bool same = (o == p) & (i == j); v_cover("made");
    V_ASSERT((u.getValue() == w.getValue()) == same); V_ASSERT((u == w) == same); V_ASSERT((u != w) == !same); V_ASSERT((u < w) == ((o < p) | ((o == p) & (i < j))));
}
V_UNIT(unique_order) { // all values, also those not composed of parts
    uint64_t a = v_in64("a"), b = v_in64("b"); auto u = UniqueAddress::fromValue(a), w = UniqueAddress::fromValue(b); v_cover("any");
    V_ASSERT((u < w) == (a < b)); V_ASSERT((u <= w) == (a <= b)); V_ASSERT((u > w) == (a > b)); V_ASSERT((u >= w) == (a >= b)); V_ASSERT((u == w) == (a == b)); V_ASSERT((u != w) == (a != b)); V_ASSERT(u.isValid() == (a != 0)); V_ASSERT(u.getValue() == a); V_ASSERT(u.getOffset() == a >> 14); V_ASSERT(u.hasInstanceId() == ((a & 16383) != 0));
}
V_UNIT(address_order) {
    uint64_t a = v_in64("a"), b = v_in64("b"); auto u = Address::fromOffset(a), w = Address::fromValue(b); v_cover("any");
    V_ASSERT((u < w) == (a < b)); V_ASSERT((u > w) == (a > b)); V_ASSERT((u == w) == (a == b)); V_ASSERT((u != w) == (a != b)); V_ASSERT(u.isValid() == (a != 0)); V_ASSERT((!u) == (a == 0)); V_ASSERT(u.getValue() == a); V_ASSERT(u.getOffset() == a); V_ASSERT((uint64_t)u == a);
    V_ASSERT((u + b).getOffset() == a + b); V_ASSERT((u - b).getOffset() == a - b); V_ASSERT(((u + b) - b) == u); V_ASSERT(!Address().isValid()); V_ASSERT(std::hash<Address>()(u) == std::hash<Address>()(Address::fromOffset(a)));
}
V_UNIT(narrow_address) { // the 32-bit address used inside small stores
    using A32 = AddressType<uint32_t>; uint32_t a = v_in32("a"), b = v_in32("b"); auto u = A32::fromOffset(a), w = A32::fromOffset(b); v_cover("any");
    V_ASSERT((u < w) == (a < b)); V_ASSERT((u == w) == (a == b)); V_ASSERT(u.getOffset() == a); V_ASSERT((u + (uint32_t)b).getOffset() == (uint32_t)(a + b)); V_ASSERT((u + (std::size_t)b).getOffset() == (uint32_t)(a + b)); V_ASSERT((u - (std::size_t)b).getOffset() == (uint32_t)(a - b));
}
#include <dbzero/object_model/value/TypedAddress.cpp>
using db0::object_model::TypedAddress; using db0::StorageClass;
V_UNIT(typed_address) { // type and offset in one value: each part as given, changing one keeps the other, no two pairs share a value
    uint64_t o = v_in64("offset"), p = v_in64("offset2"); uint8_t t = v_in8("type"), w = v_in8("type2"); v_assume(o < (1ull << 50)); v_assume(p < (1ull << 50));
    TypedAddress a((StorageClass)t, Address::fromOffset(o)), b((StorageClass)w, Address::fromOffset(p)); v_cover("made"); bool same = (o == p) & (t == w);
    V_ASSERT((uint8_t)a.getType() == t); V_ASSERT(a.getAddress().getOffset() == o); V_ASSERT(((Address)a).getOffset() == o); V_ASSERT((a == b) == same); V_ASSERT((a < b) == ((t < w) | ((t == w) & (o < p))));
    V_ASSERT(std::hash<TypedAddress>()(a) == std::hash<TypedAddress>()(TypedAddress((StorageClass)t, Address::fromOffset(o))));
    auto c = a; c.setAddress(Address::fromOffset(p)); V_ASSERT((uint8_t)c.getType() == t); V_ASSERT(c.getAddress().getOffset() == p); auto d = a; d.setType((StorageClass)w); V_ASSERT((uint8_t)d.getType() == w); V_ASSERT(d.getAddress().getOffset() == o);
    uint16_t i = v_in16("instance"); v_assume(i > 0); v_assume(i < (1u << 14)); auto e = object_model::toTypedAddress({makeUniqueAddr(o, i), (StorageClass)w}); V_ASSERT((uint8_t)e.getType() == w); V_ASSERT(e.getAddress().getOffset() == o);
}
