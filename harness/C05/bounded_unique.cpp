// A unique address is never handed out twice, also when the slab it came from was emptied, removed and created again.
#include <nspace.hpp>
#include <dbzero/core/memory/MetaAllocator.hpp>
#include <dbzero/core/memory/Recycler.hpp>
using namespace db0;
NB_SECTION(recreated, "unique addresses when the last slab of a realm is emptied and created again") {
    nb::Space sp; MetaAllocator::formatPrefix(sp.prefix, 4096, 64 * 4096); Recycler<SlabItem> rec(4); MetaAllocator a(sp.prefix, &rec, false); nb::current = "realm 1: unique 100 bytes, free, unique 100 bytes"; nb::note(1);
    auto u = a.tryAllocUnique(100, 0, false, 1); NB_CHECK(!!u); a.free(u->getAddress()); auto v = a.tryAllocUnique(100, 0, false, 1); NB_CHECK(!!v);
    if (u->getValue() == v->getValue()) nb::fail("a unique address was handed out twice");
    a.close(); rec.clear();
}
NB_MAIN
