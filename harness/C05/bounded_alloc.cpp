// Bounded stand-in: histories of the whole allocators against an interval map.
#include <nspace.hpp>
#include <dbzero/core/memory/BitSpace.hpp>
#include <dbzero/core/crdt/CRDT_Allocator.hpp>
#include <dbzero/core/memory/SlabAllocator.hpp>
#include <dbzero/core/memory/MetaAllocator.hpp>
#include <dbzero/core/memory/Recycler.hpp>
#include <dbzero/core/memory/OneShotAllocator.hpp>
#include <dbzero/core/memory/AlgoAllocator.hpp>
#include <dbzero/core/dram/DRAM_Allocator.hpp>
using namespace db0;
// live allocations: start -> size, with the no-overlap check
struct Shadow {
    std::map<uint64_t, uint64_t> m; uint64_t total = 0;
    void add(uint64_t a, uint64_t s, uint64_t lo, uint64_t hi) {
        if (a < lo || a + s > hi) nb::fail("allocation outside the managed range");
        auto it = m.lower_bound(a); if (it != m.end() && it->first < a + s) nb::fail("allocation overlaps the next live one");
        if (it != m.begin()) { --it; if (it->first + it->second > a) nb::fail("allocation overlaps the previous live one"); }
        m[a] = s; total += s;
    }
    std::pair<uint64_t, uint64_t> pick(nb::Rng &r) { auto it = m.lower_bound(r.next() % (m.rbegin()->first + 1)); if (it == m.end()) it = m.begin(); return *it; }
    void del(uint64_t a) { auto it = m.find(a); total -= it->second; m.erase(it); }
};
struct Crdt {
    nb::Space sp; BitSpace<0x8000> bs; CRDT_Allocator::AllocSetT allocs; CRDT_Allocator::BlankSetT blanks; CRDT_Allocator::AlignedBlankSetT ablanks; CRDT_Allocator::StripeSetT stripes; std::unique_ptr<CRDT_Allocator> a; uint32_t size;
    explicit Crdt(uint32_t sz, const std::vector<CRDT_Allocator::Blank> &bl = {}): bs(sp.prefix, Address::fromOffset(0), 4096), allocs(bs, 4096), blanks(bs, 4096), ablanks(bs, 4096, CRDT_Allocator::Blank::AlignedCompT(4096), 4096), stripes(bs, 4096), size(sz) {
        if (bl.empty()) CRDT_Allocator::insertBlank(blanks, ablanks, { sz, 0 }, 4096); else for (auto &b : bl) CRDT_Allocator::insertBlank(blanks, ablanks, b, 4096);
        open();
    }
    void open() { a.reset(); a = std::make_unique<CRDT_Allocator>(allocs, blanks, ablanks, stripes, size, 4096); }
    ~Crdt() { a.reset(); }
    // the recorded extents and blanks partition the managed range
    void partition() {
        std::map<uint64_t, uint64_t> e; for (auto it = allocs.cbegin(); !it.is_end(); ++it) { auto x = *it; if (!e.emplace(x.m_address, x.size()).second) nb::fail("two records at one address"); }
        std::map<uint64_t, uint64_t> b; for (auto it = blanks.cbegin(); !it.is_end(); ++it) { auto x = *it; b.emplace(x.m_address, x.m_size); if (!e.emplace(x.m_address, x.m_size).second) nb::fail("blank and record at one address"); }
        uint64_t at = 0; for (auto &x : e) { if (x.first != at) nb::fail("gap or overlap between records and blanks at " + std::to_string(at)); at += x.second; } if (at != size) nb::fail("records and blanks do not cover the range");
        uint64_t prev = ~0ull; for (auto &x : b) { if (prev == x.first) nb::fail("neighbouring blanks not merged"); prev = x.first + x.second; }
    }
};
static void history(Crdt &c, nb::Rng &r, unsigned steps, unsigned maxSize, bool check, std::function<void()> between = {}) {
    Shadow s; unsigned fill = 30 + r.below(60); int64_t base = c.a->getAllocDelta(); std::vector<uint64_t> sizes; for (int i = 0; i < 6; i++) sizes.push_back(1 + r.edgy(9)); uint64_t h = maxSize;
    for (unsigned i = 0; i < steps; i++) {
        if (r.below(100) < fill || s.m.empty()) {
            bool al = r.chance(1, 8); uint64_t n = al ? 4097 + r.below(maxSize) : r.chance(2, 3) ? sizes[r.below(sizes.size())] : 1 + r.below(maxSize);
            nb::current += (al ? "A" : "a") + std::to_string(n) + " "; auto p = c.a->tryAlloc(n, al); h = h * 31 + n;
            if (p) { s.add(*p, n, 0, c.size); if (al && *p % 4096) nb::fail("aligned allocation is not aligned"); std::size_t q = 0; NB_CHECK(c.a->isAllocated(*p, &q)); NB_CHECK(q == n && c.a->getAllocSize(*p) == n); if (*p + n > c.a->getMaxAddr() && !al) nb::fail("max address below an allocation"); }
            else if (s.m.empty() && !al && n * 2 < c.size && !between) nb::fail("empty allocator refuses a small allocation");
        } else { auto p = s.pick(r); nb::current += "f" + std::to_string(p.first) + " "; c.a->free(p.first); s.del(p.first); h = h * 37 + p.first; NB_CHECK(!c.a->isAllocated(p.first)); }
        if (between) between();
        if (r.chance(1, 40)) fill = 20 + r.below(75);
        if (r.chance(1, 60)) { nb::current += "commit "; c.a->commit(); }
        if (check && r.chance(1, 8)) c.partition();
        if (check && r.chance(1, 10)) for (auto &x : s.m) { std::size_t q = 0; if (!c.a->isAllocated(x.first, &q) || q != x.second) nb::fail("live allocation forgotten or resized"); }
        if (!between) NB_CHECK(c.a->getAllocDelta() - base == (int64_t)s.total);
    }
    if (check) c.partition();
    nb::note(h);
    if (!between) { while (!s.m.empty()) { auto p = s.pick(r); c.a->free(p.first); s.del(p.first); } c.partition(); if (!c.allocs.empty() || c.blanks.size() != 1) nb::fail("freed space is not returned as one blank"); }
}
NB_SECTION(crdt, "CRDT allocator histories") {
    nb::loop(2000, rng, [](nb::Rng &r, uint64_t) { uint32_t sz = 20000 + r.below(400000); Crdt c(sz); nb::current = "size " + std::to_string(sz) + ": "; history(c, r, 50 + r.below(600), 1 + r.edgy(14), true); });
}
NB_SECTION(crdtb, "CRDT allocator with moving bounds") {
    nb::loop(2000, rng, [](nb::Rng &r, uint64_t) {
        uint32_t sz = 400000 + r.below(400000); Crdt c(sz); uint32_t red = sz - r.below(100000); nb::current = "size " + std::to_string(sz) + ": ";
        c.a->setDynamicBound([&]() { uint32_t b2 = red; return std::make_tuple(b2 - 16384u, b2 - 8192u, b2); });
        history(c, r, 50 + r.below(500), 1 + r.edgy(14), false, [&]() { if (r.chance(1, 10)) { uint32_t m = c.a->getMaxAddr() + 20000; red = m >= sz ? sz : m + r.below(sz - m + 1); nb::current += "bound" + std::to_string(red) + " "; } });
    });
}
// many odd blanks around page boundaries, aligned requests under bounds
NB_SECTION(crdta, "aligned allocation among fragments") {
    nb::loop(4000, rng, [](nb::Rng &r, uint64_t) {
        std::vector<CRDT_Allocator::Blank> bl; uint64_t at = r.below(5000); unsigned n = 2 + r.below(12); uint64_t h = 0; nb::current.clear();
        for (unsigned i = 0; i < n; i++) { uint32_t s = 4097 + r.below(16000); bl.push_back({ s, (uint32_t)at }); nb::current += std::to_string(at) + "+" + std::to_string(s) + " "; at += s + 1 + r.below(3000); h = h * 31 + s + at; }
        uint32_t sz = at + 200000; Crdt c(sz, bl); uint32_t bound = (uint32_t)(at / 4 + r.below(at)); nb::current += "bound " + std::to_string(bound) + ": ";
        c.a->setDynamicBound([&]() { return std::make_tuple(bound, sz, sz + 100000u); }); Shadow s; nb::note(h);
        for (int i = 0; i < 12; i++) { uint64_t q = 4097 + r.below(12000); nb::current += "A" + std::to_string(q) + " "; auto p = c.a->tryAlloc(q, true); if (!p) continue; s.add(*p, q, 0, sz); bool in = false; for (auto &b : bl) if (*p >= b.m_address && *p + q <= (uint64_t)b.m_address + b.m_size) in = true; if (!in) nb::fail("aligned allocation outside every blank"); if (*p % 4096) nb::fail("not aligned"); }
    });
}
NB_SECTION(slab, "slab allocator histories") {
    nb::loop(300, rng, [](nb::Rng &r, uint64_t) {
        nb::Space sp; uint32_t slab = (64 + r.below(200)) * 4096; auto base = Address::fromOffset(r.below(4) * 4096ull * 1024); nb::current = "slab " + std::to_string(slab) + ": ";
        auto cap = SlabAllocator::formatSlab(sp.prefix, base, slab, 4096); auto a = std::make_unique<SlabAllocator>(sp.prefix, base, slab, 4096, cap, 0); Shadow s; uint64_t h = slab; unsigned big = 1 + r.edgy(13);
        uint64_t lo = base.getOffset(), hi = lo + slab - 4096;
        for (int i = 0; i < 1500; i++) {
            if (r.below(100) < 65 || s.m.empty()) { uint64_t n = 1 + r.below(big); bool al = r.chance(1, 10) && n > 4096; nb::current += "a" + std::to_string(n) + " "; auto p = a->tryAlloc(n, 0, al); h = h * 31 + n; if (p) { s.add(p->getOffset(), n, lo, hi); std::size_t q = 0; NB_CHECK(a->isAllocated(*p, &q) && q == n && a->getAllocSize(*p) == n); NB_CHECK(a->inRange(*p)); } }
            else { auto p = s.pick(r); nb::current += "f" + std::to_string(p.first) + " "; a->free(Address::fromOffset(p.first)); s.del(p.first); NB_CHECK(!a->isAllocated(Address::fromOffset(p.first))); }
            if (r.chance(1, 200)) { nb::current += "reopen "; a->commit(); a->detach(); a.reset(); a = std::make_unique<SlabAllocator>(sp.prefix, base, slab, 4096, cap, 0); }
            if (r.chance(1, 60)) for (auto &x : s.m) { std::size_t q = 0; if (!a->isAllocated(Address::fromOffset(x.first), &q) || q != x.second) nb::fail("live allocation forgotten or resized"); }
        }
        for (auto &x : s.m) NB_CHECK(a->getAllocSize(Address::fromOffset(x.first)) == x.second); nb::note(h); a.reset();
    });
}
NB_SECTION(meta, "meta allocator over slabs and realms") {
    nb::loop(300, rng, [](nb::Rng &r, uint64_t) {
        nb::Space sp; uint32_t slab = 64 * 4096; MetaAllocator::formatPrefix(sp.prefix, 4096, slab); Recycler<SlabItem> rec(1 + r.below(8)); bool deferred = r.chance(1, 2);
        auto a = std::make_unique<MetaAllocator>(sp.prefix, &rec, deferred); Shadow s; std::map<uint64_t, unsigned char> realm; uint64_t h = 7; std::set<uint64_t> uniq; unsigned slabs = 0, big = 8 + r.edgy(14); nb::current = deferred ? "deferred: " : "immediate: ";
        for (int i = 0; i < 1500; i++) {
            if (r.below(100) < 70 || s.m.empty()) {
                uint64_t n = 1 + r.below(big); unsigned char re = (unsigned char)r.below(MetaAllocator::NUM_REALMS); h = h * 31 + n; nb::current += "a" + std::to_string(n) + "@" + std::to_string(re) + " ";
                if (r.chance(1, 3)) { auto u = a->tryAllocUnique(n, 0, false, re); if (u) { if (!uniq.insert(u->getValue()).second) nb::fail("a unique address was handed out twice"); uint64_t o = u->getOffset(); s.add(o, n, 4096, ~0ull >> 8); realm[o] = re; } }
                else { auto p = a->tryAlloc(n, 0, false, re); if (p) { s.add(p->getOffset(), n, 4096, ~0ull >> 8); realm[p->getOffset()] = re; } else nb::fail("meta allocator refuses an allocation"); }
            } else { auto p = s.pick(r); nb::current += "f" + std::to_string(p.first) + " "; a->free(Address::fromOffset(p.first)); s.del(p.first); realm.erase(p.first); }
            // a slab that is removed and created again restarts its instance numbers (known finding, see bounded_unique.cpp)
            if (!deferred || r.chance(1, 20)) { if (deferred) { nb::current += "flush "; slabs = a->getSlabCount(); a->flush(); } unsigned n = a->getSlabCount(); if (n < slabs) uniq.clear(); slabs = n; }
            if (r.chance(1, 250)) { nb::current += "reopen "; slabs = a->getSlabCount(); a->flush(); if (a->getSlabCount() < slabs) uniq.clear(); slabs = a->getSlabCount(); a->commit(); a->detach(); a->close(); a.reset(); rec.clear(); a = std::make_unique<MetaAllocator>(sp.prefix, &rec, deferred); }
            if (r.chance(1, 60)) for (auto &x : s.m) { auto ad = Address::fromOffset(x.first); std::size_t q = 0; if (!a->isAllocated(ad, &q) || q != x.second || a->getAllocSize(ad) != x.second) nb::fail("live allocation forgotten or resized"); if (a->getAllocSize(ad, realm[x.first]) != x.second) nb::fail("realm of an allocation"); }
        }
        if (deferred) a->flush();
        nb::note(h); a->close(); a.reset(); rec.clear();
    });
}
NB_SECTION(dram, "DRAM allocator histories") {
    nb::loop(3000, rng, [](nb::Rng &r, uint64_t) {
        std::unique_ptr<DRAM_Allocator> a(new DRAM_Allocator(4096)); std::set<uint64_t> live; nb::current.clear(); uint64_t h = 3;
        unsigned n = r.below(80);
        for (unsigned i = 0; i < n; i++) {
            if (r.chance(3, 5) || live.empty()) { auto p = a->tryAlloc(4096); nb::current += "a "; h = h * 3 + 1; NB_CHECK(!!p); if (!live.insert(p->getOffset()).second) nb::fail("page handed out twice"); if (p->getOffset() % 4096 || *p < a->firstAlloc()) nb::fail("page address"); }
            else if (r.chance(1, 12)) { nb::current += "reopen "; std::unordered_set<std::size_t> u(live.begin(), live.end()); a.reset(new DRAM_Allocator(u, 4096)); }
            else { auto it = live.lower_bound(r.below(*live.rbegin() + 1)); nb::current += "f" + std::to_string(*it / 4096) + " "; h = h * 5 + *it; a->free(Address::fromOffset(*it)); live.erase(it); }
            for (uint64_t p = 4096; p < 4096 * 90; p += 4096) { std::size_t q = 0; bool is = a->isAllocated(Address::fromOffset(p), &q); if (is != (live.count(p) > 0)) nb::fail("allocation state of page " + std::to_string(p / 4096)); if (is && q != 4096) nb::fail("page size"); }
        }
        nb::note(h);
    });
}
template <unsigned N> static void bits(nb::Rng &r, int dir) {
    nb::Space sp; uint64_t base = 4096ull * 1000; BitsetAllocator<VFixedBitset<N> > a(VFixedBitset<N>(sp.ms), Address::fromOffset(base), 4096, dir); std::set<uint64_t> live; nb::current = "N " + std::to_string(N) + " dir " + std::to_string(dir) + ": "; uint64_t h = N + dir;
    for (int i = 0; i < 200; i++) {
        if (r.chance(3, 5) || live.empty()) { auto p = a.tryAlloc(4096); nb::current += "a "; h = h * 3; if (!p) { if (live.size() != N) nb::fail("refused while units are free"); } else { uint64_t o = p->getOffset(); if (!live.insert(o).second) nb::fail("unit handed out twice"); if (dir > 0 ? o < base || o >= base + 4096ull * N : o >= base || o < base - 4096ull * N) nb::fail("unit outside the range"); } }
        else { auto it = live.lower_bound(r.below(*live.rbegin() + 1)); nb::current += "f" + std::to_string(*it / 4096) + " "; h = h * 5 + *it; a.free(Address::fromOffset(*it)); live.erase(it); }
        if (a.getAllocCount() != live.size()) nb::fail("count");
        uint64_t span = live.empty() ? 0 : dir > 0 ? (*live.rbegin() - base) / 4096 + 1 : (base - *live.begin()) / 4096; if (a.span() != span) nb::fail("span");
        for (unsigned k = 0; k < N; k++) { uint64_t o = dir > 0 ? base + 4096ull * k : base - 4096ull * (k + 1); if (a.isAllocated(Address::fromOffset(o)) != (live.count(o) > 0)) nb::fail("allocation state"); if (live.count(o) && a.getAllocSize(Address::fromOffset(o)) != 4096) nb::fail("size"); }
    }
    nb::current += "clear"; a.clear(); if (a.getAllocCount() != 0 || a.span() != 0) nb::fail("cleared allocator reports live units");
    nb::note(h);
}
NB_SECTION(bitset, "bit map allocators") {
    nb::loop(2000, rng, [](nb::Rng &r, uint64_t i) { int d = i & 1 ? 1 : -1; switch (r.below(5)) { case 0: bits<1>(r, d); break; case 1: bits<31>(r, d); break; case 2: bits<32>(r, d); break; case 3: bits<33>(r, d); break; default: bits<123>(r, d); } });
}
NB_MAIN
