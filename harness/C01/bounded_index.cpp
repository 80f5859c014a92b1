// Bounded stand-in: histories of recorded page changes on the real in-memory indexes against a reference.
#include <nb.hpp>
#include <dbzero/core/storage/SparsePair.hpp>
#include <dbzero/core/storage/SparseIndexQuery.hpp>
#include <dbzero/core/dram/DRAM_Prefix.hpp>
#include <dbzero/core/dram/DRAM_Allocator.hpp>
using namespace db0;
struct Ch { uint32_t state; uint64_t loc; bool diff; };
struct Ref {
    std::map<uint64_t, std::vector<Ch> > m;
    // the versions a reader as of `state` needs, oldest first; the first one is the full image if there is one
    std::vector<Ch> at(uint64_t page, uint32_t state, bool &full) const {
        std::vector<Ch> r; full = false; auto it = m.find(page); if (it == m.end()) return r;
        for (auto &c : it->second) { if (c.state > state) break; if (!c.diff) { r.clear(); full = true; } r.push_back(c); }
        return r;
    }
};
static void query(const SparseIndex &si, const DiffIndex &di, const Ref &ref, uint64_t page, uint32_t state) {
    bool full; auto want = ref.at(page, state, full); std::string at = " page " + std::to_string(page) + " state " + std::to_string(state);
    SparseIndexQuery q(si, di, page, state);
    if (q.empty() != want.empty()) nb::fail("empty() disagrees with the history," + at);
    uint32_t st = 77; uint64_t loc = q.first(st); size_t i = 0;
    if (full) { if (loc != want[0].loc || st != want[0].state) nb::fail("full image: got state " + std::to_string(st) + " location " + std::to_string(loc) + "," + at); i = 1; }
    else if (loc || st) nb::fail("a full image is reported though none was recorded," + at);
    if (q.firstStateNum() != st) nb::fail("first state number");
    for (;; i++) {
        for (unsigned k = 1; k < 4; k++) if (q.leftLessThan(k) != (want.size() - i < k)) nb::fail("number of remaining versions less than " + std::to_string(k) + " after " + std::to_string(i) + " of " + std::to_string(want.size()) + "," + at);
        if (!q.next(st, loc)) break;
        if (i >= want.size()) nb::fail("reports a version that was not recorded: state " + std::to_string(st) + "," + at);
        if (st != want[i].state || loc != want[i].loc) nb::fail("difference " + std::to_string(i) + ": got state " + std::to_string(st) + " location " + std::to_string(loc) + " want " + std::to_string(want[i].state) + " " + std::to_string(want[i].loc) + "," + at);
    }
    if (i != want.size()) nb::fail("a recorded version is missing," + at);
    uint32_t mut = 0; bool has = tryFindMutation(si, di, page, state, mut); if (has != !want.empty() || (has && mut != want.back().state)) nb::fail("newest change not after the transaction," + at);
    auto it = si.lookup(page, state); if (!!it != full || (full && (it.m_state_num != want[0].state || it.m_page_num != page || it.m_storage_page_num != want[0].loc))) nb::fail("lookup of the full image," + at);
}
static void lessThan(const SparseIndex &si, const DiffIndex &di, const Ref &ref, uint64_t page, uint32_t state) {
    bool full; auto want = ref.at(page, state, full); SparseIndexQuery q(si, di, page, state);
    for (unsigned k = 1; k < 6; k++) if (q.lessThan(k) != (want.size() < k)) nb::fail("number of versions less than " + std::to_string(k) + " page " + std::to_string(page) + " state " + std::to_string(state));
}
static uint64_t pickPage(nb::Rng &r) { switch (r.below(4)) { case 0: return r.below(12); case 1: return (1ull << 24) * (1 + r.below(3)) + r.below(8) - 4; case 2: return (r.next() & ((1ull << 56) - 1)); default: return r.below(300); } }
static void history(nb::Rng &r, bool less) {
    size_t node = r.chance(1, 2) ? 512 + 512 * r.below(3) : 4096 * (1 + r.below(4)); auto dp = std::make_pair(std::make_shared<DRAM_Prefix>(node), std::make_shared<DRAM_Allocator>(node));
    auto pair = std::make_unique<SparsePair>(SparsePair::tag_create(), dp); Ref ref; std::vector<uint64_t> pages; unsigned np = 1 + r.below(40); for (unsigned i = 0; i < np; i++) pages.push_back(pickPage(r));
    uint32_t state = r.chance(1, 3) ? 1 + r.edgy(31) : 1; uint64_t loc = r.chance(1, 4) ? r.edgy(38) : r.below(100); unsigned n = 1 + r.below(r.chance(1, 4) ? 1500 : 120), pd = r.below(101); uint64_t h = node, maxLoc = 0; uint32_t maxState = 0; size_t recs = 0;
    nb::current = "node " + std::to_string(node) + ": ";
    for (unsigned i = 0; i < n && state < 0xfffffff0u && loc < (1ull << 40) - 100000; i++) {
        // one transaction changes some pages, each at most once
        std::set<uint64_t> done; unsigned k = 1 + r.below(4);
        for (unsigned j = 0; j < k; j++) {
            uint64_t p = pages[r.below(pages.size())]; if (!done.insert(p).second) continue; bool d = r.below(100) < pd, ov = d && r.chance(1, 5); h = h * 31 + p * 7 + state + d;
            nb::current += std::string(d ? "d" : "f") + std::to_string(p) + "@" + std::to_string(state) + ">" + std::to_string(loc) + " ";
            if (d) pair->getDiffIndex().insert(p, state, loc, ov); else pair->getSparseIndex().emplace(p, state, loc);
            ref.m[p].push_back({ state, loc, d }); maxLoc = std::max(maxLoc, loc + (ov ? 1 : 0)); maxState = state; recs++;
            // differences of several pages may share one storage page
            if (!d || r.chance(1, 2)) loc += 1 + (ov ? 1 : 0) + (r.chance(1, 30) ? r.edgy(r.chance(1, 5) ? 33 : 16) : 0); else if (ov) loc++;
        }
        state += r.chance(1, 20) ? 1 + r.edgy(r.chance(1, 8) ? 24 : 10) : 1;
        if (r.chance(1, 25)) { nb::current += "commit "; pair->commit(); pair->refresh(); }
        if (r.chance(1, 80)) { nb::current += "reopen "; pair->commit(); pair.reset(); pair = std::make_unique<SparsePair>(dp, r.chance(1, 4) ? AccessType::READ_ONLY : AccessType::READ_WRITE); 
            for (auto p : pages) { auto &v = ref.m[p]; uint32_t s = v.empty() ? 1 + r.below(state) : v[r.below(v.size())].state - r.below(2); query(pair->getSparseIndex(), pair->getDiffIndex(), ref, p, s ? s : 1); }
            pair.reset(); pair = std::make_unique<SparsePair>(dp, AccessType::READ_WRITE); }
        for (int qn = 0; qn < 3; qn++) {
            uint64_t p = r.chance(1, 8) ? pickPage(r) : pages[r.below(pages.size())]; auto &v = ref.m[p]; uint32_t s = v.empty() || r.chance(1, 4) ? 1 + r.below(state) : (uint32_t)(v[r.below(v.size())].state + r.below(3) - 1); if (!s) s = 1;
            if (less) lessThan(pair->getSparseIndex(), pair->getDiffIndex(), ref, p, s); else query(pair->getSparseIndex(), pair->getDiffIndex(), ref, p, s);
        }
        if (pair->getMaxStateNum() != maxState) nb::fail("largest recorded state number"); auto nx = pair->getNextStoragePageNum(); if (!nx || *nx != maxLoc + 1) nb::fail("next storage page number");
    }
    for (auto p : pages) for (auto &c : ref.m[p]) for (int k = -1; k < 2; k++) if (c.state + k > 0) query(pair->getSparseIndex(), pair->getDiffIndex(), ref, p, c.state + k);
    nb::note(h);
}
NB_SECTION(hist, "page as of a transaction") { nb::loop(100000, rng, [](nb::Rng &r, uint64_t) { history(r, false); }); }
NB_SECTION(less, "bounded number of versions") { nb::loop(100000, rng, [](nb::Rng &r, uint64_t) { history(r, true); }); }
NB_MAIN
