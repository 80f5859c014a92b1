// Bounded stand-in: histories of the page writer over a scratch file, with other streams taking blocks of the same file,
// reopening, and the relative page mapping; against a map of what each page holds.
#include <nb.hpp>
#include <dbzero/core/storage/Page_IO.hpp>
#include <dbzero/core/storage/CFile.hpp>
#include <dbzero/core/storage/REL_Index.hpp>
#include <dbzero/core/memory/Memspace.hpp>
#include <dbzero/core/dram/DRAMSpace.hpp>
#include <dbzero/workspace/LockFlags.cpp>
using namespace db0;
struct Dir { std::string d; Dir() { char t[] = "/tmp/c04_XXXXXX"; d = mkdtemp(t); } ~Dir() { unlink((d + "/f").c_str()); rmdir(d.c_str()); } };
static std::string S(uint64_t x) { return std::to_string(x); }
NB_SECTION(pages, "page writer histories with foreign blocks and reopening") {
    nb::loop(40000, rng, [](nb::Rng &r, uint64_t) {
        Dir dir; uint32_t ps = 64, cap = 1 + r.below(5), step = 1 + r.below(5), hdr = r.chance(1, 2) ? 0 : 256; uint32_t bs = ps * cap; CFile::create(dir.d + "/f", {}); CFile f(dir.d + "/f", AccessType::READ_WRITE);
        std::map<uint64_t, uint64_t> content; std::vector<std::pair<uint64_t, uint64_t>> foreign; uint64_t ftail = hdr, stamp = 1, h = cap * 7 + step; // byte ranges of foreign blocks
        bool rel = step > 1 && r.chance(2, 3); std::optional<Memspace> sp; std::unique_ptr<REL_Index> idx; if (rel) { sp = DRAMSpace::create(256); idx = std::make_unique<REL_Index>(*sp, 256, AccessType::READ_WRITE); }
        std::map<uint64_t, uint64_t> rels; // relative -> absolute
        nb::current = "cap=" + S(cap) + " step=" + S(step) + " header=" + S(hdr) + " rel=" + S(rel) + " ";
        auto foreignBlock = [&](uint64_t at) { foreign.push_back({at, at + bs}); ftail = std::max(ftail, at + bs); nb::current += "B@" + S(at) + " "; for (auto &x : content) { uint64_t a = hdr + x.first * ps; if (a < at + bs && at < a + ps) nb::fail("a block handed to another stream overlaps a stored page"); } };
        foreignBlock(hdr); // as in a data file, page storage does not begin at page 0
        auto io = std::make_unique<Page_IO>(hdr, f, ps, bs, ftail, 0, step, [&] { return ftail; }, 0u);
        auto put = [&](uint64_t p, bool fresh) { if (fresh && content.count(p)) nb::fail("page number " + S(p) + " handed out twice"); uint64_t a = hdr + p * ps; for (auto &x : foreign) if (a < x.second && x.first < a + ps) nb::fail("a page lies in a block of another stream"); };
        auto check = [&]() { std::vector<uint64_t> b(ps / 8); for (auto &x : content) { io->read(x.first, b.data()); if (b[0] != x.second || b[ps / 8 - 1] != (x.second ^ x.first)) nb::fail("page " + S(x.first) + " does not hold what was last written to it"); }
            if (rel) for (auto &x : rels) { if (idx->getAbsolute(x.first) != x.second) nb::fail("a relative page number maps to another page"); if (idx->getRelative(x.second) != x.first) nb::fail("a page maps to another relative number"); } };
        auto assign = [&](uint64_t p, bool first) { if (!rel) return; uint64_t q = idx->assignRelative(p, first); if (rels.count(q) && rels[q] != p) nb::fail("two pages share a relative number"); rels[q] = p; };
        auto fillp = [&](std::vector<uint64_t> &b, uint64_t o, uint64_t p) { b[o * (ps / 8)] = stamp; b[o * (ps / 8) + ps / 8 - 1] = stamp ^ p; content[p] = stamp++; };
        unsigned n = 5 + r.below(60); bool known = true; // the block number is known until reopening in mid-step
        for (unsigned i = 0; i < n; i++) {
            unsigned op = r.below(10); h = h * 31 + op;
            if (op < 5) { bool first = false; uint64_t pn = io->getNextPageNum().first; std::vector<uint64_t> b(ps / 8); put(pn, true); fillp(b, 0, pn); uint64_t p = io->append(b.data(), &first); nb::current += "a" + S(p) + (first ? "! " : " "); if (p != pn) nb::fail("announced page number differs"); if (io->getEndPageNum() != p + 1) nb::fail("end page number"); assign(p, first); known = known || first; }
            else if (op == 5 && known) { // many pages, as the copy of a file does: at most the pages left in the step
                uint64_t pn = io->getNextPageNum().first; uint32_t left = io->getCurrentStepRemainingPages(); uint64_t k = 1 + r.below(left); std::vector<uint64_t> b(k * (ps / 8)); bool first = false; for (uint64_t j = 0; j < k; j++) { put(pn + j, true); fillp(b, j, pn + j); } io->getNextPageNum(&first);
                uint64_t p = io->append(b.data(), k); nb::current += "m" + S(p) + "+" + S(k) + " "; if (p != pn) nb::fail("announced page number differs"); if (io->getEndPageNum() != p + k) nb::fail("end page number after several pages: " + S(io->getEndPageNum()) + " instead of " + S(p + k)); for (uint64_t j = 0; j < k; j++) assign(p + j, first && j == 0); }
            else if (op == 6) { uint64_t t = std::max(io->tail(), ftail); foreignBlock(t); }
            else if (op == 7 && !content.empty()) { auto it = content.lower_bound(r.below(content.rbegin()->first + 1)); if (it == content.end()) it = content.begin(); std::vector<uint64_t> b(ps / 8); uint64_t p = it->first; nb::current += "w" + S(p) + " "; fillp(b, 0, p); io->write(p, b.data()); }
            else if (op == 8 && !content.empty() && r.chance(1, 2)) { // reopen at the recorded end, as BDevStorage does
                uint64_t hint = io->getEndPageNum(); bool first = false; io->getEndPageNum(&first); if (rel && !first) assign(hint, false), rels.erase(idx->getRelative(hint)); nb::current += "r" + S(hint) + " "; uint64_t block = hint * ps / bs, addr = hdr + block * bs; uint32_t cnt = hint % cap; if (!cnt) { addr -= bs; cnt = cap; }
                io.reset(); io = std::make_unique<Page_IO>(hdr, f, ps, bs, addr, cnt, step, [&] { return ftail; }); known = false; if (rel) { idx->commit(); } }
            else if (op == 9 && r.chance(1, 3)) check();
        }
        check(); nb::note(h);
    });
}
NB_SECTION(huge, "steps larger than 4 GB keep their reservation") {
    nb::loop(200, rng, [](nb::Rng &r, uint64_t) {
        Dir dir; CFile::create(dir.d + "/f", {}); CFile f(dir.d + "/f", AccessType::READ_WRITE); uint32_t ps = 4096, cap = 1 + r.below(300); uint64_t bs = (uint64_t)ps * cap; uint64_t step = 1 + r.edgy(22); nb::current = "block=" + S(bs) + " step=" + S(step); nb::note(step * 311 + cap);
        Page_IO io(0, f, ps, (uint32_t)bs, bs, 0, (uint32_t)step, [&] { return bs; }, 0u); if (io.tail() != bs + step * bs) nb::fail("a step does not reserve its whole size: tail=" + S(io.tail()) + " expected=" + S(bs + step * bs));
    });
}
NB_MAIN
