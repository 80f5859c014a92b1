// Bounded stand-in: whole data files. Histories of page writes and page differences over transactions, flushes,
// reopening, a reader following the writer, and copies with other step sizes; against a map of page contents per transaction.
#include <nb.hpp>
#include <cstring>
#include <dbzero/core/storage/BDevStorage.hpp>
#include <dbzero/core/memory/diff_utils.hpp>
#include <dbzero/workspace/LockFlags.cpp>
using namespace db0;
static std::string S(uint64_t x) { return std::to_string(x); }
struct Dir { std::string d; Dir() { char t[] = "/dev/shm/c11_XXXXXX"; char u[] = "/tmp/c11_XXXXXX"; char *p = mkdtemp(t); if (!p) p = mkdtemp(u); d = p; } ~Dir() { for (auto f : {"/a", "/b", "/c"}) unlink((d + f).c_str()); rmdir(d.c_str()); } };
typedef std::vector<unsigned char> Page;
static LockFlags nolock() { LockFlags f(true); f.m_no_lock = true; return f; }
struct Model { std::map<uint64_t, std::map<uint32_t, Page>> v; const Page *at(uint64_t p, uint32_t s) const { auto i = v.find(p); if (i == v.end()) return nullptr; auto j = i->second.upper_bound(s); if (j == i->second.begin()) return nullptr; return &(--j)->second; } };
static void check(BDevStorage &st, const Model &m, uint32_t upto, uint32_t ps, const char *who) {
    Page b(ps);
    for (auto &x : m.v) { uint32_t last = 0; for (auto &y : x.second) { if (y.first > upto) break; for (uint32_t s : {y.first, y.first + 1}) { if (s > upto) continue; auto *e = m.at(x.first, s); st.read(x.first * ps, s, ps, b.data(), { AccessOptions::read }); if (b != *e) nb::fail(std::string(who) + ": page " + S(x.first) + " as of " + S(s) + " differs from what was written"); uint32_t mu = 0; if (!st.tryFindMutation(x.first, s, mu) || mu != (m.v.at(x.first).upper_bound(s) == m.v.at(x.first).begin() ? 0 : std::prev(m.v.at(x.first).upper_bound(s))->first)) nb::fail(std::string(who) + ": wrong mutation of page " + S(x.first) + " as of " + S(s)); } if (!last && y.first > 1) { uint32_t mu; if (st.tryFindMutation(x.first, y.first - 1, mu)) nb::fail(std::string(who) + ": page " + S(x.first) + " exists before it was written"); } last = y.first; } }
}
static void scenario(nb::Rng &r, bool ext, bool copy) {
    Dir dir; std::string A = dir.d + "/a"; uint32_t ps = r.chance(1, 2) ? 512 : 1024, dram = 512 + r.below(4) * 700; uint64_t h = ps + dram; std::optional<size_t> step; if (ext) step = (size_t)ps * (1 + r.below(40));
    nb::current = "page=" + S(ps) + " index page=" + S(dram) + " step=" + S(step.value_or(0)) + " "; BDevStorage::create(A, ps, dram, step);
    auto st = std::make_unique<BDevStorage>(A, AccessType::READ_WRITE, nolock()); Model m; uint32_t s = 0, flushed = 0; unsigned npages = 1 + r.below(12), n = 3 + r.below(20); std::unique_ptr<BDevStorage> rd; bool follow = r.chance(1, 3); std::map<uint64_t, uint32_t> upd;
    if (follow) rd = std::make_unique<BDevStorage>(A, AccessType::READ_ONLY);
    for (unsigned i = 0; i < n; i++) {
        s += 1 + (r.chance(1, 8) ? r.below(300) : 0); unsigned k = 1 + r.below(npages); std::set<uint64_t> done, fulls;
        for (unsigned j = 0; j < k; j++) {
            uint64_t p = r.chance(1, 10) ? (1ull << 33) + r.below(npages) : r.below(npages) * (1 + i % 3); auto *old = m.at(p, s); Page c = old ? *old : Page(ps, 0); unsigned runs = r.below(9); bool full = r.chance(1, 3);
            if (full) { for (auto &b : c) b = (unsigned char)r.next(); } else for (unsigned q = 0; q < runs; q++) { unsigned a = r.below(ps), l = 1 + r.below(r.chance(1, 3) ? ps / 4 : 8); for (unsigned t = a; t < std::min(ps, a + l); t++) c[t] = (unsigned char)r.next(); }
            std::vector<uint16_t> d; Page base = old ? *old : Page(ps, 0); bool over = done.count(p); nb::current += S(p) + "@" + S(s); h = h * 1000003 + p * 7 + s;
            bool diff = getDiffs(base.data(), c.data(), ps, d) && !d.empty();
            // a page written in full in this transaction is only overwritten, never recorded as a difference to itself
            if (over && fulls.count(p) && diff && st->tryWriteDiffs(p * ps, s, ps, c.data(), d)) nb::fail("difference recorded for a page already written in full in the transaction");
            if (!over && diff && st->tryWriteDiffs(p * ps, s, ps, c.data(), d)) nb::current += "d "; else { st->write(p * ps, s, ps, c.data()); nb::current += "w "; fulls.insert(p); }
            done.insert(p); m.v[p][s] = c; h = h * 31 + c[ps / 2];
        }
        { st->flush(); flushed = s; nb::current += "| "; if (r.chance(1, 4)) check(*st, m, s, ps, "writer"); }
        if (rd && r.chance(1, 2)) { rd->beginRefresh(); rd->completeRefresh([&](uint64_t p, uint32_t t) { if (!m.v.count(p) || !m.v[p].count(t)) nb::fail("reader was told of a change of page " + S(p) + " in " + S(t) + " that was not made"); upd[p] = std::max(upd[p], t); }); nb::current += "R "; if (rd->getMaxStateNum() != flushed) nb::fail("reader is at " + S(rd->getMaxStateNum()) + " instead of " + S(flushed)); check(*rd, m, flushed, ps, "reader"); for (auto &x : m.v) { uint32_t last = 0; for (auto &y : x.second) if (y.first <= flushed) last = y.first; if (last && upd[x.first] != last) nb::fail("reader was not told of the change of page " + S(x.first) + " in " + S(last)); } }
        if (r.chance(1, 5)) { st->close(); st.reset(); flushed = s; st = std::make_unique<BDevStorage>(A, AccessType::READ_WRITE, nolock()); nb::current += "O "; if (st->getMaxStateNum() != s) nb::fail("reopened at transaction " + S(st->getMaxStateNum()) + " instead of " + S(s)); check(*st, m, s, ps, "reopened"); }
    }
    st->flush(); check(*st, m, s, ps, "writer"); st->close(); st.reset(); rd.reset();
    { BDevStorage ro(A, AccessType::READ_ONLY); check(ro, m, s, ps, "read-only"); ro.close(); }
    if (copy) {
        std::string B = dir.d + "/b"; size_t bstep = (size_t)ps * (12 + r.below(60)); nb::current += "copy step=" + S(bstep) + " ";
        bool done = false; { BDevStorage in(A, AccessType::READ_ONLY, {}, {}, StorageFlags{StorageOptions::NO_LOAD}); BDevStorage::create(B, in.getPageSize(), in.getDRAMPageSize(), bstep); BDevStorage out(B, AccessType::READ_WRITE, nolock()); if (!!out.m_ext_space) { in.copyTo(out); done = true; } out.close(); in.close(); }
        if (done) { BDevStorage cp(B, AccessType::READ_ONLY); if (cp.getMaxStateNum() != s) nb::fail("copy is at another transaction"); check(cp, m, s, ps, "copy"); cp.close();
            BDevStorage w(B, AccessType::READ_WRITE, nolock()); Page c(ps, 7); for (unsigned j = 0; j < 30; j++) { s++; c[j] = j; w.write(j % 5 * ps, s, ps, c.data()); m.v[j % 5][s] = c; if (j % 4 == 0) w.flush(); } w.flush(); check(w, m, s, ps, "copy continued"); w.close(); BDevStorage w2(B, AccessType::READ_WRITE, nolock()); check(w2, m, s, ps, "copy continued and reopened"); w2.close(); }
    }
    nb::note(h);
}
NB_SECTION(plain, "data files") { nb::loop(4000, rng, [](nb::Rng &r, uint64_t) { scenario(r, false, false); }); }
NB_SECTION(steps, "data files with multi-block steps") { nb::loop(4000, rng, [](nb::Rng &r, uint64_t) { scenario(r, true, false); }); }
NB_SECTION(copies, "copied data files") { nb::loop(4000, rng, [](nb::Rng &r, uint64_t) { scenario(r, r.chance(2, 3), true); }); }
NB_MAIN
