// Bounded stand-in: whole block streams in a file. Histories of appended chunks, flushes, reopenings, a second stream in the
// same file, a reader following at any moment (also between the writes of one chunk), damaged bytes; change logs.
#include <nb.hpp>
#include <sys/resource.h>
#include <memory>
#include <dbzero/core/storage/ChangeLogIOStream.hpp>
#include <dbzero/workspace/LockFlags.cpp>
using namespace db0;
static std::string S(uint64_t x) { return std::to_string(x); }
struct File { std::string f; File() { char t[] = "/dev/shm/c03_XXXXXX"; char u[] = "/tmp/c03_XXXXXX"; int d = mkstemp(t); f = t; if (d < 0) { d = mkstemp(u); f = u; } close(d); } ~File() { unlink(f.c_str()); } };
static LockFlags nolock() { LockFlags f(true); f.m_no_lock = true; return f; }
typedef std::vector<char> Chunk; typedef BlockIOStream BS;
static Chunk make(size_t n, uint64_t k) { Chunk c(n); nb::Rng q(k); for (auto &b : c) b = (char)q.next(); return c; }
static void readAll(BS &s, const std::vector<Chunk> &all, size_t &at, size_t atLeast, const char *who) {
    Chunk b; for (;;) { std::fill(b.begin(), b.end(), 0x55); size_t n = s.readChunk(b); if (!n) break; if (at >= all.size()) nb::fail(std::string(who) + " was given a chunk that was never appended"); if (n != all[at].size()) nb::fail(std::string(who) + ": chunk " + S(at) + " has " + S(n) + " bytes instead of " + S(all[at].size())); if (memcmp(b.data(), all[at].data(), n)) nb::fail(std::string(who) + ": chunk " + S(at) + " has other content"); at++; }
    if (!s.eos()) nb::fail(std::string(who) + " does not report the end"); if (s.readChunk(b)) nb::fail(std::string(who) + " reads past the end"); if (at < atLeast) nb::fail(std::string(who) + " was given " + S(at) + " of " + S(atLeast) + " flushed chunks");
}
static size_t pick(nb::Rng &r, size_t P) { switch (r.below(6)) { case 0: return 1 + r.below(8); case 1: return std::max<int64_t>(1, (int64_t)(P * (1 + r.below(3))) - (int64_t)r.below(14)); case 2: return P * (1 + r.below(3)) + r.below(6); case 3: return 1 + r.below(P); default: return 1 + r.below(3 * P); } }
struct Stream {
    std::unique_ptr<BS> w, rd; std::vector<Chunk> all; size_t flushed = 0, seen = 0; uint64_t begin; bool cs; uint32_t B; const char *name;
    void append(nb::Rng &r, size_t n, bool follow) { Chunk c = make(n, r.next()); nb::current += std::string(name) + S(n) + " "; std::vector<char> raw; uint64_t a = 0; if (r.chance(1, 4)) { all.push_back(c); w->addChunk(c.size(), &a); w->appendToChunk(c.data(), n); } else { all.push_back(c); w->addChunk(c.size()); size_t at = 0; while (at < n) { size_t k = 1 + r.below(n - at); w->appendToChunk(c.data() + at, k); at += k; if (follow && r.chance(1, 3)) peekIn(); } } }
    void peekIn() { if (rd && cs && rd->refresh()) { nb::current += "p "; readAll(*rd, all, seen, 0, "a reader in the middle of a flush"); } }
    void flush() { w->flush(); flushed = all.size(); nb::current += std::string(name) + "| "; }
    void follow() { if (!rd) return; nb::current += "R "; if (rd->refresh()) readAll(*rd, all, seen, 0, "a reader"); if (flushed == all.size() && seen < flushed) nb::fail("a reader was given " + S(seen) + " of " + S(flushed) + " flushed chunks"); }
};
static void history(nb::Rng &r) {
    uint32_t B = 64 + 8 * r.below(r.chance(1, 3) ? 60 : 6); bool two = r.chance(1, 3), follow = r.chance(1, 2); File f; nb::current = "block=" + S(B) + " "; uint64_t h = B; uint64_t base = 8 * r.below(20); CFile::create(f.f, std::vector<char>(base, 'x')); auto file = std::make_unique<CFile>(f.f, AccessType::READ_WRITE, nolock()); std::unique_ptr<CFile> rf;
    Stream st[2]; unsigned n = two ? 2 : 1; st[0].name = "a"; st[1].name = "b"; auto tail = [&]() -> uint64_t { uint64_t t = base + n * B; for (auto &s : st) if (s.w && s.w->eos()) t = std::max(t, s.w->tail()); return t; };
    auto open = [&](unsigned k) { st[k].w = std::make_unique<BS>(*file, st[k].begin, B, tail, AccessType::READ_WRITE, st[k].cs); };
    for (unsigned k = 0; k < n; k++) { st[k].begin = base + k * B; st[k].B = B; st[k].cs = r.chance(1, 2); nb::current += st[k].cs ? "checked " : "plain "; } for (unsigned k = 0; k < n; k++) { open(k); } for (unsigned k = 0; k < n; k++) { st[k].w->m_modified = true; st[k].w->flush(); }
    if (follow) { rf = std::make_unique<CFile>(f.f, AccessType::READ_ONLY); for (unsigned k = 0; k < n; k++) st[k].rd = std::make_unique<BS>(*rf, st[k].begin, B, nullptr, AccessType::READ_ONLY, st[k].cs); for (unsigned k = 0; k < n; k++) readAll(*st[k].rd, st[k].all, st[k].seen, 0, "a new reader"); }
    unsigned ops = 2 + r.below(30);
    for (unsigned i = 0; i < ops; i++) { auto &s = st[r.below(n)]; size_t P = B - (s.cs ? 16 : 8); h = h * 31 + r.s % 97;
        if (r.chance(1, 10)) { // reopen
            nb::current += "O "; for (unsigned k = 0; k < n; k++) { st[k].w->close(); st[k].flushed = st[k].all.size(); } for (unsigned k = 0; k < n; k++) st[k].w.reset(); file = std::make_unique<CFile>(f.f, AccessType::READ_WRITE, nolock()); for (unsigned k = 0; k < n; k++) open(k); for (unsigned k = 0; k < n; k++) { size_t at = 0; readAll(*st[k].w, st[k].all, at, st[k].all.size(), "a reopened stream"); }
        } else { s.append(r, pick(r, P), follow && !two); if (r.chance(1, 2)) s.flush(); if (follow && ((!two && s.cs) || s.flushed == s.all.size()) && r.chance(1, 2)) s.follow(); }
    }
    for (unsigned k = 0; k < n; k++) { st[k].flush(); if (follow) st[k].follow(); st[k].w->close(); } for (unsigned k = 0; k < n; k++) if (follow) st[k].follow();
    { CFile ro(f.f, AccessType::READ_ONLY); for (unsigned k = 0; k < n; k++) { BS s(ro, st[k].begin, B, nullptr, AccessType::READ_ONLY, st[k].cs); size_t at = 0; readAll(s, st[k].all, at, st[k].all.size(), "a read-only stream"); s.setStreamPosHead(); at = 0; readAll(s, st[k].all, at, st[k].all.size(), "a rewound stream"); } }
    nb::note(h);
}
NB_SECTION(histories, "chunks appended, flushed, followed and reopened") { nb::loop(30000, rng, [](nb::Rng &r, uint64_t) { history(r); }); }
NB_SECTION(pairs, "every two chunk sizes around one block") {
    uint64_t k = 0; for (int cs = 0; cs < 2; cs++) for (size_t a = 1; a <= 115; a++) for (size_t b = 1; b <= 115; b++) { if (!nb::thorough && (a * 7 + b * 3 + nb::seed) % 4) continue; File f; CFile::create(f.f, {}); nb::current = S(cs) + " " + S(a) + " " + S(b); std::vector<Chunk> all{make(a, a), make(b, b + 200), make(5, 9)}; alarm(60);
        { CFile file(f.f, AccessType::READ_WRITE, nolock()); BS w(file, 0, 64, nullptr, AccessType::READ_WRITE, cs); CFile rf(f.f, AccessType::READ_ONLY); BS rd(rf, 0, 64, nullptr, AccessType::READ_ONLY, cs); size_t seen = 0; for (auto &c : all) { w.addChunk(c.size()); w.appendToChunk(c.data(), c.size()); if (rd.refresh()) readAll(rd, all, seen, 0, "a reader before the flush"); w.flush(); if (rd.refresh()) readAll(rd, all, seen, 0, "a reader"); if (seen != &c - all.data() + 1) nb::fail("a reader was given " + S(seen) + " of " + S(&c - all.data() + 1) + " flushed chunks"); } w.close(); }
        { CFile file(f.f, AccessType::READ_WRITE, nolock()); BS w(file, 0, 64, nullptr, AccessType::READ_WRITE, cs); size_t at = 0; readAll(w, all, at, 3, "a reopened stream"); all.push_back(make(a, 77)); w.addChunk(a); w.appendToChunk(all[3].data(), a); w.close(); } { CFile rf(f.f, AccessType::READ_ONLY); BS rd(rf, 0, 64, nullptr, AccessType::READ_ONLY, cs); size_t at = 0; readAll(rd, all, at, 4, "a reader of the continued stream"); } alarm(0); nb::note(k++); }
}
NB_SECTION(damage, "every damaged byte of a checked stream") {
    struct rlimit rl; getrlimit(RLIMIT_AS, &rl); auto old = rl; rl.rlim_cur = 2ull << 30; setrlimit(RLIMIT_AS, &rl);
    nb::loop(60, rng, [](nb::Rng &r, uint64_t) {
        uint32_t B = 64 + 8 * r.below(5); File f; CFile::create(f.f, {}); std::vector<Chunk> all; nb::current = "block=" + S(B) + " "; { CFile file(f.f, AccessType::READ_WRITE, nolock()); BS w(file, 0, B, nullptr, AccessType::READ_WRITE, true); unsigned n = 1 + r.below(9); for (unsigned i = 0; i < n; i++) { all.push_back(make(pick(r, B - 16), r.next())); nb::current += S(all.back().size()) + " "; w.addChunk(all.back().size()); w.appendToChunk(all.back().data(), all.back().size()); } w.close(); }
        std::vector<char> img; { FILE *h = fopen(f.f.c_str(), "rb"); char b[4096]; size_t n; while ((n = fread(b, 1, 4096, h))) img.insert(img.end(), b, b + n); fclose(h); } auto desc = nb::current;
        // chunks that end before the damaged block are read, no chunk reaching into it is
        std::vector<size_t> last; { size_t p = 0; for (auto &c : all) { p += 4 + c.size(); last.push_back((p - 1) / (B - 16)); } }
        for (size_t i = 0; i < img.size(); i++) { char x = 1 << r.below(8); if (r.chance(1, 4)) x = 1 + r.below(255); nb::current = desc + "damaged " + S(i); FILE *h = fopen(f.f.c_str(), "r+b"); fseek(h, i, SEEK_SET); char y = img[i] ^ x; fwrite(&y, 1, 1, h); fclose(h); size_t at = 0; bool ended = false;
            try { CFile rf(f.f, AccessType::READ_ONLY); BS s(rf, 0, B, nullptr, AccessType::READ_ONLY, true); Chunk b; for (;;) { size_t n = s.readChunk(b); if (!n) { ended = true; break; } if (at >= all.size() || n != all[at].size() || memcmp(b.data(), all[at].data(), n)) nb::fail("damaged data returned as chunk " + S(at)); if (last[at] >= i / B) nb::fail("a chunk reaching into the damaged block was returned"); at++; } } catch (std::exception &) { ended = true; }
            if (!ended) nb::fail("no end"); h = fopen(f.f.c_str(), "r+b"); fseek(h, i, SEEK_SET); fwrite(&img[i], 1, 1, h); fclose(h); nb::note(i * 1000 + B); }
    }); setrlimit(RLIMIT_AS, &old);
}
// appending goes on where the block prepared to follow is incomplete or damaged
NB_SECTION(incomplete, "appending after an incomplete block") {
    nb::loop(300, rng, [](nb::Rng &r, uint64_t) {
        bool cs = r.chance(2, 3); uint32_t B = 64 + 8 * r.below(4); size_t P = B - (cs ? 16 : 8); File f; CFile::create(f.f, {}); std::vector<Chunk> all; nb::current = "block=" + S(B) + " "; size_t keep; { CFile file(f.f, AccessType::READ_WRITE, nolock()); BS w(file, 0, B, nullptr, AccessType::READ_WRITE, cs); Chunk c = make(P - 4, r.next()); all.push_back(c); w.addChunk(c.size()); w.appendToChunk(c.data(), c.size()); c = make(pick(r, P), r.next()); w.addChunk(c.size()); w.appendToChunk(c.data(), c.size()); w.close(); }
        keep = B + r.below(B + 1); std::vector<char> img; { FILE *h = fopen(f.f.c_str(), "rb"); char b[4096]; size_t n; while ((n = fread(b, 1, 4096, h))) img.insert(img.end(), b, b + n); fclose(h); } img.resize(2 * B, 0); for (size_t i = keep; i < 2 * B; i++) img[i] = 0; bool cut = r.chance(1, 2); if (cut) img.resize(keep); nb::current += "kept=" + S(keep) + (cut ? " cut" : " zeroed"); { FILE *h = fopen(f.f.c_str(), "wb"); fwrite(img.data(), 1, img.size(), h); fclose(h); }
        if (!cs && !cut) { nb::note(1); return; } // without checksums a partly written block cannot be told from a complete one
        { CFile file(f.f, AccessType::READ_WRITE, nolock()); BS w(file, 0, B, nullptr, AccessType::READ_WRITE, cs); Chunk b; size_t at = 0, n; while ((n = w.readChunk(b))) { if (at == 0 && (n != all[0].size() || memcmp(b.data(), all[0].data(), n))) nb::fail("first chunk"); if (at == 1) all.push_back(Chunk(b.begin(), b.begin() + n)); at++; } if (at < 1) nb::fail("complete chunk lost"); Chunk c = make(pick(r, P), r.next()); all.push_back(c); w.addChunk(c.size()); w.appendToChunk(c.data(), c.size()); w.close(); }
        CFile rf(f.f, AccessType::READ_ONLY); BS s(rf, 0, B, nullptr, AccessType::READ_ONLY, cs); size_t at = 0; readAll(s, all, at, all.size(), "a reader of the continued stream"); nb::note(keep * 64 + B);
    });
}
typedef o_change_log<o_dp_changelog_header> DP;
NB_SECTION(logs, "change logs") {
    nb::loop(4000, rng, [](nb::Rng &r, uint64_t) {
        uint32_t B = 64 + 8 * r.below(60); File f; CFile::create(f.f, {}); struct L { std::vector<uint64_t> v; uint32_t s; uint64_t e; }; std::vector<L> all; nb::current = "block=" + S(B) + " ";
        auto eq = [&](const DP *g, const L &l, const char *who) { if (!g) nb::fail(std::string(who) + " change log missing"); if ((uint64_t)g->m_state_num != l.s || g->m_end_storage_page_num != l.e) nb::fail(std::string(who) + " header of a change log"); std::vector<uint64_t> v; for (auto it = g->begin(), e = g->end(); it != e; ++it) v.push_back(*it); if (v != l.v) nb::fail(std::string(who) + " entries of a change log"); };
        { CFile file(f.f, AccessType::READ_WRITE, nolock()); ChangeLogIOStream<DP> w(file, 0, B, nullptr, AccessType::READ_WRITE); CFile rf(f.f, AccessType::READ_ONLY); ChangeLogIOStream<DP> rd(rf, 0, B, nullptr, AccessType::READ_ONLY); size_t seen = 0; unsigned n = 1 + r.below(12);
          for (unsigned i = 0; i < n; i++) { std::vector<uint64_t> v; unsigned k = r.below(r.chance(1, 4) ? 200 : 6); uint64_t x = r.edgy(64); for (unsigned q = 0; q < k; q++) { switch (r.below(5)) { case 0: x = r.edgy(64); break; case 1: break; default: x++; } v.push_back(x); } bool rle = r.chance(1, 2), dup = r.chance(1, 2), sorted = r.chance(1, 3); if (sorted) std::sort(v.begin(), v.end()); auto e = v; if (rle) { std::sort(e.begin(), e.end()); if (!dup) e.erase(std::unique(e.begin(), e.end()), e.end()); } uint32_t s = (uint32_t)r.edgy(32); uint64_t end = r.edgy(64); nb::current += (rle ? "r" : "l") + S(k) + " "; all.push_back({e, s, end}); auto &g = w.appendChangeLog(ChangeLogData(v, rle, dup, sorted), s, end); eq(&g, all.back(), "appended"); if (r.chance(1, 2)) w.flush(); if (r.chance(1, 3)) { w.flush(); if (rd.refresh()) while (auto *p = rd.readChangeLogChunk()) eq(p, all[seen++], "followed"); if (seen != all.size()) nb::fail("followed change log missing"); } }
          if (r.chance(1, 2)) { auto wr = w.getStreamWriter(); std::vector<uint64_t> v{5, 6, 7, 7, 100}; wr.appendChangeLog(ChangeLogData(v, true, true, true), 9u, 8ull); wr.appendChangeLog(ChangeLogData(v, false, true, true), 10u, 7ull); wr.flush(); all.push_back({v, 9, 8}); all.push_back({v, 10, 7}); } w.close(); }
        CFile rf(f.f, AccessType::READ_ONLY); ChangeLogIOStream<DP> rd(rf, 0, B, nullptr, AccessType::READ_ONLY); auto q = rd.getStreamReader(); for (int pass = 0; pass < 3; pass++) { size_t upto = pass == 0 ? all.size() / 2 : all.size(); for (size_t i = 0; i < upto; i++) eq(q.readChangeLogChunk(), all[i], pass ? "cached" : "read"); if (pass) if (q.readChangeLogChunk()) nb::fail("change log past the end"); q.reset(); } nb::note(all.size() * 1000 + B);
    });
}
NB_MAIN
