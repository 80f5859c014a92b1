// Bounded stand-in: differences of real page images through the real encoder, decoder and the page packer over a file.
#include <nb.hpp>
#include <dbzero/core/memory/diff_utils.hpp>
#include <dbzero/core/storage/diff_buffer.hpp>
#include <dbzero/core/storage/Diff_IO.hpp>
#include <dbzero/core/storage/CFile.hpp>
#include <dbzero/workspace/LockFlags.cpp>
using namespace db0;
typedef std::vector<uint8_t> Img;
static std::string hex(const Img &x, size_t n = 96) { std::string s; char b[4]; for (size_t i = 0; i < x.size() && i < n; i++) { snprintf(b, 4, "%02x", x[i]); s += b; } return s; }
static Img image(nb::Rng &r, size_t n) { Img x(n); switch (r.below(3)) { case 0: break; case 1: for (auto &c : x) c = r.below(2); break; default: for (auto &c : x) c = (uint8_t)r.next(); } return x; }
// new image: runs of changed and unchanged bytes with lengths around the encoding limits
static Img change(nb::Rng &r, const Img &a, bool zero) {
    Img b = zero ? Img(a.size()) : a; size_t at = 0; unsigned style = r.below(4);
    while (at < b.size()) {
        size_t same = style == 0 ? r.below(3) : style == 1 ? r.edgy(8) : style == 2 ? r.edgy(15) : 1 + r.below(b.size()); if (style != 0 && r.chance(1, 6) && !at) same = 0; at += same; if (at >= b.size()) break;
        size_t d = style == 3 ? 1 + r.below(4) : 1 + (r.chance(1, 2) ? r.below(4) : r.edgy(style == 2 ? 14 : 8)); for (size_t i = 0; i < d && at < b.size(); i++, at++) { uint8_t v = (uint8_t)r.next(); b[at] = zero ? v : a[at] ^ v; }
    }
    if (r.chance(1, 4) && !b.empty()) b.back() ^= 1; if (r.chance(1, 4) && !b.empty()) b[0] ^= 1;
    return b;
}
static size_t pageSize(nb::Rng &r) { switch (r.below(5)) { case 0: return 1 + r.below(24); case 1: return 1 + r.edgy(9) ; case 2: return 4096; case 3: return 1 + r.edgy(13); default: return 32768; } }
static const uint8_t GUARD = 0xA7;
// encode + decode of a computed difference over an arbitrary base image
static void codec(const Img &b, const std::vector<uint16_t> &d, const Img &base, const Img &expect) {
    size_t n = b.size(); size_t m = o_diff_buffer::measure((const std::byte *)b.data(), d); Img store(m + 16, GUARD);
    auto &o = o_diff_buffer::__new((std::byte *)store.data(), (const std::byte *)b.data(), d);
    if (o.sizeOf() != m) nb::fail("encoded difference has a size other than the measured one"); for (size_t i = m; i < store.size(); i++) if (store[i] != GUARD) nb::fail("encoder wrote past the measured size");
    Img p(n + 32, GUARD); memcpy(p.data() + 16, base.data(), n); o.apply((std::byte *)p.data() + 16, (std::byte *)p.data() + 16 + n);
    for (int i = 0; i < 16; i++) if (p[i] != GUARD || p[16 + n + i] != GUARD) nb::fail("applying a difference wrote outside the page");
    if (memcmp(p.data() + 16, expect.data(), n)) nb::fail("applying the encoded difference does not reproduce the page");
    Img q(n + 32, GUARD); memcpy(q.data() + 16, base.data(), n); applyDiffs(d, b.data(), (std::byte *)q.data() + 16, (std::byte *)q.data() + 16 + n);
    for (int i = 0; i < 16; i++) if (q[i] != GUARD || q[16 + n + i] != GUARD) nb::fail("applying a difference in memory wrote outside the page");
    if (memcmp(q.data() + 16, expect.data(), n)) nb::fail("applying the difference in memory does not reproduce the page");
}
static void diffCase(nb::Rng &r, bool zero) {
    size_t n = pageSize(r); Img a = image(r, n), b = change(r, a, zero); size_t maxDiff = r.chance(1, 3) ? 0 : r.chance(1, 2) ? n : r.below(n + 8); maxDiff = std::min<size_t>(maxDiff, 32765);
    std::optional<size_t> lim; if (r.chance(1, 3)) lim = r.below(64);
    // forced ranges: of a larger region, seen through a view of [off, off + n)
    bool view = r.chance(1, 2); size_t off = view ? r.below(std::min<size_t>(65535 - n, 5000) + 1) : 0; size_t total = off + n + (view ? r.below(std::min<size_t>(65535 - n - off, 3000) + 1) : 0);
    DiffRange dr; std::vector<std::pair<uint16_t, uint16_t>> rs; unsigned k = r.chance(1, 2) ? 0 : 1 + r.below(6); std::vector<bool> forced(n);
    for (unsigned i = 0; i < k; i++) { size_t x = r.below(total), y = x + 1 + std::min<size_t>(r.edgy(8), total - x - 1); dr.insert(x, y, 1000); rs.push_back({x, y}); for (size_t j = x; j < y; j++) if (j >= off && j < off + n) forced[j - off] = true; }
    std::vector<uint16_t> d; nb::current = std::string(zero ? "zero" : "pair") + " size=" + std::to_string(n) + " off=" + std::to_string(off) + " max_diff=" + std::to_string(maxDiff) + " max_size=" + (lim ? std::to_string(*lim) : "-") + " a=" + hex(a) + " b=" + hex(b) + " forced="; for (auto &x : rs) nb::current += std::to_string(x.first) + "-" + std::to_string(x.second) + " ";
    DiffRangeView v = rs.empty() ? DiffRangeView() : view ? DiffRangeView(dr, off, off + n) : DiffRangeView(dr);
    bool ok = zero ? getDiffs(b.data(), n, d, maxDiff, lim, v) : getDiffs(a.data(), b.data(), n, d, maxDiff, lim, v);
    nb::note(n * 131 + ok + d.size() * 7);
    if (!ok) return;
    Img base = a; if (zero) for (auto &c : base) c = (uint8_t)r.next(); else { if (d.empty()) { if (a != b) nb::fail("differing images reported as equal"); for (size_t i = 0; i < n; i++) if (forced[i]) nb::fail("forced range left out"); return; } for (size_t i = 0; i < n; i++) if (forced[i]) base[i] = (uint8_t)r.next(); }
    size_t sum = 0; for (auto x : d) sum += x; if (sum > n) nb::fail("runs of the difference exceed the page");
    codec(b, d, base, b);
    // forced bytes belong to recorded runs
    { size_t at = 0; for (size_t i = 0; i < d.size(); i++) { if (i % 2 == 1) for (size_t j = at; j < at + d[i]; j++) if (forced[j]) nb::fail("a forced byte is not recorded"); at += d[i]; } for (size_t j = at; j < n; j++) if (forced[j]) nb::fail("a forced byte is not recorded"); }
}
NB_SECTION(pair, "difference of two page images") { nb::loop(150000, rng, [](nb::Rng &r, uint64_t) { diffCase(r, false); }); }
NB_SECTION(zero, "difference against an empty page") { nb::loop(150000, rng, [](nb::Rng &r, uint64_t) { diffCase(r, true); }); }
NB_SECTION(small, "all images of up to 5 bytes over 2 values with one forced range") {
    for (unsigned n = 1; n <= 5; n++) for (unsigned x = 0; x < (1u << n); x++) for (unsigned y = 0; y < (1u << n); y++) for (unsigned fb = 0; fb <= n; fb++) for (unsigned fe = fb; fe <= n; fe++) {
        Img a(n), b(n); for (unsigned i = 0; i < n; i++) { a[i] = x >> i & 1; b[i] = y >> i & 1; } DiffRange dr; if (fe > fb) dr.insert(fb, fe, 10); std::vector<uint16_t> d; nb::current = "n=" + std::to_string(n) + " a=" + std::to_string(x) + " b=" + std::to_string(y) + " forced=" + std::to_string(fb) + "-" + std::to_string(fe); nb::note(x * 64 + y + n * 4096);
        if (!getDiffs(a.data(), b.data(), n, d, 100, {}, fe > fb ? DiffRangeView(dr) : DiffRangeView())) nb::fail("small difference refused"); if (d.empty()) { if (a != b || fe > fb) nb::fail("difference lost"); } else { Img base = a; for (unsigned i = fb; i < fe; i++) base[i] = 9; codec(b, d, base, b); }
        if (x == 0) { getDiffs(b.data(), n, d, 100, {}, fe > fb ? DiffRangeView(dr) : DiffRangeView()); codec(b, d, Img(n, 77), b); }
    }
}
NB_SECTION(ranges, "normalized forced ranges cover exactly what was inserted") {
    nb::loop(30000, rng, [](nb::Rng &r, uint64_t) {
        DiffRange d; std::vector<bool> in(300); unsigned k = 1 + r.below(8); nb::current.clear();
        for (unsigned i = 0; i < k; i++) { unsigned x = r.below(280), y = x + 1 + r.below(19); d.insert(x, y, 64); nb::current += std::to_string(x) + "-" + std::to_string(y) + " "; for (unsigned j = x; j < y; j++) in[j] = true; if (r.chance(1, 3)) d.getData(); }
        nb::note(k); std::vector<bool> out(300); int prev = -1; for (auto &x : d.getData()) { if ((int)x.first <= prev) nb::fail("ranges overlap or touch after merging"); prev = x.second; for (unsigned j = x.first; j < x.second; j++) out[j] = true; } if (in != out) nb::fail("ranges changed by merging");
        unsigned b = r.below(280), e = b + 1 + r.below(300 - b); DiffRangeView v(d, b, e); std::vector<bool> w(300); for (size_t i = 0; i < v.size(); i++) { auto x = v[i]; if (v.sizeOf(i) != x.second - x.first) nb::fail("size of a range in a view"); for (unsigned j = x.first; j < x.second && j < 300; j++) w[j] = true; } nb::current += " view " + std::to_string(b) + "-" + std::to_string(e);
        for (unsigned j = 0; j < 300; j++) if (w[j] != (j < e - b && in[b + j])) nb::fail("a view does not show exactly its part of the ranges");
    });
}
// ---- the page packer over a real file
struct Dir { std::string d; Dir() { char t[] = "/tmp/c02_XXXXXX"; d = mkdtemp(t); } ~Dir() { unlink((d + "/f").c_str()); rmdir(d.c_str()); } };
struct Rec { uint64_t page; bool overflow; Img base, now; std::pair<uint64_t, uint32_t> key; bool diff; };
NB_SECTION(packer, "differences packed into pages of a file") {
    nb::loop(3000, rng, [](nb::Rng &r, uint64_t) {
        Dir dir; uint32_t ps = r.chance(1, 2) ? 256 : r.chance(1, 2) ? 4096 : 512; uint32_t blockPages = 1 + r.below(5), step = 1 + r.below(4); CFile::create(dir.d + "/f", {}); CFile f(dir.d + "/f", AccessType::READ_WRITE);
        std::vector<Rec> recs; std::set<uint64_t> full; nb::current = "page=" + std::to_string(ps) + " block=" + std::to_string(blockPages) + " step=" + std::to_string(step) + " "; unsigned n = 1 + r.below(60); uint64_t h = ps * 31 + blockPages; std::set<std::pair<uint64_t, uint32_t>> keys; std::optional<uint64_t> last; 
        auto check = [&](const Diff_IO &io) { for (auto &x : recs) { Img p = x.base; if (x.diff) io.applyFrom(x.page, p.data(), x.key); else io.read(x.page, p.data()); if (p != x.now) nb::fail(x.diff ? "a packed difference is read back wrong" : "a full page is read back wrong"); } };
        {
            Diff_IO io(0, f, ps, ps * blockPages, 0, 0, step, [] { return (uint64_t)0; }, 0);
            for (unsigned i = 0; i < n; i++) {
                if (r.chance(1, 10)) { nb::current += "flush "; io.flush(); if (r.chance(1, 3)) check(io); continue; }
                std::pair<uint64_t, uint32_t> key; do key = { r.chance(1, 2) ? r.edgy(40) : r.below(6), (uint32_t)(r.chance(1, 3) ? r.edgy(28) : r.below(5)) }; while (!keys.insert(key).second);
                Img a = image(r, ps), b = change(r, a, false); std::vector<uint16_t> d; bool zero = r.chance(1, 4);
                bool ok = zero ? getDiffs(b.data(), ps, d, 0) : getDiffs(a.data(), b.data(), ps, d, 0); if (ok && d.empty()) continue;
                if (ok) { bool fst = false; auto x = io.appendDiff(b.data(), key, d, &fst); nb::current += "d" + std::to_string(o_diff_buffer::measure(nullptr, d)) + "@" + std::to_string(x.first) + (x.second ? "+ " : " "); if (zero) a.assign(ps, 0x5a); recs.push_back({x.first, x.second, a, b, key, true}); if (full.count(x.first) || (x.second && full.count(x.first + 1))) nb::fail("a difference is stored in a page that holds a full image"); h = h * 31 + d.size(); }
                else { auto p = io.append(b.data()); nb::current += "F@" + std::to_string(p) + " "; for (auto &y : recs) if (y.page == p || (y.overflow && y.page + 1 == p)) nb::fail("a page number was handed out twice"); full.insert(p); recs.push_back({p, false, b, b, key, false}); h = h * 37 + 1; }
            }
            io.flush(); check(io); nb::note(h);
        }
        f.flush(); { CFile g(dir.d + "/f", AccessType::READ_ONLY); Diff_IO io(0, g, ps); check(io); }
    });
}
NB_MAIN
