// Queries against set expressions: and / or / and-not trees over the real index lists, walked and joined in both
// directions; tag batches against a map from tag to set.
#include <nspace.hpp>
#include <dbzero/core/memory/VObjectCache.hpp>
#include <dbzero/core/collections/full_text/FT_BaseIndex.hpp>
#include <dbzero/core/collections/full_text/FT_IndexIterator.hpp>
#include <dbzero/core/collections/full_text/FT_FixedKeyIterator.hpp>
#include <dbzero/core/collections/full_text/FT_ANDIterator.hpp>
#include <dbzero/core/collections/full_text/FT_ORXIterator.hpp>
#include <dbzero/core/collections/full_text/FT_ANDNOTIterator.hpp>
#include <algorithm>
using namespace db0;
typedef std::set<uint64_t> M; typedef FT_Iterator<uint64_t> It; typedef MorphingBIndex<uint64_t> MB;
static std::string g_log; static void op(const std::string &s) { g_log += s; if (g_log.size() > 3000) g_log = "..." + g_log.substr(g_log.size() - 2500); nb::current = g_log; }
struct Q { std::unique_ptr<It> it; M m; std::string s; };
static std::string str(const M &m) { std::string s = "{"; unsigned n = 0; for (auto v: m) { if (n++ == 12) { s += "..." + std::to_string(m.size()); break; } s += std::to_string(v) + ","; } return s + "}"; }
static Q leaf(nb::Rng &r, nb::Space &sp, uint64_t range, int dir) {
    Q q; unsigned n = r.chance(1, 3) ? r.below(4) : r.below(r.chance(1, 5) ? 150 : 24); while (n--) q.m.insert(1 + r.below(range)); std::vector<uint64_t> v(q.m.begin(), q.m.end()); q.s = str(q.m);
    if (!v.empty() && r.chance(1, 6)) { q.it = std::make_unique<FT_FixedKeyIterator<uint64_t> >(v.data(), v.data() + v.size(), dir); q.s = "fixed" + q.s; return q; }
    MB x(sp.ms, bindex::type::empty, 16); if (!v.empty()) x.bulkInsertUnique(v.begin(), v.end()); q.it = std::make_unique<FT_IndexIterator<MB, uint64_t, uint64_t> >(x, dir, 7); return q;
}
static Q tree(nb::Rng &r, nb::Space &sp, uint64_t range, int dir, unsigned depth) {
    if (!depth || r.chance(1, 4)) return leaf(r, sp, range, dir);
    unsigned n = 1 + r.below(3), k = r.below(3); Q q; q.s = k == 0 ? "and(" : k == 1 ? "or(" : "andnot("; std::vector<Q> c; for (unsigned i = 0; i < n; i++) { c.push_back(tree(r, sp, range, dir, depth - 1)); q.s += c.back().s + " "; } q.s += ")";
    if (k == 0) { q.m = c[0].m; for (auto &x: c) { M t; for (auto v: q.m) if (x.m.count(v)) t.insert(v); q.m = t; } FT_ANDIteratorFactory<uint64_t> f; for (auto &x: c) f.add(std::move(x.it)); q.it = f.release(dir); }
    else if (k == 1) { for (auto &x: c) q.m.insert(x.m.begin(), x.m.end()); FT_ORXIteratorFactory<uint64_t> f; for (auto &x: c) f.add(std::move(x.it)); q.it = f.release(dir); }
    else { q.m = c[0].m; for (unsigned i = 1; i < n; i++) for (auto v: c[i].m) q.m.erase(v); std::vector<std::unique_ptr<It> > v; for (auto &x: c) v.push_back(std::move(x.it)); q.it = std::make_unique<FT_ANDNOTIterator<uint64_t> >(std::move(v), dir); }
    return q;
}
// walks the whole result, sometimes skipping ahead with a join
static void walk(nb::Rng &r, It &it, const M &m, int dir, uint64_t range, bool joins) {
    std::vector<uint64_t> v(m.begin(), m.end()); int64_t i = dir > 0 ? 0 : (int64_t)v.size() - 1; std::string h = dir > 0 ? " up:" : " down:";
    for (;;) {
        bool end = i < 0 || i >= (int64_t)v.size(); nb::current = g_log + h; if (it.isEnd() != end) nb::fail(end ? "the result goes on with " + std::to_string(it.getKey()) + " where it should end" : "the result ends before " + std::to_string(v[i])); if (end) return;
        if (it.getKey() != v[i]) nb::fail("the result has " + std::to_string(it.getKey()) + " where " + std::to_string(v[i]) + " is expected");
        if (joins && r.chance(1, 3)) { uint64_t k = v[r.below(v.size())] + r.below(3); if (r.chance(1, 6)) k = 1 + r.below(range + 3); if (r.chance(1, 5)) k = v[i]; h += "join " + std::to_string(k) + " "; nb::current = g_log + h; bool ok = it.join(k, dir); while (i >= 0 && i < (int64_t)v.size() && (dir > 0 ? v[i] < k : v[i] > k)) i += dir; if (ok != (i >= 0 && i < (int64_t)v.size())) nb::fail("join tells " + std::to_string(ok)); continue; }
        h += "step "; if (h.size() > 400) h = "..." + h.substr(h.size() - 300);
        if (dir > 0) ++it; else if (r.chance(1, 2)) --it; else { uint64_t b = 0; it.next(&b); if (b != v[i]) nb::fail("next gives " + std::to_string(b) + " instead of " + std::to_string(v[i])); }
        i += dir;
    }
}
NB_SECTION(trees, "and / or / and-not trees of index lists, walked and joined in both directions, started over") {
    nb::loop(4000, rng, [](nb::Rng &r, uint64_t) {
        nb::Space sp(4096, 4096); uint64_t range = (uint64_t[]){6, 30, 200, 1ull << 40}[r.below(4)]; int dir = r.chance(1, 2) ? 1 : -1; Q q = tree(r, sp, range, dir, 1 + r.below(3)); g_log = q.s; nb::current = g_log; nb::note(r.s);
        auto a = q.it->beginTyped(1); walk(r, *a, q.m, 1, range, r.chance(1, 2)); auto b = q.it->beginTyped(-1); walk(r, *b, q.m, -1, range, r.chance(1, 2)); walk(r, *q.it, q.m, dir, range, r.chance(1, 2)); q.it = nullptr; a = nullptr; b = nullptr; });
}
static UniqueAddress ua(uint64_t v) { UniqueAddress u; memcpy(&u, &v, 8); return u; }
static uint64_t uv(UniqueAddress u) { uint64_t v; memcpy(&v, &u, 8); return v; }
NB_SECTION(tags, "batches of tags added and removed: lists, callbacks, reopening") {
    nb::loop(400, rng, [](nb::Rng &r, uint64_t) {
        typedef FT_BaseIndex<uint64_t> FT; nb::Space sp(4096, r.chance(1, 2) ? 4096 : 64); FixedObjectList fl(r.chance(1, 2) ? 100 : 4); auto cache = std::make_unique<VObjectCache>(sp.ms, fl); auto x = std::make_unique<FT>(sp.ms, *cache); std::map<uint64_t, M> m; g_log = "tags"; nb::note(r.s); unsigned tags = 1 + r.below(6), objs = 1 + r.below(r.chance(1, 4) ? 200 : 8); std::vector<uint64_t> ob; for (unsigned i = 0; i < objs; i++) ob.push_back(r.chance(1, 8) ? sp.alloc->next + (1 + r.below(6)) * sp.alloc->step : (1 + r.below(400)) << 14 | (1 + r.below(3)));
        auto bo = x->beginBatchUpdate();
        for (unsigned k = 0, e = 3 + r.below(12); k < e; k++) {
            std::map<uint64_t, M> n = m; std::map<std::pair<uint64_t, uint64_t>, bool> last; unsigned ops = r.chance(1, 3) ? 1 + r.below(60) : 1 + r.below(5); std::string h = "; batch ";
            for (unsigned j = 0; j < ops; j++) { uint64_t o = ob[r.below(ob.size())], t = 1 + r.below(tags); bool add = r.chance(3, 5); if (add) { bo->addTag({ua(o), nullptr}, t); n[t].insert(o); } else { bo->removeTag({ua(o), nullptr}, t); n[t].erase(o); } h += (add ? "+" : "-") + std::to_string(o) + ":" + std::to_string(t) + " "; }
            std::map<uint64_t, int> ins, del, wi, wd; std::set<uint64_t> ti, td; for (uint64_t t = 1; t <= tags; t++) { for (auto o: n[t]) if (!m[t].count(o)) wi[o]++; for (auto o: m[t]) if (!n[t].count(o)) wd[o]++; }
            op(h); std::function<void(UniqueAddress)> fi = [&](UniqueAddress u) { ins[uv(u)]++; }, fd = [&](UniqueAddress u) { del[uv(u)]++; }; std::function<void(uint64_t)> gi = [&](uint64_t t) { ti.insert(t); }, gd = [&](uint64_t t) { td.insert(t); };
            bo->flush(&fi, &fd, &gi, &gd); for (auto &p: ins) if (wi[p.first] - wd[p.first] != p.second - del[p.first]) nb::fail("object " + std::to_string(p.first) + " reported " + std::to_string(p.second) + " times as tagged and " + std::to_string(del[p.first]) + " as untagged"); for (auto &p: wi) if (p.second - wd[p.first] != ins[p.first] - del[p.first]) nb::fail("object " + std::to_string(p.first) + " is not reported as tagged"); for (auto &p: wd) if (wi[p.first] - p.second != ins[p.first] - del[p.first]) nb::fail("object " + std::to_string(p.first) + " is not reported as untagged");
            m = n; if (!bo.empty()) nb::fail("operations left after flush");
            if (r.chance(1, 4)) { op("; reopen"); auto a = x->getAddress(); bo.reset(); x = nullptr; cache = nullptr; cache = std::make_unique<VObjectCache>(sp.ms, fl); x = std::make_unique<FT>(sp.ms.myPtr(a), *cache); bo = x->beginBatchUpdate(); }
            for (uint64_t t = 1; t <= tags; t++) { nb::current = g_log + " tag " + std::to_string(t); auto it = x->makeIterator(t, -1); if (!it) { if (!m[t].empty()) nb::fail("no list for a tag that has objects"); continue; } for (auto i = m[t].rbegin(); i != m[t].rend(); ++i) { if (it->isEnd()) nb::fail("list ends before " + std::to_string(*i)); if (uv(it->getKey()) != *i) nb::fail("list has " + std::to_string(uv(it->getKey())) + " instead of " + std::to_string(*i)); --*it; } if (!it->isEnd()) nb::fail("list does not end"); }
            unsigned c = 0; for (auto &p: m) c += !p.second.empty(); if (x->size() < c || x->size() > tags) nb::fail("number of tags " + std::to_string(x->size()) + " instead of " + std::to_string(c));
        }
        bo.reset(); x = nullptr; cache = nullptr; fl.clear(); });
}
NB_MAIN
