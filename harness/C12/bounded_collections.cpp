// Ordered collections against a set: the growing index (every form it takes), its iterators and joins, reopened.
#include <nspace.hpp>
#include <dbzero/core/collections/b_index/mb_index.hpp>
#include <dbzero/core/collections/vector/v_sorted_vector.hpp>
#include <dbzero/core/collections/vector/v_bvector.hpp>
#include <algorithm>
using namespace db0;
typedef std::set<uint64_t> M;
static std::string g_log; static void op(const std::string &s) { g_log += s; if (g_log.size() > 3000) g_log = "..." + g_log.substr(g_log.size() - 2500); nb::current = g_log; }
template <class I> static std::string list(I b, I e) { std::string s; unsigned n = 0; for (; b != e && n < 40; ++b, n++) s += std::to_string((uint64_t)*b) + ","; return s; }
typedef MorphingBIndex<uint64_t> MB;
static uint64_t pick(nb::Rng &r, const M &m, uint64_t range) { uint64_t v = 1 + r.below(range); if (!m.empty() && r.chance(1, 2)) { auto i = m.lower_bound(v); if (i == m.end()) i = m.begin(); v = *i; if (r.chance(1, 4)) v += r.below(3); if (v > 1 && r.chance(1, 8)) v--; } return v ? v : 1; }
// the whole content, forwards and backwards, from iterators that are joined on the way
static void iterate(nb::Rng &r, const MB &x, const M &m, uint64_t range) {
    { auto it = x.beginJoin(1); for (uint64_t v : m) { if (it.is_end()) nb::fail("forward iteration ends before " + std::to_string(v)); if (*it != v) nb::fail("forward iteration gives " + std::to_string(*it) + " instead of " + std::to_string(v)); ++it; } if (!it.is_end()) nb::fail("forward iteration does not end"); }
    { auto it = x.beginJoin(-1); for (auto i = m.rbegin(); i != m.rend(); ++i) { if (it.is_end()) nb::fail("backward iteration ends before " + std::to_string(*i)); if (*it != *i) nb::fail("backward iteration gives " + std::to_string(*it) + " instead of " + std::to_string(*i)); --it; } if (!it.is_end()) nb::fail("backward iteration does not end"); }
    for (unsigned k = 0; k < 3; k++) { // joins in the direction of travel, mixed with single steps
        int dir = r.chance(1, 2) ? 1 : -1; auto it = x.beginJoin(dir); M::const_iterator f = m.begin(); std::string h = dir > 0 ? " up:" : " down:"; int64_t i = dir > 0 ? 0 : (int64_t)m.size() - 1; std::vector<uint64_t> v(m.begin(), m.end());
        for (unsigned s = 0; s < 12; s++) {
            bool end = i < 0 || i >= (int64_t)v.size(); nb::current = g_log + h; if (it.is_end() != end) nb::fail("end of iteration"); if (end) break; if (*it != v[i]) nb::fail("iterator is at " + std::to_string(*it) + " instead of " + std::to_string(v[i]));
            if (r.chance(1, 3)) { h += "step "; if (dir > 0) ++it; else --it; i += dir; continue; }
            uint64_t key = pick(r, m, range + 2);
            h += "join " + std::to_string(key) + " "; nb::current = g_log + h; bool ok = it.join(key, dir); while (i >= 0 && i < (int64_t)v.size() && (dir > 0 ? v[i] < key : v[i] > key)) i += dir; if (ok != (i >= 0 && i < (int64_t)v.size())) nb::fail("join tells " + std::to_string(ok));
        }
        nb::current = g_log;
    }
}
NB_SECTION(mbindex, "the growing index of unique numbers: inserts, erases, bulk operations, reopening") {
    nb::loop(3000, rng, [](nb::Rng &r, uint64_t) {
        nb::Space sp(4096, r.chance(1, 2) ? 4096 : 64); uint64_t range = (uint64_t[]){8, 60, 400, 5000, 1ull << 40}[r.below(5)]; uint32_t limit = (uint32_t[]){6, 16, 48}[r.below(3)]; g_log = "range " + std::to_string(range) + " limit " + std::to_string(limit); M m; MB x(sp.ms, bindex::type::empty, limit); unsigned ops = 4 + r.below(r.chance(1, 6) ? 60 : 25); nb::note(r.s);
        for (unsigned k = 0; k < ops; k++) {
            switch (r.below(6)) {
                case 0: { uint64_t v = pick(r, m, range); if (m.count(v)) break; op("; insert " + std::to_string(v)); x.insert(v); m.insert(v); break; }
                case 1: { uint64_t v = pick(r, m, range); if (!m.count(v)) break; op("; erase " + std::to_string(v)); x.erase(v); m.erase(v); break; }
                case 2: case 3: { M s; unsigned n = 1 + r.below(r.chance(1, 4) ? (r.chance(1, 4) ? 3000 : 200) : 6); while (n--) s.insert(pick(r, m, range)); std::vector<uint64_t> v(s.begin(), s.end()); op("; insert " + list(v.begin(), v.end())); std::vector<uint64_t> cb, want; for (uint64_t y : v) if (m.insert(y).second) want.push_back(y); MB::CallbackT f = [&](uint64_t y) { cb.push_back(y); }; auto c = x.bulkInsertUnique(v.begin(), v.end(), r.chance(3, 4) ? &f : (cb = want, nullptr)); std::sort(cb.begin(), cb.end()); if (cb != want) nb::fail("reported as inserted: " + list(cb.begin(), cb.end()) + " instead of " + list(want.begin(), want.end())); if (c.first != v.size() || c.second != want.size()) nb::fail("counts " + std::to_string(c.first) + "," + std::to_string(c.second)); break; }
                case 4: { M s; unsigned n = 1 + r.below(r.chance(1, 4) ? 200 : 6); while (n--) s.insert(pick(r, m, range)); if (r.chance(1, 12)) { s = m; if (r.chance(1, 2)) s.insert(pick(r, m, range)); } std::vector<uint64_t> v(s.begin(), s.end()); if (v.empty()) break; op("; erase " + list(v.begin(), v.end())); std::vector<uint64_t> cb, want; for (uint64_t y : v) if (m.erase(y)) want.push_back(y); MB::CallbackT f = [&](uint64_t y) { cb.push_back(y); }; auto c = x.bulkErase(v.begin(), v.end(), r.chance(3, 4) ? &f : (cb = want, nullptr)); std::sort(cb.begin(), cb.end()); if (cb != want) nb::fail("reported as erased: " + list(cb.begin(), cb.end()) + " instead of " + list(want.begin(), want.end())); if (c != want.size()) nb::fail("count of erased " + std::to_string(c)); break; }
                default: { if (!x.isNull() && r.chance(1, 2)) { op("; reopen"); auto a = x.getAddress(); auto t = x.getIndexType(); x = MB(sp.ms, a, t, limit); } }
            }
            nb::current = g_log; if (x.size() != m.size()) nb::fail("size " + std::to_string(x.size()) + " instead of " + std::to_string(m.size())); if (x.empty() != m.empty()) nb::fail("empty"); for (unsigned j = 0; j < 4; j++) { uint64_t v = pick(r, m, range); if (x.contains(v) != (m.count(v) != 0)) nb::fail("contains " + std::to_string(v)); }
            if (r.chance(1, 3) || k + 1 == ops) iterate(r, x, m, range);
        }
        x.destroy(); });
}
typedef v_sorted_vector<uint64_t> SV; typedef v_bvector<uint64_t> BV;
NB_SECTION(bvector, "the block vector: appended, set, inserted, erased, truncated, reopened") {
    nb::loop(1000, rng, [](nb::Rng &r, uint64_t) {
        nb::Space sp(4096, 4096); BV x(sp.ms); std::vector<uint64_t> m; g_log = "bvector"; nb::note(r.s); unsigned ops = 10 + r.below(40);
        for (unsigned k = 0; k < ops; k++) {
            switch (r.below(9)) {
                case 6: { if (m.empty()) break; unsigned n = r.chance(1, 4) ? r.below(m.size() + 1) : r.below(std::min<size_t>(m.size(), 9) + 1); op("; pop " + std::to_string(n)); x.pop_back(n); m.resize(m.size() - n); break; }
                case 7: { if (m.empty()) break; size_t i = m.size() - 1 - r.below(std::min<size_t>(m.size(), 1200)); op("; erase " + std::to_string(i)); x.erase(i); m.erase(m.begin() + i); break; }
                case 8: { if (m.empty()) break; std::set<uint64_t> s; unsigned n = 1 + r.below(4); while (n--) s.insert(r.below(m.size())); std::vector<uint64_t> v(s.begin(), s.end()); op("; swap and pop " + list(v.begin(), v.end())); x.swapAndPop(v); std::vector<uint64_t> w; for (size_t i = 0; i < m.size(); i++) if (!s.count(i)) w.push_back(m[i]); if (x.size() != w.size()) nb::fail("size after swap and pop"); std::vector<uint64_t> got; for (size_t i = 0; i < x.size(); i++) got.push_back(x.getItem(i)); m = got; std::sort(got.begin(), got.end()); std::sort(w.begin(), w.end()); if (got != w) nb::fail("elements after swap and pop"); break; }
                case 0: case 1: { unsigned n = 1 + r.below(r.chance(1, 4) ? 3000 : 20); op("; append " + std::to_string(n)); while (n--) { uint64_t v = r.next(); x.push_back(v); m.push_back(v); } break; }
                case 2: { if (m.empty()) break; size_t i = r.below(m.size()); uint64_t v = r.next(); op("; set " + std::to_string(i)); x.setItem(i, v); m[i] = v; break; }
                case 3: { if (m.empty()) break; op("; pop"); x.pop_back(); m.pop_back(); break; }
                case 4: { op("; reopen"); auto a = x.getAddress(); x.~BV(); new (&x) BV(sp.ms.myPtr(a)); break; }
                default: { if (r.chance(1, 8)) { op("; clear"); x.clear(); m.clear(); } }
            }
            nb::current = g_log; if (x.size() != m.size()) nb::fail("size " + std::to_string(x.size()) + " instead of " + std::to_string(m.size())); for (unsigned j = 0; j < 6 && !m.empty(); j++) { size_t i = r.chance(1, 3) ? (r.chance(1, 2) ? 0 : m.size() - 1) : r.below(m.size()); if (x.getItem(i) != m[i]) nb::fail("element " + std::to_string(i)); }
            if (r.chance(1, 6)) { size_t i = 0; for (auto it = x.begin(), e = x.end(); it != e; ++it, ++i) { if (i >= m.size() || *it != m[i]) nb::fail("iteration at " + std::to_string(i)); } if (i != m.size()) nb::fail("iteration ends at " + std::to_string(i)); }
        } });
}
NB_MAIN
