// The contract of a query node towards its parent, stated on an abstract child: a set of keys seen through one arbitrary key w, a
// position in the direction of the walk. Moving never goes back and never passes a key of the set that lies ahead of where it was
// asked to go; the position is a key of the set. Every node proved in the proof units keeps exactly this contract, so that it holds for
// whole trees by induction.
#pragma once
#include <cstring>
#include <dbzero/core/collections/full_text/FT_Iterator.hpp>
typedef uint64_t Key; typedef db0::FT_Iterator<Key> Node;
static Key g_w; static int g_dir;
static bool le(Key a, Key b) { return g_dir > 0 ? a <= b : a >= b; }
static bool lt(Key a, Key b) { return g_dir > 0 ? a < b : a > b; }
struct Child : Node {
    bool m_e, m_has, m_dup, m_uniq; /* m_uniq: holds every key once */ Key m_pos; unsigned m_moves;
    // the position after a move that may go past `from` (exclusive: of the old position)
    void move(Key from, bool strict) {
        bool has = m_has & (strict ? lt(from, g_w) : le(from, g_w)); bool e = v_fresh64() & 1; Key p = v_fresh64();
        v_assume(e | le(from, p)); v_assume(e | !(p == g_w) | m_has); v_assume(!has | (!e & le(p, g_w))); m_e = e; m_pos = p; m_moves++;
    }
    bool isEnd() const override { return m_e; }
    Key getKey() const override { v_require(!m_e, "no key at the end"); return m_pos; }
    void step(int d) { v_require(!m_e, "not moved past the end"); v_require(d == g_dir, "the direction of the walk"); Key o = m_pos; bool dup = m_dup; move(o, true); if (m_uniq) v_assume(m_e | lt(o, m_pos)); if (dup) v_assume(!m_e & (m_pos == o)); m_dup = false; }
    void operator++() override { step(1); }
    void operator--() override { step(-1); }
    bool join(Key k, int d) override { v_require(!m_e, "not joined past the end"); v_require(d == g_dir, "the direction of the walk"); Key o = m_pos; move(le(k, o) ? o : k, false); m_dup = false; return !m_e; }
    bool isNextKeyDuplicated() const override { return m_dup; }
    void joinBound(Key) override { v_require(false, "joinBound"); }
    std::pair<Key, bool> peek(Key) const override { v_require(false, "peek"); return {}; }
    std::unique_ptr<Node> beginTyped(int d) const override;
    bool limitBy(Key) override { v_require(false, "limitBy"); return false; }
    void stop() override { m_e = true; }
    db0::FTIteratorType getSerialTypeId() const override { return db0::FTIteratorType::Invalid; }
    void serializeFTIterator(std::vector<std::byte> &) const override {}
    const std::type_info &typeId() const override { return typeid(Child); }
    std::ostream &dump(std::ostream &os) const override { return os; }
    void getSignature(std::vector<std::byte> &) const override {}
    double compareToImpl(const db0::FT_IteratorBase &) const override { return 0; }
    const db0::FT_IteratorBase *find(std::uint64_t) const override { return nullptr; }
    void next(void *) override { v_require(false, "next"); }
};
alignas(16) static unsigned char g_cb[3][sizeof(Child)];
static Child &C(unsigned i) { return *(Child *)g_cb[i]; }
// a walk started: in front of the whole set
static void atStart(Child *c) { c->m_dup = c->m_uniq = false; c->m_moves = 0; c->m_e = v_fresh64() & 1; c->m_pos = v_fresh64(); v_assume(c->m_e | !(c->m_pos == g_w) | c->m_has); v_assume(!c->m_has | (!c->m_e & le(c->m_pos, g_w))); }
alignas(16) static unsigned char g_bb[3][sizeof(Child)]; static unsigned g_begun;
inline std::unique_ptr<Node> Child::beginTyped(int d) const { v_require(d == g_dir, "in the direction asked for"); unsigned i = 0; while (this != &C(i)) i++; Child *c = new (g_bb[i]) Child; c->m_has = m_has; atStart(c); g_begun++; return std::unique_ptr<Node>(c); }
static void children(unsigned n, bool mayEnd) {
    static const char *pos[] = {"pos0", "pos1", "pos2"}, *has[] = {"has0", "has1", "has2"}, *end[] = {"end0", "end1", "end2"};
    g_w = v_in64("w"); g_begun = 0;
    for (unsigned i = 0; i < n; i++) { Child *c = new (g_cb[i]) Child; c->m_pos = v_in64(pos[i]); c->m_has = v_inbool(has[i]); c->m_e = mayEnd ? v_inbool(end[i]) : false; c->m_dup = c->m_uniq = false; c->m_moves = 0; v_assume(c->m_e | !(c->m_pos == g_w) | c->m_has); }
}
