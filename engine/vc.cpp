// vc: a deductive verification-condition generator for C++ compiled to LLVM IR.
//
// The program text verified is the LLVM IR that clang emits, on every run, from the sources in
// /repo included by a harness (a contract file).  Functions named v_unit_* are verification units:
// they state a precondition (v_assume), run the real function, and state the postcondition
// (v_assert).  Symbolic execution generates one verification condition per (path, obligation) and
// z3 discharges it; loops are cut at invariants (v_inv), calls are replaced by contracts
// (v_replace); loops that carry no invariant are unfolded until the path condition itself excludes
// a further iteration (never silently truncated).
#include <fnmatch.h>
#include <unistd.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/Utils/LowerSwitch.h>
#include <z3++.h>
#include <map>
#include <set>
#include <unordered_map>
#include <deque>
#include <chrono>
#include <fstream>
#include <sstream>
#include <iostream>
#include <cstring>
#include <functional>

using namespace llvm;
typedef uint64_t u64;
typedef unsigned __int128 u128;

static z3::context *ZC;
static double now() {
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------ values
struct V;
typedef std::shared_ptr<std::vector<V>> Agg;
struct V {
    unsigned w = 0;          // width in bits; 0: none or aggregate
    bool sym = false;
    u64 c = 0;
    z3::expr e;              // valid when sym; Bool sort when w == 1
    uint32_t prov = 0;       // object the pointer derives from, 0: unknown
    Agg agg;
    V(): e(*ZC) {}
};
static inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static V C(unsigned w, u64 c) { V v; v.w = w; v.c = c & mask(w); if (w > 64) { v.sym = true; v.e = ZC->bv_val((uint64_t)c, w); } return v; }
static V S(const z3::expr &e) {
    V v;
    if (e.is_bool()) {
        v.w = 1;
        if (e.is_true()) { v.c = 1; return v; }
        if (e.is_false()) { v.c = 0; return v; }
    } else {
        v.w = e.get_sort().bv_size();
        u64 x;
        if (v.w <= 64 && e.is_numeral_u64(x)) { v.c = x; return v; }
    }
    v.sym = true; v.e = e;
    return v;
}
static z3::expr E(const V &v) {
    if (v.sym) return v.e;
    if (v.w == 1) return ZC->bool_val(v.c != 0);
    return ZC->bv_val((uint64_t)v.c, v.w);
}
static z3::expr B2(const V &v) { // as bit-vector, also for width 1
    if (v.w == 1) return v.sym ? z3::ite(v.e, ZC->bv_val(1, 1), ZC->bv_val(0, 1)) : ZC->bv_val((unsigned)v.c, 1);
    return E(v);
}
static int64_t sx(u64 c, unsigned w) { return w >= 64 ? (int64_t)c : (int64_t)(c << (64 - w)) >> (64 - w); }
static V vsimp(const V &v) { if (!v.sym) return v; V r = S(v.e.simplify()); r.prov = v.prov; return r; }

struct Unsupported { std::string msg; };
[[noreturn]] static void unsup(const std::string &m) { throw Unsupported{m}; }

static V vnot(const V &a) { if (!a.sym) return C(1, !a.c); return S(!a.e); }
static V vadd(const V &a, const V &b) {
    V r;
    if (!a.sym && !b.sym) r = C(a.w, a.c + b.c);
    else if (!a.sym && a.c == 0) r = b;
    else if (!b.sym && b.c == 0) r = a;
    else r = S(E(a) + E(b));
    r.prov = a.prov && b.prov ? 0 : (a.prov ? a.prov : b.prov);
    return r;
}
static V vsub(const V &a, const V &b) {
    V r;
    if (!a.sym && !b.sym) r = C(a.w, a.c - b.c);
    else if (!b.sym && b.c == 0) r = a;
    else r = S(E(a) - E(b));
    r.prov = (a.prov && !b.prov) ? a.prov : 0;
    return r;
}
static V vmul(const V &a, const V &b) {
    if (!a.sym && !b.sym) return C(a.w, a.c * b.c);
    if (!a.sym && a.c == 1) return b;
    if (!b.sym && b.c == 1) return a;
    if ((!a.sym && a.c == 0) || (!b.sym && b.c == 0)) return C(a.w, 0);
    return S(E(a) * E(b));
}
static V vult(const V &a, const V &b) { if (!a.sym && !b.sym) return C(1, a.c < b.c); return S(z3::ult(E(a), E(b))); }
static V vule(const V &a, const V &b) { if (!a.sym && !b.sym) return C(1, a.c <= b.c); return S(z3::ule(E(a), E(b))); }
// value that is 1 where a condition holds and 0 elsewhere
static bool boolish(const V &a, V &b) {
    if (a.w <= 1 || a.agg) return false;
    if (!a.sym) { if (a.c > 1) return false; b = C(1, a.c); return true; }
    if (!a.e.is_app() || a.e.decl().decl_kind() != Z3_OP_ITE) return false;
    u64 x, y; if (!a.e.arg(1).is_numeral_u64(x) || !a.e.arg(2).is_numeral_u64(y)) return false;
    if (x == 1 && y == 0) { b = S(a.e.arg(0)); return true; }
    if (x == 0 && y == 1) { b = S(!a.e.arg(0)); return true; }
    return false;
}
static V veq(const V &a, const V &b) { V t; if (a.sym && !b.sym && b.c <= 1 && boolish(a, t)) return b.c ? t : vnot(t); if (!a.sym && !b.sym) return C(1, a.c == b.c); return S(E(a) == E(b)); }
static V vand(const V &a, const V &b) {
    if (!a.sym) return a.c ? b : a;
    if (!b.sym) return b.c ? a : b;
    return S(a.e && b.e);
}
static V vzext(const V &a, unsigned w) {
    if (a.w == w) return a;
    V r, t;
    if (!a.sym && w <= 64) r = C(w, a.c);
    else if (a.w > 1 && boolish(a, t)) r = S(z3::ite(E(t), ZC->bv_val(1, w), ZC->bv_val(0, w)));
    else if (a.w == 1) r = S(z3::ite(E(a), ZC->bv_val(1, w), ZC->bv_val(0, w)));
    else r = S(z3::zext(E(a), w - a.w));
    r.prov = a.prov; return r;
}
static V vsext(const V &a, unsigned w) {
    if (a.w == w) return a;
    if (!a.sym && w <= 64) return C(w, (u64)sx(a.c, a.w));
    if (a.w == 1) return S(z3::ite(E(a), ZC->bv_val((int64_t)-1, w), ZC->bv_val(0, w)));
    return S(z3::sext(E(a), w - a.w));
}
static V vextract(const V &a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a.w) return a;
    if (!a.sym) return C(w, a.c >> lo);
    V t; if (lo == 0 && boolish(a, t)) return w == 1 ? t : vzext(t, w);
    z3::expr x = a.e.extract(lo + w - 1, lo);
    if (w == 1) return S(x == ZC->bv_val(1, 1));
    return S(x.simplify());
}
static V vite(const V &c, const V &a, const V &b) {
    if (!c.sym) return c.c ? a : b;
    if (a.agg) {
        V r; r.agg = std::make_shared<std::vector<V>>();
        for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(vite(c, (*a.agg)[i], (*b.agg)[i]));
        return r;
    }
    if (!a.sym && !b.sym && a.c == b.c && a.prov == b.prov) return a;
    if (a.sym && b.sym && z3::eq(a.e, b.e) && a.prov == b.prov) return a;
    V r = S(z3::ite(c.e, E(a), E(b)));
    r.prov = a.prov == b.prov ? a.prov : 0;
    return r;
}

static u64 freshCounter = 0;
static V freshV(unsigned w, const std::string &n) {
    std::string nm = n + "!" + std::to_string(freshCounter++);
    V v; v.w = w; v.sym = true;
    v.e = w == 1 ? ZC->bool_const(nm.c_str()) : ZC->bv_const(nm.c_str(), w);
    return v;
}

// minimal number of known trailing zero bits
static unsigned tz(const z3::expr &e, int depth = 0) {
    if (!e.is_bv()) return 0;
    unsigned w = e.get_sort().bv_size();
    u64 x;
    if (e.is_numeral() && w <= 64 && e.is_numeral_u64(x)) return x == 0 ? w : __builtin_ctzll(x);
    if (depth > 12 || !e.is_app()) return 0;
    auto k = e.decl().decl_kind();
    unsigned n = e.num_args();
    if (k == Z3_OP_BADD || k == Z3_OP_BSUB || k == Z3_OP_BOR) {
        unsigned r = 64; for (unsigned i = 0; i < n; i++) r = std::min(r, tz(e.arg(i), depth + 1)); return r;
    }
    if (k == Z3_OP_BNEG) return tz(e.arg(0), depth + 1);
    if (k == Z3_OP_BMUL) { unsigned r = 0; for (unsigned i = 0; i < n; i++) r += tz(e.arg(i), depth + 1); return std::min(r, w); }
    if (k == Z3_OP_BAND) { unsigned r = 0; for (unsigned i = 0; i < n; i++) r = std::max(r, tz(e.arg(i), depth + 1)); return r; }
    if (k == Z3_OP_BSHL) { u64 s; unsigned r = tz(e.arg(0), depth + 1); if (e.arg(1).is_numeral_u64(s)) return std::min<u64>(w, r + s); return r; }
    if (k == Z3_OP_ZERO_EXT || k == Z3_OP_SIGN_EXT) { unsigned r = tz(e.arg(0), depth + 1); return r; }
    if (k == Z3_OP_ITE) return std::min(tz(e.arg(1), depth + 1), tz(e.arg(2), depth + 1));
    if (k == Z3_OP_CONCAT) {
        unsigned r = 0;
        for (int i = (int)n - 1; i >= 0; i--) {
            unsigned wi = e.arg(i).get_sort().bv_size(), t = tz(e.arg(i), depth + 1);
            if (t < wi) return r + t;
            r += wi;
        }
        return r;
    }
    return 0;
}
static unsigned tzv(const V &v) { if (!v.sym) return v.c == 0 ? 64 : __builtin_ctzll(v.c); return tz(v.e); }

// ------------------------------------------------------------------ memory
struct Byte { std::shared_ptr<const V> src; uint8_t idx = 0; };
struct Cells {
    std::map<u64, Byte> m;
};
struct Content;
typedef std::shared_ptr<const Content> ContentP;
struct Node {
    enum K { CELLS, WRITE, COPY, SET, BASE_UNDEF, BASE_ZERO, BASE_ARRAY } k;
    std::shared_ptr<const Node> next;
    Cells cells;               // CELLS
    V off; unsigned n = 0; V val;   // WRITE: off,n,val ; COPY: off,len,src,soff ; SET: off,len,val(8)
    V len; V soff; std::shared_ptr<const Node> src;
    z3::expr arr; unsigned W = 1;
    Node(): arr(*ZC) {}
};
typedef std::shared_ptr<const Node> NodeP;
struct Content {
    Cells cells;               // topmost, concrete offsets
    NodeP chain;
};
struct Obj {
    uint32_t id; u64 base; V size; std::string name; bool ro = false; bool dead = false; bool stack = false; bool heap = false;
    unsigned W = 1;
    std::shared_ptr<Content> ct;   // copy on write when use_count > 1
    u64 birth = 0;                 // sequence number of allocation in this state
    std::string key;               // identification that survives a re-run
};

static NodeP undefBase() { auto n = std::make_shared<Node>(); n->k = Node::BASE_UNDEF; return n; }
static NodeP zeroBase() { auto n = std::make_shared<Node>(); n->k = Node::BASE_ZERO; return n; }
static NodeP arrayBase(const std::string &nm, unsigned W) {
    auto n = std::make_shared<Node>(); n->k = Node::BASE_ARRAY; n->W = W;
    std::string s = nm + "!" + std::to_string(freshCounter++);
    n->arr = ZC->constant(s.c_str(), ZC->array_sort(ZC->bv_sort(64), ZC->bv_sort(8 * W)));
    return n;
}

// ------------------------------------------------------------------ states
struct LoopCut {
    BasicBlock *header; enum Ph { ENTRY, REEXEC, BODY, CHECK } ph;
    std::shared_ptr<struct State> snap;   // at header, phis bound by the entry edge
    std::string key;
    u64 birthMark = 0;
    std::map<const PHINode *, uint32_t> phiProv;
    V variant; bool hasVariant = false;
    V pendVariant; bool pend = false;
};
struct FnInfo {
    Function *F; std::unordered_map<const Value *, unsigned> num; unsigned n = 0;
    std::unique_ptr<DominatorTree> DT; std::unique_ptr<LoopInfo> LI;
    std::set<const BasicBlock *> cutHeaders;     // headers of loops that carry a v_inv
};
struct Frame {
    FnInfo *fi; BasicBlock *bb = nullptr, *prev = nullptr; BasicBlock::iterator it;
    std::vector<V> regs; std::vector<uint32_t> allocas; CallBase *site = nullptr; std::vector<LoopCut> cuts;
    std::map<const BasicBlock *, unsigned> visits;
};
struct Input { std::string name; V v; uint32_t obj = 0; NodeP base; V size; unsigned W = 1; };
struct State {
    std::vector<Frame> st; std::map<uint32_t, Obj> objs; uint32_t nextObj = 1; u64 nextBase = 0x10000000; u64 births = 0;
    std::vector<z3::expr> pc; std::vector<Input> inputs; V throwOK;
    std::map<std::string, Function *> repl; std::set<const Function*> inRepl;
    std::map<const GlobalValue *, uint32_t> globs; std::map<u64, uint32_t> byBase;
    std::map<std::string, unsigned> keyCount; u64 steps = 0; unsigned depth = 0;
};

struct ObRec { std::string name; unsigned inst = 0, proved = 0, refuted = 0, unknown = 0; double secs = 0; };
struct ModSet { std::set<std::string> whole; std::map<std::string, std::set<std::pair<u64, u64>>> parts; };
struct Restart {};

struct Engine {
    Module *M; const DataLayout *DL; std::unordered_map<Function *, std::unique_ptr<FnInfo>> infos;
    std::unordered_map<std::string, Function *> byAddrName; std::map<u64, Function *> fnByAddr; std::unordered_map<const Function *, u64> fnAddr;
    std::unique_ptr<z3::solver> solver; std::vector<z3::expr> asserted;
    std::map<std::string, ObRec> obs; std::map<std::string, unsigned> covers; std::set<std::string> coverDeclared;
    std::map<std::string, ModSet> mods; std::set<std::string> callees, replaced, externs, notes;
    std::vector<State> work; u64 paths = 0, killed = 0, throwsSeen = 0, queries = 0; double solverSecs = 0, hardSecs = 60; unsigned softMs = 4000, incMs = getenv("VC_INC") ? atoi(getenv("VC_INC")) : 300;
    std::vector<std::string> problems; std::vector<std::string> cexJson; u64 maxPaths = 200000; double deadline = 1e18; unsigned maxVisits = 5000;
    std::string dumpDir; unsigned dumped = 0; unsigned invLoops = 0; std::set<std::string> invSites; bool bounded = false; std::string boundNote; std::set<std::string> ubSites;
    std::map<std::string, std::string> assumesUsed; unsigned assertSites = 0; bool verbose = false; std::map<std::string,std::string> demCache;

    // ---------- solver
    void sync(const State &s) {
        size_t i = 0;
        while (i < asserted.size() && i < s.pc.size() && z3::eq(asserted[i], s.pc[i])) i++;
        if (asserted.size() > i) { solver->pop(asserted.size() - i); asserted.erase(asserted.begin() + i, asserted.end()); }
        for (; i < s.pc.size(); i++) { solver->push(); solver->add(s.pc[i]); asserted.push_back(s.pc[i]); }
    }
    std::unique_ptr<z3::model> lastModel;
    z3::check_result query(const State &s, const z3::expr &extra, bool wantModel, bool hard) {
        double t0 = now(); queries++;
        sync(s);
        if (t0 > deadline) { throw Unsupported{"time limit"}; }
        solver->push(); solver->add(extra);
        z3::check_result r;
        try { r = solver->check(); } catch (z3::exception &) { r = z3::unknown; }
        if (r == z3::sat && wantModel) lastModel.reset(new z3::model(solver->get_model()));
        solver->pop();
        auto oneShot = [&](double secs) {
            z3::solver f(*ZC, "QF_ABV");
            z3::params p(*ZC); p.set("timeout", (unsigned)(secs * 1000)); f.set(p);
            for (auto &x : s.pc) f.add(x);
            f.add(extra);
            try { r = f.check(); } catch (z3::exception &) { r = z3::unknown; }
            if (r == z3::sat && wantModel) lastModel.reset(new z3::model(f.get_model()));
        };
        // a short attempt on the bit-vectors, kept up only while it pays
        if (r == z3::unknown && hard && (quickTries < 8 || quickWins * 2 >= quickTries) && readsArray(extra)) { quickTries++; oneShot(0.6); if (r != z3::unknown) quickWins++; }
        if (r == z3::unknown && hard) r = asInts(s, extra, 1.5);
        if (r == z3::unknown) oneShot(softMs / 1000.0);
        if (r == z3::unknown && hard) r = asInts(s, extra, std::min(hardSecs, 10.0));
        if (r == z3::unknown && hard) oneShot(std::min(hardSecs, 10.0));
        if (r == z3::unknown && hard && hardSecs > 10) r = asInts(s, extra, hardSecs);
        if (r == z3::unknown && hard && hardSecs > 10) oneShot(hardSecs);
        solverSecs += now() - t0;
        static const bool slow = getenv("VC_SLOW"); if (slow && now() - t0 > 0.3) { std::cerr << "SLOW " << now() - t0 << " " << r << " " << extra.simplify() << "\n"; }
        return r;
    }
    // last resort for linear arithmetic hidden in machine words (division by a constant): cvc5 over the integers; only unsat is used
    unsigned intProved = 0;
    unsigned quickTries = 0, quickWins = 0;
    static bool readsArray(const z3::expr &x0) {
        std::set<unsigned> seen; bool found = false;
        auto go = [&](const z3::expr &x, auto &self) -> void { if (found || !seen.insert(x.id()).second || !x.is_app()) return; if (x.decl().decl_kind() == Z3_OP_SELECT) { found = true; return; } for (unsigned i = 0; i < x.num_args(); i++) self(x.arg(i), self); };
        go(x0, go); return found;
    }
    z3::check_result asInts(const State &s, const z3::expr &extra, double secs) {
        // reads of arrays become arbitrary values (a weaker hypothesis)
        z3::solver f(*ZC); z3::expr_vector from(*ZC), to(*ZC); std::set<unsigned> seen; bool arrays = false;
        auto collect = [&](const z3::expr &x, auto &self) -> void {
            if (!seen.insert(x.id()).second) return; if (!x.is_app()) { arrays = true; return; }
            if (x.decl().decl_kind() == Z3_OP_SELECT) { from.push_back(x); to.push_back(ZC->constant(("rd!" + std::to_string(from.size())).c_str(), x.get_sort())); return; }
            if (x.is_array()) arrays = true;
            for (unsigned i = 0; i < x.num_args(); i++) self(x.arg(i), self);
        };
        auto add = [&](const z3::expr &x, bool need) { arrays = false; collect(x, collect); if (arrays) return !need; z3::expr y = x; f.add(y.substitute(from, to)); return true; };
        for (auto &x : s.pc) add(x, false);
        if (!add(extra, true)) return z3::unknown;
        for (unsigned i = 0, n = 0; i < from.size() && n < 400; i++) for (unsigned j = 0; j < i && n < 400; j++) { z3::expr a = from[i], b = from[j]; if (!z3::eq(a.arg(0), b.arg(0)) || z3::eq(a.arg(1), b.arg(1))) continue; n++; z3::expr p = a.arg(1), q = b.arg(1); add(z3::implies(p == q, to[i] == to[j]), false); }
        char t[] = "/tmp/vcint_XXXXXX"; int fd;
        { std::string q = f.to_smt2(); if (q.find("(Array") != std::string::npos) return z3::unknown; for (const char *op : {"bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvsmod"}) { std::string k = std::string("(") + op + "_i "; for (size_t at = 0; (at = q.find(k, at)) != std::string::npos;) q.replace(at, k.size(), std::string("(") + op + " "); } fd = mkstemp(t); if (fd < 0) return z3::unknown; close(fd); std::ofstream o(t); o << "(set-logic ALL)\n" << q; }
        std::string cmd = "cvc5 --solve-bv-as-int=sum --tlimit=" + std::to_string((long)(secs * 1000)) + " --lang=smt2 " + t + " 2>/dev/null";
        std::string out; if (FILE *p = popen(cmd.c_str(), "r")) { char b[256]; while (fgets(b, sizeof b, p)) out += b; pclose(p); }
        if (!getenv("VC_KEEP")) unlink(t); else std::cerr << "KEEP " << t << " " << out;
        if (out.compare(0, 5, "unsat") == 0) { intProved++; return z3::unsat; }
        return z3::unknown;
    }
    bool feasible(const State &s, const z3::expr &c) { return query(s, c, false, false) != z3::unsat; }
    bool mustBe(const State &s, const V &c) {
        if (!c.sym) return c.c;
        z3::expr n = (!c.e).simplify();
        if (n.is_false()) return true;
        if (n.is_true()) return false;
        return query(s, n, false, false) == z3::unsat;
    }
    void dumpVC(const State &s, const z3::expr &extra) {
        if (dumpDir.empty() || dumped >= 400) return;
        z3::solver f(*ZC);
        for (auto &x : s.pc) f.add(x);
        f.add(extra);
        std::ofstream o(dumpDir + "/vc" + std::to_string(dumped++) + ".smt2");
        o << "(set-logic ALL)\n" << f.to_smt2();
    }
    // record an obligation; afterwards the state assumes it.  false: the path cannot continue
    // between a loop header and its invariant in the arbitrary iteration: every real arrival there is checked on the
    // entry path and after the loop body, so the condition is a hypothesis here
    bool reexec(State &s) { for (auto &f : s.st) for (auto &c : f.cuts) if (c.ph == LoopCut::REEXEC) return true; return false; }
    static bool conjuncts(const z3::expr &e, std::vector<z3::expr> &out) {
        if (e.is_app() && e.decl().decl_kind() == Z3_OP_AND) { for (unsigned i = 0; i < e.num_args(); i++) conjuncts(e.arg(i), out); return true; }
        if (e.is_app() && e.decl().decl_kind() == Z3_OP_NOT && e.arg(0).is_app() && e.arg(0).decl().decl_kind() == Z3_OP_OR) { z3::expr o = e.arg(0); for (unsigned i = 0; i < o.num_args(); i++) conjuncts((!o.arg(i)).simplify(), out); return true; }
        out.push_back(e); return false;
    }
    bool oblige(State &s, const V &cond0, const std::string &name) {
        if (cond0.sym) { std::vector<z3::expr> cs; if (conjuncts(cond0.e, cs)) { for (auto &c : cs) if (!oblige1(s, S(c), name)) return false; return true; } }
        return oblige1(s, cond0, name);
    }
    bool oblige1(State &s, const V &cond0, const std::string &name) {
        if (reexec(s)) { V k = vsimp(cond0); if (!k.sym) return k.c != 0; if (!feasible(s, k.e)) return false; s.pc.push_back(k.e); return true; }
        ObRec &o = obs[name]; o.name = name; o.inst++;
        V cond = vsimp(cond0);
        if (!cond.sym) {
            if (cond.c) { o.proved++; return true; }
        }
        double t0 = now();
        z3::expr neg = cond.sym ? !cond.e : ZC->bool_val(true);
        auto r = query(s, neg, true, true);
        o.secs += now() - t0;
        if (r == z3::unsat) {
            o.proved++; dumpVC(s, neg);
            if (!cond.sym) return false; // path infeasible
            if (cond.e.is_app() && cond.e.decl().decl_kind() == Z3_OP_EQ) for (unsigned i = 0; i < 2; i++) { auto k = cond.e.arg(i).is_app() ? cond.e.arg(i).decl().decl_kind() : Z3_OP_UNINTERPRETED; if (k == Z3_OP_BUDIV || k == Z3_OP_BUDIV_I || k == Z3_OP_BUREM || k == Z3_OP_BUREM_I) { s.pc.push_back(cond.e); break; } } // kept as a lemma
            return true;
        }
        if (r == z3::sat) {
            o.refuted++;
            if (o.refuted <= 2 && cexJson.size() < 12) cexJson.push_back(cex(s, name));
        } else { o.unknown++; }
        if (!cond.sym) return false;
        if (!feasible(s, cond.e)) return false;
        s.pc.push_back(cond.e);
        return true;
    }
    static std::string js(const std::string &x) {
        std::string r = "\"";
        for (unsigned char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
        return r + "\"";
    }
    u64 evalV(const V &v) {
        if (!v.sym) return v.c;
        z3::expr x = lastModel->eval(v.e, true);
        if (x.is_bool()) return x.is_true();
        u64 r = 0; x.is_numeral_u64(r); return r;
    }
    std::string cex(State &s, const std::string &name) {
        std::ostringstream o; o << "{\"obligation\":" << js(name) << ",\"inputs\":[";
        bool first = true;
        for (auto &in : s.inputs) {
            if (!first) o << ","; first = false;
            o << "{\"name\":" << js(in.name);
            if (in.base) {
                u64 sz = evalV(in.size); u64 lim = std::min<u64>(sz, 1 << 16);
                o << ",\"size\":" << sz << ",\"hex\":\"";
                std::string h; h.reserve(lim * 2); static const char *H = "0123456789abcdef";
                for (u64 i = 0; i < lim;) {
                    z3::expr x = lastModel->eval(z3::select(in.base->arr, ZC->bv_val((uint64_t)(i / in.W), 64)), true);
                    u64 r = 0; x.is_numeral_u64(r);
                    for (unsigned k = 0; k < in.W && i < lim; k++, i++) { unsigned b = (r >> (8 * k)) & 255; h += H[b >> 4]; h += H[b & 15]; }
                }
                o << h << "\"";
            } else o << ",\"value\":\"" << evalV(in.v) << "\"";
            o << "}";
        }
        o << "],\"trace\":" << js(where(s)) << "}";
        return o.str();
    }
    // ---------- naming
    std::string dem(const Function *F) {
        auto n = F->getName().str(); auto it = demCache.find(n); if (it != demCache.end()) return it->second;
        return demCache[n] = demangle(n);
    }
    static std::string shortName(std::string d) {
        // strip arguments and template arguments
        std::string r; int t = 0;
        for (size_t i = 0; i < d.size(); i++) {
            char c = d[i];
            if (c == '<' && d.compare(i, 2, "<<") && (i < 8 || d.compare(i - 8, 8, "operator"))) { t++; continue; }
            if (c == '>' && t > 0) { t--; continue; }
            if (t) continue;
            if (c == '(' && d.compare(i, 11, "(anonymous ") != 0) { if (r.size() >= 8 && r.compare(r.size() - 8, 8, "operator") == 0) { r += "()"; i++; continue; } break; }
            r += c;
        }
        auto p = r.rfind(' '); if (p != std::string::npos && r.find("operator") == std::string::npos) r = r.substr(p + 1);
        return r;
    }
    std::string loc(const Instruction *I) {
        std::string r;
        if (auto &d = I->getDebugLoc()) {
            auto f = d->getFilename(); auto p = f.rfind('/'); if (p != StringRef::npos) f = f.substr(p + 1);
            r = f.str() + ":" + std::to_string(d->getLine());
        }
        return r;
    }
    std::string where(const State &s) {
        std::string r;
        for (int i = (int)s.st.size() - 1; i >= 0; i--) {
            auto &f = s.st[i]; if (f.it == f.bb->end()) continue;
            if (!r.empty()) r += " < ";
            r += shortName(dem(f.fi->F)) + "@" + loc(&*f.it);
        }
        return r;
    }
    std::string here(const State &s) {
        // innermost location inside a named function, with file:line
        for (int i = (int)s.st.size() - 1; i >= 0; i--) {
            auto &f = s.st[i]; std::string n = shortName(dem(f.fi->F)), l = loc(&*f.it);
            if (n.compare(0, 5, "std::") == 0 && i > 0) continue;
            return n + "@" + l;
        }
        return "?";
    }
    FnInfo *info(Function *F) {
        auto &p = infos[F];
        if (!p) {
            p.reset(new FnInfo()); p->F = F;
            for (auto &a : F->args()) p->num[&a] = p->n++;
            for (auto &b : *F) for (auto &i : b) if (!i.getType()->isVoidTy()) p->num[&i] = p->n++;
            p->DT.reset(new DominatorTree(*F)); p->LI.reset(new LoopInfo(*p->DT));
            for (auto &b : *F) for (auto &i : b) if (auto *c = dyn_cast<CallBase>(&i))
                if (auto *cf = c->getCalledFunction()) if (cf->getName() == "v_inv") {
                    if (auto *L = p->LI->getLoopFor(&b)) p->cutHeaders.insert(L->getHeader());
                }
        }
        return p.get();
    }
    // ---------- memory
    Obj &newObj(State &s, const V &size, const std::string &name, unsigned W, NodeP base) {
        Obj o; o.id = s.nextObj++; o.size = size; o.name = name; o.W = W; o.base = s.nextBase; o.birth = s.births++;
        u64 sz = size.sym ? (1ull << 36) : size.c;
        s.nextBase += ((sz + 4095) / 4096 + 16) * 4096;
        o.ct = std::make_shared<Content>(); o.ct->chain = base;
        o.key = name + "#" + std::to_string(s.keyCount[name]++);
        s.byBase[o.base] = o.id;
        return s.objs[o.id] = o;
    }
    Content &wr(Obj &o) { if (o.ct.use_count() > 1) o.ct = std::make_shared<Content>(*o.ct); return *o.ct; }
    V composeBytes(const std::vector<Byte> &b) {
        unsigned n = b.size();
        // whole value
        bool same = true;
        for (unsigned i = 0; i < n; i++) if (b[i].src != b[0].src || b[i].idx != b[0].idx + i) { same = false; break; }
        if (same) {
            if (b[0].idx == 0 && b[0].src->w == 8 * n) return *b[0].src;
            return vextract(*b[0].src, 8 * b[0].idx, 8 * n);
        }
        bool conc = n <= 8;
        for (auto &x : b) if (x.src->sym) conc = false;
        if (conc) { u64 r = 0; for (unsigned i = 0; i < n; i++) r |= ((b[i].src->c >> (8 * b[i].idx)) & 255) << (8 * i); return C(8 * n, r); }
        // runs
        V acc; bool have = false;
        for (unsigned i = 0; i < n;) {
            unsigned j = i + 1;
            while (j < n && b[j].src == b[i].src && b[j].idx == b[i].idx + (j - i)) j++;
            V part = vextract(*b[i].src, 8 * b[i].idx, 8 * (j - i));
            if (!have) { acc = part; have = true; } else acc = S(z3::concat(E(part), E(acc)));
            i = j;
        }
        if (acc.sym) return S(acc.e.simplify());
        return acc;
    }
    V concatBytes(const std::vector<V> &b) {
        std::vector<Byte> x;
        for (auto &v : b) x.push_back(Byte{std::make_shared<V>(v), 0});
        return composeBytes(x);
    }
    // a = 2^k * q (modulo 2^64), read off the form of a
    static bool linQ(const z3::expr &a, unsigned k, z3::expr &q, int depth = 0) {
        unsigned w = a.get_sort().bv_size(); if (w != 64 || depth > 6) return false;
        uint64_t c; if (a.is_numeral_u64(c)) { if (c & ((1ull << k) - 1)) return false; q = ZC->bv_val((uint64_t)((int64_t)c >> k), w); return true; }
        if (!a.is_app()) return false;
        auto op = a.decl().decl_kind();
        if (op == Z3_OP_BADD) { z3::expr r = ZC->bv_val(0, w), t = r; for (unsigned i = 0; i < a.num_args(); i++) { if (!linQ(a.arg(i), k, t, depth + 1)) return false; r = r + t; } q = r; return true; }
        if (op == Z3_OP_BMUL) { z3::expr t = ZC->bv_val(0, w); if (!a.arg(0).is_numeral() || !linQ(a.arg(0), k, t, depth + 1)) return false; for (unsigned i = 1; i < a.num_args(); i++) t = t * a.arg(i); q = t; return true; }
        if (op == Z3_OP_ITE) { z3::expr t = ZC->bv_val(0, w), e = t; if (!linQ(a.arg(1), k, t, depth + 1) || !linQ(a.arg(2), k, e, depth + 1)) return false; q = z3::ite(a.arg(0), t, e); return true; }
        return false;
    }
    // off: 64-bit byte offset inside the object; returns 8n-bit value
    V readNode(State &s, const NodeP &nd, const V &off, unsigned n) {
        switch (nd->k) {
        case Node::BASE_ZERO: return C(8 * n, 0);
        case Node::BASE_UNDEF: return freshV(8 * n, "undef");
        case Node::BASE_ARRAY: {
            unsigned W = nd->W;
            unsigned lw = __builtin_ctz(W);
            if (n == W && lw && off.sym && tzv(off) >= lw) { z3::expr q = ZC->bv_val(0, 64); if (linQ(E(off).simplify(), lw, q)) { q = q.simplify(); if (mustBe(s, S(z3::ult(q, ZC->bv_val((uint64_t)1 << (64 - lw), 64))))) return S(z3::select(nd->arr, q)); } }
            if (n == W && tzv(off) >= lw) return S(z3::select(nd->arr, E(vsimp(S(z3::lshr(E(off), (int)lw))))));
            if (n < W && (n == 1 || tzv(off) >= (unsigned)__builtin_ctz(n))) {
                z3::expr word = z3::select(nd->arr, E(vsimp(S(z3::lshr(E(off), (int)lw)))));
                if (!off.sym) return vextract(S(word), 8 * (off.c & (W - 1)), 8 * n);
                z3::expr sh = (E(off) & ZC->bv_val((uint64_t)(W - 1), 64)) * ZC->bv_val(8, 64);
                z3::expr shw = W == 8 ? sh : sh.extract(8 * W - 1, 0);
                return S(z3::lshr(word, shw).extract(8 * n - 1, 0).simplify());
            }
            if (n > W && n % W == 0 && tzv(off) >= lw) {
                std::vector<V> p; V acc;
                for (unsigned i = 0; i < n; i += W) { V x = readNode(s, nd, vsimp(vadd(off, C(64, i))), W); acc = i == 0 ? x : S(z3::concat(E(x), E(acc))); }
                return acc;
            }
            std::vector<V> b; for (unsigned i = 0; i < n; i++) b.push_back(readNode(s, nd, vsimp(vadd(off, C(64, i))), 1));
            return concatBytes(b);
        }
        case Node::CELLS: {
            if (!off.sym) {
                std::vector<Byte> b; bool all = true, none = true;
                for (unsigned i = 0; i < n; i++) { auto it = nd->cells.m.find(off.c + i); if (it == nd->cells.m.end()) { all = false; b.push_back(Byte()); } else { none = false; b.push_back(it->second); } }
                if (all) return composeBytes(b);
                if (none) return readNode(s, nd->next, off, n);
                for (unsigned i = 0; i < n; i++) if (!b[i].src) b[i] = Byte{std::make_shared<V>(readNode(s, nd->next, C(64, off.c + i), 1)), 0};
                return composeBytes(b);
            }
            unsigned al = 1u << std::min(12u, tz(off.e));
            std::set<u64> cand;
            for (auto &kv : nd->cells.m) for (unsigned i = 0; i < n; i++) { if (kv.first < i) continue; u64 p = kv.first - i; if (p % al == 0) cand.insert(p); }
            V r = readNode(s, nd->next, off, n);
            for (u64 p : cand) { V x = readNode(s, nd, C(64, p), n); r = vite(veq(off, C(64, p)), x, r); }
            return r;
        }
        case Node::WRITE: {
            V d = vsimp(vsub(off, nd->off));
            if (!d.sym) {
                if (d.c + n <= nd->n && d.c < nd->n) return vextract(nd->val, 8 * d.c, 8 * n);
                if (d.c >= nd->n && d.c + n > d.c) return readNode(s, nd->next, off, n);
                if (n == 1) return readNode(s, nd->next, off, n);
            }
            if (n == 1) {
                V in = vult(d, C(64, nd->n));
                V byte;
                if (nd->n == 1) byte = nd->val;
                else { unsigned w = 8 * nd->n; z3::expr sh = E(d) * ZC->bv_val(8, 64); z3::expr shw = w == 64 ? sh : (w < 64 ? sh.extract(w - 1, 0) : z3::zext(sh, w - 64)); byte = S(z3::lshr(E(nd->val), shw).extract(7, 0)); }
                return vite(in, byte, readNode(s, nd->next, off, n));
            }
            if (n == nd->n && (n & (n - 1)) == 0 && tzv(off) >= (unsigned)__builtin_ctz(n) && tzv(nd->off) >= (unsigned)__builtin_ctz(n))
                return vite(veq(off, nd->off), nd->val, readNode(s, nd->next, off, n));
            // entirely disjoint?
            if (mustBe(s, S(z3::uge(E(d), ZC->bv_val((uint64_t)nd->n, 64)) && z3::ule(E(d), ZC->bv_val((uint64_t)(0 - (u64)n), 64))))) return readNode(s, nd->next, off, n);
            if (n == nd->n && mustBe(s, veq(d, C(64, 0)))) return nd->val;
            std::vector<V> b; for (unsigned i = 0; i < n; i++) b.push_back(readNode(s, nd, vsimp(vadd(off, C(64, i))), 1));
            return concatBytes(b);
        }
        case Node::SET: case Node::COPY: {
            V d = vsimp(vsub(off, nd->off));
            auto inner = [&](unsigned m) -> V {
                if (nd->k == Node::SET) { std::vector<V> b(m, nd->val); return m == 1 ? nd->val : concatBytes(b); }
                return readNode(s, nd->src, vsimp(vadd(nd->soff, d)), m);
            };
            // fully inside / outside, decided by the path condition
            if (!d.sym && !nd->len.sym) {
                if (d.c < nd->len.c && d.c + n <= nd->len.c) return inner(n);
                if (d.c >= nd->len.c && d.c + n > d.c) return readNode(s, nd->next, off, n);
            } else {
                V in = S(z3::ule(ZC->bv_val(n, 64), E(nd->len)) && z3::ule(E(d), E(nd->len) - ZC->bv_val(n, 64)));
                if (mustBe(s, in)) return inner(n);
                V out = S(z3::uge(E(d), E(nd->len)) && z3::ule(E(d), ZC->bv_val((uint64_t)(0 - (u64)n), 64)));
                if (mustBe(s, out)) return readNode(s, nd->next, off, n);
            }
            if (n == 1) return vite(vult(d, nd->len), inner(1), readNode(s, nd->next, off, 1));
            std::vector<V> b; for (unsigned i = 0; i < n; i++) b.push_back(readNode(s, nd, vsimp(vadd(off, C(64, i))), 1));
            return concatBytes(b);
        }
        }
        unsup("readNode");
    }
    NodeP freeze(Content &c) {
        if (!c.cells.m.empty()) {
            auto n = std::make_shared<Node>(); n->k = Node::CELLS; n->cells = std::move(c.cells); n->next = c.chain; c.cells = Cells(); c.chain = n;
        }
        return c.chain;
    }
    V readObj(State &s, Obj &o, V off, unsigned n) {
        if (!off.sym) {
            auto &m = o.ct->cells.m; std::vector<Byte> b; bool all = true, none = true;
            auto it = m.lower_bound(off.c);
            for (unsigned i = 0; i < n; i++) {
                if (it != m.end() && it->first == off.c + i) { b.push_back(it->second); ++it; none = false; } else { b.push_back(Byte()); all = false; }
            }
            if (all) return composeBytes(b);
            // memoise what is read below so that undefined bytes stay the same bytes
            Content &c = wr(o);
            if (none) {
                V v = readNode(s, c.chain, off, n);
                auto p = std::make_shared<const V>(v);
                for (unsigned i = 0; i < n; i++) c.cells.m[off.c + i] = Byte{p, (uint8_t)i};
                return v;
            }
            for (unsigned i = 0; i < n; i++) if (!b[i].src) { b[i] = Byte{std::make_shared<V>(readNode(s, c.chain, C(64, off.c + i), 1)), 0}; c.cells.m[off.c + i] = b[i]; }
            return composeBytes(b);
        }
        Content &c = wr(o);
        // an undefined base read at a symbolic offset becomes an (arbitrary) array
        materialise(c, o);
        NodeP top = freeze(c);
        return readNode(s, top, off, n);
    }
    void materialise(Content &c, Obj &o) {
        std::vector<NodeP> st; NodeP n = c.chain;
        while (n->next) { st.push_back(n); n = n->next; }
        if (n->k != Node::BASE_UNDEF) return;
        NodeP nb = arrayBase("mem_" + o.name, o.W);
        for (int i = (int)st.size() - 1; i >= 0; i--) { auto k = std::make_shared<Node>(*st[i]); k->next = nb; nb = k; }
        c.chain = nb;
    }
    void track(State &s, Obj &o, const V &off, const V &len) {
        for (auto &f : s.st) for (auto &c : f.cuts) {
            if (c.ph != LoopCut::BODY && c.ph != LoopCut::CHECK) continue;
            if (o.birth >= c.birthMark) continue;
            ModSet &m = mods[c.key];
            if (m.whole.count(o.key)) continue;
            if (!off.sym && !len.sym) {
                bool ok = true; auto &ps = m.parts[o.key];
                for (u64 b = off.c; b < off.c + len.c && ok; b++) { bool in = false; for (auto &p : ps) if (b >= p.first && b < p.second) in = true; ok = in; }
                if (ok) continue;
                ps.insert({off.c, off.c + len.c});
            } else m.whole.insert(o.key);
            if (verbose) errs() << "loop " << c.key << " modifies " << o.key << "\n";
            throw Restart();
        }
    }
    void writeObj(State &s, Obj &o, const V &off, const V &val) {
        unsigned n = val.w / 8;
        track(s, o, off, C(64, n));
        Content &c = wr(o);
        if (!off.sym) {
            auto p = std::make_shared<const V>(val);
            for (unsigned i = 0; i < n; i++) c.cells.m[off.c + i] = Byte{p, (uint8_t)i};
            return;
        }
        materialise(c, o);
        auto nd = std::make_shared<Node>(); nd->k = Node::WRITE; nd->off = off; nd->n = n; nd->val = val; nd->next = freeze(c); c.chain = nd;
    }
    // resolve pointer: object and offset; checks that [p, p+len) lies inside.
    Obj *resolve(State &s, const V &p0, const V &len, V &off, const char *what) {
        V p = vsimp(p0);
        if (!len.sym && len.c == 0) { return nullptr; }
        uint32_t id = p0.prov;
        if (id) { auto it = s.objs.find(id); if (it == s.objs.end() || it->second.dead) { oblige(s, C(1, 0), std::string("valid-") + what + " (dead object) " + here(s)); return nullptr; } }
        if (!id) {
            u64 a;
            if (!p.sym) a = p.c;
            else {
                if (query(s, ZC->bool_val(true), true, true) != z3::sat) return nullptr;
                a = evalV(p);
            }
            auto it = s.byBase.upper_bound(a);
            if (it != s.byBase.begin()) {
                --it; auto oi = s.objs.find(it->second);
                if (oi != s.objs.end()) { auto &o = oi->second; u64 sz = o.size.sym ? (1ull << 36) : o.size.c; if (a < o.base + sz && !o.dead) id = o.id; }
            }
            if (!id) { oblige(s, C(1, 0), std::string("valid-") + what + " " + here(s)); return nullptr; }
        }
        Obj &o = s.objs[id];
        off = vsimp(vsub(p, C(64, o.base))); off.prov = 0;
        V ok;
        if (!off.sym && !len.sym && !o.size.sym) ok = C(1, off.c <= o.size.c && len.c <= o.size.c - off.c);
        else ok = S((z3::ule(E(len), E(o.size)) && z3::ule(E(off), E(o.size) - E(len))).simplify());
        if (!ok.sym && ok.c) return &o;
        if (!oblige(s, ok, std::string("in-bounds-") + what + " " + here(s))) return nullptr;
        return &s.objs[id];
    }
    // ---------- typed access
    V loadTy(State &s, const V &p, Type *T, bool &dead) {
        if (auto *st = dyn_cast<StructType>(T)) {
            V r; r.agg = std::make_shared<std::vector<V>>(); auto *sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); i++) { V q = vadd(p, C(64, sl->getElementOffset(i))); r.agg->push_back(loadTy(s, q, st->getElementType(i), dead)); if (dead) return r; }
            return r;
        }
        if (T->isArrayTy() || T->isVectorTy()) {
            Type *et = T->isArrayTy() ? T->getArrayElementType() : cast<VectorType>(T)->getElementType();
            u64 n = T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
            u64 es = DL->getTypeAllocSize(et); V r; r.agg = std::make_shared<std::vector<V>>();
            for (u64 i = 0; i < n; i++) { r.agg->push_back(loadTy(s, vadd(p, C(64, i * es)), et, dead)); if (dead) return r; }
            return r;
        }
        unsigned w = tyW(T); unsigned n = (w + 7) / 8; V off;
        Obj *o = resolve(s, p, C(64, n), off, "load");
        if (!o) { dead = true; return V(); }
        V v = readObj(s, *o, off, n);
        if (w != 8 * n) { return vextract(v, 0, w); }
        return v;
    }
    void storeTy(State &s, const V &p, const V &v, Type *T, bool &dead) {
        if (auto *st = dyn_cast<StructType>(T)) {
            auto *sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements() && !dead; i++) storeTy(s, vadd(p, C(64, sl->getElementOffset(i))), (*v.agg)[i], st->getElementType(i), dead);
            return;
        }
        if (T->isArrayTy() || T->isVectorTy()) {
            Type *et = T->isArrayTy() ? T->getArrayElementType() : cast<VectorType>(T)->getElementType();
            u64 n = v.agg->size(), es = DL->getTypeAllocSize(et);
            for (u64 i = 0; i < n && !dead; i++) storeTy(s, vadd(p, C(64, i * es)), (*v.agg)[i], et, dead);
            return;
        }
        unsigned w = tyW(T); unsigned n = (w + 7) / 8; V off;
        Obj *o = resolve(s, p, C(64, n), off, "store");
        if (!o) { dead = true; return; }
        if (o->ro) { if (!oblige(s, C(1, 0), "store to constant " + here(s))) { dead = true; return; } }
        V x = v; if (w != 8 * n) x = vzext(v, 8 * n);
        writeObj(s, *o, off, x);
    }
    unsigned tyW(Type *T) {
        if (T->isPointerTy()) return 64;
        if (T->isIntegerTy()) return T->getIntegerBitWidth();
        if (T->isFloatTy()) return 32;
        if (T->isDoubleTy()) return 64;
        if (T->isX86_FP80Ty()) return 128;
        unsup("type");
    }
    // ---------- constants
    V constV(State &s, const Constant *c) {
        Type *T = c->getType();
        if (auto *ci = dyn_cast<ConstantInt>(c)) {
            if (ci->getBitWidth() <= 64) return C(ci->getBitWidth(), ci->getZExtValue());
            SmallString<40> str; ci->getValue().toString(str, 10, false); V v; v.w = ci->getBitWidth(); v.sym = true; v.e = ZC->bv_val(str.c_str(), v.w); return v;
        }
        if (isa<ConstantPointerNull>(c)) return C(64, 0);
        if (auto *gv = dyn_cast<GlobalVariable>(c)) { Obj &o = global(s, gv); V v = C(64, o.base); v.prov = o.id; return v; }
        if (auto *ga = dyn_cast<GlobalAlias>(c)) return constV(s, ga->getAliasee());
        if (auto *F = dyn_cast<Function>(c)) return C(64, faddr(F));
        if (auto *cf = dyn_cast<ConstantFP>(c)) { auto b = cf->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() <= 64) return C(b.getBitWidth(), b.getZExtValue()); unsup("fp80"); }
        if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
            bool z = isa<ConstantAggregateZero>(c);
            if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
                V r; r.agg = std::make_shared<std::vector<V>>(); unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
                for (unsigned i = 0; i < n; i++) r.agg->push_back(constV(s, c->getAggregateElement(i)));
                return r;
            }
            if (z) return C(tyW(T), 0);
            return freshV(tyW(T), "undef");
        }
        if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantDataSequential>(c) || isa<ConstantVector>(c)) {
            V r; r.agg = std::make_shared<std::vector<V>>(); unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
            for (unsigned i = 0; i < n; i++) r.agg->push_back(constV(s, c->getAggregateElement(i)));
            return r;
        }
        if (auto *ce = dyn_cast<ConstantExpr>(c)) {
            auto op = ce->getOpcode();
            if (op == Instruction::GetElementPtr) return gep(s, cast<GEPOperator>(ce), [&](const Value *v) { return constV(s, cast<Constant>(v)); });
            V a = constV(s, ce->getOperand(0));
            if (ce->isCast()) {
                if (op == Instruction::BitCast || op == Instruction::PtrToInt || op == Instruction::IntToPtr || op == Instruction::AddrSpaceCast) { unsigned w = tyW(T); if (a.w == w) return a; if (a.w > w) return vextract(a, 0, w); return vzext(a, w); }
                if (op == Instruction::Trunc) return vextract(a, 0, tyW(T));
            }
            if (ce->getNumOperands() == 2) { V b = constV(s, ce->getOperand(1)); if (op == Instruction::Add) return vadd(a, b); if (op == Instruction::Sub) return vsub(a, b); }
        }
        unsup("constant");
    }
    u64 faddr(const Function *F) {
        auto it = fnAddr.find(F); if (it != fnAddr.end()) return it->second;
        u64 a = 0x100000 + 16 * fnAddr.size(); fnAddr[F] = a; fnByAddr[a] = const_cast<Function *>(F); return a;
    }
    Obj &global(State &s, const GlobalVariable *gv) {
        auto it = s.globs.find(gv);
        if (it != s.globs.end()) return s.objs[it->second];
        u64 sz = gv->getValueType()->isSized() ? (u64)DL->getTypeAllocSize(gv->getValueType()) : 8;
        bool hasInit = gv->hasInitializer() && !gv->isExternallyInitialized();
        Obj &o = newObj(s, C(64, sz), ("g:" + gv->getName()).str(), 1, hasInit ? zeroBase() : undefBase());
        s.globs[gv] = o.id; o.birth = 0; uint32_t id = o.id;
        if (!hasInit) notes.insert("global without initialiser treated as arbitrary: " + gv->getName().str());
        if (hasInit) {
            bool ro = gv->isConstant();
            bool dead = false;
            initConst(s, s.objs[id], 0, gv->getInitializer(), dead);
            s.objs[id].ro = ro;
        }
        return s.objs[id];
    }
    void initConst(State &s, Obj &o0, u64 off, const Constant *c, bool &dead) {
        uint32_t id = o0.id; Type *T = c->getType();
        if (isa<ConstantAggregateZero>(c) || c->isNullValue()) return;
        if (auto *st = dyn_cast<StructType>(T)) {
            auto *sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); i++) initConst(s, s.objs[id], off + sl->getElementOffset(i), c->getAggregateElement(i), dead);
            return;
        }
        if (T->isArrayTy() || T->isVectorTy()) {
            Type *et = T->isArrayTy() ? T->getArrayElementType() : cast<VectorType>(T)->getElementType();
            u64 n = T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements(); u64 es = DL->getTypeAllocSize(et);
            for (u64 i = 0; i < n; i++) initConst(s, s.objs[id], off + i * es, c->getAggregateElement(i), dead);
            return;
        }
        if (isa<UndefValue>(c)) return;
        V v = constV(s, c); unsigned n = (v.w + 7) / 8; if (v.w != 8 * n) v = vzext(v, 8 * n);
        Obj &o = s.objs[id]; auto p = std::make_shared<const V>(v); Content &ct = wr(o);
        for (unsigned i = 0; i < n; i++) ct.cells.m[off + i] = Byte{p, (uint8_t)i};
    }
    template <class F> V gep(State &s, const GEPOperator *g, F val) {
        V p = val(g->getPointerOperand());
        if (p.agg) unsup("vector gep");
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
            V i = val(gi.getOperand());
            if (auto *st = gi.getStructTypeOrNull()) { p = vadd(p, C(64, DL->getStructLayout(st)->getElementOffset(i.c))); continue; }
            u64 es = DL->getTypeAllocSize(gi.getIndexedType());
            if (i.w < 64) i = vsext(i, 64); else if (i.w > 64) i = vextract(i, 0, 64);
            uint32_t pr = p.prov; i.prov = 0;
            V d = vmul(i, C(64, es)); d.prov = 0;
            p = vadd(p, d); p.prov = pr;
        }
        return p;
    }
    V val(State &s, const Value *v) {
        if (auto *c = dyn_cast<Constant>(v)) return constV(s, c);
        Frame &f = s.st.back(); auto it = f.fi->num.find(v);
        if (it == f.fi->num.end()) unsup("operand");
        return f.regs[it->second];
    }
    void setR(State &s, const Value *v, const V &x) { Frame &f = s.st.back(); f.regs[f.fi->num[v]] = x; }

    // ---------- control
    // transfer to block `to`; returns false when the path ends here
    bool jump(State &s, BasicBlock *to) {
        Frame &f = s.st.back();
        BasicBlock *from = f.bb;
        // loop cuts that are left by this edge
        while (!f.cuts.empty()) {
            LoopCut &c = f.cuts.back(); Loop *L = f.fi->LI->getLoopFor(c.header);
            while (L && L->getHeader() != c.header) L = L->getParentLoop();
            if (L->contains(to)) break;
            if (c.ph == LoopCut::REEXEC) { killed++; return false; } // covered by the exit after the check phase / entry path
            f.cuts.pop_back();
        }
        // phis
        std::vector<std::pair<PHINode *, V>> pv;
        for (auto &I : *to) { auto *phi = dyn_cast<PHINode>(&I); if (!phi) break; pv.push_back({phi, val(s, phi->getIncomingValueForBlock(from))}); }
        for (auto &p : pv) setR(s, p.first, p.second);
        f.prev = from; f.bb = to; f.it = to->getFirstNonPHIIt();
        if (++f.visits[to] > maxVisits) throw Unsupported{"loop unfolded more than " + std::to_string(maxVisits) + " times at " + here(s)};
        if (f.fi->cutHeaders.count(to)) {
            if (!f.cuts.empty() && f.cuts.back().header == to) {
                LoopCut &c = f.cuts.back();
                if (c.ph == LoopCut::BODY) {
                    for (auto &p : pv) { auto it = c.phiProv.find(p.first); if (it != c.phiProv.end() && p.second.prov != it->second && !(!p.second.sym && p.second.c == 0)) unsup("pointer changes object across loop iterations at " + here(s)); }
                    c.ph = LoopCut::CHECK;
                } else if (c.ph == LoopCut::CHECK) { unsup("cycle that avoids the invariant at " + here(s)); }
                else if (c.ph == LoopCut::REEXEC) { killed++; return false; }
                else unsup("cycle before the invariant at " + here(s));
            } else {
                LoopCut c; c.header = to; c.ph = LoopCut::ENTRY;
                c.key = std::to_string(s.st.size()) + ":" + f.fi->F->getName().str() + ":" + std::to_string(blockNo(f.fi->F, to));
                c.snap = std::make_shared<State>(s);
                f.cuts.push_back(c);
            }
        }
        return true;
    }
    unsigned blockNo(Function *F, BasicBlock *b) { unsigned i = 0; for (auto &x : *F) { if (&x == b) return i; i++; } return i; }
    // at a v_inv call. returns false when the path ends
    // an invariant that defines a value of the arbitrary iteration by the others: the definition is also put in its place
    // (the equation stays a hypothesis, so this changes only the form of the terms)
    static bool occurs(const z3::expr &x, const z3::expr &in, int depth = 0) { if (z3::eq(x, in)) return true; if (depth > 40) return true; if (in.is_app()) for (unsigned i = 0; i < in.num_args(); i++) if (occurs(x, in.arg(i), depth + 1)) return true; return false; }
    static void defines(const z3::expr &x, z3::expr_vector &from, z3::expr_vector &to) {
        if (!x.is_app() || x.decl().decl_kind() != Z3_OP_EQ || !x.arg(0).is_bv()) return;
        for (int side = 0; side < 2; side++) {
            z3::expr v = x.arg(side), t = x.arg(1 - side);
            if (!v.is_app() || v.num_args() || v.is_numeral()) continue;
            std::string n = v.decl().name().str(); if (n.compare(0, 3, "it_") && n.compare(0, 3, "lp_")) continue;
            z3::expr u = from.size() ? t.substitute(from, to) : t; if (occurs(v, u)) continue;
            bool dup = false; for (unsigned i = 0; i < from.size(); i++) if (z3::eq(from[i], v)) dup = true; if (dup) continue;
            z3::expr_vector f1(*ZC), t1(*ZC); f1.push_back(v); t1.push_back(u);
            for (unsigned i = 0; i < to.size(); i++) { z3::expr q = to[i]; q = q.substitute(f1, t1); to.set(i, q); }
            from.push_back(v); to.push_back(u); return;
        }
    }
    void substituteState(State &s, z3::expr_vector &from, z3::expr_vector &to) {
        auto sub = [&](V &v) { if (!v.sym || v.agg) return; z3::expr e = v.e; z3::expr r = e.substitute(from, to); if (!z3::eq(e, r)) { r = r.simplify(); V n = S(r); n.prov = v.prov; if (n.w == v.w) v = n; } };
        for (auto &f : s.st) for (auto &v : f.regs) { if (v.agg) continue; sub(v); }
        for (auto &kv : s.objs) { Obj &o = kv.second; bool any = false; for (auto &b : o.ct->cells.m) if (b.second.src && b.second.src->sym) { any = true; break; } if (!any) continue;
            std::map<std::shared_ptr<const V>, std::shared_ptr<const V>> seen; Content &ct = wr(o); for (auto &b : ct.cells.m) { if (!b.second.src || !b.second.src->sym) continue; auto &n = seen[b.second.src]; if (!n) { V v = *b.second.src; sub(v); n = std::make_shared<const V>(v); } b.second.src = n; } }
    }
    bool invariant(State &s, const V &cond) {
        Frame &f = s.st.back(); std::string h = here(s);
        if (f.cuts.empty()) { return oblige(s, cond, "invariant(no loop) " + h); }
        LoopCut &c = f.cuts.back();
        invSites.insert(h);
        if (c.ph == LoopCut::ENTRY) {
            oblige(s, cond, "invariant-initially " + h);
            // arbitrary iteration
            State n = *c.snap; Frame &g = n.st.back(); LoopCut k; k.header = c.header; k.key = c.key; k.ph = LoopCut::REEXEC; k.snap = c.snap;
            k.birthMark = n.births;
            for (auto &I : *c.header) {
                auto *phi = dyn_cast<PHINode>(&I); if (!phi) break;
                V o = g.regs[g.fi->num[phi]];
                if (o.agg) unsup("aggregate phi");
                V x = freshV(tyW(phi->getType()), "it_" + phi->getName().str()); x.prov = o.prov;
                if (phi->getType()->isPointerTy()) k.phiProv[phi] = o.prov;
                g.regs[g.fi->num[phi]] = x;
            }
            ModSet &m = mods[c.key];
            for (auto &kv : n.objs) {
                Obj &o = kv.second;
                if (m.whole.count(o.key)) { trackOuter(n, o, V(), true); Content &ct = wr(o); ct.cells = Cells(); ct.chain = arrayBase("lp_" + o.name, o.W); }
                else { auto it = m.parts.find(o.key); if (it != m.parts.end()) for (auto &p : it->second) havocRange(n, o, p.first, p.second - p.first); }
            }
            g.cuts.push_back(k);
            work.push_back(std::move(n));
            return false;
        }
        if (c.ph == LoopCut::REEXEC) {
            V k = vsimp(cond);
            if (k.sym) {
                if (!feasible(s, k.e)) return false;
                std::vector<z3::expr> cs; conjuncts(cond.sym ? cond.e : k.e, cs);
                z3::expr_vector from(*ZC), to(*ZC);
                for (auto &x0 : cs) { z3::expr x = x0.simplify(); s.pc.push_back(x); defines(x, from, to); }
                if (from.size()) substituteState(s, from, to);
            } else if (!k.c) return false;
            c.ph = LoopCut::BODY; c.birthMark = s.births;
            if (c.pend) { c.variant = c.pendVariant; c.hasVariant = true; c.pend = false; }
            covers["loop body " + h]++;
            return true;
        }
        if (c.ph == LoopCut::CHECK) {
            oblige(s, cond, "invariant-preserved " + h);
            if (c.hasVariant && c.pend) oblige(s, vult(c.pendVariant, c.variant), "loop-terminates " + h);
            return false;
        }
        unsup("invariant twice on one path at " + h);
    }
    void trackOuter(State &s, Obj &o, const V &off, bool whole) {
        // havocking inside an outer cut loop is a write there
        V w = freshV(64, "w");
        if (whole) track(s, o, w, C(64, 1)); 
    }
    void havocRange(State &s, Obj &o, u64 off, u64 len) {
        track(s, o, C(64, off), C(64, len));
        Content &c = wr(o);
        // keep value granularity where cells hold whole values
        for (u64 i = off; i < off + len;) {
            auto it = c.cells.m.find(i); unsigned n = 1; uint32_t prov = 0;
            if (it != c.cells.m.end() && it->second.idx == 0) { unsigned vn = it->second.src->w / 8; if (i + vn <= off + len) { n = vn; prov = it->second.src->prov; } }
            else if (len == 2 || len == 4 || len == 8) n = len - (i - off);
            V v = freshV(8 * n, "lp_" + o.name); v.prov = prov; auto p = std::make_shared<const V>(v);
            for (unsigned k = 0; k < n; k++) c.cells.m[i + k] = Byte{p, (uint8_t)k};
            i += n;
        }
    }
    void doReturn(State &s, const V *rv, bool &ended) {
        Frame f = std::move(s.st.back()); s.st.pop_back();
        for (auto &c : f.cuts) if (c.ph == LoopCut::REEXEC) { killed++; ended = true; return; }
        for (auto a : f.allocas) { auto it = s.objs.find(a); if (it != s.objs.end()) { s.byBase.erase(it->second.base); s.objs.erase(it); } }
        s.inRepl.erase(f.fi->F);
        if (s.st.empty()) { paths++; ended = true; return; }
        if (f.site) {
            if (rv && !f.site->getType()->isVoidTy()) setR(s, f.site, *rv);
            advanceCall(s, f.site, ended);
        }
    }
    void advanceCall(State &s, CallBase *cb, bool &ended) {
        Frame &f = s.st.back();
        if (auto *inv = dyn_cast<InvokeInst>(cb)) { if (!jump(s, inv->getNormalDest())) ended = true; }
        else ++f.it;
    }
    void throwEvent(State &s, const std::string &what) {
        throwsSeen++;
        oblige(s, s.throwOK, "no-exception(" + what + ") " + here(s));
    }
    std::string strArg(State &s, const V &p) {
        std::string r; V off; Obj *o = resolve(s, p, C(64, 1), off, "string"); if (!o || off.sym) return "?";
        for (u64 i = off.c;; i++) { V b = readObj(s, *o, C(64, i), 1); if (b.sym || !b.c) break; r += (char)b.c; if (r.size() > 300) break; }
        return r;
    }
    void pushCall(State &s, Function *F, const std::vector<V> &args, CallBase *site) {
        if (s.st.size() > 400) unsup("recursion too deep");
        FnInfo *fi = info(F); Frame f; f.fi = fi; f.regs.resize(fi->n); f.bb = &F->getEntryBlock(); f.it = f.bb->getFirstNonPHIIt(); f.site = site;
        unsigned i = 0; for (auto &a : F->args()) { if (i < args.size()) f.regs[fi->num[&a]] = args[i]; i++; }
        s.st.push_back(std::move(f));
        if (dem(F).compare(0, 3, "db0") == 0) callees.insert(shortName(dem(F)));
    }
    bool fork(State &s, const V &c, std::function<void(State &, bool)> k) {
        // continues both ways (the false side pushed on the work list); returns false if s must stop
        V x = vsimp(c);
        if (!x.sym) { k(s, x.c); return true; }
        bool t = feasible(s, x.e), e = feasible(s, !x.e);
        if (!t && !e) return false;
        if (t && e) {
            State n = s; n.pc.push_back(!x.e); n.depth++; k(n, false); work.push_back(std::move(n));
            s.pc.push_back(x.e); k(s, true); return true;
        }
        k(s, t); return true;
    }
    V binop(State &s, unsigned op, const V &a, const V &b, bool &dead) {
        if (a.agg) { V r; r.agg = std::make_shared<std::vector<V>>(); for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(binop(s, op, (*a.agg)[i], (*b.agg)[i], dead)); return r; }
        unsigned w = a.w; bool conc = !a.sym && !b.sym && w <= 64;
        if (w == 1) {
            switch (op) {
            case Instruction::And: return vand(a, b);
            case Instruction::Or: if (!a.sym) return a.c ? a : b; if (!b.sym) return b.c ? b : a; return S(a.e || b.e);
            case Instruction::Xor: case Instruction::Add: case Instruction::Sub: if (conc) return C(1, a.c ^ b.c); if (!b.sym) return b.c ? vnot(a) : a; if (!a.sym) return a.c ? vnot(b) : b; return S(E(a) != E(b));
            case Instruction::Mul: return vand(a, b);
            }
        }
        switch (op) {
        case Instruction::Add: return vadd(a, b);
        case Instruction::Sub: return vsub(a, b);
        case Instruction::Mul: return vmul(a, b);
        case Instruction::And: {
            if (conc) return C(w, a.c & b.c);
            V r; if ((!a.sym && !a.c) || (!b.sym && !b.c)) return C(w, 0);
            if (!a.sym && w <= 64 && a.c == mask(w)) return b; if (!b.sym && w <= 64 && b.c == mask(w)) return a;
            { V x, y; if (boolish(a, x) && boolish(b, y)) return vzext(S(E(x) && E(y)), w); }
            r = S(E(a) & E(b)); r.prov = a.prov && !b.prov ? a.prov : (b.prov && !a.prov ? b.prov : 0); return r; }
        case Instruction::Or: if (conc) return C(w, a.c | b.c); { V x, y; if (boolish(a, x) && boolish(b, y)) return vzext(S(E(x) || E(y)), w); } if (!a.sym && !a.c) return b; if (!b.sym && !b.c) return a; return S(E(a) | E(b));
        case Instruction::Xor: if (conc) return C(w, a.c ^ b.c); { V x, y; if (boolish(a, x) && boolish(b, y)) return vzext(S(E(x) != E(y)), w); } if (!a.sym && !a.c) return b; if (!b.sym && !b.c) return a; return S(E(a) ^ E(b));
        case Instruction::Shl: if (conc) return C(w, b.c >= w ? 0 : a.c << b.c); if (!b.sym && !b.c) return a; return S(z3::shl(E(a), E(b)));
        case Instruction::LShr: if (conc) return C(w, b.c >= w ? 0 : a.c >> b.c); if (!b.sym && !b.c) return a; return S(z3::lshr(E(a), E(b)));
        case Instruction::AShr: if (conc) return C(w, b.c >= w ? (sx(a.c, w) < 0 ? ~0ull : 0) : (u64)(sx(a.c, w) >> b.c)); if (!b.sym && !b.c) return a; return S(z3::ashr(E(a), E(b)));
        case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
            V nz = vnot(veq(b, C(w, 0)));
            if (!nz.sym && nz.c) {} else if (!oblige(s, nz, "division-by-zero " + here(s))) { dead = true; return C(w, 0); }
            if (conc) {
                if (op == Instruction::UDiv) return C(w, a.c / b.c); if (op == Instruction::URem) return C(w, a.c % b.c);
                int64_t x = sx(a.c, w), y = sx(b.c, w); if (y == -1) return op == Instruction::SDiv ? C(w, (u64)0 - (u64)x) : C(w, 0);
                return op == Instruction::SDiv ? C(w, (u64)(x / y)) : C(w, (u64)(x % y));
            }
            if (!b.sym && w <= 64 && (b.c & (b.c - 1)) == 0 && op == Instruction::UDiv) return S(z3::lshr(E(a), ZC->bv_val((uint64_t)__builtin_ctzll(b.c), w)));
            if (!b.sym && w <= 64 && (b.c & (b.c - 1)) == 0 && op == Instruction::URem) return S(E(a) & ZC->bv_val((uint64_t)(b.c - 1), w));
            if (op == Instruction::UDiv || op == Instruction::URem) {
                // exact quotient: (K * d) / d = K when the product does not wrap
                z3::expr x = E(a).simplify(), d = E(b).simplify();
                if (x.is_app() && x.decl().decl_kind() == Z3_OP_BMUL) {
                    for (unsigned i = 0; i < x.num_args(); i++) if (z3::eq(x.arg(i), d)) {
                        z3::expr k = ZC->bv_val(1, w); for (unsigned j = 0; j < x.num_args(); j++) if (j != i) k = k * x.arg(j);
                        if (x.num_args() == 2 && mustBe(s, S(z3::bvmul_no_overflow(k, d, false)))) return op == Instruction::UDiv ? vsimp(S(k)) : C(w, 0);
                        break;
                    }
                }
            }
            if (op == Instruction::UDiv || op == Instruction::URem) {
                // a quotient whose value was proved before (a lemma of the harness) is replaced by that value
                z3::expr q = (op == Instruction::UDiv ? z3::udiv(E(a), E(b)) : z3::urem(E(a), E(b))).simplify();
                for (size_t i = s.pc.size(); i-- > 0;) { const z3::expr &e = s.pc[i]; if (e.is_app() && e.decl().decl_kind() == Z3_OP_EQ && e.num_args() == 2) { if (z3::eq(e.arg(0), q)) return vsimp(S(e.arg(1))); if (z3::eq(e.arg(1), q)) return vsimp(S(e.arg(0))); } }
                return S(q);
            }
            if (op == Instruction::SDiv && w == 64 && !b.sym && b.c > 1 && b.c < (1ull << 32) && (b.c & (b.c - 1)) == 0) { // (2^k * q) / 2^k = q when the product does not wrap
                unsigned k = __builtin_ctzll(b.c); z3::expr q = ZC->bv_val(0, 64); int64_t lim = 1ll << (63 - k);
                if (linQ(E(a).simplify(), k, q)) { q = q.simplify(); if (mustBe(s, S(q >= ZC->bv_val((int64_t)-lim, 64) && q < ZC->bv_val(lim, 64)))) return S(q); }
            }
            if (op == Instruction::SDiv) return S(E(a) / E(b));
            return S(z3::srem(E(a), E(b)));
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
            if (!conc) unsup("symbolic floating point");
            if (w == 64) { double x, y, r; memcpy(&x, &a.c, 8); memcpy(&y, &b.c, 8); r = op == Instruction::FAdd ? x + y : op == Instruction::FSub ? x - y : op == Instruction::FMul ? x * y : x / y; u64 u; memcpy(&u, &r, 8); return C(64, u); }
            if (w == 32) { float x, y, r; uint32_t xa = a.c, xb = b.c; memcpy(&x, &xa, 4); memcpy(&y, &xb, 4); r = op == Instruction::FAdd ? x + y : op == Instruction::FSub ? x - y : op == Instruction::FMul ? x * y : x / y; uint32_t u; memcpy(&u, &r, 4); return C(32, u); }
            unsup("fp");
        }
        }
        unsup("binop");
    }
    V icmp(CmpInst::Predicate p, const V &a, const V &b) {
        if (a.agg) { V r; r.agg = std::make_shared<std::vector<V>>(); for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(icmp(p, (*a.agg)[i], (*b.agg)[i])); return r; }
        unsigned w = a.w; bool conc = !a.sym && !b.sym;
        if (w == 1) { V x = S(B2(a)), y = S(B2(b)); if (p == CmpInst::ICMP_EQ) return conc ? C(1, a.c == b.c) : S(E(a) == E(b)); if (p == CmpInst::ICMP_NE) return conc ? C(1, a.c != b.c) : S(E(a) != E(b)); return icmp(p, vzext(a, 8), vzext(b, 8)); }
        int64_t x = conc ? sx(a.c, w) : 0, y = conc ? sx(b.c, w) : 0;
        switch (p) {
        case CmpInst::ICMP_EQ: return veq(a, b);
        case CmpInst::ICMP_NE: return vnot(veq(a, b));
        case CmpInst::ICMP_ULT: return vult(a, b);
        case CmpInst::ICMP_ULE: return vule(a, b);
        case CmpInst::ICMP_UGT: return vult(b, a);
        case CmpInst::ICMP_UGE: return vule(b, a);
        case CmpInst::ICMP_SLT: return conc ? C(1, x < y) : S(E(a) < E(b));
        case CmpInst::ICMP_SLE: return conc ? C(1, x <= y) : S(E(a) <= E(b));
        case CmpInst::ICMP_SGT: return conc ? C(1, x > y) : S(E(a) > E(b));
        case CmpInst::ICMP_SGE: return conc ? C(1, x >= y) : S(E(a) >= E(b));
        default: unsup("icmp");
        }
    }
    V ctpop(const V &a) {
        if (!a.sym) return C(a.w, __builtin_popcountll(a.c));
        unsigned w = a.w; z3::expr r = ZC->bv_val(0, w);
        for (unsigned i = 0; i < w; i++) r = r + z3::zext(a.e.extract(i, i), w - 1);
        return S(r);
    }
    V cttz(const V &a) {
        if (!a.sym) return C(a.w, a.c ? __builtin_ctzll(a.c) : a.w);
        z3::expr r = ZC->bv_val(a.w, a.w);
        for (int i = (int)a.w - 1; i >= 0; i--) r = z3::ite(a.e.extract(i, i) == ZC->bv_val(1, 1), ZC->bv_val((unsigned)i, a.w), r);
        return S(r);
    }
    V ctlz(const V &a) {
        unsigned w = a.w;
        if (!a.sym) return C(w, a.c ? __builtin_clzll(a.c) - (64 - w) : w);
        z3::expr r = ZC->bv_val(w, w);
        for (unsigned i = 0; i < w; i++) r = z3::ite(a.e.extract(i, i) == ZC->bv_val(1, 1), ZC->bv_val(w - 1 - i, w), r);
        return S(r);
    }
    void copyMem(State &s, const V &d, const V &sp, const V &n0, bool &dead) {
        V n = vsimp(n0);
        if (!n.sym && n.c == 0) return;
        if (n.sym) {
            // a zero-length copy may have wild pointers: split
            V z = veq(n, C(64, 0));
            if (feasible(s, z.e)) { if (!feasible(s, !z.e)) return; 
                // model: pointers must be in bounds anyway when length is zero and provenance known (end pointers are fine)
            }
        }
        V so, dof; Obj *so_ = resolve(s, sp, n, so, "memcpy-src"); if (!so_) { dead = true; return; } uint32_t sid = so_->id;
        Obj *do_ = resolve(s, d, n, dof, "memcpy-dst"); if (!do_) { dead = true; return; }
        Obj &o = *do_; Obj &src = s.objs[sid];
        if (!n.sym && n.c <= 4096 && !so.sym && !dof.sym) {
            std::vector<Byte> b;
            for (u64 i = 0; i < n.c;) {
                auto &m = src.ct->cells.m; auto it = m.find(so.c + i);
                if (it != m.end()) { b.push_back(it->second); i++; continue; }
                unsigned k = 1; if (n.c - i >= 8 && (so.c + i) % 8 == 0) { bool any = false; for (unsigned q = 0; q < 8; q++) if (m.count(so.c + i + q)) any = true; if (!any) k = 8; }
                V v = readObj(s, src, C(64, so.c + i), k); auto p = std::make_shared<const V>(v);
                for (unsigned q = 0; q < k; q++) b.push_back(Byte{p, (uint8_t)q});
                i += k;
            }
            track(s, o, dof, n);
            Content &c = wr(o);
            for (u64 i = 0; i < n.c; i++) c.cells.m[dof.c + i] = b[i];
            return;
        }
        if (!n.sym && n.c <= 16 && (n.c & (n.c - 1)) == 0) { V v = readObj(s, src, so, n.c); writeObj(s, s.objs[o.id], dof, v); return; }
        Content &sc = wr(src); materialise(sc, src); NodeP sn = freeze(sc);
        track(s, o, dof, n);
        Content &c = wr(o); materialise(c, o);
        auto nd = std::make_shared<Node>(); nd->k = Node::COPY; nd->off = dof; nd->len = n; nd->src = sn; nd->soff = so; nd->next = freeze(c); c.chain = nd;
    }
    void setMem(State &s, const V &d, const V &b, const V &n0, bool &dead) {
        V n = vsimp(n0); if (!n.sym && n.c == 0) return;
        V dof; Obj *o = resolve(s, d, n, dof, "memset"); if (!o) { dead = true; return; }
        track(s, *o, dof, n);
        Content &c = wr(*o);
        if (!n.sym && !dof.sym && n.c <= 65536) { 
            auto p = std::make_shared<const V>(b.sym ? b : C(64, (b.c & 255) * 0x0101010101010101ull)); u64 i = 0;
            if (!b.sym) for (; i < n.c; i++) c.cells.m[dof.c + i] = Byte{p, (uint8_t)(i % 8)}; else for (; i < n.c; i++) c.cells.m[dof.c + i] = Byte{p, 0};
            return; }
        materialise(c, *o);
        auto nd = std::make_shared<Node>(); nd->k = Node::SET; nd->off = dof; nd->len = n; nd->val = b; nd->next = freeze(c); c.chain = nd;
    }
    bool isThrowFn(const std::string &m, const std::string &d) {
        if (m == "__cxa_throw" || m == "__cxa_allocate_exception" || m == "__cxa_rethrow") return true;
        if (m.compare(0, 14, "_ZN3db07ThrowI") == 0) return true;
        if (d.compare(0, 11, "std::__throw") == 0) return true;
        if (m.find("Exception") != std::string::npos && d.compare(0, 5, "db0::") == 0) { auto sn = shortName(d); auto p = sn.rfind("::"); if (p != std::string::npos && sn.size() > 11) { std::string last = sn.substr(p + 2); if (last.size() > 9 && last.compare(last.size() - 9, 9, "Exception") == 0 && last[0] != '~') return true; } }
        return false;
    }
    // returns true when handled
    void call(State &s, CallBase *cb, bool &ended) {
        Function *F = cb->getCalledFunction();
        if (!F) {
            Value *cv = cb->getCalledOperand()->stripPointerCasts();
            if (isa<InlineAsm>(cv)) { if (!cb->getType()->isVoidTy()) unsup("inline asm"); advanceCall(s, cb, ended); return; }
            if (auto *cf = dyn_cast<Function>(cv)) F = cf;
            else if (auto *ga = dyn_cast<GlobalAlias>(cv)) F = dyn_cast<Function>(ga->getAliasee());
            else {
                V t = vsimp(val(s, cv)); if (t.sym) unsup("symbolic call target at " + here(s));
                auto it = fnByAddr.find(t.c);
                if (it == fnByAddr.end()) { oblige(s, C(1, 0), "valid-call-target " + here(s)); ended = true; return; }
                F = it->second;
            }
        }
        if (!F) unsup("call target");
        StringRef nm = F->getName();
        auto arg = [&](unsigned i) { return val(s, cb->getArgOperand(i)); };
        auto done = [&]() { advanceCall(s, cb, ended); };
        bool dead = false;
        if (F->isIntrinsic()) {
            auto id = F->getIntrinsicID();
            switch (id) {
            case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::stackrestore: done(); return;
            case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: setR(s, cb, arg(0)); done(); return;
            case Intrinsic::stacksave: setR(s, cb, C(64, 0)); done(); return;
            case Intrinsic::is_constant: setR(s, cb, C(1, 0)); done(); return;
            case Intrinsic::objectsize: setR(s, cb, C(tyW(cb->getType()), ~0ull)); done(); return;
            case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { V n = arg(2); n.prov = 0; copyMem(s, arg(0), arg(1), n.w < 64 ? vzext(n, 64) : n, dead); if (dead) { ended = true; return; } done(); return; }
            case Intrinsic::memset: { V n = arg(2); n.prov = 0; setMem(s, arg(0), arg(1), n.w < 64 ? vzext(n, 64) : n, dead); if (dead) { ended = true; return; } done(); return; }
            case Intrinsic::umin: { V a = arg(0), b = arg(1); setR(s, cb, vite(vult(a, b), a, b)); done(); return; }
            case Intrinsic::umax: { V a = arg(0), b = arg(1); setR(s, cb, vite(vult(a, b), b, a)); done(); return; }
            case Intrinsic::smin: { V a = arg(0), b = arg(1); setR(s, cb, vite(icmp(CmpInst::ICMP_SLT, a, b), a, b)); done(); return; }
            case Intrinsic::smax: { V a = arg(0), b = arg(1); setR(s, cb, vite(icmp(CmpInst::ICMP_SLT, a, b), b, a)); done(); return; }
            case Intrinsic::abs: { V a = arg(0); setR(s, cb, vite(icmp(CmpInst::ICMP_SLT, a, C(a.w, 0)), vsub(C(a.w, 0), a), a)); done(); return; }
            case Intrinsic::ctpop: setR(s, cb, ctpop(arg(0))); done(); return;
            case Intrinsic::cttz: setR(s, cb, cttz(arg(0))); done(); return;
            case Intrinsic::ctlz: setR(s, cb, ctlz(arg(0))); done(); return;
            case Intrinsic::bswap: { V a = arg(0); std::vector<V> b; for (unsigned i = 0; i < a.w / 8; i++) b.insert(b.begin(), vextract(a, 8 * i, 8)); setR(s, cb, concatBytes(b)); done(); return; }
            case Intrinsic::fshl: case Intrinsic::fshr: { V a = arg(0), b = arg(1), c = arg(2); unsigned w = a.w; if (c.sym) unsup("fshl"); u64 k = c.c % w; if (k == 0) setR(s, cb, id == Intrinsic::fshl ? a : b); else { if (id == Intrinsic::fshr) k = w - k; V x = binop(s, Instruction::Shl, a, C(w, k), dead), y = binop(s, Instruction::LShr, b, C(w, w - k), dead); setR(s, cb, binop(s, Instruction::Or, x, y, dead)); } done(); return; }
            case Intrinsic::uadd_sat: { V a = arg(0), b = arg(1); V r = vadd(a, b); setR(s, cb, vite(vult(r, a), C(a.w, ~0ull), r)); done(); return; }
            case Intrinsic::usub_sat: { V a = arg(0), b = arg(1); setR(s, cb, vite(vult(a, b), C(a.w, 0), vsub(a, b))); done(); return; }
            case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
                V a = arg(0), b = arg(1), r, o; unsigned w = a.w;
                if (id == Intrinsic::uadd_with_overflow) { r = vadd(a, b); o = vult(r, a); }
                else if (id == Intrinsic::usub_with_overflow) { r = vsub(a, b); o = vult(a, b); }
                else if (id == Intrinsic::sadd_with_overflow) { r = vadd(a, b); V x = vadd(vsext(a, w + 1), vsext(b, w + 1)); o = w < 64 && !x.sym ? C(1, sx(x.c, w + 1) != sx(r.c, w)) : S(E(x) != E(vsext(r, w + 1))); o = vsimp(o); }
                else if (id == Intrinsic::ssub_with_overflow) { r = vsub(a, b); V x = vsub(vsext(a, w + 1), vsext(b, w + 1)); o = w < 64 && !x.sym ? C(1, sx(x.c, w + 1) != sx(r.c, w)) : S(E(x) != E(vsext(r, w + 1))); o = vsimp(o); }
                else { r = vmul(a, b); bool sg = id == Intrinsic::smul_with_overflow; z3::expr x = sg ? z3::sext(E(a), w) * z3::sext(E(b), w) : z3::zext(E(a), w) * z3::zext(E(b), w); z3::expr y = sg ? z3::sext(E(r), w) : z3::zext(E(r), w); o = S((x != y).simplify()); }
                r.prov = 0;
                V ag; ag.agg = std::make_shared<std::vector<V>>(std::vector<V>{r, o}); setR(s, cb, ag); done(); return; }
            case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: { ubSites.insert(here(s)); oblige(s, C(1, 0), "no-undefined-behaviour " + here(s)); ended = true; return; }
            case Intrinsic::eh_typeid_for: setR(s, cb, C(32, 1)); done(); return;
            case Intrinsic::experimental_constrained_fadd: default: break;
            }
            unsup("intrinsic " + nm.str());
        }
        // ---- verification primitives
        if (nm.starts_with("v_")) {
            if (nm == "v_assume") { V c = vsimp(vnot(veq(arg(0), C(arg(0).w, 0)))); if (c.sym) { if (!feasible(s, c.e)) { ended = true; return; } s.pc.push_back(c.e); } else if (!c.c) { ended = true; return; } done(); return; }
            if (nm == "v_assert") { V a = arg(0); if (!oblige(s, vnot(veq(a, C(a.w, 0))), "post: " + strArg(s, arg(1)))) { ended = true; return; } done(); return; }
            if (nm == "v_require") { V a = arg(0); if (!oblige(s, vnot(veq(a, C(a.w, 0))), "pre at call: " + strArg(s, arg(1)) + " " + (s.st.size() > 1 ? shortName(dem(s.st[s.st.size() - 2].fi->F)) : ""))) { ended = true; return; } done(); return; }
            if (nm == "v_inv") { V a = arg(0); if (!invariant(s, vnot(veq(a, C(a.w, 0))))) { ended = true; return; } done(); return; }
            if (nm == "v_variant") { Frame &f = s.st.back(); if (!f.cuts.empty()) { f.cuts.back().pendVariant = arg(0); f.cuts.back().pend = true; } done(); return; }
            if (nm == "v_cover") { covers[strArg(s, arg(0))]++; done(); return; }
            if (nm == "v_throws") { V a = arg(0); s.throwOK = vnot(veq(a, C(a.w, 0))); done(); return; }
            if (nm == "v_in8" || nm == "v_in16" || nm == "v_in32" || nm == "v_in64" || nm == "v_inbool") {
                unsigned w = nm == "v_in8" ? 8 : nm == "v_in16" ? 16 : nm == "v_in32" ? 32 : nm == "v_in64" ? 64 : 1; std::string n = strArg(s, arg(0));
                V v = freshV(w, n); Input in; in.name = n; in.v = v; s.inputs.push_back(in); setR(s, cb, w == 1 && cb->getType()->isIntegerTy(8) ? vzext(v, 8) : v); done(); return; }
            if (nm == "v_fresh64") { setR(s, cb, freshV(64, "havoc")); done(); return; }
            if (nm == "v_buf") { // name, size, elem
                std::string n = strArg(s, arg(0)); V sz = vsimp(arg(1)); unsigned W = arg(2).c; NodeP b = arrayBase(n, W);
                Obj &o = newObj(s, sz, n, W, b); Input in; in.name = n; in.base = b; in.size = sz; in.W = W; s.inputs.push_back(in);
                V v = C(64, o.base); v.prov = o.id; setR(s, cb, v); done(); return; }
            if (nm == "v_havoc") { V n = vsimp(arg(1)); if (n.sym) unsup("v_havoc with symbolic size"); V off; Obj *o = resolve(s, arg(0), n, off, "havoc"); if (!o || off.sym) { if (!o) { ended = true; return; } unsup("v_havoc"); } havocRange(s, *o, off.c, n.c); done(); return; }
            if (nm == "v_havoc_obj") { V off; Obj *o = resolve(s, arg(0), C(64, 1), off, "havoc"); if (!o) { ended = true; return; } track(s, *o, freshV(64, "w"), C(64, 1)); Content &ct = wr(*o); ct.cells = Cells(); ct.chain = arrayBase("hv_" + o->name, o->W); done(); return; }
            if (nm == "v_case") { // exhaustive case split on the value
                V a = vsimp(arg(0)); u64 lim = arg(1).c;
                if (!a.sym) { setR(s, cb, a); done(); return; }
                std::vector<u64> vals; State t = s; z3::expr block = ZC->bool_val(true);
                for (;;) {
                    auto r = query(s, block, true, true); if (r == z3::unsat) break; if (r == z3::unknown) unsup("v_case unknown");
                    u64 x = evalV(a); vals.push_back(x); if (vals.size() > lim) unsup("v_case: more than " + std::to_string(lim) + " values at " + here(s));
                    block = block && E(a) != ZC->bv_val((uint64_t)x, a.w);
                }
                if (vals.empty()) { ended = true; return; }
                for (size_t i = 0; i < vals.size(); i++) {
                    State n = i + 1 < vals.size() ? t : s; n.pc.push_back((E(a) == ZC->bv_val((uint64_t)vals[i], a.w)));
                    bool e2 = false; { State &q = n; q.st.back().regs[q.st.back().fi->num[cb]] = C(a.w, vals[i]); advanceCall(q, cb, e2); }
                    if (i + 1 < vals.size()) { if (!e2) work.push_back(std::move(n)); } else { s = std::move(n); if (e2) ended = true; }
                }
                return; }
            if (nm == "v_replace") { std::string pat = strArg(s, arg(0)); V t = arg(1); auto it = fnByAddr.find(t.c); if (it == fnByAddr.end()) unsup("v_replace"); s.repl[pat] = it->second; done(); return; }
            if (nm == "v_bounded") { bounded = true; boundNote = strArg(s, arg(0)); done(); return; }
            if (nm == "v_note") { notes.insert(strArg(s, arg(0))); done(); return; }
            if (nm == "v_maxpaths") { maxPaths = arg(0).c; done(); return; }
            if (nm == "v_symbolic_mode") { setR(s, cb, C(32, 1)); done(); return; }
            if (nm == "v_uf") { // uninterpreted function name(a,b)
                std::string n = strArg(s, arg(0)); z3::sort b64 = ZC->bv_sort(64); z3::func_decl f = ZC->function(n.c_str(), b64, b64, b64); setR(s, cb, S(f(E(arg(1)), E(arg(2))))); done(); return; }
            if (nm == "v_ite") { V c = arg(0); setR(s, cb, vite(vnot(veq(c, C(c.w, 0))), arg(1), arg(2))); done(); return; }
            if (nm == "v_and") { V a = arg(0), b = arg(1); V x = vnot(veq(a, C(a.w, 0))), y = vnot(veq(b, C(b.w, 0))); setR(s, cb, vzext(vand(x, y), tyW(cb->getType()))); done(); return; }
            if (nm == "v_objsize") { V off; Obj *o = resolve(s, arg(0), C(64, 1), off, "objsize"); if (!o) { ended = true; return; } setR(s, cb, o->size); done(); return; }
        }
        // ---- contract replacement
        if (!s.repl.empty() && !F->getName().starts_with("v_")) {
            const std::string &d = dem(F);
            for (auto &kv : s.repl) {
                if (kv.first.find('*') != std::string::npos) {
                    if (fnmatch((kv.first + "*").c_str(), d.c_str(), 0) != 0 || s.inRepl.count(kv.second)) continue;
                    replaced.insert(shortName(d));
                    std::vector<V> av; for (unsigned i = 0; i < cb->arg_size(); i++) av.push_back(arg(i));
                    pushCall(s, kv.second, av, cb); return;
                }
                if (d.find(kv.first) == std::string::npos) continue;
                std::string sn = d; // match: pattern must be followed by '(' or '<' or end, preceded by start or space
                auto p = d.find(kv.first); char after = p + kv.first.size() < d.size() ? d[p + kv.first.size()] : '(';
                char before = p ? d[p - 1] : ' ';
                if ((after != '(' && after != '<' && after != '[' && kv.first.back() != '(') || (before != ' ')) continue;
                if (s.inRepl.count(kv.second)) continue;
                replaced.insert(shortName(d));
                std::vector<V> av; for (unsigned i = 0; i < cb->arg_size(); i++) av.push_back(arg(i));
                pushCall(s, kv.second, av, cb); return;
            }
        }
        // ---- exceptions and failures
        {
            const std::string &d = dem(F);
            if (isThrowFn(nm.str(), d)) { throwEvent(s, shortName(d)); ended = true; return; }
        }
        if (nm == "__assert_fail") { std::string t = strArg(s, arg(0)); oblige(s, C(1, 0), "assert(" + t + ") " + here(s)); ended = true; return; }
        if (nm == "abort" || nm == "_ZSt9terminatev" || nm == "__cxa_pure_virtual" || nm == "__clang_call_terminate" || nm == "exit") { oblige(s, C(1, 0), "no-abort(" + nm.str() + ") " + here(s)); ended = true; return; }
        if (F->isDeclaration() || nm == "_Znwm" || nm == "malloc") {
            if (nm == "_Znwm" || nm == "_Znam" || nm == "malloc" || nm == "_ZnwmSt11align_val_t" || nm == "_ZnwmRKSt9nothrow_t" || nm == "_ZnamRKSt9nothrow_t" || nm == "aligned_alloc" || nm == "calloc") {
                V n = vsimp(nm == "aligned_alloc" ? arg(1) : nm == "calloc" ? vmul(arg(0), arg(1)) : arg(0)); n.prov = 0;
                Obj &o = newObj(s, n, "heap@" + here(s), 1, nm == "calloc" ? zeroBase() : undefBase()); o.heap = true; V v = C(64, o.base); v.prov = o.id; setR(s, cb, v); done(); return; }
            if (nm == "_ZdlPv" || nm == "_ZdlPvm" || nm == "_ZdaPv" || nm == "_ZdaPvm" || nm == "free" || nm == "_ZdlPvmSt11align_val_t" || nm == "_ZdlPvSt11align_val_t" || nm == "_ZdlPvRKSt9nothrow_t") {
                V p = vsimp(arg(0));
                if (p.sym && !p.prov) unsup("free of a symbolic pointer");
                if (!p.sym && p.c == 0) { done(); return; }
                V off; Obj *o = nullptr; auto it = p.prov ? s.objs.find(p.prov) : s.objs.end();
                if (it == s.objs.end() && !p.sym) { auto b = s.byBase.find(p.c); if (b != s.byBase.end()) it = s.objs.find(b->second); }
                if (it != s.objs.end()) o = &it->second;
                if (!o || !o->heap) { oblige(s, C(1, 0), "valid-free " + here(s)); ended = true; return; }
                if (!oblige(s, veq(p, C(64, o->base)), "valid-free " + here(s))) { ended = true; return; }
                s.byBase.erase(o->base); s.objs.erase(o->id); done(); return; }
            if (nm == "__cxa_guard_acquire") { V off; Obj *o = resolve(s, arg(0), C(64, 1), off, "guard"); if (!o) { ended = true; return; } V b = readObj(s, *o, off, 1); setR(s, cb, C(32, (!b.sym && b.c) ? 0 : 1)); done(); return; }
            if (nm == "__cxa_guard_release") { V off; Obj *o = resolve(s, arg(0), C(64, 1), off, "guard"); if (!o) { ended = true; return; } writeObj(s, *o, off, C(8, 1)); done(); return; }
            if (nm == "__cxa_guard_abort" || nm == "__cxa_atexit" || nm == "pthread_mutex_lock" || nm == "pthread_mutex_unlock" || nm == "pthread_rwlock_rdlock" || nm == "pthread_rwlock_wrlock" || nm == "pthread_rwlock_unlock" || nm == "pthread_mutex_destroy" || nm == "pthread_mutex_init" || nm == "__cxa_free_exception" || nm == "pthread_mutex_trylock") { externs.insert(nm.str()); if (!cb->getType()->isVoidTy()) setR(s, cb, C(tyW(cb->getType()), 0)); done(); return; }
            if (nm == "memcpy" || nm == "memmove") { V n = arg(2); n.prov = 0; copyMem(s, arg(0), arg(1), n, dead); if (dead) { ended = true; return; } setR(s, cb, arg(0)); done(); return; }
            if (nm == "memset") { setMem(s, arg(0), vextract(arg(1), 0, 8), arg(2), dead); if (dead) { ended = true; return; } setR(s, cb, arg(0)); done(); return; }
            unsup("external function " + dem(F) + " at " + here(s));
        }
        // byval copies
        std::vector<V> av;
        for (unsigned i = 0; i < cb->arg_size(); i++) {
            V a = arg(i);
            if (cb->isByValArgument(i)) { Type *T = cb->getParamByValType(i); u64 sz = DL->getTypeAllocSize(T); Obj &o = newObj(s, C(64, sz), "byval@" + here(s), 1, undefBase()); V p = C(64, o.base); p.prov = o.id; copyMem(s, p, a, C(64, sz), dead); if (dead) { ended = true; return; } a = p; }
            av.push_back(a);
        }
        pushCall(s, F, av, cb);
    }
    V castV(State &s, unsigned op, const V &a, Type *T) {
        if (a.agg) { V r; r.agg = std::make_shared<std::vector<V>>(); Type *et = cast<VectorType>(T)->getElementType(); for (auto &x : *a.agg) r.agg->push_back(castV(s, op, x, et)); return r; }
        unsigned w = tyW(T);
        switch (op) {
        case Instruction::ZExt: return vzext(a, w);
        case Instruction::SExt: return vsext(a, w);
        case Instruction::Trunc: { if (w == 1 && !a.sym) return C(1, a.c & 1); return vextract(a, 0, w); }
        case Instruction::PtrToInt: case Instruction::IntToPtr: if (a.w == w) return a; return a.w > w ? vextract(a, 0, w) : vzext(a, w);
        case Instruction::BitCast: case Instruction::AddrSpaceCast: return a;
        case Instruction::UIToFP: case Instruction::SIToFP: if (!a.sym) { if (w == 64) { double d = op == Instruction::UIToFP ? (double)a.c : (double)sx(a.c, a.w); u64 u; memcpy(&u, &d, 8); return C(64, u); } if (w == 32) { float d = op == Instruction::UIToFP ? (float)a.c : (float)sx(a.c, a.w); uint32_t u; memcpy(&u, &d, 4); return C(32, u); } } unsup("symbolic int to fp");
        case Instruction::FPToUI: case Instruction::FPToSI: if (!a.sym) { double d; if (a.w == 64) memcpy(&d, &a.c, 8); else { float f; uint32_t x = a.c; memcpy(&f, &x, 4); d = f; } return C(w, op == Instruction::FPToUI ? (u64)d : (u64)(int64_t)d); } unsup("symbolic fp to int");
        case Instruction::FPExt: if (!a.sym && a.w == 32 && w == 64) { float f; uint32_t x = a.c; memcpy(&f, &x, 4); double d = f; u64 u; memcpy(&u, &d, 8); return C(64, u); } unsup("fpext");
        case Instruction::FPTrunc: if (!a.sym && a.w == 64 && w == 32) { double d; memcpy(&d, &a.c, 8); float f = d; uint32_t u; memcpy(&u, &f, 4); return C(32, u); } unsup("fptrunc");
        }
        unsup("cast");
    }
    void step(State &s, bool &ended) {
        Frame &f = s.st.back(); Instruction *I = &*f.it; s.steps++; bool dead = false;
        if ((s.steps & 1023) == 0 && now() > deadline) throw Unsupported{"time limit"};
        if (auto *cb = dyn_cast<CallBase>(I)) { call(s, cb, ended); return; }
        switch (I->getOpcode()) {
        case Instruction::Ret: { auto *r = cast<ReturnInst>(I); if (r->getReturnValue()) { V v = val(s, r->getReturnValue()); doReturn(s, &v, ended); } else doReturn(s, nullptr, ended); return; }
        case Instruction::Br: {
            auto *b = cast<BranchInst>(I);
            if (b->isUnconditional()) { if (!jump(s, b->getSuccessor(0))) ended = true; return; }
            V c = val(s, b->getCondition()); std::vector<State> keep; bool selfEnd = false;
            V x = vsimp(c);
            if (!x.sym) { if (!jump(s, b->getSuccessor(x.c ? 0 : 1))) ended = true; return; }
            bool t = feasible(s, x.e), e = feasible(s, !x.e);
            if (t && e) {
                State n = s; n.pc.push_back(!x.e); n.depth++;
                if (jump(n, b->getSuccessor(1))) work.push_back(std::move(n));
                s.pc.push_back(x.e); s.depth++;
                if (!jump(s, b->getSuccessor(0))) ended = true;
            } else if (t) { if (!jump(s, b->getSuccessor(0))) ended = true; }
            else if (e) { if (!jump(s, b->getSuccessor(1))) ended = true; }
            else ended = true;
            return; }
        case Instruction::Switch: {
            auto *sw = cast<SwitchInst>(I); V c = vsimp(val(s, sw->getCondition()));
            if (!c.sym) { auto it = sw->findCaseValue(ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()), c.c)); if (!jump(s, it->getCaseSuccessor())) ended = true; return; }
            z3::expr none = ZC->bool_val(true); std::vector<std::pair<z3::expr, BasicBlock *>> alts; std::map<BasicBlock *, size_t> at;
            for (auto &cs : sw->cases()) { z3::expr eq = E(c) == E(C(c.w, cs.getCaseValue()->getZExtValue())); none = none && !eq; auto bb = cs.getCaseSuccessor(); auto i = at.find(bb); if (i == at.end()) { at[bb] = alts.size(); alts.push_back({eq, bb}); } else alts[i->second].first = alts[i->second].first || eq; }
            alts.push_back({none, sw->getDefaultDest()});
            State base = s; bool any = false;
            for (auto &al : alts) { if (!feasible(base, al.first)) continue; State n = base; n.pc.push_back(al.first); if (jump(n, al.second)) work.push_back(std::move(n)); any = true; }
            ended = true; return; }
        case Instruction::Unreachable: oblige(s, C(1, 0), "unreachable " + here(s)); ended = true; return;
        case Instruction::Alloca: {
            auto *a = cast<AllocaInst>(I); u64 sz = DL->getTypeAllocSize(a->getAllocatedType()); V n = val(s, a->getArraySize()); if (n.sym) unsup("dynamic alloca");
            Obj &o = newObj(s, C(64, sz * n.c), ("a:" + f.fi->F->getName() + ":" + std::to_string(f.fi->num[a])).str(), 1, undefBase()); o.stack = true; f.allocas.push_back(o.id); V v = C(64, o.base); v.prov = o.id; setR(s, I, v); break; }
        case Instruction::Load: { V p = val(s, I->getOperand(0)); V v = loadTy(s, p, I->getType(), dead); if (dead) { ended = true; return; } setR(s, I, v); break; }
        case Instruction::Store: { V p = val(s, I->getOperand(1)), v = val(s, I->getOperand(0)); storeTy(s, p, v, I->getOperand(0)->getType(), dead); if (dead) { ended = true; return; } break; }
        case Instruction::GetElementPtr: setR(s, I, gep(s, cast<GEPOperator>(I), [&](const Value *v) { return val(s, v); })); break;
        case Instruction::ICmp: setR(s, I, icmp(cast<ICmpInst>(I)->getPredicate(), val(s, I->getOperand(0)), val(s, I->getOperand(1)))); break;
        case Instruction::FCmp: {
            V a = val(s, I->getOperand(0)), b = val(s, I->getOperand(1)); if (a.sym || b.sym) unsup("symbolic fcmp at " + here(s)); double x, y; if (a.w == 64) { memcpy(&x, &a.c, 8); memcpy(&y, &b.c, 8); } else { float p, q; uint32_t i = a.c, j = b.c; memcpy(&p, &i, 4); memcpy(&q, &j, 4); x = p; y = q; }
            setR(s, I, C(1, FCmpInst::compare(APFloat(x), APFloat(y), cast<FCmpInst>(I)->getPredicate()))); break; }
        case Instruction::Select: {
            V c = val(s, I->getOperand(0)), a = val(s, I->getOperand(1)), b = val(s, I->getOperand(2)); V x = c.agg ? c : vsimp(c);
            if (x.agg) unsup("vector select");
            if (x.sym && !a.agg && a.prov != b.prov && (a.prov || b.prov)) {
                // pointers into different objects: case split
                bool t = feasible(s, x.e), e = feasible(s, !x.e);
                if (t && e) { State n = s; n.pc.push_back(!x.e); n.st.back().regs[f.fi->num[I]] = b; ++n.st.back().it; work.push_back(std::move(n)); s.pc.push_back(x.e); setR(s, I, a); }
                else setR(s, I, t ? a : b);
                break;
            }
            setR(s, I, vite(x, a, b)); break; }
        case Instruction::ExtractValue: { V a = val(s, I->getOperand(0)); for (unsigned i : cast<ExtractValueInst>(I)->indices()) { V t = (*a.agg)[i]; a = t; } setR(s, I, a); break; }
        case Instruction::InsertValue: {
            V a = val(s, I->getOperand(0)), b = val(s, I->getOperand(1)); auto ix = cast<InsertValueInst>(I)->getIndices();
            std::function<V(const V &, unsigned)> ins = [&](const V &x, unsigned k) -> V { V r; r.agg = std::make_shared<std::vector<V>>(*x.agg); if (k + 1 == ix.size()) (*r.agg)[ix[k]] = b; else (*r.agg)[ix[k]] = ins((*x.agg)[ix[k]], k + 1); return r; };
            setR(s, I, ins(a, 0)); break; }
        case Instruction::ExtractElement: { V a = val(s, I->getOperand(0)), i = val(s, I->getOperand(1)); if (i.sym) unsup("extractelement"); setR(s, I, V((*a.agg)[i.c])); break; }
        case Instruction::InsertElement: { V a = val(s, I->getOperand(0)), b = val(s, I->getOperand(1)), i = val(s, I->getOperand(2)); if (i.sym) unsup("insertelement"); V r; r.agg = std::make_shared<std::vector<V>>(*a.agg); (*r.agg)[i.c] = b; setR(s, I, r); break; }
        case Instruction::ShuffleVector: { auto *sv = cast<ShuffleVectorInst>(I); V a = val(s, I->getOperand(0)), b = val(s, I->getOperand(1)); V r; r.agg = std::make_shared<std::vector<V>>(); for (int m : sv->getShuffleMask()) { if (m < 0) r.agg->push_back(freshV(a.agg->at(0).w, "undef")); else if ((size_t)m < a.agg->size()) r.agg->push_back((*a.agg)[m]); else r.agg->push_back((*b.agg)[m - a.agg->size()]); } setR(s, I, r); break; }
        case Instruction::Freeze: setR(s, I, val(s, I->getOperand(0))); break;
        case Instruction::FNeg: { V a = val(s, I->getOperand(0)); setR(s, I, binop(s, Instruction::Xor, a, C(a.w, 1ull << (a.w - 1)), dead)); break; }
        case Instruction::Fence: break;
        case Instruction::AtomicRMW: {
            auto *r = cast<AtomicRMWInst>(I); V p = val(s, r->getPointerOperand()), v = val(s, r->getValOperand()); V o = loadTy(s, p, I->getType(), dead); if (dead) { ended = true; return; } V n;
            switch (r->getOperation()) { case AtomicRMWInst::Add: n = vadd(o, v); break; case AtomicRMWInst::Sub: n = vsub(o, v); break; case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::And: n = binop(s, Instruction::And, o, v, dead); break; case AtomicRMWInst::Or: n = binop(s, Instruction::Or, o, v, dead); break; default: unsup("atomicrmw"); }
            storeTy(s, p, n, I->getType(), dead); setR(s, I, o); break; }
        case Instruction::AtomicCmpXchg: {
            auto *r = cast<AtomicCmpXchgInst>(I); V p = val(s, r->getPointerOperand()), c = val(s, r->getCompareOperand()), nv = val(s, r->getNewValOperand()); Type *T = r->getCompareOperand()->getType(); V o = loadTy(s, p, T, dead); if (dead) { ended = true; return; } V eq = veq(o, c);
            storeTy(s, p, vite(eq, nv, o), T, dead); V ag; ag.agg = std::make_shared<std::vector<V>>(std::vector<V>{o, eq}); setR(s, I, ag); break; }
        default:
            if (I->isBinaryOp()) { V v = binop(s, I->getOpcode(), val(s, I->getOperand(0)), val(s, I->getOperand(1)), dead); if (dead) { ended = true; return; } setR(s, I, v); break; }
            if (auto *ci = dyn_cast<CastInst>(I)) { setR(s, I, castV(s, ci->getOpcode(), val(s, I->getOperand(0)), I->getType())); break; }
            unsup(std::string("instruction ") + I->getOpcodeName());
        }
        if (dead) { ended = true; return; }
        ++s.st.back().it;
    }
    void explore(Function *F) {
        solver.reset(new z3::solver(*ZC)); { z3::params p(*ZC); p.set("timeout", incMs); solver->set(p); } asserted.clear();
        obs.clear(); covers.clear(); callees.clear(); replaced.clear(); cexJson.clear(); paths = killed = throwsSeen = 0; work.clear(); invSites.clear(); dumped = 0; bounded = false;
        State s; s.throwOK = C(1, 0); pushCall(s, F, {}, nullptr); work.push_back(std::move(s));
        while (!work.empty()) {
            State c = std::move(work.back()); work.pop_back(); bool ended = false;
            try { while (!ended) step(c, ended); }
            catch (Unsupported &u) {
                problems.push_back(u.msg); if (verbose) errs() << "problem: " << u.msg << " | " << where(c) << "\n";
                if (problems.size() > 20 || u.msg == "time limit") return;
            }
            if (paths > maxPaths) { problems.push_back("path limit"); return; }
        }
    }
    void run(Function *F) {
        for (int r = 0; r < 400; r++) {
            problems.clear();
            try { explore(F); return; } catch (Restart &) {}
        }
        problems.push_back("modifies inference did not converge");
    }
};

int main(int argc, char **argv) {
    std::string bc, unit, out, dump; double tl = 300; bool verbose = false, list = false; double hard = 60; unsigned mv = 5000;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--unit") unit = argv[++i]; else if (a == "--out") out = argv[++i]; else if (a == "--time") tl = atof(argv[++i]); else if (a == "-v") verbose = true;
        else if (a == "--list") list = true; else if (a == "--dump") dump = argv[++i]; else if (a == "--hard") hard = atof(argv[++i]); else if (a == "--visits") mv = atoi(argv[++i]); else bc = a;
    }
    z3::set_param("model.completion", true);
    z3::context zc; ZC = &zc;
    double t0 = now();
    LLVMContext ctx; SMDiagnostic err; auto M = parseIRFile(bc, err, ctx);
    if (!M) { err.print("vc", errs()); return 2; }
    if (list) { for (auto &F : *M) if (F.getName().starts_with("v_unit_") && !F.isDeclaration()) outs() << F.getName().substr(7) << "\n"; return 0; }
    {
        PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
        FunctionPassManager FPM; FPM.addPass(SROAPass(SROAOptions::PreserveCFG)); FPM.addPass(EarlyCSEPass(false));
        for (auto &F : *M) if (!F.isDeclaration()) FPM.run(F, FAM);
    }
    Engine eng; eng.M = M.get(); eng.DL = &M->getDataLayout(); eng.deadline = t0 + tl; eng.verbose = verbose; eng.dumpDir = dump; eng.hardSecs = hard; eng.maxVisits = mv;
    for (auto &F : *M) eng.faddr(&F);
    Function *F = M->getFunction("v_unit_" + unit);
    if (!F) { errs() << "no unit " << unit << "\n"; return 2; }
    std::string fatal;
    try { eng.run(F); } catch (Unsupported &u) { eng.problems.push_back(u.msg); } catch (z3::exception &e) { eng.problems.push_back(std::string("z3: ") + e.msg()); }
    // declared covers
    std::ostringstream o; auto js = Engine::js;
    unsigned ref = 0, unk = 0; u64 inst = 0, proved = 0;
    for (auto &k : eng.obs) { ref += k.second.refuted > 0; unk += k.second.unknown > 0; inst += k.second.inst; proved += k.second.proved; }
    std::string status = ref ? "refuted" : (unk || !eng.problems.empty()) ? "incomplete" : (eng.obs.empty() || (eng.paths == 0 && eng.throwsSeen == 0)) ? "vacuous" : "proved";
    o << "{\"unit\":" << js(unit) << ",\"status\":\"" << status << "\",\"paths\":" << eng.paths << ",\"throws\":" << eng.throwsSeen << ",\"queries\":" << eng.queries << ",\"solver_s\":" << eng.solverSecs << ",\"wall_s\":" << now() - t0
      << ",\"vcs\":" << inst << ",\"vcs_proved\":" << proved << ",\"cvc5_queries\":" << eng.intProved << ",\"bounded\":" << (eng.bounded ? js(eng.boundNote) : "null") << ",\"obligations\":[";
    bool first = true;
    for (auto &k : eng.obs) { auto &r = k.second; if (!first) o << ","; first = false; o << "{\"name\":" << js(r.name) << ",\"instances\":" << r.inst << ",\"proved\":" << r.proved << ",\"refuted\":" << r.refuted << ",\"unknown\":" << r.unknown << ",\"secs\":" << r.secs << "}"; }
    o << "],\"cex\":["; first = true; for (auto &c : eng.cexJson) { if (!first) o << ","; first = false; o << c; }
    auto lst = [&](const char *n, auto &c) { o << "],\"" << n << "\":["; bool f = true; for (auto &x : c) { if (!f) o << ","; f = false; o << js(x); } };
    lst("problems", eng.problems); lst("functions", eng.callees); lst("replaced", eng.replaced); lst("externals", eng.externs); lst("notes", eng.notes); lst("invariants", eng.invSites);
    o << "],\"covers\":{"; first = true; for (auto &c : eng.covers) { if (!first) o << ","; first = false; o << js(c.first) << ":" << c.second; } o << "}}\n";
    if (out.empty()) std::cout << o.str(); else { std::ofstream f(out); f << o.str(); }
    if (verbose) errs() << status << "\n";
    return 0;
}
