// zabs: abstract interpreter over LLVM IR for the zserio C++17 runtime.
// Domains: linear expressions with interval/inequality facts, bit provenance, points-to objects with
// symbolic offsets; disjunctive (trace-partitioned) states; C++ exceptions and heap lifetime modelled.
#include "domain.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugLoc.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include <chrono>
#include <cstring>
#include <iostream>
#include <fstream>
#include <sstream>
#include <sys/resource.h>
#include <unistd.h>

using namespace llvm;

static Module* M;
static const DataLayout* DL;

// ---------------------------------------------------------------- values
enum VK : uint8_t { V_UNDEF, V_INT, V_PTR, V_AGG, V_UNKPTR };
struct Val {
    VK k = V_UNDEF;
    unsigned w = 0;
    bool hasLin = false;
    Pred p = -1;
    int obj = 0;               // V_PTR: 0 is null
    Lin lin;                   // V_INT: value mod 2^w ; V_PTR: byte offset
    std::shared_ptr<const Bits> bits;
    std::shared_ptr<const std::vector<Val>> agg;
};
static Val vInt(unsigned w, const Lin& l) { Val v; v.k = V_INT; v.w = w; v.hasLin = true; v.lin = l; return v; }
static Val vConst(unsigned w, I c)
{
    if (w == 1) { Val v; v.k = V_INT; v.w = 1; v.p = (c & 1) ? PT : PF; return v; }
    return vInt(w, Lin(c));
}
static Val vBool(Pred p) { Val v; v.k = V_INT; v.w = 1; v.p = p; return v; }
static Val vBits(const Bits& b)
{
    Val v; v.k = V_INT; v.w = (unsigned)b.size();
    if (b.size() == 1) { v.p = mkBit(b[0]); return v; }
    v.bits = std::make_shared<Bits>(b);
    return v;
}
static Val vPtr(int obj, const Lin& off) { Val v; v.k = V_PTR; v.w = 64; v.obj = obj; v.lin = off; return v; }
static Val vNull() { return vPtr(0, Lin(0)); }

static bool sameVal(const Val& a, const Val& b)
{
    if (a.k != b.k) return false;
    switch (a.k) {
    case V_UNDEF: return true;
    case V_UNKPTR: return false;
    case V_PTR: return a.obj == b.obj && a.lin == b.lin;
    case V_INT:
        if (a.w != b.w) return false;
        if (a.w == 1) return a.p == b.p;
        if (a.hasLin && b.hasLin && a.lin == b.lin) return true;
        if (a.bits && b.bits && *a.bits == *b.bits) return std::find(a.bits->begin(), a.bits->end(), BTOP) == a.bits->end();
        return false;
    case V_AGG:
        if (a.agg->size() != b.agg->size()) return false;
        for (size_t i = 0; i < a.agg->size(); ++i) if (!sameVal((*a.agg)[i], (*b.agg)[i])) return false;
        return true;
    }
    return false;
}

// ---------------------------------------------------------------- memory
enum OK_ : uint8_t { O_STACK, O_HEAP, O_GLOBAL, O_FUNC, O_BUF, O_EXC };
struct WriteRec {
    Lin off, size;
    int kind = 0;              // 0 value (const size), 1 fill byte, 2 copy from snapshot, 3 unknown bytes
    Val v;
    std::shared_ptr<struct Obj> src; Lin srcOff; // kind 2
    int id = 0;
};
struct Obj {
    int id = 0; OK_ kind = O_STACK; bool alive = true, ro = false, freed = false;
    uint8_t init = 0;          // 0 uninitialised, 1 zero, 2 symbolic bytes, 3 unknown, 4 constant initialiser
    Lin size;
    int allocKind = 0;         // 1 new, 2 new[], 3 malloc, 10+ : tagged allocator
    std::map<int64_t, Val> cells;      // non-overlapping
    std::map<int64_t, unsigned> csz;
    std::vector<WriteRec> log;         // non-empty: log mode, newest last
    const GlobalVariable* gv = nullptr; Function* fn = nullptr;
    int addr = -1;
    std::string name, where;
};
typedef std::shared_ptr<Obj> ObjP;

struct Trail { std::string s; std::shared_ptr<Trail> prev; };

struct State {
    Facts F;
    std::vector<ObjP> objs;    // index = id
    std::map<const Value*, int> globals;
    std::map<std::string, int> names;
    std::shared_ptr<Trail> trail;
    std::map<std::string, I> mode;
    std::vector<I> splits;
    std::vector<Val> caught;   // stack of in-flight caught exceptions (pointer)
    std::map<int, const Constant*> excType;   // exception object -> typeinfo
    Lin allocLimit; bool hasAllocLimit = false;
    bool imprecise = false;
    int seq = 0;
    Obj& w(int id)             // writable
    {
        if (objs[id].use_count() > 1) objs[id] = std::make_shared<Obj>(*objs[id]);
        return *objs[id];
    }
};

struct ForkReq { Pred p; };
struct ForkVals { Lin l; I lo, hi; };
struct Abort { std::string why; };   // path cannot be continued (violation was recorded)
struct Giveup { std::string why; };  // the analysis cannot handle this: harness inconclusive

struct Exit { enum { RET, THROW } k; Val v; const Constant* ti = nullptr; State S; };

struct Frame {
    Function* F = nullptr;
    std::vector<Val> loc;
    BasicBlock* bb = nullptr; BasicBlock* prev = nullptr;
    BasicBlock::iterator it;
    std::map<const BasicBlock*, int> visits;
    std::vector<int> allocas;
    std::map<const BasicBlock*, struct LoopSnap*> dummy;
};
struct Path { State S; Frame fr; };

// ---------------------------------------------------------------- statistics / results
struct Violation { std::string kind, msg, loc, stack, facts, trail, function; bool definite; int count = 1; };
static std::map<std::string, Violation> VIOL;
static std::set<std::string> COVER_HIT;
static std::map<std::string, long> CHECKS;      // harness check message -> times discharged
static long N_INSTR, N_FORK, N_PATHS, N_MEM, N_SHIFT, N_DIV, N_CALLS, N_EXITS, N_THROW, N_WIDEN;
static std::set<const Function*> FUNCS;
static std::map<std::string, long> EXTERNS;
static std::set<const Instruction*> MEMSITES;
static std::string INCONCLUSIVE;
static long MAXINSTR = 400000000L, MAXPATHS = 3000000L;
static int SHARD_I = 0, SHARD_N = 1;
static int NAMED_DEPTH = 0;
static bool VERBOSE = false;
static std::vector<const Instruction*> CALLSTACK;
static const Instruction* CUR;

static std::string dem(StringRef n) { return demangle(n.str()); }
static std::string relFile(const DILocation* d)
{
    std::string f = d->getFilename().str();
    if (!f.empty() && f[0] != '/' ) f = d->getDirectory().str() + "/" + f;
    return f;
}
static std::string locOf(const Instruction* i)
{
    if (!i) return "?";
    if (const DILocation* d = i->getDebugLoc().get()) return relFile(d) + ":" + std::to_string(d->getLine());
    return "?";
}
static std::string fnShort(const Function* f)
{
    std::string s = dem(f->getName());
    if (s.size() > 160) s = s.substr(0, 157) + "...";
    return s;
}
static std::string trailStr(const State& S)
{
    std::vector<std::string> v;
    for (auto t = S.trail; t; t = t->prev) v.push_back(t->s);
    std::string r;
    size_t skip = v.size() > 40 ? v.size() - 40 : 0;
    for (size_t i = v.size() - skip; i-- > 0;) r += v[i] + " | ";
    (void)skip;
    return r;
}
static void violation(const State& S, const std::string& kind, const std::string& msg, bool definite)
{
    if (S.F.infeasible()) return;        // no concrete run reaches this state
    std::string loc, fn, stack;
    // first frame inside the repository (not the C++ library, not the harness)
    std::vector<const Instruction*> st = CALLSTACK; st.push_back(CUR);
    for (size_t i = st.size(); i-- > 0;) {
        if (!st[i]) continue;
        std::string l = locOf(st[i]);
        stack += fnShort(st[i]->getFunction()) + " at " + l + "\n";
        if (loc.empty() && l.find("/runtime/src/") != std::string::npos) { loc = l; fn = fnShort(st[i]->getFunction()); }
    }
    if (loc.empty()) { loc = locOf(CUR); fn = CUR ? fnShort(CUR->getFunction()) : ""; }
    std::string key = kind + "|" + loc + "|" + msg.substr(0, 60);
    auto it = VIOL.find(key);
    if (it != VIOL.end()) { it->second.count++; if (definite) it->second.definite = true; return; }
    if (VIOL.size() > 40) return;
    Violation v; v.kind = kind; v.msg = msg; v.loc = loc; v.stack = stack; v.facts = S.F.str(); v.trail = trailStr(S); v.definite = definite; v.function = fn;
    VIOL[key] = v;
    if (VERBOSE) std::cerr << "VIOL " << kind << " " << msg << " @ " << loc << " in " << fn << "\n";
}

// ---------------------------------------------------------------- numeric helpers on values
static Lin modReduce(const Lin& l, unsigned w)     // canonical coefficients mod 2^w (symmetric)
{
    Lin r; I m = pow2(w), h = m / 2;
    auto red = [&](I v) { v %= m; if (v < 0) v += m; return v; };
    r.c = red(l.c); if (r.c > h) r.c -= m;
    for (auto& p : l.t) { I v = red(p.second); if (v > h) v -= m; if (v) r.t.push_back({p.first, v}); }
    return r;
}
static Bits getBits(State& S, const Val& v);

static Lin opaqueOfBits(State& S, const Bits& b)
{
    std::string key = "bits"; bool top = false; I lo = 0, hi = 0;
    for (size_t i = 0; i < b.size(); ++i) {
        key += "." + std::to_string(b[i]);
        if (b[i] == BTOP) top = true;
        if (b[i] == 1) { lo += pow2(i); hi += pow2(i); } else if (b[i] != 0) hi += pow2(i);
    }
    if (top) { static int fresh = 0; key += "#" + std::to_string(fresh++); S.imprecise = true; }
    int s = symOpq(key, (unsigned)b.size(), "bits?");
    S.F.refine(s, lo, hi);
    return Lin::sym(s);
}
static Lin getLin(State& S, const Val& v)          // some integer congruent to the value mod 2^w
{
    if (v.k == V_UNDEF) throw ForkReq{-2};
    if (v.w == 1 && v.p >= 0) {
        int d = S.F.decide(v.p);
        if (d >= 0) return Lin(d);
        if (PRED[v.p].k == P_BIT) { Lin l; Bits b{PRED[v.p].b}; if (S.F.linOfBitsOk(b, l)) return l; }
        throw ForkReq{S.F.firstUndecided(v.p)};
    }
    if (v.hasLin) return S.F.norm(v.lin);
    Lin l;
    Bits b = *v.bits;
    for (auto& x : b) x = S.F.normBit(x);
    if (S.F.linOfBitsOk(b, l)) return l;
    return opaqueOfBits(S, b);
}
static bool inWin(State& S, const Lin& l, I lo, I hi)
{
    I a, b; S.F.ival(l, a, b);
    if (a >= lo && b <= hi) return true;
    return S.F.proveGE(l - Lin(lo)) && S.F.proveGE(Lin(hi) - l);
}
static Lin window(State& S, const Val& v, I lo)    // integer in [lo, lo + 2^w)
{
    unsigned w = v.w; I m = pow2(w), hi = lo + m - 1;
    Lin l = getLin(S, v);
    if (l.isConst()) { I c = (l.c - lo) % m; if (c < 0) c += m; return Lin(c + lo); }
    I a, b; S.F.ival(l, a, b);
    if (a >= lo && b <= hi) return l;
    if (a > -INF && b < INF) { I k = fdivI(a - lo, m); if (k == fdivI(b - lo, m)) return l - Lin(k * m); }
    Lin r = modReduce(l, w);
    if (!(r == l) && inWin(S, l, lo, hi)) return l;
    S.F.ival(r, a, b);
    if (a > -INF && b < INF) { I k = fdivI(a - lo, m); if (k == fdivI(b - lo, m)) return r - Lin(k * m); }
    if (inWin(S, r, lo, hi)) return r;
    for (I k : {(I)1, (I)-1}) if (inWin(S, r - Lin(k * m), lo, hi)) return r - Lin(k * m);
    if (a > -INF && b < INF && (b - a) <= 3 * m) {
        // split on the wrap boundary closest to zero
        I k = fdivI(a - lo, m) + 1;      // first boundary inside
        Lin q = r - Lin(lo + k * m);
        Pred p = mkGE(q);
        int d = S.F.decide(p);
        if (d < 0) throw ForkReq{p};
        // decided but not by intervals: continue with the other boundary
        Lin r2 = d == 1 ? r - Lin(k * m) : r - Lin((k - 1) * m);
        I a2, b2; S.F.ival(r2, a2, b2);
        if (inWin(S, r2, lo, hi)) return r2;
        if (d == 1) { Pred p2 = mkGE(r - Lin(lo + (k + 1) * m)); int d2 = S.F.decide(p2); if (d2 < 0) throw ForkReq{p2}; return r - Lin((d2 == 1 ? k + 1 : k) * m); }
        return r2;
    }
    std::string key = "mod" + r.str() + "/" + std::to_string(w) + (lo < 0 ? "s" : "u");
    int s = symOpq("mod" + r.str() + "/" + std::to_string(w), w, "(" + r.str() + " mod 2^" + std::to_string(w) + ")");
    Lin u = Lin::sym(s);
    if (lo < 0) { Pred p = mkGE(u - Lin(m / 2)); int d = S.F.decide(p); if (d < 0) throw ForkReq{p}; if (d == 1) return u - Lin(m); }
    return u;
}
static Lin uLin(State& S, const Val& v)
{
    if (v.w == 1) return getLin(S, v);
    return window(S, v, 0);
}
static Lin sLin(State& S, const Val& v)
{
    if (v.w == 1) return getLin(S, v) * -1;
    return window(S, v, -pow2(v.w - 1));
}
static void boundDef(State& S, const Lin& l, I wlo, I whi);
static bool bitsOfMod(State& S, const Lin& l0, unsigned w, Bits& out)
{
    // sum of disjoint scaled symbols, dropping bits at or above w
    Lin l = S.F.norm(l0);
    out.assign(w, 0);
    I m = pow2(w);
    I c = l.c % m; if (c < 0) { if (!l.t.empty()) return false; c += m; }
    for (auto& p : l.t) {
        I k = p.second;
        if (k <= 0 || (k & (k - 1))) return false;
        unsigned sh = 0; while (pow2(sh) < k) ++sh;
        Bnd b = S.F.symBounds(p.first);
        if (b.lo < 0 || b.hi >= pow2(64)) return false;
        unsigned n = 0; I h = b.hi; while (h) { ++n; h >>= 1; }
        const SymInfo& si = SYM[p.first];
        for (unsigned i = 0; i < n && sh + i < w; ++i) {
            if (out[sh + i] != 0) return false;
            out[sh + i] = S.F.normBit(si.kind == S_RUN ? bitLit(si.base, si.rlo + i, false) : bitLit(p.first, i, false));
        }
    }
    for (unsigned i = 0; i < w; ++i) if ((c >> i) & 1) { if (out[i] != 0) return false; out[i] = 1; }
    return true;
}
static Bits getBits(State& S, const Val& v)
{
    if (v.k == V_UNDEF) throw ForkReq{-2};
    if (v.w == 1) {
        int d = S.F.decide(v.p);
        if (d >= 0) return Bits{(Bit)d};
        if (PRED[v.p].k == P_BIT) return Bits{S.F.normBit(PRED[v.p].b)};
        throw ForkReq{S.F.firstUndecided(v.p)};
    }
    if (v.bits) { Bits b = *v.bits; for (auto& x : b) x = S.F.normBit(x); return b; }
    Bits b;
    if (bitsOfMod(S, v.lin, v.w, b)) return b;
    if (v.w <= 64) {
        Lin u = uLin(S, v);
        if (!u.isConst()) boundDef(S, u, 0, pow2(v.w) - 1);
        if (S.F.bitsOf(u, v.w, b)) return b;
    }
    b.assign(v.w, BTOP);
    return b;
}
static bool asConst(State& S, const Val& v, I& c)
{
    if (v.k != V_INT) return false;
    if (v.w == 1) { int d = S.F.decide(v.p); if (d < 0) return false; c = d; return true; }
    Lin l;
    if (v.hasLin) l = S.F.norm(v.lin);
    else { Bits b = *v.bits; for (auto& x : b) { x = S.F.normBit(x); if (x > 1) return false; } I r = 0; for (size_t i = 0; i < b.size(); ++i) if (b[i]) r += pow2(i); c = r; return true; }
    if (!l.isConst()) return false;
    c = l.c % pow2(v.w); if (c < 0) c += pow2(v.w);
    return true;
}
static Val freshInt(State& S, unsigned w, const std::string& nm)
{
    static int n = 0;
    S.imprecise = true;
    if (w == 1) return vBool(mkUnk("fr" + std::to_string(n++)));
    if (w > 64) { Bits b(w, BTOP); return vBits(b); }
    int s = symOpq("fresh" + std::to_string(n++), w, nm);
    return vInt(w, Lin::sym(s));
}
static std::string valKey(State& S, const Val& v)
{
    std::string s;
    switch (v.k) {
    case V_INT: {
        if (v.w == 1) return "p" + std::to_string(v.p);
        Lin l = modReduce(getLin(S, v), v.w);
        s = "i" + std::to_string(v.w) + ":" + std::to_string((long long)l.c);
        s += itoaI(l.c);
        for (auto& p : l.t) s += "," + std::to_string(p.first) + "*" + itoaI(p.second);
        return s;
    }
    case V_PTR: return "ptr" + std::to_string(v.obj) + "+" + v.lin.str();
    default: { static int n = 0; return "x" + std::to_string(n++); }
    }
}
static std::string valStr(State& S, const Val& v)
{
    switch (v.k) {
    case V_UNDEF: return "undef";
    case V_INT:
        if (v.w == 1) return predStr(v.p);
        try { return getLin(S, v).str() + " (i" + std::to_string(v.w) + ")"; } catch (ForkReq&) { return "?"; }
    case V_PTR: return v.obj ? "&" + S.objs[v.obj]->name + "+" + v.lin.str() : "null";
    case V_AGG: return "{..}";
    default: return "?";
    }
}

// interval of a linear value, tightened with the relational facts
static void tightIval(State& S, const Lin& l, I& lo, I& hi)
{
    S.F.ival(l, lo, hi);
    if (l.t.size() < 2 && SYM[l.t.empty() ? 0 : l.t[0].first].facts.empty() && S.F.cons.empty()) return;
    auto search = [&](const Lin& x, I cur) {      // smallest provable upper bound of x below cur
        I step = 1; I best = cur; bool any = false;
        // exponential probe around zero
        for (int k = 0; k <= 64; k += (k < 8 ? 2 : 8)) {
            I b = pow2(k) - 1;
            if (b >= cur) break;
            if (S.F.proveGE(Lin(b) - x)) { best = b; any = true; break; }
        }
        (void)step;
        if (!any) return cur;
        I a = -pow2(64), b = best;                  // b provable; find smaller
        if (b > 0) a = b <= 1 ? -1 : b / 4 - 1;
        if (S.F.proveGE(Lin(a) - x)) { // may be negative
            I c = -1; while (c > -pow2(64) && S.F.proveGE(Lin(c) - x)) { b = c; c *= 2; }
            a = c;
        }
        int it = 0;
        while (b - a > 1 && it++ < 70) { I m = a + (b - a) / 2; if (S.F.proveGE(Lin(m) - x)) b = m; else a = m; }
        return b;
    };
    if (hi > 0) hi = search(l, hi);
    if (lo < 0 || (hi - lo) > 64) { I nl = -search(l * -1, -lo); if (nl > lo) lo = nl; }
}
// gives the value of a linear expression its own symbol with tight bounds
static void boundDef(State& S, const Lin& l, I wlo, I whi)
{
    I a, b; S.F.ival(l, a, b);
    if (a >= wlo && b <= whi) return;
    I lo, hi; tightIval(S, l, lo, hi);
    lo = std::max(lo, wlo); hi = std::min(hi, whi);
    S.F.refine(symDef(l), lo, hi);
}

// enumerate the values of a linear expression (few) by forking; returns the constant once decided
static I enumVals(State& S, const Lin& l0, I limit, const char* what)
{
    Lin l = S.F.norm(l0);
    if (l.isConst()) return l.c;
    I lo, hi; S.F.ival(l, lo, hi);
    tightIval(S, l, lo, hi);
    if (lo == hi) return lo;
    if (lo <= -INF || hi >= INF || hi - lo > limit) throw Giveup{std::string("cannot enumerate ") + what + ": " + l.str()};
    throw ForkVals{l, lo, hi};
}

// ---------------------------------------------------------------- objects
static int newObj(State& S, OK_ k, const Lin& size, const std::string& name)
{
    auto o = std::make_shared<Obj>();
    if (S.objs.empty()) S.objs.push_back(nullptr);
    o->id = (int)S.objs.size(); o->kind = k; o->size = size; o->name = name; o->where = locOf(CUR);
    S.objs.push_back(o);
    return o->id;
}
static int objOfGlobal(State& S, const GlobalObject* g)
{
    auto it = S.globals.find(g);
    if (it != S.globals.end()) return it->second;
    int id;
    if (auto* f = dyn_cast<Function>(g)) {
        id = newObj(S, O_FUNC, Lin(1), f->getName().str());
        S.objs[id]->fn = const_cast<Function*>(f);
    } else {
        auto* gv = cast<GlobalVariable>(g);
        uint64_t sz = gv->getValueType()->isSized() ? DL->getTypeAllocSize(gv->getValueType()).getFixedValue() : 1 << 20;
        if (!gv->hasInitializer() && sz == 0) sz = 1 << 20;
        id = newObj(S, O_GLOBAL, Lin((I)sz), gv->getName().str());
        Obj& o = *S.objs[id];
        o.gv = gv; o.ro = gv->isConstant();
        o.init = gv->hasInitializer() ? 4 : 3;
    }
    S.globals[g] = id;
    return id;
}
static Val constVal(State& S, const Constant* c);
static Val evalConstGEP(State& S, const GEPOperator* g)
{
    Val b = constVal(S, cast<Constant>(g->getPointerOperand()));
    APInt off(64, 0);
    if (!g->accumulateConstantOffset(*DL, off)) throw Giveup{"constant gep"};
    if (b.k != V_PTR) return b;
    b.lin = b.lin + Lin((I)off.getSExtValue());
    return b;
}
static Val constVal(State& S, const Constant* c)
{
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        unsigned w = ci->getBitWidth();
        if (w <= 64) return vConst(w, (I)ci->getZExtValue());
        unsigned __int128 v = ci->getValue().extractBitsAsZExtValue(64, 0);
        if (w > 64) v |= (unsigned __int128)ci->getValue().extractBitsAsZExtValue(std::min(64u, w - 64), 64) << 64;
        Bits b(w, 0); for (unsigned i = 0; i < w && i < 128; ++i) b[i] = (Bit)((v >> i) & 1);
        return vBits(b);
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
        APInt a = cf->getValueAPF().bitcastToAPInt();
        if (a.getBitWidth() > 64) { Bits b(a.getBitWidth(), BTOP); return vBits(b); }
        return vConst(a.getBitWidth(), (I)a.getZExtValue());
    }
    if (isa<ConstantPointerNull>(c)) return vNull();
    if (isa<UndefValue>(c)) {
        if (auto* st = dyn_cast<StructType>(c->getType())) {
            auto v = std::make_shared<std::vector<Val>>();
            for (unsigned i = 0; i < st->getNumElements(); ++i) v->push_back(Val());
            Val r; r.k = V_AGG; r.agg = v; return r;
        }
        return Val();
    }
    if (auto* g = dyn_cast<GlobalObject>(c)) return vPtr(objOfGlobal(S, g), Lin(0));
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return constVal(S, ga->getAliasee());
    if (auto* ge = dyn_cast<GEPOperator>(c)) return evalConstGEP(S, ge);
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        if (ce->getOpcode() == Instruction::PtrToInt || ce->getOpcode() == Instruction::IntToPtr || ce->getOpcode() == Instruction::BitCast) {
            Val v = constVal(S, ce->getOperand(0));
            if (ce->getOpcode() == Instruction::IntToPtr) {
                if (v.k == V_PTR) return v;
                I x; if (asConst(S, v, x) && x == 0) return vNull();
                auto it = S.globals.find(nullptr); // one object stands for all addresses given as numbers
                int o = it != S.globals.end() ? it->second : (S.globals[nullptr] = newObj(S, O_GLOBAL, Lin(0), "inttoptr"));
                return vPtr(o, asConst(S, v, x) ? Lin(x) : Lin(0));
            }
            return v;
        }
        Constant* f = ConstantFoldConstant(ce, *DL);
        if (f && f != c) return constVal(S, f);
        throw Giveup{"constant expression"};
    }
    if (isa<ConstantAggregate>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantDataSequential>(c)) {
        auto v = std::make_shared<std::vector<Val>>();
        for (unsigned i = 0;; ++i) { Constant* e = c->getAggregateElement(i); if (!e) break; v->push_back(constVal(S, e)); }
        Val r; r.k = V_AGG; r.agg = v; return r;
    }
    throw Giveup{"unsupported constant"};
}

static std::string PROP_NOTE;

// ---------------------------------------------------------------- access checks
static void memViolation(State& S, const std::string& kind, const std::string& msg, bool definite)
{
    violation(S, kind, msg, definite);
    throw Abort{kind};
}
// verifies that [off, off+size) lies in the object; throws Abort after recording a violation
static void checkAccess(State& S, const Val& p, const Lin& size, const char* what)
{
    ++N_MEM; if (CUR) MEMSITES.insert(CUR);
    if (p.k == V_UNDEF) memViolation(S, "uninitialised-pointer", std::string(what) + " through an uninitialised pointer", true);
    if (p.k == V_UNKPTR) throw Giveup{std::string(what) + " through an unknown pointer at " + locOf(CUR)};
    if (p.k != V_PTR) throw Giveup{"access through integer at " + locOf(CUR)};
    if (p.obj == 0) { 
        Lin sz = S.F.norm(size); 
        if (sz.isConst() && sz.c == 0) return;
        memViolation(S, "null-dereference", std::string(what) + " through a null pointer", true);
    }
    const Obj& o = *S.objs[p.obj];
    if (!o.alive) memViolation(S, "use-after-free", std::string(what) + " of dead object '" + o.name + "'", true);
    if (o.kind == O_FUNC) memViolation(S, "bad-access", std::string(what) + " of code", true);
    Lin off = S.F.norm(p.lin), sz = S.F.norm(size), os = S.F.norm(o.size);
    bool lo = S.F.proveGE(off), hi = S.F.proveGE(os - off - sz);
    if (lo && hi) return;
    // zero-sized accesses are fine
    if (S.F.proveGE(sz * -1)) return;
    // split on the bound: the out-of-range half is the violation
    Pred pin = mkAnd(mkGE(off), mkGE(os - off - sz));
    int d = S.F.decide(pin);
    if (d == 1) return;
    memViolation(S, "out-of-bounds", std::string(what) + " of " + sz.str() + " byte(s) at offset " + off.str() + " of object '" + o.name +
        "' of size " + os.str(), d == 0);
}

// ---------------------------------------------------------------- loads
static unsigned typeSize(Type* t) { return (unsigned)DL->getTypeStoreSize(t).getFixedValue(); }
static unsigned typeBits(Type* t) { return (unsigned)DL->getTypeSizeInBits(t).getFixedValue(); }

struct ByteV { int k = 0; /*0 undef 1 bits 2 part of value 3 unknown*/ Bits b; Val v; unsigned idx = 0, n = 0; };

static ByteV byteFromVal(State& S, const Val& v, unsigned size, unsigned idx)
{
    ByteV r;
    if (v.k == V_UNDEF) return r;
    if (v.k == V_INT) {
        Bits b = getBits(S, v);
        b.resize(size * 8, 0);
        r.k = 1; r.b = Bits(b.begin() + idx * 8, b.begin() + idx * 8 + 8);
        return r;
    }
    r.k = 2; r.v = v; r.idx = idx; r.n = size;
    return r;
}
static ByteV initByte(State& S, const Obj& o, const Lin& off)
{
    ByteV r;
    switch (o.init) {
    case 0: return r;
    case 1: r.k = 1; r.b = Bits(8, 0); return r;
    case 2: {
        int s = symByte(o.id, 0, S.F.norm(off), o.name);
        r.k = 1; for (unsigned i = 0; i < 8; ++i) r.b.push_back(S.F.normBit(bitLit(s, i, false)));
        return r;
    }
    case 4: {
        Lin n = S.F.norm(off);
        if (!n.isConst()) { r.k = 3; return r; }
        const Constant* c = o.gv->getInitializer();
        APInt a(64, (uint64_t)(int64_t)n.c);
        Constant* b = ConstantFoldLoadFromConst(const_cast<Constant*>(c), Type::getInt8Ty(M->getContext()), a, *DL);
        if (b && isa<ConstantInt>(b)) { u64 x = cast<ConstantInt>(b)->getZExtValue(); r.k = 1; for (unsigned i = 0; i < 8; ++i) r.b.push_back((x >> i) & 1); return r; }
        r.k = 3; return r;
    }
    default: r.k = 3; return r;
    }
}
static ByteV loadByte(State& S, const Obj& o, const Lin& off0, int depth = 0)
{
    Lin off = S.F.norm(off0);
    if (o.log.empty()) {
        if (off.isConst()) {
            int64_t k = (int64_t)off.c;
            auto it = o.cells.upper_bound(k);
            if (it != o.cells.begin()) {
                --it;
                unsigned sz = o.csz.at(it->first);
                if (k < it->first + (int64_t)sz) return byteFromVal(S, it->second, sz, (unsigned)(k - it->first));
            }
            return initByte(S, o, off);
        }
        if (o.cells.empty()) return initByte(S, o, off);
        // symbolic offset over constant cells: a provably untouched byte of a symbolic buffer, else enumerate
        bool clear = true;
        for (auto& c : o.cells) {
            int64_t a = c.first, e = c.first + o.csz.at(c.first);
            if (S.F.proveGE(off - Lin(e)) || S.F.proveGE(Lin(a - 1) - off)) continue;
            clear = false; break;
        }
        if (clear) return initByte(S, o, off);
        I v = enumVals(S, off, 600, "load offset");
        return loadByte(S, o, Lin(v), depth);
    }
    for (size_t i = o.log.size(); i-- > 0;) {
        const WriteRec& r = o.log[i];
        Lin d = S.F.norm(off - r.off);           // inside iff 0 <= d < size
        if (S.F.proveGE(d * -1 - Lin(1)) || S.F.proveGE(d - r.size)) continue;
        if (!(S.F.proveGE(d) && S.F.proveGE(r.size - d - Lin(1)))) {
            Pred p = mkGE(d); if (S.F.decide(p) < 0) throw ForkReq{p};
            Pred q = mkGE(r.size - d - Lin(1)); if (S.F.decide(q) < 0) throw ForkReq{q};
            throw Giveup{"undecided overlap"};
        }
        if (r.kind == 0) {
            if (!d.isConst()) { I v = enumVals(S, d, 64, "write record offset"); d = Lin(v); }
            return byteFromVal(S, r.v, (unsigned)S.F.norm(r.size).c, (unsigned)d.c);
        }
        if (r.kind == 1) return byteFromVal(S, r.v, 1, 0);
        if (r.kind == 2) { if (depth > 20) throw Giveup{"deep copy chain"}; return loadByte(S, *r.src, r.srcOff + d, depth + 1); }
        ByteV u;
        u.k = 1; int s = symByte(1000000 + r.id, 0, d, "unknown"); for (unsigned j = 0; j < 8; ++j) u.b.push_back(bitLit(s, j, false));
        return u;
    }
    if (off.isConst()) {
        Obj tmp = o; tmp.log.clear();
        return loadByte(S, tmp, off, depth);
    }
    if (!o.cells.empty()) { Obj tmp = o; tmp.log.clear(); return loadByte(S, tmp, off, depth); }
    return initByte(S, o, off);
}

static Val retype(State& S, const Val& v, Type* t)
{
    if (v.k == V_UNDEF) return v;
    if (t->isPointerTy()) {
        if (v.k == V_PTR || v.k == V_UNKPTR) return v;
        I c; if (asConst(S, v, c) && c == 0) return vNull();
        Val r; r.k = V_UNKPTR; r.w = 64; return r;
    }
    return v;
}
static Val loadVal(State& S, const Val& p, Type* t);
static Val loadRaw(State& S, const Obj& o, const Lin& off, Type* t)
{
    if (auto* st = dyn_cast<StructType>(t)) {
        auto v = std::make_shared<std::vector<Val>>();
        const StructLayout* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) v->push_back(loadRaw(S, o, off + Lin((I)sl->getElementOffset(i)), st->getElementType(i)));
        Val r; r.k = V_AGG; r.agg = v; return r;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
        auto v = std::make_shared<std::vector<Val>>();
        for (uint64_t i = 0; i < at->getNumElements(); ++i) v->push_back(loadRaw(S, o, off + Lin((I)(i * DL->getTypeAllocSize(at->getElementType()).getFixedValue())), at->getElementType()));
        Val r; r.k = V_AGG; r.agg = v; return r;
    }
    unsigned n = typeSize(t);
    Lin k = S.F.norm(off);
    if (k.isConst() && o.log.empty()) {
        auto it = o.cells.find((int64_t)k.c);
        if (it != o.cells.end() && o.csz.at(it->first) == n) {
            Val v = it->second;
            unsigned tb = typeBits(t);
            if (v.k == V_INT && tb < v.w) { Bits b = getBits(S, v); b.resize(tb); return vBits(b); }
            return retype(S, v, t);
        }
        // constant initialiser
        bool overlap = false;
        auto ub = o.cells.lower_bound((int64_t)k.c + n);
        if (ub != o.cells.begin()) { --ub; if (ub->first + (int64_t)o.csz.at(ub->first) > (int64_t)k.c) overlap = true; }
        if (!overlap && o.init == 4) {
            APInt a(64, (uint64_t)(int64_t)k.c);
            Constant* c = ConstantFoldLoadFromConst(const_cast<Constant*>(o.gv->getInitializer()), t, a, *DL);
            if (c) return constVal(S, c);
        }
        if (!overlap && o.init == 0) return Val();
        if (!overlap && o.init == 3) {
            if (t->isPointerTy()) { Val r; r.k = V_UNKPTR; r.w = 64; S.imprecise = true; return r; }
            int s = symOpq("ext" + std::to_string(o.id) + "@" + std::to_string((long long)k.c) + "." + std::to_string(n), typeBits(t), o.name + "@" + std::to_string((long long)k.c));
            S.imprecise = true;
            if (typeBits(t) == 1) return vBool(mkEQ(Lin::sym(s) - Lin(1)));
            return vInt(typeBits(t), Lin::sym(s));
        }
    }
    if (!k.isConst() && o.init == 4 && o.log.empty()) {
        I lo, hi; S.F.ival(k, lo, hi); tightIval(S, k, lo, hi);
        if (S.mode.count("lazytable") && S.mode["lazytable"] && !t->isPointerTy() && hi - lo <= 65536) {
            // a summary of all table entries in reach instead of one partition per entry
            I mn = INF, mx = -INF;
            for (I i = lo; i <= hi; ++i) {
                APInt a(64, (uint64_t)(int64_t)i);
                Constant* c = ConstantFoldLoadFromConst(const_cast<Constant*>(o.gv->getInitializer()), t, a, *DL);
                auto* ci = dyn_cast_or_null<ConstantInt>(c);
                if (!ci) { mn = 0; mx = pow2(n * 8) - 1; break; }
                I e = (I)ci->getZExtValue(); if (e < mn) mn = e; if (e > mx) mx = e;
            }
            int s = symOpq("table" + o.name + "@" + k.str() + "." + std::to_string(n), n * 8, o.name + "[" + k.str() + "]");
            if (!S.F.refine(s, mn, mx)) throw Giveup{"table bounds"};
            return vInt(typeBits(t), Lin::sym(s));
        }
        I v = enumVals(S, k, 4096, "table offset");
        return loadRaw(S, o, Lin(v), t);
    }
    // log mode: exact newest record first
    if (!o.log.empty()) {
        for (size_t i = o.log.size(); i-- > 0;) {
            const WriteRec& r = o.log[i];
            Lin d = S.F.norm(k - r.off);
            if (r.kind == 0 && d.isConst() && d.c == 0 && r.size.isConst() && r.size.c == (I)n) {
                if (r.v.k == V_INT && r.v.w > typeBits(t)) { Bits b = getBits(S, r.v); b.resize(typeBits(t)); return vBits(b); }
                return retype(S, r.v, t);
            }
            if (S.F.proveGE(d * -1 - Lin((I)n)) || S.F.proveGE(d - r.size)) continue;
            if (r.kind == 2 && S.F.proveGE(d) && S.F.proveGE(r.size - d - Lin((I)n))) return loadRaw(S, *r.src, r.srcOff + d, t);
            break;
        }
    }
    std::vector<ByteV> bs;
    for (unsigned i = 0; i < n; ++i) bs.push_back(loadByte(S, o, k + Lin((I)i)));
    // reassembled pointer or whole value
    if (bs[0].k == 2) {
        bool all = bs[0].idx == 0 && bs[0].n == n;
        for (unsigned i = 0; i < n && all; ++i) all = bs[i].k == 2 && bs[i].idx == i && sameVal(bs[i].v, bs[0].v);
        if (all) return retype(S, bs[0].v, t);
        if (t->isPointerTy()) { Val r; r.k = V_UNKPTR; r.w = 64; S.imprecise = true; return r; }
    }
    Bits b; bool undef = true, unknown = false;
    for (unsigned i = 0; i < n; ++i) {
        if (bs[i].k != 0) undef = false;
        if (bs[i].k == 1) b.insert(b.end(), bs[i].b.begin(), bs[i].b.end());
        else { if (bs[i].k >= 2) unknown = true; b.insert(b.end(), 8, BTOP); }
    }
    if (undef) return Val();
    if (unknown) S.imprecise = true;
    b.resize(typeBits(t));
    if (t->isPointerTy()) {
        bool zero = true; for (auto x : b) if (S.F.normBit(x) != 0) zero = false;
        if (zero) return vNull();
        Val r; r.k = V_UNKPTR; r.w = 64; return r;
    }
    // prefer whole symbols
    return vBits(b);
}
static Val loadVal(State& S, const Val& p, Type* t)
{
    checkAccess(S, p, Lin((I)typeSize(t)), "load");
    return loadRaw(S, *S.objs[p.obj], p.lin, t);
}

// ---------------------------------------------------------------- stores
static void clearRange(State& S, Obj& o, int64_t off, int64_t n)
{
    // drop / split the cells overlapping [off, off+n)
    std::vector<int64_t> hit;
    auto it = o.cells.lower_bound(off + n);
    while (it != o.cells.begin()) {
        --it;
        if (it->first + (int64_t)o.csz[it->first] > off) hit.push_back(it->first);
        else break;
    }
    for (int64_t h : hit) {
        Val v = o.cells[h]; int64_t sz = o.csz[h];
        o.cells.erase(h); o.csz.erase(h);
        for (int64_t i = 0; i < sz; ++i) {
            int64_t a = h + i;
            if (a >= off && a < off + n) continue;
            Val bv;
            if (v.k == V_INT) { Bits b = getBits(S, v); b.resize(sz * 8, 0); bv = vBits(Bits(b.begin() + i * 8, b.begin() + i * 8 + 8)); }
            o.cells[a] = bv; o.csz[a] = 1;
        }
    }
}
static bool storableCells(const Obj& o) { return o.log.empty(); }
static void storeRaw(State& S, int id, const Lin& off0, const Val& v, unsigned n);
static void storeTyped(State& S, int id, const Lin& off, const Val& v, Type* t)
{
    if (v.k == V_AGG) {
        if (auto* st = dyn_cast<StructType>(t)) {
            const StructLayout* sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); ++i) storeTyped(S, id, off + Lin((I)sl->getElementOffset(i)), (*v.agg)[i], st->getElementType(i));
            return;
        }
        if (auto* at = dyn_cast<ArrayType>(t)) {
            for (uint64_t i = 0; i < at->getNumElements(); ++i) storeTyped(S, id, off + Lin((I)(i * DL->getTypeAllocSize(at->getElementType()).getFixedValue())), (*v.agg)[i], at->getElementType());
            return;
        }
    }
    storeRaw(S, id, off, v, typeSize(t));
}
static void storeRaw(State& S, int id, const Lin& off0, const Val& v, unsigned n)
{
    Lin off = S.F.norm(off0);
    if (off.isConst() && storableCells(*S.objs[id])) {
        // evaluate splits before mutating
        { const Obj& c = *S.objs[id]; auto it = c.cells.lower_bound((int64_t)off.c + n);
          while (it != c.cells.begin()) { --it; if (it->first + (int64_t)c.csz.at(it->first) <= (int64_t)off.c) break;
              if (it->second.k == V_INT && !(it->first >= (int64_t)off.c && it->first + (int64_t)c.csz.at(it->first) <= (int64_t)off.c + (int64_t)n)) getBits(S, it->second); } }
        Obj& o = S.w(id);
        clearRange(S, o, (int64_t)off.c, n);
        o.cells[(int64_t)off.c] = v; o.csz[(int64_t)off.c] = n;
        return;
    }
    if (!off.isConst() && S.objs[id]->log.empty()) {
        Lin sz = S.F.norm(S.objs[id]->size);
        if (sz.isConst() && sz.c <= 64 && S.objs[id]->kind != O_BUF) {
            I v2 = enumVals(S, off, 64, "store offset");
            storeRaw(S, id, Lin(v2), v, n);
            return;
        }
    }
    Obj& o = S.w(id);
    WriteRec r; r.off = off; r.size = Lin((I)n); r.kind = 0; r.v = v; r.id = S.seq++;
    // an exactly overwritten older record is dead
    for (size_t i = o.log.size(); i-- > 0;) {
        if (o.log[i].kind == 0 && o.log[i].off == off && o.log[i].size == r.size) { o.log.erase(o.log.begin() + i); break; }
    }
    o.log.push_back(r);
}
static void checkWritable(State& S, const Val& p, const char* what)
{
    if (p.k == V_PTR && p.obj && S.objs[p.obj]->ro) memViolation(S, "write-to-constant", std::string(what) + " to read-only object '" + S.objs[p.obj]->name + "'", true);
}
static void storeVal(State& S, const Val& p, const Val& v, Type* t)
{
    checkAccess(S, p, Lin((I)typeSize(t)), "store");
    checkWritable(S, p, "store");
    storeTyped(S, p.obj, p.lin, v, t);
}
static void memCopy(State& S, const Val& d, const Val& s, const Lin& n0)
{
    Lin n = S.F.norm(n0);
    if (n.isConst() && n.c == 0) return;
    if (d.k == V_PTR && s.k == V_PTR && (d.obj == 0 || s.obj == 0) && !n.isConst()) {
        Pred p = mkEQ(n); if (S.F.decide(p) < 0) throw ForkReq{p};
        if (S.F.decide(p) == 1) return;
    }
    checkAccess(S, s, n, "copy from");
    checkAccess(S, d, n, "copy to");
    checkWritable(S, d, "copy");
    Lin so = S.F.norm(s.lin), dof = S.F.norm(d.lin);
    if (d.obj == s.obj && so == dof) return;
    if (n.isConst() && n.c <= 4096 && so.isConst() && dof.isConst() && S.objs[s.obj]->log.empty() && S.objs[d.obj]->log.empty()) {
        // cell-wise copy
        const Obj src = *S.objs[s.obj];
        int64_t a = (int64_t)so.c, e = a + (int64_t)n.c, dd = (int64_t)dof.c;
        std::vector<std::tuple<int64_t, unsigned, Val>> cp;
        auto it = src.cells.upper_bound(a); if (it != src.cells.begin()) --it;
        std::vector<std::pair<int64_t, int64_t>> covered;
        for (; it != src.cells.end() && it->first < e; ++it) {
            int64_t c0 = it->first, c1 = c0 + src.csz.at(c0);
            if (c1 <= a) continue;
            if (c0 >= a && c1 <= e) cp.push_back({c0 - a + dd, (unsigned)(c1 - c0), it->second});
            else for (int64_t i = std::max(c0, a); i < std::min(c1, e); ++i) {
                ByteV b = byteFromVal(S, it->second, (unsigned)(c1 - c0), (unsigned)(i - c0));
                cp.push_back({i - a + dd, 1, b.k == 1 ? vBits(b.b) : Val()});
            }
            covered.push_back({std::max(c0, a), std::min(c1, e)});
        }
        if (src.init != 0) {
            int64_t pos = a;
            auto fill = [&](int64_t f, int64_t t) {
                while (f < t) {
                    unsigned step = 1;
                    if (src.init == 4 && f % 8 == 0 && f + 8 <= t) {
                        APInt ap(64, (uint64_t)f);
                        Constant* c = ConstantFoldLoadFromConst(const_cast<Constant*>(src.gv->getInitializer()), PointerType::get(M->getContext(), 0), ap, *DL);
                        if (c && !isa<ConstantPointerNull>(c) && (isa<GlobalObject>(c) || isa<GEPOperator>(c))) { cp.push_back({f - a + dd, 8, constVal(S, c)}); f += 8; continue; }
                    }
                    ByteV b = initByte(S, src, Lin((I)f));
                    Val bv = b.k == 1 ? vBits(b.b) : freshInt(S, 8, "unk");
                    cp.push_back({f - a + dd, step, bv});
                    f += step;
                }
            };
            for (auto& c : covered) { fill(pos, c.first); pos = c.second; }
            fill(pos, e);
        }
        Obj& o = S.w(d.obj);
        clearRange(S, o, dd, (int64_t)n.c);
        if (src.init == 0 && o.init != 0) for (int64_t i = 0; i < (int64_t)n.c; ++i) { o.cells[dd + i] = Val(); o.csz[dd + i] = 1; }
        if (src.init == 0 && o.init != 0) for (auto& c : cp) clearRange(S, o, std::get<0>(c), std::get<1>(c));
        for (auto& c : cp) { o.cells[std::get<0>(c)] = std::get<2>(c); o.csz[std::get<0>(c)] = std::get<1>(c); }
        return;
    }
    auto snap = std::make_shared<Obj>(*S.objs[s.obj]);
    if (n.isConst() && n.c <= 64 && (dof.isConst() && S.objs[d.obj]->log.empty())) {
        std::vector<Val> bytes;
        for (I i = 0; i < n.c; ++i) { ByteV b = loadByte(S, *snap, so + Lin(i)); bytes.push_back(b.k == 1 ? vBits(b.b) : Val()); }
        for (I i = 0; i < n.c; ++i) storeRaw(S, d.obj, dof + Lin(i), bytes[(size_t)i], 1);
        return;
    }
    Obj& o = S.w(d.obj);
    WriteRec r; r.off = dof; r.size = n; r.kind = 2; r.src = snap; r.srcOff = so; r.id = S.seq++;
    o.log.push_back(r);
}
static void memFill(State& S, const Val& d, const Val& b, const Lin& n0)
{
    Lin n = S.F.norm(n0);
    if (n.isConst() && n.c == 0) return;
    if (d.k == V_PTR && d.obj == 0 && !n.isConst()) { Pred p = mkEQ(n); int k = S.F.decide(p); if (k < 0) throw ForkReq{p}; if (k == 1) return; }
    checkAccess(S, d, n, "fill");
    checkWritable(S, d, "fill");
    Lin dof = S.F.norm(d.lin);
    I c;
    if (n.isConst() && n.c <= 1024 && dof.isConst() && S.objs[d.obj]->log.empty()) {
        int64_t dd = (int64_t)dof.c;
        bool isz = asConst(S, b, c) && c == 0;
        Obj& o = S.w(d.obj);
        clearRange(S, o, dd, (int64_t)n.c);
        int64_t i = 0;
        while (i < (int64_t)n.c) {
            if (isz && (dd + i) % 8 == 0 && i + 8 <= (int64_t)n.c) { o.cells[dd + i] = vConst(64, 0); o.csz[dd + i] = 8; i += 8; }
            else { o.cells[dd + i] = b; o.csz[dd + i] = 1; ++i; }
        }
        return;
    }
    Obj& o = S.w(d.obj);
    WriteRec r; r.off = dof; r.size = n; r.kind = 1; r.v = b; r.id = S.seq++;
    o.log.push_back(r);
}

#include "interp.inc"
