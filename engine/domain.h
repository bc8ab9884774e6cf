// Abstract domains of the zabs analyser: linear expressions, bit provenance, predicates.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <functional>
#include <optional>

typedef __int128 I;
typedef uint64_t u64;

struct Overflow {};          // arithmetic of the analyser itself left 128 bits: result is "unknown"

static inline I cadd(I a, I b) { I r; if (__builtin_add_overflow(a, b, &r)) throw Overflow(); return r; }
static inline I cmul(I a, I b) { I r; if (__builtin_mul_overflow(a, b, &r)) throw Overflow(); return r; }
static inline I fdivI(I a, I b) { I q = a / b; if ((a % b != 0) && ((a < 0) != (b < 0))) --q; return q; }
static inline I gcdI(I a, I b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { I t = a % b; a = b; b = t; } return a; }
static inline I pow2(unsigned k) { return ((I)1) << k; }
static const I INF = ((I)1) << 120;

std::string itoaI(I v);

struct Lin {
    I c = 0;
    std::vector<std::pair<int, I>> t;
    Lin() {}
    Lin(I k) : c(k) {}
    static Lin sym(int s, I k = 1) { Lin l; l.t.push_back({s, k}); return l; }
    bool isConst() const { return t.empty(); }
    bool operator==(const Lin& o) const { return c == o.c && t == o.t; }
    bool operator<(const Lin& o) const { if (c != o.c) return c < o.c; return t < o.t; }
    Lin plus(const Lin& o, I k = 1) const {
        Lin r; r.c = cadd(c, cmul(o.c, k));
        size_t i = 0, j = 0;
        while (i < t.size() || j < o.t.size()) {
            if (j >= o.t.size() || (i < t.size() && t[i].first < o.t[j].first)) r.t.push_back(t[i++]);
            else if (i >= t.size() || o.t[j].first < t[i].first) { I v = cmul(o.t[j].second, k); if (v) r.t.push_back({o.t[j].first, v}); ++j; }
            else { I v = cadd(t[i].second, cmul(o.t[j].second, k)); if (v) r.t.push_back({t[i].first, v}); ++i; ++j; }
        }
        return r;
    }
    Lin operator+(const Lin& o) const { return plus(o, 1); }
    Lin operator-(const Lin& o) const { return plus(o, -1); }
    Lin operator*(I k) const { Lin r; if (k == 0) return r; r.c = cmul(c, k); for (auto& p : t) r.t.push_back({p.first, cmul(p.second, k)}); return r; }
    std::string str() const;
};

// ---------------------------------------------------------------- symbols
enum SymKind { S_SRC, S_BYTE, S_RUN, S_DEF, S_FDIV, S_OPQ, S_ADDR };
struct SymInfo {
    SymKind kind; unsigned w;        // unsigned bit width (0: unbounded DEF)
    I lo, hi;                        // universal bounds
    int base = -1; unsigned rlo = 0, rlen = 0;   // RUN
    Lin def; I k = 1;                // DEF: value == def ; FDIV: floor(def / k)
    std::string name;
    std::vector<Lin> facts;          // universally valid (>= 0)
};
extern std::vector<SymInfo> SYM;

int newSrc(const std::string& name, unsigned w, I lo, I hi);
int symRun(int base, unsigned lo, unsigned len);
int symDef(const Lin& l);
int symFdiv(const Lin& l, I k);
int symOpq(const std::string& key, unsigned w, const std::string& name);
int symByte(int bufId, int epoch, const Lin& off, const std::string& name);

// ---------------------------------------------------------------- bits
typedef u64 Bit;             // 0, 1, 2 = unknown, else literal
static const Bit BTOP = 2;
static inline Bit bitLit(int s, unsigned idx, bool neg) { return 4 + ((((u64)s) * 128 + idx) * 2 + (neg ? 1 : 0)); }
static inline bool isLit(Bit b) { return b >= 4; }
static inline int litSym(Bit b) { return (int)((b - 4) / 256); }
static inline unsigned litIdx(Bit b) { return (unsigned)(((b - 4) / 2) % 128); }
static inline bool litNeg(Bit b) { return (b - 4) & 1; }
static inline Bit bitNot(Bit b) { if (b == 0) return 1; if (b == 1) return 0; if (b == BTOP) return BTOP; return ((b - 4) ^ 1) + 4; }
typedef std::vector<Bit> Bits;

// ---------------------------------------------------------------- predicates (hash-consed)
enum PK { P_FALSE, P_TRUE, P_GE, P_EQ, P_NE, P_BIT, P_AND, P_OR, P_UNK };
typedef int Pred;
struct PredNode { PK k; Lin l; Bit b = 0; Pred x = 0, y = 0; int id = 0; bool neg = false; };
extern std::vector<PredNode> PRED;
static const Pred PF = 0, PT = 1;
Pred mkGE(Lin l);
Pred mkEQ(Lin l);
Pred mkNE(Lin l);
Pred mkBit(Bit b);
Pred mkAnd(Pred a, Pred b);
Pred mkOr(Pred a, Pred b);
Pred mkUnk(const std::string& key);
Pred mkNot(Pred a);
std::string predStr(Pred p, int depth = 0);

// ---------------------------------------------------------------- numeric facts of one abstract state
struct Bnd { I lo, hi; };
struct Facts {
    std::map<int, Bnd> bnd;
    std::map<int, std::pair<u64, u64>> kb;     // known bits: mask, value
    std::vector<Lin> cons;                     // each >= 0
    std::vector<Lin> neq;                      // each != 0
    std::map<int, Lin> subst;                  // sym := lin
    std::map<int, bool> unk;                   // truth of opaque predicates
    bool dead = false;

    Bnd symBounds(int s) const;
    void ival(const Lin& l, I& lo, I& hi) const;
    Lin norm(const Lin& l) const;
    bool lowRunOfDef(int s) const;
    Lin canon(const Lin& l) const;
    bool proveGE(const Lin& l) const;          // l >= 0 in every concretisation
    bool infeasible() const;
    bool fm(std::vector<Lin> sys) const;       // true: the system is infeasible
    void addCons(Lin l);
    bool refine(int s, I lo, I hi);            // false: infeasible
    bool kbTight(int s);
    bool settle(int s);
    bool setBit(int s, unsigned idx, bool v);
    Bit normBit(Bit b) const;
    bool assume(Pred p);                       // P_OR must have been split; false: infeasible
    int decide(Pred p) const;                  // 1 true, 0 false, -1 unknown
    Pred firstUndecided(Pred p) const;
    bool bitsOf(const Lin& l, unsigned w, Bits& out) const;   // false: not representable
    Lin linOfBits(const Bits& b) const;        // exact value of the bit vector (unsigned, mod 2^w reduced)
    bool linOfBitsOk(const Bits& b, Lin& out) const;
    std::string str() const;
};
