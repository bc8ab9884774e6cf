#include "domain.h"

std::vector<SymInfo> SYM;
std::vector<PredNode> PRED = {PredNode{P_FALSE, {}, 0, 0, 0, 0, false}, PredNode{P_TRUE, {}, 0, 0, 0, 0, false}};

std::string itoaI(I v)
{
    if (v == 0) return "0";
    bool n = v < 0; std::string s;
    unsigned __int128 u = n ? -(unsigned __int128)v : (unsigned __int128)v;
    while (u) { s.insert(s.begin(), char('0' + (int)(u % 10))); u /= 10; }
    return n ? "-" + s : s;
}

static std::string symName(int s) { return SYM[s].name; }

std::string Lin::str() const
{
    std::string s;
    for (auto& p : t) {
        if (!s.empty()) s += " + ";
        if (p.second != 1) s += itoaI(p.second) + "*";
        s += symName(p.first);
    }
    if (c != 0 || s.empty()) { if (!s.empty()) s += " + "; s += itoaI(c); }
    return s;
}

int newSrc(const std::string& name, unsigned w, I lo, I hi)
{
    SymInfo si; si.kind = S_SRC; si.w = w; si.lo = lo; si.hi = hi; si.name = name;
    SYM.push_back(si);
    return (int)SYM.size() - 1;
}

static std::map<std::string, int>& keyTab() { static std::map<std::string, int> m; return m; }

static std::string linKey(const Lin& l)
{
    std::string s = itoaI(l.c);
    for (auto& p : l.t) s += "," + std::to_string(p.first) + ":" + itoaI(p.second);
    return s;
}

int symRun(int base, unsigned lo, unsigned len)
{
    if (SYM[base].kind == S_RUN) { lo += SYM[base].rlo; base = SYM[base].base; }
    if (lo == 0 && SYM[base].w && len >= SYM[base].w && SYM[base].kind != S_DEF) return base;
    std::string key = "R" + std::to_string(base) + "," + std::to_string(lo) + "," + std::to_string(len);
    auto it = keyTab().find(key);
    if (it != keyTab().end()) return it->second;
    SymInfo si; si.kind = S_RUN; si.w = len; si.lo = 0; si.hi = pow2(len) - 1; si.base = base; si.rlo = lo; si.rlen = len;
    si.name = SYM[base].name + "[" + std::to_string(lo + len - 1) + ":" + std::to_string(lo) + "]";
    SYM.push_back(si);
    int s = (int)SYM.size() - 1;
    keyTab()[key] = s;
    return s;
}

int symDef(const Lin& l)
{
    std::string key = "D" + linKey(l);
    auto it = keyTab().find(key);
    if (it != keyTab().end()) return it->second;
    SymInfo si; si.kind = S_DEF; si.w = 0; si.lo = -INF; si.hi = INF; si.def = l; si.name = "(" + l.str() + ")";
    SYM.push_back(si);
    int s = (int)SYM.size() - 1;
    keyTab()[key] = s;
    return s;
}

int symFdiv(const Lin& l, I k)
{
    // floor((floor(x / a) + c) / b) == floor((x + c * a) / (a * b))
    if (l.t.size() == 1 && l.t[0].second == 1 && SYM[l.t[0].first].kind == S_FDIV && SYM[l.t[0].first].k > 0 && k > 0) {
        const SymInfo& b = SYM[l.t[0].first];
        const Lin d = b.def + Lin(cmul(l.c, b.k)); const I kk = cmul(b.k, k);
        return symFdiv(d, kk);
    }
    std::string key = "Q" + linKey(l) + "/" + itoaI(k);
    auto it = keyTab().find(key);
    if (it != keyTab().end()) return it->second;
    SymInfo si; si.kind = S_FDIV; si.w = 0; si.lo = -INF; si.hi = INF; si.def = l; si.k = k;
    si.name = "(" + l.str() + ")/" + itoaI(k);
    SYM.push_back(si);
    int s = (int)SYM.size() - 1;
    Lin q = Lin::sym(s, k);
    SYM[s].facts.push_back(l - q);                   // l - k*q >= 0
    SYM[s].facts.push_back(q + Lin(k - 1) - l);      // k*q + k-1 - l >= 0
    keyTab()[key] = s;
    return s;
}

int symOpq(const std::string& key0, unsigned w, const std::string& name)
{
    std::string key = "O" + key0 + "#" + std::to_string(w);
    auto it = keyTab().find(key);
    if (it != keyTab().end()) return it->second;
    SymInfo si; si.kind = S_OPQ; si.w = w; si.lo = 0; si.hi = pow2(w) - 1; si.name = name;
    SYM.push_back(si);
    int s = (int)SYM.size() - 1;
    keyTab()[key] = s;
    return s;
}

int symByte(int bufId, int epoch, const Lin& off, const std::string& name)
{
    std::string key = "B" + std::to_string(bufId) + "." + std::to_string(epoch) + "@" + linKey(off);
    auto it = keyTab().find(key);
    if (it != keyTab().end()) return it->second;
    SymInfo si; si.kind = S_BYTE; si.w = 8; si.lo = 0; si.hi = 255; si.name = name + "[" + off.str() + "]";
    SYM.push_back(si);
    int s = (int)SYM.size() - 1;
    keyTab()[key] = s;
    return s;
}

// ---------------------------------------------------------------- predicates
static std::map<std::string, Pred>& predTab() { static std::map<std::string, Pred> m; return m; }
static Pred internPred(const std::string& key, PredNode n)
{
    auto it = predTab().find(key);
    if (it != predTab().end()) return it->second;
    PRED.push_back(n);
    return predTab()[key] = (Pred)PRED.size() - 1;
}
static void gcdTighten(Lin& l)
{
    if (l.t.empty()) return;
    I g = 0;
    for (auto& p : l.t) g = gcdI(g, p.second);
    if (g > 1) { for (auto& p : l.t) p.second /= g; l.c = fdivI(l.c, g); }
}
Pred mkGE(Lin l)
{
    if (l.isConst()) return l.c >= 0 ? PT : PF;
    gcdTighten(l);
    return internPred("G" + linKey(l), PredNode{P_GE, l, 0, 0, 0, 0, false});
}
static Pred eqCommon(Lin l, bool eq)
{
    if (l.isConst()) return (l.c == 0) == eq ? PT : PF;
    I g = 0;
    for (auto& p : l.t) g = gcdI(g, p.second);
    if (g > 1) { if (l.c % g != 0) return eq ? PF : PT; for (auto& p : l.t) p.second /= g; l.c /= g; }
    if (l.t[0].second < 0) { l = l * -1; }
    if (l.t.size() == 1 && l.t[0].second == 1) {
        const SymInfo& si = SYM[l.t[0].first];
        if (si.w == 1 && (si.kind != S_DEF)) {
            I v = -l.c;
            if (v != 0 && v != 1) return eq ? PF : PT;
            Bit b = si.kind == S_RUN ? bitLit(si.base, si.rlo, false) : bitLit(l.t[0].first, 0, false);
            return mkBit((v == 1) == eq ? b : bitNot(b));
        }
        if (si.lo > -l.c || si.hi < -l.c) return eq ? PF : PT;
    }
    return internPred((eq ? "E" : "N") + linKey(l), PredNode{eq ? P_EQ : P_NE, l, 0, 0, 0, 0, false});
}
Pred mkEQ(Lin l) { return eqCommon(l, true); }
Pred mkNE(Lin l) { return eqCommon(l, false); }
Pred mkBit(Bit b)
{
    if (b == 0) return PF;
    if (b == 1) return PT;
    if (b == BTOP) return mkUnk("fresh" + std::to_string(PRED.size()));
    return internPred("b" + std::to_string(b), PredNode{P_BIT, {}, b, 0, 0, 0, false});
}
Pred mkAnd(Pred a, Pred b)
{
    if (a == PF || b == PF) return PF;
    if (a == PT) return b;
    if (b == PT) return a;
    if (a == b) return a;
    return internPred("&" + std::to_string(a) + "," + std::to_string(b), PredNode{P_AND, {}, 0, a, b, 0, false});
}
Pred mkOr(Pred a, Pred b)
{
    if (a == PT || b == PT) return PT;
    if (a == PF) return b;
    if (b == PF) return a;
    if (a == b) return a;
    return internPred("|" + std::to_string(a) + "," + std::to_string(b), PredNode{P_OR, {}, 0, a, b, 0, false});
}
static int unkCount = 0;
static std::map<std::string, int>& unkIds() { static std::map<std::string, int> m; return m; }
static Pred mkUnkId(int id, bool neg) { return internPred("u" + std::to_string(id) + (neg ? "-" : "+"), PredNode{P_UNK, {}, 0, 0, 0, id, neg}); }
Pred mkUnk(const std::string& key)
{
    auto it = unkIds().find(key);
    int id = it != unkIds().end() ? it->second : (unkIds()[key] = unkCount++);
    return mkUnkId(id, false);
}
Pred mkNot(Pred a)
{
    PredNode n = PRED[a];
    switch (n.k) {
    case P_FALSE: return PT;
    case P_TRUE: return PF;
    case P_GE: return mkGE(n.l * -1 + Lin(-1));
    case P_EQ: return mkNE(n.l);
    case P_NE: return mkEQ(n.l);
    case P_BIT: return mkBit(bitNot(n.b));
    case P_AND: return mkOr(mkNot(n.x), mkNot(n.y));
    case P_OR: return mkAnd(mkNot(n.x), mkNot(n.y));
    case P_UNK: return mkUnkId(n.id, !n.neg);
    }
    return PT;
}
std::string predStr(Pred p, int depth)
{
    const PredNode& n = PRED[p];
    if (depth > 6) return "...";
    switch (n.k) {
    case P_FALSE: return "false";
    case P_TRUE: return "true";
    case P_GE: return n.l.str() + " >= 0";
    case P_EQ: return n.l.str() + " == 0";
    case P_NE: return n.l.str() + " != 0";
    case P_BIT: return std::string(litNeg(n.b) ? "!" : "") + SYM[litSym(n.b)].name + "." + std::to_string(litIdx(n.b));
    case P_AND: return "(" + predStr(n.x, depth + 1) + " && " + predStr(n.y, depth + 1) + ")";
    case P_OR: return "(" + predStr(n.x, depth + 1) + " || " + predStr(n.y, depth + 1) + ")";
    case P_UNK: return std::string(n.neg ? "!" : "") + "opaque" + std::to_string(n.id);
    }
    return "?";
}

// ---------------------------------------------------------------- facts
Bnd Facts::symBounds(int s) const
{
    Bnd b{SYM[s].lo, SYM[s].hi};
    auto it = bnd.find(s);
    if (it != bnd.end()) { b.lo = std::max(b.lo, it->second.lo); b.hi = std::min(b.hi, it->second.hi); }
    const SymInfo& si = SYM[s];
    if (si.kind == S_DEF) {
        if (!si.def.isConst()) {
            I lo, hi; ival(si.def, lo, hi);
            b.lo = std::max(b.lo, lo); b.hi = std::min(b.hi, hi);
            const auto& t = si.def.t;
            if (t.size() > 1) for (auto& c : cons) {      // constraints on the same or the opposite linear part
                if (c.t.size() != t.size() || c.t[0].first != t[0].first) continue;
                if (c.t == t) { b.lo = std::max(b.lo, si.def.c - c.c); continue; }
                bool opp = true;
                for (size_t i = 0; opp && i < t.size(); ++i) opp = c.t[i].first == t[i].first && c.t[i].second == -t[i].second;
                if (opp) b.hi = std::min(b.hi, si.def.c + c.c);
            }
        }
    } else if (si.kind == S_FDIV) {
        I lo, hi; ival(si.def, lo, hi);
        if (lo > -INF) b.lo = std::max(b.lo, fdivI(lo, si.k));
        if (hi < INF) b.hi = std::min(b.hi, fdivI(hi, si.k));
    } else if (si.kind == S_RUN) {
        auto k = kb.find(si.base);
        if (k != kb.end()) {
            u64 m = k->second.first >> si.rlo, v = k->second.second >> si.rlo;
            u64 full = si.rlen >= 64 ? ~0ULL : ((1ULL << si.rlen) - 1);
            m &= full; v &= full;
            b.lo = std::max(b.lo, (I)(v & m));
            b.hi = std::min(b.hi, (I)((v & m) | (full & ~m)));
        }
        // bounds of the base restrict a top-aligned or bottom-covering run
        Bnd bb = symBounds(si.base);
        if (bb.lo >= 0 && bb.hi < INF) {
            if (SYM[si.base].w && si.rlo + si.rlen >= SYM[si.base].w) {
                b.lo = std::max(b.lo, bb.lo >> si.rlo);
                b.hi = std::min(b.hi, bb.hi >> si.rlo);
            } else if ((bb.lo >> (si.rlo + si.rlen)) == (bb.hi >> (si.rlo + si.rlen))) {      // the bits above the run are known
                const I m = pow2(si.rlen) - 1;
                b.lo = std::max(b.lo, (bb.lo >> si.rlo) & m);
                b.hi = std::min(b.hi, (bb.hi >> si.rlo) & m);
            }
        }
    }
    return b;
}

void Facts::ival(const Lin& l, I& lo, I& hi) const
{
    lo = hi = l.c;
    for (auto& p : l.t) {
        Bnd b = symBounds(p.first);
        I a, z;
        if (p.second > 0) { a = b.lo <= -INF ? -INF : p.second * b.lo; z = b.hi >= INF ? INF : p.second * b.hi; }
        else { a = b.hi >= INF ? -INF : p.second * b.hi; z = b.lo <= -INF ? INF : p.second * b.lo; }
        lo = (lo <= -INF || a <= -INF) ? -INF : lo + a;
        hi = (hi >= INF || z >= INF) ? INF : hi + z;
        if (lo < -INF) lo = -INF;
        if (hi > INF) hi = INF;
    }
}

bool Facts::lowRunOfDef(int s) const
{
    const SymInfo& si = SYM[s];
    if (si.kind != S_RUN || SYM[si.base].kind != S_DEF) return false;
    Bnd bb = symBounds(si.base);
    const unsigned top = si.rlo + si.rlen;
    if (!(bb.lo >= 0 && bb.hi < INF && (bb.lo >> top) == (bb.hi >> top))) return false;
    if (si.rlo == 0) return true;
    const Lin& d = SYM[si.base].def;        // a multiple of 2^rlo
    const I m = pow2(si.rlo);
    if (d.c % m != 0) return false;
    for (auto& q : d.t) if (q.second % m != 0) return false;
    return true;
}

Lin Facts::norm(const Lin& l) const
{
    if (l.t.empty()) return l;
    bool need = false;
    for (auto& p : l.t) {
        if (SYM[p.first].kind == S_DEF || lowRunOfDef(p.first)) { need = true; break; }
        if (!subst.empty() && subst.count(p.first)) { need = true; break; }
        Bnd b = symBounds(p.first);
        if (b.lo == b.hi) { need = true; break; }
    }
    if (!need) return l;
    Lin r(l.c);
    for (auto& p : l.t) {
        if (SYM[p.first].kind == S_DEF) { r = r + norm(SYM[p.first].def) * p.second; continue; }
        if (lowRunOfDef(p.first)) {     // the bits of the definition above the run are known
            const int base = SYM[p.first].base; const unsigned lo = SYM[p.first].rlo, top = lo + SYM[p.first].rlen;
            Lin d = SYM[base].def - Lin((symBounds(base).lo >> top) << top);
            if (lo) { const I m = pow2(lo); d.c /= m; for (auto& q : d.t) q.second /= m; }
            r = r + norm(d) * p.second;
            continue;
        }
        auto it = subst.find(p.first);
        if (it != subst.end()) { r = r + norm(it->second) * p.second; continue; }
        Bnd b = symBounds(p.first);
        if (b.lo == b.hi) { r.c = cadd(r.c, cmul(b.lo, p.second)); continue; }
        r = r + Lin::sym(p.first, p.second);
    }
    return r;
}

// Fourier-Motzkin elimination with integer (gcd) tightening; true means: infeasible.
static const bool FMDBG = getenv("ZABS_FM") != nullptr;
bool Facts::fm(std::vector<Lin> sys) const
{
    const size_t CAP = 400;
    if (FMDBG) { fprintf(stderr, "FM %zu:", sys.size()); for (auto& l : sys) fprintf(stderr, " {%s}", l.str().c_str()); fprintf(stderr, "\n"); }
    try {
        for (int round = 0; round < 60; ++round) {
            std::map<std::vector<std::pair<int, I>>, size_t> uniq;
            std::vector<Lin> nx;
            for (auto l : sys) {
                if (l.isConst()) { if (l.c < 0) return true; continue; }
                gcdTighten(l);
                I lo, hi; ival(l, lo, hi);
                if (hi < 0) return true;
                auto u = uniq.insert({l.t, nx.size()});
                if (u.second) nx.push_back(l); else if (l.c < nx[u.first->second].c) nx[u.first->second].c = l.c;
            }
            sys.swap(nx);
            if (sys.empty()) return false;
            // choose the symbol with the fewest products
            std::map<int, std::pair<int, int>> cnt;
            for (auto& l : sys) for (auto& p : l.t) { if (p.second > 0) cnt[p.first].first++; else cnt[p.first].second++; }
            int best = -1; long bestCost = -1;
            for (auto& e : cnt) {
                long pc = e.second.first, nc = e.second.second;
                Bnd b = symBounds(e.first);
                if (b.lo > -INF) ++pc;
                if (b.hi < INF) ++nc;
                long cost = pc * nc - pc - nc;
                if (best < 0 || cost < bestCost) { best = e.first; bestCost = cost; }
            }
            std::vector<Lin> pos, neg, rest;
            for (auto& l : sys) {
                I k = 0;
                for (auto& p : l.t) if (p.first == best) k = p.second;
                if (k > 0) pos.push_back(l); else if (k < 0) neg.push_back(l); else rest.push_back(l);
            }
            Bnd b = symBounds(best);
            if (b.lo > -INF) pos.push_back(Lin::sym(best) - Lin(b.lo));
            if (b.hi < INF) neg.push_back(Lin(b.hi) - Lin::sym(best));
            if (rest.size() + pos.size() * neg.size() > CAP) return false;
            for (auto& x : pos) for (auto& y : neg) {
                I kx = 0, ky = 0;
                for (auto& p : x.t) if (p.first == best) kx = p.second;
                for (auto& p : y.t) if (p.first == best) ky = -p.second;
                I g = gcdI(kx, ky);
                rest.push_back(x * (ky / g) + y * (kx / g));
            }
            sys.swap(rest);
        }
    } catch (Overflow&) { return false; }
    return false;
}

// the facts contradict each other (complete only as far as the linear part goes)
bool Facts::infeasible() const
{
    if (dead) return true;
    try {
        for (auto& q : neq) { Lin n = norm(q); if (n.isConst() && n.c == 0) return true; }
        size_t k = 0;
        for (auto& c : cons) {
            Lin n = norm(c); I lo, hi; ival(n, lo, hi);
            if (hi < 0) return true;
            if (lo < 0 && ++k <= 60 && proveGE(n * -1 + Lin(-1))) return true;
        }
    } catch (Overflow&) {}
    return false;
}

bool Facts::proveGE(const Lin& l0) const
{
    Lin l = norm(l0);
    I lo, hi; ival(l, lo, hi);
    if (lo >= 0) return true;
    if (hi < 0) return false;
    if (l.isConst()) return l.c >= 0;
    // relevant slice
    std::vector<Lin> sys;
    Lin n = l * -1 + Lin(-1);
    sys.push_back(n);
    std::set<int> syms;
    for (auto& p : n.t) syms.insert(p.first);
    std::vector<Lin> pool;
    for (auto& c : cons) pool.push_back(norm(c));
    std::set<int> poolSyms;
    for (auto& c : pool) for (auto& p : c.t) poolSyms.insert(p.first);
    std::vector<bool> used(pool.size(), false);
    std::set<int> factDone;
    bool ch = true; int rounds = 0;
    while (ch && rounds++ < 6 && sys.size() < 60) {
        ch = false;
        for (size_t i = 0; i < pool.size(); ++i) {
            if (used[i]) continue;
            bool hit = false;
            for (auto& p : pool[i].t) if (syms.count(p.first)) { hit = true; break; }
            if (!hit) continue;
            used[i] = true; ch = true; sys.push_back(pool[i]);
            for (auto& p : pool[i].t) syms.insert(p.first);
        }
        std::vector<int> cur(syms.begin(), syms.end());
        for (int s : cur) {
            if (!factDone.insert(s).second) continue;
            for (auto& f0 : SYM[s].facts) { Lin f = norm(f0); sys.push_back(f); for (auto& p : f.t) if (syms.insert(p.first).second) ch = true; }
            // run symbols: base == 2^k*hi + lo decomposition when both halves are around
            if (SYM[s].kind == S_RUN) {
                int b = SYM[s].base;
                I lowMin = 0, lowMax = pow2(SYM[s].rlo) - 1;      // known bits below the run
                {
                    auto k = kb.find(b);
                    if (k != kb.end() && SYM[s].rlo < 64) { u64 m = k->second.first & (u64)lowMax, v = k->second.second & m; lowMin = v; lowMax = (u64)lowMax & ~(m & ~v); }
                    if (SYM[s].rlo > 0) { Bnd lb = symBounds(symRun(b, 0, SYM[s].rlo)); lowMin = std::max(lowMin, lb.lo); lowMax = std::min(lowMax, lb.hi); }
                }
                if (SYM[b].kind == S_DEF) {
                    Bnd bb = symBounds(b);
                    unsigned rl = SYM[s].rlo, ln = SYM[s].rlen;
                    if (bb.lo >= 0) {
                        Lin d = norm(SYM[b].def);
                        const bool lead = rl + ln < 100 && (bb.lo >> (rl + ln)) == (bb.hi >> (rl + ln));      // the bits above the run are known
                        if (lead) d = d - Lin((bb.lo >> (rl + ln)) << (rl + ln));
                        std::vector<Lin> add{d - Lin::sym(s, pow2(rl)) - Lin(lowMin)};
                        if (lead) add.push_back(Lin::sym(s, pow2(rl)) + Lin(lowMax) - d);
                        for (auto& f : add) { sys.push_back(f); for (auto& p : f.t) if (syms.insert(p.first).second) ch = true; }
                    }
                } else if (SYM[b].w && (syms.count(b) || poolSyms.count(b))) {
                    unsigned rl = SYM[s].rlo, ln = SYM[s].rlen;
                    if (syms.insert(b).second) ch = true;
                    bool lead = false; I known = 0;
                    if (rl == 0 && ln < SYM[b].w) {     // the bits above the run are known: b == known + s
                        lead = true;
                        for (unsigned i = SYM[b].w; lead && i-- > ln;) {
                            Bit kb1 = normBit(bitLit(b, i, false));
                            if (kb1 > 1) lead = false; else if (kb1 == 1) known += pow2(i);
                        }
                    }
                    if (lead) {
                        sys.push_back(Lin::sym(b) - Lin::sym(s) - Lin(known));
                        sys.push_back(Lin::sym(s) + Lin(known) - Lin::sym(b));
                    } else if (rl + ln == SYM[b].w) {     // top run: b - 2^rl*s in [0, 2^rl-1]
                        sys.push_back(Lin::sym(b) - Lin::sym(s, pow2(rl)) - Lin(lowMin));
                        sys.push_back(Lin::sym(s, pow2(rl)) + Lin(lowMax) - Lin::sym(b));
                    } else {                        // b >= 2^rl * s
                        sys.push_back(Lin::sym(b) - Lin::sym(s, pow2(rl)));
                    }
                }
            }
        }
    }
    if (sys.size() == 1) {
        bool any = false;
        for (auto& p : n.t) if (!SYM[p.first].facts.empty()) any = true;
        if (!any) return false;
    }
    return fm(sys);
}

Bit Facts::normBit(Bit b) const
{
    if (!isLit(b)) return b;
    int s = litSym(b); unsigned i = litIdx(b); bool n = litNeg(b);
    auto it = kb.find(s);
    if (it != kb.end() && i < 64 && ((it->second.first >> i) & 1)) return (((it->second.second >> i) & 1) != 0) != n ? 1 : 0;
    Bnd bd = symBounds(s);
    if (bd.lo >= 0 && bd.hi < INF) {
        if (bd.hi < pow2(i)) return n ? 1 : 0;
        // common high prefix
        if ((bd.lo >> i) == (bd.hi >> i)) return ((bd.lo >> i) & 1) != (I)n ? 1 : 0;
    }
    return b;
}

// reduced product of bounds and known bits of one symbol
bool Facts::kbTight(int s)
{
    auto it = kb.find(s);
    if (it == kb.end()) return true;
    Bnd cur = symBounds(s);
    if (cur.lo < 0 || cur.hi >= pow2(64)) return true;
    unsigned top = 0; { I h = cur.hi; while (h) { ++top; h >>= 1; } }
    u64 full = top >= 64 ? ~0ULL : ((1ULL << top) - 1);
    u64 m = it->second.first, v = it->second.second & m;
    if (v & ~full) { dead = true; return false; }
    m &= full; v &= full;
    auto up = [&](u64 lo, u64 mm, u64 vv, unsigned n, bool& ok) -> u64 {   // least x >= lo, x & mm == vv, x < 2^n
        ok = true;
        if ((lo & mm) == vv) return lo;
        for (unsigned i = 0; i < n; ++i) {
            u64 bit = 1ULL << i;
            if (lo & bit) continue;
            if ((mm & bit) && !(vv & bit)) continue;
            u64 above = i + 1 >= 64 ? 0 : (~0ULL << (i + 1));
            if ((lo & mm & above) != (vv & above)) continue;
            return (lo & above) | bit | (vv & (bit - 1));
        }
        ok = false; return 0;
    };
    bool ok;
    u64 nlo = up((u64)cur.lo, m, v, top, ok);
    if (!ok) { dead = true; return false; }
    // mirrored: greatest x <= hi
    u64 chi = ~(u64)cur.hi & full;
    u64 nh = up(chi, m, ~v & m, top, ok);
    if (!ok) { dead = true; return false; }
    u64 nhi = ~nh & full;
    if (nlo > nhi) { dead = true; return false; }
    if ((I)nlo != cur.lo || (I)nhi != cur.hi) return refine(s, (I)nlo, (I)nhi);
    return true;
}

// slices with known leading bits are written by the slice of the others
Lin Facts::canon(const Lin& l) const
{
    if (kb.empty()) return l;
    Lin r(l.c); bool change = false;
    for (auto& p : l.t) {
        const SymInfo& si = SYM[p.first];
        auto it = si.kind == S_RUN ? kb.find(si.base) : si.kind == S_BYTE ? kb.find(p.first) : kb.end();
        unsigned j = 0; I known = 0;
        if (it != kb.end()) {
            const unsigned len = si.kind == S_RUN ? si.rlen : 8, rlo = si.kind == S_RUN ? si.rlo : 0; const int base = si.kind == S_RUN ? si.base : p.first;
            j = len;
            while (j > 0) {
                unsigned b = rlo + j - 1;
                if (b >= 64 || !((it->second.first >> b) & 1)) break;
                --j;
                if ((it->second.second >> b) & 1) known += pow2(j);
            }
            if (j < len && (known || si.kind == S_RUN)) { change = true; r.c = cadd(r.c, cmul(known, p.second)); if (j) r = r + Lin::sym(symRun(base, rlo, j), p.second); continue; }
        }
        r = r + Lin::sym(p.first, p.second);
    }
    return change ? norm(r) : l;
}

// adds a constraint; constraints with the same linear part are kept only in their strongest form
void Facts::addCons(Lin l)
{
    l = norm(l);
    gcdTighten(l);
    if (l.isConst()) { if (l.c < 0) dead = true; return; }
    for (auto& c : cons) if (c.t == l.t) { if (l.c < c.c) c.c = l.c; return; }
    cons.push_back(l);
}

bool Facts::refine(int s, I lo, I hi)
{
    if (dead) return false;
    Bnd b = symBounds(s);
    I nlo = std::max(b.lo, lo), nhi = std::min(b.hi, hi);
    if (nlo > nhi) { dead = true; return false; }
    if (nlo == b.lo && nhi == b.hi) return true;
    bnd[s] = Bnd{nlo, nhi};
    const SymInfo si = SYM[s];
    if (si.kind == S_RUN) {
        // common prefix of the run's bounds fixes bits of the base
        for (int i = (int)si.rlen - 1; i >= 0; --i) {
            if ((nlo >> i) == (nhi >> i)) { if (!setBit(si.base, si.rlo + i, (nlo >> i) & 1)) return false; }
            else break;
        }
        // known leading bits: the bounds carry over to the slice of the others
        unsigned j = si.rlen; I known = 0;
        while (j > 0) {
            Bit kbit = normBit(bitLit(si.base, si.rlo + j - 1, false));
            if (kbit > 1) break;
            --j;
            if (kbit == 1) known += pow2(j);
        }
        if (j > 0 && j < si.rlen) {
            I l2 = std::max(nlo - known, (I)0), h2 = std::min(nhi - known, pow2(j) - 1);
            if (l2 > h2) { dead = true; return false; }
            if (l2 > 0 || h2 < pow2(j) - 1) if (!refine(symRun(si.base, si.rlo, j), l2, h2)) return false;
        }
        if (SYM[si.base].kind == S_DEF || (SYM[si.base].w && si.rlo + si.rlen < SYM[si.base].w)) {
            Bnd bb = symBounds(si.base);
            const unsigned top = si.rlo + si.rlen;
            if (bb.lo >= 0 && bb.hi < INF && (bb.lo >> top) == (bb.hi >> top)) {
                const I k = (bb.lo >> top) << top;
                if (!refine(si.base, k + (nlo << si.rlo), k + (nhi << si.rlo) + pow2(si.rlo) - 1)) return false;
            }
        }
        if (SYM[si.base].w && si.rlo + si.rlen == SYM[si.base].w && SYM[si.base].kind != S_DEF)
            if (!refine(si.base, nlo << si.rlo, (nhi << si.rlo) + pow2(si.rlo) - 1)) return false;
    } else if (si.kind == S_DEF) {
        if (nlo > b.lo) addCons(si.def - Lin(nlo));
        if (nhi < b.hi) addCons(Lin(nhi) - si.def);
        if (si.def.t.size() == 1) {
            I k = si.def.t[0].second, c = si.def.c; int b0 = si.def.t[0].first;
            I l = -INF, h = INF;
            if (k > 0) { if (nlo > -INF) l = -fdivI(-(nlo - c), k); if (nhi < INF) h = fdivI(nhi - c, k); }
            else { if (nhi < INF) l = -fdivI(nhi - c, -k); if (nlo > -INF) h = fdivI(-(nlo - c), -k); }
            if (!refine(b0, l, h)) return false;
        }
    } else if (si.kind == S_FDIV && si.def.t.size() == 1 && si.def.t[0].second == 1) {
        I l = nlo > -INF ? nlo * si.k - si.def.c : -INF;
        I h = nhi < INF ? nhi * si.k + si.k - 1 - si.def.c : INF;
        if (!refine(si.def.t[0].first, l, h)) return false;
    }
    if (nlo == nhi && nlo >= 0 && nlo < pow2(64))      // what is known of slices agrees with the value
        for (auto& e : bnd) {
            const SymInfo& r = SYM[e.first];
            if (r.kind != S_RUN || r.base != s) continue;
            const I v = (nlo >> r.rlo) & (pow2(r.rlen) - 1);
            if (v < e.second.lo || v > e.second.hi) { dead = true; return false; }
        }
    if (nlo == nhi && !settle(s)) return false;
    return kbTight(s);
}

bool Facts::setBit(int s, unsigned i, bool v)
{
    if (dead) return false;
    Bit b = normBit(bitLit(s, i, false));
    if (b == 0 || b == 1) { if ((b == 1) != v) { dead = true; return false; } return true; }
    auto& e = kb[s];
    e.first |= 1ULL << i;
    if (v) e.second |= 1ULL << i;
    const SymInfo& si = SYM[s];
    (void)si;
    return kbTight(s);
}

// a symbol which became constant may bound the others of its constraints
bool Facts::settle(int s)
{
            Bnd sb = symBounds(s);
            if (sb.lo == sb.hi && cons.size() <= 64) {
                auto cs = cons;
                for (auto& c : cs) {
                    bool has = false; for (auto& q : c.t) has |= q.first == s;
                    if (!has || c.t.size() != 2) continue;
                    Lin n2 = norm(c);
                    if (n2.t.size() != 1) continue;
                    int o = n2.t[0].first; I k2 = n2.t[0].second;
                    if (o == s) continue;
                    Bnd ob = symBounds(o);
                    I nb = k2 > 0 ? -fdivI(n2.c, k2) : fdivI(n2.c, -k2);
                    if (k2 > 0 ? nb > ob.lo : nb < ob.hi)
                        if (!(k2 > 0 ? refine(o, nb, INF) : refine(o, -INF, nb))) return false;
                }
            }
    return true;
}

bool Facts::assume(Pred p)
{
    if (dead) return false;
    PredNode n = PRED[p];
    switch (n.k) {
    case P_TRUE: return true;
    case P_FALSE: dead = true; return false;
    case P_AND: return assume(n.x) && assume(n.y);
    case P_OR: {
        int a = decide(n.x); if (a == 1) return true;
        int b = decide(n.y); if (b == 1) return true;
        if (a == 0) return assume(n.y);
        if (b == 0) return assume(n.x);
        return true;       // kept as over-approximation
    }
    case P_BIT: {
        Bit b = normBit(n.b);
        if (b == 1) return true;
        if (b == 0) { dead = true; return false; }
        return setBit(litSym(b), litIdx(b), !litNeg(b));
    }
    case P_UNK: {
        auto it = unk.find(n.id);
        bool want = !n.neg;
        if (it != unk.end()) { if (it->second != want) { dead = true; return false; } return true; }
        unk[n.id] = want;
        return true;
    }
    case P_GE: {
        Lin l = canon(norm(n.l));
        if (l.isConst()) { if (l.c < 0) dead = true; return !dead; }
        gcdTighten(l);
        I lo, hi; ival(l, lo, hi);
        if (hi < 0) { dead = true; return false; }
        if (lo >= 0) return true;
        if (l.t.size() == 1) {
            int s = l.t[0].first; I k = l.t[0].second;
            bool ok = k > 0 ? refine(s, -fdivI(l.c, k), INF) : refine(s, -INF, fdivI(l.c, -k));
            if (!ok) return false;
            // a disequality at the new bound
            for (auto& q : neq) {
                if (q.t.size() == 1 && q.t[0].first == s && (q.t[0].second == 1)) {
                    Bnd b = symBounds(s);
                    if (b.lo == -q.c) { if (!refine(s, b.lo + 1, INF)) return false; }
                    else if (b.hi == -q.c) { if (!refine(s, -INF, b.hi - 1)) return false; }
                }
            }
            if (!cons.empty() && proveGE(l * -1 + Lin(-1))) { dead = true; return false; }
            return settle(s);
        }
        if (proveGE(l * -1 + Lin(-1))) { dead = true; return false; }
        if (l.t.size() == 2) for (auto& q : neq) {
            // l >= 0 and l != 0
            if (q == l || q == l * -1) { if (proveGE(l * -1)) { dead = true; return false; } return assume(mkGE(l + Lin(-1))); }
        }
        addCons(l);
        // propagate single-symbol bounds through the new constraint
        for (auto& p2 : l.t) {
            Lin rest = l; 
            rest.t.erase(std::remove_if(rest.t.begin(), rest.t.end(), [&](auto& q) { return q.first == p2.first; }), rest.t.end());
            I rlo, rhi; ival(rest, rlo, rhi);
            if (rhi >= INF) continue;
            // p2.second*s + rest >= 0  =>  p2.second*s >= -rhi
            bool ok = p2.second > 0 ? refine(p2.first, -fdivI(rhi, p2.second), INF) : refine(p2.first, -INF, fdivI(rhi, -p2.second));
            if (!ok || !settle(p2.first)) return false;
        }
        Lin cl = canon(norm(l));
        return cl == norm(l) || assume(mkGE(cl));
    }
    case P_EQ: {
        Lin l = norm(n.l);
        if (l.isConst()) { if (l.c != 0) dead = true; return !dead; }
        if (decide(p) == 0) { dead = true; return false; }
        I g = 0; for (auto& q : l.t) g = gcdI(g, q.second);
        if (l.c % g != 0) { dead = true; return false; }
        if (g > 1) { for (auto& q : l.t) q.second /= g; l.c /= g; }
        if (l.t.size() == 1) return refine(l.t[0].first, -l.c / l.t[0].second, -l.c / l.t[0].second) && settle(l.t[0].first);
        // substitution of a unit-coefficient source symbol
        for (size_t i = l.t.size(); i-- > 0;) {
            I k = l.t[i].second; int s = l.t[i].first;
            if (k != 1 && k != -1) continue;
            if (SYM[s].kind != S_SRC && SYM[s].kind != S_OPQ && SYM[s].kind != S_BYTE && SYM[s].kind != S_RUN) continue;
            if (kb.count(s)) continue;
            Lin rest = l; rest.t.erase(rest.t.begin() + i);
            rest = rest * (-k);
            Bnd b = symBounds(s);
            I lo, hi; ival(rest, lo, hi);
            // the bounds of s must survive the substitution
            Lin gl = rest - Lin(b.lo), gh = Lin(b.hi) - rest;
            subst[s] = rest;
            if (lo < b.lo && !assume(mkGE(gl))) return false;
            if (hi > b.hi && !assume(mkGE(gh))) return false;
            return true;
        }
        return assume(mkGE(l)) && assume(mkGE(l * -1));
    }
    case P_NE: {
        Lin l = norm(n.l);
        if (l.isConst()) { if (l.c == 0) dead = true; return !dead; }
        int d = decide(p);
        if (d == 1) return true;
        if (d == 0) { dead = true; return false; }
        neq.push_back(l);
        if (l.t.size() == 1 && (l.t[0].second == 1 || l.t[0].second == -1)) {
            int s = l.t[0].first; I v = l.t[0].second == 1 ? -l.c : l.c;
            Bnd b = symBounds(s);
            if (b.lo == v) return refine(s, v + 1, INF);
            if (b.hi == v) return refine(s, -INF, v - 1);
        } else {
            // l >= 0 known => l >= 1
            if (proveGE(l)) return assume(mkGE(l - Lin(1)));
            if (proveGE(l * -1)) return assume(mkGE(l * -1 - Lin(1)));
        }
        return true;
    }
    }
    return true;
}

int Facts::decide(Pred p) const
{
    const PredNode n = PRED[p];
    switch (n.k) {
    case P_TRUE: return 1;
    case P_FALSE: return 0;
    case P_AND: { int a = decide(n.x); if (a == 0) return 0; int b = decide(n.y); if (b == 0) return 0; return a == 1 && b == 1 ? 1 : -1; }
    case P_OR: { int a = decide(n.x); if (a == 1) return 1; int b = decide(n.y); if (b == 1) return 1; return a == 0 && b == 0 ? 0 : -1; }
    case P_BIT: { Bit b = normBit(n.b); if (b == 0) return 0; if (b == 1) return 1; return -1; }
    case P_UNK: { auto it = unk.find(n.id); if (it == unk.end()) return -1; return it->second != n.neg ? 1 : 0; }
    case P_GE: {
        Lin l = canon(norm(n.l));
        if (l.isConst()) return l.c >= 0;
        I lo, hi; ival(l, lo, hi);
        if (lo >= 0) return 1;
        if (hi < 0) return 0;
        if (proveGE(l)) return 1;
        if (proveGE(l * -1 + Lin(-1))) return 0;
        return -1;
    }
    case P_EQ: case P_NE: {
        int eq = n.k == P_EQ ? 1 : 0;
        Lin l = norm(n.l);
        if (l.isConst()) return (l.c == 0) ? eq : !eq;
        I g = 0; for (auto& q : l.t) g = gcdI(g, q.second);
        if (g > 1 && l.c % g != 0) return !eq;
        I lo, hi; ival(l, lo, hi);
        if (lo > 0 || hi < 0) return !eq;
        Lin m = l * -1;
        for (auto& q : neq) { Lin nq = norm(q); if (nq == l || nq == m) return !eq; }
        if (l.t.size() == 1 && (l.t[0].second == 1 || l.t[0].second == -1)) {
            int s = l.t[0].first; I v = l.t[0].second == 1 ? -l.c : l.c;
            auto it = kb.find(s);
            if (it != kb.end() && v >= 0 && v < pow2(64) && (((u64)v ^ it->second.second) & it->second.first)) return !eq;
            if (SYM[s].kind == S_RUN) {
                auto k = kb.find(SYM[s].base);
                if (k != kb.end() && v >= 0) {
                    u64 mk = (k->second.first >> SYM[s].rlo), vv = k->second.second >> SYM[s].rlo;
                    u64 full = SYM[s].rlen >= 64 ? ~0ULL : ((1ULL << SYM[s].rlen) - 1);
                    if ((((u64)v ^ vv) & mk) & full) return !eq;
                }
            }
        }
        if (proveGE(l - Lin(1)) || proveGE(m - Lin(1))) return !eq;
        if (proveGE(l) && proveGE(m)) return eq;
        return -1;
    }
    }
    return -1;
}

Pred Facts::firstUndecided(Pred p) const
{
    const PredNode n = PRED[p];
    if (n.k == P_AND || n.k == P_OR) {
        if (decide(n.x) < 0) return firstUndecided(n.x);
        return firstUndecided(n.y);
    }
    return p;
}

// bits of a linear value known to lie in [0, 2^w)
bool Facts::bitsOf(const Lin& l0, unsigned w, Bits& out) const
{
    Lin l = norm(l0);
    out.assign(w, 0);
    if (l.isConst()) {
        unsigned __int128 v = (unsigned __int128)l.c;
        for (unsigned i = 0; i < w; ++i) out[i] = (Bit)((v >> i) & 1);
        return true;
    }
    // sum of disjoint power-of-two-scaled symbols
    bool ok = l.c >= 0;
    if (ok) for (auto& p : l.t) {
        I k = p.second;
        if (k <= 0 || (k & (k - 1))) { ok = false; break; }
        unsigned sh = 0; while (pow2(sh) < k) ++sh;
        Bnd b = symBounds(p.first);
        if (b.lo < 0 || b.hi >= pow2(64)) { ok = false; break; }
        unsigned n = 0; I h = b.hi; while (h) { ++n; h >>= 1; }
        if (sh + n > w) { ok = false; break; }
        const SymInfo& si = SYM[p.first];
        for (unsigned i = 0; i < n && ok; ++i) {
            if (out[sh + i] != 0) ok = false;
            Bit bb = si.kind == S_RUN ? bitLit(si.base, si.rlo + i, false) : bitLit(p.first, i, false);
            out[sh + i] = normBit(bb);
            if (out[sh + i] == 0) out[sh + i] = 0;
        }
        if (!ok) break;
    }
    if (ok && l.c) {
        for (unsigned i = 0; i < w; ++i) if ((l.c >> i) & 1) { if (out[i] != 0) { ok = false; break; } out[i] = 1; }
        if (l.c >> w) ok = false;
    }
    if (ok) return true;
    // modulo a power of two the value may be simpler: low bits shared by all coefficients
    if (w > 64) return false;
    int s = symDef(l);
    { Bnd b = symBounds(s); if (b.lo < 0 || b.hi >= pow2(w)) return false; }
    unsigned low = 0;
    { I g = 0; for (auto& p : l.t) g = gcdI(g, p.second); while (low < w && g % 2 == 0) { g /= 2; ++low; } }
    for (unsigned i = 0; i < w; ++i) {
        if (i < low) out[i] = (Bit)((l.c >> i) & 1);
        else out[i] = normBit(bitLit(s, i, false));
    }
    return true;
}

bool Facts::linOfBitsOk(const Bits& b0, Lin& out) const
{
    unsigned w = (unsigned)b0.size();
    Bits b(w);
    for (unsigned i = 0; i < w; ++i) { b[i] = normBit(b0[i]); if (b[i] == BTOP) return false; }
    Lin r;
    for (unsigned i = 0; i < w;) {
        if (b[i] == 0) { ++i; continue; }
        if (b[i] == 1) { r.c += pow2(i); ++i; continue; }
        int s = litSym(b[i]); unsigned x = litIdx(b[i]); bool ng = litNeg(b[i]);
        unsigned n = 1;
        while (i + n < w && isLit(b[i + n]) && litSym(b[i + n]) == s && litIdx(b[i + n]) == x + n && litNeg(b[i + n]) == ng) ++n;
        // whole symbol?
        Bnd bd = symBounds(s);
        bool whole = x == 0 && bd.lo >= 0 && bd.hi < pow2(n);
        Lin v;
        if (whole) v = SYM[s].kind == S_DEF ? norm(SYM[s].def) : Lin::sym(s);
        else v = Lin::sym(symRun(s, x, n));
        if (ng) v = Lin(pow2(n) - 1) - v;
        r = r + v * pow2(i);
        i += n;
    }
    // replicated sign literals were summed with coefficients up to 2^w: reduce symmetric
    for (auto it = r.t.begin(); it != r.t.end();) {
        if (it->second >= pow2(w)) it->second %= pow2(w);
        if (it->second > 0 && it->second >= pow2(w) - pow2(w - 1)) {
            // 2^w - 2^p pattern -> -2^p (value then lies in the signed window)
            I m = pow2(w) - it->second;
            if (m > 0 && (m & (m - 1)) == 0 && m < it->second) it->second = -m;
        }
        if (it->second == 0) it = r.t.erase(it); else ++it;
    }
    out = norm(r);
    return true;
}

std::string Facts::str() const
{
    std::string s;
    for (auto& e : bnd) s += SYM[e.first].name + " in [" + itoaI(e.second.lo) + "," + (e.second.hi >= INF ? std::string("inf") : itoaI(e.second.hi)) + "]; ";
    for (auto& e : subst) s += SYM[e.first].name + " = " + e.second.str() + "; ";
    for (auto& c : cons) s += c.str() + " >= 0; ";
    for (auto& c : neq) s += c.str() + " != 0; ";
    for (auto& e : kb) s += SYM[e.first].name + " bits mask " + std::to_string(e.second.first) + " = " + std::to_string(e.second.second) + "; ";
    return s;
}
