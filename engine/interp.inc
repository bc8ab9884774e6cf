// Instruction semantics, calls, exceptions, exploration. (included by zabs.cpp)

struct UndefUse {};

struct FnInfo { DenseMap<const Value*, unsigned> num; unsigned n = 0; std::set<const BasicBlock*> headers; std::map<const BasicBlock*, std::set<const BasicBlock*>> loopBlocks; };
static FnInfo& fnInfo(Function* F)
{
    static DenseMap<Function*, FnInfo*> cache;
    auto it = cache.find(F);
    if (it != cache.end()) return *it->second;
    auto* fi = new FnInfo;
    for (auto& a : F->args()) fi->num[&a] = fi->n++;
    for (auto& bb : *F) for (auto& i : bb) if (!i.getType()->isVoidTy()) fi->num[&i] = fi->n++;
    DominatorTree DT(*F); LoopInfo LI(DT);
    for (auto& bb : *F) if (LI.isLoopHeader(&bb)) {
        fi->headers.insert(&bb);
        for (auto* b : LI.getLoopFor(&bb)->blocks()) fi->loopBlocks[&bb].insert(b);
    }
    cache[F] = fi;
    return *fi;
}

static Val getOp(State& S, Frame& fr, const Value* v)
{
    if (auto* c = dyn_cast<Constant>(v)) return constVal(S, c);
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return Val();
    auto& fi = fnInfo(fr.F);
    auto it = fi.num.find(v);
    if (it == fi.num.end()) throw Giveup{"unnumbered operand"};
    return fr.loc[it->second];
}
static void setRes(Frame& fr, const Instruction* i, const Val& v)
{
    if (v.k == V_INT && v.bits && std::find(v.bits->begin(), v.bits->end(), BTOP) != v.bits->end()) {
        // unknown bits become distinct opaque literals, so that later splits on them are stable
        static int n = 0;
        Bits b = *v.bits;
        for (size_t lo = 0; lo < b.size(); lo += 64) {
            int s = symOpq("fb" + std::to_string(n++), 64, "unknown");
            for (size_t k = lo; k < b.size() && k < lo + 64; ++k) if (b[k] == BTOP) b[k] = bitLit(s, (unsigned)(k - lo), false);
        }
        fr.loc[fnInfo(fr.F).num[i]] = vBits(b);
        return;
    }
    fr.loc[fnInfo(fr.F).num[i]] = v;
}

static int decideOrFork(State& S, Pred p)
{
    int d = S.F.decide(p);
    if (d < 0) throw ForkReq{S.F.firstUndecided(p)};
    return d;
}

static I constAmount(State& S, const Val& v, unsigned limit, const char* what)
{
    I c;
    if (asConst(S, v, c)) return c;
    Lin l = uLin(S, v);
    return enumVals(S, l, limit, what);
}

static Lin modCanon(State& S, const Lin& l, unsigned w)
{
    (void)S;
    // keep coefficients small
    for (auto& p : l.t) if (p.second >= pow2(w) || p.second <= -pow2(w)) return modReduce(l, w);
    if (l.c >= pow2(w) || l.c <= -pow2(w)) return modReduce(l, w);
    return l;
}

// value shifted right by k bits, given its exact nonnegative value u
static bool linShr(State& S, const Lin& u, unsigned k, Lin& q, Lin& r)
{
    Lin a, b; I m = pow2(k);
    a.c = fdivI(u.c, m); b.c = u.c - a.c * m;
    for (auto& p : u.t) {
        I d = fdivI(p.second, m), e = p.second - d * m;
        if (d) a.t.push_back({p.first, d});
        if (e) b.t.push_back({p.first, e});
    }
    if (!inWin(S, b, 0, m - 1)) return false;
    q = a; r = b;
    return true;
}

static Val opq(State& S, const char* op, unsigned w, const Val& a, const Val* b = nullptr)
{
    std::string key = std::string(op) + "(" + valKey(S, a) + (b ? "|" + valKey(S, *b) : "") + ")";
    if (w == 1) return vBool(mkUnk(key));
    if (w > 64) { Bits bb(w, BTOP); return vBits(bb); }
    int s = symOpq(key, w, std::string(op) + "(..)");
    return vInt(w, Lin::sym(s));
}

static Val shlC(State& S, const Val& a, unsigned k)
{
    unsigned w = a.w;
    if (k == 0) return a;
    if (a.bits) {
        const Bits& b = *a.bits; Bits r(w, 0);
        for (unsigned i = k; i < w; ++i) r[i] = b[i - k];
        return vBits(r);
    }
    if (w <= 64) return vInt(w, modCanon(S, S.F.norm(a.lin) * pow2(k), w));
    Bits b = getBits(S, a); Bits r(w, 0);
    for (unsigned i = k; i < w; ++i) r[i] = b[i - k];
    return vBits(r);
}
static Val lshrC(State& S, const Val& a, unsigned k)
{
    unsigned w = a.w;
    if (k == 0) return a;
    if (!a.bits && w <= 64) {
        Bits tb;
        Lin n = S.F.norm(a.lin);
        if (n.t.size() != 1 || !bitsOfMod(S, n, w, tb)) {
            Lin u = uLin(S, a), q, r;
            if (linShr(S, u, k, q, r)) return vInt(w, q);
        }
    }
    Bits b = getBits(S, a); Bits r(w, 0);
    for (unsigned i = 0; i + k < w; ++i) r[i] = b[i + k];
    return vBits(r);
}
static Val andV(State& S, const Val& a, const Val& b)
{
    unsigned w = a.w;
    if (w == 1) return vBool(mkAnd(a.p, b.p));
    I c; const Val* x = nullptr;
    if (asConst(S, b, c)) x = &a; else if (asConst(S, a, c)) x = &b;
    if (x) {
        I d; if (asConst(S, *x, d)) return vConst(w, c & d);
        if (c == 0) return vConst(w, 0);
        if (c == pow2(w) - 1) return *x;
        if (!x->bits && w <= 64) {
            // low mask
            unsigned k = 0; while ((c >> k) & 1) ++k;
            Bits tb; Lin n = S.F.norm(x->lin);
            if ((c >> k) == 0) {
                bool simple = n.t.size() == 1 && bitsOfMod(S, n, w, tb);
                if (!simple) {
                    // value mod 2^k: coefficients mod 2^k
                    Lin m(((n.c % pow2(k)) + pow2(k)) % pow2(k));
                    for (auto& p : n.t) { I v = ((p.second % pow2(k)) + pow2(k)) % pow2(k); if (v) m = m + Lin::sym(p.first, v); }
                    if (inWin(S, m, 0, pow2(k) - 1)) return vInt(w, m);
                    Lin u = uLin(S, *x), q, r;
                    if (linShr(S, u, k, q, r)) return vInt(w, r);
                }
            } else {
                // high mask ~(2^k - 1)
                unsigned z = 0; while (!((c >> z) & 1)) ++z;
                if (c == pow2(w) - pow2(z) && !(n.t.size() == 1 && bitsOfMod(S, n, w, tb))) {
                    Lin u = uLin(S, *x), q, r;
                    if (linShr(S, u, z, q, r)) return vInt(w, q * pow2(z));
                }
            }
        }
        Bits bb = getBits(S, *x);
        for (unsigned i = 0; i < w; ++i) if (!((c >> i) & 1)) bb[i] = 0;
        return vBits(bb);
    }
    Bits p = getBits(S, a), q = getBits(S, b), r(w);
    for (unsigned i = 0; i < w; ++i) {
        Bit u = p[i], v = q[i];
        if (u == 0 || v == 0) r[i] = 0;
        else if (u == 1) r[i] = v;
        else if (v == 1) r[i] = u;
        else if (u == BTOP || v == BTOP) r[i] = BTOP;
        else if (u == v) r[i] = u;
        else if (u == bitNot(v)) r[i] = 0;
        else { if (u > v) std::swap(u, v); r[i] = bitLit(symOpq("and" + std::to_string(u) + "." + std::to_string(v), 1, "and"), 0, false); }
    }
    return vBits(r);
}
static Val notV(State& S, const Val& a)
{
    if (a.w == 1) return vBool(mkNot(a.p));
    if (a.bits) { Bits b = *a.bits; for (auto& x : b) x = bitNot(x); return vBits(b); }
    if (a.w <= 64) return vInt(a.w, modCanon(S, Lin(-1) - S.F.norm(a.lin), a.w));
    Bits b = getBits(S, a); for (auto& x : b) x = bitNot(x); return vBits(b);
}
static Val orV(State& S, const Val& a, const Val& b)
{
    unsigned w = a.w;
    if (w == 1) return vBool(mkOr(a.p, b.p));
    I c;
    if (asConst(S, b, c)) { if (c == 0) return a; if (c == pow2(w) - 1) return b; }
    else if (asConst(S, a, c)) { if (c == 0) return b; if (c == pow2(w) - 1) return a; }
    Bits p = getBits(S, a), q = getBits(S, b), r(w);
    for (unsigned i = 0; i < w; ++i) {
        Bit u = p[i], v = q[i];
        if (u == 1 || v == 1) r[i] = 1;
        else if (u == 0) r[i] = v;
        else if (v == 0) r[i] = u;
        else if (u == BTOP || v == BTOP) r[i] = BTOP;
        else if (u == v) r[i] = u;
        else if (u == bitNot(v)) r[i] = 1;
        else { u = bitNot(u); v = bitNot(v); if (u > v) std::swap(u, v); r[i] = bitLit(symOpq("and" + std::to_string(u) + "." + std::to_string(v), 1, "and"), 0, true); }
    }
    return vBits(r);
}
static Val xorV(State& S, const Val& a, const Val& b)
{
    unsigned w = a.w; I c;
    if (w == 1) {
        if (b.p == PT) return vBool(mkNot(a.p));
        if (b.p == PF) return a;
        if (a.p == PT) return vBool(mkNot(b.p));
        if (a.p == PF) return b;
        int d = decideOrFork(S, a.p);
        return d ? vBool(mkNot(b.p)) : b;
    }
    if (asConst(S, b, c)) { if (c == 0) return a; if (c == pow2(w) - 1) return notV(S, a); }
    if (asConst(S, a, c)) { if (c == 0) return b; if (c == pow2(w) - 1) return notV(S, b); }
    Bits p = getBits(S, a), q = getBits(S, b), r(w);
    for (unsigned i = 0; i < w; ++i) {
        Bit u = p[i], v = q[i];
        if (u == 0) r[i] = v; else if (v == 0) r[i] = u;
        else if (u == 1) r[i] = bitNot(v); else if (v == 1) r[i] = bitNot(u);
        else if (u == BTOP || v == BTOP) r[i] = BTOP;
        else if (u == v) r[i] = 0; else if (u == bitNot(v)) r[i] = 1;
        else {
            bool ng = litNeg(u) != litNeg(v); Bit x = litNeg(u) ? bitNot(u) : u, y = litNeg(v) ? bitNot(v) : v;
            if (x > y) std::swap(x, y);
            r[i] = bitLit(symOpq("xor" + std::to_string(x) + "." + std::to_string(y), 1, "xor"), 0, ng);
        }
    }
    return vBits(r);
}
static Val zextV(State& S, const Val& a, unsigned w)
{
    if (a.k != V_INT) return a;
    if (a.w == 1) {
        int d = S.F.decide(a.p);
        if (d >= 0) return vConst(w, d);
        if (PRED[a.p].k == P_BIT) { Bits b(w, 0); b[0] = PRED[a.p].b; return vBits(b); }
        throw ForkReq{S.F.firstUndecided(a.p)};
    }
    if (a.bits) { Bits b = *a.bits; b.resize(w, 0); return vBits(b); }
    if (a.w <= 64) return vInt(w, uLin(S, a));
    Bits b = getBits(S, a); b.resize(w, 0); return vBits(b);
}
static Val sextV(State& S, const Val& a, unsigned w)
{
    if (a.k != V_INT) return a;
    if (a.w == 1) { int d = decideOrFork(S, a.p); return vConst(w, d ? pow2(w) - 1 : 0); }
    if (a.bits) { Bits b = *a.bits; Bit t = b.back(); b.resize(w, t); return vBits(b); }
    if (a.w <= 64) return vInt(w, sLin(S, a));
    Bits b = getBits(S, a); Bit t = b.back(); b.resize(w, t); return vBits(b);
}
static Val truncV(State& S, const Val& a, unsigned w)
{
    if (a.k != V_INT) return a;
    if (w == 1) { Bits b = getBits(S, a); return vBool(mkBit(b[0])); }
    if (a.bits) { Bits b = *a.bits; b.resize(w); return vBits(b); }
    Lin n = S.F.norm(a.lin);
    if (inWin(S, n, 0, pow2(w) - 1) || inWin(S, n, -pow2(w - 1), pow2(w - 1) - 1)) return vInt(w, n);
    Bits b;
    if (n.t.size() <= 4 && bitsOfMod(S, n, w, b)) return vBits(b);
    return vInt(w, modReduce(n, w));
}
static Val divremV(State& S, const Val& a, const Val& b, bool rem, bool sgn)
{
    ++N_DIV;
    unsigned w = a.w;
    Lin d = sgn ? sLin(S, b) : uLin(S, b);
    Pred nz = mkNE(d);
    int z = S.F.decide(nz);
    if (z < 0) throw ForkReq{nz};
    if (z == 0) { violation(S, "division-by-zero", "division by zero", true); throw Abort{"div"}; }
    if (!d.isConst()) {
        I lo, hi; S.F.ival(d, lo, hi);
        if (hi - lo <= 64) d = Lin(enumVals(S, d, 64, "divisor"));
        else {
            Lin u = sgn ? sLin(S, a) : uLin(S, a);
            // quotient 0 when the dividend is smaller
            if (!sgn && S.F.proveGE(d - u - Lin(1))) return rem ? vInt(w, u) : vConst(w, 0);
            Val r = opq(S, sgn ? (rem ? "srem" : "sdiv") : (rem ? "urem" : "udiv"), w, a, &b);
            if (!sgn && !rem) { I ul, uh; S.F.ival(u, ul, uh); if (ul >= 0) { S.F.assume(mkGE(u - getLin(S, r))); } }
            if (!sgn && rem) { S.F.assume(mkGE(d - Lin(1) - getLin(S, r))); S.F.assume(mkGE(u - getLin(S, r))); }
            return r;
        }
    }
    I k = d.c;
    Lin u = sgn ? sLin(S, a) : uLin(S, a);
    bool negq = false, nega = false;
    if (sgn) {
        Pred p = mkGE(u);
        int x = S.F.decide(p);
        if (x < 0) throw ForkReq{p};
        if (x == 0) { u = u * -1; nega = true; negq = true; }
        if (k < 0) { k = -k; negq = !negq; }
    }
    Lin q, r;
    if (u.isConst()) { q = Lin(u.c / k); r = Lin(u.c % k); }
    else {
        // coefficient-wise
        Lin a1, b1; a1.c = fdivI(u.c, k); b1.c = u.c - a1.c * k;
        for (auto& p : u.t) { I dd = fdivI(p.second, k), e = p.second - dd * k; if (dd) a1.t.push_back({p.first, dd}); if (e) b1.t.push_back({p.first, e}); }
        if (inWin(S, b1, 0, k - 1)) { q = a1; r = b1; }
        else if ((k & (k - 1)) == 0 && w <= 64) {
            unsigned sh = 0; while (pow2(sh) < k) ++sh;
            Val uv = vInt(w, u);
            if (!sgn && a.bits) uv = a;
            Val qq = lshrC(S, uv, sh), rr = andV(S, uv, vConst(w, k - 1));
            if (!sgn) return rem ? rr : qq;
            q = getLin(S, qq); r = getLin(S, rr);
        } else {
            int s = symFdiv(u, k);
            q = Lin::sym(s); r = u - Lin::sym(s, k);
        }
    }
    if (rem) return vInt(w, nega ? r * -1 : r);
    return vInt(w, negq ? q * -1 : q);
}
static Val mulV(State& S, const Val& a, const Val& b)
{
    unsigned w = a.w; I c;
    if (w == 1) return andV(S, a, b);
    if (w > 64) { 
        I x, y; if (asConst(S, a, x) && asConst(S, b, y) && x < pow2(63) && y < pow2(62)) return vConst(w, x * y);
        Bits bb(w, BTOP); return vBits(bb);
    }
    if (asConst(S, b, c)) { if (c > pow2(w - 1)) c -= pow2(w); return vInt(w, modCanon(S, getLin(S, a) * c, w)); }
    if (asConst(S, a, c)) { if (c > pow2(w - 1)) c -= pow2(w); return vInt(w, modCanon(S, getLin(S, b) * c, w)); }
    for (int i = 0; i < 2; ++i) {
        const Val& y = i ? a : b;
        Lin l = getLin(S, y); I lo, hi; S.F.ival(l, lo, hi);
        if (lo > -INF && hi < INF && hi - lo <= 70) { enumVals(S, l, 70, "factor"); }
    }
    std::string ka = valKey(S, a), kb = valKey(S, b);
    const Val* p = &a; const Val* q = &b;
    if (kb < ka) std::swap(p, q);
    return opq(S, "mul", w, *p, q);
}
static Val addV(State& S, const Val& a, const Val& b, bool sub)
{
    unsigned w = a.w;
    if (w == 1) return xorV(S, a, b);
    if (w > 64) {
        I x, y; if (asConst(S, a, x) && asConst(S, b, y) && x < pow2(120) && y < pow2(120)) return vConst(w, sub ? x - y : x + y);
        Bits bb(w, BTOP); return vBits(bb);
    }
    I z;
    if (!sub && asConst(S, b, z) && z == 0) return a;
    if (!sub && asConst(S, a, z) && z == 0) return b;
    if (sub && asConst(S, b, z) && z == 0) return a;
    Lin x = getLin(S, a), y = getLin(S, b);
    if (y.isConst() && y.c > pow2(w - 1)) y.c -= pow2(w);
    return vInt(w, modCanon(S, sub ? x - y : x + y, w));
}
static Pred eqBits(State& S, const Bits& a, const Bits& b)   // conjunction
{
    Pred p = PT;
    // against a constant: group runs
    bool bc = true; for (auto x : b) if (x > 1) bc = false;
    if (bc) {
        for (size_t i = 0; i < a.size();) {
            if (a[i] <= 1) { if (a[i] != b[i]) return PF; ++i; continue; }
            if (a[i] == BTOP) return -1;
            size_t n = 1; int s = litSym(a[i]); unsigned x = litIdx(a[i]); bool ng = litNeg(a[i]);
            while (i + n < a.size() && isLit(a[i + n]) && litSym(a[i + n]) == s && litIdx(a[i + n]) == x + n && litNeg(a[i + n]) == ng) ++n;
            if (n == 1) p = mkAnd(p, mkBit(b[i] ? a[i] : bitNot(a[i])));
            else {
                I v = 0; for (size_t j = 0; j < n; ++j) if ((b[i + j] != 0) != ng) v += pow2((unsigned)j);
                Bits run(a.begin() + i, a.begin() + i + n); if (ng) for (auto& q : run) q = bitNot(q);
                Lin l; if (!S.F.linOfBitsOk(run, l)) return -1;
                p = mkAnd(p, mkEQ(l - Lin(v)));
            }
            i += n;
            if (p == PF) return PF;
        }
        return p;
    }
    return -1;
}
static Val icmpV(State& S, CmpInst::Predicate pr, const Val& a, const Val& b)
{
    if (a.k == V_UNDEF || b.k == V_UNDEF) return Val();
    if (a.k == V_PTR || b.k == V_PTR || a.k == V_UNKPTR || b.k == V_UNKPTR) {
        Val x = a, y = b; I c;
        if (x.k == V_INT && asConst(S, x, c) && c == 0) x = vNull();
        if (y.k == V_INT && asConst(S, y, c) && c == 0) y = vNull();
        if (x.k == V_PTR && y.k == V_PTR) {
            if (x.obj == y.obj) {
                Lin d = S.F.norm(x.lin - y.lin);
                switch (pr) {
                case CmpInst::ICMP_EQ: return vBool(mkEQ(d));
                case CmpInst::ICMP_NE: return vBool(mkNE(d));
                case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return vBool(mkGE(d * -1 - Lin(1)));
                case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: return vBool(mkGE(d * -1));
                case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return vBool(mkGE(d - Lin(1)));
                case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: return vBool(mkGE(d));
                default: break;
                }
            }
            if (pr == CmpInst::ICMP_EQ) return vBool(PF);
            if (pr == CmpInst::ICMP_NE) return vBool(PT);
            if (x.obj == 0) return vBool(pr == CmpInst::ICMP_ULT || pr == CmpInst::ICMP_ULE ? PT : PF);
            if (y.obj == 0) return vBool(pr == CmpInst::ICMP_UGT || pr == CmpInst::ICMP_UGE ? PT : PF);
            // objects in creation order (an arbitrary but fixed total order)
            static int n0 = 0; (void)n0;
            std::string key = "ord" + std::to_string(std::min(x.obj, y.obj)) + "." + std::to_string(std::max(x.obj, y.obj));
            bool lt = x.obj < y.obj;
            Pred p = mkUnk(key);        // "lower id is at the lower address"
            if (!lt) p = mkNot(p);
            bool wantLess = pr == CmpInst::ICMP_ULT || pr == CmpInst::ICMP_ULE || pr == CmpInst::ICMP_SLT || pr == CmpInst::ICMP_SLE;
            return vBool(wantLess ? p : mkNot(p));
        }
        static int n = 0;
        S.imprecise = true;
        return vBool(mkUnk("ptrcmp" + std::to_string(n++)));
    }
    unsigned w = a.w;
    if (w == 1) {
        switch (pr) {
        case CmpInst::ICMP_EQ: return vBool(mkNot(xorV(S, a, b).p));
        case CmpInst::ICMP_NE: return xorV(S, a, b);
        case CmpInst::ICMP_ULT: return vBool(mkAnd(mkNot(a.p), b.p));
        case CmpInst::ICMP_UGT: return vBool(mkAnd(a.p, mkNot(b.p)));
        case CmpInst::ICMP_ULE: return vBool(mkOr(mkNot(a.p), b.p));
        case CmpInst::ICMP_UGE: return vBool(mkOr(a.p, mkNot(b.p)));
        case CmpInst::ICMP_SLT: return vBool(mkAnd(a.p, mkNot(b.p)));
        case CmpInst::ICMP_SGT: return vBool(mkAnd(mkNot(a.p), b.p));
        case CmpInst::ICMP_SLE: return vBool(mkOr(a.p, mkNot(b.p)));
        case CmpInst::ICMP_SGE: return vBool(mkOr(mkNot(a.p), b.p));
        default: break;
        }
    }
    if (w > 64) {
        Bits x = getBits(S, a), y = getBits(S, b);
        I c, d; if (asConst(S, a, c) && asConst(S, b, d) && (pr == CmpInst::ICMP_EQ || pr == CmpInst::ICMP_NE)) return vBool((c == d) == (pr == CmpInst::ICMP_EQ) ? PT : PF);
        bool low = true; for (size_t i = 63; i < x.size(); ++i) if (x[i] != 0 || y[i] != 0) low = false;
        if (low) { x.resize(64); y.resize(64); return icmpV(S, pr, vBits(x), vBits(y)); }
        static int n = 0; S.imprecise = true;
        return vBool(mkUnk("wide" + std::to_string(n++)));
    }
    if (pr == CmpInst::ICMP_EQ || pr == CmpInst::ICMP_NE) {
        Pred p = -1;
        bool ab = a.bits != nullptr, bb = b.bits != nullptr;
        I ca, cb; bool ac = asConst(S, a, ca), bc = asConst(S, b, cb);
        if (ac && bc) p = ca == cb ? PT : PF;
        else if ((ab && bc) || (bb && ac)) {
            Bits x = getBits(S, bc ? a : b), y = getBits(S, bc ? b : a);
            p = eqBits(S, x, y);
        }
        if (p < 0) {
            if (sameVal(a, b)) p = PT;
            else {
                Lin d = modReduce(getLin(S, a) - getLin(S, b), w);
                if (d.isConst()) p = d.c == 0 ? PT : PF;
                else {
                    I lo, hi; S.F.ival(d, lo, hi);
                    if (lo > -pow2(w) && hi < pow2(w)) p = mkEQ(d);
                    else if (a.bits && b.bits) {
                        // bitwise
                        Bits x = getBits(S, a), y = getBits(S, b); Pred q = PT; 
                        for (unsigned i = 0; i < w && q >= 0; ++i) {
                            if (x[i] == y[i] && x[i] != BTOP) continue;
                            if (x[i] == bitNot(y[i]) && x[i] != BTOP) { q = PF; break; }
                            if (x[i] == BTOP || y[i] == BTOP) { q = -1; break; }
                            if (y[i] <= 1) q = mkAnd(q, mkBit(y[i] ? x[i] : bitNot(x[i])));
                            else if (x[i] <= 1) q = mkAnd(q, mkBit(x[i] ? y[i] : bitNot(y[i])));
                            else { q = -1; break; }
                        }
                        p = q >= 0 ? q : mkEQ(uLin(S, a) - uLin(S, b));
                    } else p = mkEQ(uLin(S, a) - uLin(S, b));
                }
            }
        }
        return vBool(pr == CmpInst::ICMP_EQ ? p : mkNot(p));
    }
    bool sg = CmpInst::isSigned(pr);
    // sign test on bits
    I c;
    if (sg && asConst(S, b, c) && (c == 0 || c == pow2(w) - 1) && (a.bits || (a.hasLin && S.F.norm(a.lin).t.size() == 1))) {
        bool ok = true; Bits bb;
        if (a.bits) bb = getBits(S, a); else ok = bitsOfMod(S, S.F.norm(a.lin), w, bb);
        if (ok && bb[w - 1] != BTOP) {
            Pred neg = mkBit(bb[w - 1]);
            if (c == 0 && pr == CmpInst::ICMP_SLT) return vBool(neg);
            if (c == 0 && pr == CmpInst::ICMP_SGE) return vBool(mkNot(neg));
            if (c != 0 && pr == CmpInst::ICMP_SGT) return vBool(mkNot(neg));
            if (c != 0 && pr == CmpInst::ICMP_SLE) return vBool(neg);
        }
    }
    Lin x = sg ? sLin(S, a) : uLin(S, a), y = sg ? sLin(S, b) : uLin(S, b);
    switch (pr) {
    case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return vBool(mkGE(y - x - Lin(1)));
    case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: return vBool(mkGE(y - x));
    case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return vBool(mkGE(x - y - Lin(1)));
    case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: return vBool(mkGE(x - y));
    default: break;
    }
    throw Giveup{"icmp"};
}

static Val ptrAdd(State& S, Val p, const Lin& off)
{
    if (p.k == V_PTR) {
        Lin o = S.F.norm(p.lin + off);
        if (p.obj == 0 && !(o.isConst() && o.c == 0)) {
            // arithmetic on null: keep as null with offset (dereference is reported)
        }
        p.lin = o;
    }
    return p;
}

static Val binop(State& S, const BinaryOperator* bo, const Val& a, const Val& b)
{
    unsigned opc = bo->getOpcode();
    Type* ty = bo->getType();
    if (a.k == V_UNDEF || b.k == V_UNDEF) {
        I c;
        if (opc == Instruction::And && ((a.k == V_INT && asConst(S, a, c) && c == 0) || (b.k == V_INT && asConst(S, b, c) && c == 0))) return vConst(typeBits(ty), 0);
        return Val();
    }
    if (ty->isFloatingPointTy()) return opq(S, bo->getOpcodeName(), typeBits(ty), a, &b);
    if (ty->isVectorTy()) throw Giveup{"vector operation"};
    // pointer differences
    if (a.k == V_PTR || b.k == V_PTR || a.k == V_UNKPTR || b.k == V_UNKPTR) {
        if (opc == Instruction::Sub && a.k == V_PTR && b.k == V_PTR) {
            if (a.obj == b.obj) return vInt(64, S.F.norm(a.lin - b.lin));
        }
        if ((opc == Instruction::Add || opc == Instruction::Sub) && a.k == V_PTR && b.k == V_INT) return ptrAdd(S, a, sLin(S, b) * (opc == Instruction::Add ? 1 : -1));
        if (opc == Instruction::Add && b.k == V_PTR && a.k == V_INT) return ptrAdd(S, b, sLin(S, a));
        // address taken as number
        auto num = [&](const Val& v) {
            if (v.k == V_INT) return v;
            if (v.k == V_PTR) {
                if (v.obj == 0) return vInt(64, v.lin);
                int s = symOpq("addr" + std::to_string(v.obj), 44, "addr");
                return vInt(64, Lin::sym(s, 16) + Lin(4096) + v.lin);
            }
            return freshInt(S, 64, "unkptr");
        };
        Val x = num(a), y = num(b);
        switch (opc) {
        case Instruction::Sub: return addV(S, x, y, true);
        case Instruction::Add: return addV(S, x, y, false);
        case Instruction::And: return andV(S, x, y);
        case Instruction::URem: return divremV(S, x, y, true, false);
        default: return freshInt(S, 64, "ptrarith");
        }
    }
    switch (opc) {
    case Instruction::Add: return addV(S, a, b, false);
    case Instruction::Sub: return addV(S, a, b, true);
    case Instruction::Mul: return mulV(S, a, b);
    case Instruction::And: return andV(S, a, b);
    case Instruction::Or: return orV(S, a, b);
    case Instruction::Xor: return xorV(S, a, b);
    case Instruction::UDiv: return divremV(S, a, b, false, false);
    case Instruction::URem: return divremV(S, a, b, true, false);
    case Instruction::SDiv: return divremV(S, a, b, false, true);
    case Instruction::SRem: return divremV(S, a, b, true, true);
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        ++N_SHIFT;
        unsigned w = a.w;
        if (w == 1) return a;
        I k;
        if (!asConst(S, b, k)) {
            Lin l = uLin(S, b);
            Pred p = mkGE(Lin((I)w - 1) - l);
            int d = S.F.decide(p);
            if (d < 0) throw ForkReq{p};
            if (d == 0) { violation(S, "shift-overflow", "shift amount " + l.str() + " not below the width " + std::to_string(w), true); throw Abort{"shift"}; }
            k = enumVals(S, l, 130, "shift amount");
        }
        if (k >= (I)w) { violation(S, "shift-overflow", "shift amount " + itoaI(k) + " not below the width " + std::to_string(w), true); throw Abort{"shift"}; }
        if (opc == Instruction::Shl) return shlC(S, a, (unsigned)k);
        if (opc == Instruction::LShr) return lshrC(S, a, (unsigned)k);
        if (k == 0) return a;
        if (!a.bits && w <= 64) { Lin s = sLin(S, a), q, r; if (linShr(S, s, (unsigned)k, q, r)) return vInt(w, q); }
        Bits bb = getBits(S, a); Bits r(w, bb[w - 1]);
        for (unsigned i = 0; i + (unsigned)k < w; ++i) r[i] = bb[i + (unsigned)k];
        return vBits(r);
    }
    default: break;
    }
    throw Giveup{std::string("binop ") + bo->getOpcodeName()};
}

static void checkNsw(State& S, const BinaryOperator* bo, const Val& a, const Val& b)
{
    if (!S.mode.count("overflow")) return;
    auto* ob = dyn_cast<OverflowingBinaryOperator>(bo);
    if (!ob || !ob->hasNoSignedWrap() || a.k != V_INT || b.k != V_INT || a.w < 32 || a.w > 64) return;
    unsigned opc = bo->getOpcode();
    if (opc != Instruction::Add && opc != Instruction::Sub && opc != Instruction::Mul) return;
    Lin x = sLin(S, a), y = sLin(S, b), r;
    if (opc == Instruction::Mul) { if (!x.isConst() && !y.isConst()) return; r = x.isConst() ? y * x.c : x * y.c; }
    else r = opc == Instruction::Add ? x + y : x - y;
    Pred p = mkAnd(mkGE(r + Lin(pow2(a.w - 1))), mkGE(Lin(pow2(a.w - 1) - 1) - r));
    int d = S.F.decide(p);
    if (d == 1) return;
    violation(S, "signed-overflow", "signed arithmetic overflows: " + r.str(), d == 0);
}

// ---------------------------------------------------------------- type info
static std::string tiName(const Constant* c)
{
    if (!c || isa<ConstantPointerNull>(c)) return "";
    if (auto* g = dyn_cast<GlobalVariable>(c->stripPointerCasts())) return g->getName().str();
    return "?";
}
static bool tiDerives(const Constant* thrown, const Constant* want, int depth = 0)
{
    if (!want || isa<ConstantPointerNull>(want)) return true;
    std::string a = tiName(thrown), b = tiName(want);
    if (a == b) return true;
    if (depth > 8) return false;
    static const std::map<std::string, std::vector<std::string>> ext = {
        {"_ZTISt12length_error", {"_ZTISt11logic_error"}}, {"_ZTISt12out_of_range", {"_ZTISt11logic_error"}},
        {"_ZTISt16invalid_argument", {"_ZTISt11logic_error"}}, {"_ZTISt12domain_error", {"_ZTISt11logic_error"}},
        {"_ZTISt11logic_error", {"_ZTISt9exception"}}, {"_ZTISt13runtime_error", {"_ZTISt9exception"}},
        {"_ZTISt9bad_alloc", {"_ZTISt9exception"}}, {"_ZTISt20bad_array_new_length", {"_ZTISt9bad_alloc"}},
        {"_ZTISt8bad_cast", {"_ZTISt9exception"}}, {"_ZTISt17bad_function_call", {"_ZTISt9exception"}},
        {"_ZTISt19bad_optional_access", {"_ZTISt9exception"}}, {"_ZTISt18bad_variant_access", {"_ZTISt9exception"}}};
    auto it = ext.find(a);
    if (it != ext.end()) { for (auto& x : it->second) { if (x == b) return true; auto j = ext.find(x); if (j != ext.end()) for (auto& y : j->second) { if (y == b) return true; auto k2 = ext.find(y); if (k2 != ext.end()) for (auto& z : k2->second) if (z == b) return true; } } }
    if (auto* g = dyn_cast_or_null<GlobalVariable>(thrown ? thrown->stripPointerCasts() : nullptr)) {
        if (g->hasInitializer()) {
            auto* init = g->getInitializer();
            for (unsigned i = 2; i < init->getNumOperands(); ++i) {
                auto* o = dyn_cast<Constant>(init->getOperand(i));
                if (o && o->getType()->isPointerTy() && tiName(o).rfind("_ZTI", 0) == 0 && tiDerives(o, want, depth + 1)) return true;
            }
        }
    }
    return false;
}
static int typeidFor(const Constant* c)
{
    static std::map<std::string, int> ids;
    std::string n = tiName(c);
    auto it = ids.find(n);
    if (it != ids.end()) return it->second;
    return ids[n] = (int)ids.size() + 1;
}

// ---------------------------------------------------------------- calls
static std::vector<Exit> execFunction(Function* F, const std::vector<Val>& args, State S);

static void note(State& S, const std::string& s)
{
    auto t = std::make_shared<Trail>(); t->s = s; t->prev = S.trail; S.trail = t;
}
static std::string cstr(State& S, const Val& p)
{
    if (p.k != V_PTR || !p.obj) return "?";
    const Obj& o = *S.objs[p.obj];
    if (!o.gv || !o.gv->hasInitializer()) return "?";
    if (auto* cds = dyn_cast<ConstantDataSequential>(o.gv->getInitializer())) { std::string s = cds->getAsString().str(); s = s.substr((size_t)p.lin.c); return s.c_str(); }
    return "";
}
static Val exitConst(unsigned w, I c) { return vConst(w, c); }

static const Constant* externTI(const std::string& name)
{
    if (auto* g = M->getNamedGlobal(name)) return g;
    return new GlobalVariable(*M, Type::getInt8Ty(M->getContext()), true, GlobalValue::ExternalLinkage, nullptr, name);
}
static Exit throwExt(State& S, const std::string& ti)
{
    Exit e; e.k = Exit::THROW; e.ti = externTI(ti);
    int o = newObj(S, O_EXC, Lin(64), "exception " + ti);
    S.objs[o]->init = 3;
    e.v = vPtr(o, Lin(0));
    S.excType[o] = e.ti;
    e.S = S;
    return e;
}
static Exit retExit(State& S, const Val& v) { Exit e; e.k = Exit::RET; e.v = v; e.S = S; return e; }

static void freeObj(State& S, const Val& p, int kind, const char* what)
{
    if (p.k == V_UNKPTR) throw Giveup{"free of an unknown pointer"};
    if (p.k != V_PTR) { violation(S, "bad-free", std::string(what) + " of a non-pointer", true); throw Abort{"free"}; }
    if (p.obj == 0) return;
    Obj& o = S.w(p.obj);
    Lin off = S.F.norm(p.lin);
    if (o.kind != O_HEAP) { violation(S, "bad-free", std::string(what) + " of object '" + o.name + "' that is not from the heap", true); throw Abort{"free"}; }
    if (!o.alive) { violation(S, "double-free", std::string(what) + " of block allocated at " + o.where + " twice", true); throw Abort{"free"}; }
    if (!(off.isConst() && off.c == 0)) { violation(S, "bad-free", std::string(what) + " of an interior pointer", true); throw Abort{"free"}; }
    if (o.allocKind != kind) { violation(S, "bad-free", std::string(what) + " does not match the allocation of the block at " + o.where, true); throw Abort{"free"}; }
    o.alive = false; o.freed = true;
}
static std::vector<Exit> allocate(State& S, const Lin& size, int kind, const std::string& nm)
{
    std::vector<Exit> r;
    if (S.hasAllocLimit) {
        Lin d = S.F.norm(S.allocLimit - size);
        ++CHECKS["allocation bounded by the remaining data"];
        if (!S.F.proveGE(d)) {
            violation(S, "unbounded-allocation", "allocation of " + size.str() + " byte(s) is not bounded by the limit " + S.allocLimit.str(), S.F.decide(mkGE(d)) == 0);
            throw Abort{"alloc"};
        }
    }
    if (S.mode.count("alloc_may_fail")) {
        State T = S;
        note(T, "allocation fails at " + locOf(CUR));
        if (S.mode.count("alloc_fail_once")) { T.mode.erase("alloc_may_fail"); }
        r.push_back(throwExt(T, "_ZTISt9bad_alloc"));
    }
    int o = newObj(S, O_HEAP, size, nm);
    S.objs[o]->allocKind = kind;
    r.push_back(retExit(S, vPtr(o, Lin(0))));
    return r;
}

static Val zvSym(State& S, const std::string& name, unsigned w)
{
    int n = S.names[name + "/" + std::to_string(w)]++;
    std::string key = "src:" + name + "#" + std::to_string(n) + "/" + std::to_string(w);
    int s = symOpq(key, w, name + (n ? "#" + std::to_string(n) : ""));
    if (SYM[s].kind == S_OPQ) SYM[s].kind = S_SRC;
    if (w == 1) return vBool(mkBit(bitLit(s, 0, false)));
    return vInt(w, Lin::sym(s));
}

static Bits streamBits(State& S, const Val& p, const Lin& pos, unsigned n, bool orig)
{
    // MSB-first n bits starting at bit position pos relative to p
    Lin q, r; Lin ps = S.F.norm(pos);
    if (!linShr(S, ps, 3, q, r)) throw Giveup{"bit position without a known offset: " + ps.str()};
    I ro = enumVals(S, r, 8, "bit offset");
    Obj tmp;
    Bits out(n, 0);
    const Obj* o = S.objs[p.obj].get();
    if (orig) { tmp = *o; tmp.cells.clear(); tmp.csz.clear(); tmp.log.clear(); o = &tmp; }
    ByteV b; I cur = -1;
    for (unsigned i = 0; i < n; ++i) {
        I bp = ro + i, by = bp / 8;
        if (by != cur) { b = loadByte(S, *o, p.lin + q + Lin(by)); cur = by; }
        Bit v = b.k == 1 ? b.b[7 - (unsigned)(bp % 8)] : BTOP;
        out[n - 1 - i] = S.F.normBit(v);
    }
    return out;
}

// slices of one value are written as the sum of their unknown bits
static Lin canonSlices(State& S, const Lin& l)
{
    Lin r(l.c);
    for (auto& t : l.t) {
        const SymInfo& i = SYM[t.first];
        Bits bits; Lin x;
        if ((i.kind == S_SRC || i.kind == S_RUN || i.kind == S_BYTE) && i.w > 0 && i.w <= 64 && S.F.bitsOf(Lin::sym(t.first), i.w, bits) && S.F.linOfBitsOk(bits, x)) r = r + x * t.second;
        else r = r + Lin::sym(t.first, t.second);
    }
    return r;
}

static bool valuesEqual(State& S, const Val& a, const Val& b, bool& definiteDiff, std::string& why)
{
    definiteDiff = false;
    if (a.k == V_PTR && b.k == V_PTR) {
        if (a.obj != b.obj) { definiteDiff = true; return false; }
        Pred p = mkEQ(S.F.norm(a.lin - b.lin)); int d = S.F.decide(p); definiteDiff = d == 0; return d == 1;
    }
    if (a.k != V_INT || b.k != V_INT) { definiteDiff = a.k != b.k; return false; }
    if (sameVal(a, b)) return true;
    Lin d = modReduce(S.F.norm(getLin(S, a) - getLin(S, b)), a.w);
    if (!d.isConst()) d = modReduce(canonSlices(S, d), a.w);
    if (d.isConst()) { definiteDiff = d.c != 0; if (d.c == 0) return true; why = "differ by " + itoaI(d.c); return false; }
    // low slice of a definition against the definition itself: equal when the bits above the slice are proved to be known
    for (auto& q : d.t) {
        const SymInfo si = SYM[q.first];
        if (si.kind != S_RUN || si.rlo != 0 || SYM[si.base].kind != S_DEF || (q.second != 1 && q.second != pow2(a.w) - 1 && q.second != -1)) continue;
        Lin def = S.F.norm(SYM[si.base].def);
        Lin x = q.second == 1 ? d : d * -1;
        x = x - Lin::sym(q.first, q.second == 1 ? q.second : -q.second) + def;
        x = modReduce(S.F.norm(x), a.w);
        if (!x.isConst() || x.c % pow2(si.rlen) != 0) continue;
        for (I m = -1; m <= 1; ++m) {
            Lin y = def - Lin(x.c + m * pow2(a.w));
            if (S.F.proveGE(y) && S.F.proveGE(Lin(pow2(si.rlen) - 1) - y)) return true;
        }
    }
    {
        // fast path: bitwise provenance
        Bits x, y; bool ok = true;
        x = getBits(S, a); y = getBits(S, b);
        for (size_t i = 0; i < x.size(); ++i) { if (x[i] == BTOP || y[i] == BTOP) ok = false; if (x[i] != y[i]) ok = false; }
        if (ok) return true;
        for (size_t i = 0; i < x.size(); ++i) if ((x[i] <= 1 && y[i] <= 1 && x[i] != y[i]) || (isLit(x[i]) && y[i] == bitNot(x[i]))) { definiteDiff = true; why = "bit " + std::to_string(i) + " differs"; return false; }
        for (size_t i = 0; i < x.size(); ++i) if (x[i] != y[i]) { why = "bit " + std::to_string(i) + ": " + (isLit(x[i]) ? predStr(mkBit(x[i])) : std::to_string(x[i])) + " vs " + (isLit(y[i]) ? predStr(mkBit(y[i])) : std::to_string(y[i])); break; }
    }
    Lin e = uLin(S, a) - uLin(S, b);
    int k = S.F.decide(mkEQ(e));
    definiteDiff = k == 0;
    if (k != 1 && why.empty()) why = "difference " + e.str();
    return k == 1;
}

static void coverHit(const std::string& s) { COVER_HIT.insert(s); }

// returns true when the call was handled here
static bool zvCall(State& S, StringRef n, const CallBase* cb, std::vector<Val>& a, std::vector<Exit>& out)
{
    if (!n.starts_with("zv_")) return false;
    Type* rt = cb->getType();
    auto ret = [&](const Val& v) { out.push_back(retExit(S, v)); return true; };
    if (n == "zv_sym") return ret(zextV(S, zvSym(S, cstr(S, a[0]), (unsigned)constAmount(S, a[1], 64, "width")), 64));
    if (n == "zv_split") {
        int cnt = S.names["zv_split"]; 
        I lo = constAmount(S, a[0], 0, "lo"), hi = constAmount(S, a[1], 0, "hi");
        int s = symOpq("split" + std::to_string(cnt) + ":" + itoaI(lo) + ".." + itoaI(hi), 64, "split" + std::to_string(cnt));
        Bnd b = S.F.symBounds(s);
        if (b.lo != b.hi) { if (lo > hi) throw Abort{"empty split"}; S.F.refine(s, lo, hi); b = S.F.symBounds(s); if (b.lo != b.hi) throw ForkVals{Lin::sym(s), lo, hi}; }
        S.names["zv_split"]++;
        S.splits.push_back(b.lo);
        return ret(vConst(64, b.lo));
    }
    if (n == "zv_shard") {
        u64 h = 1469598103934665603ULL;
        for (auto v : S.splits) { h ^= (u64)v; h *= 1099511628211ULL; h ^= h >> 29; }
        if ((int)(h % (u64)SHARD_N) != SHARD_I) throw Abort{"other shard"};
        return ret(Val());
    }
    if (n == "zv_assume") {
        if (a[0].k != V_INT) throw UndefUse();
        int d = decideOrFork(S, a[0].p);
        if (d == 0) throw Abort{"assumption"};
        return ret(Val());
    }
    if (n == "zv_check") {
        std::string msg = cstr(S, a[1]);
        if (a[0].k == V_UNDEF) { violation(S, "check", msg + " (uninitialised value)", true); throw Abort{"check"}; }
        int d = S.F.decide(a[0].p);
        if (d < 0) {
            // consider each part separately before giving up
            Pred u = S.F.firstUndecided(a[0].p);
            if (PRED[a[0].p].k == P_AND || PRED[a[0].p].k == P_OR) throw ForkReq{u};
        }
        if (d == 1) { ++CHECKS[msg]; return ret(Val()); }
        violation(S, "check", msg + (d < 0 ? "  [not established: " + predStr(a[0].p) + "]" : ""), d == 0);
        throw Abort{"check"};
    }
    if (n == "zv_check_eq") {
        std::string msg = cstr(S, a[2]);
        if (a[0].k == V_UNDEF || a[1].k == V_UNDEF) { violation(S, "check", msg + " (uninitialised value)", true); throw Abort{"check"}; }
        bool def; std::string why;
        if (valuesEqual(S, a[0], a[1], def, why)) { ++CHECKS[msg]; return ret(Val()); }
        violation(S, "check", msg + ": got " + valStr(S, a[0]) + " expected " + valStr(S, a[1]) + " (" + why + ")", def);
        throw Abort{"check"};
    }
    if (n == "zv_fail") { violation(S, "check", cstr(S, a[0]), true); throw Abort{"fail"}; }
    if (n == "zv_cover") { coverHit(cstr(S, a[0])); return ret(Val()); }
    if (n == "zv_trace") { if (VERBOSE) std::cerr << "TRACE " << cstr(S, a[0]) << " " << valStr(S, a[1]) << "  {" << S.F.str() << "}\n"; return ret(Val()); }
    if (n == "zv_buffer") {
        int o = newObj(S, O_BUF, uLin(S, a[1]), cstr(S, a[0]));
        S.objs[o]->init = 2;
        return ret(vPtr(o, Lin(0)));
    }
    if (n == "zv_readonly") { S.w(a[0].obj).ro = true; return ret(Val()); }
    if (n == "zv_bits_at" || n == "zv_bits_orig") {
        unsigned k = (unsigned)constAmount(S, a[2], 64, "count");
        if (k == 0) return ret(vConst(64, 0));
        Bits b = streamBits(S, a[0], uLin(S, a[1]), k, n == "zv_bits_orig");
        b.resize(64, 0);
        return ret(vBits(b));
    }
    if (n == "zv_check_untouched") {
        // every write lies in bits [lo, hi) of the buffer; bits of partially covered bytes keep their value
        std::string msg = cstr(S, a[3]);
        Lin lo = uLin(S, a[1]), hi = uLin(S, a[2]);
        const Obj& o = *S.objs[a[0].obj];
        auto one = [&](const Lin& off, const ByteV& b) {
            Lin f = S.F.norm(off * 8);
            if (S.F.proveGE(f - lo) && S.F.proveGE(hi - f - Lin(8))) return true;
            ByteV ib = initByte(S, o, off);
            for (unsigned i = 0; i < 8; ++i) {
                Lin p = f + Lin((I)i);
                if (b.k == 1 && S.F.normBit(b.b[7 - i]) == S.F.normBit(ib.b[7 - i]) && b.b[7 - i] != BTOP) continue;
                for (Pred q : {mkGE(p - lo), mkGE(hi - p - Lin(1))}) {
                    int d = S.F.decide(q);
                    if (d < 0) throw ForkReq{q};
                    if (d == 0) return false;
                }
            }
            return true;
        };
        bool ok = true;
        for (auto& c : o.cells) { unsigned sz = o.csz.at(c.first); for (unsigned i = 0; i < sz && ok; ++i) ok = one(Lin((I)c.first + i), byteFromVal(S, c.second, sz, i)); }
        for (auto& r : o.log) {
            if (r.kind == 0) { unsigned sz = (unsigned)r.size.c; for (unsigned i = 0; i < sz && ok; ++i) ok = one(r.off + Lin((I)i), loadByte(S, o, r.off + Lin((I)i))); }
            else { Lin f = r.off * 8; if (!(S.F.proveGE(f - lo) && S.F.proveGE(hi - f - r.size * 8))) ok = false; }
        }
        if (ok) { ++CHECKS[msg]; return ret(Val()); }
        violation(S, "check", msg, false);
        throw Abort{"check"};
    }
    if (n == "zv_mode") { std::string k = cstr(S, a[0]); I v = constAmount(S, a[1], 0, "mode"); if (v) S.mode[k] = v; else S.mode.erase(k); return ret(Val()); }
    if (n == "zv_alloc_limit") { S.allocLimit = uLin(S, a[0]); S.hasAllocLimit = true; return ret(Val()); }
    if (n == "zv_alloc_nolimit") { S.hasAllocLimit = false; return ret(Val()); }
    if (n == "zv_live") {      // live heap blocks
        I k = 0; for (auto& o : S.objs) if (o && o->kind == O_HEAP && o->alive) ++k;
        return ret(vConst(64, k));
    }
    if (n == "zv_choice") {
        std::string nm = cstr(S, a[0]); int c = S.names["choice:" + nm]++;
        return ret(vBool(mkUnk("choice:" + nm + "#" + std::to_string(c))));
    }
    if (n == "zv_same") { return ret(vBool(sameVal(a[0], a[1]) ? PT : PF)); }
    if (n == "zv_is_alive") { return ret(vBool(a[0].k == V_PTR && a[0].obj && S.objs[a[0].obj]->alive ? PT : PF)); }
    if (n == "zv_obj_alloc") { return allocate(S, uLin(S, a[0]), 10 + (int)constAmount(S, a[1], 0, "tag"), "tagged block").swap(out), true; }
    if (n == "zv_obj_free") { freeObj(S, a[0], 10 + (int)constAmount(S, a[1], 0, "tag"), "deallocate"); return ret(Val()); }
    if (n == "zv_havoc") { unsigned w = typeBits(rt); return ret(freshInt(S, w, "havoc")); }
    throw Giveup{"unknown intrinsic " + n.str()};
}

static bool isOpaqueException(const std::string& d)
{
    // message building of the library's exceptions (checked on its own by property I02)
    if (d.rfind("zserio::CppRuntimeException::", 0) == 0) return true;
    if (d.find("operator<<") != std::string::npos && d.find("zserio::") != std::string::npos && d.find("Exception") != std::string::npos) return true;
    return false;
}

static std::vector<Exit> callFunction(State& S, Frame& fr, const CallBase* cb, Function* F, std::vector<Val> args);

static std::vector<Exit> doCall(State& S, Frame& fr, const CallBase* cb)
{
    std::vector<Exit> out;
    const Value* cv = cb->getCalledOperand()->stripPointerCasts();
    Function* F = dyn_cast<Function>(const_cast<Value*>(cv));
    std::vector<Val> args;
    if (F && F->isIntrinsic()) {
        auto id = F->getIntrinsicID();
        switch (id) {
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
        case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
        case Intrinsic::stackrestore: case Intrinsic::prefetch:
            out.push_back(retExit(S, Val())); return out;
        default: break;
        }
    }
    for (auto& u : cb->args()) args.push_back(getOp(S, fr, u.get()));
    if (!F) {
        Val fv = getOp(S, fr, cb->getCalledOperand());
        if (fv.k == V_PTR && fv.obj && S.objs[fv.obj]->kind == O_FUNC) F = S.objs[fv.obj]->fn;
        else if (fv.k == V_PTR && fv.obj == 0) { violation(S, "null-call", "call through a null function pointer", true); throw Abort{"call"}; }
        else throw Giveup{"indirect call to unknown target at " + locOf(cb)};
    }
    return callFunction(S, fr, cb, F, args);
}

static std::vector<Exit> callFunction(State& S, Frame& fr, const CallBase* cb, Function* F, std::vector<Val> args)
{
    std::vector<Exit> out;
    StringRef n = F->getName();
    Type* rt = F->getReturnType();
    auto ret = [&](const Val& v) { out.push_back(retExit(S, v)); return out; };
    ++N_CALLS;
    if (F->isIntrinsic()) {
        auto id = F->getIntrinsicID();
        auto undefAny = [&]() { for (auto& a : args) if (a.k == V_UNDEF) return true; return false; };
        switch (id) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: memCopy(S, args[0], args[1], uLin(S, args[2])); return ret(Val());
        case Intrinsic::memset: memFill(S, args[0], args[1], uLin(S, args[2])); return ret(Val());
        case Intrinsic::expect: case Intrinsic::ssa_copy: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return ret(args[0]);
        case Intrinsic::stacksave: return ret(vNull());
        case Intrinsic::is_constant: return ret(vBool(PF));
        case Intrinsic::objectsize: return ret(vConst(64, pow2(64) - 1));
        case Intrinsic::eh_typeid_for: return ret(vConst(32, typeidFor(cast<Constant>(cb->getArgOperand(0)))));
        case Intrinsic::trap: violation(S, "trap", "trap instruction reached", true); throw Abort{"trap"};
        case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
            if (undefAny()) return ret(Val());
            bool sg = id == Intrinsic::smin || id == Intrinsic::smax, mn = id == Intrinsic::umin || id == Intrinsic::smin;
            Val c = icmpV(S, sg ? CmpInst::ICMP_SLT : CmpInst::ICMP_ULT, args[0], args[1]);
            int d = decideOrFork(S, c.p);
            return ret((d == 1) == mn ? args[0] : args[1]);
        }
        case Intrinsic::abs: {
            if (undefAny()) return ret(Val());
            Lin l = sLin(S, args[0]); int d = decideOrFork(S, mkGE(l));
            return ret(vInt(args[0].w, d ? l : l * -1));
        }
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
            if (undefAny()) return ret(Val());
            bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
            unsigned w = args[0].w;
            Lin x = sg ? sLin(S, args[0]) : uLin(S, args[0]), y = sg ? sLin(S, args[1]) : uLin(S, args[1]), r;
            if (id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow) {
                if (!x.isConst() && !y.isConst()) { enumVals(S, y, 70, "factor"); }
                r = x.isConst() ? y * x.c : x * y.c;
            } else r = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? x + y : x - y;
            I lo = sg ? -pow2(w - 1) : 0, hi = lo + pow2(w) - 1;
            Pred ov = mkNot(mkAnd(mkGE(r - Lin(lo)), mkGE(Lin(hi) - r)));
            int over = decideOrFork(S, ov);
            if (!over) {           // terms which cannot contribute without an overflow
                Lin kept; kept.c = r.c;
                for (auto& t : r.t) {
                    if (t.second >= pow2(w)) { Lin x; x.t.push_back({t.first, 1}); if (S.F.proveGE(x * -1) && S.F.proveGE(x)) continue; }
                    kept.t.push_back(t);
                }
                r = kept;
            }
            auto v = std::make_shared<std::vector<Val>>();
            v->push_back(vInt(w, modCanon(S, r, w))); v->push_back(vBool(over ? PT : PF));
            Val ag; ag.k = V_AGG; ag.agg = v;
            return ret(ag);
        }
        case Intrinsic::bswap: { Bits b = getBits(S, args[0]), r(b.size()); size_t nb = b.size() / 8; for (size_t i = 0; i < nb; ++i) for (int j = 0; j < 8; ++j) r[i * 8 + j] = b[(nb - 1 - i) * 8 + j]; return ret(vBits(r)); }
        case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
            if (undefAny()) return ret(Val());
            Bits b = getBits(S, args[0]); unsigned w = args[0].w;
            if (id != Intrinsic::ctpop) {
                I cnt = 0;
                for (unsigned i = 0; i < w; ++i) { Bit x = b[id == Intrinsic::ctlz ? w - 1 - i : i]; if (x == BTOP) return ret(freshInt(S, w, "ctz")); int d = decideOrFork(S, mkBit(x)); if (d) break; ++cnt; }
                return ret(vConst(w, cnt));
            }
            I cnt = 0; for (auto x : b) { if (x == BTOP) return ret(freshInt(S, w, "pop")); cnt += decideOrFork(S, mkBit(x)); }
            return ret(vConst(w, cnt));
        }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            if (undefAny()) return ret(Val());
            unsigned w = args[0].w; unsigned k = (unsigned)(constAmount(S, args[2], 64, "rotate") % w);
            Bits h = getBits(S, args[0]), l = getBits(S, args[1]), r(w);
            Bits cat = l; cat.insert(cat.end(), h.begin(), h.end());
            unsigned sh = id == Intrinsic::fshl ? w - k : k;
            for (unsigned i = 0; i < w; ++i) r[i] = cat[i + sh];
            return ret(vBits(r));
        }
        case Intrinsic::fabs: { if (undefAny()) return ret(Val()); Bits b = getBits(S, args[0]); b.back() = 0; return ret(vBits(b)); }
        case Intrinsic::copysign: { Bits b = getBits(S, args[0]), c = getBits(S, args[1]); b.back() = c.back(); return ret(vBits(b)); }
        default: break;
        }
        if (undefAny() && !rt->isVoidTy()) return ret(Val());
        EXTERNS[n.str()]++;
        if (rt->isVoidTy()) return ret(Val());
        if (rt->isFloatingPointTy() || rt->isIntegerTy()) {
            std::string key = n.str(); for (auto& a : args) key += "|" + valKey(S, a);
            unsigned w = typeBits(rt);
            if (w == 1) return ret(vBool(mkUnk(key)));
            return ret(vInt(w, Lin::sym(symOpq(key, w, n.str()))));
        }
        throw Giveup{"intrinsic " + n.str()};
    }
    if (zvCall(S, n, cb, args, out)) return out;
    // user-defined summaries in the drivers: zvm_<mangled>
    if (!n.starts_with("zvm_")) {
        if (Function* sub = M->getFunction(("zvm_" + n).str())) if (!sub->isDeclaration()) return execFunction(sub, args, S);
    }
    // std::copy between byte ranges of different character types copies element by element: the contract is that of memmove
    if (args.size() == 3 && n.starts_with("_ZNSt11__copy_moveILb") && n.contains("random_access_iterator_tagE8__copy_mI")) {
        StringRef t = n.substr(n.find("8__copy_mI") + 10);
        auto byteTy = [&](StringRef& x) {
            if (!x.consume_front("P")) return false;
            x.consume_front("K");
            return x.consume_front("h") || x.consume_front("c") || x.consume_front("a");
        };
        if (byteTy(t) && (byteTy(t) || t.starts_with("S")) && args[0].k == V_PTR && args[1].k == V_PTR && args[0].obj == args[1].obj) {
            Lin len = S.F.norm(args[1].lin - args[0].lin);
            if (!decideOrFork(S, mkGE(len - Lin(1)))) return ret(args[2]);
            memCopy(S, args[2], args[0], len);
            Val r = args[2]; r.lin = r.lin + len;
            return ret(r);
        }
    }
    if (args.size() == 3 && (n.contains("13_S_copy_charsIPKh") || n.contains("13_S_copy_charsIPh")) && args[1].k == V_PTR && args[2].k == V_PTR && args[1].obj == args[2].obj) {
        Lin len = S.F.norm(args[2].lin - args[1].lin);
        if (!decideOrFork(S, mkGE(len - Lin(1)))) return ret(Val());
        memCopy(S, args[0], args[1], len);
        return ret(Val());
    }
    // allocation
    if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnwmSt11align_val_t") {
        if (S.mode.count("no_new") && n[0] == '_') { violation(S, "allocator-bypass", "heap memory is allocated which does not come from the supplied allocator", true); throw Abort{"no_new"}; }
        int kind = n == "_Znwm" ? 1 : n == "_Znam" ? 2 : n == "malloc" ? 3 : n == "_ZnwmSt11align_val_t" ? 4 : 1;
        return allocate(S, uLin(S, args[0]), kind, n == "malloc" ? "malloc block" : "heap block");
    }
    if (n == "_ZdlPv" || n == "_ZdlPvm") { freeObj(S, args[0], 1, "delete"); return ret(Val()); }
    if (n == "_ZdlPvSt11align_val_t" || n == "_ZdlPvmSt11align_val_t") { freeObj(S, args[0], 4, "delete"); return ret(Val()); }
    if (n == "_ZdaPv" || n == "_ZdaPvm") { freeObj(S, args[0], 2, "delete[]"); return ret(Val()); }
    if (n == "free") { freeObj(S, args[0], 3, "free"); return ret(Val()); }
    // exceptions
    if (n == "__cxa_allocate_exception") { int o = newObj(S, O_EXC, uLin(S, args[0]), "exception object"); return ret(vPtr(o, Lin(0))); }
    if (n == "__cxa_free_exception") { return ret(Val()); }
    if (n == "_ZNSt9exceptionD2Ev" || n == "_ZNSt9exceptionD1Ev") return ret(Val());
    if (n == "__cxa_throw") {
        Exit e; e.k = Exit::THROW; e.v = args[0];
        e.ti = cast<Constant>(cb->getArgOperand(1)->stripPointerCasts());
        if (args[0].k == V_PTR) S.excType[args[0].obj] = e.ti;
        note(S, "throw " + tiName(e.ti) + " at " + locOf(cb));
        e.S = S; out.push_back(e); ++N_THROW;
        return out;
    }
    if (n == "__cxa_rethrow") {
        if (S.caught.empty()) throw Giveup{"rethrow without exception"};
        Exit e; e.k = Exit::THROW; e.v = S.caught.back(); e.ti = S.excType[e.v.obj];
        e.S = S; out.push_back(e);
        return out;
    }
    if (n == "__cxa_begin_catch") { S.caught.push_back(args[0]); return ret(args[0]); }
    if (n == "__cxa_end_catch") { if (!S.caught.empty()) S.caught.pop_back(); return ret(Val()); }
    if (n == "__cxa_get_exception_ptr") return ret(args[0]);
    if (n == "__clang_call_terminate" || n == "_ZSt9terminatev") {
        violation(S, "terminate", "an exception escapes a function that promises not to throw (std::terminate)", true);
        throw Abort{"terminate"};
    }
    if (n == "abort" || n == "__assert_fail" || n == "__cxa_pure_virtual" || n == "_ZSt21__glibcxx_assert_failPKciS0_S0_") {
        violation(S, "abort", n.str() + " reached", true);
        throw Abort{"abort"};
    }
    if (n == "__cxa_atexit") return ret(vConst(32, 0));
    if (n == "__cxa_guard_acquire") {
        Obj& o = S.w(args[0].obj);
        auto it = o.cells.find(0); I c;
        if (it != o.cells.end() && asConst(S, it->second, c) && (c & 1)) return ret(vConst(32, 0));
        o.cells[0] = vConst(8, 1); o.csz[0] = 1;
        return ret(vConst(32, 1));
    }
    if (n == "__cxa_guard_release" || n == "__cxa_guard_abort") return ret(Val());
    if (n.starts_with("_ZSt") && n.contains("__throw_")) {
        std::string s = n.str();
        const char* ti = "_ZTISt9exception";
        if (s.find("length_error") != std::string::npos) ti = "_ZTISt12length_error";
        else if (s.find("out_of_range") != std::string::npos) ti = "_ZTISt12out_of_range";
        else if (s.find("logic_error") != std::string::npos) ti = "_ZTISt11logic_error";
        else if (s.find("bad_alloc") != std::string::npos) ti = "_ZTISt9bad_alloc";
        else if (s.find("bad_array_new_length") != std::string::npos) ti = "_ZTISt20bad_array_new_length";
        else if (s.find("bad_function_call") != std::string::npos) ti = "_ZTISt17bad_function_call";
        else if (s.find("bad_variant") != std::string::npos) ti = "_ZTISt18bad_variant_access";
        else if (s.find("invalid_argument") != std::string::npos) ti = "_ZTISt16invalid_argument";
        out.push_back(throwExt(S, ti));
        return out;
    }
    // C library
    if (n == "memcpy" || n == "memmove") { memCopy(S, args[0], args[1], uLin(S, args[2])); return ret(args[0]); }
    if (n == "memset") { memFill(S, args[0], truncV(S, args[1], 8), uLin(S, args[2])); return ret(args[0]); }
    if (n == "strlen") {
        checkAccess(S, args[0], Lin(1), "strlen");
        for (I i = 0; i < 4096; ++i) {
            Val p = args[0]; p.lin = p.lin + Lin(i);
            Val b = loadVal(S, p, Type::getInt8Ty(M->getContext()));
            if (b.k == V_UNDEF) { violation(S, "uninitialised-read", "strlen over uninitialised bytes", true); throw Abort{"undef"}; }
            Val c = icmpV(S, CmpInst::ICMP_EQ, b, vConst(8, 0));
            if (decideOrFork(S, c.p)) return ret(vConst(64, i));
        }
        throw Giveup{"strlen"};
    }
    if (n == "strnlen") {
        const Val p = args[0]; const Lin lim = uLin(S, args[1]);
        if (lim.isConst() && lim.c == 0) return ret(vConst(64, 0));
        checkAccess(S, p, Lin(1), "strnlen");
        const Obj& o = *S.objs[p.obj];
        if (o.kind != O_BUF && o.log.empty() && S.F.norm(p.lin).isConst()) {
            for (I i = 0; i < 4096; ++i) {
                if (decideOrFork(S, mkGE(Lin(i) - lim))) return ret(vConst(64, i));
                Val q = p; q.lin = q.lin + Lin(i);
                Val b = loadVal(S, q, Type::getInt8Ty(M->getContext()));
                if (b.k == V_UNDEF) { violation(S, "uninitialised-read", "strnlen over uninitialised bytes", true); throw Abort{"undef"}; }
                if (decideOrFork(S, icmpV(S, CmpInst::ICMP_EQ, b, vConst(8, 0)).p)) return ret(vConst(64, i));
            }
            throw Giveup{"strnlen"};
        }
        // a text of any length: the result is bounded by the limit and by the terminator in the last byte
        const Lin room = o.size - p.lin;
        int r = symOpq("strnlen" + std::to_string(p.obj) + "@" + S.F.norm(p.lin).str() + "," + lim.str(), 64, "strnlen");
        if (!decideOrFork(S, mkGE(room - lim))) {
            Val last = p; last.lin = o.size - Lin(1);
            Val b = loadVal(S, last, Type::getInt8Ty(M->getContext()));
            if (!decideOrFork(S, icmpV(S, CmpInst::ICMP_EQ, b, vConst(8, 0)).p)) memViolation(S, "out-of-bounds", "strnlen may read behind the end of a text which is not terminated", false);
            S.F.assume(mkGE(room - Lin(1) - Lin::sym(r)));
        }
        S.F.assume(mkGE(lim - Lin::sym(r)));
        return ret(vInt(64, Lin::sym(r)));
    }
    if (n == "strcmp") {
        for (I i = 0; i < 4096; ++i) {
            Val p = args[0], q = args[1]; p.lin = p.lin + Lin(i); q.lin = q.lin + Lin(i);
            checkAccess(S, p, Lin(1), "strcmp"); checkAccess(S, q, Lin(1), "strcmp");
            Val b = loadVal(S, p, Type::getInt8Ty(M->getContext())), d = loadVal(S, q, Type::getInt8Ty(M->getContext()));
            if (b.k == V_UNDEF || d.k == V_UNDEF) { violation(S, "uninitialised-read", "strcmp over uninitialised bytes", true); throw Abort{"undef"}; }
            Val e = icmpV(S, CmpInst::ICMP_EQ, b, d);
            if (!decideOrFork(S, e.p)) {
                Val l = icmpV(S, CmpInst::ICMP_ULT, b, d);
                return ret(vConst(32, decideOrFork(S, l.p) ? (I)0xffffffffULL : (I)1));
            }
            Val z = icmpV(S, CmpInst::ICMP_EQ, b, vConst(8, 0));
            if (decideOrFork(S, z.p)) return ret(vConst(32, 0));
        }
        throw Giveup{"strcmp"};
    }
    if (n == "memcmp" || n == "bcmp") {
        Lin len = S.F.norm(uLin(S, args[2]));
        if (len.isConst() && len.c == 0) return ret(vConst(32, 0));
        checkAccess(S, args[0], len, "compare"); checkAccess(S, args[1], len, "compare");
        if (!len.isConst() || len.c > 64) {
            if (sameVal(args[0], args[1])) return ret(vConst(32, 0));
            S.imprecise = true; return ret(freshInt(S, 32, "memcmp"));
        }
        for (I i = 0; i < len.c; ++i) {
            Val p = args[0], q = args[1]; p.lin = p.lin + Lin(i); q.lin = q.lin + Lin(i);
            Type* t8 = Type::getInt8Ty(M->getContext());
            Val x = loadVal(S, p, t8), y = loadVal(S, q, t8);
            if (x.k == V_UNDEF || y.k == V_UNDEF) { violation(S, "uninitialised-read", "compare of uninitialised bytes", true); throw Abort{"undef"}; }
            Val e = icmpV(S, CmpInst::ICMP_EQ, x, y);
            if (decideOrFork(S, e.p)) continue;
            Val l = icmpV(S, CmpInst::ICMP_ULT, x, y);
            return ret(decideOrFork(S, l.p) ? vConst(32, pow2(32) - 1) : vConst(32, 1));
        }
        return ret(vConst(32, 0));
    }
    if (n == "memchr") {
        Lin len = uLin(S, args[2]);
        I k = enumVals(S, len, 64, "memchr length");
        for (I i = 0; i < k; ++i) {
            Val p = args[0]; p.lin = p.lin + Lin(i);
            Val x = loadVal(S, p, Type::getInt8Ty(M->getContext()));
            Val e = icmpV(S, CmpInst::ICMP_EQ, x, truncV(S, args[1], 8));
            if (decideOrFork(S, e.p)) return ret(p);
        }
        return ret(vNull());
    }
    std::string d = dem(n);
    if (!S.mode.count("exc_exact") && isOpaqueException(d)) {
        if (d.rfind("zserio::CppRuntimeException::CppRuntimeException(", 0) == 0) // still a polymorphic object
            if (GlobalVariable* vt = F->getParent()->getNamedGlobal("_ZTVN6zserio19CppRuntimeExceptionE"))
                storeVal(S, args[0], vPtr(objOfGlobal(S, vt), Lin(16)), PointerType::getUnqual(F->getContext()));
        if (rt->isVoidTy()) return ret(Val());
        if (rt->isPointerTy()) return ret(args.empty() ? vNull() : args[0]);
    }
    if (F->isDeclaration()) {
        EXTERNS[n.str()]++;
        if (getenv("ZABS_EXT")) std::cerr << "extern " << n.str() << " at " << locOf(cb) << "\n";
        // unknown external function: may write through its non-const pointer arguments
        for (size_t i = 0; i < args.size(); ++i) {
            if (args[i].k == V_PTR && args[i].obj && !S.objs[args[i].obj]->ro && i < F->arg_size() && !F->getArg((unsigned)i)->onlyReadsMemory()) {
                Obj& o = S.w(args[i].obj);
                if (o.kind == O_FUNC) continue;
                o.cells.clear(); o.csz.clear(); o.log.clear(); o.init = 3;
                S.imprecise = true;
            }
        }
        if (F->hasFnAttribute(Attribute::NoReturn)) { throw Abort{"noreturn"}; }
        if (rt->isVoidTy()) return ret(Val());
        if (rt->isPointerTy()) { Val u; u.k = V_UNKPTR; u.w = 64; S.imprecise = true; return ret(u); }
        if (rt->isIntegerTy() || rt->isFloatingPointTy()) return ret(freshInt(S, typeBits(rt), n.str()));
        throw Giveup{"external function " + n.str()};
    }
    // by-value aggregates: callee must not see later changes of the caller's copy
    for (unsigned i = 0; i < args.size() && i < F->arg_size(); ++i) {
        if (cb->isByValArgument(i)) {
            Type* t = cb->getParamByValType(i);
            int o = newObj(S, O_STACK, Lin((I)DL->getTypeAllocSize(t).getFixedValue()), "byval");
            Val np = vPtr(o, Lin(0));
            memCopy(S, np, args[i], Lin((I)DL->getTypeAllocSize(t).getFixedValue()));
            args[i] = np;
        }
    }
    if (CALLSTACK.size() > 220) throw Giveup{"recursion too deep in " + d};
    return execFunction(F, args, S);
}

// ---------------------------------------------------------------- exploration
static void enterBlock(State& S, Frame& fr, BasicBlock* to)
{
    BasicBlock* from = fr.bb;
    // phis in parallel
    std::vector<std::pair<const Instruction*, Val>> nv;
    for (auto& i : *to) {
        auto* ph = dyn_cast<PHINode>(&i);
        if (!ph) break;
        int idx = ph->getBasicBlockIndex(from);
        nv.push_back({ph, getOp(S, fr, ph->getIncomingValue(idx))});
    }
    for (auto& p : nv) setRes(fr, p.first, p.second);
    fr.prev = from; fr.bb = to; fr.it = to->getFirstNonPHIIt();
}

// landing pad: returns the selector, or -1 when the exception passes this frame
static int lpadSelector(const LandingPadInst* lp, const Constant* ti)
{
    for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
        if (lp->isCatch(i)) {
            Constant* c = lp->getClause(i);
            if (tiDerives(ti, dyn_cast<ConstantPointerNull>(c) ? nullptr : c)) return typeidFor(c);
        } else {
            // exception specification filter: empty filter rejects everything
            return 0;
        }
    }
    if (lp->isCleanup()) return 0;
    return -1;
}

struct LoopCtx;
static bool onHeader(Path& P, std::vector<Path>& work, std::vector<Exit>& exits);

static void killAllocas(State& S, Frame& fr)
{
    for (int o : fr.allocas) S.w(o).alive = false;
}

enum StepRes { ST_NEXT, ST_DONE };

// executes one instruction; may add paths to work or exits
static StepRes step(Path& P, std::vector<Path>& work, std::vector<Exit>& exits)
{
    State& S = P.S; Frame& fr = P.fr;
    Instruction* i = &*fr.it;
    CUR = i;
    switch (i->getOpcode()) {
    case Instruction::Alloca: {
        auto* ai = cast<AllocaInst>(i);
        Lin sz((I)DL->getTypeAllocSize(ai->getAllocatedType()).getFixedValue());
        Val nE = getOp(S, fr, ai->getArraySize());
        I k; if (asConst(S, nE, k)) sz = sz * k; else sz = uLin(S, nE) * sz.c;
        int o = newObj(S, O_STACK, sz, ai->hasName() ? ai->getName().str() : "local");
        fr.allocas.push_back(o);
        setRes(fr, i, vPtr(o, Lin(0)));
        break;
    }
    case Instruction::Load: {
        Val p = getOp(S, fr, i->getOperand(0));
        if (i->getType()->isVectorTy()) throw Giveup{"vector load"};
        setRes(fr, i, loadVal(S, p, i->getType()));
        break;
    }
    case Instruction::Store: {
        auto* st = cast<StoreInst>(i);
        Val v = getOp(S, fr, st->getValueOperand()), p = getOp(S, fr, st->getPointerOperand());
        if (st->getValueOperand()->getType()->isVectorTy()) throw Giveup{"vector store"};
        storeVal(S, p, v, st->getValueOperand()->getType());
        break;
    }
    case Instruction::GetElementPtr: {
        auto* g = cast<GetElementPtrInst>(i);
        Val p = getOp(S, fr, g->getPointerOperand());
        Lin off(0); bool undef = p.k == V_UNDEF;
        for (gep_type_iterator gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
            Value* idx = gi.getOperand();
            if (StructType* st = gi.getStructTypeOrNull()) { off = off + Lin((I)DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(idx)->getZExtValue())); continue; }
            Val iv = getOp(S, fr, idx);
            if (iv.k == V_UNDEF) { undef = true; break; }
            I c; Lin l;
            if (asConst(S, iv, c)) { if (c >= pow2(iv.w - 1)) c -= pow2(iv.w); l = Lin(c); }
            else l = sLin(S, iv);
            off = off + l * (I)DL->getTypeAllocSize(gi.getIndexedType()).getFixedValue();
        }
        setRes(fr, i, undef ? Val() : ptrAdd(S, p, off));
        break;
    }
    case Instruction::PHI: break;
    case Instruction::ICmp: {
        auto* c = cast<ICmpInst>(i);
        setRes(fr, i, icmpV(S, c->getPredicate(), getOp(S, fr, c->getOperand(0)), getOp(S, fr, c->getOperand(1))));
        break;
    }
    case Instruction::FCmp: {
        auto* c = cast<FCmpInst>(i);
        Val a = getOp(S, fr, c->getOperand(0)), b = getOp(S, fr, c->getOperand(1));
        if (a.k == V_UNDEF || b.k == V_UNDEF) { setRes(fr, i, Val()); break; }
        I cca, ccb;
        if (a.k == V_INT && b.k == V_INT && a.w == b.w && a.w <= 64 && asConst(S, a, cca) && asConst(S, b, ccb)) {
            const fltSemantics& sem = c->getOperand(0)->getType()->getFltSemantics();
            setRes(fr, i, vBool(FCmpInst::compare(APFloat(sem, APInt(a.w, (uint64_t)cca)), APFloat(sem, APInt(b.w, (uint64_t)ccb)), c->getPredicate()) ? PT : PF));
            break;
        }
        // comparisons are opaque but consistent: less(a,b), equal(a,b), unordered(a,b)
        std::string ka = valKey(S, a), kb = valKey(S, b);
        bool sw = kb < ka;
        std::string key = sw ? kb + "~" + ka : ka + "~" + kb;
        Pred un = mkUnk("funord:" + key), eq = mkUnk("feq:" + key), lt = mkUnk("flt:" + key);   // lt: first key < second
        Pred ord = mkNot(un);
        bool same = ka == kb;
        Pred E = mkAnd(ord, same ? PT : eq);
        Pred L = mkAnd(ord, same ? PF : mkAnd(mkNot(eq), sw ? mkNot(lt) : lt));
        Pred G = mkAnd(ord, same ? PF : mkAnd(mkNot(eq), sw ? lt : mkNot(lt)));
        Pred r = PF; unsigned pr = c->getPredicate();
        if (pr & 1) r = mkOr(r, E);
        if (pr & 2) r = mkOr(r, G);
        if (pr & 4) r = mkOr(r, L);
        if (pr & 8) r = mkOr(r, un);
        setRes(fr, i, vBool(r));
        break;
    }
    case Instruction::FNeg: { Val a = getOp(S, fr, i->getOperand(0)); if (a.k == V_INT) { Bits b = getBits(S, a); b.back() = bitNot(b.back()); a = vBits(b); } setRes(fr, i, a); break; }
    case Instruction::ZExt: setRes(fr, i, zextV(S, getOp(S, fr, i->getOperand(0)), typeBits(i->getType()))); break;
    case Instruction::SExt: setRes(fr, i, sextV(S, getOp(S, fr, i->getOperand(0)), typeBits(i->getType()))); break;
    case Instruction::Trunc: { Val v = getOp(S, fr, i->getOperand(0)); if (v.k == V_PTR || v.k == V_UNKPTR) v = freshInt(S, typeBits(i->getType()), "ptrbits"); else v = truncV(S, v, typeBits(i->getType())); setRes(fr, i, v); break; }
    case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: setRes(fr, i, getOp(S, fr, i->getOperand(0))); break;
    case Instruction::PtrToInt: setRes(fr, i, getOp(S, fr, i->getOperand(0))); break;
    case Instruction::IntToPtr: {
        Val v = getOp(S, fr, i->getOperand(0)); I c;
        if (v.k == V_INT) { if (asConst(S, v, c) && c == 0) v = vNull(); else { v = Val(); v.k = V_UNKPTR; v.w = 64; } }
        setRes(fr, i, v);
        break;
    }
    case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: {
        Val a = getOp(S, fr, i->getOperand(0));
        if (a.k != V_INT) { setRes(fr, i, Val()); break; }
        I ca;
        if (asConst(S, a, ca) && a.w <= 64) {
            LLVMContext& C = i->getContext();
            Type* from = i->getOperand(0)->getType();
            APInt bits(a.w, (uint64_t)ca);
            Constant* k = from->isFloatingPointTy() ? (Constant*)ConstantFP::get(C, APFloat(from->getFltSemantics(), bits)) : (Constant*)ConstantInt::get(C, bits);
            Constant* folded = ConstantFoldCastOperand(i->getOpcode(), k, i->getType(), M->getDataLayout());
            if (auto* f = dyn_cast_or_null<ConstantFP>(folded)) { setRes(fr, i, vConst(typeBits(i->getType()), (I)f->getValueAPF().bitcastToAPInt().getZExtValue())); break; }
            if (auto* f = dyn_cast_or_null<ConstantInt>(folded)) { setRes(fr, i, vConst(typeBits(i->getType()), (I)f->getValue().getZExtValue())); break; }
        }
        setRes(fr, i, opq(S, (std::string(i->getOpcodeName()) + std::to_string(typeBits(i->getOperand(0)->getType()))).c_str(), typeBits(i->getType()), a));
        break;
    }
    case Instruction::Select: {
        Val c = getOp(S, fr, i->getOperand(0));
        Val a = getOp(S, fr, i->getOperand(1)), b = getOp(S, fr, i->getOperand(2));
        if (c.k == V_UNDEF) throw UndefUse();
        if (sameVal(a, b) && a.k != V_UNDEF) { setRes(fr, i, a); break; }
        if (c.w == 1 && i->getType()->isIntegerTy(1) && a.k == V_INT && b.k == V_INT) {
            if (b.p == PF) { setRes(fr, i, vBool(mkAnd(c.p, a.p))); break; }
            if (a.p == PT) { setRes(fr, i, vBool(mkOr(c.p, b.p))); break; }
        }
        setRes(fr, i, decideOrFork(S, c.p) ? a : b);
        break;
    }
    case Instruction::ExtractValue: {
        auto* e = cast<ExtractValueInst>(i);
        Val v = getOp(S, fr, e->getAggregateOperand());
        for (unsigned x : e->indices()) { if (v.k == V_UNDEF) break; if (v.k != V_AGG) throw Giveup{"extractvalue"}; Val t = (*v.agg)[x]; v = t; }
        setRes(fr, i, v);
        break;
    }
    case Instruction::InsertValue: {
        auto* e = cast<InsertValueInst>(i);
        Val v = getOp(S, fr, e->getAggregateOperand()), x = getOp(S, fr, e->getInsertedValueOperand());
        std::function<Val(Val, Type*, unsigned)> ins = [&](Val base, Type* t, unsigned d) -> Val {
            if (d == e->getNumIndices()) return x;
            unsigned k = e->getIndices()[d];
            auto nv = std::make_shared<std::vector<Val>>();
            unsigned n = t->isStructTy() ? t->getStructNumElements() : (unsigned)t->getArrayNumElements();
            if (base.k == V_AGG) *nv = *base.agg; else nv->resize(n);
            Type* et = t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType();
            (*nv)[k] = ins((*nv)[k], et, d + 1);
            Val r; r.k = V_AGG; r.agg = nv; return r;
        };
        setRes(fr, i, ins(v, e->getType(), 0));
        break;
    }
    case Instruction::Br: {
        auto* b = cast<BranchInst>(i);
        BasicBlock* to;
        if (b->isUnconditional()) to = b->getSuccessor(0);
        else {
            Val c = getOp(S, fr, b->getCondition());
            if (c.k == V_UNDEF) throw UndefUse();
            int d = S.F.decide(c.p);
            if (d < 0) throw ForkReq{S.F.firstUndecided(c.p)};
            to = b->getSuccessor(d ? 0 : 1);
        }
        enterBlock(S, fr, to);
        if (fnInfo(fr.F).headers.count(to)) { if (onHeader(P, work, exits)) return ST_DONE; }
        return ST_NEXT;
    }
    case Instruction::Switch: {
        auto* sw = cast<SwitchInst>(i);
        Val c = getOp(S, fr, sw->getCondition());
        if (c.k == V_UNDEF) throw UndefUse();
        BasicBlock* to = sw->getDefaultDest();
        for (auto& cs : sw->cases()) {
            Val k = constVal(S, cs.getCaseValue());
            Val e = icmpV(S, CmpInst::ICMP_EQ, c, k);
            if (decideOrFork(S, e.p)) { to = cs.getCaseSuccessor(); break; }
        }
        enterBlock(S, fr, to);
        if (fnInfo(fr.F).headers.count(to)) { if (onHeader(P, work, exits)) return ST_DONE; }
        return ST_NEXT;
    }
    case Instruction::Ret: {
        Exit e; e.k = Exit::RET;
        if (i->getNumOperands()) e.v = getOp(S, fr, i->getOperand(0));
        killAllocas(S, fr);
        e.S = std::move(S);
        exits.push_back(std::move(e));
        return ST_DONE;
    }
    case Instruction::Resume: {
        Val v = getOp(S, fr, i->getOperand(0));
        Exit e; e.k = Exit::THROW; e.v = (*v.agg)[0]; e.ti = S.excType[e.v.obj];
        killAllocas(S, fr);
        e.S = std::move(S);
        exits.push_back(std::move(e));
        return ST_DONE;
    }
    case Instruction::Unreachable:
        violation(S, "unreachable", "execution reaches a point the compiler treats as unreachable (undefined behaviour)", true);
        return ST_DONE;
    case Instruction::Call: case Instruction::Invoke: {
        auto* cb = cast<CallBase>(i);
        CALLSTACK.push_back(i);
        struct Pop { ~Pop() { CALLSTACK.pop_back(); } } pop;
        std::vector<Exit> ex;
        // the callee works on its own copy: a split request inside leaves this state untouched
        State before = S;
        try { ex = doCall(before, fr, cb); } catch (...) { CUR = i; throw; }
        CUR = i;
        std::vector<Path> next;
        for (auto& e : ex) {
            Path np; np.fr = fr; np.S = std::move(e.S);
            if (e.k == Exit::RET) {
                if (!i->getType()->isVoidTy()) setRes(np.fr, i, e.v);
                if (auto* iv = dyn_cast<InvokeInst>(i)) {
                    enterBlock(np.S, np.fr, iv->getNormalDest());
                    if (fnInfo(fr.F).headers.count(iv->getNormalDest())) { if (onHeader(np, work, exits)) continue; }
                } else ++np.fr.it;
                next.push_back(std::move(np));
            } else {
                if (cb->doesNotThrow()) {
                    violation(np.S, "terminate", "an exception leaves a call that promises not to throw", true);
                    continue;
                }
                bool handled = false;
                if (auto* iv = dyn_cast<InvokeInst>(i)) {
                    auto* lp = iv->getLandingPadInst();
                    int sel = lpadSelector(lp, e.ti);
                    if (sel >= 0) {
                        enterBlock(np.S, np.fr, iv->getUnwindDest());
                        auto v = std::make_shared<std::vector<Val>>();
                        v->push_back(e.v); v->push_back(vConst(32, sel));
                        Val ag; ag.k = V_AGG; ag.agg = v;
                        setRes(np.fr, lp, ag);
                        np.fr.it = std::next(lp->getIterator());
                        next.push_back(std::move(np));
                        handled = true;
                    }
                }
                if (!handled) {
                    Exit t; t.k = Exit::THROW; t.v = e.v; t.ti = e.ti;
                    killAllocas(np.S, np.fr);
                    t.S = std::move(np.S);
                    exits.push_back(std::move(t));
                }
            }
        }
        if (next.empty()) return ST_DONE;
        for (size_t k = 1; k < next.size(); ++k) work.push_back(std::move(next[k]));
        P = std::move(next[0]);
        return ST_NEXT;
    }
    case Instruction::AtomicRMW: {
        auto* rmw = cast<AtomicRMWInst>(i);
        Val p = getOp(S, fr, rmw->getPointerOperand()), v = getOp(S, fr, rmw->getValOperand());
        Val old = loadVal(S, p, i->getType());
        Val nv;
        if (rmw->getOperation() == AtomicRMWInst::Add) nv = addV(S, old, v, false);
        else if (rmw->getOperation() == AtomicRMWInst::Sub) nv = addV(S, old, v, true);
        else if (rmw->getOperation() == AtomicRMWInst::Xchg) nv = v;
        else nv = freshInt(S, v.w, "rmw");
        storeVal(S, p, nv, i->getType());
        setRes(fr, i, old);
        break;
    }
    default:
        if (auto* bo = dyn_cast<BinaryOperator>(i)) {
            Val a = getOp(S, fr, bo->getOperand(0)), b = getOp(S, fr, bo->getOperand(1));
            checkNsw(S, bo, a, b);
            setRes(fr, i, binop(S, bo, a, b));
            break;
        }
        throw Giveup{std::string("instruction ") + i->getOpcodeName()};
    }
    ++fr.it;
    return ST_NEXT;
}

#include "loops.inc"

static void drain(std::vector<Path>& work, std::vector<Exit>& exits)
{
    while (!work.empty()) {
        Path P = std::move(work.back()); work.pop_back();
        ++N_PATHS;
        if (N_PATHS > MAXPATHS) { INCONCLUSIVE = "path budget exhausted"; work.clear(); return; }
        bool alive = true;
        while (alive) {
            if (++N_INSTR > MAXINSTR) { INCONCLUSIVE = "instruction budget exhausted"; work.clear(); return; }
            try {
                if (step(P, work, exits) == ST_DONE) alive = false;
            } catch (ForkReq& f) {
                if (f.p == -2) { violation(P.S, "uninitialised-read", "use of an uninitialised value", true); break; }
                ++N_FORK;
                if (VERBOSE && getenv("ZABS_FORK")) std::cerr << "fork " << predStr(f.p) << " @ " << locOf(CUR) << "\n";
                Path Q = P;
                std::string at = locOf(&*P.fr.it);
                bool a = P.S.F.assume(f.p);
                bool b = Q.S.F.assume(mkNot(f.p));
                if (a && b) {
                    note(P.S, predStr(f.p) + " @" + at.substr(at.rfind('/') + 1));
                    note(Q.S, predStr(mkNot(f.p)) + " @" + at.substr(at.rfind('/') + 1));
                }
                if (b) work.push_back(std::move(Q));
                if (!a) alive = false;
            } catch (ForkVals& f) {
                ++N_FORK;
                for (I v = f.hi; v >= f.lo; --v) {
                    Path Q = P;
                    if (!Q.S.F.assume(mkEQ(f.l - Lin(v)))) continue;
                    if (v == f.lo) { }
                    work.push_back(std::move(Q));
                }
                alive = false;
            } catch (UndefUse&) {
                violation(P.S, "uninitialised-read", "control flow depends on an uninitialised value", true);
                alive = false;
            } catch (Abort&) {
                alive = false;
            } catch (Overflow&) {
                throw Giveup{"analyser arithmetic overflow at " + locOf(CUR)};
            }
        }
    }
}

static std::vector<Exit> execFunction(Function* F, const std::vector<Val>& args, State S)
{
    FUNCS.insert(F);
    std::vector<Exit> exits;
    std::vector<Path> work;
    Path P; P.S = std::move(S); P.fr.F = F;
    auto& fi = fnInfo(F);
    P.fr.loc.resize(fi.n);
    for (unsigned i = 0; i < F->arg_size(); ++i) P.fr.loc[i] = i < args.size() ? args[i] : Val();
    P.fr.bb = &F->getEntryBlock(); P.fr.it = P.fr.bb->begin();
    work.push_back(std::move(P));
    // nested exploration keeps the caller's debugging position
    const Instruction* save = CUR;
    drain(work, exits);
    CUR = save;
    N_EXITS += (long)exits.size();
    return exits;
}

// ---------------------------------------------------------------- output
static std::string js(const std::string& s)
{
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if ((unsigned char)c < 0x20) r += ' ';
        else r += c;
    }
    return r + "\"";
}

static void collectCovers(Function* F, std::set<std::string>& out, std::set<Function*>& seen, int depth)
{
    if (!seen.insert(F).second || depth > 6) return;
    for (auto& bb : *F) for (auto& i : bb) if (auto* cb = dyn_cast<CallBase>(&i)) if (auto* c = cb->getCalledFunction()) {
        if (c->getName() == "zv_cover") {
            if (auto* g = dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts()))
                if (auto* s = dyn_cast<ConstantDataSequential>(g->getInitializer())) out.insert(std::string(s->getAsString().str().c_str()));
        } else if (!c->isDeclaration() && c->getSubprogram() && c->getSubprogram()->getFilename().contains("/drivers/")) collectCovers(c, out, seen, depth + 1);
    }
}

int main(int argc, char** argv)
{
    std::string file, harness; bool list = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--list") list = true;
        else if (a == "-v") VERBOSE = true;
        else if (a == "--shard") { SHARD_I = atoi(argv[++i]); SHARD_N = atoi(argv[++i]); }
        else if (a == "--max-instr") MAXINSTR = atol(argv[++i]);
        else if (a == "--max-paths") MAXPATHS = atol(argv[++i]);
        else if (file.empty()) file = a;
        else harness = a;
    }
    struct rlimit rl; rl.rlim_cur = rl.rlim_max = 512UL << 20; setrlimit(RLIMIT_STACK, &rl);
    LLVMContext C; SMDiagnostic E;
    auto mod = parseIRFile(file, E, C);
    if (!mod) { E.print("zabs", errs()); return 3; }
    M = mod.get(); DL = &M->getDataLayout();
    // type information of built-in types lives in the C++ library: give it a name of its own
    {
        std::vector<GlobalVariable*> ext;
        for (auto& g : M->globals()) if (!g.hasInitializer() && g.getName().starts_with("_ZTI")) ext.push_back(&g);
        auto* pt = PointerType::get(C, 0);
        for (auto* g : ext) {
            std::string nm = g->getName().str();
            auto* text = ConstantDataArray::getString(C, nm.substr(4));
            auto* nameVar = new GlobalVariable(*M, text->getType(), true, GlobalValue::PrivateLinkage, text, nm + ".name");
            auto* ty = StructType::get(C, {pt, pt});
            auto* init = ConstantStruct::get(ty, {ConstantPointerNull::get(pt), nameVar});
            g->setName(nm + ".decl");
            auto* nv = new GlobalVariable(*M, ty, true, GlobalValue::ExternalLinkage, init, nm);
            g->replaceAllUsesWith(nv);
            g->eraseFromParent();
        }
    }
    if (list) { for (auto& f : *M) if (!f.isDeclaration() && f.getName().starts_with("zv_h_")) outs() << f.getName() << "\n"; return 0; }
    Function* F = M->getFunction(harness);
    if (!F || F->isDeclaration()) { std::cerr << "no harness " << harness << "\n"; return 3; }
    auto t0 = std::chrono::steady_clock::now();
    State S; S.objs.push_back(nullptr);
    std::vector<Exit> ex;
    try {
        ex = execFunction(F, {}, S);
        for (auto& e : ex) if (e.k == Exit::THROW) { CUR = &F->getEntryBlock().front(); violation(e.S, "escaped-exception", "exception " + tiName(e.ti) + " escapes the analysed entry point", true); }
    } catch (Giveup& g) { INCONCLUSIVE = g.why + " [" + locOf(CUR) + "]"; for (auto* c : CALLSTACK) INCONCLUSIVE += " < " + locOf(c); }
    catch (ForkReq&) { INCONCLUSIVE = "unhandled split"; }
    catch (ForkVals&) { INCONCLUSIVE = "unhandled split"; }
    std::set<std::string> covers; std::set<Function*> seen; collectCovers(F, covers, seen, 0);
    double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    auto& o = std::cout;
    o << "{\"harness\":" << js(harness) << ",\"inconclusive\":" << js(INCONCLUSIVE) << ",\"wall\":" << wall << ",\"instructions\":" << N_INSTR << ",\"paths\":" << N_PATHS << ",\"forks\":" << N_FORK
      << ",\"calls\":" << N_CALLS << ",\"memory_obligations\":" << N_MEM << ",\"memory_sites\":" << MEMSITES.size() << ",\"shift_obligations\":" << N_SHIFT << ",\"div_obligations\":" << N_DIV << ",\"throws\":" << N_THROW
      << ",\"widenings\":" << N_WIDEN << ",\"exits\":" << ex.size() << ",\"symbols\":" << SYM.size();
    o << ",\"checks\":{"; bool first = true; for (auto& c : CHECKS) { o << (first ? "" : ",") << js(c.first) << ":" << c.second; first = false; } o << "}";
    o << ",\"covers\":["; first = true; for (auto& c : covers) { o << (first ? "" : ",") << js(c); first = false; } o << "]";
    o << ",\"covers_hit\":["; first = true; for (auto& c : COVER_HIT) { o << (first ? "" : ",") << js(c); first = false; } o << "]";
    o << ",\"externals\":{"; first = true; for (auto& c : EXTERNS) { o << (first ? "" : ",") << js(dem(c.first)) << ":" << c.second; first = false; } o << "}";
    o << ",\"functions\":["; first = true;
    for (auto* f : FUNCS) {
        auto* sp = f->getSubprogram(); if (!sp) continue;
        std::string fl = sp->getFilename().str();
        if (fl.find("runtime/src") == std::string::npos) continue;
        o << (first ? "" : ",") << js(fnShort(f)); first = false;
    }
    o << "]";
    o << ",\"violations\":["; first = true;
    for (auto& p : VIOL) {
        auto& v = p.second;
        o << (first ? "" : ",") << "{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"loc\":" << js(v.loc) << ",\"function\":" << js(v.function) << ",\"definite\":" << (v.definite ? "true" : "false") << ",\"count\":" << v.count
          << ",\"stack\":" << js(v.stack) << ",\"path\":" << js(v.trail) << ",\"facts\":" << js(v.facts) << "}"; first = false;
    }
    o << "]}" << std::endl;
    _exit(0);
}
