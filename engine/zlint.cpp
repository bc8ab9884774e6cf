// Rules over the LLVM IR of the runtime:
//   zlint throws FILES...  what is thrown, and what can leave a function which promised not to throw
//   zlint statics FILES... writes to objects of static storage duration outside their initialisation
// Output: one JSON object.
#include <llvm/ADT/SmallVector.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <cstdio>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static std::string RT = "/runtime/src/";
struct Violation { std::string loc, fn, msg; };
static std::map<std::string, Violation> violations;
static std::map<std::string, uint64_t> counts;
static std::set<std::string> sites, functions, samples;

static std::string dem(StringRef n) { return demangle(n.str()); }
static std::string locOf(const Instruction* i)
{
    const DebugLoc& d = i->getDebugLoc();
    if (d)
    {
        auto* s = cast<DIScope>(d.getScope());
        std::string f = s->getFilename().str();
        if (!f.empty() && f[0] != '/' && !s->getDirectory().empty()) f = s->getDirectory().str() + "/" + f;
        return f + ":" + std::to_string(d.getLine());
    }
    return "";
}
static bool inRuntimeFile(const std::string& f) { return f.find(RT) != std::string::npos && f.find("/zserio/") != std::string::npos; }
static std::string fileOf(const Function* f)
{
    if (auto* sp = f->getSubprogram())
    {
        std::string n = sp->getFilename().str();
        if (!n.empty() && n[0] != '/') n = sp->getDirectory().str() + "/" + n;
        return n;
    }
    return "";
}
static void report(const std::string& loc, const std::string& fn, const std::string& msg)
{
    violations.emplace(loc + "|" + msg, Violation{loc, fn, msg});
}

// ------------------------------------------------------------------------------------------------ exceptions
static const GlobalVariable* stripTI(const Value* v) { return dyn_cast<GlobalVariable>(v->stripPointerCasts()); }
static void ancestors(const GlobalVariable* ti, std::set<std::string>& out)
{
    if (!ti || !out.insert(ti->getName().str()).second) return;
    if (!ti->hasInitializer()) return;
    auto* st = dyn_cast<ConstantStruct>(ti->getInitializer());
    if (!st) return;
    for (unsigned i = 2; i < st->getNumOperands(); ++i)
        if (auto* b = dyn_cast<GlobalVariable>(st->getOperand(i)->stripPointerCasts()))
            if (b->getName().starts_with("_ZTI")) ancestors(b, out);
}
static bool isLibrary(const GlobalVariable* ti)
{
    std::set<std::string> a;
    ancestors(ti, a);
    return a.count("_ZTIN6zserio19CppRuntimeExceptionE") != 0;
}
using Types = std::set<const GlobalVariable*>;
struct Throws
{
    Module& M;
    std::map<const Function*, Types> esc;
    std::map<const Function*, std::map<const GlobalVariable*, std::string>> from;
    explicit Throws(Module& m) : M(m) {}

    static bool isTerminate(const LandingPadInst* lp)
    {
        if (lp->getNumClauses() == 1 && lp->isCatch(0) && isa<ConstantPointerNull>(lp->getClause(0)))
            for (auto& i : *lp->getParent())
                if (auto* c = dyn_cast<CallBase>(&i))
                    if (auto* f = c->getCalledFunction())
                        if (f->getName() == "__clang_call_terminate" || f->getName() == "_ZSt9terminatev") return true;
        return false;
    }
    // does the handler raise the exception again
    static bool rethrows(const Function* f)
    {
        for (auto& i : instructions(f))
            if (auto* c = dyn_cast<CallBase>(&i))
                if (auto* g = c->getCalledFunction())
                    if (g->getName() == "__cxa_rethrow") return true;
        return false;
    }
    Types raised(const CallBase* c)
    {
        Types t;
        const Function* g = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
        if (!g) { return t; }
        if (g->getName() == "__cxa_throw")
        {
            if (auto* ti = stripTI(c->getArgOperand(1))) t.insert(ti);
            return t;
        }
        auto it = esc.find(g);
        if (it != esc.end()) t = it->second;
        return t;
    }
    bool update(const Function* f)
    {
        if (f->doesNotThrow()) return false;
        Types out;
        const bool re = rethrows(f);
        for (auto& i : instructions(f))
        {
            auto* c = dyn_cast<CallBase>(&i);
            if (!c) continue;
            Types t = raised(c);
            if (t.empty()) continue;
            if (auto* inv = dyn_cast<InvokeInst>(c))
            {
                const LandingPadInst* lp = inv->getLandingPadInst();
                for (auto* ti : t)
                {
                    bool caught = false;
                    std::set<std::string> a;
                    ancestors(ti, a);
                    for (unsigned k = 0; k < lp->getNumClauses(); ++k)
                    {
                        if (!lp->isCatch(k)) continue;
                        if (isa<ConstantPointerNull>(lp->getClause(k))) { caught = true; continue; }
                        auto* ct = stripTI(lp->getClause(k));
                        if (ct && a.count(ct->getName().str())) caught = true;
                    }
                    if (!caught || re) out.insert(ti);
                }
            }
            else out.insert(t.begin(), t.end());
        }
        Types& cur = esc[f];
        size_t n = cur.size();
        cur.insert(out.begin(), out.end());
        return cur.size() != n;
    }
    void run()
    {
        for (bool change = true; change;)
        {
            change = false;
            for (auto& f : M) if (!f.isDeclaration() && update(&f)) change = true;
        }
        for (auto& f : M)
        {
            if (f.isDeclaration()) continue;
            const bool ours = inRuntimeFile(fileOf(&f));
            if (ours) functions.insert(dem(f.getName()));
            if (ours && f.doesNotThrow()) { counts["functions which must not throw"]++; sites.insert("nothrow " + f.getName().str()); }
            for (auto& i : instructions(f))
            {
                auto* c = dyn_cast<CallBase>(&i);
                if (!c) continue;
                const Function* g = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
                const std::string loc = locOf(c);
                if (g && g->getName() == "__cxa_throw" && inRuntimeFile(loc))
                {
                    sites.insert("throw " + loc);
                    counts["throw expressions"]++;
                    auto* ti = stripTI(c->getArgOperand(1));
                    if (!ti || !isLibrary(ti))
                        report(loc, dem(f.getName()), "an exception of type " + (ti ? dem(ti->getName()) : std::string("?")) + " is thrown, which is not one of the library's");
                    else if (samples.size() < 12) samples.insert(loc + " " + dem(ti->getName()));
                }
                if (auto* inv = dyn_cast<InvokeInst>(c))
                    if (ours && isTerminate(inv->getLandingPadInst()))
                    {
                        counts["calls in functions which must not throw"]++;
                        if (!g) { counts["of them through pointers (not followed)"]++; }
                        for (auto* ti : raised(c))
                            if (isLibrary(ti))
                                report(loc, dem(f.getName()), "an exception (" + dem(ti->getName()) + ") can leave a function which promises not to throw");
                    }
            }
        }
    }
};

// ------------------------------------------------------------------------------------------------ static objects
struct Statics
{
    Module& M;
    std::map<const Function*, std::unique_ptr<DominatorTree>> doms;
    explicit Statics(Module& m) : M(m) {}
    struct Write { const Instruction* at; std::string how; };
    struct ArgInfo { bool done = false; std::vector<Write> writes; bool returned = false, deep = false; };
    std::map<std::pair<const Function*, unsigned>, ArgInfo> args;

    static bool isInitFunction(const Function* f)
    {
        return f->getName().starts_with("__cxx_global_var_init") || f->getName().starts_with("_GLOBAL__");
    }
    // inside the initialisation of a function-local static object
    bool guarded(const Instruction* at, const GlobalVariable* g)
    {
        const Function* f = at->getFunction();
        const std::string guard = "_ZGV" + (g->getName().starts_with("_Z") ? g->getName().drop_front(2).str() : g->getName().str());
        for (auto& i : instructions(f))
            if (auto* c = dyn_cast<CallBase>(&i))
                if (auto* h = c->getCalledFunction())
                    if (h->getName() == "__cxa_guard_acquire")
                    {
                        auto* gv = dyn_cast<GlobalVariable>(c->getArgOperand(0)->stripPointerCasts());
                        if (!gv || gv->getName() != guard) continue;
                        auto& dt = doms[f];
                        if (!dt) { dt = std::make_unique<DominatorTree>(); dt->recalculate(*const_cast<Function*>(f)); }
                        if (dt->dominates(c, at)) return true;
                    }
        return false;
    }
    using Sink = std::function<void(const Instruction*, const std::string&)>;
    // follows what may point to the object; exempt: places which need not be followed
    void follow(const Value* root, const std::function<bool(const Instruction*)>& exempt, const Sink& write, bool* returned, bool rootDeep = false, bool* returnedDeep = nullptr)
    {
        std::set<std::pair<const Value*, bool>> seen;
        std::vector<std::pair<const Value*, bool>> todo{{root, rootDeep}};
        while (!todo.empty())
        {
            auto [v, deep] = todo.back();
            todo.pop_back();
            if (!seen.insert({v, deep}).second) continue;
            for (const User* u : v->users())
            {
                if (isa<ConstantExpr>(u)) { todo.push_back({u, deep}); continue; }
                auto* i = dyn_cast<Instruction>(u);
                if (!i || exempt(i)) continue;
                if (auto* s = dyn_cast<StoreInst>(i))
                {
                    if (s->getPointerOperand() == v) write(i, "is written");
                    else if (auto* al = dyn_cast<AllocaInst>(s->getPointerOperand()->stripPointerCasts()))
                    {
                        // a local variable: what is loaded from it
                        for (const User* lu : al->users())
                            if (isa<LoadInst>(lu)) todo.push_back({lu, deep});
                    }
                    continue;
                }
                if (auto* l = dyn_cast<LoadInst>(i))
                {
                    if (l->getType()->isPointerTy()) todo.push_back({l, true});
                    continue;
                }
                if (isa<AtomicRMWInst>(i) || isa<AtomicCmpXchgInst>(i)) continue; // an atomic object is no race
                if (isa<GetElementPtrInst>(i) || isa<BitCastInst>(i) || isa<PHINode>(i) || isa<SelectInst>(i) || isa<AddrSpaceCastInst>(i))
                { todo.push_back({i, deep}); continue; }
                if (isa<ReturnInst>(i)) { if (returned && !deep) *returned = true; if (returnedDeep && deep) *returnedDeep = true; continue; }
                if (auto* c = dyn_cast<CallBase>(i))
                {
                    for (unsigned k = 0; k < c->arg_size(); ++k)
                    {
                        if (c->getArgOperand(k) != v) continue;
                        if (auto* mi = dyn_cast<AnyMemIntrinsic>(c)) { if (k == 0) write(i, "is written"); (void)mi; continue; }
                        if (isa<IntrinsicInst>(c)) continue;
                        const Function* g = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
                        if (!g) continue; // virtual calls: the methods of the class are examined on their own
                        if (g->isDeclaration() && (c->onlyReadsMemory(k) || c->onlyReadsMemory())) continue;
                        if (g->isDeclaration())
                        {
                            const StringRef n = g->getName();
                            if (n == "__cxa_atexit" || n == "__cxa_guard_acquire" || n == "__cxa_guard_release" || n == "__cxa_guard_abort") continue;
                            if (n == "memcpy" || n == "memmove" || n == "memset") { if (k == 0) write(i, "is written by " + n.str()); continue; }
                            if (n.starts_with("_ZNK") && k == 0) continue;
                            if (!n.starts_with("_Z")) { if (n == "strcpy" || n == "strncpy" || n == "sprintf" || n == "snprintf" || n == "strcat") { if (k == 0) write(i, "is written by " + n.str()); } continue; }
                            if (n.starts_with("_ZNS") && k == 0 && !deep) write(i, "is changed by " + dem(n));
                            continue;
                        }
                        const ArgInfo& a = argument(g, k, deep);
                        for (auto& w : a.writes) { write(w.at, w.how + " (called at " + locOf(i) + ")"); break; }
                        if (a.returned && !deep) todo.push_back({i, deep});
                        else if (a.deep && i->getType()->isPointerTy()) todo.push_back({i, true});
                    }
                }
            }
        }
    }
    const ArgInfo& argument(const Function* f, unsigned k, bool deep)
    {
        ArgInfo& a = args[{f, k * 2 + (deep ? 1 : 0)}];
        if (a.done || k >= f->arg_size()) return a;
        a.done = true;
        std::vector<Write> writes;
        bool returned = false, returnedDeep = false;
        follow(f->getArg(k), [](const Instruction*) { return false; }, [&](const Instruction* i, const std::string& how) { writes.push_back({i, how}); }, &returned, deep, &returnedDeep);
        ArgInfo& b = args[{f, k * 2 + (deep ? 1 : 0)}];
        b.writes = writes;
        b.returned = returned;
        b.deep = returnedDeep;
        return b;
    }
    // names of the classes a static object is made of
    void classes(const GlobalVariable* g, std::set<std::string>& out)
    {
        std::function<void(const GlobalVariable*)> fromTI = [&](const GlobalVariable* ti) {
            std::string n = dem(ti->getName());
            if (n.rfind("typeinfo for ", 0) == 0) n = n.substr(13);
            if (!out.insert(n).second || !ti->hasInitializer()) return;
            if (auto* st = dyn_cast<ConstantStruct>(ti->getInitializer()))
                for (unsigned i = 2; i < st->getNumOperands(); ++i)
                    if (auto* b = dyn_cast<GlobalVariable>(st->getOperand(i)->stripPointerCasts()))
                        if (b->getName().starts_with("_ZTI")) fromTI(b);
        };
        std::function<void(const Constant*)> fromInit = [&](const Constant* c) {
            if (auto* gv = dyn_cast<GlobalVariable>(c->stripInBoundsConstantOffsets()))
            {
                if (gv->getName().starts_with("_ZTV"))
                    if (auto* ti = M.getNamedGlobal(("_ZTI" + gv->getName().drop_front(4)).str())) fromTI(ti);
                return;
            }
            if (isa<ConstantAggregate>(c)) for (auto& o : c->operands()) fromInit(cast<Constant>(o.get()));
        };
        if (g->hasInitializer()) fromInit(g->getInitializer());
        // constructors called on it
        std::set<const Value*> seen;
        std::vector<const Value*> todo{g};
        while (!todo.empty())
        {
            const Value* v = todo.back();
            todo.pop_back();
            if (!seen.insert(v).second) continue;
            for (const User* u : v->users())
            {
                if (isa<ConstantExpr>(u) || isa<GetElementPtrInst>(u) || isa<PHINode>(u) || isa<BitCastInst>(u)) { todo.push_back(u); continue; }
                if (auto* c = dyn_cast<CallBase>(u))
                    if (auto* f = c->getCalledFunction())
                        if (c->arg_size() && c->getArgOperand(0) == v && !f->isDeclaration() && inRuntimeFile(fileOf(f)))
                        {
                            const std::string n = f->getName().str();
                            if (n.find("C2E") == std::string::npos && n.find("C1E") == std::string::npos) continue;
                            // vtables it stores
                            std::vector<const Function*> ctors{f};
                            std::set<const Function*> done;
                            while (!ctors.empty())
                            {
                                const Function* k = ctors.back();
                                ctors.pop_back();
                                if (!done.insert(k).second) continue;
                                for (auto& i : instructions(k))
                                {
                                    for (auto& o : i.operands())
                                        if (auto* oc = dyn_cast<Constant>(o.get()))
                                            if (auto* gv = dyn_cast<GlobalVariable>(oc->stripInBoundsConstantOffsets()))
                                                if (gv->getName().starts_with("_ZTV"))
                                                    if (auto* ti = M.getNamedGlobal(("_ZTI" + gv->getName().drop_front(4)).str())) fromTI(ti);
                                    if (auto* cc = dyn_cast<CallBase>(&i))
                                        if (auto* cf = cc->getCalledFunction())
                                            if (!cf->isDeclaration() && cc->arg_size() && cc->getArgOperand(0) == k->getArg(0)) ctors.push_back(cf);
                                }
                            }
                        }
            }
        }
    }
    void run()
    {
        std::set<std::string> shared;
        for (auto& g : M.globals())
        {
            const StringRef n = g.getName();
            if (g.isDeclaration() || n.starts_with("_ZTV") || n.starts_with("_ZTI") || n.starts_with("_ZTS") || n.starts_with("_ZTT") || n.starts_with("_ZGV") || n.starts_with("llvm.")) continue;
            const std::string d = dem(n);
            const bool local = g.hasInternalLinkage() || g.hasPrivateLinkage();
            // objects of the runtime: in its namespace (drivers define theirs in an unnamed one), or internal to one of its files
            // (the demangled name of a static of a function begins with the type the function returns)
            auto of = [&](const char* scope) {
                for (const char* p : {"_ZN", "_ZNK", "_ZZN", "_ZZNK", "_ZL", "_ZZ", "_ZZL", "_Z", "_ZZZN", "_ZZZNK", "_ZZNKR", "_ZZNR"}) if (n.starts_with((Twine(p) + scope).str())) return true;
                return false;
            };
            const bool foreign = of("St") || of("Sa") || of("Ss") || of("9__gnu_cxx") || of("10__cxxabiv1") || of("12_GLOBAL__N_1");
            const bool ours = d.rfind("zserio::", 0) == 0 || ((d.find("zserio::") != std::string::npos || n.contains("6zserio")) && !foreign && !local);
            bool used = false;
            if (ours || (local && !n.starts_with(".str") && !n.starts_with("__const") && !n.starts_with("switch.table") && !foreign))
            {
                // ours if a function of the runtime uses it
                std::vector<const User*> todo(g.user_begin(), g.user_end());
                std::set<const User*> seen;
                while (!todo.empty() && !used)
                {
                    const User* u = todo.back();
                    todo.pop_back();
                    if (!seen.insert(u).second) continue;
                    if (auto* i = dyn_cast<Instruction>(u)) used = inRuntimeFile(locOf(i)) || inRuntimeFile(fileOf(i->getFunction()));
                    else todo.insert(todo.end(), u->user_begin(), u->user_end());
                }
            }
            if (!used) continue;
            counts["static objects"]++;
            sites.insert("static " + n.str());
            if (samples.size() < 12) samples.insert(d);
            if (g.isThreadLocal()) { counts["of them one per thread"]++; continue; }
            classes(&g, shared);
            if (g.isConstant()) { counts["of them constant memory"]++; continue; }
            counts["of them initialised when first used"]++;
            auto exempt = [&](const Instruction* i) { return isInitFunction(i->getFunction()) || guarded(i, &g); };
            std::vector<const Value*> roots{&g};
            std::set<const Function*> returners;
            for (size_t r = 0; r < roots.size(); ++r)
            {
                // functions which give the object away: what their callers do with it
                bool returned = false;
                std::set<const Function*> ret;
                follow(roots[r], exempt, [&](const Instruction* i, const std::string& how) {
                    report(locOf(i), dem(i->getFunction()->getName()), "the static object " + d + " " + how + " outside its initialisation");
                }, &returned);
                if (!returned) continue;
                for (const Function& f : M)
                {
                    if (f.isDeclaration() || returners.count(&f)) continue;
                    bool gives = false;
                    for (auto& b : f)
                        if (auto* rt = dyn_cast<ReturnInst>(b.getTerminator()))
                            if (rt->getReturnValue())
                            {
                                const Value* rv = rt->getReturnValue()->stripInBoundsOffsets();
                                if (rv == roots[r]) gives = true;
                            }
                    if (!gives) continue;
                    returners.insert(&f);
                    for (const User* u : f.users())
                        if (auto* c = dyn_cast<CallBase>(u))
                            if (c->getCalledOperand() == &f) roots.push_back(c);
                }
            }
        }
        // methods of classes static objects are made of
        for (auto& f : M)
        {
            if (f.isDeclaration() || f.arg_size() == 0) continue;
            const std::string d = dem(f.getName());
            if (f.getName().contains("C2E") || f.getName().contains("C1E") || d.find("::~") != std::string::npos || d.find("::operator=(") != std::string::npos) continue;
            for (auto& cls : shared)
            {
                const size_t p = d.find(cls + "::");
                if (p == std::string::npos) continue;
                const size_t e = p + cls.size() + 2;
                // the method itself: a name right behind the class
                const size_t q = d.find('(', e);
                if (q == std::string::npos || d.substr(e, q - e).find("::") != std::string::npos) continue;
                if (p != 0 && d[p - 1] != ' ' && d[p - 1] != '*' && d[p - 1] != '&') continue;
                const unsigned k = f.arg_size() > 1 && f.hasParamAttribute(0, Attribute::StructRet) ? 1 : 0;
                counts["methods of classes of static objects"]++;
                sites.insert("method " + f.getName().str());
                for (auto& w : argument(&f, k, false).writes)
                {
                    report(locOf(w.at), d, "a method of " + cls + ", of which there are static objects, changes its object");
                    break;
                }
                break;
            }
        }
        static const std::set<std::string> SHARED = {"strtok", "localtime", "gmtime", "asctime", "ctime", "rand", "srand", "setlocale", "strerror", "tmpnam", "lgamma", "setenv", "putenv", "mblen", "wctomb", "ecvt", "fcvt", "gcvt"};
        for (auto& f : M)
            for (auto& i : instructions(f))
                if (auto* c = dyn_cast<CallBase>(&i))
                    if (auto* h = c->getCalledFunction())
                        if (SHARED.count(h->getName().str()) && inRuntimeFile(locOf(c)))
                            report(locOf(c), dem(f.getName()), "a function of the C library with state of its own is used: " + h->getName().str());
        for (auto& f : M) if (!f.isDeclaration() && inRuntimeFile(fileOf(&f))) functions.insert(dem(f.getName()));
    }
    // constant methods: nothing reachable through the object is written by the runtime
    void constMethods()
    {
        for (auto& f : M)
        {
            if (f.isDeclaration() || f.arg_size() == 0 || !f.getName().starts_with("_ZNK") || !inRuntimeFile(fileOf(&f))) continue;
            const std::string d = dem(f.getName());
            const unsigned k = f.arg_size() > 1 && f.hasParamAttribute(0, Attribute::StructRet) ? 1 : 0;
            counts["constant methods"]++;
            functions.insert(d);
            sites.insert("method " + f.getName().str());
            if (samples.size() < 12) samples.insert(d);
            for (bool deep : {false, true})
                for (auto& w : argument(&f, k, deep).writes)
                {
                    const std::string loc = locOf(w.at);
                    if (!inRuntimeFile(loc)) continue;
                    report(loc, d, std::string("a constant method changes ") + (deep ? "data its object refers to" : "its object") + ": " + dem(w.at->getFunction()->getName()) + " " + w.how);
                    break;
                }
        }
    }
};

static std::string esc(const std::string& s)
{
    std::string o = "\"";
    for (char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if ((unsigned char)c < 0x20) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

int main(int argc, char** argv)
{
    if (argc < 3) return 2;
    const std::string mode = argv[1];
    for (int i = 2; i < argc; ++i)
    {
        LLVMContext ctx;
        SMDiagnostic err;
        auto m = parseIRFile(argv[i], err, ctx);
        if (!m) { fprintf(stderr, "cannot read %s\n", argv[i]); return 2; }
        if (mode == "throws") Throws(*m).run();
        else if (mode == "const") Statics(*m).constMethods();
        else Statics(*m).run();
    }
    std::string o = "{\"violations\":[";
    bool first = true;
    for (auto& [k, v] : violations)
    {
        if (!first) o += ",";
        first = false;
        o += "{\"loc\":" + esc(v.loc) + ",\"function\":" + esc(v.fn) + ",\"msg\":" + esc(v.msg) + "}";
    }
    o += "],\"sites\":[";
    first = true;
    for (auto& s : sites) { if (!first) o += ","; first = false; o += esc(s); }
    o += "],\"functions\":[";
    first = true;
    for (auto& s : functions) { if (!first) o += ","; first = false; o += esc(s); }
    o += "],\"samples\":[";
    first = true;
    for (auto& s : samples) { if (!first) o += ","; first = false; o += esc(s); }
    o += "],\"counts\":{";
    first = true;
    for (auto& [k, v] : counts) { if (!first) o += ","; first = false; o += esc(k) + ":" + std::to_string(v); }
    o += "}}\n";
    fputs(o.c_str(), stdout);
    return 0;
}
