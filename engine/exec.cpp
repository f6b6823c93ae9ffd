// Symbolic executor for LLVM IR over exact extended-real arithmetic.
#include <atomic>
#include <thread>
#include <unistd.h>
#include "sym.h"
#include <cmath>
#include <cstdio>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <unordered_set>

#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/DerivedTypes.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>

using namespace llvm;
using std::string;
using std::vector;

static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------ values
enum class K : uint8_t { UNINIT, INT, FP, SYM /* symbolic integer */, BOOL /* symbolic i1 */, AGG };
struct Val {
    K k = K::UNINIT;
    uint8_t bits = 0;
    uint32_t n = 0;  // NodeId or BoolId
    uint64_t i = 0;
    std::shared_ptr<vector<Val>> agg;
};
static Val mkInt(uint64_t v, unsigned bits) {
    Val r;
    r.k = K::INT;
    r.bits = bits;
    r.i = bits >= 64 ? v : v & ((1ULL << bits) - 1);
    return r;
}
static Val mkFP(NodeId n) { Val r; r.k = K::FP; r.n = n; return r; }
static Val mkBool(BoolId b) {
    if (b == B_TRUE) return mkInt(1, 1);
    if (b == B_FALSE) return mkInt(0, 1);
    Val r; r.k = K::BOOL; r.n = b; r.bits = 1; return r;
}
static Val mkSym(NodeId n, unsigned bits) {
    mpq_class c;
    if (nIsConst(n, c) && c.get_den() == 1) return mkInt((uint64_t)(int64_t)c.get_num().get_si(), bits);
    Val r; r.k = K::SYM; r.n = n; r.bits = bits; return r;
}
static int64_t sx(uint64_t v, unsigned bits) {
    if (bits >= 64) return (int64_t)v;
    uint64_t m = 1ULL << (bits - 1);
    v &= (1ULL << bits) - 1;
    return (int64_t)((v ^ m) - m);
}

// ------------------------------------------------------------------ memory
enum class OK : uint8_t { GLOBAL, STACK, NEW, NEWARR, MALLOC };
struct Cell { uint32_t size; Val v; };
struct Obj {
    uint64_t base, size;
    OK kind;
    bool alive = true, ro = false;
    vector<uint8_t> b, sh;  // shadow: 0 uninit, 1 concrete, 2 symbolic cell
    std::map<uint32_t, Cell> cells;
    string what;
};
typedef std::shared_ptr<Obj> ObjP;

struct PInst {
    Instruction *I;
    vector<std::pair<int, Val>> ops;  // slot >= 0 or constant
    int dst;
};
struct PBlock { vector<PInst> in; };
struct PFunc {
    Function *F = nullptr;
    string name, pretty;
    vector<PBlock> blocks;
    std::unordered_map<const BasicBlock *, int> bidx;
    int nslots = 0;
    uint64_t executed = 0;
    int id = 0;
};
struct Frame {
    PFunc *f;
    int bb = 0, pc = 0, prevbb = -1;
    vector<Val> loc;
    vector<uint64_t> allocas;
    int retSlot = -1;
    bool isInvoke = false;
};
struct Obs { string id; NodeId a, b; };
struct State {
    vector<Frame> fr;
    std::map<uint64_t, ObjP> mem;
    uint64_t heapNext = 0x100000000ULL, stackNext = 0x7000000000ULL;
    PathCond pc;
    // decisions taken within the current instruction, with the condition each added
    vector<std::pair<int, BoolId>> decisions;
    size_t dcons = 0;
    std::shared_ptr<PathCond> base;  // path condition at the start of the instruction
    vector<Obs> obs;
    std::map<string, int> nameCount;
    NodeId clock = 0;
    bool clockInit = false;
    bool allowAbort = false;
    int liveHeap = 0;
    uint64_t steps = 0;
    vector<string> trace;
    int forks = 0;
};
typedef std::unique_ptr<State> StateP;

struct Violation {
    string kind, id, detail, where;
    vector<std::map<string, double>> points;
    bool solverSat = false;
    bool undecided = false;
    bool refuted = false;  // the solver ruled it out after all
};
struct PathEnd { string how; };     // thrown to finish a path
struct Unsupported { string msg; };

struct Engine {
    LLVMContext C;
    std::unique_ptr<Module> M;
    const DataLayout *DL = nullptr;
    std::unordered_map<const Function *, PFunc *> funcs;
    std::unordered_map<uint64_t, Function *> funcAt;
    std::unordered_map<const GlobalValue *, uint64_t> gaddr;
    uint64_t nextGlobal = 0x10000;
    std::map<uint64_t, ObjP> baseMem;
    vector<StateP> work;
    State *S = nullptr;
    PFunc *curF = nullptr;

    // results
    uint64_t nPaths = 0, nOk = 0, nInfeasible = 0, nAbortOk = 0, nInstr = 0, nForks = 0;
    std::map<string, uint64_t> reached;       // assertion ids evaluated
    std::map<string, uint64_t> obligations;   // id -> queries
    vector<Violation> viols;
    double after = 0, firstViol = 0;
    std::map<string, int> violCount;
    std::set<string> violKeys;
    vector<string> problems;
    struct Sample { std::map<string, double> in; vector<std::pair<string, std::pair<double, double>>> obs; };
    vector<Sample> samples;
    size_t maxSamples = 6, maxPaths = 200000;
    uint64_t maxSteps = 400000000ULL;
    double deadline = 0;
    bool stop = false;
    std::set<string> notes;
    bool verbose = false;

    // ------------------------------------------------------------ loading
    bool load(const string &file) {
        SMDiagnostic err;
        M = parseIRFile(file, err, C);
        if (!M) { err.print("scsx", errs()); return false; }
        DL = &M->getDataLayout();
        for (Function &F : *M) {
            uint64_t a = nextGlobal;
            nextGlobal += 16;
            gaddr[&F] = a;
            funcAt[a] = &F;
        }
        nextGlobal = 0x1000000;
        for (GlobalVariable &G : M->globals()) {
            uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 8;
            gaddr[&G] = nextGlobal;
            nextGlobal += ((sz + 15) & ~15ULL) + 64;
        }
        for (GlobalVariable &G : M->globals()) {
            uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 8;
            auto o = std::make_shared<Obj>();
            o->base = gaddr[&G];
            o->size = sz;
            o->kind = OK::GLOBAL;
            o->b.assign(sz, 0);
            o->sh.assign(sz, 1);
            o->what = "global " + G.getName().str();
            if (G.hasInitializer()) initConst(*o, 0, G.getInitializer());
            o->ro = G.isConstant();
            baseMem[o->base] = o;
        }
        return true;
    }
    void putBytes(Obj &o, uint64_t off, uint64_t v, unsigned n) {
        for (unsigned i = 0; i < n; ++i) { o.b[off + i] = (uint8_t)(v >> (8 * i)); o.sh[off + i] = 1; }
    }
    void initConst(Obj &o, uint64_t off, const Constant *c) {
        Type *T = c->getType();
        if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
        if (auto *ca = dyn_cast<ConstantDataSequential>(c)) {
            uint64_t es = DL->getTypeAllocSize(ca->getElementType());
            for (unsigned i = 0; i < ca->getNumElements(); ++i) initConst(o, off + i * es, ca->getElementAsConstant(i));
            return;
        }
        if (auto *st = dyn_cast<StructType>(T)) {
            const StructLayout *L = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); ++i)
                initConst(o, off + L->getElementOffset(i), cast<Constant>(c->getAggregateElement(i)));
            return;
        }
        if (auto *at = dyn_cast<ArrayType>(T)) {
            uint64_t es = DL->getTypeAllocSize(at->getElementType());
            for (unsigned i = 0; i < at->getNumElements(); ++i) initConst(o, off + i * es, cast<Constant>(c->getAggregateElement(i)));
            return;
        }
        Val v = constVal(c);
        unsigned n = DL->getTypeStoreSize(T);
        if (v.k == K::INT) putBytes(o, off, v.i, n);
        else if (v.k == K::FP) {
            for (unsigned i = 0; i < n; ++i) o.sh[off + i] = 2;
            o.cells[off] = {n, v};
        } else throw Unsupported{"global initialiser"};
    }
    static NodeId fpConst(const APFloat &f, bool isFloat) {
        if (f.isNaN()) return N_NAN;
        if (f.isInfinity()) return f.isNegative() ? N_NINF : N_PINF;
        if (f.isZero()) return nConst(0);
        // the decimal the constant was written as (shortest that reads back to it)
        double d = isFloat ? (double)f.convertToFloat() : f.convertToDouble();
        char buf[64];
        for (int prec = 1; prec <= 17; ++prec) {
            snprintf(buf, sizeof buf, "%.*e", prec - 1, d);
            if (isFloat ? (strtof(buf, nullptr) == (float)d) : (strtod(buf, nullptr) == d)) break;
        }
        string s(buf);
        size_t e = s.find('e');
        string mant = s.substr(0, e);
        long ex = atol(s.c_str() + e + 1);
        bool neg = mant[0] == '-';
        if (neg) mant = mant.substr(1);
        size_t dot = mant.find('.');
        long frac = 0;
        if (dot != string::npos) { frac = mant.size() - dot - 1; mant.erase(dot, 1); }
        mpz_class num(mant), p10;
        long sh = ex - frac;
        mpz_ui_pow_ui(p10.get_mpz_t(), 10, std::labs(sh));
        mpq_class q = sh >= 0 ? mpq_class(num * p10) : mpq_class(num, p10);
        q.canonicalize();
        // a decimal with 15+ digits of a small fraction such as 1.0/6 or 1.0/3
        size_t digits = mant.size();
        if (digits >= 15) {
            for (long den = 3; den <= 100; ++den) {
                double nn = std::round(std::fabs(d) * den);
                if (nn >= 1 && nn < 1000 && nn / den == std::fabs(d)) {
                    q = mpq_class((long)nn, den);
                    q.canonicalize();
                    break;
                }
            }
        }
        if (neg) q = -q;
        return nConst(q);
    }
    Val constVal(const Constant *c) {
        Type *T = c->getType();
        if (auto *ci = dyn_cast<ConstantInt>(c)) {
            if (ci->getBitWidth() > 64) {
                if (ci->getValue().getActiveBits() > 64) throw Unsupported{"wide integer constant"};
                return mkInt(ci->getValue().getZExtValue(), 64);
            }
            return mkInt(ci->getZExtValue(), ci->getBitWidth());
        }
        if (auto *cf = dyn_cast<ConstantFP>(c)) return mkFP(fpConst(cf->getValueAPF(), T->isFloatTy()));
        if (isa<ConstantPointerNull>(c)) return mkInt(0, 64);
        if (isa<UndefValue>(c)) {
            if (T->isAggregateType()) return zeroAgg(T, true);
            return Val();
        }
        if (auto *g = dyn_cast<GlobalValue>(c)) {
            if (auto *al = dyn_cast<GlobalAlias>(g)) return constVal(al->getAliasee());
            auto it = gaddr.find(g);
            if (it == gaddr.end()) throw Unsupported{"unknown global " + g->getName().str()};
            return mkInt(it->second, 64);
        }
        if (auto *ce = dyn_cast<ConstantExpr>(c)) {
            switch (ce->getOpcode()) {
                case Instruction::GetElementPtr: {
                    APInt off(64, 0);
                    if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw Unsupported{"constant gep"};
                    Val b = constVal(ce->getOperand(0));
                    return mkInt(b.i + off.getSExtValue(), 64);
                }
                case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast:
                    return constVal(ce->getOperand(0));
                case Instruction::Sub: {
                    Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1));
                    return mkInt(a.i - b.i, a.bits);
                }
                case Instruction::Add: {
                    Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1));
                    return mkInt(a.i + b.i, a.bits);
                }
                case Instruction::Trunc: {
                    Val a = constVal(ce->getOperand(0));
                    return mkInt(a.i, T->getIntegerBitWidth());
                }
                default: throw Unsupported{string("constant expression ") + ce->getOpcodeName()};
            }
        }
        if (isa<ConstantAggregateZero>(c)) return zeroAgg(T, false);
        if (T->isStructTy() || T->isArrayTy()) {
            Val r;
            r.k = K::AGG;
            r.agg = std::make_shared<vector<Val>>();
            unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
            for (unsigned i = 0; i < n; ++i) r.agg->push_back(constVal(c->getAggregateElement(i)));
            return r;
        }
        throw Unsupported{"constant"};
    }
    Val zeroAgg(Type *T, bool undef) {
        if (!T->isAggregateType()) {
            if (undef) return Val();
            if (T->isFloatingPointTy()) return mkFP(nConst(0));
            return mkInt(0, T->isPointerTy() ? 64 : T->getIntegerBitWidth());
        }
        Val r;
        r.k = K::AGG;
        r.agg = std::make_shared<vector<Val>>();
        unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
        for (unsigned i = 0; i < n; ++i)
            r.agg->push_back(zeroAgg(T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType(), undef));
        return r;
    }
    PFunc *prep(Function *F) {
        auto it = funcs.find(F);
        if (it != funcs.end()) return it->second;
        PFunc *p = new PFunc();
        p->F = F;
        p->name = F->getName().str();
        p->pretty = demangle(p->name);
        std::unordered_map<const Value *, int> slot;
        int n = 0;
        for (Argument &a : F->args()) slot[&a] = n++;
        int bi = 0;
        for (BasicBlock &B : *F) {
            p->bidx[&B] = bi++;
            for (Instruction &I : B)
                if (!I.getType()->isVoidTy()) slot[&I] = n++;
        }
        p->nslots = n;
        for (BasicBlock &B : *F) {
            PBlock pb;
            for (Instruction &I : B) {
                if (isa<DbgInfoIntrinsic>(&I)) continue;
                PInst pi;
                pi.I = &I;
                pi.dst = I.getType()->isVoidTy() ? -1 : slot[&I];
                for (Use &u : I.operands()) {
                    Value *v = u.get();
                    auto s = slot.find(v);
                    if (s != slot.end()) pi.ops.push_back({s->second, Val()});
                    else if (auto *c = dyn_cast<Constant>(v)) {
                        Val cv;
                        if (!isa<LandingPadInst>(&I)) cv = constVal(c);
                        pi.ops.push_back({-1, cv});
                    } else pi.ops.push_back({-1, Val()});
                }
                pb.in.push_back(pi);
            }
            p->blocks.push_back(std::move(pb));
        }
        funcs[F] = p;
        return p;
    }

    // ---------------------------------------------------------- decisions
    string where() {
        string s;
        int k = 0;
        for (int i = (int)S->fr.size() - 1; i >= 0 && k < 4; --i, ++k) {
            Frame &f = S->fr[i];
            if (f.bb < 0 || f.pc >= (int)f.f->blocks[f.bb].in.size()) continue;
            Instruction *I = f.f->blocks[f.bb].in[f.pc].I;
            const DebugLoc &d = I->getDebugLoc();
            string nm = f.f->pretty;
            size_t par = nm.find('(');
            if (par != string::npos) nm = nm.substr(0, par);
            if (k) s += " < ";
            s += nm;
            if (d) s += ":" + std::to_string(d.getLine());
        }
        return s;
    }
    // The forked state re-executes the current instruction from its start, so it
    // restarts from the path condition of that moment and re-applies the
    // conditions one by one: every engine-side analysis then repeats exactly.
    void markBase() { if (!S->base) S->base = std::make_shared<PathCond>(S->pc); }
    StateP cloneFor(int opt, BoolId cond) {
        PathCond full = S->pc;
        pcAdd(full, cond);
        topUp(full);
        auto n = std::make_unique<State>(*S);
        n->decisions.resize(n->dcons);
        n->decisions.push_back({opt, cond});
        n->dcons = 0;
        n->pc = *S->base;
        n->pc.wit = full.wit;
        n->forks++;
        return n;
    }
    void note(int opt, BoolId cond) {
        S->decisions.resize(S->dcons);
        S->decisions.push_back({opt, cond});
        S->dcons++;
    }
    int replayed() {
        auto d = S->decisions[S->dcons++];
        pcAdd(S->pc, d.second);
        return d.first;
    }
    // decide a condition, forking when both outcomes are possible
    bool decide(BoolId b) {
        if (b == B_TRUE) return true;
        if (b == B_FALSE) return false;
        markBase();
        if (S->dcons < S->decisions.size()) return replayed() == 1;
        bool r;
        uint8_t q = quickBool(S->pc, b);
        BoolId nb = bNot(b), added = B_TRUE;
        if (q == 2) { gStats.quickDecided++; r = true; }
        else if (q == 1) { gStats.quickDecided++; r = false; }
        else {
            bool canT = false, canF = false;
            for (auto &w : S->pc.wit) {
                int e = evalBool(w, b);
                if (e == 1) canT = true;
                // evalBool treats near-equalities as true; confirm the negation on its own
                if (evalBool(w, nb) == 1 && e != 1) canF = true;
                if (canT && canF) break;
            }
            Point p;
            if (!canT) canT = feasible(b, p);
            if (!canF) canF = feasible(nb, p);
            if (!canT && !canF) throw PathEnd{"infeasible"};
            if (canT && canF) {
                nForks++;
                work.push_back(cloneFor(0, nb));
                note(1, b);
                pcAdd(S->pc, b);
                topUp(S->pc);
                return true;
            }
            r = canT;
            // implied by the path condition: remember it for the quick analysis
            added = r ? b : nb;
            pcAdd(S->pc, added);
        }
        note(r ? 1 : 0, added);
        return r;
    }
    bool feasible(BoolId b, Point &p) {
        if (samplePoint(S->pc, b, p, 40)) { gStats.witnessDecided++; S->pc.wit.push_back(p); return true; }
        Model m;
        Res r = solve(S->pc, b, gBranchTimeoutMs, &m);
        if (r == Res::SAT) {
            p = pointFromModel(S->pc, m);
            if (pointOk(S->pc, p) && evalBool(p, b) == 1) S->pc.wit.push_back(p);
            return true;
        }
        if (r == Res::UNKNOWN) return true;
        return false;
    }
    void topUp(PathCond &pc) {
        if (pc.wit.size() >= 3) return;
        Point p;
        for (int i = 0; i < 2; ++i)
            if (samplePoint(pc, B_TRUE, p, 30)) pc.wit.push_back(p);
            else break;
    }
    // choose one of n unconditional alternatives
    int chooseN(int n) {
        if (n <= 1) return 0;
        markBase();
        if (S->dcons < S->decisions.size()) return replayed();
        for (int i = n - 1; i >= 1; --i) {
            nForks++;
            work.push_back(cloneFor(i, B_TRUE));
        }
        note(0, B_TRUE);
        return 0;
    }
    bool truth(const Val &v) {
        if (v.k == K::INT) return v.i & 1;
        if (v.k == K::BOOL) return decide(v.n);
        if (v.k == K::UNINIT) { fail("uninit", "branch", "control flow depends on an uninitialised value"); }
        throw Unsupported{"condition kind"};
    }
    uint64_t concInt(const Val &v) {
        if (v.k == K::INT) return v.i;
        if (v.k == K::BOOL) return truth(v) ? 1 : 0;
        if (v.k == K::SYM) return concSym(v);
        if (v.k == K::UNINIT) fail("uninit", "use", "an uninitialised value is used");
        throw Unsupported{"integer expected, got floating value"};
    }
    uint64_t concSym(const Val &v) {
        const RF &r = nform(v.n);
        Itv it = quickItv(S->pc, r);
        if (!it.hasLo || !it.hasHi) throw Unsupported{"unbounded symbolic integer"};
        long lo = (long)std::ceil(it.lo.get_d() - 1e-9), hi = (long)std::floor(it.hi.get_d() + 1e-9);
        if (hi - lo > 4096) throw Unsupported{"symbolic integer range too wide to enumerate"};
        for (long x = lo; x < hi; ++x)
            if (decide(signBool(S->pc, rSub(r, rConst(x)), S_ZERO))) return mkInt((uint64_t)x, v.bits).i;
        return mkInt((uint64_t)hi, v.bits).i;
    }

    // --------------------------------------------------------- violations
    std::map<string, double> named(const Point &p) {
        std::map<string, double> m;
        for (size_t i = 0; i < gInputs.size() && i < p.size(); ++i) m[gVars[gInputs[i]].name] = p[i];
        return m;
    }
    void record(Violation v) {
        string key = v.kind + "|" + v.id + "|" + (v.kind == "assert" ? "" : v.where);
        // a second and third chance for a candidate the real code may not reproduce
        if (violKeys.count(key)) return;
        bool firm = v.solverSat && !v.points.empty();
        if (firm || ++violCount[key] >= 3) violKeys.insert(key);
        viols.push_back(v);
        if (firm && firstViol == 0) firstViol = now();
        if (viols.size() >= 8) stop = true;
    }
    [[noreturn]] void fail(const string &kind, const string &id, const string &detail) {
        Violation v;
        v.kind = kind; v.id = id; v.detail = detail; v.where = where();
        addPoints(v, B_TRUE, nullptr);
        record(v);
        throw PathEnd{"violation"};
    }
    // local search among the points of the path for one that maximises a score
    const RF *about = nullptr;  // what the local search is to make large
    void walk(BoolId extra, const std::function<double(const Point &)> &score, double enough, vector<Point> &found, vector<Point> starts) {
        vector<size_t> focus;  // the inputs the condition is about
        bool trig = false;     // far angles are not told apart well
        { std::set<VarId> vs; if (about) { vector<VarId> f; rVars(*about, f); for (VarId x : f) defVars(x, vs); } for (VarId x : vs) { if (gVars[x].kind == VK::INPUT) focus.push_back(gVars[x].inputIndex); if (gVars[x].kind == VK::COS) trig = true; } }
        double until = now() + 3;
        Point p;
        for (int i = 0; i < 4; ++i) if (samplePoint(S->pc, extra, p, 40)) starts.push_back(p);
        for (auto &st : starts) {
            if (!pointOk(S->pc, st)) continue;  // (a model may lie too close to the border for floating point to tell: the search starts there all the same)
            Point cur = st;
            if (cur.size() < gInputs.size()) cur.resize(gInputs.size(), 0.0);
            if (cur.empty()) continue;
            double best = extra != B_TRUE && evalBool(st, extra) != 1 ? 0 : score(cur);
            if (!(best >= 0)) best = 0;
            for (int k = 0; k < 1500 && now() < until && best < 1e-3; ++k) {
                Point q = cur;
                int n = 1 + gRng() % 2;
                for (int j = 0; j < n; ++j) {
                    size_t i = focus.empty() || gRng() % 4 == 0 ? gRng() % q.size() : focus[gRng() % focus.size()];
                    if (i >= q.size()) continue;
                    if (gVars[gInputs[i]].kind == VK::INT) continue;
                    static const double f[] = {2, 10, 1e3, 1e6, 0.5, 0.1, 1e-3, -1, 1.0625, 0.9375};
                    unsigned r = gRng() % 15;
                    if (r < 10) q[i] *= f[r];
                    else q[i] = ((long)(gRng() % 129) - 64) / 16.0 * (r == 11 ? 1e-3 : r == 12 ? 100 : r > 12 ? std::pow(10, -(double)(gRng() % 12)) : 1);
                }
                if (trig) { bool far = false; for (double x : q) if (std::fabs(x) > 1e4) far = true; if (far) continue; }
                if (!pointOk(S->pc, q) || (extra != B_TRUE && evalBool(q, extra) != 1)) continue;
                double d = score(q);
                if (d > best) { best = d; cur = q; }
            }
            if (best > enough) { found.push_back(cur); if (found.size() >= 2) return; }
        }
    }
    void addPoints(Violation &v, BoolId extra, std::function<bool(const Point &)> pred, std::function<double(const Point &)> score = nullptr) {
        for (auto &w : S->pc.wit) {
            if (v.points.size() >= 4) break;
            if (extra != B_TRUE && evalBool(w, extra) != 1) continue;
            if (pred && !pred(w)) continue;
            v.points.push_back(named(w));
        }
        Point p;
        for (int i = 0; i < 30 && v.points.size() < 6; ++i) {
            if (!samplePoint(S->pc, extra, p, 40)) { if (i > 3 && v.points.empty()) break; continue; }
            if (pred && !pred(p)) continue;
            v.points.push_back(named(p));
        }
        Model m;
        Res r = solve(S->pc, extra, gAssertTimeoutMs, &m);
        if (r == Res::UNKNOWN && v.points.empty()) {
            gHard = true;
            r = solve(S->pc, extra, gAssertTimeoutMs * 6, &m);
            gHard = false;
        }
        if (r == Res::UNSAT && v.points.empty()) {
            if (extra == B_TRUE) throw PathEnd{"infeasible"};
            v.refuted = true;
            return;
        }
        if (r == Res::SAT) {
            v.solverSat = true;
            Point q = pointFromModel(S->pc, m);
            v.points.push_back(named(q));
        } else if (v.points.empty()) v.undecided = true;
        if (score && v.points.size() < (r == Res::SAT ? 2 : 1)) {
            vector<Point> found, starts = S->pc.wit;
            if (r == Res::SAT) starts.push_back(pointFromModel(S->pc, m));
            walk(extra, score, gSingle ? 2e-8 : 1e-7, found, starts);
            for (auto &q : found) v.points.insert(v.points.begin(), named(q));
            if (!found.empty()) v.undecided = false;
        }
        // angles fixed to concrete values, the solver finds the rest
        for (int k = 0; k < 4 && v.points.size() < 3; ++k) {
            std::map<VarId, double> pins;
            Point base(gInputs.size());
            bool any = false;
            for (VarId x = 0; x < gVars.size(); ++x) {
                if (gVars[x].kind != VK::COS) continue;
                std::vector<VarId> vs;
                rVars(gVars[x].a, vs);
                for (VarId y : vs)
                    if (gVars[y].inputIndex >= 0 && !pins.count(y)) {
                        double a = ((long)(gRng() % 49) - 24) / 8.0;
                        if (k == 0) a = 0;
                        pins[y] = a;
                        base[gVars[y].inputIndex] = a;
                        any = true;
                    }
            }
            if (!any) break;
            for (VarId x = 0; x < gVars.size(); ++x) {
                if (gVars[x].kind != VK::COS) continue;
                std::vector<VarId> vs;
                rVars(gVars[x].a, vs);
                bool all = true;
                for (VarId y : vs) if (!pins.count(y)) all = false;
                if (!all) continue;
                double a = evalRF(base, gVars[x].a);
                pins[x] = std::cos(a);
                pins[gVars[x].mate] = std::sin(a);
            }
            Model m2;
            if (solve(S->pc, extra, 3000, &m2, &pins) == Res::SAT) {
                for (auto &kv : pins) m2.v[kv.first] = kv.second;
                Point q = pointFromModel(S->pc, m2);
                v.points.push_back(named(q));
            }
        }
    }

    // -------------------------------------------------------------- memory
    ObjP alloc(uint64_t size, OK kind, const string &what, bool zero = false) {
        auto o = std::make_shared<Obj>();
        uint64_t &next = kind == OK::STACK ? S->stackNext : S->heapNext;
        o->base = next;
        o->size = size;
        o->kind = kind;
        o->b.assign(size, 0);
        o->sh.assign(size, zero ? 1 : 0);
        o->what = what;
        next += ((size + 15) & ~15ULL) + 256;
        S->mem[o->base] = o;
        return o;
    }
    ObjP &findObj(uint64_t addr, uint64_t n, bool write) {
        if (addr < 4096) fail("memory", write ? "null-write" : "null-read", "null pointer access");
        auto it = S->mem.upper_bound(addr);
        if (it == S->mem.begin()) fail("memory", write ? "wild-write" : "wild-read", "access outside any object");
        --it;
        ObjP &o = it->second;
        if (addr + n > o->base + o->size || addr < o->base) {
            if (!o->alive) fail("memory", write ? "wild-write" : "wild-read", "access beside a freed object");
            fail("memory", write ? "oob-write" : "oob-read",
                 "access of " + std::to_string(n) + " bytes at offset " + std::to_string((int64_t)(addr - o->base)) + " of " + o->what + " of " +
                     std::to_string(o->size) + " bytes");
        }
        if (!o->alive) fail("memory", write ? "uaf-write" : "uaf-read", "access to freed " + o->what);
        return o;
    }
    Obj &writable(ObjP &o) {
        if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
        return *o;
    }
    void killCells(Obj &o, uint64_t off, uint64_t n) {
        // remove symbolic cells overlapping [off, off+n)
        auto it = o.cells.lower_bound(off >= 8 ? off - 7 : 0);
        while (it != o.cells.end() && it->first < off + n) {
            if (it->first + it->second.size > off) {
                for (uint32_t k = 0; k < it->second.size; ++k)
                    if (o.sh[it->first + k] == 2) o.sh[it->first + k] = 0;
                it = o.cells.erase(it);
            } else ++it;
        }
    }
    void storeTo(uint64_t addr, const Val &v, Type *T) {
        if (T->isAggregateType()) {
            if (auto *st = dyn_cast<StructType>(T)) {
                const StructLayout *L = DL->getStructLayout(st);
                for (unsigned i = 0; i < st->getNumElements(); ++i) storeTo(addr + L->getElementOffset(i), (*v.agg)[i], st->getElementType(i));
            } else {
                uint64_t es = DL->getTypeAllocSize(T->getArrayElementType());
                for (unsigned i = 0; i < T->getArrayNumElements(); ++i) storeTo(addr + i * es, (*v.agg)[i], T->getArrayElementType());
            }
            return;
        }
        uint64_t n = DL->getTypeStoreSize(T);
        ObjP &op = findObj(addr, n, true);
        if (op->ro) fail("memory", "ro-write", "write to constant " + op->what);
        Obj &o = writable(op);
        uint64_t off = addr - o.base;
        killCells(o, off, n);
        switch (v.k) {
            case K::UNINIT: for (uint64_t i = 0; i < n; ++i) o.sh[off + i] = 0; break;
            case K::INT: putBytes(o, off, v.i, n); break;
            case K::BOOL: { uint64_t b = truth(v); putBytes(o, off, b, n); break; }
            default:
                for (uint64_t i = 0; i < n; ++i) o.sh[off + i] = 2;
                o.cells[off] = {(uint32_t)n, v};
        }
    }
    Val loadFrom(uint64_t addr, Type *T) {
        if (T->isAggregateType()) {
            Val r;
            r.k = K::AGG;
            r.agg = std::make_shared<vector<Val>>();
            if (auto *st = dyn_cast<StructType>(T)) {
                const StructLayout *L = DL->getStructLayout(st);
                for (unsigned i = 0; i < st->getNumElements(); ++i) r.agg->push_back(loadFrom(addr + L->getElementOffset(i), st->getElementType(i)));
            } else {
                uint64_t es = DL->getTypeAllocSize(T->getArrayElementType());
                for (unsigned i = 0; i < T->getArrayNumElements(); ++i) r.agg->push_back(loadFrom(addr + i * es, T->getArrayElementType()));
            }
            return r;
        }
        uint64_t n = DL->getTypeStoreSize(T);
        ObjP &op = findObj(addr, n, false);
        Obj &o = *op;
        uint64_t off = addr - o.base;
        bool allC = true, anyU = false, anyS = false;
        for (uint64_t i = 0; i < n; ++i) {
            if (o.sh[off + i] != 1) allC = false;
            if (o.sh[off + i] == 0) anyU = true;
            if (o.sh[off + i] == 2) anyS = true;
        }
        if (allC) {
            uint64_t v = 0;
            for (uint64_t i = 0; i < n && i < 8; ++i) v |= (uint64_t)o.b[off + i] << (8 * i);
            if (T->isDoubleTy()) {
                double d;
                memcpy(&d, &v, 8);
                return mkFP(fpConst(APFloat(d), false));
            }
            if (T->isFloatTy()) {
                float f;
                uint32_t w = (uint32_t)v;
                memcpy(&f, &w, 4);
                return mkFP(fpConst(APFloat(f), true));
            }
            if (n > 8) throw Unsupported{"wide load"};
            return mkInt(v, T->isPointerTy() ? 64 : T->getIntegerBitWidth());
        }
        if (anyS) {
            auto it = o.cells.find(off);
            if (it != o.cells.end() && it->second.size == n) return it->second.v;
            throw Unsupported{"partial access to a symbolic value"};
        }
        (void)anyU;
        return Val();
    }
    void copyMem(uint64_t d, uint64_t s, uint64_t n) {
        if (n == 0) return;
        ObjP &so = findObj(s, n, false);
        uint64_t soff = s - so->base;
        // snapshot the source
        vector<uint8_t> b(so->b.begin() + soff, so->b.begin() + soff + n), sh(so->sh.begin() + soff, so->sh.begin() + soff + n);
        vector<std::pair<uint64_t, Cell>> cs;
        for (auto it = so->cells.lower_bound(soff >= 8 ? soff - 7 : 0); it != so->cells.end() && it->first < soff + n; ++it) {
            if (it->first + it->second.size <= soff) continue;
            if (it->first < soff || it->first + it->second.size > soff + n) throw Unsupported{"copy splits a symbolic value"};
            cs.push_back({it->first - soff, it->second});
        }
        ObjP &dp = findObj(d, n, true);
        if (dp->ro) fail("memory", "ro-write", "write to constant " + dp->what);
        Obj &o = writable(dp);
        uint64_t off = d - o.base;
        killCells(o, off, n);
        memcpy(&o.b[off], b.data(), n);
        memcpy(&o.sh[off], sh.data(), n);
        for (auto &c : cs) o.cells[off + c.first] = c.second;
    }
    void freeObj(uint64_t addr, OK kind) {
        if (addr == 0) return;
        auto it = S->mem.find(addr);
        if (it == S->mem.end() || it->second->kind == OK::STACK || it->second->kind == OK::GLOBAL)
            fail("memory", "bad-free", "release of an address that was not allocated");
        if (!it->second->alive) fail("memory", "double-free", "double release of " + it->second->what);
        if (it->second->kind != kind) fail("memory", "mismatched-free", "new/delete form mismatch for " + it->second->what);
        Obj &o = writable(it->second);
        o.alive = false;
        o.b.clear(); o.b.shrink_to_fit();
        o.sh.clear(); o.sh.shrink_to_fit();
        o.cells.clear();
        S->liveHeap--;
    }
    string cstr(uint64_t a) {
        string s;
        for (;;) {
            ObjP &o = findObj(a, 1, false);
            if (o->sh[a - o->base] != 1) throw Unsupported{"symbolic string"};
            char c = (char)o->b[a - o->base];
            if (!c) return s;
            s += c;
            ++a;
        }
    }

    // ---------------------------------------------------------- fp helpers
    NodeId fpv(const Val &v) {
        if (v.k == K::FP) return v.n;
        throw Unsupported{"floating value expected"};
    }
    int signOf(NodeId n) {  // finite node; forks
        const RF &r = nform(n);
        if (decide(signBool(S->pc, r, S_ZERO))) return 0;
        return decide(signBool(S->pc, r, S_POS)) ? 1 : -1;
    }
    NodeId fadd(NodeId a, NodeId b, bool sub) {
        if (sub) b = fneg(b);
        if (a == N_NAN || b == N_NAN) return N_NAN;
        if (nSpecial(a) && nSpecial(b)) return a == b ? a : N_NAN;
        if (nSpecial(a)) return a;
        if (nSpecial(b)) return b;
        if (sub) return nOp(Op::SUB, a, node(b).op == Op::NEG ? node(b).a : fneg(b));
        return nOp(Op::ADD, a, b);
    }
    NodeId fneg(NodeId a) {
        if (a == N_NAN) return a;
        if (a == N_PINF) return N_NINF;
        if (a == N_NINF) return N_PINF;
        return nOp(Op::NEG, a, 0);
    }
    NodeId inf(int s) { return s > 0 ? N_PINF : s < 0 ? N_NINF : N_NAN; }
    NodeId fmul(NodeId a, NodeId b) {
        if (a == N_NAN || b == N_NAN) return N_NAN;
        if (nSpecial(a) || nSpecial(b)) {
            int sa = nSpecial(a) ? (a == N_PINF ? 1 : -1) : signOf(a);
            int sb = nSpecial(b) ? (b == N_PINF ? 1 : -1) : signOf(b);
            return inf(sa * sb);
        }
        return nOp(Op::MUL, a, b);
    }
    NodeId fdiv(NodeId a, NodeId b) {
        if (a == N_NAN || b == N_NAN) return N_NAN;
        if (nSpecial(b)) return nSpecial(a) ? N_NAN : nConst(0);
        const RF &rb = nform(b);
        bool zero = rb.num.zero() ? true : rb.num.isConst() ? false : decide(signBool(S->pc, rb, S_ZERO));
        if (zero) {
            // a zero divisor is taken as +0
            if (nSpecial(a)) return a;
            return inf(signOf(a));
        }
        if (nSpecial(a)) return inf((a == N_PINF ? 1 : -1) * signOf(b));
        // x / x
        return nOp(Op::DIV, a, b);
    }
    BoolId fcmp(CmpInst::Predicate p, NodeId a, NodeId b) {
        bool unord = CmpInst::isUnordered(p);
        if (p == CmpInst::FCMP_TRUE) return B_TRUE;
        if (p == CmpInst::FCMP_FALSE) return B_FALSE;
        if (a == N_NAN || b == N_NAN) return unord ? B_TRUE : B_FALSE;
        if (p == CmpInst::FCMP_ORD) return B_TRUE;
        if (p == CmpInst::FCMP_UNO) return B_FALSE;
        uint8_t mask;
        switch (p) {
            case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: mask = S_ZERO; break;
            case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: mask = S_POS; break;
            case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: mask = S_POS | S_ZERO; break;
            case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: mask = S_NEG; break;
            case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: mask = S_NEG | S_ZERO; break;
            case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: mask = S_NEG | S_POS; break;
            default: throw Unsupported{"fcmp"};
        }
        if (nSpecial(a) || nSpecial(b)) {
            int va = a == N_PINF ? 1 : a == N_NINF ? -1 : 0, vb = b == N_PINF ? 1 : b == N_NINF ? -1 : 0;
            int d = va - vb;
            return (mask & (d < 0 ? S_NEG : d == 0 ? S_ZERO : S_POS)) ? B_TRUE : B_FALSE;
        }
        if (a == b) return (mask & S_ZERO) ? B_TRUE : B_FALSE;
        return signBool(S->pc, nform(nOp(Op::SUB, a, b)), mask);
    }
    NodeId fabs_(NodeId a) {
        if (a == N_NAN) return a;
        if (nSpecial(a)) return N_PINF;
        const RF &r = nform(a);
        uint8_t s = quickSign(S->pc, r);
        if (!(s & S_NEG)) return a;
        if (!(s & S_POS)) return fneg(a);
        return nVar(opaqueAbs(r));
    }
    // rounding to single precision
    NodeId f32(NodeId a) {
        if (nSpecial(a)) return a;
        const RF &r = nform(a);
        if (r.num.isConst() && r.den.empty()) {
            mpq_class c = r.num.constVal();
            float f = (float)c.get_d();
            if (std::isinf(f)) return f > 0 ? N_PINF : N_NINF;
            return nConst(mpq_class((double)f));
        }
        if (r.den.empty() && integral(r)) {
            Itv t = quickItv(S->pc, r);
            if (t.hasLo && t.hasHi && t.lo >= -16777216 && t.hi <= 16777216) return a;
        }
        if (r.den.empty() && r.num.t.size() == 1 && r.num.t[0].c == 1 && r.num.t[0].m->e.size() == 1 && r.num.t[0].m->e[0].second == 1 && gVars[r.num.t[0].m->e[0].first].kind == VK::F32) return a;
        gSingle = true;
        return nVar(opaqueRound(r, VK::F32));
    }
    static bool isIntVar(VarId v) { VK k = gVars[v].kind; return k == VK::INT || k == VK::TRUNC || k == VK::FLOOR; }
    bool integral(const RF &q) {
        if (!q.den.empty()) return false;
        for (auto &t : q.num.t) {
            if (t.c.get_den() != 1) return false;
            for (auto &e : t.m->e) if (!isIntVar(e.first)) return false;
        }
        return true;
    }
    // the integer a real is rounded to: 't'owards zero, 'f'loor, 'c'eiling, 'r'ound half away
    NodeId rounded(NodeId a, char how) {
        if (nSpecial(a)) return a;
        const RF &r = nform(a);
        if (r.num.isConst() && r.den.empty()) {
            mpq_class c = r.num.constVal();
            mpz_class z;
            if (how == 't') mpz_tdiv_q(z.get_mpz_t(), c.get_num_mpz_t(), c.get_den_mpz_t());
            else if (how == 'f') mpz_fdiv_q(z.get_mpz_t(), c.get_num_mpz_t(), c.get_den_mpz_t());
            else if (how == 'c') mpz_cdiv_q(z.get_mpz_t(), c.get_num_mpz_t(), c.get_den_mpz_t());
            else {
                mpq_class h = abs(c) + mpq_class(1, 2);
                mpz_fdiv_q(z.get_mpz_t(), h.get_num_mpz_t(), h.get_den_mpz_t());
                if (c < 0) z = -z;
            }
            return nConst(mpq_class(z));
        }
        if (integral(r)) return a;
        if (how == 't') return nVar(opaqueRound(r, VK::TRUNC));
        if (how == 'f') return nVar(opaqueRound(r, VK::FLOOR));
        if (how == 'c') return fneg(nVar(opaqueRound(rNeg(r), VK::FLOOR)));
        RF h = rConst(mpq_class(1, 2));
        if (signOf(a) >= 0) return nVar(opaqueRound(rAdd(r, h), VK::FLOOR));
        return fneg(nVar(opaqueRound(rAdd(rNeg(r), h), VK::FLOOR)));
    }
    NodeId fmodulo(NodeId x, NodeId y, bool truncate) {
        if (x == N_NAN || y == N_NAN || nSpecial(x)) return N_NAN;
        if (nSpecial(y)) return x;
        mpq_class c, d;
        if (nIsConst(x, c) && nIsConst(y, d)) return fpConst(APFloat(truncate ? std::fmod(c.get_d(), d.get_d()) : std::remainder(c.get_d(), d.get_d())), false);
        if (signOf(y) == 0) return N_NAN;
        return fadd(x, fmul(rounded(fdiv(x, y), truncate ? 't' : 'r'), y), true);
    }
    NodeId fmax_(NodeId a, NodeId b, bool isMin) {
        if (a == N_NAN) return b;
        if (b == N_NAN) return a;
        if (a == N_PINF || b == N_PINF) return isMin ? (a == N_PINF ? b : a) : N_PINF;
        if (a == N_NINF || b == N_NINF) return isMin ? N_NINF : (a == N_NINF ? b : a);
        if (a == b) return a;
        RF d = nform(nOp(Op::SUB, a, b));
        uint8_t s = quickSign(S->pc, d);
        if (!(s & S_NEG)) return isMin ? b : a;
        if (!(s & S_POS)) return isMin ? a : b;
        return nVar(opaqueMax(nform(a), nform(b), isMin));
    }
    NodeId fsel(BoolId c, NodeId a, NodeId b) {
        if (a == b) return a;
        uint8_t q = quickBool(S->pc, c);
        if (q == 2) return a;
        if (q == 1) return b;
        if (nSpecial(a) || nSpecial(b)) return decide(c) ? a : b;
        const RF &ra = nform(a), &rb = nform(b);
        if (rEq(ra, rb)) return a;
        const BNode bn = bnode(c);
        if (bn.k == BK::ATOM) {
            // p > 0 ? p : -p and the like
            RF p; p.num = facPoly(bn.poly);
            bool negPair = rAdd(ra, rb).num.zero();
            if (negPair && ra.den.empty()) {
                mpq_class f;
                Poly prim;
                f = pPrimitive(ra.num, prim);
                if (pEq(prim, p.num)) {
                    uint8_t m = bn.mask | S_ZERO;
                    bool aWhenPos = (m == (S_POS | S_ZERO)), aWhenNeg = (m == (S_NEG | S_ZERO));
                    if (aWhenPos || aWhenNeg) {
                        bool isAbs = (aWhenPos) == (f > 0);
                        NodeId v = nVar(opaqueAbs(ra));
                        return isAbs ? v : fneg(v);
                    }
                }
            }
            // a > b ? a : b and the like
            RF d = rSub(ra, rb);
            if (d.den.empty()) {
                Poly prim;
                mpq_class f = pPrimitive(d.num, prim);
                if (pEq(prim, p.num)) {
                    uint8_t m = bn.mask | S_ZERO;
                    bool aWhenPos = (m == (S_POS | S_ZERO)), aWhenNeg = (m == (S_NEG | S_ZERO));
                    if (aWhenPos || aWhenNeg) {
                        bool isMax = aWhenPos == (f > 0);
                        return nVar(opaqueMax(ra, rb, !isMax));
                    }
                }
            }
        }
        return nVar(opaqueIte(c, ra, rb));
    }
    NodeId fsqrt(NodeId a) {
        if (a == N_NAN || a == N_NINF) return N_NAN;
        if (a == N_PINF) return a;
        const RF &r = nform(a);
        if (r.num.isConst() && r.den.empty()) {
            mpq_class c = r.num.constVal();
            if (c < 0) return N_NAN;
            if (mpz_perfect_square_p(c.get_num_mpz_t()) && mpz_perfect_square_p(c.get_den_mpz_t())) {
                mpz_class n, d;
                mpz_sqrt(n.get_mpz_t(), c.get_num_mpz_t());
                mpz_sqrt(d.get_mpz_t(), c.get_den_mpz_t());
                return nConst(mpq_class(n, d));
            }
        }
        // sums of squares are never negative
        bool sos = r.den.empty();
        if (sos)
            for (auto &t : r.num.t) {
                if (t.c < 0) sos = false;
                for (auto &e : t.m->e) if (e.second & 1) sos = false;
            }
        if (!sos && decide(signBool(S->pc, r, S_NEG))) return N_NAN;
        return nVar(opaqueSqrt(r));
    }
    // a function of the mathematical library: exact facts where there are some, an
    // uninterpreted value with its elementary bounds otherwise
    NodeId mathFn(FnId f, NodeId x, NodeId y) {
        bool two = f == FnId::ATAN2 || f == FnId::POW;
        if (x == N_NAN || (two && y == N_NAN)) return N_NAN;
        mpq_class c, d = 0;
        bool special = nSpecial(x) || (two && nSpecial(y));
        if (special || (nIsConst(x, c) && (!two || nIsConst(y, d)))) {
            auto num = [&](NodeId n) { mpq_class q; return n == N_PINF ? INFINITY : n == N_NINF ? -INFINITY : nIsConst(n, q) ? q.get_d() : NAN; };
            double u = num(x), w = two ? num(y) : 0;
            if (std::isnan(u) || std::isnan(w)) throw Unsupported{"mathematical function of an infinity and a symbolic value"};
            return fpConst(APFloat(evalFn(f, u, w)), false);
        }
        RF one = rConst(1);
        switch (f) {
            case FnId::LOG: case FnId::LOG2: case FnId::LOG10: {
                int s = signOf(x);
                if (s <= 0) return s == 0 ? N_NINF : N_NAN;
                break;
            }
            case FnId::ACOS: case FnId::ASIN:
                if (decide(signBool(S->pc, rSub(nform(x), one), S_POS)) || decide(signBool(S->pc, rAdd(nform(x), one), S_NEG))) return N_NAN;
                break;
            case FnId::POW: {
                int s = signOf(x);
                if (s < 0) {
                    if (!nIsConst(y, d) || d.get_den() == 1) throw Unsupported{"pow of a negative value"};
                    return N_NAN;
                }
                if (s == 0) { int q = signOf(y); return q == 0 ? nConst(1) : q > 0 ? nConst(0) : N_PINF; }
                break;
            }
            case FnId::ATAN2: {
                int s = signOf(x);
                if (s == 0) return signOf(y) >= 0 ? nConst(0) : fpConst(APFloat(std::atan2(0.0, -1.0)), false);
                break;
            }
            default: break;
        }
        return nVar(opaqueFn(f, nform(x), two ? nform(y) : rConst(0)));
    }
    NodeId ftrig(NodeId a, bool sin) {
        if (nSpecial(a)) return N_NAN;
        const RF &r = nform(a);
        if (r.num.zero()) return nConst(sin ? 0 : 1);
        if (r.den.empty() && r.num.t.size() == 1 && abs(r.num.t[0].c) == 1 && r.num.t[0].m->deg == 1) {
            VarId f = r.num.t[0].m->e[0].first;
            if (gVars[f].kind == VK::FN && (gVars[f].fn == FnId::ATAN2 || gVars[f].fn == FnId::ATAN)) {
                RF y = gVars[f].a, x = gVars[f].fn == FnId::ATAN ? rConst(1) : gVars[f].b;
                NodeId l = fsqrt(nRF(rAdd(rMul(x, x), rMul(y, y))));
                NodeId q = fdiv(nRF(sin ? y : x), l);
                return sin && r.num.t[0].c < 0 ? fneg(q) : q;
            }
        }
        // inputs named turn* are angles the harness adds to others: sum formulas
        for (auto &t : r.num.t)
            for (auto &e : t.m->e) {
                const VarInfo &i = gVars[e.first];
                if (i.kind != VK::INPUT || i.name.compare(0, 4, "turn") || (r.den.empty() && r.num.t.size() == 1)) continue;
                for (int sg = 0; sg < 2; ++sg) {
                    RF b = sg ? rNeg(rVar(e.first)) : rVar(e.first), rest = rSub(r, b);
                    bool gone = true;
                    for (auto &u : rest.num.t) for (auto &g : u.m->e) if (g.first == e.first) gone = false;
                    if (!gone) continue;
                    NodeId x = nRF(rest), y = nRF(b);
                    NodeId cx = ftrig(x, false), sx = ftrig(x, true), cy = ftrig(y, false), sy = ftrig(y, true);
                    return sin ? fadd(fmul(sx, cy), fmul(cx, sy), false) : fadd(fmul(cx, cy), fmul(sx, sy), true);
                }
            }
        bool neg;
        VarId v = opaqueTrig(r, sin, neg);
        return neg ? fneg(nVar(v)) : nVar(v);
    }

    // -------------------------------------------------------- assertions
    void assertEq(const Val &a, const Val &b, const string &id) {
        reached[id]++;
        if (a.k == K::UNINIT || b.k == K::UNINIT) fail("uninit", id, "an asserted value is uninitialised");
        NodeId x = fpv(a), y = fpv(b);
        S->obs.push_back({id, x, y});
        if (nSpecial(x) || nSpecial(y)) {
            if (x == y) return;
            Violation v;
            v.kind = "assert"; v.id = id; v.where = where();
            v.detail = nStr(x) + " != " + nStr(y);
            addPoints(v, B_TRUE, nullptr);
            record(v);
            throw PathEnd{"violation"};
        }
        obligations[id]++;
        gStats.assertQueries++;
        if (x == y) {
            // the two normal forms are the same term
            gStats.assertUnsat++;
            return;
        }
        RF d;
        try {
            d = rSub(nform(x), nform(y));
        } catch (TooBig &) {
            problems.push_back("undecided: " + id + " (normal form too large)");
            return;
        }
        bool zero = d.num.zero();
        Model m;
        Res r = Res::UNKNOWN;
        if (zero) {
            Poly l = nform(x).num;
            if (l.t.size() < 4000) r = solveNeq(S->pc, nform(x), nform(y), gAssertTimeoutMs, nullptr);
            else r = Res::UNSAT;
            if (r != Res::UNSAT) { notes.insert("solver did not confirm normalised identity " + id); r = Res::UNSAT; }
            gStats.assertUnsat++;
            return;
        }
        BoolId ne = bAtom(d.num, S_NEG | S_POS);
        uint8_t q = quickBool(S->pc, ne);
        auto differs = [&](const Point &p) {
            double u = evalNode(p, x), w = evalNode(p, y);
            if (!std::isfinite(u) || !std::isfinite(w)) return false;
            return std::fabs(u - w) > (gSingle ? 2e-8 * std::max(1e-3, std::max(std::fabs(u), std::fabs(w))) : 1e-5 * (1 + std::fabs(u) + std::fabs(w)));
        };
        if (q == 1) { gStats.assertUnsat++; return; }
        Violation v;
        v.kind = "assert"; v.id = id; v.where = where();
        v.detail = "left " + nStr(x) + " ; right " + nStr(y);
        // the solver's verdict first
        r = solve(S->pc, ne, gAssertTimeoutMs, &m);
        if (r == Res::UNSAT) { gStats.assertUnsat++; return; }
        about = &d;
        addPoints(v, ne, differs, [&](const Point &p) {
            double u = evalNode(p, x), w = evalNode(p, y);
            if (!std::isfinite(u) || !std::isfinite(w)) return -1.0;
            return std::fabs(u - w) / std::max(1e-3, std::max(std::fabs(u), std::fabs(w)));
        });
        about = nullptr;
        if (v.refuted) { gStats.assertUnsat++; return; }
        if (r == Res::SAT) {
            v.solverSat = true;
            v.points.push_back(named(pointFromModel(S->pc, m)));
        } else if (v.points.empty()) {
            v.undecided = true;
        }
        record(v);
        throw PathEnd{"violation"};
    }
    void assertBool(const Val &c, const string &id, NodeId x = 0, NodeId y = 0) {  // (x is to be below y)
        reached[id]++;
        if (c.k == K::UNINIT) fail("uninit", id, "an asserted condition is uninitialised");
        if (c.k == K::INT) {
            if (c.i & 1) { obligations[id]++; gStats.assertQueries++; gStats.assertUnsat++; return; }
            Violation v;
            v.kind = "assert"; v.id = id; v.where = where();
            v.detail = "condition false on this path";
            addPoints(v, B_TRUE, nullptr);
            record(v);
            throw PathEnd{"violation"};
        }
        BoolId b = c.n;
        obligations[id]++;
        gStats.assertQueries++;
        uint8_t q = quickBool(S->pc, b);
        if (q == 2) { gStats.assertUnsat++; return; }
        BoolId nb = bNot(b);
        Model m;
        Res r = solve(S->pc, nb, gAssertTimeoutMs, &m);
        if (r == Res::UNSAT) {
            gStats.assertUnsat++;
            pcAdd(S->pc, b);
            return;
        }
        Violation v;
        v.kind = "assert"; v.id = id; v.where = where();
        v.detail = "violated when " + bStr(nb);
        if (x != y) {
            RF d;
            if (!nSpecial(x) && !nSpecial(y)) try { d = rSub(nform(x), nform(y)); about = &d; } catch (TooBig &) { about = nullptr; }
            addPoints(v, nb, nullptr, [&](const Point &p) {
                double u = evalNode(p, x), w = evalNode(p, y);
                return std::isfinite(u) && std::isfinite(w) ? (u - w) / std::max(1e-3, std::max(std::fabs(u), std::fabs(w))) : -1.0;
            });
            about = nullptr;
        } else addPoints(v, nb, nullptr);
        if (v.refuted) {
            gStats.assertUnsat++;
            pcAdd(S->pc, b);
            return;
        }
        if (r == Res::SAT) {
            v.solverSat = true;
            v.points.push_back(named(pointFromModel(S->pc, m)));
        } else if (v.points.empty()) v.undecided = true;
        record(v);
        throw PathEnd{"violation"};
    }
    void assume(const Val &c) {
        if (c.k == K::UNINIT) fail("uninit", "assume", "assumption on an uninitialised value");
        if (c.k == K::INT) {
            if (!(c.i & 1)) throw PathEnd{"infeasible"};
            return;
        }
        uint8_t q = quickBool(S->pc, c.n);
        if (q == 2) return;
        if (q == 1) throw PathEnd{"infeasible"};
        Point p;
        if (!feasible(c.n, p)) throw PathEnd{"infeasible"};
        pcAdd(S->pc, c.n);
    }

    // ------------------------------------------------------------- calls
    Val loc(Frame &f, const std::pair<int, Val> &o) { return o.first >= 0 ? f.loc[o.first] : o.second; }

    void pushCall(Function *F, vector<Val> &args, int retSlot) {
        PFunc *p = prep(F);
        if (S->fr.size() > 400) fail("abort", "recursion", "call depth exceeds 400");
        Frame f;
        f.f = p;
        f.loc.resize(p->nslots);
        for (size_t i = 0; i < args.size() && i < F->arg_size(); ++i) f.loc[i] = args[i];
        f.retSlot = retSlot;
        p->executed++;
        S->fr.push_back(std::move(f));
    }
    Val symReal(const string &name) { return mkFP(nVar(newInput(name, false, 0, 0))); }

    // writing to a stream: no effect on the values of the program
    std::map<Function *, bool> outputs;
    bool isOutput(Function *F) {
        auto it = outputs.find(F);
        if (it != outputs.end()) return it->second;
        StringRef n = F->getName();
        bool o = n.starts_with("_ZNSolsE") || n.starts_with("_ZStlsI") || n.starts_with("_ZSt4endlI") || n.starts_with("_ZNSo5flush") || n.starts_with("_ZNSo3put") || n.starts_with("_ZNSo9_M_insert") || n.starts_with("_ZSt16__ostream_insert") || n.starts_with("_ZNSo5write");
        return outputs[F] = o;
    }
    Val toInt(NodeId n, unsigned bits) {
        if (nSpecial(n)) throw Unsupported{"conversion of a non-finite value to an integer"};
        const RF &q = nform(n);
        if (q.num.isConst() && q.den.empty()) return mkInt((uint64_t)q.num.constVal().get_num().get_si(), bits);
        return mkSym(n, bits);
    }
    // the class described by a typeinfo object, and its (only) base
    GlobalVariable *globalAt(uint64_t a) {
        for (auto &kv : gaddr) if (kv.second == a) if (auto *g = dyn_cast<GlobalVariable>(kv.first)) return const_cast<GlobalVariable *>(g);
        return nullptr;
    }
    bool derives(GlobalVariable *from, GlobalVariable *to, int depth = 0) {
        if (from == to || from->getName() == to->getName()) return true;
        if (depth > 20 || !from->hasInitializer()) return false;
        auto *st = dyn_cast<ConstantStruct>(from->getInitializer());
        if (!st) return false;
        for (unsigned k = 2; k < st->getNumOperands(); ++k)
            if (auto *b = dyn_cast<GlobalVariable>(st->getOperand(k)->stripPointerCasts()))
                if (derives(b, to, depth + 1)) return true;
        return false;
    }

    // returns true when handled; result in r
    bool external(Function *F, CallBase *CB, vector<Val> &a, Val &r) {
        StringRef n = F->getName();
        (void)n;
        bool single = F->getReturnType()->isFloatTy();
        bool ok = external1(F, CB, a, r);
        if (ok && single && r.k == K::FP) r = mkFP(f32(r.n));
        return ok;
    }
    bool external1(Function *F, CallBase *CB, vector<Val> &a, Val &r) {
        StringRef n = F->getName();
        if (F->isIntrinsic()) {
            switch (F->getIntrinsicID()) {
                case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: case Intrinsic::bswap: {
                    unsigned b = F->getReturnType()->getIntegerBitWidth();
                    APInt x(b, concInt(a[0]));
                    auto id = F->getIntrinsicID();
                    r = mkInt(id == Intrinsic::ctlz ? x.countl_zero() : id == Intrinsic::cttz ? x.countr_zero() : id == Intrinsic::ctpop ? x.popcount() : x.byteSwap().getZExtValue(), b);
                    return true;
                }
                case Intrinsic::fshl: case Intrinsic::fshr: {
                    unsigned b = F->getReturnType()->getIntegerBitWidth();
                    APInt x(b, concInt(a[0])), y(b, concInt(a[1]));
                    unsigned k = concInt(a[2]) % b;
                    bool l = F->getIntrinsicID() == Intrinsic::fshl;
                    APInt w = l ? (k ? x.shl(k) | y.lshr(b - k) : x) : (k ? x.shl(b - k) | y.lshr(k) : y);
                    r = mkInt(w.getZExtValue(), b);
                    return true;
                }
                case Intrinsic::threadlocal_address: r = a[0]; return true;
                case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint:
                case Intrinsic::lround: case Intrinsic::llround: {
                    if (a[0].k == K::UNINIT) { r = Val(); return true; }
                    auto id = F->getIntrinsicID();
                    char how = id == Intrinsic::floor ? 'f' : id == Intrinsic::ceil ? 'c' : id == Intrinsic::trunc ? 't' : 'r';
                    if (id == Intrinsic::rint || id == Intrinsic::nearbyint) {
                        mpq_class c;
                        if (!nSpecial(fpv(a[0])) && !nIsConst(fpv(a[0]), c)) throw Unsupported{"rint of a symbolic value"};
                        if (nIsConst(fpv(a[0]), c)) { r = mkFP(nConst(mpq_class(std::nearbyint(c.get_d())))); return true; }
                    }
                    NodeId x = rounded(fpv(a[0]), how);
                    r = F->getReturnType()->isIntegerTy() ? toInt(x, F->getReturnType()->getIntegerBitWidth()) : mkFP(x);
                    return true;
                }
                case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
                case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
                case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch:
                case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::stacksave: case Intrinsic::stackrestore:
                    if (!F->getReturnType()->isVoidTy()) r = mkInt(0, 64);
                    return true;
                case Intrinsic::expect: case Intrinsic::expect_with_probability: r = a[0]; return true;
                case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: fail("abort", "trap", "trap executed");
                case Intrinsic::cos: case Intrinsic::sin:
                    if (a[0].k == K::UNINIT) { r = Val(); return true; }
                    r = mkFP(ftrig(fpv(a[0]), F->getIntrinsicID() == Intrinsic::sin));
                    return true;
                case Intrinsic::sqrt: if (a[0].k == K::UNINIT) { r = Val(); return true; } r = mkFP(fsqrt(fpv(a[0]))); return true;
                case Intrinsic::fabs: if (a[0].k == K::UNINIT) { r = Val(); return true; } r = mkFP(fabs_(fpv(a[0]))); return true;
                case Intrinsic::maxnum: case Intrinsic::minnum:
                    if (a[0].k == K::UNINIT || a[1].k == K::UNINIT) { r = Val(); return true; }
                    r = mkFP(fmax_(fpv(a[0]), fpv(a[1]), F->getIntrinsicID() == Intrinsic::minnum));
                    return true;
                case Intrinsic::fmuladd: case Intrinsic::fma:
                    r = mkFP(fadd(fmul(fpv(a[0]), fpv(a[1])), fpv(a[2]), false));
                    return true;
                case Intrinsic::copysign: {
                    NodeId x = fabs_(fpv(a[0]));
                    NodeId y = fpv(a[1]);
                    if (y == N_NAN) throw Unsupported{"copysign of NaN"};
                    int s = y == N_PINF ? 1 : y == N_NINF ? -1 : signOf(y);
                    r = mkFP(s < 0 ? fneg(x) : x);
                    return true;
                }
                case Intrinsic::pow: case Intrinsic::powi: {
                    NodeId x = fpv(a[0]);
                    mpq_class c;
                    long e;
                    if (F->getIntrinsicID() == Intrinsic::powi) e = (long)sx(concInt(a[1]), 32);
                    else {
                        if (!nIsConst(fpv(a[1]), c)) throw Unsupported{"pow with symbolic exponent"};
                        if (c == mpq_class(1, 2)) { r = mkFP(fsqrt(x)); return true; }
                        if (c.get_den() != 1 || abs(c) > 16) throw Unsupported{"pow exponent"};
                        e = c.get_num().get_si();
                    }
                    NodeId p = nConst(1);
                    for (long k = 0; k < std::labs(e); ++k) p = fmul(p, x);
                    r = mkFP(e < 0 ? fdiv(nConst(1), p) : p);
                    return true;
                }
                case Intrinsic::is_fpclass: {
                    uint64_t m = concInt(a[1]);
                    if (a[0].k == K::UNINIT) fail("uninit", "classify", "classification of an uninitialised value");
                    NodeId x = fpv(a[0]);
                    if (x == N_NAN) r = mkInt((m & 3) != 0, 1);
                    else if (x == N_PINF) r = mkInt((m >> 9) & 1, 1);
                    else if (x == N_NINF) r = mkInt((m >> 2) & 1, 1);
                    else {
                        bool nz = (m >> 3) & 1, pz = (m >> 8) & 1;
                        (void)nz; (void)pz;
                        uint64_t fin = m & 0x1F8;
                        if (fin == 0x1F8) r = mkInt(1, 1);
                        else if (fin == 0) r = mkInt(0, 1);
                        else {
                            uint8_t mask = 0;
                            if (m & (1 << 3)) mask |= S_NEG;
                            if (m & (3 << 5)) mask |= S_ZERO;
                            if (m & (1 << 8)) mask |= S_POS;
                            r = mkBool(signBool(S->pc, nform(x), mask));
                        }
                    }
                    return true;
                }
                case Intrinsic::memset: case Intrinsic::memset_inline: {
                    uint64_t d = concInt(a[0]), c = concInt(a[1]) & 0xFF, len = concInt(a[2]);
                    if (len > (1ULL << 30)) fail("memory", "huge-memset", "memset of " + std::to_string(len) + " bytes");
                    if (len) {
                        ObjP &op = findObj(d, len, true);
                        Obj &o = writable(op);
                        uint64_t off = d - o.base;
                        killCells(o, off, len);
                        memset(&o.b[off], (int)c, len);
                        memset(&o.sh[off], 1, len);
                    }
                    return true;
                }
                case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
                    uint64_t d = concInt(a[0]), s = concInt(a[1]), len = concInt(a[2]);
                    if (len > (1ULL << 30)) fail("memory", "huge-memcpy", "memcpy of " + std::to_string(len) + " bytes");
                    copyMem(d, s, len);
                    return true;
                }
                case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::smul_with_overflow:
                case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: {
                    unsigned b = a[0].bits ? a[0].bits : 64;
                    uint64_t x = concInt(a[0]), y = concInt(a[1]);
                    b = F->getFunctionType()->getParamType(0)->getIntegerBitWidth();
                    __int128 w;
                    bool sg = F->getIntrinsicID() == Intrinsic::smul_with_overflow || F->getIntrinsicID() == Intrinsic::sadd_with_overflow ||
                              F->getIntrinsicID() == Intrinsic::ssub_with_overflow;
                    __int128 X = sg ? (__int128)sx(x, b) : (__int128)x, Y = sg ? (__int128)sx(y, b) : (__int128)y;
                    bool ov;
                    switch (F->getIntrinsicID()) {
                        case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow:
                            if (!sg) {
                                unsigned __int128 u = (unsigned __int128)x * y;
                                ov = b == 64 ? (u >> 64) != 0 : (u >> b) != 0;
                                w = (__int128)u;
                            } else { w = X * Y; ov = w != (__int128)sx((uint64_t)w, b); }
                            break;
                        case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow:
                            w = X + Y;
                            ov = sg ? w != (__int128)sx((uint64_t)w, b) : (w >> b) != 0;
                            break;
                        default:
                            w = X - Y;
                            ov = sg ? w != (__int128)sx((uint64_t)w, b) : w < 0;
                    }
                    r.k = K::AGG;
                    r.agg = std::make_shared<vector<Val>>();
                    r.agg->push_back(mkInt((uint64_t)w, b));
                    r.agg->push_back(mkInt(ov, 1));
                    return true;
                }
                case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::abs: {
                    unsigned b = F->getReturnType()->getIntegerBitWidth();
                    uint64_t x = concInt(a[0]);
                    if (F->getIntrinsicID() == Intrinsic::abs && a[0].k == K::SYM) { r = signOf(a[0].n) < 0 ? mkSym(fneg(a[0].n), b) : a[0]; return true; }
                    if (F->getIntrinsicID() == Intrinsic::abs) { int64_t s = sx(x, b); r = mkInt((uint64_t)(s < 0 ? -s : s), b); return true; }
                    uint64_t y = concInt(a[1]);
                    bool lt = (F->getIntrinsicID() == Intrinsic::smax || F->getIntrinsicID() == Intrinsic::smin) ? sx(x, b) < sx(y, b) : x < y;
                    bool mx = F->getIntrinsicID() == Intrinsic::smax || F->getIntrinsicID() == Intrinsic::umax;
                    r = mkInt(lt == mx ? y : x, b);
                    return true;
                }
                case Intrinsic::eh_typeid_for: r = mkInt(0, 32); return true;
                case Intrinsic::objectsize: r = mkInt(~0ULL, F->getReturnType()->getIntegerBitWidth()); return true;
                case Intrinsic::is_constant: r = mkInt(0, 1); return true;
                default: throw Unsupported{"intrinsic " + n.str()};
            }
        }
        // harness interface -------------------------------------------------
        if (n == "v_real" || n == "v_realn" || n == "v_ext") {
            string nm = cstr(concInt(a[0]));
            if (n == "v_realn") nm += "_" + std::to_string((int64_t)sx(concInt(a[1]), 32));
            if (n == "v_ext") {
                // any double value: finite, +inf, -inf or NaN
                int k = chooseN(4);
                VarId sel = newInput(nm + "#class", true, 0, 3);
                S->pc.itv[sel] = Itv();
                Poly p = pSub(pVar(sel), pConst(k));
                pcAdd(S->pc, bAtom(p, S_ZERO));
                VarId v = newInput(nm, false, 0, 0);
                r = k == 0 ? mkFP(nVar(v)) : mkFP(k == 1 ? N_PINF : k == 2 ? N_NINF : N_NAN);
                return true;
            }
            r = symReal(nm);
            return true;
        }
        if (n == "v_int") {
            string nm = cstr(concInt(a[0]));
            long lo = sx(concInt(a[1]), 32), hi = sx(concInt(a[2]), 32);
            if (hi < lo) throw Unsupported{"empty range for " + nm};
            // every occurrence on a path is an input of its own
            int occ = S->nameCount[nm]++;
            nm += "." + std::to_string(occ) + "." + std::to_string(lo) + "." + std::to_string(hi);
            if (lo == hi) { newInput(nm, true, lo, hi); r = mkInt((uint64_t)lo, 32); return true; }
            r = mkSym(nVar(newInput(nm, true, lo, hi)), 32);
            return true;
        }
        if (n == "v_conc") { r = mkInt(concInt(a[0]), 32); return true; }
        if (n == "v_assume") { assume(a[0]); return true; }
        if (n == "v_assert") { assertBool(a[0], cstr(concInt(a[1]))); return true; }
        if (n == "v_eq") { assertEq(a[0], a[1], cstr(concInt(a[2]))); return true; }
        if (n == "v_le" || n == "v_lt") {
            if (a[0].k == K::UNINIT || a[1].k == K::UNINIT) fail("uninit", cstr(concInt(a[2])), "an asserted value is uninitialised");
            BoolId b = fcmp(n == "v_le" ? CmpInst::FCMP_OLE : CmpInst::FCMP_OLT, fpv(a[0]), fpv(a[1]));
            S->obs.push_back({cstr(concInt(a[2])), fpv(a[0]), fpv(a[1])});
            assertBool(mkBool(b), cstr(concInt(a[2])), fpv(a[0]), fpv(a[1]));
            return true;
        }
        if (n == "v_observe") {
            if (a[0].k == K::UNINIT) fail("uninit", cstr(concInt(a[1])), "an observed value is uninitialised");
            S->obs.push_back({cstr(concInt(a[1])), fpv(a[0]), fpv(a[0])});
            reached[cstr(concInt(a[1]))]++;
            return true;
        }
        if (n == "v_deriv") {
            if (a[0].k == K::UNINIT) fail("uninit", "derivative", "derivative of an uninitialised value");
            string nm = cstr(concInt(a[1]));
            VarId v = newInput(nm, false, 0, 0);
            NodeId x = fpv(a[0]);
            if (nSpecial(x)) { r = mkFP(N_NAN); return true; }
            r = mkFP(nRF(rDiff(nform(x), v)));
            return true;
        }
        if (n == "v_isfinite") { r = mkInt(a[0].k == K::FP && !nSpecial(a[0].n), 1); return true; }
        if (n == "v_live") { r = mkInt((uint64_t)S->liveHeap, 32); return true; }
        if (n == "v_allow_abort") { S->allowAbort = concInt(a[0]) != 0; return true; }
        if (n == "v_reach") { reached[cstr(concInt(a[0]))]++; return true; }
        if (n == "v_clock_advance") {
            if (!S->clockInit) { S->clock = nConst(0); S->clockInit = true; }
            NodeId d = a[0].k == K::SYM ? a[0].n : nConst((long)sx(concInt(a[0]), 32));
            S->clock = nRF(rAdd(nform(S->clock), nform(d)));
            return true;
        }
        if (n == "v_poison") {  // forget the contents of a region
            uint64_t d = concInt(a[0]), len = concInt(a[1]);
            if (len) {
                ObjP &op = findObj(d, len, true);
                Obj &o = writable(op);
                killCells(o, d - o.base, len);
                memset(&o.sh[d - o.base], 0, len);
            }
            return true;
        }
        // C++ runtime --------------------------------------------------------
        if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t") {
            uint64_t sz = concInt(a[0]);
            if (sz > (1ULL << 31)) fail("abort", "bad-alloc", "allocation of " + std::to_string(sz) + " bytes");
            OK k = n.starts_with("_Znw") ? OK::NEW : n.starts_with("_Zna") ? OK::NEWARR : OK::MALLOC;
            ObjP o = alloc(sz, k, "heap block (" + curF->pretty.substr(0, 60) + ")");
            S->liveHeap++;
            r = mkInt(o->base, 64);
            return true;
        }
        if (n == "calloc") {
            uint64_t sz = concInt(a[0]) * concInt(a[1]);
            ObjP o = alloc(sz, OK::MALLOC, "heap block", true);
            S->liveHeap++;
            r = mkInt(o->base, 64);
            return true;
        }
        if (n == "_ZdlPv" || n == "_ZdlPvm") { freeObj(concInt(a[0]), OK::NEW); return true; }
        if (n == "_ZdaPv" || n == "_ZdaPvm") { freeObj(concInt(a[0]), OK::NEWARR); return true; }
        if (n == "free") { freeObj(concInt(a[0]), OK::MALLOC); return true; }
        if (n == "memcpy" || n == "memmove") { copyMem(concInt(a[0]), concInt(a[1]), concInt(a[2])); r = a[0]; return true; }
        if (n == "memset") {
            uint64_t d = concInt(a[0]), len = concInt(a[2]);
            if (len) {
                ObjP &op = findObj(d, len, true);
                Obj &o = writable(op);
                uint64_t off = d - o.base;
                killCells(o, off, len);
                memset(&o.b[off], (int)concInt(a[1]), len);
                memset(&o.sh[off], 1, len);
            }
            r = a[0];
            return true;
        }
        if (n == "memcmp") {
            uint64_t x = concInt(a[0]), y = concInt(a[1]), len = concInt(a[2]);
            Type *i8 = Type::getInt8Ty(C);
            int64_t res = 0;
            for (uint64_t i = 0; i < len && !res; ++i) res = (int64_t)concInt(loadFrom(x + i, i8)) - (int64_t)concInt(loadFrom(y + i, i8));
            r = mkInt((uint64_t)res, 32);
            return true;
        }
        if (n == "strlen") { r = mkInt(cstr(concInt(a[0])).size(), 64); return true; }
        if (n == "__assert_fail") {
            if (S->allowAbort) throw PathEnd{"abort-allowed"};
            fail("abort", "assert", "assertion failed: " + cstr(concInt(a[0])));
        }
        if (n == "abort" || n == "_ZSt9terminatev" || n == "exit" || n == "__cxa_pure_virtual") {
            if (S->allowAbort) throw PathEnd{"abort-allowed"};
            fail("abort", n.str(), "the program is aborted");
        }
        if (n == "__cxa_throw" || n.starts_with("_ZSt") && n.contains("__throw_") || n == "__cxa_throw_bad_array_new_length") {
            if (S->allowAbort) throw PathEnd{"abort-allowed"};
            fail("abort", "exception", "an exception is thrown (" + demangle(n.str()) + ")");
        }
        if (n == "__cxa_allocate_exception") { ObjP o = alloc(concInt(a[0]) + 64, OK::MALLOC, "exception"); S->liveHeap++; r = mkInt(o->base, 64); return true; }
        if (n == "_ZNSt6chrono3_V212steady_clockC1Ev") return true;
        if (n == "_ZNSt6chrono3_V212steady_clock3nowEv" || n == "_ZNSt6chrono3_V212system_clock3nowEv") {
            if (!S->clockInit) { S->clock = nConst(0); S->clockInit = true; }
            r = mkSym(nRF(rMul(nform(S->clock), rConst(1000))), 64);
            if (r.k == K::INT) r.bits = 64;
            return true;
        }
        if (n == "__cxa_atexit" || n == "__cxa_guard_acquire" || n == "__cxa_guard_release") {
            if (n == "__cxa_guard_acquire") {
                uint64_t g = concInt(a[0]);
                Type *i8 = Type::getInt8Ty(C);
                Val v = loadFrom(g, i8);
                r = mkInt(concInt(v) == 0, 32);
            } else if (n == "__cxa_guard_release") {
                storeTo(concInt(a[0]), mkInt(1, 8), Type::getInt8Ty(C));
            } else r = mkInt(0, 32);
            return true;
        }
        if (n.starts_with("_ZNSt8ios_base4Init")) return true;
        if (n == "cos" || n == "sin" || n == "sqrt" || n == "fabs" || n == "fmax" || n == "fmin") {
            for (auto &v : a) if (v.k == K::UNINIT) { r = Val(); return true; }
            if (n == "cos" || n == "sin") r = mkFP(ftrig(fpv(a[0]), n == "sin"));
            else if (n == "sqrt") r = mkFP(fsqrt(fpv(a[0])));
            else if (n == "fabs") r = mkFP(fabs_(fpv(a[0])));
            else r = mkFP(fmax_(fpv(a[0]), fpv(a[1]), n == "fmin"));
            return true;
        }
        if (n == "sinf" || n == "cosf" || n == "sqrtf" || n == "fabsf") {
            if (a[0].k == K::UNINIT) { r = Val(); return true; }
            NodeId x = fpv(a[0]);
            r = mkFP(n == "sqrtf" ? fsqrt(x) : n == "fabsf" ? fabs_(x) : ftrig(x, n == "sinf"));
            return true;
        }
        if (n == "fmaxf" || n == "fminf") {
            if (a[0].k == K::UNINIT || a[1].k == K::UNINIT) { r = Val(); return true; }
            r = mkFP(fmax_(fpv(a[0]), fpv(a[1]), n == "fminf"));
            return true;
        }
        if (n == "fdim") {
            NodeId x = fpv(a[0]), y = fpv(a[1]);
            NodeId d = fadd(x, y, true);
            if (d == N_NAN) { r = mkFP(x == y ? nConst(0) : N_NAN); return true; }
            r = mkFP(d == N_PINF ? d : d == N_NINF ? nConst(0) : signOf(d) > 0 ? d : nConst(0));
            return true;
        }
        if (n == "pow") {
            NodeId x = fpv(a[0]);
            mpq_class c;
            if (!nIsConst(fpv(a[1]), c) || c.get_den() != 1 || abs(c) > 16) {
                if (nIsConst(fpv(a[1]), c) && c == mpq_class(1, 2)) { r = mkFP(fsqrt(x)); return true; }
                r = mkFP(mathFn(FnId::POW, x, fpv(a[1])));
                return true;
            }
            long e = c.get_num().get_si();
            NodeId p = nConst(1);
            for (long k = 0; k < std::labs(e); ++k) p = fmul(p, x);
            r = mkFP(e < 0 ? fdiv(nConst(1), p) : p);
            return true;
        }
        if (n == "fmod" || n == "remainder") {
            r = mkFP(fmodulo(fpv(a[0]), fpv(a[1]), n == "fmod"));
            return true;
        }
        if (n == "ldexp") {
            int e = (int)sx(concInt(a[1]), 32);
            r = mkFP(fmul(fpv(a[0]), nConst(mpq_class(std::ldexp(1.0, std::max(-1000, std::min(1000, e)))))));
            return true;
        }
        {
            static const std::map<string, FnId> fns = {{"exp", FnId::EXP}, {"log", FnId::LOG}, {"atan2", FnId::ATAN2}, {"acos", FnId::ACOS}, {"asin", FnId::ASIN}, {"atan", FnId::ATAN},
                {"cbrt", FnId::CBRT}, {"exp2", FnId::EXP2}, {"log2", FnId::LOG2}, {"log10", FnId::LOG10}, {"tanh", FnId::TANH}};
            auto it = fns.find(n.str());
            if (it != fns.end()) {
                r = mkFP(mathFn(it->second, fpv(a[0]), a.size() > 1 ? fpv(a[1]) : nConst(0)));
                return true;
            }
        }
        if (n == "__dynamic_cast") {
            uint64_t obj = concInt(a[0]);
            if (!obj) { r = mkInt(0, 64); return true; }
            uint64_t vp = concInt(loadFrom(obj, Type::getInt64Ty(C)));
            int64_t top = (int64_t)concInt(loadFrom(vp - 16, Type::getInt64Ty(C)));
            GlobalVariable *ti = globalAt(concInt(loadFrom(vp - 8, Type::getInt64Ty(C)))), *dst = globalAt(concInt(a[2]));
            if (!ti || !dst) throw Unsupported{"dynamic_cast"};
            r = mkInt(derives(ti, dst) ? obj + top : 0, 64);
            return true;
        }
        if (n == "realloc") {
            uint64_t old = concInt(a[0]), sz = concInt(a[1]);
            ObjP o = alloc(sz, OK::MALLOC, "heap block");
            S->liveHeap++;
            if (old) {
                uint64_t len = findObj(old, 0, false)->size;
                copyMem(o->base, old, std::min(len, sz));
                freeObj(old, OK::MALLOC);
            }
            r = mkInt(o->base, 64);
            return true;
        }
        if (n == "tan") { NodeId x = fpv(a[0]); r = mkFP(fdiv(ftrig(x, true), ftrig(x, false))); return true; }
        if (n == "hypot") {
            NodeId x = fpv(a[0]), y = fpv(a[1]);
            if (x == N_PINF || x == N_NINF || y == N_PINF || y == N_NINF) r = mkFP(N_PINF);
            else r = mkFP(fsqrt(fadd(fmul(x, x), fmul(y, y), false)));
            return true;
        }
        if (n == "sincos") {
            NodeId x = fpv(a[0]);
            Type *d = Type::getDoubleTy(C);
            storeTo(concInt(a[1]), mkFP(ftrig(x, true)), d);
            storeTo(concInt(a[2]), mkFP(ftrig(x, false)), d);
            return true;
        }
        if (n == "printf" || n == "puts" || n == "fprintf" || n == "putchar") { r = mkInt(0, 32); return true; }
        if (n == "abs" || n == "labs") {
            unsigned b = F->getReturnType()->getIntegerBitWidth();
            if (a[0].k == K::SYM) { r = signOf(a[0].n) < 0 ? mkSym(fneg(a[0].n), b) : a[0]; return true; }
            int64_t s = sx(concInt(a[0]), b);
            r = mkInt((uint64_t)(s < 0 ? -s : s), b);
            return true;
        }
        return false;
    }
    // ----------------------------------------------------------- execution
    Val intBin(unsigned op, const Val &x, const Val &y, unsigned bits) {
        if (x.k == K::UNINIT || y.k == K::UNINIT) return Val();
        if ((x.k == K::BOOL || y.k == K::BOOL) && bits == 1) {
            auto toB = [&](const Val &v) -> BoolId { return v.k == K::BOOL ? v.n : (v.i & 1) ? B_TRUE : B_FALSE; };
            BoolId p = toB(x), q = toB(y);
            switch (op) {
                case Instruction::And: return mkBool(bAnd(p, q));
                case Instruction::Or: return mkBool(bOr(p, q));
                case Instruction::Xor: return mkBool(bOr(bAnd(p, bNot(q)), bAnd(bNot(p), q)));
                default: break;
            }
        }
        if (x.k == K::SYM || y.k == K::SYM) {
            auto nd = [&](const Val &v) -> NodeId { return v.k == K::SYM ? v.n : nConst((long)sx(v.i, bits)); };
            bool okKinds = (x.k == K::SYM || x.k == K::INT) && (y.k == K::SYM || y.k == K::INT);
            if (okKinds) switch (op) {
                case Instruction::Add: return mkSym(nRF(rAdd(nform(nd(x)), nform(nd(y)))), bits);
                case Instruction::Sub: return mkSym(nRF(rSub(nform(nd(x)), nform(nd(y)))), bits);
                case Instruction::Mul: return mkSym(nRF(rMul(nform(nd(x)), nform(nd(y)))), bits);
                case Instruction::Shl:
                    if (y.k == K::INT && y.i < 32) return mkSym(nRF(rMul(nform(nd(x)), rConst(1L << y.i))), bits);
                    break;
                case Instruction::SDiv: case Instruction::UDiv:
                    if (y.k == K::INT && y.i != 0) {
                        // exact division of a multiple
                        const RF &r = nform(nd(x));
                        bool ok = r.den.empty();
                        mpz_class d((long)sx(y.i, bits));
                        for (auto &t : r.num.t) {
                            mpq_class c = t.c / mpq_class(d);
                            if (c.get_den() != 1) ok = false;
                            for (auto &e : t.m->e) if (!isIntVar(e.first)) ok = false;
                        }
                        if (ok) return mkSym(nRF(rMul(r, rConst(mpq_class(1) / mpq_class(d)))), bits);
                    }
                    // fall through: any other quotient
                case Instruction::SRem: case Instruction::URem:
                    if (y.k == K::INT && y.i != 0) {
                        RF r = nform(nd(x));
                        mpz_class d((long)sx(y.i, bits));
                        Itv it = quickItv(S->pc, r);
                        bool sgn = op == Instruction::SDiv || op == Instruction::SRem;
                        if (!sgn && !(it.hasLo && it.lo >= 0 && d > 0)) break;
                        if (it.hasLo && it.hasHi && it.hi - it.lo <= 64) break;
                        NodeId q = rounded(nRF(rMul(r, rConst(mpq_class(1) / mpq_class(d)))), 't');
                        Val v = toInt(q, bits);
                        if (op == Instruction::SDiv || op == Instruction::UDiv) return v;
                        if (v.k == K::SYM || v.k == K::INT) return mkSym(nRF(rSub(r, rMul(nform(nd(v)), rConst(mpq_class(d))))), bits);
                    }
                    break;
                default: break;
            }
        }
        uint64_t a = concInt(x), b = concInt(y);
        int64_t sa = sx(a, bits), sb = sx(b, bits);
        switch (op) {
            case Instruction::Add: return mkInt(a + b, bits);
            case Instruction::Sub: return mkInt(a - b, bits);
            case Instruction::Mul: return mkInt(a * b, bits);
            case Instruction::UDiv: if (!b) fail("abort", "div0", "integer division by zero"); return mkInt(a / b, bits);
            case Instruction::SDiv: if (!b) fail("abort", "div0", "integer division by zero"); return mkInt((uint64_t)(sa / sb), bits);
            case Instruction::URem: if (!b) fail("abort", "div0", "integer division by zero"); return mkInt(a % b, bits);
            case Instruction::SRem: if (!b) fail("abort", "div0", "integer division by zero"); return mkInt((uint64_t)(sa % sb), bits);
            case Instruction::And: return mkInt(a & b, bits);
            case Instruction::Or: return mkInt(a | b, bits);
            case Instruction::Xor: return mkInt(a ^ b, bits);
            case Instruction::Shl: return mkInt(b >= bits ? 0 : a << b, bits);
            case Instruction::LShr: return mkInt(b >= bits ? 0 : a >> b, bits);
            case Instruction::AShr: return mkInt((uint64_t)(sa >> (b >= bits ? bits - 1 : b)), bits);
        }
        throw Unsupported{"integer operation"};
    }
    Val icmp(CmpInst::Predicate p, const Val &x, const Val &y, unsigned bits) {
        if (x.k == K::UNINIT || y.k == K::UNINIT) return Val();
        if (x.k == K::FP && y.k == K::INT && ((p == CmpInst::ICMP_SLT && y.i == 0) || (p == CmpInst::ICMP_SGT && sx(y.i, bits) == -1))) {
            // the sign bit of a floating value
            bool lt = p == CmpInst::ICMP_SLT;
            if (x.n == N_NAN) return mkInt(lt ? 0 : 1, 1);
            if (nSpecial(x.n)) return mkInt((x.n == N_NINF) == lt, 1);
            return mkBool(signBool(S->pc, nform(x.n), lt ? S_NEG : S_POS | S_ZERO));
        }
        if (x.k == K::BOOL || y.k == K::BOOL) {
            if (x.k == K::BOOL && y.k == K::INT) {
                BoolId b = (y.i & 1) ? x.n : bNot(x.n);
                if (p == CmpInst::ICMP_EQ) return mkBool(b);
                if (p == CmpInst::ICMP_NE) return mkBool(bNot(b));
            }
        }
        if ((x.k == K::SYM || y.k == K::SYM) && (x.k == K::SYM || x.k == K::INT) && (y.k == K::SYM || y.k == K::INT)) {
            NodeId a = x.k == K::SYM ? x.n : nConst((long)sx(x.i, bits)), b = y.k == K::SYM ? y.n : nConst((long)sx(y.i, bits));
            bool uns = CmpInst::isUnsigned(p);
            if (uns) {
                Itv ia = quickItv(S->pc, nform(a)), ib = quickItv(S->pc, nform(b));
                if (ia.hasLo && ia.lo >= 0 && ib.hasLo && ib.lo >= 0) uns = false;
            }
            if (!uns) {
                uint8_t m;
                switch (p) {
                    case CmpInst::ICMP_EQ: m = S_ZERO; break;
                    case CmpInst::ICMP_NE: m = S_NEG | S_POS; break;
                    case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: m = S_POS; break;
                    case CmpInst::ICMP_SGE: case CmpInst::ICMP_UGE: m = S_POS | S_ZERO; break;
                    case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: m = S_NEG; break;
                    default: m = S_NEG | S_ZERO; break;
                }
                return mkBool(signBool(S->pc, rSub(nform(a), nform(b)), m));
            }
        }
        uint64_t a = concInt(x), b = concInt(y);
        int64_t sa = sx(a, bits), sb = sx(b, bits);
        bool r = false;
        switch (p) {
            case CmpInst::ICMP_EQ: r = a == b; break;
            case CmpInst::ICMP_NE: r = a != b; break;
            case CmpInst::ICMP_UGT: r = a > b; break;
            case CmpInst::ICMP_UGE: r = a >= b; break;
            case CmpInst::ICMP_ULT: r = a < b; break;
            case CmpInst::ICMP_ULE: r = a <= b; break;
            case CmpInst::ICMP_SGT: r = sa > sb; break;
            case CmpInst::ICMP_SGE: r = sa >= sb; break;
            case CmpInst::ICMP_SLT: r = sa < sb; break;
            case CmpInst::ICMP_SLE: r = sa <= sb; break;
            default: break;
        }
        return mkInt(r, 1);
    }
    void jump(Frame &f, int to) {
        int from = f.bb;
        f.prevbb = from;
        // evaluate phis in parallel
        PBlock &pb = f.f->blocks[to];
        const BasicBlock *fromB = nullptr;
        for (auto &kv : f.f->bidx) if (kv.second == from) { fromB = kv.first; break; }
        vector<std::pair<int, Val>> vals;
        int k = 0;
        for (; k < (int)pb.in.size(); ++k) {
            auto *phi = dyn_cast<PHINode>(pb.in[k].I);
            if (!phi) break;
            int ix = phi->getBasicBlockIndex(fromB);
            vals.push_back({pb.in[k].dst, loc(f, pb.in[k].ops[ix])});
        }
        for (auto &v : vals) f.loc[v.first] = v.second;
        f.bb = to;
        f.pc = k;
    }
    void doReturn(const Val &v) {
        Frame &f = S->fr.back();
        for (uint64_t a : f.allocas) S->mem.erase(a);
        S->fr.pop_back();
        if (S->fr.empty()) throw PathEnd{"ok"};
        Frame &g = S->fr.back();
        PInst &pi = g.f->blocks[g.bb].in[g.pc];
        if (pi.dst >= 0) g.loc[pi.dst] = v;
        if (auto *inv = dyn_cast<InvokeInst>(pi.I)) jump(g, g.f->bidx[inv->getNormalDest()]);
        else g.pc++;
    }
    void step() {
        Frame &f = S->fr.back();
        PInst &pi = f.f->blocks[f.bb].in[f.pc];
        Instruction *I = pi.I;
        curF = f.f;
        S->dcons = 0;
        if (S->decisions.empty()) S->base.reset();
        ++nInstr;
        ++S->steps;
        Val r;
        switch (I->getOpcode()) {
            case Instruction::Ret: {
                Val v;
                if (!pi.ops.empty()) v = loc(f, pi.ops[0]);
                S->decisions.clear();
                doReturn(v);
                return;
            }
            case Instruction::Br: {
                auto *b = cast<BranchInst>(I);
                int to;
                if (b->isUnconditional()) to = f.f->bidx[b->getSuccessor(0)];
                else to = f.f->bidx[b->getSuccessor(truth(loc(f, pi.ops[0])) ? 0 : 1)];
                S->decisions.clear();
                jump(f, to);
                return;
            }
            case Instruction::Switch: {
                auto *sw = cast<SwitchInst>(I);
                uint64_t v = concInt(loc(f, pi.ops[0]));
                BasicBlock *to = sw->getDefaultDest();
                for (auto &c : sw->cases())
                    if (c.getCaseValue()->getZExtValue() == v) to = c.getCaseSuccessor();
                S->decisions.clear();
                jump(f, f.f->bidx[to]);
                return;
            }
            case Instruction::Unreachable: fail("abort", "unreachable", "unreachable code executed");
            case Instruction::Resume: fail("abort", "exception", "exception propagates");
            case Instruction::Alloca: {
                auto *al = cast<AllocaInst>(I);
                uint64_t n = concInt(loc(f, pi.ops[0]));
                ObjP o = alloc(DL->getTypeAllocSize(al->getAllocatedType()) * n, OK::STACK, "local variable of " + f.f->pretty.substr(0, 60));
                f.allocas.push_back(o->base);
                r = mkInt(o->base, 64);
                break;
            }
            case Instruction::Load: {
                uint64_t a = concInt(loc(f, pi.ops[0]));
                r = loadFrom(a, I->getType());
                break;
            }
            case Instruction::Store: {
                Val v = loc(f, pi.ops[0]);
                if (v.k == K::BOOL) v = mkInt(truth(v), 1);
                uint64_t a = concInt(loc(f, pi.ops[1]));
                storeTo(a, v, cast<StoreInst>(I)->getValueOperand()->getType());
                break;
            }
            case Instruction::GetElementPtr: {
                uint64_t a = concInt(loc(f, pi.ops[0]));
                unsigned k = 1;
                for (auto it = gep_type_begin(I), e = gep_type_end(I); it != e; ++it, ++k) {
                    if (StructType *st = it.getStructTypeOrNull()) {
                        a += DL->getStructLayout(st)->getElementOffset(concInt(loc(f, pi.ops[k])));
                    } else {
                        Val iv = loc(f, pi.ops[k]);
                        unsigned bits = I->getOperand(k)->getType()->getIntegerBitWidth();
                        a += (uint64_t)(sx(concInt(iv), bits) * (int64_t)DL->getTypeAllocSize(it.getIndexedType()));
                    }
                }
                r = mkInt(a, 64);
                break;
            }
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
                Val x = loc(f, pi.ops[0]), y = loc(f, pi.ops[1]);
                if (x.k == K::UNINIT || y.k == K::UNINIT) { r = Val(); break; }
                NodeId a = fpv(x), b = fpv(y);
                NodeId o;
                if (I->getOpcode() == Instruction::FAdd) o = fadd(a, b, false);
                else if (I->getOpcode() == Instruction::FSub) o = fadd(a, b, true);
                else if (I->getOpcode() == Instruction::FMul) o = fmul(a, b);
                else if (I->getOpcode() == Instruction::FRem) o = fmodulo(a, b, true);
                else o = fdiv(a, b);
                if (I->getType()->isFloatTy()) o = f32(o);
                r = mkFP(o);
                break;
            }
            case Instruction::FNeg: {
                Val x = loc(f, pi.ops[0]);
                if (x.k == K::UNINIT) break;
                r = mkFP(fneg(fpv(x)));
                break;
            }
            case Instruction::FCmp: {
                Val x = loc(f, pi.ops[0]), y = loc(f, pi.ops[1]);
                if (x.k == K::UNINIT || y.k == K::UNINIT) { r = Val(); break; }
                r = mkBool(fcmp(cast<FCmpInst>(I)->getPredicate(), fpv(x), fpv(y)));
                break;
            }
            case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::Freeze: case Instruction::BitCast: case Instruction::PtrToInt:
            case Instruction::IntToPtr: {
                r = loc(f, pi.ops[0]);
                if (I->getOpcode() == Instruction::BitCast && r.k == K::INT && I->getType()->isDoubleTy()) {
                    double d; memcpy(&d, &r.i, 8);
                    r = mkFP(fpConst(APFloat(d), false));
                }
                if (I->getOpcode() == Instruction::FPTrunc && I->getType()->isFloatTy() && r.k == K::FP) r = mkFP(f32(r.n));
                if (r.k == K::INT) r.bits = I->getType()->isPointerTy() ? 64 : I->getType()->isIntegerTy() ? I->getType()->getIntegerBitWidth() : r.bits;
                break;
            }
            case Instruction::SIToFP: case Instruction::UIToFP: {
                Val x = loc(f, pi.ops[0]);
                if (x.k == K::UNINIT) break;
                unsigned bits = I->getOperand(0)->getType()->getIntegerBitWidth();
                if (x.k == K::SYM) r = mkFP(x.n);
                else {
                    uint64_t v = concInt(x);
                    if (I->getOpcode() == Instruction::SIToFP) r = mkFP(nConst((long)sx(v, bits)));
                    else { mpz_class z; mpz_import(z.get_mpz_t(), 1, -1, 8, 0, 0, &v); r = mkFP(nConst(mpq_class(z))); }
                }
                break;
            }
            case Instruction::FPToSI: case Instruction::FPToUI: {
                Val x = loc(f, pi.ops[0]);
                if (x.k == K::UNINIT) break;
                r = toInt(rounded(fpv(x), 't'), I->getType()->getIntegerBitWidth());
                break;
            }
            case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
                Val x = loc(f, pi.ops[0]);
                unsigned from = I->getOperand(0)->getType()->getIntegerBitWidth(), to = I->getType()->getIntegerBitWidth();
                if (x.k == K::UNINIT) break;
                if (x.k == K::FP && from == 64 && to < 64) throw Unsupported{"truncation of a floating value"};
                if (x.k == K::BOOL) x = mkInt(truth(x), 1);
                if (x.k == K::SYM) {
                    // inputs are declared with ranges; only keep the symbolic form if no wrap is possible
                    Itv it = quickItv(S->pc, nform(x.n));
                    unsigned w = std::min(from, to);
                    mpz_class lim = mpz_class(1) << (w - 1);
                    bool neg0 = I->getOpcode() == Instruction::ZExt;
                    if (it.hasLo && it.hasHi && it.hi < lim && it.lo >= (neg0 ? mpz_class(0) : mpz_class(-lim))) { r = mkSym(x.n, to); break; }
                    x = mkInt(concSym(x), from);
                }
                uint64_t v = concInt(x);
                if (I->getOpcode() == Instruction::SExt) r = mkInt((uint64_t)sx(v, from), to);
                else r = mkInt(v, to);
                break;
            }
            case Instruction::ICmp: {
                Type *t = I->getOperand(0)->getType();
                r = icmp(cast<ICmpInst>(I)->getPredicate(), loc(f, pi.ops[0]), loc(f, pi.ops[1]), t->isPointerTy() ? 64 : t->getIntegerBitWidth());
                break;
            }
            case Instruction::Select: {
                Val c = loc(f, pi.ops[0]), x = loc(f, pi.ops[1]), y = loc(f, pi.ops[2]);
                if (c.k == K::UNINIT) { r = Val(); break; }
                if (c.k == K::INT) { r = (c.i & 1) ? x : y; break; }
                if (x.k == K::FP && y.k == K::FP) { r = mkFP(fsel(c.n, x.n, y.n)); break; }
                bool bx = x.k == K::BOOL || (x.k == K::INT && x.bits == 1), by = y.k == K::BOOL || (y.k == K::INT && y.bits == 1);
                if (bx && by && I->getType()->isIntegerTy(1)) {
                    auto toB = [&](const Val &v) -> BoolId { return v.k == K::BOOL ? v.n : (v.i & 1) ? B_TRUE : B_FALSE; };
                    r = mkBool(bOr(bAnd(c.n, toB(x)), bAnd(bNot(c.n), toB(y))));
                    break;
                }
                r = truth(c) ? x : y;
                break;
            }
            case Instruction::ExtractValue: {
                Val x = loc(f, pi.ops[0]);
                for (unsigned k : cast<ExtractValueInst>(I)->indices()) { Val y = (*x.agg)[k]; x = y; }
                r = x;
                break;
            }
            case Instruction::InsertValue: {
                Val x = loc(f, pi.ops[0]), v = loc(f, pi.ops[1]);
                if (x.k != K::AGG) x = zeroAgg(I->getType(), true);
                auto idx = cast<InsertValueInst>(I)->getIndices();
                std::function<Val(Val, unsigned)> ins = [&](Val agg, unsigned d) -> Val {
                    Val o = agg;
                    o.agg = std::make_shared<vector<Val>>(*agg.agg);
                    (*o.agg)[idx[d]] = d + 1 == idx.size() ? v : ins((*agg.agg)[idx[d]], d + 1);
                    return o;
                };
                r = ins(x, 0);
                break;
            }
            case Instruction::Call: case Instruction::Invoke: {
                auto *CB = cast<CallBase>(I);
                Function *F = CB->getCalledFunction();
                if (!F) {
                    // callee operand is the last one
                    Value *cv = CB->getCalledOperand();
                    if (auto *cc = dyn_cast<Constant>(cv)) {
                        if (auto *al = dyn_cast<GlobalAlias>(cc)) F = dyn_cast<Function>(al->getAliaseeObject());
                        else F = dyn_cast<Function>(cc->stripPointerCasts());
                    }
                    if (!F) {
                        int ci = -1;
                        for (unsigned k = 0; k < I->getNumOperands(); ++k) if (I->getOperand(k) == cv) ci = k;
                        uint64_t a = concInt(loc(f, pi.ops[ci]));
                        auto it = funcAt.find(a);
                        if (it == funcAt.end()) fail("memory", "bad-call", "call through an invalid function pointer");
                        F = it->second;
                    }
                }
                vector<Val> args;
                for (unsigned k = 0; k < CB->arg_size(); ++k) args.push_back(loc(f, pi.ops[k]));
                bool out = isOutput(F);
                if (out || F->isDeclaration() || F->isIntrinsic()) {
                    if (out) r = args.empty() ? mkInt(0, 64) : args[0];
                    else if (!external(F, CB, args, r)) throw Unsupported{"call to external function " + demangle(F->getName().str())};
                    if (pi.dst >= 0) f.loc[pi.dst] = r;
                    S->decisions.clear();
                    if (auto *inv = dyn_cast<InvokeInst>(I)) jump(f, f.f->bidx[inv->getNormalDest()]);
                    else f.pc++;
                    return;
                }
                S->decisions.clear();
                pushCall(F, args, pi.dst);
                return;
            }
            default:
                if (I->isBinaryOp()) {
                    if (!I->getType()->isIntegerTy()) throw Unsupported{string("operation ") + I->getOpcodeName()};
                    r = intBin(I->getOpcode(), loc(f, pi.ops[0]), loc(f, pi.ops[1]), I->getType()->getIntegerBitWidth());
                    break;
                }
                throw Unsupported{string("instruction ") + I->getOpcodeName()};
        }
        if (pi.dst >= 0) f.loc[pi.dst] = r;
        S->decisions.clear();
        f.pc++;
    }
    void finishPath(const string &how) {
        nPaths++;
        if (how == "ok") {
            nOk++;
            if (samples.size() < maxSamples) {
                Point p;
                bool have = false;
                if (!S->pc.wit.empty()) { p = S->pc.wit[gRng() % S->pc.wit.size()]; have = true; }
                else if (samplePoint(S->pc, B_TRUE, p, 60)) have = true;
                else {
                    Model m;
                    if (solve(S->pc, B_TRUE, 2000, &m) == Res::SAT) {
                        p = pointFromModel(S->pc, m);
                        have = pointOk(S->pc, p);
                    }
                }
                if (have) {
                    Sample s;
                    while (p.size() < gInputs.size()) { const VarInfo &vi = gVars[gInputs[p.size()]]; p.push_back(vi.kind == VK::INT ? (double)vi.lo : 0.0); }
                    s.in = named(p);
                    for (auto &o : S->obs) s.obs.push_back({o.id, {evalNode(p, o.a), evalNode(p, o.b)}});
                    samples.push_back(s);
                }
            }
        } else if (how == "infeasible") nInfeasible++;
        else if (how == "abort-allowed") nAbortOk++;
    }
    void run(const string &entry) {
        Function *F = M->getFunction(entry);
        if (!F || F->isDeclaration()) { problems.push_back("no such entry " + entry); return; }
        auto st = std::make_unique<State>();
        st->mem = baseMem;
        st->pc.wit.push_back(Point());
        work.push_back(std::move(st));
        // static initialisers
        vector<Function *> ctors;
        if (GlobalVariable *g = M->getGlobalVariable("llvm.global_ctors"))
            if (auto *ca = dyn_cast<ConstantArray>(g->getInitializer()))
                for (auto &o : ca->operands())
                    if (auto *fn = dyn_cast<Function>(cast<ConstantStruct>(o)->getOperand(1))) ctors.push_back(fn);
        S = work[0].get();
        for (Function *c : ctors) {
            vector<Val> none;
            pushCall(c, none, -1);
            try { while (true) step(); } catch (PathEnd &) {}
            S->fr.clear();
        }
        vector<Val> none;
        pushCall(F, none, -1);
        while (!work.empty() && !stop) {
            StateP cur = std::move(work.back());
            work.pop_back();
            S = cur.get();
            try {
                while (true) {
                    step();
                    if ((nInstr & 0xFFF) == 0) {
                        if (deadline && now() > deadline) { problems.push_back("time budget exhausted in " + entry); stop = true; break; }
                        if (after && firstViol > 0 && now() > firstViol + after) { problems.push_back("time budget exhausted in " + entry + " (a violation was found before)"); stop = true; break; }
                        if (nInstr > maxSteps) { problems.push_back("instruction budget exhausted in " + entry); stop = true; break; }
                    }
                }
            } catch (PathEnd &e) {
                finishPath(e.how);
            } catch (Unsupported &u) {
                nPaths++;
                problems.push_back("unsupported: " + u.msg + " at " + where());
                if (problems.size() > 5) stop = true;
            } catch (TooBig &) {
                nPaths++;
                problems.push_back("undecided: normal form too large at " + where());
                if (problems.size() > 5) stop = true;
            }
            if (deadline && now() > deadline && !work.empty()) { problems.push_back("time budget exhausted in " + entry); stop = true; }
            if (after && firstViol > 0 && now() > firstViol + after && !work.empty()) { problems.push_back("time budget exhausted in " + entry + " (a violation was found before)"); stop = true; }
            if (nPaths > maxPaths) { problems.push_back("path budget exhausted in " + entry); stop = true; }
            if (verbose && nPaths % 500 == 0) fprintf(stderr, "paths %lu work %zu\n", nPaths, work.size());
        }
    }
};

static string js(const string &s) {
    string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if ((unsigned char)c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
static string jd(double d) {
    if (std::isnan(d)) return "\"nan\"";
    if (std::isinf(d)) return d > 0 ? "\"inf\"" : "\"-inf\"";
    char b[64];
    snprintf(b, sizeof b, "%.17g", d);
    return b;
}
static string jpoint(const std::map<string, double> &m) {
    string o = "{";
    bool first = true;
    for (auto &kv : m) {
        if (!first) o += ",";
        first = false;
        o += js(kv.first) + ":" + jd(kv.second);
    }
    return o + "}";
}

static string dump(Engine &E, const string &entry, double t0) {
    std::ostringstream o;
    o << "{\"entry\":" << js(entry) << ",\"paths\":" << E.nPaths << ",\"ok\":" << E.nOk << ",\"infeasible\":" << E.nInfeasible
      << ",\"abort_allowed\":" << E.nAbortOk << ",\"instructions\":" << E.nInstr << ",\"forks\":" << E.nForks << ",\"inputs\":" << gInputs.size()
      << ",\"z3_queries\":" << gStats.queries << ",\"z3_sat\":" << gStats.sat << ",\"z3_unsat\":" << gStats.unsat << ",\"z3_unknown\":" << gStats.unknown
      << ",\"z3_time\":" << gStats.z3Time << ",\"z3_max\":" << gStats.maxQuery << ",\"quick\":" << gStats.quickDecided << ",\"witness\":" << gStats.witnessDecided
      << ",\"assert_obligations\":" << gStats.assertQueries << ",\"assert_discharged\":" << gStats.assertUnsat << ",\"wall\":" << now() - t0;
    o << ",\"reached\":{";
    bool first = true;
    for (auto &kv : E.reached) { if (!first) o << ","; first = false; o << js(kv.first) << ":" << kv.second; }
    o << "},\"functions\":{";
    first = true;
    for (auto &kv : E.funcs)
        if (kv.second->executed && kv.second->pretty.find("atg_scs::") != string::npos && kv.second->pretty.find("std::") != 0) {
            string nm = kv.second->pretty;
            if (!first) o << ",";
            first = false;
            o << js(nm) << ":" << kv.second->executed;
        }
    o << "},\"problems\":[";
    first = true;
    for (auto &p : E.problems) { if (!first) o << ","; first = false; o << js(p); }
    o << "],\"notes\":[";
    first = true;
    for (auto &p : E.notes) { if (!first) o << ","; first = false; o << js(p); }
    o << "],\"violations\":[";
    first = true;
    for (auto &v : E.viols) {
        if (!first) o << ",";
        first = false;
        o << "{\"kind\":" << js(v.kind) << ",\"id\":" << js(v.id) << ",\"detail\":" << js(v.detail) << ",\"where\":" << js(v.where)
          << ",\"solver_sat\":" << (v.solverSat ? "true" : "false") << ",\"undecided\":" << (v.undecided ? "true" : "false") << ",\"points\":[";
        bool f2 = true;
        for (auto &p : v.points) { if (!f2) o << ","; f2 = false; o << jpoint(p); }
        o << "]}";
    }
    o << "],\"samples\":[";
    first = true;
    for (auto &s : E.samples) {
        if (!first) o << ",";
        first = false;
        o << "{\"in\":" << jpoint(s.in) << ",\"obs\":[";
        bool f2 = true;
        for (auto &x : s.obs) { if (!f2) o << ","; f2 = false; o << "[" << js(x.first) << "," << jd(x.second.first) << "," << jd(x.second.second) << "]"; }
        o << "]}";
    }
    o << "]}\n";
    return o.str();
}
static std::atomic<bool> finished{false};

int main(int argc, char **argv) {
    string bc, entry, out;
    double budget = 0;
    Engine E;
    for (int i = 1; i < argc; ++i) {
        string a = argv[i];
        auto next = [&]() { return string(argv[++i]); };
        if (a == "--bc") bc = next();
        else if (a == "--entry") entry = next();
        else if (a == "--out") out = next();
        else if (a == "--seed") gRng.seed(strtoull(next().c_str(), nullptr, 10));
        else if (a == "--budget") { budget = atof(next().c_str()); if (budget > 200) E.maxSteps = 8000000000ULL; }
        else if (a == "--after") E.after = atof(next().c_str());
        else if (a == "--samples") E.maxSamples = atoi(next().c_str());
        else if (a == "--branch-ms") gBranchTimeoutMs = atoi(next().c_str());
        else if (a == "--assert-ms") gAssertTimeoutMs = atoi(next().c_str());
        else if (a == "--poly-limit") gPolyLimit = atoi(next().c_str());
        else if (a == "--verbose") E.verbose = true;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    symInit();
    double t0 = now();
    if (budget) E.deadline = t0 + budget;
    if (!E.load(bc)) return 2;
    if (budget) {
        // a single operation (solver call, polynomial arithmetic) that outlasts the budget
        std::thread([&]() {
            while (now() < t0 + budget + 15) std::this_thread::sleep_for(std::chrono::milliseconds(200));
            if (finished) return;
            E.problems.push_back("time budget exhausted in " + entry + " (inside one operation)");
            string text = dump(E, entry, t0);
            if (out.empty()) std::cout << text << std::flush;
            else { std::ofstream f(out); f << text; }
            _exit(0);
        }).detach();
    }
    try {
        E.run(entry);
    } catch (Unsupported &u) {
        E.problems.push_back("unsupported: " + u.msg);
    } catch (std::bad_alloc &) {
        E.problems.push_back("memory budget exhausted in " + entry);
    } catch (std::exception &e) {
        E.problems.push_back("resource budget exhausted in " + entry + " (" + e.what() + ")");
    }
    string text = dump(E, entry, t0);
    if (out.empty()) std::cout << text;
    else { std::ofstream f(out); f << text; }
    finished = true;
    _exit(0);
}
