#include "sym.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <deque>
#include <functional>
#include <sstream>
#include <z3++.h>

Stats gStats;
std::vector<VarId> gInputs;
std::mt19937_64 gRng(1);
unsigned gBranchTimeoutMs = 1500, gAssertTimeoutMs = 8000;

// ------------------------------------------------------------------- nodes
static std::deque<Node> gNodes;
struct NodeKey {
    Op op; NodeId a, b;
    bool operator==(const NodeKey &o) const { return op == o.op && a == o.a && b == o.b; }
};
struct NodeKeyHash {
    size_t operator()(const NodeKey &k) const { return ((size_t)k.op * 1000003 + k.a) * 1000003 + k.b; }
};
static std::unordered_map<NodeKey, NodeId, NodeKeyHash> gNodeMap;
static std::unordered_map<std::string, NodeId> gConstMap;
static std::unordered_map<VarId, NodeId> gVarNode;
static std::unordered_multimap<size_t, NodeId> gRfMap;

static std::deque<BNode> gBools;

void symInit() {
    if (!gNodes.empty()) return;
    Node n;
    n.op = Op::NAN_; gNodes.push_back(n);
    n.op = Op::PINF; gNodes.push_back(n);
    n.op = Op::NINF; gNodes.push_back(n);
    BNode b;
    b.k = BK::FALSE_; gBools.push_back(b);
    b.k = BK::TRUE_; gBools.push_back(b);
}
const Node &node(NodeId n) { return gNodes[n]; }

NodeId nConst(const mpq_class &c) {
    std::string k = c.get_str();
    auto it = gConstMap.find(k);
    if (it != gConstMap.end()) return it->second;
    Node n;
    n.op = Op::CONST;
    n.c = c;
    n.rf = std::make_shared<RF>(rConst(c));
    gNodes.push_back(n);
    return gConstMap[k] = gNodes.size() - 1;
}
NodeId nVar(VarId v) {
    auto it = gVarNode.find(v);
    if (it != gVarNode.end()) return it->second;
    Node n;
    n.op = Op::RAT;
    n.rf = std::make_shared<RF>(rVar(v));
    gNodes.push_back(n);
    gRfMap.insert({rHash(*n.rf), (NodeId)(gNodes.size() - 1)});
    return gVarNode[v] = gNodes.size() - 1;
}
NodeId nRF(const RF &r) {
    if (r.num.isConst() && r.den.empty()) return nConst(r.num.constVal());
    size_t h = rHash(r);
    auto range = gRfMap.equal_range(h);
    for (auto it = range.first; it != range.second; ++it)
        if (rEq(*gNodes[it->second].rf, r)) return it->second;
    Node n;
    n.op = Op::RAT;
    n.rf = std::make_shared<RF>(r);
    gNodes.push_back(n);
    gRfMap.insert({h, (NodeId)(gNodes.size() - 1)});
    return gNodes.size() - 1;
}
bool nIsConst(NodeId n, mpq_class &c) {
    if (gNodes[n].op == Op::CONST) { c = gNodes[n].c; return true; }
    return false;
}
static NodeId intern(Op op, NodeId a, NodeId b) {
    NodeKey k{op, a, b};
    auto it = gNodeMap.find(k);
    if (it != gNodeMap.end()) return it->second;
    Node n;
    n.op = op; n.a = a; n.b = b;
    gNodes.push_back(n);
    return gNodeMap[k] = gNodes.size() - 1;
}
NodeId nOp(Op op, NodeId a, NodeId b) {
    mpq_class ca, cb;
    bool ka = nIsConst(a, ca), kb = op == Op::NEG ? false : nIsConst(b, cb);
    switch (op) {
        case Op::ADD:
            if (ka && kb) return nConst(ca + cb);
            if (ka && ca == 0) return b;
            if (kb && cb == 0) return a;
            if (a > b) std::swap(a, b);
            return intern(op, a, b);
        case Op::SUB:
            if (ka && kb) return nConst(ca - cb);
            if (kb && cb == 0) return a;
            if (a == b) return nConst(0);
            if (ka && ca == 0) return nOp(Op::NEG, b, 0);
            return intern(op, a, b);
        case Op::MUL:
            if (ka && kb) return nConst(ca * cb);
            if ((ka && ca == 0) || (kb && cb == 0)) return nConst(0);
            if (ka && ca == 1) return b;
            if (kb && cb == 1) return a;
            if (a > b) std::swap(a, b);
            return intern(op, a, b);
        case Op::DIV:
            if (ka && kb) return nConst(ca / cb);
            if (ka && ca == 0) return nConst(0);
            if (kb && cb == 1) return a;
            return intern(op, a, b);
        case Op::NEG:
            if (ka) return nConst(-ca);
            if (gNodes[a].op == Op::NEG) return gNodes[a].a;
            return intern(op, a, 0);
        default: abort();
    }
}
const RF &nform(NodeId n) {
    Node &x = gNodes[n];
    if (x.rf) return *x.rf;
    std::shared_ptr<RF> r;
    switch (x.op) {
        case Op::ADD: r = std::make_shared<RF>(rAdd(nform(x.a), nform(x.b))); break;
        case Op::SUB: r = std::make_shared<RF>(rSub(nform(x.a), nform(x.b))); break;
        case Op::MUL: r = std::make_shared<RF>(rMul(nform(x.a), nform(x.b))); break;
        case Op::NEG: r = std::make_shared<RF>(rNeg(nform(x.a))); break;
        case Op::DIV: r = std::make_shared<RF>(rMul(nform(x.a), rInv(nform(x.b)))); break;
        default: abort();
    }
    gNodes[n].rf = r;
    return *r;
}
std::string nStr(NodeId n) {
    if (n == N_NAN) return "nan";
    if (n == N_PINF) return "inf";
    if (n == N_NINF) return "-inf";
    try { return rStr(nform(n)); } catch (TooBig &) { return "<too large to print>"; }
}

// --------------------------------------------------------------- variables
VarId newInput(const std::string &name, bool isInt, long lo, long hi) {
    static std::unordered_map<std::string, VarId> byName;
    auto at = byName.find(name);
    if (at != byName.end()) return at->second;
    VarInfo i;
    i.kind = isInt ? VK::INT : VK::INPUT;
    i.name = name;
    i.lo = lo; i.hi = hi;
    i.inputIndex = gInputs.size();
    gVars.push_back(i);
    gInputs.push_back(gVars.size() - 1);
    byName[name] = gVars.size() - 1;
    return gVars.size() - 1;
}
static std::map<std::string, VarId> gOpaque;
static std::string rKey(const RF &r) {
    std::ostringstream o;
    for (auto &t : r.num.t) o << t.m->id << ":" << t.c << ";";
    o << "|";
    for (auto &d : r.den) o << d.first << "^" << d.second << ";";
    return o.str();
}
static bool leadNeg(const RF &r) { return !r.num.zero() && r.num.t[0].c < 0; }
VarId opaqueTrig(const RF &arg0, bool wantSin, bool &negate) {
    RF arg = arg0;
    negate = false;
    if (leadNeg(arg)) { arg = rNeg(arg); negate = wantSin; }
    std::string k = "T" + rKey(arg);
    VarId c;
    auto it = gOpaque.find(k);
    if (it != gOpaque.end()) c = it->second;
    else {
        std::string s = rStr(arg);
        VarInfo vc, vs;
        vc.kind = VK::COS; vs.kind = VK::SIN;
        vc.a = vs.a = arg;
        vc.name = "cos(" + s + ")"; vs.name = "sin(" + s + ")";
        c = gVars.size();
        vc.mate = c + 1; vs.mate = c;
        gVars.push_back(vc);
        vs.hasSq = true;
        vs.sq = pSub(pConst(1), pMul(pVar(c), pVar(c)));
        gVars.push_back(vs);
        gOpaque[k] = c;
    }
    return wantSin ? c + 1 : c;
}
VarId opaqueSqrt(const RF &arg) {
    std::string k = "Q" + rKey(arg);
    auto it = gOpaque.find(k);
    if (it != gOpaque.end()) return it->second;
    VarInfo i;
    i.kind = VK::SQRT;
    i.a = arg;
    i.name = "sqrt(" + rStr(arg) + ")";
    if (arg.den.empty()) { i.hasSq = true; i.sq = arg.num; }
    gVars.push_back(i);
    return gOpaque[k] = gVars.size() - 1;
}
VarId opaqueAbs(const RF &arg0) {
    RF arg = leadNeg(arg0) ? rNeg(arg0) : arg0;
    std::string k = "A" + rKey(arg);
    auto it = gOpaque.find(k);
    if (it != gOpaque.end()) return it->second;
    VarInfo i;
    i.kind = VK::ABS;
    i.a = arg;
    i.name = "abs(" + rStr(arg) + ")";
    if (arg.den.empty()) { i.hasSq = true; i.sq = pMul(arg.num, arg.num); }
    gVars.push_back(i);
    return gOpaque[k] = gVars.size() - 1;
}
bool gSingle = false;
VarId opaqueRound(const RF &arg, VK kind) {
    const char *t = kind == VK::TRUNC ? "trunc" : kind == VK::FLOOR ? "floor" : "float";
    std::string k = std::string(t) + rKey(arg);
    auto it = gOpaque.find(k);
    if (it != gOpaque.end()) return it->second;
    VarInfo i;
    i.kind = kind;
    i.a = arg;
    i.name = std::string(t) + "(" + rStr(arg) + ")";
    gVars.push_back(i);
    return gOpaque[k] = gVars.size() - 1;
}
VarId opaqueMax(const RF &a0, const RF &b0, bool isMin) {
    RF a = a0, b = b0;
    std::string ka = rKey(a), kb = rKey(b);
    if (kb < ka) { std::swap(a, b); std::swap(ka, kb); }
    std::string k = (isMin ? "I" : "M") + ka + "," + kb;
    auto it = gOpaque.find(k);
    if (it != gOpaque.end()) return it->second;
    VarInfo i;
    i.kind = isMin ? VK::MIN : VK::MAX;
    i.a = a; i.b = b;
    i.name = std::string(isMin ? "min(" : "max(") + rStr(a) + ", " + rStr(b) + ")";
    gVars.push_back(i);
    return gOpaque[k] = gVars.size() - 1;
}
static const char *fnName(FnId f) {
    static const char *n[] = {"exp", "log", "atan2", "acos", "asin", "atan", "cbrt", "exp2", "log2", "log10", "tanh", "pow"};
    return n[(int)f];
}
double evalFn(FnId f, double x, double y) {
    switch (f) {
        case FnId::EXP: return std::exp(x);
        case FnId::LOG: return std::log(x);
        case FnId::ATAN2: return std::atan2(x, y);
        case FnId::ACOS: return std::acos(x);
        case FnId::ASIN: return std::asin(x);
        case FnId::ATAN: return std::atan(x);
        case FnId::CBRT: return std::cbrt(x);
        case FnId::EXP2: return std::exp2(x);
        case FnId::LOG2: return std::log2(x);
        case FnId::LOG10: return std::log10(x);
        case FnId::TANH: return std::tanh(x);
        case FnId::POW: return std::pow(x, y);
    }
    return 0;
}
VarId opaqueFn(FnId f, const RF &a, const RF &b) {
    bool two = f == FnId::ATAN2 || f == FnId::POW;
    std::string k = std::string("F") + fnName(f) + rKey(a) + (two ? "," + rKey(b) : "");
    auto it = gOpaque.find(k);
    if (it != gOpaque.end()) return it->second;
    VarInfo i;
    i.kind = VK::FN;
    i.fn = f;
    i.a = a; i.b = b;
    i.name = std::string(fnName(f)) + "(" + rStr(a) + (two ? ", " + rStr(b) : "") + ")";
    gVars.push_back(i);
    return gOpaque[k] = gVars.size() - 1;
}
VarId opaqueIte(BoolId c, const RF &a, const RF &b) {
    std::string k = "E" + std::to_string(c) + "?" + rKey(a) + "," + rKey(b);
    auto it = gOpaque.find(k);
    if (it != gOpaque.end()) return it->second;
    VarInfo i;
    i.kind = VK::ITE;
    i.a = a; i.b = b; i.cond = c;
    i.name = "ite" + std::to_string(gVars.size());
    gVars.push_back(i);
    return gOpaque[k] = gVars.size() - 1;
}

// ---------------------------------------------------------------- booleans
const BNode &bnode(BoolId b) { return gBools[b]; }
static std::map<std::tuple<int, uint32_t, uint32_t, uint32_t>, BoolId> gBoolMap;
static BoolId bIntern(const BNode &n) {
    auto k = std::make_tuple((int)n.k, n.k == BK::ATOM ? n.poly : n.a, n.k == BK::ATOM ? n.mask : n.b, 0u);
    auto it = gBoolMap.find(k);
    if (it != gBoolMap.end()) return it->second;
    gBools.push_back(n);
    return gBoolMap[k] = gBools.size() - 1;
}
static uint8_t flipMask(uint8_t m) { return (m & 2) | ((m & 1) << 2) | ((m >> 2) & 1); }
BoolId bAtom(const Poly &p, uint8_t mask) {
    if (mask == 0) return B_FALSE;
    if (mask == S_ALL) return B_TRUE;
    if (p.isConst()) {
        int s = sgn(p.constVal());
        return (mask & (s < 0 ? S_NEG : s == 0 ? S_ZERO : S_POS)) ? B_TRUE : B_FALSE;
    }
    Poly prim;
    mpq_class f = pPrimitive(p, prim);
    // strip single-variable content whose power is even is left to the sign analysis
    if (f < 0) mask = flipMask(mask);
    BNode n;
    n.k = BK::ATOM;
    n.poly = facIntern(prim);
    n.mask = mask;
    return bIntern(n);
}
BoolId bAnd(BoolId a, BoolId b) {
    if (a == B_FALSE || b == B_FALSE) return B_FALSE;
    if (a == B_TRUE) return b;
    if (b == B_TRUE || a == b) return a;
    const BNode &x = gBools[a], &y = gBools[b];
    if (x.k == BK::ATOM && y.k == BK::ATOM && x.poly == y.poly) return bAtom(facPoly(x.poly), x.mask & y.mask);
    if (a > b) std::swap(a, b);
    BNode n;
    n.k = BK::AND; n.a = a; n.b = b;
    return bIntern(n);
}
BoolId bOr(BoolId a, BoolId b) {
    if (a == B_TRUE || b == B_TRUE) return B_TRUE;
    if (a == B_FALSE) return b;
    if (b == B_FALSE || a == b) return a;
    const BNode &x = gBools[a], &y = gBools[b];
    if (x.k == BK::ATOM && y.k == BK::ATOM && x.poly == y.poly) return bAtom(facPoly(x.poly), x.mask | y.mask);
    if (a > b) std::swap(a, b);
    BNode n;
    n.k = BK::OR; n.a = a; n.b = b;
    return bIntern(n);
}
BoolId bNot(BoolId a) {
    BNode x = gBools[a];
    switch (x.k) {
        case BK::FALSE_: return B_TRUE;
        case BK::TRUE_: return B_FALSE;
        case BK::ATOM: return bAtom(facPoly(x.poly), S_ALL & ~x.mask);
        case BK::AND: return bOr(bNot(x.a), bNot(x.b));
        case BK::OR: return bAnd(bNot(x.a), bNot(x.b));
    }
    abort();
}
std::string bStr(BoolId b) {
    const BNode &x = gBools[b];
    static const char *names[] = {"none", "<0", "=0", "<=0", ">0", "!=0", ">=0", "any"};
    switch (x.k) {
        case BK::FALSE_: return "false";
        case BK::TRUE_: return "true";
        case BK::ATOM: return "(" + pStr(facPoly(x.poly), 6) + " " + names[x.mask] + ")";
        case BK::AND: return "(" + bStr(x.a) + " & " + bStr(x.b) + ")";
        case BK::OR: return "(" + bStr(x.a) + " | " + bStr(x.b) + ")";
    }
    return "";
}

// ------------------------------------------------------ quick sign analysis
static Itv iConst(const mpq_class &c) { Itv i; i.hasLo = i.hasHi = true; i.lo = i.hi = c; return i; }
static Itv iAdd(const Itv &a, const Itv &b) {
    Itv r;
    r.hasLo = a.hasLo && b.hasLo; r.hasHi = a.hasHi && b.hasHi;
    if (r.hasLo) { r.lo = a.lo + b.lo; r.loS = a.loS || b.loS; }
    if (r.hasHi) { r.hi = a.hi + b.hi; r.hiS = a.hiS || b.hiS; }
    return r;
}
static Itv iNeg(const Itv &a) {
    Itv r;
    r.hasLo = a.hasHi; r.lo = -a.hi; r.loS = a.hiS;
    r.hasHi = a.hasLo; r.hi = -a.lo; r.hiS = a.loS;
    return r;
}
static Itv iScale(const Itv &a, const mpq_class &c) {
    if (c == 0) return iConst(0);
    Itv r = c < 0 ? iNeg(a) : a;
    mpq_class k = abs(c);
    r.lo *= k; r.hi *= k;
    return r;
}
static bool iNonNeg(const Itv &a) { return a.hasLo && a.lo >= 0; }
static bool iNonPos(const Itv &a) { return a.hasHi && a.hi <= 0; }
static Itv iMul(const Itv &a, const Itv &b) {
    if ((a.hasLo && a.hasHi && a.lo == 0 && a.hi == 0) || (b.hasLo && b.hasHi && b.lo == 0 && b.hi == 0)) return iConst(0);
    if (iNonPos(a)) return iNeg(iMul(iNeg(a), b));
    if (iNonPos(b)) return iNeg(iMul(a, iNeg(b)));
    Itv r;
    if (iNonNeg(a) && iNonNeg(b)) {
        r.hasLo = true; r.lo = a.lo * b.lo;
        r.loS = (a.lo == 0 ? a.loS && (b.lo > 0 || b.loS) : a.loS && b.lo > 0) || (b.lo == 0 && b.loS && (a.lo > 0 || a.loS)) || (b.lo > 0 && b.loS && a.lo > 0);
        if (a.lo == 0 && b.lo == 0) r.loS = a.loS && b.loS;
        else if (a.lo == 0) r.loS = a.loS;
        else if (b.lo == 0) r.loS = b.loS;
        else r.loS = a.loS || b.loS;
        if (a.hasHi && b.hasHi) { r.hasHi = true; r.hi = a.hi * b.hi; }
        return r;
    }
    if (a.hasLo && a.hasHi && b.hasLo && b.hasHi) {
        mpq_class v[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
        r.hasLo = r.hasHi = true;
        r.lo = r.hi = v[0];
        for (auto &x : v) { if (x < r.lo) r.lo = x; if (x > r.hi) r.hi = x; }
    }
    return r;
}
static uint8_t iMask(const Itv &a) {
    uint8_t m = S_ALL;
    if (a.hasLo) {
        if (a.lo > 0) m &= S_POS;
        else if (a.lo == 0) m &= a.loS ? S_POS : (S_POS | S_ZERO);
    }
    if (a.hasHi) {
        if (a.hi < 0) m &= S_NEG;
        else if (a.hi == 0) m &= a.hiS ? S_NEG : (S_NEG | S_ZERO);
    }
    return m;
}
static Itv iMeet(const Itv &a, const Itv &b) {
    Itv r = a;
    if (b.hasLo && (!r.hasLo || b.lo > r.lo || (b.lo == r.lo && b.loS))) { r.hasLo = true; r.lo = b.lo; r.loS = b.loS; }
    if (b.hasHi && (!r.hasHi || b.hi < r.hi || (b.hi == r.hi && b.hiS))) { r.hasHi = true; r.hi = b.hi; r.hiS = b.hiS; }
    return r;
}
static Itv itvPoly(const PathCond &pc, const Poly &p);
static Itv itvVar(const PathCond &pc, VarId v) {
    Itv r;
    auto it = pc.itv.find(v);
    if (it != pc.itv.end()) r = it->second;
    const VarInfo &i = gVars[v];
    switch (i.kind) {
        case VK::INT: { Itv b; b.hasLo = b.hasHi = true; b.lo = i.lo; b.hi = i.hi; return iMeet(r, b); }
        case VK::COS: case VK::SIN: { Itv b; b.hasLo = b.hasHi = true; b.lo = -1; b.hi = 1; return iMeet(r, b); }
        case VK::SQRT: case VK::ABS: {
            Itv b; b.hasLo = true; b.lo = 0;
            uint8_t m = quickSign(pc, i.a);
            if (!(m & S_ZERO)) b.loS = true;
            return iMeet(r, b);
        }
        case VK::TRUNC: case VK::FLOOR: {
            Itv a = quickItv(pc, i.a), o;
            auto fl = [](const mpq_class &q) { mpz_class z; mpz_fdiv_q(z.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return mpq_class(z); };
            auto ce = [](const mpq_class &q) { mpz_class z; mpz_cdiv_q(z.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return mpq_class(z); };
            if (a.hasLo) { o.hasLo = true; o.lo = i.kind == VK::TRUNC && a.lo < 0 ? ce(a.lo) : fl(a.lo); }
            if (a.hasHi) { o.hasHi = true; o.hi = i.kind == VK::TRUNC && a.hi < 0 ? ce(a.hi) : fl(a.hi); }
            return iMeet(r, o);
        }
        case VK::F32: {
            Itv a = quickItv(pc, i.a), o;
            if (a.hasLo && a.lo >= 0) { o.hasLo = true; o.lo = 0; }
            if (a.hasHi && a.hi <= 0) { o.hasHi = true; o.hi = 0; }
            return iMeet(r, o);
        }
        case VK::FN: {
            Itv o;
            auto both = [&](long q) { o.hasLo = o.hasHi = true; o.lo = -q; o.hi = q; };
            switch (i.fn) {
                case FnId::EXP: case FnId::EXP2: o.hasLo = true; o.lo = 0; o.loS = true; break;
                case FnId::ATAN2: case FnId::ACOS: both(4); if (i.fn == FnId::ACOS) o.lo = 0; break;
                case FnId::ASIN: case FnId::ATAN: both(2); break;
                case FnId::TANH: both(1); break;
                case FnId::POW: o.hasLo = true; o.lo = 0; break;
                default: break;
            }
            return iMeet(r, o);
        }
        case VK::MAX: case VK::MIN: {
            Itv a = quickItv(pc, i.a), b = quickItv(pc, i.b), o;
            if (i.kind == VK::MIN) { a = iNeg(a); b = iNeg(b); }
            // max
            if (a.hasLo && (!b.hasLo || a.lo > b.lo || (a.lo == b.lo && a.loS))) { o.hasLo = true; o.lo = a.lo; o.loS = a.loS; }
            else if (b.hasLo) { o.hasLo = true; o.lo = b.lo; o.loS = b.loS; }
            if (a.hasHi && b.hasHi) {
                o.hasHi = true;
                if (a.hi > b.hi) { o.hi = a.hi; o.hiS = a.hiS; }
                else if (b.hi > a.hi) { o.hi = b.hi; o.hiS = b.hiS; }
                else { o.hi = a.hi; o.hiS = a.hiS && b.hiS; }
            }
            if (i.kind == VK::MIN) o = iNeg(o);
            return iMeet(r, o);
        }
        case VK::ITE: {
            Itv a = quickItv(pc, i.a), b = quickItv(pc, i.b), o;
            if (a.hasLo && b.hasLo) {
                o.hasLo = true;
                if (a.lo < b.lo) { o.lo = a.lo; o.loS = a.loS; }
                else if (b.lo < a.lo) { o.lo = b.lo; o.loS = b.loS; }
                else { o.lo = a.lo; o.loS = a.loS && b.loS; }
            }
            if (a.hasHi && b.hasHi) {
                o.hasHi = true;
                if (a.hi > b.hi) { o.hi = a.hi; o.hiS = a.hiS; }
                else if (b.hi > a.hi) { o.hi = b.hi; o.hiS = b.hiS; }
                else { o.hi = a.hi; o.hiS = a.hiS && b.hiS; }
            }
            return iMeet(r, o);
        }
        default: return r;
    }
}
static Itv itvMono(const PathCond &pc, MonoP m) {
    Itv r = iConst(1);
    for (auto &q : m->e) {
        Itv v = itvVar(pc, q.first);
        Itv pw;
        if (q.second % 2 == 0) {
            uint8_t s = iMask(v);
            auto pm = pc.polyMask.find(facIntern(pVar(q.first)));
            if (pm != pc.polyMask.end()) s &= pm->second;
            Itv sq;
            if (iNonNeg(v) || iNonPos(v)) sq = iMul(v, v);
            else {
                sq.hasLo = true; sq.lo = 0; sq.loS = !(s & S_ZERO);
                if (v.hasLo && v.hasHi) {
                    sq.hasHi = true;
                    mpq_class x = v.lo * v.lo, y = v.hi * v.hi;
                    sq.hi = x > y ? x : y;
                }
            }
            pw = sq;
            for (uint32_t k = 2; k < q.second; k += 2) pw = iMul(pw, sq);
        } else {
            pw = v;
            for (uint32_t k = 1; k < q.second; ++k) pw = iMul(pw, v);
        }
        r = iMul(r, pw);
    }
    return r;
}
static Itv itvPoly(const PathCond &pc, const Poly &p) {
    Itv r = iConst(0);
    for (auto &t : p.t) {
        r = iAdd(r, iScale(itvMono(pc, t.m), t.c));
        if (!r.hasLo && !r.hasHi) break;
    }
    return r;
}
static uint8_t mulMask(uint8_t a, uint8_t b) {
    uint8_t r = 0;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            if ((a >> i & 1) && (b >> j & 1)) {
                int s = (i - 1) * (j - 1);
                r |= 1 << (s + 1);
            }
    return r;
}
static uint8_t divMask(const PathCond &pc, const Poly &prim, int depth);
uint8_t quickSignPoly(const PathCond &pc, const Poly &p) {
    if (p.isConst()) {
        int s = sgn(p.constVal());
        return s < 0 ? S_NEG : s == 0 ? S_ZERO : S_POS;
    }
    Poly prim;
    mpq_class f = pPrimitive(p, prim);
    uint8_t m = S_ALL;
    auto it = pc.polyMask.find(facIntern(prim));
    if (it != pc.polyMask.end()) m = it->second;
    if (m & (m - 1)) {
        if (p.t.size() <= 64) m &= iMask(itvPoly(pc, prim));
    }
    if ((m & (m - 1)) && prim.t.size() <= 60 && pc.polyMask.size() <= 64) m &= divMask(pc, prim, 0);
    return f < 0 ? flipMask(m) : m;
}
// sign through an exact factor whose sign is known on this path
static uint8_t divMask(const PathCond &pc, const Poly &prim, int depth) {
    static std::map<std::pair<uint32_t, uint32_t>, int64_t> memo;  // quotient id or -1; sign of content in low bit
    if (depth > 4) return S_ALL;
    uint32_t me = facIntern(prim);
    for (auto &kv : pc.polyMask) {
        if (kv.first == me) continue;
        const Poly &d = facPoly(kv.first);
        if (d.isConst() || d.t.size() > prim.t.size() * 4) continue;
        auto key = std::make_pair(me, kv.first);
        auto it = memo.find(key);
        if (it == memo.end()) {
            Poly q;
            int64_t r = -1;
            if (pDivExact(prim, d, q)) {
                Poly qp;
                mpq_class f = pPrimitive(q, qp);
                r = ((int64_t)facIntern(qp) << 1) | (f < 0 ? 1 : 0);
            }
            it = memo.emplace(key, r).first;
        }
        if (it->second < 0) continue;
        uint8_t a = kv.second, b;
        Poly q = facPoly(it->second >> 1);
        if (q.isConst()) b = sgn(q.constVal()) < 0 ? S_NEG : S_POS;
        else {
            auto jt = pc.polyMask.find(it->second >> 1);
            b = jt != pc.polyMask.end() ? jt->second : S_ALL;
            if (b & (b - 1)) b &= iMask(itvPoly(pc, q));
            if (b & (b - 1)) b &= divMask(pc, q, depth + 1);
        }
        if (it->second & 1) b = flipMask(b);
        uint8_t m = mulMask(a, b);
        if (!(m & (m - 1))) return m;
        if (m != S_ALL) return m;
    }
    return S_ALL;
}
uint8_t quickSign(const PathCond &pc, const RF &r) {
    uint8_t m = quickSignPoly(pc, r.num);
    for (auto &d : r.den)
        if (d.second & 1) m = mulMask(m, quickSignPoly(pc, facPoly(d.first)) & ~S_ZERO);
    return m;
}
Itv quickItv(const PathCond &pc, const RF &r) {
    Itv n = itvPoly(pc, r.num);
    if (r.den.empty()) return n;
    Itv o;
    uint8_t m = quickSign(pc, r);
    if (!(m & S_NEG)) { o.hasLo = true; o.lo = 0; o.loS = !(m & S_ZERO); }
    if (!(m & S_POS)) { o.hasHi = true; o.hi = 0; o.hiS = !(m & S_ZERO); }
    return o;
}
uint8_t quickBool(const PathCond &pc, BoolId b) {
    const BNode x = gBools[b];
    switch (x.k) {
        case BK::FALSE_: return 1;
        case BK::TRUE_: return 2;
        case BK::ATOM: {
            uint8_t m = quickSignPoly(pc, facPoly(x.poly));
            return ((m & ~x.mask) ? 1 : 0) | ((m & x.mask) ? 2 : 0);
        }
        case BK::AND: {
            uint8_t a = quickBool(pc, x.a), c = quickBool(pc, x.b);
            return (((a | c) & 1)) | ((a & c & 2));
        }
        case BK::OR: {
            uint8_t a = quickBool(pc, x.a), c = quickBool(pc, x.b);
            return (((a | c) & 2)) | ((a & c & 1));
        }
    }
    return 3;
}
BoolId signBool(const PathCond &pc, const RF &r, uint8_t mask) {
    uint8_t q = quickSign(pc, r);
    if (!(q & ~mask)) return B_TRUE;
    if (!(q & mask)) return B_FALSE;
    if (mask == S_ZERO || mask == (S_NEG | S_POS)) return bAtom(r.num, mask);
    bool flip = false;
    BoolId denPos = B_TRUE;
    for (auto &d : r.den) {
        if (!(d.second & 1)) continue;
        uint8_t s = quickSignPoly(pc, facPoly(d.first)) & ~S_ZERO;
        if (s == S_POS) continue;
        if (s == S_NEG) { flip = !flip; continue; }
        BoolId p = bAtom(facPoly(d.first), S_POS), n = bAtom(facPoly(d.first), S_NEG);
        denPos = bOr(bAnd(denPos, p), bAnd(bNot(denPos), n));
    }
    if (flip) mask = flipMask(mask);
    if (denPos == B_TRUE) return bAtom(r.num, mask);
    return bOr(bAnd(denPos, bAtom(r.num, mask)), bAnd(bNot(denPos), bAtom(r.num, flipMask(mask))));
}
static void pcNote(PathCond &pc, BoolId b) {
    const BNode x = gBools[b];
    if (x.k == BK::AND) { pcNote(pc, x.a); pcNote(pc, x.b); return; }
    if (x.k != BK::ATOM) return;
    auto it = pc.polyMask.find(x.poly);
    if (it == pc.polyMask.end()) pc.polyMask[x.poly] = x.mask;
    else it->second &= x.mask;
    const Poly &p = facPoly(x.poly);
    // univariate linear atoms refine the variable's interval
    if (p.t.size() <= 2 && p.t[0].m->e.size() == 1 && p.t[0].m->deg == 1 && (p.t.size() == 1 || p.t[1].m->deg == 0)) {
        VarId v = p.t[0].m->e[0].first;
        mpq_class bound = p.t.size() == 2 ? mpq_class(-p.t[1].c / p.t[0].c) : mpq_class(0);
        Itv i;
        if (!(x.mask & S_NEG)) { i.hasLo = true; i.lo = bound; i.loS = !(x.mask & S_ZERO); }
        if (!(x.mask & S_POS)) { i.hasHi = true; i.hi = bound; i.hiS = !(x.mask & S_ZERO); }
        pc.itv[v] = iMeet(pc.itv[v], i);
    }
}
void pcAdd(PathCond &pc, BoolId b) {
    if (b == B_TRUE) return;
    pc.atoms.push_back(b);
    pcNote(pc, b);
    std::vector<Point> keep;
    for (auto &w : pc.wit)
        if (evalBool(w, b) == 1) keep.push_back(w);
    pc.wit = keep;
}

// --------------------------------------------------------------- evaluation
double evalPoly(const Point &p, const Poly &q, double *scale) {
    double s = 0, sc = 0;
    for (auto &t : q.t) {
        double x = t.c.get_d();
        for (auto &e : t.m->e) {
            double v = evalVar(p, e.first);
            for (uint32_t k = 0; k < e.second; ++k) x *= v;
        }
        s += x;
        sc += std::fabs(x);
    }
    if (scale) *scale = sc;
    return s;
}
static const Point *gMemoPoint = nullptr;
static std::vector<double> gMemoVal;
static std::vector<char> gMemoHas;
static Point gMemoCopy;
static double evalVarRaw(const Point &p, VarId v) {
    const VarInfo &i = gVars[v];
    switch (i.kind) {
        case VK::INPUT: case VK::INT: return i.inputIndex < (int)p.size() ? p[i.inputIndex] : i.kind == VK::INT ? (double)i.lo : 0.0;
        case VK::COS: return std::cos(evalRF(p, i.a));
        case VK::SIN: return std::sin(evalRF(p, i.a));
        case VK::SQRT: return std::sqrt(evalRF(p, i.a));
        case VK::ABS: return std::fabs(evalRF(p, i.a));
        case VK::MAX: return std::fmax(evalRF(p, i.a), evalRF(p, i.b));
        case VK::MIN: return std::fmin(evalRF(p, i.a), evalRF(p, i.b));
        case VK::TRUNC: return std::trunc(evalRF(p, i.a));
        case VK::FLOOR: return std::floor(evalRF(p, i.a));
        case VK::F32: return (double)(float)evalRF(p, i.a);
        case VK::FN: return evalFn(i.fn, evalRF(p, i.a), evalRF(p, i.b));
        case VK::ITE: return evalBool(p, i.cond) == 1 ? evalRF(p, i.a) : evalRF(p, i.b);
    }
    return 0;
}
double evalVar(const Point &p, VarId v) {
    const VarInfo &i = gVars[v];
    if (i.kind == VK::INPUT || i.kind == VK::INT) return i.inputIndex < (int)p.size() ? p[i.inputIndex] : i.kind == VK::INT ? (double)i.lo : 0.0;
    if (gMemoPoint != &p || gMemoCopy.size() != p.size() || memcmp(gMemoCopy.data(), p.data(), p.size() * sizeof(double)) != 0) {
        gMemoPoint = &p;
        gMemoCopy = p;
        gMemoHas.assign(gVars.size(), 0);
        gMemoVal.assign(gVars.size(), 0);
    }
    if (gMemoHas.size() < gVars.size()) { gMemoHas.resize(gVars.size(), 0); gMemoVal.resize(gVars.size(), 0); }
    if (gMemoHas[v]) return gMemoVal[v];
    double r = evalVarRaw(p, v);
    gMemoHas[v] = 1;
    gMemoVal[v] = r;
    return r;
}
double evalRF(const Point &p, const RF &r) {
    double n = evalPoly(p, r.num);
    for (auto &d : r.den) {
        double f = evalPoly(p, facPoly(d.first));
        for (int k = 0; k < d.second; ++k) n /= f;
    }
    return n;
}
static double evalNodeRec(const Point &p, NodeId n, std::unordered_map<NodeId, double> &memo) {
    const Node &x = gNodes[n];
    switch (x.op) {
        case Op::CONST: return x.c.get_d();
        case Op::PINF: return INFINITY;
        case Op::NINF: return -INFINITY;
        case Op::NAN_: return NAN;
        case Op::RAT: return evalRF(p, *x.rf);
        default: break;
    }
    auto it = memo.find(n);
    if (it != memo.end()) return it->second;
    double r = 0;
    double a = evalNodeRec(p, x.a, memo);
    double b = x.op == Op::NEG ? 0 : evalNodeRec(p, x.b, memo);
    switch (x.op) {
        case Op::ADD: r = a + b; break;
        case Op::SUB: r = a - b; break;
        case Op::MUL: r = a * b; break;
        case Op::DIV: r = a / b; break;
        case Op::NEG: r = -a; break;
        default: break;
    }
    memo[n] = r;
    return r;
}
double evalNode(const Point &p, NodeId n) {
    std::unordered_map<NodeId, double> memo;
    return evalNodeRec(p, n, memo);
}
int evalBool(const Point &p, BoolId b) {
    const BNode x = gBools[b];
    switch (x.k) {
        case BK::FALSE_: return 0;
        case BK::TRUE_: return 1;
        case BK::ATOM: {
            double sc;
            double v = evalPoly(p, facPoly(x.poly), &sc);
            if (!std::isfinite(v)) return -1;
            bool near = std::fabs(v) <= 1e-9 * sc || sc == 0;
            if (near) {
                if (x.mask & S_ZERO) return x.mask == S_ZERO || sc == 0 ? 1 : 1;
                return sc == 0 ? 0 : -1;
            }
            return (x.mask & (v < 0 ? S_NEG : S_POS)) ? 1 : 0;
        }
        case BK::AND: {
            int a = evalBool(p, x.a);
            if (a == 0) return 0;
            int c = evalBool(p, x.b);
            if (c == 0) return 0;
            return (a == 1 && c == 1) ? 1 : -1;
        }
        case BK::OR: {
            int a = evalBool(p, x.a);
            if (a == 1) return 1;
            int c = evalBool(p, x.b);
            if (c == 1) return 1;
            return (a == 0 && c == 0) ? 0 : -1;
        }
    }
    return -1;
}
bool pointOk(const PathCond &pc, const Point &p) {
    for (BoolId b : pc.atoms)
        if (evalBool(p, b) != 1) return false;
    return true;
}
static void collectEq(BoolId b, std::vector<uint32_t> &eqs) {
    const BNode x = gBools[b];
    if (x.k == BK::AND) { collectEq(x.a, eqs); collectEq(x.b, eqs); }
    else if (x.k == BK::ATOM && x.mask == S_ZERO) eqs.push_back(x.poly);
}
void defVars(VarId v, std::set<VarId> &out);
static void boolVars(BoolId b, std::set<VarId> &out) {
    const BNode x = gBools[b];
    if (x.k == BK::ATOM) {
        std::vector<VarId> vs;
        pVars(facPoly(x.poly), vs);
        for (VarId v : vs) defVars(v, out);
    } else if (x.k == BK::AND || x.k == BK::OR) { boolVars(x.a, out); boolVars(x.b, out); }
}
void defVars(VarId v, std::set<VarId> &out) {
    if (!out.insert(v).second) return;
    const VarInfo &i = gVars[v];
    if (i.kind == VK::INPUT || i.kind == VK::INT) return;
    if (i.kind == VK::COS || i.kind == VK::SIN) { out.insert(i.mate); }
    std::vector<VarId> vs;
    rVars(i.a, vs);
    rVars(i.b, vs);
    for (VarId x : vs) defVars(x, out);
    if (i.kind == VK::ITE) boolVars(i.cond, out);
}
bool samplePoint(const PathCond &pc, BoolId extra, Point &out, int tries) {
    std::vector<uint32_t> eqs;
    for (BoolId b : pc.atoms) collectEq(b, eqs);
    collectEq(extra, eqs);
    // equalities: choose, for each, an input that occurs linearly and only polynomially
    std::vector<std::pair<uint32_t, VarId>> solves;
    std::set<VarId> used;
    for (uint32_t e : eqs) {
        const Poly &p = facPoly(e);
        std::vector<VarId> vs;
        pVars(p, vs);
        std::set<VarId> inDefs;
        for (VarId v : vs)
            if (gVars[v].inputIndex < 0) {
                std::set<VarId> d; defVars(v, d);
                inDefs.insert(d.begin(), d.end());
            }
        std::vector<VarId> cand;
        for (VarId v : vs) {
            if (gVars[v].inputIndex < 0 || gVars[v].kind == VK::INT || used.count(v) || inDefs.count(v)) continue;
            bool lin = true;
            for (auto &t : p.t)
                for (auto &q : t.m->e)
                    if (q.first == v && q.second > 1) lin = false;
            if (lin) cand.push_back(v);
        }
        if (!cand.empty()) {
            VarId v = cand[gRng() % cand.size()];
            used.insert(v);
            solves.push_back({e, v});
        }
    }
    size_t n = gInputs.size();
    for (int k = 0; k < tries; ++k) {
        Point p(n);
        int style = k % 4;
        for (size_t i = 0; i < n; ++i) {
            VarId v = gInputs[i];
            const VarInfo &vi = gVars[v];
            Itv r;
            auto it = pc.itv.find(v);
            if (it != pc.itv.end()) r = it->second;
            if (vi.kind == VK::INT) {
                long lo = vi.lo, hi = vi.hi;
                if (r.hasLo) lo = std::max(lo, (long)std::ceil(r.lo.get_d()));
                if (r.hasHi) hi = std::min(hi, (long)std::floor(r.hi.get_d()));
                if (hi < lo) hi = lo;
                unsigned long span = (unsigned long)(hi - lo) + 1;
                p[i] = (double)(lo + (long)(gRng() % span));
                continue;
            }
            double x;
            long q = (long)(gRng() % 129) - 64;
            if (style == 0) x = q / 16.0;
            else if (style == 1) x = q / 256.0;
            else if (style == 2) x = q / 4.0;
            else { static const double sc[] = {1 / 4096.0, 1 / 64.0, 1 / 16.0, 1.0, 8.0}; x = q * sc[gRng() % 5]; }
            if (x == 0 && gRng() % 2) x = 0.375;
            if (k >= 24 && gRng() % 3 == 0) x *= std::pow(10, (double)(gRng() % 12) - 9);  // rare regions: very small or large values
            if (gSingle && (k & 4)) x *= 1.0123456789;
            double lo = r.hasLo ? r.lo.get_d() : 0, hi = r.hasHi ? r.hi.get_d() : 0;
            if (r.hasLo && r.hasHi) {
                double f = (double)(gRng() % 1023 + 1) / 1024.0;
                if (hi - lo > 1e6) { x = lo + std::fabs(x) ; if (x > hi) x = hi; if (lo < -1e6) { x = q / 16.0; } }
                else if (lo == hi) x = lo;
                else x = lo + (hi - lo) * f;
            } else if (r.hasLo) { if (x < lo || (x == lo && r.loS)) x = lo + std::fabs(x - lo); if (x == lo && r.loS) x = lo + 0.5; }
            else if (r.hasHi) { if (x > hi || (x == hi && r.hiS)) x = hi - std::fabs(x - hi); if (x == hi && r.hiS) x = hi - 0.5; }
            p[i] = x;
        }
        for (auto &s : solves) {
            int ix = gVars[s.second].inputIndex;
            p[ix] = 0; double p0 = evalPoly(p, facPoly(s.first));
            p[ix] = 1; double p1 = evalPoly(p, facPoly(s.first));
            if (p1 != p0) p[ix] = -p0 / (p1 - p0);
        }
        if (extra != B_TRUE && evalBool(p, extra) != 1) continue;
        if (!pointOk(pc, p)) continue;
        out = p;
        return true;
    }
    return false;
}
Point pointFromModel(const PathCond &pc, const Model &m0) {
    // the query covered only the conditions connected to it: the others' inputs
    // come from queries of their own
    Model m = m0;
    for (BoolId b : pc.atoms) {
        std::set<VarId> vs;
        boolVars(b, vs);
        bool open = !vs.empty();
        for (VarId v : vs) if (m.v.count(v)) open = false;
        if (!open) continue;
        Model k;
        if (solve(pc, b, 500, &k) != Res::SAT) continue;
        for (auto &e : k.v) m.v.insert(e);
    }
    Point p(gInputs.size(), 0.0);
    for (size_t i = 0; i < gInputs.size(); ++i) {
        VarId v = gInputs[i];
        auto it = m.v.find(v);
        if (it != m.v.end()) p[i] = it->second;
        else if (gVars[v].kind == VK::INT) {
            auto j = pc.itv.find(v);
            long x = gVars[v].lo;
            if (j != pc.itv.end() && j->second.hasLo && j->second.lo > x) x = (long)std::ceil(j->second.lo.get_d());
            p[i] = (double)x;
        } else {
            double x = ((long)(gRng() % 65) - 32) / 16.0;
            auto j = pc.itv.find(v);
            if (j != pc.itv.end()) {
                const Itv &r = j->second;
                double lo = r.lo.get_d(), hi = r.hi.get_d();
                if (r.hasLo && r.hasHi) x = (std::fabs(lo) > 1e6 || std::fabs(hi) > 1e6) ? (x < lo ? lo : x > hi ? hi : x) : (lo + hi) / 2;
                else if (r.hasLo && x <= lo) x = lo + 1;
                else if (r.hasHi && x >= hi) x = hi - 1;
            }
            p[i] = x;
        }
    }
    // angles that occur in the model only through cosine and sine
    for (auto &kv : m.v) {
        const VarInfo &i = gVars[kv.first];
        if (i.kind != VK::COS) continue;
        auto s = m.v.find(i.mate);
        if (s == m.v.end()) continue;
        double ang = std::atan2(s->second, kv.second);
        // arg = coef * input: set the input unless the model fixed it
        if (i.a.den.empty() && i.a.num.t.size() == 1 && i.a.num.t[0].m->deg == 1) {
            VarId v = i.a.num.t[0].m->e[0].first;
            if (gVars[v].inputIndex >= 0 && !m.v.count(v)) p[gVars[v].inputIndex] = ang / i.a.num.t[0].c.get_d();
        }
    }
    return p;
}

// ----------------------------------------------------------------------- z3
static z3::context &ctx() {
    static z3::context *c = nullptr;
    if (!c) {
        c = new z3::context();
    }
    return *c;
}
struct Z3Enc {
    z3::context &c;
    std::vector<z3::expr> axioms;
    std::map<VarId, z3::expr> vars;
    std::map<std::string, z3::expr> rfs;
    const std::map<VarId, double> *pins;
    bool linear = true;
    int fresh = 0;
    Z3Enc(const std::map<VarId, double> *p) : c(ctx()), pins(p) {}
    z3::expr num(const mpq_class &q) { return c.real_val(q.get_str().c_str()); }
    z3::expr poly(const Poly &p) {
        if (p.zero()) return c.real_val(0);
        z3::expr_vector sum(c);
        for (auto &t : p.t) {
            z3::expr_vector f(c);
            if (t.c != 1 || t.m->deg == 0) f.push_back(num(t.c));
            if (t.m->deg > 1) linear = false;
            for (auto &e : t.m->e)
                for (uint32_t k = 0; k < e.second; ++k) f.push_back(var(e.first));
            if (f.size() == 1) sum.push_back(f[0]);
            else sum.push_back(z3::expr(c, Z3_mk_mul(c, f.size(), reinterpret_cast<Z3_ast *>(std::vector<Z3_ast>(asts(f)).data()))));
        }
        if (sum.size() == 1) return sum[0];
        return z3::sum(sum);
    }
    static std::vector<Z3_ast> asts(z3::expr_vector &v) {
        std::vector<Z3_ast> r;
        for (unsigned i = 0; i < v.size(); ++i) r.push_back(v[i]);
        return r;
    }
    z3::expr rf(const RF &r) {
        if (r.den.empty()) return poly(r.num);
        std::ostringstream k;
        for (auto &t : r.num.t) k << t.m->id << ":" << t.c << ";";
        k << "|";
        for (auto &d : r.den) k << d.first << "^" << d.second << ";";
        auto it = rfs.find(k.str());
        if (it != rfs.end()) return it->second;
        z3::expr v = c.real_const(("rf" + std::to_string(fresh++)).c_str());
        rfs.insert({k.str(), v});
        z3::expr d = poly(rDenPoly(r));
        linear = false;
        axioms.push_back(v * d == poly(r.num));
        axioms.push_back(d != 0);
        return v;
    }
    z3::expr var(VarId v) {
        auto it = vars.find(v);
        if (it != vars.end()) return it->second;
        const VarInfo i = gVars[v];
        std::string nm = "v" + std::to_string(v);
        z3::expr e(c);
        if (pins) {
            auto p = pins->find(v);
            if (p != pins->end()) {
                mpq_class q(p->second);
                e = num(q);
                vars.insert({v, e});
                return e;
            }
        }
        if (i.kind == VK::INT) {
            z3::expr k = c.int_const(nm.c_str());
            axioms.push_back(k >= c.int_val((int64_t)i.lo) && k <= c.int_val((int64_t)i.hi));
            e = z3::to_real(k);
        } else if (i.kind == VK::TRUNC || i.kind == VK::FLOOR) e = z3::to_real(c.int_const(nm.c_str()));
        else e = c.real_const(nm.c_str());
        vars.insert({v, e});
        switch (i.kind) {
            case VK::COS: case VK::SIN: {
                z3::expr m = var(i.mate);
                if (i.kind == VK::COS) axioms.push_back(e * e + m * m == 1);
                linear = false;
                break;
            }
            case VK::SQRT: {
                axioms.push_back(e >= 0);
                axioms.push_back(e * e == rf(i.a));
                linear = false;
                break;
            }
            case VK::ABS: {
                z3::expr a = rf(i.a);
                axioms.push_back(e >= 0 && (e == a || e == -a));
                break;
            }
            case VK::TRUNC: {
                z3::expr a = rf(i.a);
                axioms.push_back((a >= 0 && e <= a && a < e + 1) || (a <= 0 && e >= a && a > e - 1));
                break;
            }
            case VK::FLOOR: {
                z3::expr a = rf(i.a);
                axioms.push_back(e <= a && a < e + 1);
                break;
            }
            case VK::F32: {
                z3::expr a = rf(i.a), u = c.real_val(1, 16777216);
                axioms.push_back((a >= 0 && e >= 0 && e <= a + a * u && e >= a - a * u) || (a <= 0 && e <= 0 && e >= a + a * u && e <= a - a * u));
                break;
            }
            case VK::FN: {
                z3::expr a = rf(i.a);
                z3::expr zero = c.real_val(0);
                auto sameSign = [&] { axioms.push_back((a > 0 && e > 0) || (a == 0 && e == 0) || (a < 0 && e < 0)); };
                switch (i.fn) {
                    case FnId::EXP: axioms.push_back(e > 0 && e >= a + 1); break;
                    case FnId::EXP2: axioms.push_back(e > 0); break;
                    case FnId::LOG: axioms.push_back(e <= a - 1); break;
                    case FnId::LOG2: case FnId::LOG10: axioms.push_back((a > 1 && e > 0) || (a == 1 && e == 0) || (a < 1 && e < 0)); break;
                    case FnId::TANH: sameSign(); axioms.push_back(e < 1 && e > -1); break;
                    case FnId::ATAN: sameSign(); axioms.push_back(e < 2 && e > -2); break;
                    case FnId::ASIN: sameSign(); axioms.push_back(e < 2 && e > -2); break;
                    case FnId::ACOS: axioms.push_back(e >= 0 && e < 4); break;
                    case FnId::CBRT: sameSign(); axioms.push_back(e * e * e == a); linear = false; break;
                    case FnId::ATAN2: {
                        z3::expr x = rf(i.b);
                        axioms.push_back(e < 4 && e > -4);
                        axioms.push_back(z3::implies(a > 0, e > 0) && z3::implies(a < 0, e < 0) && z3::implies(a == 0 && x > 0, e == 0));
                        break;
                    }
                    case FnId::POW: axioms.push_back(e >= 0); break;
                }
                break;
            }
            case VK::MAX: case VK::MIN: {
                z3::expr a = rf(i.a), b = rf(i.b);
                if (i.kind == VK::MAX) axioms.push_back((e == a || e == b) && e >= a && e >= b);
                else axioms.push_back((e == a || e == b) && e <= a && e <= b);
                break;
            }
            case VK::ITE: {
                z3::expr a = rf(i.a), b = rf(i.b), k = boolean(i.cond);
                axioms.push_back(z3::implies(k, e == a) && z3::implies(!k, e == b));
                break;
            }
            default: break;
        }
        return e;
    }
    z3::expr boolean(BoolId b) {
        const BNode x = gBools[b];
        switch (x.k) {
            case BK::FALSE_: return c.bool_val(false);
            case BK::TRUE_: return c.bool_val(true);
            case BK::ATOM: {
                z3::expr p = poly(facPoly(x.poly));
                switch (x.mask) {
                    case 1: return p < 0;
                    case 2: return p == 0;
                    case 3: return p <= 0;
                    case 4: return p > 0;
                    case 5: return p != 0;
                    case 6: return p >= 0;
                }
                return c.bool_val(true);
            }
            case BK::AND: return boolean(x.a) && boolean(x.b);
            case BK::OR: return boolean(x.a) || boolean(x.b);
        }
        abort();
    }
};
static double toDouble(z3::context &c, z3::expr e, bool &ok) {
    if (e.is_numeral()) {
        ok = true;
        std::string s = e.get_decimal_string(25);
        if (!s.empty() && s.back() == '?') s.pop_back();
        return strtod(s.c_str(), nullptr);
    }
    if (e.is_algebraic()) {
        ok = true;
        z3::expr a(c, Z3_get_algebraic_number_lower(c, e, 40));
        std::string s = a.get_decimal_string(25);
        if (!s.empty() && s.back() == '?') s.pop_back();
        return strtod(s.c_str(), nullptr);
    }
    ok = false;
    return 0;
}
bool gHard = false;
static Res runZ3(Z3Enc &enc, std::vector<z3::expr> &f, unsigned timeoutMs, Model *m) {
    z3::context &c = ctx();
    auto t0 = std::chrono::steady_clock::now();
    bool hasInt = false;
    for (auto &kv : enc.vars)
        if (gVars[kv.first].kind == VK::INT || gVars[kv.first].kind == VK::TRUNC || gVars[kv.first].kind == VK::FLOOR) hasInt = true;
    Res res = Res::UNKNOWN;
    try {
        z3::params p(c);
        p.set("timeout", timeoutMs);
        z3::solver s = (hasInt || enc.linear) ? z3::solver(c) : z3::tactic(c, "qfnra-nlsat").mk_solver();
        s.set(p);
        for (auto &a : enc.axioms) s.add(a);
        for (auto &a : f) s.add(a);
        z3::check_result r = s.check();
        if (r == z3::unknown && !(hasInt || enc.linear)) {
            z3::solver s2 = gHard ? z3::solver(c) : z3::solver(c, "QF_NRA");
            s2.set(p);
            for (auto &a : enc.axioms) s2.add(a);
            for (auto &a : f) s2.add(a);
            r = s2.check();
            if (r == z3::sat && m) {
                z3::model mod = s2.get_model();
                for (auto &kv : enc.vars) {
                    bool ok;
                    double d = toDouble(c, mod.eval(kv.second, true), ok);
                    if (ok) m->v[kv.first] = d;
                }
            }
        } else if (r == z3::sat && m) {
            z3::model mod = s.get_model();
            for (auto &kv : enc.vars) {
                bool ok;
                double d = toDouble(c, mod.eval(kv.second, true), ok);
                if (ok) m->v[kv.first] = d;
            }
        }
        res = r == z3::sat ? Res::SAT : r == z3::unsat ? Res::UNSAT : Res::UNKNOWN;
    } catch (z3::exception &e) {
        res = Res::UNKNOWN;
    }
    if (res == Res::UNKNOWN && getenv("SCSX_DUMP")) {
        static int k = 0;
        z3::solver s(c);
        for (auto &a : enc.axioms) s.add(a);
        for (auto &a : f) s.add(a);
        FILE *o = fopen((std::string(getenv("SCSX_DUMP")) + std::to_string(k++) + ".smt2").c_str(), "w");
        fprintf(o, "(set-logic QF_NRA)\n%s(check-sat)\n", s.to_smt2().c_str());
        fclose(o);
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    gStats.queries++;
    gStats.z3Time += dt;
    gStats.maxQuery = std::max(gStats.maxQuery, dt);
    if (res == Res::SAT) gStats.sat++;
    else if (res == Res::UNSAT) gStats.unsat++;
    else gStats.unknown++;
    return res;
}
static void slice(const PathCond &pc, std::set<VarId> seed, std::vector<BoolId> &out, bool all) {
    std::vector<std::pair<BoolId, std::set<VarId>>> rest;
    for (BoolId b : pc.atoms) {
        std::set<VarId> s;
        boolVars(b, s);
        rest.push_back({b, s});
    }
    if (all) { for (auto &r : rest) out.push_back(r.first); return; }
    bool change = true;
    std::vector<char> taken(rest.size(), 0);
    while (change) {
        change = false;
        for (size_t i = 0; i < rest.size(); ++i) {
            if (taken[i]) continue;
            bool hit = false;
            for (VarId v : rest[i].second)
                if (seed.count(v)) { hit = true; break; }
            if (hit) {
                taken[i] = 1;
                change = true;
                out.push_back(rest[i].first);
                seed.insert(rest[i].second.begin(), rest[i].second.end());
            }
        }
    }
}
static std::map<std::vector<BoolId>, std::pair<Res, Model>> gCache;
Res solve(const PathCond &pc, BoolId extra, unsigned timeoutMs, Model *m, const std::map<VarId, double> *pins) {
    if (extra == B_FALSE) return Res::UNSAT;
    std::set<VarId> seed;
    boolVars(extra, seed);
    std::vector<BoolId> sl;
    slice(pc, seed, sl, extra == B_TRUE);
    sl.push_back(extra);
    std::sort(sl.begin(), sl.end());
    sl.erase(std::unique(sl.begin(), sl.end()), sl.end());
    if (!pins) {
        auto it = gCache.find(sl);
        if (it != gCache.end()) {
            gStats.cacheHits++;
            if (m) *m = it->second.second;
            return it->second.first;
        }
    }
    Z3Enc enc(pins);
    std::vector<z3::expr> f;
    for (BoolId b : sl) f.push_back(enc.boolean(b));
    Model mm;
    Res r = runZ3(enc, f, timeoutMs, &mm);
    if (!pins) gCache[sl] = {r, mm};
    if (m) *m = mm;
    return r;
}
Res solveNeq(const PathCond &pc, const RF &a, const RF &b, unsigned timeoutMs, Model *m) {
    std::set<VarId> seed;
    std::vector<VarId> vs;
    rVars(a, vs);
    rVars(b, vs);
    for (VarId v : vs) defVars(v, seed);
    std::vector<BoolId> sl;
    slice(pc, seed, sl, false);
    Z3Enc enc(nullptr);
    // a.num/a.den != b.num/b.den with the common denominator known to be nonzero
    Poly l = pMul(a.num, rDenPoly(b)), r = pMul(b.num, rDenPoly(a));
    std::vector<z3::expr> f;
    f.push_back(enc.poly(l) != enc.poly(r));
    for (BoolId x : sl) f.push_back(enc.boolean(x));
    return runZ3(enc, f, timeoutMs, m);
}
