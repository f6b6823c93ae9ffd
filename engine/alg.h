// Exact algebra for the symbolic executor: polynomials and rational functions
// with GMP coefficients, modulo the square rules of sine/sqrt/abs variables.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <memory>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

typedef uint32_t VarId;
typedef uint32_t NodeId;
typedef uint32_t BoolId;

struct Mono {
    std::vector<std::pair<VarId, uint32_t>> e;
    uint32_t deg = 0;
    uint32_t id = 0;
};
typedef const Mono *MonoP;

struct Term {
    MonoP m;
    mpq_class c;
};

struct Poly {
    std::vector<Term> t;  // strictly descending in deglex
    bool zero() const { return t.empty(); }
    bool isConst() const { return t.empty() || (t.size() == 1 && t[0].m->deg == 0); }
    mpq_class constVal() const { return t.empty() ? mpq_class(0) : t[0].c; }
};

struct TooBig {};  // thrown when a normal form exceeds its size limit

typedef uint32_t FacId;  // interned denominators

struct RF {
    Poly num;
    std::vector<std::pair<FacId, int>> den;  // sorted by id
};

enum class VK : uint8_t { INPUT, INT, COS, SIN, SQRT, ABS, MAX, MIN, ITE, TRUNC, FLOOR, F32, FN };
enum class FnId : uint8_t { EXP, LOG, ATAN2, ACOS, ASIN, ATAN, CBRT, EXP2, LOG2, LOG10, TANH, POW };

struct VarInfo {
    VK kind;
    std::string name;
    // definition: COS/SIN/SQRT/ABS use a; MAX/MIN a,b; ITE cond ? a : b;
    // TRUNC/FLOOR a rounded to an integer, F32 a rounded to single precision;
    // FN fn(a) or fn(a, b) of the mathematical library
    RF a, b;
    BoolId cond = 0;
    FnId fn = FnId::EXP;
    VarId mate = 0;     // COS<->SIN
    bool hasSq = false; // v^2 = sq
    Poly sq;
    long lo = 0, hi = 0;  // INT range
    int inputIndex = -1;
};

extern std::vector<VarInfo> gVars;
extern size_t gPolyLimit;

MonoP monoOne();
MonoP monoVar(VarId v, uint32_t e = 1);
MonoP monoMul(MonoP a, MonoP b);
int monoCmp(MonoP a, MonoP b);

Poly pConst(const mpq_class &c);
Poly pVar(VarId v);
Poly pAdd(const Poly &a, const Poly &b);
Poly pSub(const Poly &a, const Poly &b);
Poly pNeg(const Poly &a);
Poly pScale(const Poly &a, const mpq_class &c);
Poly pMul(const Poly &a, const Poly &b);  // reduced
Poly pReduce(const Poly &a);
bool pEq(const Poly &a, const Poly &b);
size_t pHash(const Poly &a);
bool pDivExact(const Poly &a, const Poly &b, Poly &q);
// scale to primitive integer coefficients with positive leading one; returns factor f, a = f * prim
mpq_class pPrimitive(const Poly &a, Poly &prim);
std::string pStr(const Poly &a, size_t maxTerms = 12);
void pVars(const Poly &a, std::vector<VarId> &out);

FacId facIntern(const Poly &prim);
const Poly &facPoly(FacId f);

RF rConst(const mpq_class &c);
RF rVar(VarId v);
RF rAdd(const RF &a, const RF &b);
RF rSub(const RF &a, const RF &b);
RF rNeg(const RF &a);
RF rMul(const RF &a, const RF &b);
RF rInv(const RF &a);  // a.num != 0
RF rDiff(const RF &a, VarId x);  // total derivative through opaque variables
bool rEq(const RF &a, const RF &b);
size_t rHash(const RF &a);
std::string rStr(const RF &a);
Poly rDenPoly(const RF &a);
void rVars(const RF &a, std::vector<VarId> &out);
