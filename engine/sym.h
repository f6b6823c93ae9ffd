// Symbolic values: extended-real expression nodes, boolean conditions over
// polynomial signs, path conditions with witnesses, and the z3 interface.
#pragma once
#include "alg.h"
#include <chrono>
#include <map>
#include <random>
#include <set>

enum class Op : uint8_t { CONST, PINF, NINF, NAN_, RAT /* rf given */, ADD, SUB, MUL, DIV, NEG };
struct Node {
    Op op;
    NodeId a = 0, b = 0;
    mpq_class c;
    std::shared_ptr<RF> rf;
};
const NodeId N_NAN = 0, N_PINF = 1, N_NINF = 2;

enum : uint8_t { S_NEG = 1, S_ZERO = 2, S_POS = 4, S_ALL = 7 };
enum class BK : uint8_t { FALSE_, TRUE_, ATOM, AND, OR };
struct BNode {
    BK k;
    uint32_t poly = 0;  // factor table id
    uint8_t mask = 0;
    BoolId a = 0, b = 0;
};
const BoolId B_FALSE = 0, B_TRUE = 1;

struct Itv {  // closed/open rational interval
    bool hasLo = false, hasHi = false, loS = false, hiS = false;
    mpq_class lo, hi;
};

typedef std::vector<double> Point;  // by input index

struct PathCond {
    std::vector<BoolId> atoms;
    std::map<uint32_t, uint8_t> polyMask;
    std::map<VarId, Itv> itv;
    std::vector<Point> wit;
};

struct Stats {
    uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, quickDecided = 0, witnessDecided = 0, cacheHits = 0;
    double z3Time = 0, maxQuery = 0;
    uint64_t assertQueries = 0, assertUnsat = 0;
};
extern Stats gStats;
extern std::vector<VarId> gInputs;  // input index -> var
extern std::mt19937_64 gRng;
extern unsigned gBranchTimeoutMs, gAssertTimeoutMs;

void symInit();
const Node &node(NodeId n);
NodeId nConst(const mpq_class &c);
NodeId nVar(VarId v);
NodeId nRF(const RF &r);
NodeId nOp(Op op, NodeId a, NodeId b);  // finite operands only; DIV needs nonzero divisor
const RF &nform(NodeId n);              // throws TooBig
inline bool nSpecial(NodeId n) { return n <= 2; }
bool nIsConst(NodeId n, mpq_class &c);
std::string nStr(NodeId n);

VarId newInput(const std::string &name, bool isInt, long lo, long hi);
VarId opaqueTrig(const RF &arg, bool wantSin, bool &negate);
VarId opaqueSqrt(const RF &arg);
VarId opaqueAbs(const RF &arg);
VarId opaqueRound(const RF &arg, VK kind);  // TRUNC, FLOOR, F32
extern bool gSingle;                        // single-precision rounding occurs
VarId opaqueMax(const RF &a, const RF &b, bool isMin);
VarId opaqueFn(FnId f, const RF &a, const RF &b);
double evalFn(FnId f, double x, double y);
VarId opaqueIte(BoolId c, const RF &a, const RF &b);

BoolId bAtom(const Poly &p, uint8_t mask);
BoolId bAnd(BoolId a, BoolId b);
BoolId bOr(BoolId a, BoolId b);
BoolId bNot(BoolId a);
const BNode &bnode(BoolId b);
std::string bStr(BoolId b);

// sign of a rational function under a path condition
uint8_t quickSignPoly(const PathCond &pc, const Poly &p);
uint8_t quickSign(const PathCond &pc, const RF &r);
uint8_t quickBool(const PathCond &pc, BoolId b);  // bit0: may be false, bit1: may be true
Itv quickItv(const PathCond &pc, const RF &r);
BoolId signBool(const PathCond &pc, const RF &r, uint8_t mask);

enum class Res { SAT, UNSAT, UNKNOWN };
struct Model {
    std::map<VarId, double> v;
};
extern bool gHard;  // last resort: also try the general-purpose solver
Res solve(const PathCond &pc, BoolId extra, unsigned timeoutMs, Model *m, const std::map<VarId, double> *pins = nullptr);
// the assertion query itself: PC and a*d' != c*d' (both sides unsubtracted)
Res solveNeq(const PathCond &pc, const RF &a, const RF &b, unsigned timeoutMs, Model *m);
void pcAdd(PathCond &pc, BoolId b);  // assumes feasibility was established

// numeric evaluation
double evalVar(const Point &p, VarId v);
double evalPoly(const Point &p, const Poly &q, double *scale = nullptr);
double evalRF(const Point &p, const RF &r);
double evalNode(const Point &p, NodeId n);
// 1 true, 0 false, -1 too close to call
int evalBool(const Point &p, BoolId b);
bool pointOk(const PathCond &pc, const Point &p);
bool samplePoint(const PathCond &pc, BoolId extra, Point &out, int tries);
void defVars(VarId v, std::set<VarId> &out);
Point pointFromModel(const PathCond &pc, const Model &m);
