#include "alg.h"
#include <algorithm>
#include <cassert>
#include <deque>
#include <map>
#include <sstream>

std::vector<VarInfo> gVars;
size_t gPolyLimit = 40000;

// ---------------------------------------------------------------- monomials
struct MonoKeyHash {
    size_t operator()(const std::vector<std::pair<VarId, uint32_t>> &e) const {
        size_t h = 1469598103934665603ULL;
        for (auto &p : e) {
            h = (h ^ p.first) * 1099511628211ULL;
            h = (h ^ p.second) * 1099511628211ULL;
        }
        return h;
    }
};
static std::deque<Mono> gMonos;
static std::unordered_map<std::vector<std::pair<VarId, uint32_t>>, MonoP, MonoKeyHash> gMonoMap;

static MonoP monoIntern(const std::vector<std::pair<VarId, uint32_t>> &e) {
    auto it = gMonoMap.find(e);
    if (it != gMonoMap.end()) return it->second;
    Mono m;
    m.e = e;
    for (auto &p : e) m.deg += p.second;
    m.id = gMonos.size();
    gMonos.push_back(m);
    MonoP r = &gMonos.back();
    gMonoMap[e] = r;
    return r;
}
MonoP monoOne() {
    static MonoP one = monoIntern({});
    return one;
}
MonoP monoVar(VarId v, uint32_t e) {
    if (e == 0) return monoOne();
    return monoIntern({{v, e}});
}
static std::unordered_map<uint64_t, MonoP> gMulCache;
MonoP monoMul(MonoP a, MonoP b) {
    if (a->deg == 0) return b;
    if (b->deg == 0) return a;
    if (a->id > b->id) std::swap(a, b);
    uint64_t key = ((uint64_t)a->id << 32) | b->id;
    auto it = gMulCache.find(key);
    if (it != gMulCache.end()) return it->second;
    std::vector<std::pair<VarId, uint32_t>> e;
    size_t i = 0, j = 0;
    while (i < a->e.size() || j < b->e.size()) {
        if (j == b->e.size() || (i < a->e.size() && a->e[i].first < b->e[j].first)) e.push_back(a->e[i++]);
        else if (i == a->e.size() || b->e[j].first < a->e[i].first) e.push_back(b->e[j++]);
        else { e.push_back({a->e[i].first, a->e[i].second + b->e[j].second}); ++i; ++j; }
    }
    MonoP r = monoIntern(e);
    gMulCache[key] = r;
    return r;
}
int monoCmp(MonoP a, MonoP b) {
    if (a == b) return 0;
    if (a->deg != b->deg) return a->deg < b->deg ? -1 : 1;
    size_t i = 0;
    for (;; ++i) {
        if (i == a->e.size()) return -1;
        if (i == b->e.size()) return 1;
        if (a->e[i].first != b->e[i].first) return a->e[i].first < b->e[i].first ? 1 : -1;
        if (a->e[i].second != b->e[i].second) return a->e[i].second > b->e[i].second ? 1 : -1;
    }
}
static bool monoDiv(MonoP a, MonoP b, MonoP &q) {
    if (b->deg > a->deg) return false;
    std::vector<std::pair<VarId, uint32_t>> e;
    size_t i = 0, j = 0;
    while (i < a->e.size()) {
        if (j < b->e.size() && b->e[j].first < a->e[i].first) return false;
        if (j < b->e.size() && b->e[j].first == a->e[i].first) {
            if (b->e[j].second > a->e[i].second) return false;
            if (a->e[i].second > b->e[j].second) e.push_back({a->e[i].first, a->e[i].second - b->e[j].second});
            ++i; ++j;
        } else e.push_back(a->e[i++]);
    }
    if (j < b->e.size()) return false;
    q = monoIntern(e);
    return true;
}
struct MonoDesc {
    bool operator()(MonoP a, MonoP b) const { return monoCmp(a, b) > 0; }
};

// -------------------------------------------------------------- polynomials
Poly pConst(const mpq_class &c) {
    Poly p;
    if (c != 0) p.t.push_back({monoOne(), c});
    return p;
}
Poly pVar(VarId v) {
    Poly p;
    p.t.push_back({monoVar(v), mpq_class(1)});
    return p;
}
static Poly addImpl(const Poly &a, const Poly &b, bool sub) {
    Poly r;
    r.t.reserve(a.t.size() + b.t.size());
    size_t i = 0, j = 0;
    while (i < a.t.size() || j < b.t.size()) {
        int c;
        if (j == b.t.size()) c = 1;
        else if (i == a.t.size()) c = -1;
        else c = monoCmp(a.t[i].m, b.t[j].m);
        if (c > 0) r.t.push_back(a.t[i++]);
        else if (c < 0) {
            if (sub) r.t.push_back({b.t[j].m, -b.t[j].c});
            else r.t.push_back(b.t[j]);
            ++j;
        } else {
            mpq_class s = sub ? mpq_class(a.t[i].c - b.t[j].c) : mpq_class(a.t[i].c + b.t[j].c);
            if (s != 0) r.t.push_back({a.t[i].m, s});
            ++i; ++j;
        }
    }
    if (r.t.size() > gPolyLimit) throw TooBig();
    return r;
}
Poly pAdd(const Poly &a, const Poly &b) { return addImpl(a, b, false); }
Poly pSub(const Poly &a, const Poly &b) { return addImpl(a, b, true); }
Poly pNeg(const Poly &a) { return pScale(a, mpq_class(-1)); }
Poly pScale(const Poly &a, const mpq_class &c) {
    Poly r;
    if (c == 0) return r;
    r = a;
    for (auto &t : r.t) t.c *= c;
    return r;
}
static Poly fromMap(std::unordered_map<MonoP, mpq_class> &acc) {
    Poly r;
    r.t.reserve(acc.size());
    for (auto &p : acc)
        if (p.second != 0) r.t.push_back({p.first, p.second});
    std::sort(r.t.begin(), r.t.end(), [](const Term &x, const Term &y) { return monoCmp(x.m, y.m) > 0; });
    return r;
}
static Poly mulRaw(const Poly &a, const Poly &b) {
    if (a.zero() || b.zero()) return Poly();
    if (a.isConst()) return pScale(b, a.constVal());
    if (b.isConst()) return pScale(a, b.constVal());
    if (a.t.size() * b.t.size() > 60 * gPolyLimit) throw TooBig();
    std::unordered_map<MonoP, mpq_class> acc;
    acc.reserve(a.t.size() * 2 + b.t.size() * 2);
    for (auto &x : a.t)
        for (auto &y : b.t) {
            acc[monoMul(x.m, y.m)] += x.c * y.c;
            if (acc.size() > 2 * gPolyLimit) throw TooBig();
        }
    return fromMap(acc);
}
static bool reducible(MonoP m, VarId &v, uint32_t &e) {
    for (auto &p : m->e)
        if (p.second >= 2 && gVars[p.first].hasSq) { v = p.first; e = p.second; return true; }
    return false;
}
Poly pReduce(const Poly &a) {
    bool any = false;
    VarId v; uint32_t e;
    for (auto &t : a.t)
        if (reducible(t.m, v, e)) { any = true; break; }
    if (!any) return a;
    // group reducible terms by (variable, power) so that the rule is multiplied once per group
    Poly rest;
    std::map<std::pair<VarId, uint32_t>, Poly> groups;
    for (auto &t : a.t) {
        if (!reducible(t.m, v, e)) { rest.t.push_back(t); continue; }
        MonoP q;
        uint32_t half = e / 2;
        bool ok = monoDiv(t.m, monoVar(v, 2 * half), q);
        assert(ok); (void)ok;
        Poly &g = groups[{v, half}];
        Poly one; one.t.push_back({q, t.c});
        g = pAdd(g, one);
    }
    for (auto &g : groups) {
        Poly f = g.second;
        for (uint32_t i = 0; i < g.first.second; ++i) f = mulRaw(f, gVars[g.first.first].sq);
        rest = pAdd(rest, f);
    }
    return pReduce(rest);
}
Poly pMul(const Poly &a, const Poly &b) { return pReduce(mulRaw(a, b)); }
bool pEq(const Poly &a, const Poly &b) {
    if (a.t.size() != b.t.size()) return false;
    for (size_t i = 0; i < a.t.size(); ++i)
        if (a.t[i].m != b.t[i].m || a.t[i].c != b.t[i].c) return false;
    return true;
}
static size_t qHash(const mpq_class &c) {
    return mpz_get_ui(c.get_num_mpz_t()) * 31 + mpz_get_ui(c.get_den_mpz_t()) * 17 + (mpz_sgn(c.get_num_mpz_t()) < 0);
}
size_t pHash(const Poly &a) {
    size_t h = 1469598103934665603ULL;
    for (auto &t : a.t) {
        h = (h ^ t.m->id) * 1099511628211ULL;
        h = (h ^ qHash(t.c)) * 1099511628211ULL;
    }
    return h;
}
bool pDivExact(const Poly &a, const Poly &b, Poly &q) {
    if (b.zero()) return false;
    if (a.zero()) { q = Poly(); return true; }
    if (b.isConst()) { q = pScale(a, 1 / b.constVal()); return true; }
    MonoP mq;
    if (!monoDiv(a.t[0].m, b.t[0].m, mq)) return false;
    if (!monoDiv(a.t.back().m, b.t.back().m, mq)) return false;
    if (b.t.size() == 1) {
        q = Poly();
        for (auto &t : a.t) {
            if (!monoDiv(t.m, b.t[0].m, mq)) return false;
            q.t.push_back({mq, t.c / b.t[0].c});
        }
        return true;
    }
    if (a.t.size() * b.t.size() > 20 * gPolyLimit) return false;
    std::map<MonoP, mpq_class, MonoDesc> rem;
    for (auto &t : a.t) rem[t.m] = t.c;
    q = Poly();
    size_t steps = 0;
    while (!rem.empty()) {
        auto it = rem.begin();
        if (!monoDiv(it->first, b.t[0].m, mq)) return false;
        mpq_class c = it->second / b.t[0].c;
        if (++steps > a.t.size() + 50) return false;
        q.t.push_back({mq, c});
        for (auto &t : b.t) {
            MonoP m = monoMul(mq, t.m);
            auto f = rem.find(m);
            if (f == rem.end()) rem[m] = -c * t.c;
            else {
                f->second -= c * t.c;
                if (f->second == 0) rem.erase(f);
            }
        }
    }
    return true;
}
mpq_class pPrimitive(const Poly &a, Poly &prim) {
    if (a.zero()) { prim = a; return 1; }
    mpz_class g = 0, l = 1;
    for (auto &t : a.t) {
        mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), t.c.get_num_mpz_t());
        mpz_lcm(l.get_mpz_t(), l.get_mpz_t(), t.c.get_den_mpz_t());
    }
    mpq_class f(g, l);
    f.canonicalize();
    if (a.t[0].c < 0) f = -f;
    prim = pScale(a, 1 / f);
    return f;
}
void pVars(const Poly &a, std::vector<VarId> &out) {
    for (auto &t : a.t)
        for (auto &p : t.m->e) out.push_back(p.first);
    std::sort(out.begin(), out.end());
    out.erase(std::unique(out.begin(), out.end()), out.end());
}
std::string pStr(const Poly &a, size_t maxTerms) {
    if (a.zero()) return "0";
    std::ostringstream o;
    size_t n = 0;
    for (auto &t : a.t) {
        if (n++ == maxTerms) { o << " + ...(" << a.t.size() << " terms)"; break; }
        if (n > 1) o << " + ";
        bool first = true;
        if (t.c != 1 || t.m->deg == 0) { o << t.c.get_str(); first = false; }
        for (auto &p : t.m->e) {
            if (!first) o << "*";
            first = false;
            o << gVars[p.first].name;
            if (p.second != 1) o << "^" << p.second;
        }
    }
    return o.str();
}

// ----------------------------------------------------------------- factors
static std::deque<Poly> gFacs;
static std::unordered_multimap<size_t, FacId> gFacMap;
FacId facIntern(const Poly &p) {
    size_t h = pHash(p);
    auto r = gFacMap.equal_range(h);
    for (auto it = r.first; it != r.second; ++it)
        if (pEq(gFacs[it->second], p)) return it->second;
    FacId id = gFacs.size();
    gFacs.push_back(p);
    gFacMap.insert({h, id});
    return id;
}
const Poly &facPoly(FacId f) { return gFacs[f]; }

// ------------------------------------------------------ rational functions
RF rConst(const mpq_class &c) { RF r; r.num = pConst(c); return r; }
RF rVar(VarId v) { RF r; r.num = pVar(v); return r; }

static void addFac(std::vector<std::pair<FacId, int>> &d, FacId f, int e) {
    auto it = std::lower_bound(d.begin(), d.end(), std::make_pair(f, -1000000));
    if (it != d.end() && it->first == f) it->second += e;
    else d.insert(it, {f, e});
}
static Poly pPow(const Poly &p, int e) {
    Poly r = pConst(1);
    for (int i = 0; i < e; ++i) r = pMul(r, p);
    return r;
}
static void cancel(RF &r) {
    if (r.num.zero()) { r.den.clear(); return; }
    for (size_t i = 0; i < r.den.size();) {
        const Poly &f = facPoly(r.den[i].first);
        while (r.den[i].second > 0) {
            Poly q;
            if (!pDivExact(r.num, f, q)) break;
            r.num = q;
            --r.den[i].second;
        }
        if (r.den[i].second == 0) r.den.erase(r.den.begin() + i);
        else ++i;
    }
    // a squared opaque variable in the denominator is replaced by its rule
    for (size_t i = 0; i < r.den.size(); ++i) {
        const Poly &f = facPoly(r.den[i].first);
        if (f.t.size() == 1 && f.t[0].m->e.size() == 1 && f.t[0].m->deg == 1 && r.den[i].second >= 2) {
            VarId v = f.t[0].m->e[0].first;
            if (gVars[v].hasSq && gVars[v].kind != VK::SIN) {
                int half = r.den[i].second / 2;
                r.den[i].second -= 2 * half;
                if (r.den[i].second == 0) r.den.erase(r.den.begin() + i);
                RF inv = rInv(RF{gVars[v].sq, {}});
                for (int k = 0; k < half; ++k) r = rMul(r, inv);
                return;
            }
        }
    }
}
RF rAdd(const RF &a, const RF &b) {
    RF r;
    if (a.num.zero()) return b;
    if (b.num.zero()) return a;
    if (a.den == b.den) {
        r.num = pAdd(a.num, b.num);
        r.den = a.den;
        if (!r.den.empty()) cancel(r);
        return r;
    }
    Poly fa = pConst(1), fb = pConst(1);
    size_t i = 0, j = 0;
    while (i < a.den.size() || j < b.den.size()) {
        if (j == b.den.size() || (i < a.den.size() && a.den[i].first < b.den[j].first)) {
            fb = pMul(fb, pPow(facPoly(a.den[i].first), a.den[i].second));
            r.den.push_back(a.den[i++]);
        } else if (i == a.den.size() || b.den[j].first < a.den[i].first) {
            fa = pMul(fa, pPow(facPoly(b.den[j].first), b.den[j].second));
            r.den.push_back(b.den[j++]);
        } else {
            int ea = a.den[i].second, eb = b.den[j].second;
            if (ea > eb) fb = pMul(fb, pPow(facPoly(a.den[i].first), ea - eb));
            else if (eb > ea) fa = pMul(fa, pPow(facPoly(a.den[i].first), eb - ea));
            r.den.push_back({a.den[i].first, std::max(ea, eb)});
            ++i; ++j;
        }
    }
    r.num = pAdd(pMul(a.num, fa), pMul(b.num, fb));
    cancel(r);
    return r;
}
RF rNeg(const RF &a) { RF r = a; r.num = pNeg(a.num); return r; }
RF rSub(const RF &a, const RF &b) { return rAdd(a, rNeg(b)); }
RF rMul(const RF &a0, const RF &b0) {
    if (a0.num.zero() || b0.num.zero()) return RF();
    RF a = a0, b = b0;
    // cross-cancel first: keeps products small
    for (auto &d : b.den)
        while (d.second > 0) {
            Poly q;
            if (!pDivExact(a.num, facPoly(d.first), q)) break;
            a.num = q; --d.second;
        }
    for (auto &d : a.den)
        while (d.second > 0) {
            Poly q;
            if (!pDivExact(b.num, facPoly(d.first), q)) break;
            b.num = q; --d.second;
        }
    RF r;
    for (auto &d : a.den) if (d.second) addFac(r.den, d.first, d.second);
    for (auto &d : b.den) if (d.second) addFac(r.den, d.first, d.second);
    r.num = pMul(a.num, b.num);
    cancel(r);
    return r;
}
RF rInv(const RF &a) {
    RF r;
    assert(!a.num.zero());
    r.num = pConst(1);
    for (auto &d : a.den) r.num = pMul(r.num, pPow(facPoly(d.first), d.second));
    Poly prim;
    mpq_class f = pPrimitive(a.num, prim);
    r.num = pScale(r.num, 1 / f);
    if (!prim.isConst()) {
        // split off single variables common to all terms
        std::vector<std::pair<VarId, uint32_t>> common = prim.t[0].m->e;
        for (auto &t : prim.t) {
            std::vector<std::pair<VarId, uint32_t>> nc;
            for (auto &p : common)
                for (auto &q : t.m->e)
                    if (q.first == p.first) nc.push_back({p.first, std::min(p.second, q.second)});
            common = nc;
        }
        for (auto &p : common) {
            Poly q;
            Poly mono; mono.t.push_back({monoVar(p.first, p.second), mpq_class(1)});
            bool ok = pDivExact(prim, mono, q);
            assert(ok); (void)ok;
            prim = q;
            addFac(r.den, facIntern(pVar(p.first)), p.second);
        }
        // split off already known factors
        if (!prim.isConst() && prim.t.size() < 3000) {
            size_t n = gFacs.size();
            for (size_t i = 0; i < n && i < 400 && !prim.isConst(); ++i) {
                if (gFacs[i].t.size() < 2 || gFacs[i].t[0].m->deg > prim.t[0].m->deg) continue;
                if (gFacs[i].t.size() > prim.t.size()) continue;
                Poly q;
                while (!prim.isConst() && pDivExact(prim, gFacs[i], q)) {
                    prim = q;
                    addFac(r.den, (FacId)i, 1);
                }
            }
        }
        if (!prim.isConst()) {
            Poly pp;
            mpq_class f2 = pPrimitive(prim, pp);
            r.num = pScale(r.num, 1 / f2);
            addFac(r.den, facIntern(pp), 1);
        } else if (prim.constVal() != 1) r.num = pScale(r.num, 1 / prim.constVal());
    } else r.num = pScale(r.num, 1 / prim.constVal());
    cancel(r);
    return r;
}
bool rEq(const RF &a, const RF &b) { return a.den == b.den && pEq(a.num, b.num); }
size_t rHash(const RF &a) {
    size_t h = pHash(a.num);
    for (auto &d : a.den) h = (h * 1000003) ^ (d.first * 131 + d.second);
    return h;
}
Poly rDenPoly(const RF &a) {
    Poly r = pConst(1);
    for (auto &d : a.den) r = pMul(r, pPow(facPoly(d.first), d.second));
    return r;
}
void rVars(const RF &a, std::vector<VarId> &out) {
    pVars(a.num, out);
    for (auto &d : a.den) pVars(facPoly(d.first), out);
}
std::string rStr(const RF &a) {
    std::string s = pStr(a.num);
    if (!a.den.empty()) {
        s = "(" + s + ")/(";
        bool first = true;
        for (auto &d : a.den) {
            if (!first) s += " * ";
            first = false;
            s += "(" + pStr(facPoly(d.first)) + ")";
            if (d.second != 1) s += "^" + std::to_string(d.second);
        }
        s += ")";
    }
    return s;
}

// --------------------------------------------------------------- derivative
static std::map<std::pair<VarId, VarId>, RF> gDVar;
static const RF &varDiff(VarId v, VarId x) {
    auto key = std::make_pair(v, x);
    auto it = gDVar.find(key);
    if (it != gDVar.end()) return it->second;
    RF r;
    if (v == x) r = rConst(1);
    else switch (gVars[v].kind) {
        case VK::FN: {
            const RF a = gVars[v].a, b = gVars[v].b;
            switch (gVars[v].fn) {
                case FnId::EXP: r = rMul(rDiff(a, x), rVar(v)); break;
                case FnId::LOG: r = rMul(rDiff(a, x), rInv(a)); break;
                case FnId::ATAN: r = rMul(rDiff(a, x), rInv(rAdd(rConst(1), rMul(a, a)))); break;
                case FnId::ATAN2: r = rMul(rSub(rMul(b, rDiff(a, x)), rMul(a, rDiff(b, x))), rInv(rAdd(rMul(a, a), rMul(b, b)))); break;
                default: throw TooBig{};
            }
            break;
        }
        case VK::COS: r = rMul(rDiff(gVars[v].a, x), rNeg(rVar(gVars[v].mate))); break;
        case VK::SIN: r = rMul(rDiff(gVars[v].a, x), rVar(gVars[v].mate)); break;
        case VK::SQRT: {
            RF d = rDiff(gVars[v].a, x);
            if (!d.num.zero()) r = rMul(d, rInv(rMul(rConst(2), rVar(v))));
            break;
        }
        case VK::ABS: {  // d|p| = p p' / |p|
            RF d = rDiff(gVars[v].a, x);
            if (!d.num.zero()) r = rMul(rMul(d, gVars[v].a), rInv(rVar(v)));
            break;
        }
        case VK::MAX: case VK::MIN: case VK::ITE:
            if (!rDiff(gVars[v].a, x).num.zero() || !rDiff(gVars[v].b, x).num.zero()) throw TooBig{};
            break;
        default: break;
    }
    return gDVar[key] = r;
}
static RF pDiff(const Poly &p, VarId x) {
    std::vector<VarId> vs;
    pVars(p, vs);
    RF total;
    for (VarId v : vs) {
        const RF &dv = varDiff(v, x);
        if (dv.num.zero()) continue;
        std::unordered_map<MonoP, mpq_class> acc;
        for (auto &t : p.t)
            for (auto &q : t.m->e)
                if (q.first == v) {
                    MonoP m;
                    monoDiv(t.m, monoVar(v), m);
                    acc[m] += t.c * (int)q.second;
                }
        RF part;
        part.num = fromMap(acc);
        total = rAdd(total, rMul(part, dv));
    }
    return total;
}
RF rDiff(const RF &a, VarId x) {
    RF dn = pDiff(a.num, x);
    if (a.den.empty()) return dn;
    RF inv = rConst(1);
    for (auto &d : a.den) {
        RF f; f.num = facPoly(d.first);
        for (int i = 0; i < d.second; ++i) inv = rMul(inv, rInv(f));
    }
    RF r = rMul(dn, inv);
    RF A; A.num = a.num;
    for (auto &d : a.den) {  // - a * e * f'/f
        RF df = pDiff(facPoly(d.first), x);
        if (df.num.zero()) continue;
        RF f; f.num = facPoly(d.first);
        r = rSub(r, rMul(rMul(rMul(A, inv), rConst(d.second)), rMul(df, rInv(f))));
    }
    return r;
}
