// Symbolic execution engine: see DESIGN.md.
#ifndef VX_SYMBOLIC
#define VX_SYMBOLIC 1
#endif
#include "vx_sym.hpp"
#include "vh.hpp"
#undef ofstream
#undef ifstream
#undef uniform_int_distribution
#include <glog/logging.h>
#include <z3.h>
#include <pthread.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <unordered_map>

namespace vxlog { int g_warnings = 0, g_errors = 0, g_infos = 0; }

using std::string;
using std::vector;
typedef mpq_class Rat;

namespace {

double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
[[noreturn]] void fatal(const string& m) { fprintf(stderr, "ENGINE-ERROR: %s\n", m.c_str()); fflush(stderr); _exit(70); }

struct PathEnd { int why; string msg; };  // 0 assume/infeasible, 1 unknown, 2 unsupported, 3 hang, 4 time
enum { PE_INFEAS = 0, PE_UNKNOWN = 1, PE_UNSUP = 2, PE_HANG = 3, PE_TIME = 4 };

// ------------------------------------------------------------------ z3
Z3_context Z; Z3_solver S; Z3_sort ISORT, RSORT;
Z3_ast zi(const mpz_class& z) { if (z.fits_sint_p()) return Z3_mk_int(Z, (int)z.get_si(), ISORT); return Z3_mk_numeral(Z, z.get_str().c_str(), ISORT); }
Z3_ast zr(const Rat& q) { return Z3_mk_numeral(Z, q.get_str().c_str(), RSORT); }
Z3_ast keep(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
void zerr(Z3_context c, Z3_error_code e) { fatal(string("z3: ") + Z3_get_error_msg(c, e)); }

struct Shared;
struct Stats { uint64_t paths = 0, infeasible = 0, decisions = 0, flips = 0, checks = 0, asserts = 0, sat = 0, unsat = 0, unknown = 0, unsupported = 0, nodes = 0, nondet = 0, cutoff = 0; double solver_s = 0; };
Stats st;

// ------------------------------------------------------------------ vars and nodes
enum VK { INPUT, MONO, ERRV, FLOORV, ROUNDV, INVV, SQRTV, PICKV, SINV, COSV, TANV, OPAQUE, SUMV };
const int GNONE = -1000000;
struct Var {
    VK kind; string name; bool is_int = false; Rat lo, hi; bool has_lo = true, has_hi = true; int gran = GNONE;
    vector<int> args; int prec = 0; bool flag = false; Z3_ast z = nullptr; int partner = -1; Rat cst;
    double dlo = -1e300, dhi = 1e300;
};
std::deque<Var> V;
struct Lin { vector<std::pair<int, Rat>> t; Rat c; };
struct Node { Lin l; Rat lo, hi; int gran; int basek = -1; Rat scale, off; bool allint; Rat nzmin; };
std::deque<Node> N(1);  // ids from 1; references stay valid

struct LinHash {
    static size_t hq(const Rat& q) { size_t h = mpz_get_ui(q.get_num_mpz_t()) * 1000003u ^ mpz_get_ui(q.get_den_mpz_t()) * 7919u; if (sgn(q) < 0) h ^= 0x9e3779b97f4a7c15ull; return h; }
    static size_t h(const Lin& l) { size_t x = hq(l.c); for (auto& p : l.t) x = (x * 0x100000001b3ull) ^ (size_t)p.first * 0x9E3779B1u ^ hq(p.second); return x; }
};
std::unordered_multimap<size_t, int> ntab;

Rat pow2(int e) { Rat r(1); if (e >= 0) mpz_mul_2exp(r.get_num_mpz_t(), r.get_num_mpz_t(), e); else { mpz_mul_2exp(r.get_den_mpz_t(), r.get_den_mpz_t(), -e); } return r; }
// exponent of 2 dividing q (q dyadic) : largest g with q multiple of 2^g; GNONE if not dyadic
int gran_of(const Rat& q) {
    if (sgn(q) == 0) return 1000000;
    mpz_srcptr d = q.get_den_mpz_t();
    size_t b = mpz_sizeinbase(d, 2);
    if (mpz_scan1(d, 0) != b - 1) return GNONE;
    if (b > 1) return -(int)(b - 1);
    return (int)mpz_scan1(q.get_num_mpz_t(), 0);
}
Rat absq(const Rat& a) { return sgn(a) < 0 ? Rat(-a) : a; }
// floor(log2 |q|), q != 0
int flog2(const Rat& q_) {
    Rat q = absq(q_);
    int e = (int)mpz_sizeinbase(q.get_num_mpz_t(), 2) - (int)mpz_sizeinbase(q.get_den_mpz_t(), 2);
    // 2^(e-1) < q < 2^(e+1)
    if (q < pow2(e)) e--;
    return e;
}
mpz_class qfloor(const Rat& q) { mpz_class r; mpz_fdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return r; }
mpz_class qceil(const Rat& q) { mpz_class r; mpz_cdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return r; }
mpz_class qround(const Rat& q) { return sgn(q) >= 0 ? qfloor(q + Rat(1, 2)) : qceil(q - Rat(1, 2)); }
// round to nearest even at precision
Rat rnd(const Rat& q, int prec) {
    if (sgn(q) == 0) return q;
    int emin = prec == 24 ? -126 : -1022;
    int e = std::max(flog2(q), emin);
    Rat u = pow2(e - prec + 1);
    Rat s = q / u;
    mpz_class f = qfloor(s);
    Rat d = s - Rat(f);
    Rat half(1, 2);
    if (d > half || (d == half && mpz_odd_p(f.get_mpz_t()))) f += 1;
    return Rat(f) * u;
}
double todouble(const Rat& q) { return mpq_get_d(q.get_mpq_t()); }  // exact when representable
Rat ofdouble(double d) { return Rat(d); }

bool isint(const Rat& q) { return mpz_cmp_ui(q.get_den_mpz_t(), 1) == 0; }

void lin_norm(Lin& l) {
    std::sort(l.t.begin(), l.t.end(), [](auto& a, auto& b) { return a.first < b.first; });
    size_t w = 0;
    for (size_t i = 0; i < l.t.size();) {
        int v = l.t[i].first; Rat s = l.t[i].second; size_t j = i + 1;
        while (j < l.t.size() && l.t[j].first == v) { s += l.t[j].second; j++; }
        if (sgn(s) != 0) { l.t[w].first = v; l.t[w].second = s; w++; }
        i = j;
    }
    l.t.resize(w);
}
Lin lin_add(const Lin& a, const Lin& b, int sb) {
    Lin r; r.c = sb > 0 ? Rat(a.c + b.c) : Rat(a.c - b.c);
    size_t i = 0, j = 0; r.t.reserve(a.t.size() + b.t.size());
    while (i < a.t.size() || j < b.t.size()) {
        if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
        else if (i == a.t.size() || b.t[j].first < a.t[i].first) { r.t.push_back(b.t[j++]); if (sb < 0) r.t.back().second = -r.t.back().second; }
        else { Rat s = sb > 0 ? Rat(a.t[i].second + b.t[j].second) : Rat(a.t[i].second - b.t[j].second); if (sgn(s)) r.t.push_back({a.t[i].first, s}); i++; j++; }
    }
    return r;
}
Lin lin_scale(const Lin& a, const Rat& k) { Lin r; if (sgn(k) == 0) return r; r.c = a.c * k; r.t.reserve(a.t.size()); for (auto& p : a.t) r.t.push_back({p.first, p.second * k}); return r; }

void lin_interval(const Lin& l, Rat& lo, Rat& hi) {
    lo = l.c; hi = l.c;
    for (auto& p : l.t) {
        Var& v = V[p.first];
        if (sgn(p.second) > 0) { lo += p.second * v.lo; hi += p.second * v.hi; }
        else { lo += p.second * v.hi; hi += p.second * v.lo; }
    }
}
int lin_gran(const Lin& l) {
    int g = gran_of(l.c);
    for (auto& p : l.t) { int a = gran_of(p.second); int b = V[p.first].gran; if (a == GNONE || b == GNONE) return GNONE; g = std::min(g, a + b); }
    return g;
}
int mknode(const Lin& l) {
    size_t h = LinHash::h(l);
    auto rg = ntab.equal_range(h);
    for (auto it = rg.first; it != rg.second; ++it) { const Lin& m = N[it->second].l; if (m.c == l.c && m.t == l.t) return it->second; }
    Node n; n.l = l; lin_interval(l, n.lo, n.hi); n.gran = lin_gran(l);
    n.allint = true; for (auto& p : l.t) if (!V[p.first].is_int) n.allint = false;
    int id = (int)N.size(); N.push_back(n); ntab.emplace(h, id);
    st.nodes = N.size();
    return id;
}
int newvar(Var v) { int id = (int)V.size(); v.dlo = todouble(v.lo); v.dhi = todouble(v.hi); V.push_back(v); return id; }
Lin linvar(int v) { Lin l; l.t.push_back({v, Rat(1)}); return l; }

// ---- monomials
std::map<vector<int>, int> monotab;
void var_pow_interval(const Rat& alo, const Rat& ahi, const Rat& blo, const Rat& bhi, Rat& lo, Rat& hi) {
    Rat p[4] = {alo * blo, alo * bhi, ahi * blo, ahi * bhi}; lo = p[0]; hi = p[0];
    for (int i = 1; i < 4; i++) { if (p[i] < lo) lo = p[i]; if (p[i] > hi) hi = p[i]; }
}
int monovar(vector<int> f) {  // sorted factor list (size>=2)
    auto it = monotab.find(f); if (it != monotab.end()) return it->second;
    Var v; v.kind = MONO; v.args = f; v.is_int = true; int g = 0; Rat lo(1), hi(1);
    for (size_t i = 0; i < f.size();) {
        size_t j = i; while (j < f.size() && f[j] == f[i]) j++;
        Var& a = V[f[i]]; int k = (int)(j - i);
        Rat plo(1), phi(1);
        for (int q = 0; q < k; q++) { Rat x, y; var_pow_interval(plo, phi, a.lo, a.hi, x, y); plo = x; phi = y; }
        if (k % 2 == 0 && sgn(a.lo) < 0 && sgn(a.hi) > 0) { plo = 0; }
        else if (k % 2 == 0 && sgn(a.hi) <= 0) { plo = 1; for (int q = 0; q < k; q++) plo *= a.hi; phi = 1; for (int q = 0; q < k; q++) phi *= a.lo; }
        Rat x, y; var_pow_interval(lo, hi, plo, phi, x, y); lo = x; hi = y;
        if (!a.is_int) v.is_int = false;
        if (g != GNONE) g = a.gran == GNONE ? GNONE : g + k * a.gran;
        i = j;
    }
    v.lo = lo; v.hi = hi; v.gran = g; v.name = "m";
    int id = newvar(v); monotab[f] = id; return id;
}
Lin lin_mul(const Lin& a, const Lin& b);
// rewrite rules, all exact identities between derived variables:
//   sin^2 -> 1 - cos^2,  inv * lead(arg) -> (1 - inv * rest(arg)) / k,  sqrt^2 -> arg
struct Rule { vector<int> lhs; Lin rhs; };
std::unordered_map<int, vector<Rule>> rules;   // by trigger variable
// monomial product
Lin mono_mul(int va, int vb) {
    vector<int> f;
    auto add = [&](int v) { if (V[v].kind == MONO) f.insert(f.end(), V[v].args.begin(), V[v].args.end()); else f.push_back(v); };
    add(va); add(vb); std::sort(f.begin(), f.end());
    for (size_t i = 0; i < f.size(); i++) {
        if (i && f[i] == f[i - 1]) continue;
        VK kd = V[f[i]].kind; if (kd != INVV && kd != SQRTV) continue;
        auto rt = rules.find(f[i]); if (rt == rules.end()) continue;
        for (auto& r : rt->second) {
            if (!std::includes(f.begin(), f.end(), r.lhs.begin(), r.lhs.end())) continue;
            vector<int> rest; std::set_difference(f.begin(), f.end(), r.lhs.begin(), r.lhs.end(), std::back_inserter(rest));
            Lin rhs = r.rhs, base; base.c = 1; for (int x : rest) base = lin_mul(base, linvar(x));
            return lin_mul(base, rhs);
        }
    }
    for (size_t i = 0; i + 1 < f.size(); i++)
        if (f[i] == f[i + 1] && V[f[i]].kind == SINV && V[f[i]].partner >= 0) {
            int c = V[f[i]].partner; vector<int> rest; for (size_t j = 0; j < f.size(); j++) if (j != i && j != i + 1) rest.push_back(f[j]);
            Lin base; if (rest.empty()) base.c = 1; else if (rest.size() == 1) base = linvar(rest[0]); else base = linvar(monovar(rest));
            Lin c2 = lin_mul(linvar(c), linvar(c)); Lin k; k.c = 1; k = lin_add(k, c2, -1);
            return lin_mul(base, k);
        }
    return linvar(monovar(f));
}
Lin lin_mul(const Lin& a, const Lin& b) {
    if (a.t.empty()) return lin_scale(b, a.c);
    if (b.t.empty()) return lin_scale(a, b.c);
    Lin r; r.c = a.c * b.c;
    for (auto& p : a.t) if (sgn(b.c)) r.t.push_back({p.first, p.second * b.c});
    for (auto& p : b.t) if (sgn(a.c)) r.t.push_back({p.first, p.second * a.c});
    for (auto& p : a.t) for (auto& q : b.t) {
        Lin m = mono_mul(p.first, q.first); Rat k = p.second * q.second;
        r.c += m.c * k; for (auto& w : m.t) r.t.push_back({w.first, w.second * k});
    }
    lin_norm(r); return r;
}

void add_inv_rule(int v, const Lin& arg) {
    int best = -1; for (size_t i = 0; i < arg.t.size(); i++) if (V[arg.t[i].first].kind == ERRV) best = (int)i;
    for (size_t i = 0; i < arg.t.size(); i++) if (V[arg.t[i].first].kind == SQRTV) best = (int)i;
    if (best < 0) best = (int)arg.t.size() - 1;
    int L = arg.t[best].first; Rat k = arg.t[best].second; Lin rest = arg; rest.t.erase(rest.t.begin() + best);
    Rule r; r.lhs.push_back(v); if (V[L].kind == MONO) r.lhs.insert(r.lhs.end(), V[L].args.begin(), V[L].args.end()); else r.lhs.push_back(L);
    std::sort(r.lhs.begin(), r.lhs.end());
    Lin one; one.c = 1; r.rhs = lin_scale(lin_add(one, lin_mul(linvar(v), rest), -1), 1 / k);
    rules[v].push_back(r);
}
void add_sqrt_rule(int v, const Lin& arg) {
    Rule r; r.lhs = {v, v}; r.rhs = lin_add(arg, lin_scale(linvar(v), 2 * V[v].cst), -1); r.rhs.c -= V[v].cst * V[v].cst; rules[v].push_back(r);
}

// ---- value handles: (c,id)
struct Val { double c; int id; };
Lin lin_of(double c, int id) { if (id > 0) return N[id].l; Lin l; l.c = ofdouble(c); return l; }
const Lin& nl(int id) { return N[id].l; }

// static-interval with per-path refinement of var bounds
struct Bnd { bool hl = false, hh = false, sl = false, sh = false; Rat lo, hi; vector<Rat> ne; };
std::unordered_map<int, Bnd> pathb;  // keyed by base node id
std::unordered_map<int, int> varnode;
int node_of_var(int v) { auto it = varnode.find(v); if (it != varnode.end()) return it->second; int n = mknode(linvar(v)); varnode[v] = n; return n; }

// interval of a node under the current path bounds (sound, non strict)
void path_interval(int id, Rat& lo, Rat& hi);

// smallest magnitude of a value that is not zero (0: unknown)
Rat nonzero_min(int id) {
    Node& n = N[id]; Rat m = n.nzmin;
    if (sgn(n.lo) > 0) m = std::max(m, n.lo); else if (sgn(n.hi) < 0) m = std::max(m, Rat(-n.hi));
    if (n.gran != GNONE) m = std::max(m, pow2(n.gran));
    return m;
}
bool is_noise(int v);
// many rounding-error terms are replaced by one variable standing for their sum
std::unordered_map<int, int> sumtab;
Lin collapse_noise(const Lin& r) {
    size_t k = 0; for (auto& p : r.t) if (is_noise(p.first)) k++;
    if (k <= 48) return r;
    Lin ex, no; ex.c = r.c; for (auto& p : r.t) (is_noise(p.first) ? no : ex).t.push_back(p);
    int id = mknode(no), v; auto it = sumtab.find(id);
    if (it != sumtab.end()) v = it->second;
    else { Var x; x.kind = SUMV; x.args = {id}; x.name = "ns"; x.lo = N[id].lo; x.hi = N[id].hi; v = newvar(x); sumtab[id] = v; }
    ex.t.push_back({v, Rat(1)}); lin_norm(ex); return ex;
}
std::map<std::pair<int, int>, int> roundtab;  // (node,prec)->node  (0 = constant)
int round_lin(const Lin& r0, int prec, double* cout, int gran_hint = GNONE) {
    Lin r = r0.t.size() > 48 ? collapse_noise(r0) : r0;
    if (r.t.empty()) { *cout = todouble(rnd(r.c, prec)); return 0; }
    int id = mknode(r);
    if (gran_hint != GNONE && gran_hint > N[id].gran) N[id].gran = gran_hint;
    auto key = std::make_pair(id, prec);
    auto it = roundtab.find(key); if (it != roundtab.end()) return it->second;
    Node& n = N[id];
    Rat M = std::max(absq(n.lo), absq(n.hi));
    if (sgn(M) == 0) { *cout = 0; return 0; }
    int e = flog2(M), emin = prec == 24 ? -126 : -1022, emax = prec == 24 ? 127 : 1023;
    if (e > emax) throw PathEnd{PE_UNSUP, "possible overflow"};
    int res;
    if (n.gran != GNONE && n.gran >= emin - prec + 1 && M <= pow2(n.gran + prec)) res = id;
    else {
        Var v; v.kind = ERRV; v.args = {id}; v.prec = prec; v.name = "e";
        Rat u = pow2(std::max(e, emin) - prec);
        v.lo = -u; v.hi = u; v.gran = GNONE;
        // relative tightening when the value cannot approach zero is not needed: u is absolute
        int ev = newvar(v);
        Lin w = lin_add(N[id].l, linvar(ev), +1);
        res = mknode(w);
        // the rounded value is itself a float: its granularity is known from its smallest magnitude
        int g = emin - prec + 1;
        if (sgn(N[id].lo) > 0) g = std::max(g, flog2(N[id].lo) - prec + 1);
        else if (sgn(N[id].hi) < 0) g = std::max(g, flog2(N[id].hi) - prec + 1);
        if (g > N[res].gran) N[res].gran = g;
        // monotone rounding: interval end points round too
        Rat l2 = rnd(N[id].lo, prec), h2 = rnd(N[id].hi, prec);
        if (l2 > N[res].lo) N[res].lo = l2; if (h2 < N[res].hi) N[res].hi = h2;
        Rat nz = nonzero_min(id); if (sgn(nz) > 0) { nz = rnd(nz, prec); if (nz > N[res].nzmin) N[res].nzmin = nz; }
    }
    roundtab[key] = res; return res;
}

// ------------------------------------------------------------------ atoms & formulas
// atom: node d, op (LT: d<0, LE: d<=0, EQ: d=0)
struct BN { int kind; int a, b; };  // 0 F,1 T,2 atom(node a, op b),3 and,4 or,5 not
vector<BN> BA;
std::map<std::tuple<int, int, int>, int> btab;
int mkb(int k, int a, int b) { auto key = std::make_tuple(k, a, b); auto it = btab.find(key); if (it != btab.end()) return it->second; BA.push_back({k, a, b}); return btab[key] = (int)BA.size() - 1; }
const int BF = 0, BT = 1;
int b_not(int x) { if (x == BF) return BT; if (x == BT) return BF; if (BA[x].kind == 5) return BA[x].a; return mkb(5, x, 0); }
int b_and(int x, int y) { if (x == BF || y == BF) return BF; if (x == BT) return y; if (y == BT || x == y) return x; return mkb(3, x, y); }
int b_or(int x, int y) { if (x == BT || y == BT) return BT; if (x == BF) return y; if (y == BF || x == y) return x; return mkb(4, x, y); }
int b_atom(const Lin& d, int op) {
    if (d.t.empty()) { int s = sgn(d.c); return (op == vx::LT ? s < 0 : op == vx::LE ? s <= 0 : s == 0) ? BT : BF; }
    int id = mknode(d); Node& n = N[id];
    if (op == vx::LT) { if (sgn(n.hi) < 0) return BT; if (sgn(n.lo) >= 0) return BF; }
    else if (op == vx::LE) { if (sgn(n.hi) <= 0) return BT; if (sgn(n.lo) > 0) return BF; }
    else { if (sgn(n.lo) > 0 || sgn(n.hi) < 0) return BF; }
    return mkb(2, id, op);
}

// z3 encodings
Z3_ast zvar(int v);
vector<char> vdef;  // asserted in current scopes?
vector<vector<int>> scope_defs;
Z3_ast zlin_scaled(const Lin& l, bool& allint) {
    mpz_class d = l.c.get_den();
    allint = true;
    for (auto& p : l.t) { mpz_lcm(d.get_mpz_t(), d.get_mpz_t(), p.second.get_den_mpz_t()); if (!V[p.first].is_int) allint = false; }
    vector<Z3_ast> ts;
    for (auto& p : l.t) {
        Rat k = p.second * Rat(d); mpz_class kz = k.get_num();
        Z3_ast x = zvar(p.first);
        if (allint) { if (kz == 1) ts.push_back(x); else { Z3_ast a[2] = {zi(kz), x}; ts.push_back(Z3_mk_mul(Z, 2, a)); } }
        else { if (V[p.first].is_int) x = Z3_mk_int2real(Z, x); if (kz == 1) ts.push_back(x); else { Z3_ast a[2] = {zr(Rat(kz)), x}; ts.push_back(Z3_mk_mul(Z, 2, a)); } }
    }
    Rat c = l.c * Rat(d);
    if (sgn(c)) ts.push_back(allint ? zi(c.get_num()) : zr(c));
    if (ts.empty()) return allint ? zi(0) : zr(0);
    return ts.size() == 1 ? ts[0] : Z3_mk_add(Z, (unsigned)ts.size(), ts.data());
}
std::unordered_map<long, Z3_ast> atomz;
Z3_ast zatom(int id, int op) {
    long key = (long)id * 4 + op; auto it = atomz.find(key); if (it != atomz.end()) return it->second;
    bool ai; Z3_ast e = zlin_scaled(N[id].l, ai); Z3_ast z = ai ? zi(0) : zr(0);
    Z3_ast r = op == vx::LT ? Z3_mk_lt(Z, e, z) : op == vx::LE ? Z3_mk_le(Z, e, z) : Z3_mk_eq(Z, e, z);
    return atomz[key] = keep(r);
}
Z3_ast zb(int b) {
    BN n = BA[b];
    switch (n.kind) {
        case 0: return Z3_mk_false(Z);
        case 1: return Z3_mk_true(Z);
        case 2: return zatom(n.a, n.b);
        case 3: { Z3_ast a[2] = {zb(n.a), zb(n.b)}; return Z3_mk_and(Z, 2, a); }
        case 4: { Z3_ast a[2] = {zb(n.a), zb(n.b)}; return Z3_mk_or(Z, 2, a); }
        default: return Z3_mk_not(Z, zb(n.a));
    }
}
vector<Rat> g_sqrt_hints;
// Decoupled rounding errors: asserted facts are weakened so that each rounding error
// takes any value within its bound independently in every fact (a sound relaxation of
// the path condition); the solver then never sees the error variables.
bool g_decouple = false;
bool is_noise(int v) {
    Var& x = V[v]; auto small = [](const Var& y) { return y.kind == ERRV || y.kind == SUMV || (y.kind == INVV && y.flag && y.hi - y.lo < pow2(-8)) || (y.kind == SQRTV && y.hi - y.lo < pow2(-12)); };
    if (small(x)) return true; if (x.kind != MONO) return false;
    bool e = false; for (int a : x.args) if (small(V[a])) e = true;
    return e && x.hi - x.lo < pow2(-8);
}
bool split_noise(const Lin& l, Lin& ex, Rat& lo, Rat& hi) {
    lo = 0; hi = 0; bool any = false; ex = Lin(); ex.c = l.c;
    for (auto& p : l.t) if (is_noise(p.first)) { any = true; Var& v = V[p.first]; if (sgn(p.second) > 0) { lo += p.second * v.lo; hi += p.second * v.hi; } else { lo += p.second * v.hi; hi += p.second * v.lo; } } else ex.t.push_back(p);
    return any && !ex.t.empty();
}
std::unordered_map<long, int> weakmemo;
int weaken(int b, bool pos) {
    if (!g_decouple) return pos ? b : b_not(b);
    long key = (long)b * 2 + pos; auto it = weakmemo.find(key); if (it != weakmemo.end()) return it->second;
    BN n = BA[b]; int r = pos ? b : b_not(b);
    if (n.kind == 3 || n.kind == 4) { int x = weaken(n.a, pos), y = weaken(n.b, pos); r = (n.kind == 3) == pos ? b_and(x, y) : b_or(x, y); }
    else if (n.kind == 5) r = weaken(n.a, !pos);
    else if (n.kind == 2) {
        Lin ex; Rat lo, hi;
        if (split_noise(N[n.a].l, ex, lo, hi)) {
            Lin a = ex, c = ex; a.c += lo; c.c += hi;
            if (n.b == vx::EQ) r = pos ? b_and(b_atom(a, vx::LE), b_atom(lin_scale(c, -1), vx::LE)) : BT;
            else if (pos) r = b_atom(a, n.b);                                  // ex + lo < 0
            else r = b_atom(lin_scale(c, -1), n.b == vx::LT ? vx::LE : vx::LT); // ex + hi >= 0
        }
    }
    return weakmemo[key] = r;
}
bool g_nonlinear_defs = false;  // refine mode: assert definitions of monomials/inverses
void need_lin(const Lin& l);
void need_b(int b) { BN n = BA[b]; if (n.kind == 2) need_lin(N[n.a].l); else if (n.kind == 3 || n.kind == 4) { need_b(n.a); need_b(n.b); } else if (n.kind == 5) need_b(n.a); }
Z3_ast zvar(int v) {
    if (V[v].z) return V[v].z;
    string nm = (V[v].kind == INPUT ? V[v].name : V[v].name + std::to_string(v));
    Z3_ast a = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), V[v].is_int ? ISORT : RSORT);
    return V[v].z = keep(a);
}
void sadd(Z3_ast a) { Z3_inc_ref(Z, a); Z3_solver_assert(Z, S, a); Z3_dec_ref(Z, a); }
Z3_ast zcmp_var(int v, const Rat& q, bool ge) {
    Z3_ast x = zvar(v);
    Z3_ast k = V[v].is_int ? zi(ge ? qceil(q) : qfloor(q)) : zr(q);
    return ge ? Z3_mk_ge(Z, x, k) : Z3_mk_le(Z, x, k);
}
void need_var(int v) {
    if ((int)vdef.size() < (int)V.size()) vdef.resize(V.size() + 64, 0);
    if (vdef[v]) return;
    vdef[v] = 1; scope_defs.back().push_back(v);
    sadd(zcmp_var(v, V[v].lo, true)); sadd(zcmp_var(v, V[v].hi, false));
    VK k = V[v].kind; vector<int> args = V[v].args;
    auto addb = [&](int b) { b = weaken(b, true); need_b(b); sadd(zb(b)); };
    if (k == FLOORV) {  // v <= arg < v+1
        Lin a = N[args[0]].l; Lin d = lin_add(linvar(v), a, -1);
        addb(b_atom(d, vx::LE)); Lin e = lin_scale(d, -1); e.c -= 1; addb(b_atom(e, vx::LT));
    } else if (k == ROUNDV) {
        Lin a = N[args[0]].l;
        Lin d = lin_add(linvar(v), a, -1);           // v - a
        Lin p1 = d; p1.c -= Rat(1, 2);               // v - a - 1/2 <= 0
        Lin p2 = lin_scale(d, -1); p2.c -= Rat(1, 2); // a - v - 1/2 (<0 pos, <=0 neg)
        int nonneg = b_atom(lin_scale(a, -1), vx::LE);
        addb(b_or(b_and(nonneg, b_and(b_atom(p1, vx::LE), b_atom(p2, vx::LT))), b_and(b_not(nonneg), b_and(b_atom(p1, vx::LT), b_atom(p2, vx::LE)))));
    } else if (k == ERRV) {
        Node& n = N[args[0]];
        if (sgn(n.lo) <= 0 && sgn(n.hi) >= 0) {
            Lin a = n.l, w = lin_add(a, linvar(v), +1);
            // sign preservation
            addb(b_or(b_not(b_atom(lin_scale(a, -1), vx::LE)), b_atom(lin_scale(w, -1), vx::LE)));
            addb(b_or(b_not(b_atom(a, vx::LE)), b_atom(w, vx::LE)));
        }
        // rounding is monotone and fixes the (representable) hint values of a square root
        if (n.l.t.size() == 1 && V[n.l.t[0].first].kind == SQRTV)
            for (auto& h : g_sqrt_hints) {
                Lin a = n.l, w = lin_add(a, linvar(v), +1); a.c -= h; w.c -= h;
                addb(b_or(b_not(b_atom(lin_scale(a, -1), vx::LE)), b_atom(lin_scale(w, -1), vx::LE)));
                addb(b_or(b_not(b_atom(a, vx::LE)), b_atom(w, vx::LE)));
            }
    } else if (k == PICKV) {
        int some = BF;
        for (int a : args) {
            Lin d = lin_add(linvar(v), N[a].l, -1);
            addb(V[v].flag ? b_atom(lin_scale(d, -1), vx::LE) : b_atom(d, vx::LE));
            some = b_or(some, b_atom(d, vx::EQ));
        }
        addb(some);
    } else if (k == SQRTV && !g_sqrt_hints.empty()) {
        // exact facts: sqrt(arg) <= h  <=>  arg <= h^2  (h >= 0)
        Lin a = N[args[0]].l; Rat c = V[v].cst;
        for (auto& h : g_sqrt_hints) {
            Lin s1 = linvar(v); s1.c = c - h; Lin a1 = a; a1.c -= h * h;
            int p = b_atom(s1, vx::LE), q = b_atom(a1, vx::LE);
            addb(b_or(b_and(p, q), b_and(b_not(p), b_not(q))));
            p = b_atom(lin_scale(s1, -1), vx::LE); q = b_atom(lin_scale(a1, -1), vx::LE);
            addb(b_or(b_and(p, q), b_and(b_not(p), b_not(q))));
        }
    } else if (g_nonlinear_defs) {
        if (k == MONO) {
            vector<Z3_ast> f; for (int a : args) { need_var(a); Z3_ast x = zvar(a); if (!V[v].is_int && V[a].is_int) x = Z3_mk_int2real(Z, x); f.push_back(x); }
            sadd(Z3_mk_eq(Z, zvar(v), Z3_mk_mul(Z, (unsigned)f.size(), f.data())));
        } else if (k == INVV) {
            need_lin(N[args[0]].l); bool ai; Lin l = N[args[0]].l; Z3_ast e = zlin_scaled(l, ai); if (ai) e = Z3_mk_int2real(Z, e);
            mpz_class d = l.c.get_den(); for (auto& p : l.t) mpz_lcm(d.get_mpz_t(), d.get_mpz_t(), p.second.get_den_mpz_t());
            Z3_ast m[2] = {zvar(v), e}; sadd(Z3_mk_eq(Z, Z3_mk_mul(Z, 2, m), zr(Rat(d))));
        } else if (k == SQRTV) {
            Z3_ast s2[2] = {zvar(v), zr(V[v].cst)}; Z3_ast s = Z3_mk_add(Z, 2, s2);
            need_lin(N[args[0]].l); bool ai; Lin l = N[args[0]].l; Z3_ast e = zlin_scaled(l, ai); if (ai) e = Z3_mk_int2real(Z, e);
            mpz_class d = l.c.get_den(); for (auto& p : l.t) mpz_lcm(d.get_mpz_t(), d.get_mpz_t(), p.second.get_den_mpz_t());
            Z3_ast m[3] = {s, s, zr(Rat(d))}; sadd(Z3_mk_eq(Z, Z3_mk_mul(Z, 3, m), e)); sadd(Z3_mk_ge(Z, s, zr(0)));
        }
    } else if (k == MONO) {
        for (int a : args) need_var(a);
    }
}
// ------------------------------------------------------------------ lemma refinement
// Products, quotients and square roots are free variables for the solver; when a model
// gives one of them a wrong value, facts that hold for all arguments are added.
struct Lemma { int v, f; };
vector<Lemma> lemmas; vector<char> lem_on; vector<vector<int>> scope_lems; std::map<std::pair<int, int>, bool> lem_seen;
bool add_lemma(int v, int f) {
    if (f == BT) return false; auto k = std::make_pair(v, f); if (lem_seen.count(k)) return false;
    lem_seen[k] = true; lemmas.push_back({v, f}); lem_on.push_back(0); return true;
}
void assert_lemmas() {
    for (size_t i = 0; i < lemmas.size(); i++) if (!lem_on[i] && lemmas[i].v < (int)vdef.size() && vdef[lemmas[i].v]) {
        lem_on[i] = 1; if (scope_lems.empty()) scope_lems.emplace_back(); while (scope_lems.size() < scope_defs.size()) scope_lems.emplace_back(); scope_lems.back().push_back((int)i);
        need_b(lemmas[i].f); sadd(zb(lemmas[i].f));
    }
}
void need_lin(const Lin& l) { vector<int> vs; for (auto& p : l.t) vs.push_back(p.first); for (int v : vs) need_var(v); }

void spush() { Z3_solver_push(Z, S); scope_defs.emplace_back(); }
void spop_to(size_t lvl) {  // keep lvl scopes (lvl = number of pushes)
    size_t have = scope_defs.size() - 1; if (have <= lvl) return;
    Z3_solver_pop(Z, S, (unsigned)(have - lvl));
    while (scope_lems.size() > lvl + 1) { for (int i : scope_lems.back()) lem_on[i] = 0; scope_lems.pop_back(); }
    while (scope_defs.size() - 1 > lvl) { for (int v : scope_defs.back()) vdef[v] = 0; scope_defs.pop_back(); }
}
void assert_raw(int b) { need_b(b); sadd(zb(b)); }
void assert_b(int b) { assert_raw(weaken(b, true)); }

// ------------------------------------------------------------------ model
bool model_valid = false; bool model_zmode = false; uint64_t model_ver = 0;
std::unordered_map<int, Rat> zvals;                 // z3 values of asserted vars
std::unordered_map<int, Rat> mcache;
vector<std::pair<int, size_t>> pc;                  // (formula, trail index it belongs to)
Rat eval_lin(const Lin& l);
std::map<string, mpz_class> hint;                   // preferred inputs
Rat eval_var(int v) {
    auto it = mcache.find(v); if (it != mcache.end()) return it->second;
    Rat r; Var& x = V[v];
    auto zit = zvals.find(v);
    if (x.kind == INPUT || x.kind == OPAQUE) r = zit != zvals.end() ? zit->second : (sgn(x.lo) <= 0 && sgn(x.hi) >= 0 ? Rat(0) : (x.is_int ? Rat(qceil(x.lo)) : x.lo));
    else if (model_zmode && zit != zvals.end()) r = zit->second;
    else switch (x.kind) {
        case MONO: { r = 1; vector<int> a = x.args; for (int f : a) r *= eval_var(f); break; }
        case ERRV: { Rat a = eval_lin(N[x.args[0]].l); r = rnd(a, V[v].prec) - a; break; }
        case SUMV: r = eval_lin(N[x.args[0]].l); break;
        case FLOORV: r = Rat(qfloor(eval_lin(N[x.args[0]].l))); break;
        case ROUNDV: r = Rat(qround(eval_lin(N[x.args[0]].l))); break;
        case INVV: { Rat d = eval_lin(N[x.args[0]].l); r = sgn(d) ? Rat(1 / d) : Rat(0); r -= V[v].cst; break; }
        case SQRTV: { Rat d = eval_lin(N[x.args[0]].l); double s = std::sqrt(std::max(0.0, todouble(d))); Rat q(s); for (int i = 0; i < 2; i++) if (sgn(q) > 0) q = (q + d / q) / 2; r = rnd(q, 100) - V[v].cst; break; }
        case PICKV: { vector<int> a = x.args; bool f = x.flag; bool first = true; for (int id : a) { Rat q = eval_lin(N[id].l); if (first || (f ? q > r : q < r)) r = q; first = false; } break; }
        case SINV: r = Rat(std::sin(todouble(eval_lin(N[x.args[0]].l)))); break;
        case COSV: r = Rat(std::cos(todouble(eval_lin(N[x.args[0]].l)))); break;
        case TANV: r = Rat(std::tan(todouble(eval_lin(N[x.args[0]].l)))); break;
        default: r = 0;
    }
    mcache[v] = r; return r;
}
Rat eval_lin(const Lin& l) { Rat r = l.c; for (auto& p : l.t) r += p.second * eval_var(p.first); return r; }
bool eval_b(int b) {
    BN n = BA[b];
    switch (n.kind) {
        case 0: return false; case 1: return true;
        case 2: { int s = sgn(eval_lin(N[n.a].l)); return n.b == vx::LT ? s < 0 : n.b == vx::LE ? s <= 0 : s == 0; }
        case 3: return eval_b(n.a) && eval_b(n.b);
        case 4: return eval_b(n.a) || eval_b(n.b);
        default: return !eval_b(n.a);
    }
}
Rat znum(Z3_model m, Z3_ast a) {
    Z3_ast r = nullptr; if (!Z3_model_eval(Z, m, a, true, &r) || !r) return 0;
    if (Z3_get_ast_kind(Z, r) != Z3_NUMERAL_AST) {
        if (Z3_is_algebraic_number(Z, r)) { Z3_ast lo = Z3_get_algebraic_number_lower(Z, r, 40); return Rat(Z3_get_numeral_string(Z, lo)); }
        return 0;
    }
    Rat q(Z3_get_numeral_string(Z, r)); q.canonicalize(); return q;
}
vector<int> input_vars;
void take_model() {
    Z3_model m = Z3_solver_get_model(Z, S); Z3_model_inc_ref(Z, m);
    zvals.clear(); mcache.clear();
    for (auto& sc : scope_defs) for (int v : sc) { if (V[v].kind == INPUT || V[v].kind == OPAQUE) zvals[v] = znum(m, zvar(v)); }
    model_zmode = false; model_valid = true; model_ver++;
    bool ok = true; for (auto& p : pc) if (!eval_b(p.first)) { ok = false; break; }
    if (!ok) {
        for (auto& sc : scope_defs) for (int v : sc) zvals[v] = znum(m, zvar(v));
        mcache.clear(); model_zmode = true;
    }
    Z3_model_dec_ref(Z, m);
}
double g_deadline = 1e300;
int g_query_ms = 20000;
volatile sig_atomic_t g_in_z3 = 0;
int scheck() {  // 1 sat, 0 unsat, -1 unknown
    assert_lemmas(); double t = now(); g_in_z3 = 1; Z3_lbool r = Z3_solver_check(Z, S); g_in_z3 = 0; st.solver_s += now() - t; st.checks++;
    if (r == Z3_L_TRUE) { st.sat++; return 1; }
    if (r == Z3_L_FALSE) { st.unsat++; return 0; }
    st.unknown++; return -1;
}

// facts that a wrong model violates; true when something new was added
bool refine_product(int m, const Lin& x, const Rat& a, const Lin& y, const Rat& b, bool square) {
    bool any = false; auto c = [](const Rat& k) { Lin l; l.c = k; return l; };
    Lin M = linvar(m), dx = lin_add(x, c(a), -1), dy = lin_add(y, c(b), -1);
    if (square) {
        Lin t = lin_add(lin_add(lin_scale(x, 2 * a), c(a * a), -1), M, -1);   // 2ax - a^2 - m <= 0
        any |= add_lemma(m, b_atom(t, vx::LE));
        bool in = true; for (auto& p : x.t) if (!V[p.first].is_int || !isint(p.second)) in = false;
        if (in && isint(x.c) && isint(a)) for (int s = 0; s < 2; s++) { Rat u = a - s; Lin w = lin_add(lin_add(lin_scale(x, 2 * u + 1), c(u * (u + 1)), -1), M, -1); any |= add_lemma(m, b_atom(w, vx::LE)); }
        Rat lo, hi; lin_interval(x, lo, hi);
        for (int s = 0; s < 2; s++) {    // secants: between lo and a, between a and hi
            Rat e = s ? hi : lo; Lin w = lin_add(lin_add(M, lin_scale(x, a + e), -1), c(a * e), 1);
            int side = b_atom(s ? lin_scale(dx, -1) : dx, vx::LE);
            any |= add_lemma(m, b_or(b_not(side), b_atom(w, vx::LE)));
        }
        return any;
    }
    Lin t = lin_add(lin_add(lin_scale(x, b), lin_scale(y, a), 1), c(a * b), -1);       // bx + ay - ab
    int xl = b_atom(dx, vx::LE), xg = b_atom(lin_scale(dx, -1), vx::LE), yl = b_atom(dy, vx::LE), yg = b_atom(lin_scale(dy, -1), vx::LE);
    int ge = b_atom(lin_add(t, M, -1), vx::LE), le = b_atom(lin_add(M, t, -1), vx::LE);
    any |= add_lemma(m, b_or(b_not(b_or(b_and(xl, yl), b_and(xg, yg))), ge));
    any |= add_lemma(m, b_or(b_not(b_or(b_and(xl, yg), b_and(xg, yl))), le));
    return any;
}
bool refine_model() {
    bool any = false; int done = 0; vector<int> vs; for (auto& sc : scope_defs) for (int v : sc) vs.push_back(v);
    auto zv = [&](int v, Rat& r) { auto it = zvals.find(v); if (it == zvals.end()) return false; r = it->second; return true; };
    auto zl = [&](const Lin& l, Rat& r) { r = l.c; for (auto& p : l.t) { Rat x; if (!zv(p.first, x)) return false; r += p.second * x; } return true; };
    for (int v : vs) {
        if (done >= 24) break;
        VK k = V[v].kind; Rat m; if (!zv(v, m)) continue;
        if (k == MONO && !is_noise(v)) {
            vector<int> f = V[v].args; bool ok = true; Rat p(1); for (int x : f) { Rat q; if (!zv(x, q)) ok = false; else p *= q; }
            if (!ok || p == m) continue;
            int x = f[0]; vector<int> rest(f.begin() + 1, f.end()); Rat a, b; zv(x, a); int y = rest.size() == 1 ? rest[0] : monovar(rest);
            if (!zv(y, b)) { b = 1; for (int q : rest) { Rat t; zv(q, t); b *= t; } }
            if (a * b == m) continue;
            if (refine_product(v, linvar(x), a, linvar(y), b, rest.size() == 1 && x == y)) { any = true; done++; }
        } else if (k == SQRTV) {
            Lin arg = N[V[v].args[0]].l; Rat a; if (!zl(arg, a)) continue; if (sgn(a) < 0) a = 0;
            double s = std::sqrt(todouble(a)); Rat got = m + V[v].cst; if (absq(got - Rat(s)) <= pow2(-40) + Rat(s) * pow2(-40)) continue;
            Rat t = rnd((got + Rat(s)) / 2, 30); if (sgn(t) <= 0) continue;
            Lin S1 = linvar(v); S1.c = V[v].cst - t; Lin A1 = arg; A1.c -= t * t;
            int p = b_atom(S1, vx::LE), q = b_atom(A1, vx::LE); if (add_lemma(v, b_or(b_and(p, q), b_and(b_not(p), b_not(q))))) { any = true; done++; }
        } else if (k == SINV || k == COSV) {
            Lin arg = N[V[v].args[0]].l; Rat a; if (!zl(arg, a)) continue; Rat s(k == SINV ? std::sin(todouble(a)) : std::cos(todouble(a)));
            if (absq(m - s) <= pow2(-24)) continue;
            // |f(x) - f(a)| <= |x - a|
            Rat eps = pow2(-40); bool n1 = false; Lin dx = arg; dx.c -= a;
            for (int side = 0; side < 2; side++) {
                Lin d = side ? lin_scale(dx, -1) : dx;      // distance when non-negative
                int off = b_not(b_atom(lin_scale(d, -1), vx::LE));
                Lin up = lin_add(linvar(v), d, -1), dn = lin_scale(lin_add(linvar(v), d, 1), -1); up.c -= s + eps; dn.c += s - eps;
                n1 |= add_lemma(v, b_or(off, b_atom(up, vx::LE))); n1 |= add_lemma(v, b_or(off, b_atom(dn, vx::LE)));
            }
            if (n1) { any = true; done++; }
        } else if (k == INVV && !V[v].flag) {
            Lin arg = N[V[v].args[0]].l; Rat a; if (!zl(arg, a) || sgn(a) == 0) continue; if (m * a == 1) continue;
            bool pos = sgn(V[v].lo) > 0 || (sgn(V[v].lo) == 0 && sgn(V[v].hi) > 0); if ((sgn(a) > 0) != pos) continue; if (!pos && sgn(V[v].hi) > 0) continue;
            // tangent 1/x >= 2/a - x/a^2 (x > 0), and 1/x <= u iff x >= 1/u
            a = rnd(a, 40); Lin w = lin_add(lin_scale(arg, -1 / (a * a)), linvar(v), -1); w.c += 2 / a; if (!pos) w = lin_scale(w, -1);
            bool n1 = add_lemma(v, b_atom(w, vx::LE));
            Rat u = rnd((m + 1 / a) / 2, 40); if (sgn(u)) { Lin p1 = linvar(v); p1.c = -u; Lin q1 = lin_scale(arg, -1); q1.c += 1 / u; int p = b_atom(p1, vx::LE), q = b_atom(q1, vx::LE); n1 |= add_lemma(v, b_or(b_and(p, q), b_and(b_not(p), b_not(q)))); }
            if (n1) { any = true; done++; }
        }
    }
    return any;
}
int g_lemma_rounds = 40;
// satisfiability with refinement; on 1 the model is taken
int solve() {
    for (int it = 0;; it++) {
        int r = scheck(); if (r != 1) return r;
        take_model(); if (!model_zmode || it >= g_lemma_rounds || !refine_model()) return 1;
    }
}

// ------------------------------------------------------------------ trail
struct Dec { int8_t kind; int32_t a, n; int64_t v; bool alt; uint32_t lvl; uint32_t pcn; };
// kinds: 0 branch(a=side) 1 conv(a=eq?, v value) 2 choose(a of n) 3 assume
enum { D_BR = 0, D_CONV = 1, D_CH = 2, D_AS = 3 };
vector<Dec> trail; size_t tpos = 0, applied = 0;

struct TraceItem { char k; string name; string val; };
vector<TraceItem> trace_choices;   // choices/rng in order for this path
std::map<string, int> in_names; // input name -> var
vector<std::pair<string, int>> path_inputs;  // inputs created in this path (name,var)

bool past_prefix() { return tpos >= trail.size(); }
void on_prefix_done() {
    if (model_valid) return;
    int r = solve(); st.flips++; if (r != 1) model_valid = false;
    if (r == 0) throw PathEnd{PE_INFEAS, ""};
    if (r < 0) throw PathEnd{PE_UNKNOWN, "prefix"};
}
uint64_t g_path_dec = 0;
void apply_entry(size_t i, int formula) {  // ensure solver contains entry i
    if (i < applied) return;
    trail[i].lvl = (uint32_t)(scope_defs.size() - 1);
    trail[i].pcn = (uint32_t)pc.size();
    if (trail[i].kind != D_AS) spush();
    if (formula >= 0) { assert_b(formula); pc.push_back({formula, i}); }
    applied = i + 1;
}
Bnd& bnd(int base) {
    auto it = pathb.find(base); if (it != pathb.end()) return it->second;
    Bnd b; b.hl = b.hh = true; b.lo = N[base].lo; b.hi = N[base].hi; return pathb.emplace(base, b).first->second;
}
void base_of(int id) {  // fill base/scale/off so that node = scale*base + off, base has no constant, leading coef 1 (or primitive integer)
    Node& n = N[id]; if (n.basek >= 0) return;
    Lin l = n.l; Rat off = l.c; l.c = 0; Rat s = l.t[0].second;
    if (n.allint) {  // primitive integer vector
        mpz_class d = 1, g = 0; for (auto& p : l.t) mpz_lcm(d.get_mpz_t(), d.get_mpz_t(), p.second.get_den_mpz_t());
        for (auto& p : l.t) { mpz_class z = Rat(p.second * Rat(d)).get_num(); mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), z.get_mpz_t()); }
        Rat k(g, d); k.canonicalize(); s = sgn(s) < 0 ? Rat(-k) : k;
    }
    Lin b = lin_scale(l, 1 / s); int bk = mknode(b);
    N[id].basek = bk; N[id].scale = s; N[id].off = off;
}
void refine_by_vars(int base) {
    // tighten interval of a multi-variable base from variable bounds on this path
    if (N[base].l.t.size() < 2) return;
    Rat lo = N[base].l.c, hi = lo;
    for (auto& p : N[base].l.t) {
        auto vn = varnode.find(p.first); Rat a = V[p.first].lo, b = V[p.first].hi;
        if (vn != varnode.end()) { auto it = pathb.find(vn->second); if (it != pathb.end()) { if (it->second.lo > a) a = it->second.lo; if (it->second.hi < b) b = it->second.hi; } }
        if (sgn(p.second) > 0) { lo += p.second * a; hi += p.second * b; } else { lo += p.second * b; hi += p.second * a; }
    }
    Bnd& B = bnd(base);
    if (lo > B.lo) { B.lo = lo; B.sl = false; } if (hi < B.hi) { B.hi = hi; B.sh = false; }
}
// known truth of atom on this path: 1,0,-1
int known(int id, int op) {
    base_of(id); Node& n = N[id]; int base = n.basek; bool ai = n.allint;
    refine_by_vars(base);
    Bnd& B = bnd(base);
    Rat k = -n.off / n.scale; bool pos = sgn(n.scale) > 0;
    // d = scale*(base - k)
    // sign tests of (base-k)
    auto lt = [&]() { if (B.hi < k || (B.hi == k && B.sh)) return 1; if (B.lo >= k) return 0; return -1; };      // base<k
    auto gt = [&]() { if (B.lo > k || (B.lo == k && B.sl)) return 1; if (B.hi <= k) return 0; return -1; };
    if (op == vx::EQ) {
        if (ai && !isint(k)) return 0;
        if (lt() == 1 || gt() == 1) return 0;
        if (B.lo == k && B.hi == k) return 1;
        for (auto& q : B.ne) if (q == k) return 0;
        return -1;
    }
    if (op == vx::LT) return pos ? lt() : gt();
    int g = pos ? gt() : lt(); return g < 0 ? -1 : 1 - g;
}
void learn(int id, int op, bool side) {
    base_of(id); Node& n = N[id]; int base = n.basek; bool ai = n.allint; Rat k = -n.off / n.scale; bool pos = sgn(n.scale) > 0;
    Bnd& B = bnd(base);
    auto setlt = [&](bool strict) { Rat q = k; bool s = strict; if (ai) { mpz_class z = qfloor(q); if (s && Rat(z) == q) z -= 1; q = Rat(z); s = false; } if (q < B.hi || (q == B.hi && s)) { B.hi = q; B.sh = s; } };
    auto setgt = [&](bool strict) { Rat q = k; bool s = strict; if (ai) { mpz_class z = qceil(q); if (s && Rat(z) == q) z += 1; q = Rat(z); s = false; } if (q > B.lo || (q == B.lo && s)) { B.lo = q; B.sl = s; } };
    if (op == vx::EQ) {
        if (side) { setlt(false); setgt(false); }
        else {
            if (ai) { if (B.lo == k) { B.lo += 1; B.sl = false; } if (B.hi == k) { B.hi -= 1; B.sh = false; } }
            else { if (B.lo == k) B.sl = true; if (B.hi == k) B.sh = true; }
            B.ne.push_back(k);
        }
        return;
    }
    bool strict = op == vx::LT; bool less = pos;
    if (!side) { strict = !strict; less = !less; }
    if (less) setlt(strict); else setgt(strict);
}
void path_interval(int id, Rat& lo, Rat& hi) {
    lo = N[id].lo; hi = N[id].hi; if (N[id].l.t.empty()) return;
    base_of(id); int base = N[id].basek; refine_by_vars(base); Bnd& B = bnd(base);
    Rat a = N[id].scale * B.lo + N[id].off, b = N[id].scale * B.hi + N[id].off; if (a > b) std::swap(a, b);
    if (a > lo) lo = a; if (b < hi) hi = b;
}

uint64_t g_max_dec = 20000;
// truth of a formula on this path from the recorded bounds: 1, 0, -1 unknown
int known_b(int b) {
    BN n = BA[b];
    switch (n.kind) {
        case 0: return 0; case 1: return 1; case 2: return known(n.a, n.b);
        case 3: { int x = known_b(n.a), y = known_b(n.b); return x == 0 || y == 0 ? 0 : x == 1 && y == 1 ? 1 : -1; }
        case 4: { int x = known_b(n.a), y = known_b(n.b); return x == 1 || y == 1 ? 1 : x == 0 && y == 0 ? 0 : -1; }
        default: { int x = known_b(n.a); return x < 0 ? -1 : 1 - x; }
    }
}
void learn_b(int b, bool side) {
    BN n = BA[b];
    if (n.kind == 2) learn(n.a, n.b, side); else if (n.kind == 5) learn_b(n.a, !side); else if ((n.kind == 3 && side) || (n.kind == 4 && !side)) { learn_b(n.a, side); learn_b(n.b, side); }
}
void learn_dec(int f, bool side) { if (BA[f].kind == 2) learn(BA[f].a, BA[f].b, side); if (g_decouple) learn_b(weaken(f, side), true); }
bool decide_formula(int f) {
    if (f == BT) return true; if (f == BF) return false;
    if (BA[f].kind == 2) { int k = known(BA[f].a, BA[f].b); if (k >= 0) return k; }
    if (g_decouple) {
        int t = weaken(f, true), n = weaken(f, false);
        if (t != f || n != b_not(f)) { if (known_b(t) == 0) return false; if (known_b(n) == 0) return true; }
    }
    bool side;
    if (tpos < trail.size()) {
        if (trail[tpos].kind != D_BR) fatal("trail mismatch (branch)");
        side = trail[tpos].a;
        apply_entry(tpos, side ? f : b_not(f)); tpos++;
        learn_dec(f, side);
        if (tpos == trail.size()) on_prefix_done();
    } else {
        on_prefix_done();
        side = eval_b(f);
        if (trail.size() > g_max_dec) throw PathEnd{PE_HANG, "decision limit"};
        trail.push_back({D_BR, side, 2, 0, true, 0, 0}); st.decisions++;
        apply_entry(tpos, side ? f : b_not(f)); tpos++;
        learn_dec(f, side);
    }
    return side;
}
int decide_choose(int n, bool = false) {
    if (n <= 1) return 0;
    int r;
    if (tpos < trail.size()) {
        if (trail[tpos].kind != D_CH || trail[tpos].n != n) fatal("trail mismatch (choose)");
        r = trail[tpos].a; apply_entry(tpos, -1); tpos++;
        if (tpos == trail.size()) on_prefix_done();
    } else {
        r = 0; trail.push_back({D_CH, 0, n, 0, true, 0, 0}); st.nondet++; apply_entry(tpos, -1); tpos++;
        if (trail.size() > g_max_dec) throw PathEnd{PE_HANG, "decision limit"};
    }
    return r;
}

// ------------------------------------------------------------------ scalar ops
struct OpKey { uint64_t a, b; uint32_t op; bool operator==(const OpKey& o) const { return a == o.a && b == o.b && op == o.op; } };
struct OpHash { size_t operator()(const OpKey& k) const { return (k.a * 0x9E3779B97F4A7C15ull) ^ (k.b * 0xC2B2AE3D27D4EB4Full) ^ (k.op * 0x165667B19E3779F9ull); } };
struct OpRes { double c; int id; };
std::unordered_map<OpKey, OpRes, OpHash> opcache;
uint64_t vkey(double c, int id) { if (id > 0) return 0x7ff8000000000000ull + (uint64_t)id; uint64_t u; memcpy(&u, &c, 8); return u; }

std::map<int, int> floortab, roundvtab, invtab, sqrttab, sintab, costab, tantab;

// floor of a lin as lin
Lin floor_lin(const Lin& a) {
    Lin ip, rest; ip.c = Rat(qfloor(a.c)); rest.c = a.c - ip.c;
    for (auto& p : a.t) {
        if (V[p.first].is_int) {
            mpz_class z = qfloor(p.second); Rat fr = p.second - Rat(z);
            if (z != 0) ip.t.push_back({p.first, Rat(z)});
            if (sgn(fr)) rest.t.push_back({p.first, fr});
        } else rest.t.push_back(p);
    }
    if (rest.t.empty()) return ip;
    int id = mknode(rest);
    Rat flo = Rat(qfloor(N[id].lo)), fhi = Rat(qfloor(N[id].hi));
    if (flo == fhi) { ip.c += flo; return ip; }
    if (N[id].gran != GNONE && N[id].gran >= 0) return a;
    auto it = floortab.find(id); int v;
    if (it != floortab.end()) v = it->second;
    else { Var x; x.kind = FLOORV; x.args = {id}; x.is_int = true; x.name = "f"; x.lo = flo; x.hi = fhi; x.gran = 0; v = newvar(x); floortab[id] = v; }
    ip.t.push_back({v, Rat(1)}); lin_norm(ip); return ip;
}
Lin round_half_away(const Lin& a) {
    int id = mknode(a);
    if (a.t.empty()) { Lin r; r.c = Rat(qround(a.c)); return r; }
    if (N[id].gran != GNONE && N[id].gran >= 0) return a;
    if (sgn(N[id].lo) >= 0) { Lin b = a; b.c += Rat(1, 2); return floor_lin(b); }
    if (sgn(N[id].hi) <= 0) { Lin b = lin_scale(a, -1); b.c += Rat(1, 2); return lin_scale(floor_lin(b), -1); }
    if (N[id].gran == GNONE || N[id].gran < -1) {
        // ties (odd multiples of 1/2) may exist: exact definition with both signs
    }
    auto it = roundvtab.find(id); int v;
    if (it != roundvtab.end()) v = it->second;
    else { Var x; x.kind = ROUNDV; x.args = {id}; x.is_int = true; x.name = "r"; x.lo = Rat(qround(N[id].lo)); x.hi = Rat(qround(N[id].hi)); x.gran = 0; v = newvar(x); roundvtab[id] = v; }
    return linvar(v);
}
int finish(const Lin& r, int prec, double* c, int gh = GNONE) { return round_lin(r, prec, c, gh); }
int val_gran(double c, int id) { if (id > 0) return N[id].gran; return gran_of(ofdouble(c)); }

}  // namespace

// 1 / node, for a node that is not zero on this path and has the given sign
namespace {
Lin inv_lin(int ib, bool positive) {
    // the interval must not depend on the path: global interval when it excludes zero, else keyed by sign
    Rat glo = N[ib].lo, ghi = N[ib].hi; int key = ib;
    if (sgn(glo) <= 0 && sgn(ghi) >= 0) {
        Rat g = nonzero_min(ib); if (sgn(g) == 0) throw PathEnd{PE_UNSUP, "division by a value arbitrarily close to zero"};
        if (positive) { glo = g; key = ib * 2 + 1000000000; } else { ghi = -g; key = -ib - 1; }
    }
    auto it = invtab.find(key); int v;
    if (it != invtab.end()) v = it->second;
    else {
        Var x; x.kind = INVV; x.args = {ib}; x.name = "inv"; x.lo = 1 / ghi; x.hi = 1 / glo;
        // a nearly constant quotient is a constant and a small deviation
        if (absq(x.hi - x.lo) < pow2(-10) * absq(x.lo)) { x.flag = true; x.cst = rnd((x.lo + x.hi) / 2, 30); x.lo -= x.cst; x.hi -= x.cst; }
        v = newvar(x); invtab[key] = v; if (!V[v].flag) add_inv_rule(v, N[ib].l);
    }
    Lin l = linvar(v); l.c = V[v].cst; return l;
}
}
namespace vx {
uint64_t g_ticks = 0, g_tick_limit = 4000000;
vector<FileEvent> g_files;

void tick_slow() { throw PathEnd{PE_HANG, "operation limit"}; }
void uninit_slow() { throw PathEnd{PE_UNSUP, "unsupported use of a symbolic value"}; }

int32_t bin_slow(int op, double a, int32_t ia, double b, int32_t ib, int prec, double* c) {
    if (ia < 0) ia = 0; if (ib < 0) ib = 0;   // uninitialised pattern: plain bits
    if (ia == 0 && ib == 0) {
        if (prec == 24) { float x = (float)a, y = (float)b; *c = op == ADD ? x + y : op == SUB ? x - y : op == MUL ? x * y : x / y; }
        else *c = op == ADD ? a + b : op == SUB ? a - b : op == MUL ? a * b : a / b;
        return 0;
    }
    // non-finite concrete operand
    if ((ia == 0 && !std::isfinite(a)) || (ib == 0 && !std::isfinite(b))) {
        if ((ia == 0 && std::isnan(a)) || (ib == 0 && std::isnan(b))) { *c = NAN; return 0; }
        if (op == ADD) { *c = ia == 0 ? a : b; return 0; }
        if (op == SUB) { *c = ia == 0 ? a : -b; return 0; }
        if (op == DIV && ib == 0) { *c = 0.0; return 0; }
        // sym * inf, inf / sym : sign of the symbolic operand
        int sid = ia > 0 ? ia : ib; double inf = ia > 0 ? b : a;
        if (decide_formula(b_atom(N[sid].l, EQ))) { *c = op == MUL ? NAN : inf; return 0; }
        *c = decide_formula(b_atom(N[sid].l, LT)) ? -inf : inf; return 0;
    }
    if (op == ADD && ia == 0 && a == 0) { if (prec == 24 || true) return ib; }
    if ((op == ADD || op == SUB) && ib == 0 && b == 0) return ia;
    if (op == MUL) {
        if ((ia == 0 && a == 0) || (ib == 0 && b == 0)) { *c = 0.0; return 0; }
        if (ia == 0 && a == 1) return ib; if (ib == 0 && b == 1) return ia;
    }
    if (op == DIV && ib == 0 && b == 1) return ia;
    if (op == DIV && ia == 0 && a == 0) { if (decide_formula(b_atom(N[ib].l, EQ))) { *c = NAN; return 0; } *c = 0.0; return 0; }
    if (op == DIV && ib == 0 && b == 0) {
        if (decide_formula(b_atom(N[ia].l, EQ))) { *c = NAN; return 0; }
        bool neg = decide_formula(b_atom(N[ia].l, LT)) != std::signbit(b);
        *c = neg ? -INFINITY : INFINITY; return 0;
    }
    OpKey key{vkey(a, ia), vkey(b, ib), (uint32_t)(op * 64 + prec)};
    bool divsym = op == DIV && ib > 0;
    if (!divsym) { auto it = opcache.find(key); if (it != opcache.end()) { *c = it->second.c; return it->second.id; } }
    Lin la = lin_of(a, ia), lb = lin_of(b, ib); Lin r; int gh = GNONE;
    int ga = val_gran(a, ia), gb = val_gran(b, ib);
    if (op == ADD || op == SUB) { r = lin_add(la, lb, op == ADD ? 1 : -1); if (ga != GNONE && gb != GNONE) gh = std::min(ga, gb); }
    else if (op == MUL) { if (la.t.size() * lb.t.size() > 4000) throw PathEnd{PE_UNSUP, "polynomial too large"}; r = lin_mul(la, lb); if (ga != GNONE && gb != GNONE) gh = ga + gb; }
    else if (ib == 0) { r = lin_scale(la, 1 / lb.c); }
    else {
        // symbolic divisor
        if (la.t == lb.t && la.c == lb.c) { if (decide_formula(b_atom(lb, EQ))) { *c = NAN; return 0; } *c = 1; return 0; }
        Rat lo, hi; path_interval(ib, lo, hi);
        if (sgn(lo) <= 0 && sgn(hi) >= 0) {
            if (decide_formula(b_atom(lb, EQ))) {
                if (ia == 0) { *c = a > 0 ? INFINITY : -INFINITY; return 0; }
                if (decide_formula(b_atom(la, EQ))) { *c = NAN; return 0; }
                *c = decide_formula(b_atom(la, LT)) ? -INFINITY : INFINITY; return 0;
            }
            decide_formula(b_atom(lb, LT));
            path_interval(ib, lo, hi);
        }
        // proportional operands: exact constant quotient
        if (ia > 0) { base_of(ia); base_of(ib); if (N[ia].basek == N[ib].basek && sgn(N[ia].off) == 0 && sgn(N[ib].off) == 0) { Rat q = N[ia].scale / N[ib].scale; *c = todouble(rnd(q, prec)); return 0; } }
        if (sgn(lo) == 0 || sgn(hi) == 0) {
            Rat g = nonzero_min(ib); if (sgn(g) == 0) throw PathEnd{PE_UNSUP, "division by a value arbitrarily close to zero"};
            if (sgn(lo) == 0) lo = g; else hi = -g;
        }
        r = lin_mul(la, inv_lin(ib, sgn(lo) > 0));
    }
    int id = finish(r, prec, c, gh);
    if (!divsym) opcache[key] = {*c, id};
    return id;
}
static std::unordered_map<OpKey, int, OpHash> cmpmemo;
bool cmp_slow(int op, double a, int32_t ia, double b, int32_t ib) {
    if (ia < 0) ia = 0; if (ib < 0) ib = 0;
    if (ia == 0 && ib == 0) return op == LT ? a < b : op == LE ? a <= b : a == b;
    if (ia == 0 && !std::isfinite(a)) { if (std::isnan(a)) return false; return op == EQ ? false : a < 0; }
    if (ib == 0 && !std::isfinite(b)) { if (std::isnan(b)) return false; return op == EQ ? false : b > 0; }
    if (ia == ib) return op != LT;
    OpKey key{vkey(a, ia), vkey(b, ib), (uint32_t)(900 + op)}; int f;
    auto mit = cmpmemo.find(key);
    if (mit != cmpmemo.end()) f = mit->second;
    else { Lin d; if (ib == 0 && b == 0) d = N[ia].l; else d = lin_add(lin_of(a, ia), lin_of(b, ib), -1); f = b_atom(d, op); cmpmemo[key] = f; }
    if (f == BT) return true; if (f == BF) return false;
    return decide_formula(f);
}
int32_t un_slow(int op, double a, int32_t ia, int prec, double* c) {
    if (ia <= 0) {
        ia = 0;
        switch (op) { case FLOOR: *c = std::floor(a); return 0; case CEIL: *c = std::ceil(a); return 0; case ROUND: *c = std::round(a); return 0; case TRUNC: *c = std::trunc(a); return 0;
            case ABS: *c = std::fabs(a); return 0; case SQRT: *c = prec == 24 ? std::sqrt((float)a) : std::sqrt(a); return 0; default: throw PathEnd{PE_UNSUP, "concrete unary"}; }
    }
    Lin l = N[ia].l; Lin r;
    auto con = [&](const Lin& x) -> int32_t { if (x.t.empty()) { *c = todouble(x.c); return 0; } int id = mknode(x); return id; };
    switch (op) {
        case FLOOR: if (N[ia].gran != GNONE && N[ia].gran >= 0) return ia; return con(floor_lin(l));
        case CEIL: if (N[ia].gran != GNONE && N[ia].gran >= 0) return ia; return con(lin_scale(floor_lin(lin_scale(l, -1)), -1));
        case ROUND: if (N[ia].gran != GNONE && N[ia].gran >= 0) return ia; return con(round_half_away(l));
        case TRUNC: {
            if (N[ia].gran != GNONE && N[ia].gran >= 0) return ia;
            Rat lo, hi; path_interval(ia, lo, hi);
            bool neg = sgn(lo) >= 0 ? false : sgn(hi) <= 0 ? true : decide_formula(b_atom(l, LT));
            return neg ? con(lin_scale(floor_lin(lin_scale(l, -1)), -1)) : con(floor_lin(l));
        }
        case ABS: { bool neg = decide_formula(b_atom(l, LT)); return neg ? con(lin_scale(l, -1)) : ia; }
        case SQRT: {
            auto it = sqrttab.find(ia); int v;
            if (sgn(N[ia].lo) < 0) { if (decide_formula(b_atom(l, LT))) { *c = NAN; return 0; } }
            if (it != sqrttab.end()) v = it->second;
            else {
                double slo = std::sqrt(std::max(0.0, todouble(N[ia].lo))) , shi = std::sqrt(std::max(0.0, todouble(N[ia].hi)));
                slo = std::max(0.0, slo * (1 - 1e-15) - 1e-300); shi = shi * (1 + 1e-15) + 1e-300;
                Rat mid = rnd((Rat(slo) + Rat(shi)) / 2, 24);
                Var x; x.kind = SQRTV; x.args = {(int)ia}; x.name = "sq"; x.cst = mid; x.lo = Rat(slo) - mid; x.hi = Rat(shi) - mid; v = newvar(x); sqrttab[ia] = v; add_sqrt_rule(v, l);
            }
            r = linvar(v); r.c = V[v].cst; int sn = r.t.empty() ? 0 : mknode(r);
            Rat nz = nonzero_min(ia); if (sn && sgn(nz) > 0) { Rat m = pow2(flog2(nz) >= 0 ? flog2(nz) / 2 : -((-flog2(nz) + 1) / 2)); if (m > N[sn].nzmin) N[sn].nzmin = m; }
            return finish(r, prec, c);
        }
        case SIN: case COS: {
            int sv, cv; auto it = sintab.find(ia);
            if (it == sintab.end()) {
                Var s; s.kind = SINV; s.args = {(int)ia}; s.name = "sin"; s.lo = -1; s.hi = 1; sv = newvar(s);
                Var k; k.kind = COSV; k.args = {(int)ia}; k.name = "cos"; k.lo = -1; k.hi = 1; cv = newvar(k);
                V[sv].partner = cv; sintab[ia] = sv; costab[ia] = cv;
            }
            sv = sintab[ia]; cv = costab[ia];
            // library contract: |error| <= 1 ulp of the result type at magnitude 1
            int base = op == SIN ? sv : cv;
            return finish(linvar(base), prec, c);
        }
        default: throw PathEnd{PE_UNSUP, "symbolic transcendental"};
    }
}
int32_t bin2_slow(int op, double a, int32_t ia, double b, int32_t ib, int, double* c) {
    if (ia <= 0 && ib <= 0) { *c = op == ATAN2 ? std::atan2(a, b) : op == FMOD ? std::fmod(a, b) : std::pow(a, b); return 0; }
    throw PathEnd{PE_UNSUP, "symbolic atan2/fmod/pow"};
}
int32_t narrow_slow(double a, int32_t ia, double* c) {
    if (ia <= 0) { *c = (float)a; return 0; }
    OpKey key{vkey(a, ia), 0, 777}; auto it = opcache.find(key); if (it != opcache.end()) { *c = it->second.c; return it->second.id; }
    int g = N[ia].gran; Lin l = N[ia].l; int id = finish(l, 24, c, g); opcache[key] = {*c, id}; return id;
}
int64_t toint_slow(double a, int32_t ia) {
    if (ia <= 0) return (int64_t)a;
    double cc = 0; int id = un_slow(TRUNC, a, ia, 53, &cc);
    if (id == 0) return (int64_t)cc;
    for (;;) {
        Rat lo, hi; path_interval(id, lo, hi);
        if (lo == hi) return lo.get_num().get_si();
        if (tpos < trail.size()) {
            if (trail[tpos].kind != D_CONV) fatal("trail mismatch (conv)");
            int64_t v = trail[tpos].v; bool eq = trail[tpos].a; Lin d = N[id].l; d.c -= Rat((long)v); int f = b_atom(d, EQ);
            apply_entry(tpos, eq ? f : b_not(f)); tpos++; if (BA[f].kind == 2) learn(BA[f].a, EQ, eq);
            if (tpos == trail.size()) on_prefix_done();
            if (eq) return v;
        } else {
            on_prefix_done();
            Rat q = eval_lin(N[id].l); if (!isint(q)) q = Rat(qfloor(q));
            int64_t v = q.get_num().get_si(); Lin d = N[id].l; d.c -= Rat((long)v); int f = b_atom(d, EQ);
            if (trail.size() > g_max_dec) throw PathEnd{PE_HANG, "decision limit"};
            trail.push_back({D_CONV, 1, 2, v, true, 0, 0}); st.decisions++;
            apply_entry(tpos, f); tpos++; if (BA[f].kind == 2) learn(BA[f].a, EQ, true);
            if (model_zmode && !eval_b(f)) model_valid = false;
            return v;
        }
    }
}
std::map<std::pair<vector<int>, bool>, int> picktab;
int32_t minmax_slow(bool mx, const double* c, const int32_t* idp, int n, int prec, double* out) {
    vector<std::pair<double, int>> e; bool sym = false;
    for (int i = 0; i < n; i++) { int id = idp[i] < 0 ? 0 : idp[i]; e.push_back({c[i], id}); if (id) sym = true; if (!id && !std::isfinite(c[i])) { goto seq; } }
    if (!sym) goto seq;
    {
        // drop elements dominated by interval
        vector<std::pair<double, int>> k;
        for (int i = 0; i < n; i++) {
            bool drop = false; Lin li = lin_of(e[i].first, e[i].second);
            for (int j = 0; j < n && !drop; j++) if (j != i) {
                Lin d = lin_add(lin_of(e[j].first, e[j].second), li, -1); Rat lo, hi; lin_interval(d, lo, hi);
                if (d.t.empty() && sgn(d.c) == 0) { if (j < i) drop = true; continue; }
                if (mx ? sgn(lo) >= 0 : sgn(hi) <= 0) { if (!(sgn(lo) == 0 && sgn(hi) == 0 && j > i)) drop = true; }
            }
            if (!drop) k.push_back(e[i]);
        }
        if (k.size() == 1) { *out = k[0].first; return k[0].second; }
        if (k.size() >= 2) {
            // noise-level ties or many candidates: one variable bounded by all of them
            bool tiny = true; Rat eps = pow2(-12);
            for (size_t i = 1; i < k.size(); i++) { Lin d = lin_add(lin_of(k[i].first, k[i].second), lin_of(k[0].first, k[0].second), -1); Rat lo, hi; lin_interval(d, lo, hi); if (hi - lo > eps) tiny = false; }
            if (tiny || k.size() > 3) {
                vector<int> ids; for (auto& p : k) ids.push_back(p.second ? p.second : mknode(lin_of(p.first, 0)));
                std::sort(ids.begin(), ids.end());
                auto key = std::make_pair(ids, mx); auto it = picktab.find(key); int v;
                if (it != picktab.end()) v = it->second;
                else {
                    // represented as first candidate + small deviation is not needed: plain variable
                    Var x; x.kind = PICKV; x.args = ids; x.flag = mx; x.name = "pk"; bool first = true; int g = 1000000; x.is_int = false;
                    for (int id : ids) { if (first) { x.lo = N[id].lo; x.hi = N[id].hi; first = false; } else if (mx) { if (N[id].lo > x.lo) x.lo = N[id].lo; if (N[id].hi > x.hi) x.hi = N[id].hi; } else { if (N[id].lo < x.lo) x.lo = N[id].lo; if (N[id].hi < x.hi) x.hi = N[id].hi; } g = N[id].gran == GNONE || g == GNONE ? GNONE : std::min(g, N[id].gran); }
                    x.gran = g; v = newvar(x); picktab[key] = v;
                }
                return mknode(linvar(v));
            }
        }
    }
seq:
    double bc = c[0]; int bi = idp[0] < 0 ? 0 : idp[0];
    for (int i = 1; i < n; i++) {
        bool t = mx ? cmp_slow(LT, bc, bi, c[i], idp[i]) : cmp_slow(LT, c[i], idp[i], bc, bi);
        if (t) { bc = c[i]; bi = idp[i] < 0 ? 0 : idp[i]; }
    }
    *out = bc; return bi;
}
}  // namespace vx

// ------------------------------------------------------------------ harness API
namespace vh {
std::vector<Harness>& harnesses() { static std::vector<Harness> h; return h; }
static string g_variant; static bool g_thorough = false;
const string& variant() { return g_variant; }
bool tier_thorough() { return g_thorough; }
int param(const char*, int q, int t) { return g_thorough ? t : q; }

B::B(bool b) : id(b ? BT : BF) {}
static Q qid(int id) { Q q(Q::Raw{}); q.id = id; return q; }
static Q mkq(const Lin& l) { return qid(mknode(l)); }
static const Lin& ql(const Q& q) { return N[q.id].l; }
static int constnode(const Rat& r) { Lin l; l.c = r; return mknode(l); }
static std::unordered_map<uint64_t, int> dconst;
static int dnode(double d) { if (d == 0) d = 0.0; uint64_t k; memcpy(&k, &d, 8); auto it = dconst.find(k); if (it != dconst.end()) return it->second; return dconst[k] = constnode(Rat(d)); }
Q::Q(int v) : id(dnode(v)) {} Q::Q(long v) : id(dnode((double)v)) {} Q::Q(double v) : id(dnode(v)) {} Q::Q(const mpq_class& v) : id(constnode(v)) {}
Q::Q(const F32& f) { if (f.id > 0) id = f.id; else { if (!std::isfinite(f.c)) throw PathEnd{PE_UNSUP, "NaN/inf in specification value"}; id = dnode((double)f.c); } }
Q::Q(const F64& f) { if (f.id > 0) id = f.id; else { if (!std::isfinite(f.c)) throw PathEnd{PE_UNSUP, "NaN/inf in specification value"}; id = dnode(f.c); } }
bool is_special(const F32& f) { return f.id <= 0 && !std::isfinite(f.c); }
bool is_special(const F64& f) { return f.id <= 0 && !std::isfinite(f.c); }
mpq_class qconst(const Q& a) { if (!N[a.id].l.t.empty()) fatal("qconst of a symbolic value"); return N[a.id].l.c; }
static std::unordered_map<OpKey, int, OpHash> qmemo;
template <class F> static int memo(int op, const Q& a, const Q& b, F f) { OpKey k{(uint64_t)a.id, (uint64_t)b.id, (uint32_t)op}; auto it = qmemo.find(k); if (it != qmemo.end()) return it->second; int r = f(); qmemo[k] = r; return r; }
Q operator+(const Q& a, const Q& b) { return qid(memo(1, a, b, [&] { return mkq(lin_add(ql(a), ql(b), 1)).id; })); }
Q operator-(const Q& a, const Q& b) { return qid(memo(2, a, b, [&] { return mkq(lin_add(ql(a), ql(b), -1)).id; })); }
Q operator*(const Q& a, const Q& b) { return qid(memo(3, a, b, [&] { return mkq(lin_mul(ql(a), ql(b))).id; })); }
Q operator-(const Q& a) { return Q(0) - a; }
Q qdiv(const Q& a, const Q& b) {
    if (ql(b).t.empty()) { if (sgn(ql(b).c) == 0) throw PathEnd{PE_UNSUP, "specification divides by zero"}; return mkq(lin_scale(ql(a), 1 / ql(b).c)); }
    Rat lo, hi; path_interval(b.id, lo, hi); if (sgn(lo) < 0 && sgn(hi) > 0) throw PathEnd{PE_UNSUP, "specification divides by a value of unknown sign"};
    return mkq(lin_mul(ql(a), inv_lin(b.id, sgn(lo) >= 0 && sgn(hi) > 0)));
}
Q qfloor(const Q& a) { return qid(memo(4, a, a, [&] { return mkq(floor_lin(ql(a))).id; })); }
B operator<(const Q& a, const Q& b) { return B(B::Raw(), memo(5, a, b, [&] { return b_atom(lin_add(ql(a), ql(b), -1), vx::LT); })); }
B operator<=(const Q& a, const Q& b) { return B(B::Raw(), memo(6, a, b, [&] { return b_atom(lin_add(ql(a), ql(b), -1), vx::LE); })); }
B eq(const Q& a, const Q& b) { return B(B::Raw(), memo(7, a, b, [&] { return b_atom(lin_add(ql(a), ql(b), -1), vx::EQ); })); }
B operator&&(const B& a, const B& b) { return B(B::Raw(), b_and(a.id, b.id)); }
B operator||(const B& a, const B& b) { return B(B::Raw(), b_or(a.id, b.id)); }
B operator!(const B& a) { return B(B::Raw(), b_not(a.id)); }

static string uniq(std::map<string, int>& m, const string& n) { int k = m[n]++; return k ? n + "#" + std::to_string(k) : n; }
static std::map<string, int> path_names;
Q in_scaled(const string& name_, long lo, long hi, int e) {
    string name = uniq(path_names, name_);
    string key = name + "|" + std::to_string(lo) + "|" + std::to_string(hi);
    int v; auto it = in_names.find(key);
    if (it != in_names.end()) v = it->second;
    else { Var x; x.kind = INPUT; x.name = key; x.is_int = true; x.lo = lo; x.hi = hi; x.gran = 0; v = newvar(x); in_names[key] = v; }
    path_inputs.push_back({name, v});
    node_of_var(v);
    if (lo == hi) return Q(Rat(lo) * pow2(e));
    return mkq(lin_scale(linvar(v), pow2(e)));
}
Q in_int(const string& name, long lo, long hi) { return in_scaled(name, lo, hi, 0); }
int choose(const string& name, int n) {
    int r = decide_choose(n);
    trace_choices.push_back({'c', name, std::to_string(r)}); return r;
}
bool split(const B& c) { return decide_formula(c.id); }
void assume(const B& c) {
    if (c.id == BT) return; if (c.id == BF) throw PathEnd{PE_INFEAS, "assume"};
    if (tpos < trail.size()) {
        if (trail[tpos].kind != D_AS) fatal("trail mismatch (assume)");
        apply_entry(tpos, c.id); tpos++;
        if (BA[c.id].kind == 2) learn(BA[c.id].a, BA[c.id].b, true);
        if (tpos == trail.size()) on_prefix_done();
    } else {
        trail.push_back({D_AS, 0, 1, 0, false, 0, 0}); apply_entry(tpos, c.id); tpos++;
        if (BA[c.id].kind == 2) learn(BA[c.id].a, BA[c.id].b, true);
        if (model_valid && !eval_b(c.id)) model_valid = false;
        // feasibility is checked lazily at the next decision or assertion
    }
    // conjunctions of atoms also feed the bounds
    std::function<void(int)> rec = [&](int b) { if (BA[b].kind == 3) { rec(BA[b].a); rec(BA[b].b); } else if (BA[b].kind == 2) learn(BA[b].a, BA[b].b, true); else if (BA[b].kind == 5 && BA[BA[b].a].kind == 2) learn(BA[BA[b].a].a, BA[BA[b].a].b, false); };
    rec(c.id);
}
struct Chk { string tag, msg; int f; };
static vector<Chk> chks;
static std::set<string> active_tags; static bool all_tags = true;
static std::set<string> reached; 
bool wants(const char* tag) { return all_tags || active_tags.count(tag); }
void check(const char* tag, const B& c, const string& msg) {
    if (!all_tags && !active_tags.count(tag)) return;
    chks.push_back({tag, msg, c.id});
}
struct Obs { string name; int kind; double c; int id; long v; };
static vector<Obs> obs;
void observe(const string& n, const F32& v) { obs.push_back({n, 0, (double)v.c, v.id < 0 ? 0 : v.id, 0}); }
void observe(const string& n, const F64& v) { obs.push_back({n, 1, v.c, v.id < 0 ? 0 : v.id, 0}); }
void observe_int(const string& n, long v) { obs.push_back({n, 2, 0, 0, v}); }
void reach(const string& w) { reached.insert(w); }
F32 f32(const Q& q) {
    if (N[q.id].l.t.empty()) { Rat k = N[q.id].l.c; double d = todouble(k); if (Rat(d) != k || (double)(float)d != d) throw PathEnd{PE_UNSUP, "harness value not a float"}; return F32((float)d); }
    double c = 0; int id = round_lin(N[q.id].l, 24, &c, N[q.id].gran); if (id != q.id) throw PathEnd{PE_UNSUP, "harness value not a float"}; return F32(0.f, id);
}
F64 f64(const Q& q) {
    if (N[q.id].l.t.empty()) { Rat k = N[q.id].l.c; double d = todouble(k); if (Rat(d) != k) throw PathEnd{PE_UNSUP, "harness value not a double"}; return F64(d); }
    double c = 0; int id = round_lin(N[q.id].l, 53, &c, N[q.id].gran); if (id != q.id) throw PathEnd{PE_UNSUP, "harness value not a double"}; return F64(0., id);
}
static int rng_full = 4, rng_budget = 1000000, rng_used = 0, rng_mode = 0, rng_rot = -1;
void (*prelude)() = nullptr; bool in_prelude = false;
void rng_policy(int full, int budget, int mode) { rng_full = full; rng_budget = budget; rng_used = 0; rng_mode = mode; rng_rot = -1; }
static vector<std::pair<int, int>> rng_log; static bool rng_replaying = false, rng_mismatch = false; static size_t rng_rpos = 0;
void rng_record() { rng_log.clear(); rng_replaying = false; rng_mismatch = false; }
void rng_replay() { rng_replaying = true; rng_rpos = 0; rng_mismatch = false; }
bool rng_replay_end() { bool ok = !rng_mismatch && rng_rpos == rng_log.size(); rng_replaying = false; return ok; }
int rng_drawn() { return (int)rng_log.size(); }
void decouple_rounding() { if (!trail.empty() && tpos > 0) fatal("decouple_rounding must come first"); g_decouple = true; }
void sqrt_hint(const Q& k) { g_sqrt_hints.push_back(qconst(k)); }
vector<FileOut> files_written() {
    vector<FileOut> r;
    for (auto& f : vx::g_files) if (f.write) {
        FileOut o; size_t p = f.name.find_last_of('/'); o.name = p == string::npos ? f.name : f.name.substr(p + 1); o.dir = p == string::npos ? "" : f.name.substr(0, p);
        o.existed = f.existed; o.append = !f.trunc;
        std::vector<FileCell> row; FileCell cur; bool has = false;
        auto flush = [&]() { row.push_back(cur); cur = FileCell(); has = false; };
        for (auto& t : f.toks) {
            if (t.kind == 1) { if (has) { cur.bad = true; } cur.num = true; cur.c = t.c; cur.id = t.id; has = true; continue; }
            for (char ch : t.s) { if (ch == ',') flush(); else if (ch == '\n') { flush(); o.rows.push_back(row); row.clear(); } else { if (cur.num) cur.bad = true; cur.text += ch; has = true; } }
        }
        if (has || !row.empty()) { flush(); o.rows.push_back(row); }
        r.push_back(o);
    }
    return r;
}
B file_cell_is(const FileCell& c, const F32& v) {
    if (c.bad) return false;
    if (!c.num) { std::ostringstream s; if (v.id > 0) return false; s << v.c; return c.text == s.str(); }
    Q q = c.id > 0 ? Q(F64(0., c.id)) : Q(c.c); return eq(q, Q(v));
}
B file_cell_is(const FileCell& c, const F64& v) { if (c.bad || !c.num) return false; Q q = c.id > 0 ? Q(F64(0., c.id)) : Q(c.c); return eq(q, Q(v)); }
int warnings() { return vxlog::g_warnings; }
static std::map<string, bool> g_exists; static int g_max_existing = 2; static int g_exist_used = 0;
static int g_taken = 0;
void file_reset() { g_exists.clear(); vx::g_files.clear(); g_exist_used = 0; g_taken = 0; }
void file_policy_taken(int n) { g_taken = n; }
bool file_taken(const string& n) {
    if (!g_taken || n.size() < 10 || n.compare(n.size() - 4, 4, ".csv") || n[n.size() - 10] != '_') return false; for (int i = 5; i <= 9; i++) if (!isdigit(n[n.size() - i])) return false;
    string b = n.substr(0, n.size() - 10); size_t p = b.find_last_of('/'); if (p != string::npos) b = b.substr(p + 1);
    return (b == "terrain" || b == "body_soil" || b == "bucket" || b == "blade") && atoi(n.substr(n.size() - 9, 5).c_str()) < g_taken;
}
void file_policy_max_existing(int n) { g_max_existing = n; }
}  // namespace vh
namespace vx {
using namespace vh;
int choose_rng(int n) {
    int r;
    if (vh::in_prelude) { if (n <= 0) abort(); return n - 1; }
    if (vh::rng_replaying) {
        if (vh::rng_rpos >= vh::rng_log.size() || vh::rng_log[vh::rng_rpos].first != n) { vh::rng_mismatch = true; r = n - 1; }
        else r = vh::rng_log[vh::rng_rpos++].second;
        return r;
    }
    if (n <= 0) abort();   // empty range: undefined behaviour of the distribution
    if (vh::rng_mode >= 2 && (n > vh::rng_full || vh::rng_used >= vh::rng_budget)) r = vh::rng_mode == 2 ? 0 : (5 * (int)vh::rng_log.size() + 1) % n;
    else if (vh::rng_used >= vh::rng_budget) r = n - 1;
    else if (n <= vh::rng_full) { r = decide_choose(n); vh::rng_used++; }
    else if (vh::rng_mode == 1) { int k = decide_choose(2); r = k ? 0 : n - 1; vh::rng_used++; }
    else r = n - 1;
    vh::rng_log.push_back({n, r});
    trace_choices.push_back({'r', "", std::to_string(r)}); return r;
}
bool file_exists(const string& n) {
    for (auto& f : g_files) if (f.write && f.name == n) return true;
    auto it = vh::g_exists.find(n); if (it != vh::g_exists.end()) return it->second;
    if (vh::file_taken(n)) return vh::g_exists[n] = true;
    bool e = false;
    if (vh::g_exist_used < vh::g_max_existing) { e = decide_choose(2) == 0 ? false : true; if (e) vh::g_exist_used++; trace_choices.push_back({'x', n, e ? "1" : "0"}); }
    vh::g_exists[n] = e; return e;
}
}  // namespace vx
namespace vh { bool file_preexisted(const string& path) { auto it = g_exists.find(path); if (it != g_exists.end()) return it->second; for (auto& f : vx::g_files) if (f.write && f.name == path) return f.existed; return vx::file_exists(path); } }

// ------------------------------------------------------------------ exploration driver
namespace {
const size_t TASK_MAX = 64 * 1024, TASK_N = 512;
struct Task { uint32_t len; Dec d[TASK_MAX / sizeof(Dec)]; };
struct Shared {
    pthread_mutex_t m; pthread_cond_t cv; int idle, workers; bool done; int stop;
    int ntask; int slots[TASK_N]; int nfree; int freelist[TASK_N];
    std::atomic<uint64_t> ces, ncutoff;
    Task tasks[TASK_N];
};
Shared* sh;
int g_wid; FILE* g_out; string g_outdir; int g_maxce = 6; uint64_t g_sample_left = 0; double g_sample_p = 1; 
sigjmp_buf g_jmp; volatile sig_atomic_t g_in_path = 0; volatile int g_sig = 0;

string jesc(const string& s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }

string trace_json() {
    string s = "{\"inputs\":[";
    bool first = true;
    for (auto& p : path_inputs) { Rat v = eval_var(p.second); if (!isint(v)) v = Rat(qfloor(v)); if (!first) s += ","; first = false; s += "[\"" + jesc(p.first) + "\",\"" + v.get_num().get_str() + "\"]"; }
    s += "],\"choices\":["; first = true;
    for (auto& t : trace_choices) { if (!first) s += ","; first = false; s += string("[\"") + t.k + "\",\"" + jesc(t.name) + "\",\"" + t.val + "\"]"; }
    s += "]}"; return s;
}
string obs_json() {
    string s = "["; bool first = true; char buf[64];
    for (auto& o : vh::obs) {
        if (!first) s += ","; first = false;
        if (o.kind == 2) { s += "[\"" + jesc(o.name) + "\",\"i\",\"" + std::to_string(o.v) + "\",0]"; continue; }
        double v; int noisy = 0;
        if (o.id == 0) v = o.c; else {
            Rat q = eval_lin(N[o.id].l); v = todouble(q);
            if (model_zmode) noisy = 1;
            for (auto& p : N[o.id].l.t) { VK k = V[p.first].kind; if (k == INVV || k == SQRTV || k == SINV || k == COSV || k == TANV) noisy = 1; if (k == MONO) for (int a : V[p.first].args) { VK kk = V[a].kind; if (kk != INPUT && kk != FLOORV) noisy = 1; } }
        }
        snprintf(buf, sizeof buf, "%a", v); s += "[\"" + jesc(o.name) + "\",\"f\",\"" + buf + "\"," + std::to_string(noisy) + "]";
    }
    return s + "]";
}
void emit(const char* type, const string& tag, const string& msg, bool with_obs) {
    fprintf(g_out, "{\"type\":\"%s\",\"tag\":\"%s\",\"msg\":\"%s\",\"zmode\":%d,\"trace\":%s,\"obs\":%s}\n", type, jesc(tag).c_str(), jesc(msg).c_str(), (int)model_zmode, trace_json().c_str(), with_obs ? obs_json().c_str() : "[]");
    fflush(g_out);
}
std::map<string, int> ce_count;
string show_lin(const Lin& l) {
    string s = std::to_string(todouble(l.c));
    for (auto& p : l.t) { Var& v = V[p.first]; char b[200]; snprintf(b, sizeof b, " + %.9g*%s%s[%.3g,%.3g]", todouble(p.second), v.name.c_str(), v.kind == INPUT ? "" : std::to_string(p.first).c_str(), todouble(v.lo), todouble(v.hi)); s += b; }
    return s;
}
void debug_pc() {     // path facts that the inputs of the model violate under exact evaluation
    bool z = model_zmode; auto c = mcache; model_zmode = false; mcache.clear();
    for (auto& p : pc) if (!eval_b(p.first)) { int b = p.first; bool neg = BA[b].kind == 5; if (neg) b = BA[b].a; if (BA[b].kind == 2) fprintf(stderr, "diverges at %zu: %s op %d %s   value %g\n", p.second, neg ? "not" : "", BA[b].b, show_lin(N[BA[b].a].l).c_str(), todouble(eval_lin(N[BA[b].a].l))); }
    model_zmode = z; mcache = c;
}
void debug_b(int b, bool neg = false) { BN n = BA[b]; if (n.kind == 5) debug_b(n.a, !neg); else if (n.kind == 3 || n.kind == 4) { debug_b(n.a, neg); debug_b(n.b, neg); } else if (n.kind == 2) fprintf(stderr, "  %s op %d value %g terms %zu: %s\n", neg ? "not" : "", n.b, todouble(eval_lin(N[n.a].l)), N[n.a].l.t.size(), show_lin(N[n.a].l).substr(0, 1500).c_str()); }
void report_ce(const string& tag, const string& msg) {
    int& k = ce_count[tag]; if (k >= g_maxce) return; k++;
    if (getenv("VX_DBG")) debug_pc();
    emit("ce", tag, msg, true); sh->ces++;
}
void on_sig(int s) { if (s == SIGALRM && (g_in_z3 || !g_in_path)) { if (g_in_z3 && now() > g_deadline + 3) Z3_interrupt(Z); alarm(2); return; } if (g_in_path) { g_sig = s; siglongjmp(g_jmp, 1); } signal(s, SIG_DFL); raise(s); }
}  // namespace

// libstdc++ container assertions (index out of range, empty front, ...)
namespace std { 
void __glibcxx_assert_fail(const char* file, int line, const char* fn, const char* cond) noexcept {
    if (g_in_path) { g_sig = 1000; siglongjmp(g_jmp, 1); }
    fprintf(stderr, "assert %s:%d %s %s\n", file, line, fn ? fn : "", cond ? cond : ""); abort();
}
}

namespace {
std::function<void()> g_fn;
std::map<string, uint64_t> unsup_msgs;

void reset_path() {
    tpos = 0; pathb.clear(); vh::chks.clear(); vh::obs.clear(); trace_choices.clear(); path_inputs.clear(); vh::path_names.clear();
    vxlog::g_warnings = vxlog::g_errors = 0; vx::g_ticks = 0; vh::rng_used = 0; vh::rng_full = 4; vh::rng_budget = 1000000; vh::rng_mode = 0; vh::file_reset(); vh::rng_record(); g_sqrt_hints.clear(); g_decouple = false;
}
// with decoupled rounding: a model for which every path fact (and f) holds with margin
bool robust_model(int f) {
    spush(); auto keep_z = zvals; auto keep_m = mcache; bool kz = model_zmode;
    for (auto& p : pc) assert_raw(b_not(weaken(p.first, false)));
    if (f != BT) assert_raw(b_not(weaken(f, false)));
    if (solve() == 1) { if (!model_zmode) return true; }
    zvals = keep_z; mcache = keep_m; model_zmode = kz; return false;
}

// runs one path; returns
void check_end(const string& special_tag, const string& special_msg) {
    // make sure the path is feasible under pending assumptions
    if (!model_valid) on_prefix_done();
    if (!special_tag.empty()) { report_ce(special_tag, special_msg); }
    int conj = BT; for (auto& c : vh::chks) conj = b_and(conj, c.f);
    st.asserts += vh::chks.size();
    if (conj == BT) return;
    for (auto& c : vh::chks) if (!eval_b(c.f)) { if (getenv("VX_DBG")) debug_b(c.f); report_ce(c.tag, c.msg); return; }
    spush(); assert_b(b_not(conj)); pc.push_back({b_not(conj), trail.size()});
    auto keep_z = zvals; bool kz = model_zmode;
    int r = solve();
    if (r == 1) {
        if (g_decouple) robust_model(b_not(conj));
        bool any = false;
        for (auto& c : vh::chks) if (!eval_b(c.f)) { if (getenv("VX_DBG")) debug_b(c.f); report_ce(c.tag, c.msg); any = true; break; }
        if (!any) report_ce("model", "counterexample without concrete witness");
        pc.pop_back();
        if (g_decouple) spop_to(scope_defs.size() - 2);
        spop_to(scope_defs.size() - 2);
        // the model still satisfies the path condition
        return;
    }
    spop_to(scope_defs.size() - 2); pc.pop_back(); zvals = keep_z; model_zmode = kz; mcache.clear();
    if (r < 0 && getenv("VX_DBG")) for (auto& c : vh::chks) { fprintf(stderr, "unknown: %s\n", c.msg.c_str()); debug_b(c.f); }
    if (r < 0) { st.unknown++; unsup_msgs["solver unknown on assertion"]++; }
}
// Static storage of the code under test (run.py renames its sections): every path
// starts from the state the program had when main began.
extern "C" { extern char __start_simdata[] __attribute__((weak)), __stop_simdata[] __attribute__((weak)), __start_simbss[] __attribute__((weak)), __stop_simbss[] __attribute__((weak)); }
struct Statics {
    char *a, *b; vector<char> copy;
    Statics(char* a_, char* b_) : a(a_), b(b_) { if (a && b > a) copy.assign(a, b); }
    void restore() { if (!copy.empty()) memcpy(a, copy.data(), copy.size()); }
};
void restore_statics() {
    static Statics d(__start_simdata, __stop_simdata), z(__start_simbss, __stop_simbss);
    d.restore(); z.restore();
}
void run_path() {
    restore_statics(); vh::in_prelude = false;
    reset_path();
    try {
        if (!trail.empty() && false) {}
        g_in_path = 1;
        int sj = sigsetjmp(g_jmp, 1);
        if (sj == 0) {
            bool exc = false; string em;
            try {
                if (vh::prelude && (__stop_simdata > __start_simdata || __stop_simbss > __start_simbss)) {   // without static storage it has no effect
                    vh::in_prelude = true; vh::prelude(); vh::in_prelude = false;
                    auto ticks = vx::g_ticks; reset_path(); (void)ticks;
                }
                if (trail.empty()) { if (!model_valid) { if (solve() != 1) fatal("base unsat"); } }
                g_fn();
            } catch (PathEnd&) { throw; }
            catch (std::exception& e) { exc = true; em = e.what(); }
            g_in_path = 0;
            st.paths++;
            if (tpos < trail.size()) fatal("nondeterministic replay");
            check_end(exc ? "exception" : "", em);
            if (!exc && g_sample_left > 0 && model_valid) {
                static uint64_t cnt = 0; cnt++;
                if (cnt <= 4 || (cnt % 7) == 0 || g_sample_left > 64) {
                    if (!g_decouple) { if (!model_zmode) { g_sample_left--; emit("sample", "", "", true); } }
                    else {      // an input that stays on this path whatever the rounding errors are
                        if (robust_model(BT) && !model_zmode) { g_sample_left--; emit("sample", "", "", true); }
                        spop_to(scope_defs.size() - 2);
                    }
                }
            }
        } else {
            g_in_path = 0;
            st.paths++;
            if (tpos < trail.size()) { trail.resize(tpos); }
            if (g_sig == SIGALRM) throw PathEnd{PE_HANG, "path time limit"};
            check_end("crash", g_sig == 1000 ? "container access out of range" : "signal " + std::to_string(g_sig));
        }
    } catch (PathEnd& e) {
        g_in_path = 0;
        if (e.why == PE_INFEAS) { st.infeasible++; }
        else if (e.why == PE_UNKNOWN) { unsup_msgs["solver unknown on path"]++; }
        else if (e.why == PE_UNSUP) { st.unsupported++; unsup_msgs[e.msg]++; 
            try { if (!model_valid) on_prefix_done(); static int n = 0; if (n++ < 3) emit("unsup", "unsup", e.msg, false); } catch (PathEnd&) {} }
        else if (e.why == PE_HANG) { st.paths++; try { if (!model_valid) on_prefix_done(); report_ce("hang", e.msg); } catch (PathEnd&) {} }
        if (tpos < trail.size()) trail.resize(tpos);
    }
}
bool backtrack(size_t floor_) {
    while (trail.size() > floor_) {
        Dec& d = trail.back();
        if (d.alt) {
            if (d.kind == D_CH) {
                if (d.a + 1 < d.n) {
                    d.a++; if (d.a + 1 >= d.n) d.alt = false;
                    spop_to(d.lvl); pc.resize(d.pcn); spush(); applied = trail.size();
                    // model satisfies the prefix (constraints only removed)
                    if (!model_valid) { int r = solve(); if (r != 1) { model_valid = false; if (r < 0) unsup_msgs["solver unknown on path"]++; /* prefix infeasible (lazy assume) */ d.alt = false; d.a = d.n; trail.pop_back(); applied = trail.size(); continue; } }
                    return true;
                }
            } else {
                // flip branch / conversion: re-executed in import fashion (constraint applied when reached)
                d.a = !d.a; d.alt = false; spop_to(d.lvl); pc.resize(d.pcn); applied = trail.size() - 1; model_valid = false; return true;
            }
        }
        spop_to(d.lvl); pc.resize(d.pcn); trail.pop_back(); if (applied > trail.size()) applied = trail.size();
    }
    return false;
}
size_t g_floor = 0;
void donate() {
    if (__atomic_load_n(&sh->idle, __ATOMIC_RELAXED) == 0) return;
    pthread_mutex_lock(&sh->m);
    if (sh->idle > sh->ntask && sh->nfree > 0) {
        for (size_t i = g_floor; i < trail.size(); i++) {
            Dec& d = trail[i];
            if (!d.alt) continue;
            if (d.kind == D_CH && d.a + 1 >= d.n) continue;
            if ((i + 1) * sizeof(Dec) > TASK_MAX - 16) break;
            int slot = sh->freelist[--sh->nfree]; Task& t = sh->tasks[slot]; t.len = (uint32_t)i + 1;
            for (size_t j = 0; j <= i; j++) { t.d[j] = trail[j]; t.d[j].alt = false; }
            if (d.kind == D_CH) { t.d[i].a = d.a + 1; t.d[i].alt = (d.a + 2 < d.n); } else t.d[i].a = !d.a;
            d.alt = false;
            sh->slots[sh->ntask++] = slot; pthread_cond_signal(&sh->cv); break;
        }
    }
    pthread_mutex_unlock(&sh->m);
}
bool get_task() {
    pthread_mutex_lock(&sh->m);
    sh->idle++;
    for (;;) {
        if (sh->stop) { sh->done = true; pthread_cond_broadcast(&sh->cv); }
        if (sh->done) break;
        if (sh->ntask > 0) {
            int slot = sh->slots[--sh->ntask]; Task& t = sh->tasks[slot]; trail.assign(t.d, t.d + t.len); sh->freelist[sh->nfree++] = slot;
            sh->idle--; pthread_mutex_unlock(&sh->m); return true;
        }
        if (sh->idle == sh->workers) { sh->done = true; pthread_cond_broadcast(&sh->cv); break; }
        struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 1; pthread_cond_timedwait(&sh->cv, &sh->m, &ts);
        if (now() > g_deadline) { sh->done = true; sh->stop = 1; }
    }
    pthread_mutex_unlock(&sh->m); return false;
}
uint64_t g_max_ce_total = 24;
void worker(int wid) {
    g_wid = wid; g_out = fopen((g_outdir + "/w" + std::to_string(wid) + ".jsonl").c_str(), "w");
    Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(Z, zerr);
    S = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, S);
    Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), g_query_ms); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "random_seed"), 1); Z3_solver_set_params(Z, S, p);
    ISORT = Z3_mk_int_sort(Z); RSORT = Z3_mk_real_sort(Z); Z3_inc_ref(Z, Z3_sort_to_ast(Z, ISORT)); Z3_inc_ref(Z, Z3_sort_to_ast(Z, RSORT));
    BA.clear(); BA.push_back({0, 0, 0}); BA.push_back({1, 0, 0}); scope_defs.emplace_back();
    signal(SIGSEGV, on_sig); signal(SIGBUS, on_sig); signal(SIGFPE, on_sig); signal(SIGABRT, on_sig); signal(SIGALRM, on_sig);
    static char altstack[1 << 16]; stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
    { struct sigaction sa{}; sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(SIGSEGV, &sa, nullptr); }
    bool cut = false;
    bool first = wid == 0;
    for (;;) {
        if (first) { trail.clear(); first = false; } else { if (!get_task()) break; }
        g_floor = trail.empty() ? 0 : trail.size() - 1;
        // a donated choose range keeps its own alternatives: floor stays below it
        spop_to(0); pc.clear(); applied = 0; model_valid = false;
        for (;;) {
            alarm(30); run_path(); alarm(0);
            if (now() > g_deadline || sh->ces > g_max_ce_total) { cut = true; sh->stop = 1; break; }
            if (sh->stop) { cut = true; break; }
            donate();
            if (!backtrack(g_floor)) break;
        }
        if (cut) { sh->ncutoff++; break; }
    }
    if (cut) { pthread_mutex_lock(&sh->m); sh->done = true; sh->idle++; pthread_cond_broadcast(&sh->cv); pthread_mutex_unlock(&sh->m); }
    string un = "{"; bool f = true; for (auto& u : unsup_msgs) { un += (f ? "\"" : ",\"") + jesc(u.first) + "\":" + std::to_string(u.second); f = false; } un += "}";
    string rc = "["; f = true; for (auto& u : vh::reached) { rc += (f ? "\"" : ",\"") + jesc(u) + "\""; f = false; } rc += "]";
    fprintf(g_out, "{\"type\":\"stats\",\"paths\":%lu,\"infeasible\":%lu,\"decisions\":%lu,\"nondet\":%lu,\"checks\":%lu,\"asserts\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"unsupported\":%lu,\"nodes\":%lu,\"solver_s\":%.3f,\"cut\":%d,\"unsup\":%s,\"reached\":%s}\n",
        st.paths, st.infeasible, st.decisions, st.nondet, st.checks, st.asserts, st.sat, st.unsat, st.unknown, st.unsupported, st.nodes, st.solver_s, (int)cut, un.c_str(), rc.c_str());
    fclose(g_out); _exit(0);
}
}  // namespace

int main(int argc, char** argv) {
    string hname; int W = 8; double tl = 300; string tags;
    for (int i = 1; i < argc; i++) {
        string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
        if (a == "--harness") hname = nx(); else if (a == "--workers") W = stoi(nx()); else if (a == "--time") tl = stod(nx());
        else if (a == "--tags") tags = nx(); else if (a == "--out") g_outdir = nx(); else if (a == "--thorough") vh::g_thorough = true;
        else if (a == "--variant") vh::g_variant = nx(); else if (a == "--samples") g_sample_left = stoul(nx()); else if (a == "--query-ms") g_query_ms = stoi(nx());
        else if (a == "--list") { for (auto& h : vh::harnesses()) puts(h.name); return 0; }
    }
    if (!tags.empty()) { vh::all_tags = false; std::stringstream s(tags); string t; while (getline(s, t, ',')) vh::active_tags.insert(t); }
    for (auto& h : vh::harnesses()) if (h.name == hname) g_fn = h.fn;
    if (!g_fn) fatal("no harness " + hname);
    restore_statics();
    g_deadline = now() + tl;
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED); pthread_mutex_init(&sh->m, &ma);
    pthread_condattr_t ca; pthread_condattr_init(&ca); pthread_condattr_setpshared(&ca, PTHREAD_PROCESS_SHARED); pthread_cond_init(&sh->cv, &ca);
    sh->workers = W; sh->nfree = TASK_N; for (size_t i = 0; i < TASK_N; i++) sh->freelist[i] = (int)i;
    vector<pid_t> pids;
    for (int w = 0; w < W; w++) { pid_t p = fork(); if (p == 0) worker(w); pids.push_back(p); }
    int bad = 0;
    for (size_t left = pids.size(); left > 0; left--) {
        int s; pid_t p;
        while ((p = waitpid(-1, &s, WNOHANG)) == 0) {
            usleep(20000);
            if (now() > g_deadline + 60) { fprintf(stderr, "time limit: workers stopped\n"); for (pid_t q : pids) kill(q, SIGKILL); return 75; }
        }
        if (!WIFEXITED(s) || WEXITSTATUS(s) != 0) {
            bad = 1; fprintf(stderr, "worker died status %x\n", s);
            sh->stop = 1; sh->done = true; 
            for (pid_t q : pids) if (q != p) kill(q, SIGKILL);
        }
    }
    return bad ? 70 : 0;
}
