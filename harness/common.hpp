// Shared state builder and specification vocabulary of the harnesses.
#pragma once
#ifndef VX_SYMBOLIC
#include "nat_pre.hpp"
#endif
#include "vh.hpp"
#include <map>
#include <set>
#include "soil_simulator/types.hpp"
#include "soil_simulator/body_pos.hpp"
#include "soil_simulator/body_soil.hpp"
#include "soil_simulator/intersecting_cells.hpp"
#include "soil_simulator/relax.hpp"
#include "soil_simulator/soil_dynamics.hpp"
#include "soil_simulator/utils.hpp"

using namespace vh;
namespace ss = soil_simulator;
using std::string;
using std::to_string;
using std::vector;

inline string S(int v) { return std::to_string(v); }

// Dyadic configuration: every height, tolerance and product below is exactly
// representable, so the integer/rational encoding is the float semantics.
const int LZ = -3;                               // cell height 2^-3
inline Q CZ() { return Q(0.125); }
inline Q hz(const string& n, long lo, long hi) { return in_scaled(n, lo, hi, LZ); }

struct World {
    ss::Grid grid; ss::SimOut s; ss::Bucket body; F32 tol;
    World(int hx, int hy, int hz_ = 32)
        : grid(F32(hx * 0.25), F32(hy * 0.25), F32(hz_ * 0.125), F32(0.25), F32(0.125)), s(grid),
          body({F32(0.0), F32(0.0), F32(0.0)}, {F32(0.0), F32(0.0), F32(0.0)}, {F32(0.0), F32(0.0), F32(-0.5)}, {F32(0.5), F32(0.0), F32(-0.5)}, F32(0.5)),
          tol(F32(1.0 / 131072)) {
        body.ori_ = {F32(1.0), F32(0.0), F32(0.0), F32(0.0)};
        body.pos_ = {F32(0.0), F32(0.0), F32(0.0)};
    }
    // arbitrary pose: quarter turn about z given by a non-normalised quaternion, symbolic position
    void pose(int k = -1) {
        static const double o[4][4] = {{1, 0, 0, 0}, {1, 0, 0, 1}, {0, 0, 1, 0}, {1, -1, 0, 0}};
        if (k < 0) k = choose("pose", 4);
        for (int i = 0; i < 4; i++) body.ori_[i] = F32(o[k][i]);
        for (int i = 0; i < 3; i++) body.pos_[i] = f32(in_scaled("pos" + S(i), -64, 64, -6));
    }
    int nx() const { return (int)s.terrain_.size(); }
    int ny() const { return (int)s.terrain_[0].size(); }
};

inline bool same(const F32& a, const F32& b) {
#ifdef VX_SYMBOLIC
    return a.id == b.id && (a.id > 0 || std::memcmp(&a.c, &b.c, sizeof a.c) == 0);
#else
    return std::memcmp(&a, &b, sizeof a) == 0;
#endif
}
inline Q nz(const F32& f) { return Q(f); }
inline B zero(const F32& f) { return eq(Q(f), Q(0)); }
inline B present(const vector<vector<vector<F32>>>& a, int ind, int x, int y) { return !(zero(a[ind][x][y]) && zero(a[ind + 1][x][y])); }

// rotation conj(q) p q / |q|^2 in exact arithmetic; q rational constants
inline vector<Q> qmul(const vector<Q>& a, const vector<Q>& b) {
    return {a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3], a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
            a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1], a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]};
}
inline vector<Q> qrot(const vector<Q>& q, const vector<Q>& p) {     // q constant
    mpq_class n = 0; for (int i = 0; i < 4; i++) n += qconst(q[i]) * qconst(q[i]);
    vector<Q> c = {q[0], -q[1], -q[2], -q[3]};
    vector<Q> r = qmul(qmul(c, {Q(0), p[0], p[1], p[2]}), q);
    Q inv(mpq_class(1 / n)); return {r[1] * inv, r[2] * inv, r[3] * inv};
}
inline vector<Q> qv(const vector<F32>& v) { vector<Q> r; for (auto& x : v) r.push_back(Q(x)); return r; }
// position of a column base in the body frame
inline vector<Q> frame_pos(World& w, int x, int y, const Q& z) {
    vector<Q> o = qv(w.body.ori_); vector<Q> inv = {o[0], -o[1], -o[2], -o[3]};
    return qrot(inv, {Q(w.grid.vect_x_[x]) - Q(w.body.pos_[0]), Q(w.grid.vect_y_[y]) - Q(w.body.pos_[1]), z - Q(w.body.pos_[2])});
}

inline Q layer_soil(const ss::SimOut& s, int ind, int x, int y) { return Q(s.body_soil_[ind + 1][x][y]) - Q(s.body_soil_[ind][x][y]); }
inline Q rec_sum(const ss::SimOut& s, int ind, int x, int y) { Q r(0); for (auto& p : s.body_soil_pos_) if (p.ind == ind && p.ii == x && p.jj == y) r += Q(p.h_soil); return r; }

inline bool plain0(const F32& a) {
#ifdef VX_SYMBOLIC
    return a.id == 0 && a.c == 0;
#else
    return a == 0;
#endif
}
inline bool bare(const ss::SimOut& s, int x, int y) { for (int k = 0; k < 4; k++) if (!plain0(s.body_[k][x][y]) || !plain0(s.body_soil_[k][x][y])) return false; return true; }
inline bool has_rec(const ss::SimOut& s, int ind, int x, int y) { for (auto& p : s.body_soil_pos_) if (p.ind == ind && p.ii == x && p.jj == y) return true; return false; }
// change of the total soil height between two states
inline Q dmass(const ss::SimOut& a, const ss::SimOut& b) {
    Q r(0);
    for (size_t x = 0; x < a.terrain_.size(); x++) for (size_t y = 0; y < a.terrain_[0].size(); y++) {
        if (!same(a.terrain_[x][y], b.terrain_[x][y])) r += Q(b.terrain_[x][y]) - Q(a.terrain_[x][y]);
        for (int k = 0; k < 4; k++) if (!same(a.body_soil_[k][x][y], b.body_soil_[k][x][y])) { Q d = Q(b.body_soil_[k][x][y]) - Q(a.body_soil_[k][x][y]); if (k & 1) r += d; else r -= d; }
    }
    return r;
}
inline void check_mass(const char* tag, const ss::SimOut& a, const ss::SimOut& b) { if (!wants(tag)) return; check(tag, eq(dmass(a, b), Q(0)), "total soil height changed"); }

inline B cell_same(const ss::SimOut& a, const ss::SimOut& b, int x, int y, bool with_body = true) {
    B r = true;
    if (!same(a.terrain_[x][y], b.terrain_[x][y])) r = r && eq(Q(a.terrain_[x][y]), Q(b.terrain_[x][y]));
    for (int k = 0; k < 4; k++) {
        if (!same(a.body_soil_[k][x][y], b.body_soil_[k][x][y])) r = r && eq(Q(a.body_soil_[k][x][y]), Q(b.body_soil_[k][x][y]));
        if (with_body && !same(a.body_[k][x][y], b.body_[k][x][y])) r = r && eq(Q(a.body_[k][x][y]), Q(b.body_[k][x][y]));
    }
    return r;
}
inline void check_bodies_same(const char* tag, const ss::SimOut& a, const ss::SimOut& b) { if (!wants(tag)) return;
    B r = true;
    for (size_t x = 0; x < a.terrain_.size(); x++) for (size_t y = 0; y < a.terrain_[0].size(); y++) for (int k = 0; k < 4; k++)
        if (!same(a.body_[k][x][y], b.body_[k][x][y])) r = r && eq(Q(a.body_[k][x][y]), Q(b.body_[k][x][y]));
    check(tag, r, "body layers changed");
}
inline void check_only(const char* tag, const ss::SimOut& a, const ss::SimOut& b, const std::set<std::pair<int, int>>& allowed) { if (!wants(tag)) return;
    B r = true;
    for (int x = 0; x < (int)a.terrain_.size(); x++) for (int y = 0; y < (int)a.terrain_[0].size(); y++) if (!allowed.count({x, y})) r = r && cell_same(a, b, x, y);
    check(tag, r, "a cell outside the allowed cells changed");
}
inline B state_same_cells(const ss::SimOut& a, const ss::SimOut& b) {
    B r = true;
    for (int x = 0; x < (int)a.terrain_.size(); x++) for (int y = 0; y < (int)a.terrain_[0].size(); y++) r = r && cell_same(a, b, x, y);
    return r;
}
inline B state_same(const ss::SimOut& a, const ss::SimOut& b) {
    B r = true;
    if (a.terrain_.size() != b.terrain_.size() || a.body_soil_pos_.size() != b.body_soil_pos_.size()) return false;
    for (int x = 0; x < (int)a.terrain_.size(); x++) for (int y = 0; y < (int)a.terrain_[0].size(); y++) r = r && cell_same(a, b, x, y);
    for (size_t i = 0; i < a.body_soil_pos_.size(); i++) {
        auto& p = a.body_soil_pos_[i]; auto& q = b.body_soil_pos_[i];
        if (p.ind != q.ind || p.ii != q.ii || p.jj != q.jj) return false;
        for (auto pr : {std::make_pair(p.x_b, q.x_b), std::make_pair(p.y_b, q.y_b), std::make_pair(p.z_b, q.z_b), std::make_pair(p.h_soil, q.h_soil)})
            if (!same(pr.first, pr.second)) r = r && eq(Q(pr.first), Q(pr.second));
    }
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++)
        if (a.body_area_[i][j] != b.body_area_[i][j] || a.relax_area_[i][j] != b.relax_area_[i][j] || a.impact_area_[i][j] != b.impact_area_[i][j]) return false;
    return r;
}
// soil thickness of every layer equals the sum of its records, records non-negative
inline void check_records(const char* tag, const ss::SimOut& s, const Q& tol = Q(0)) { if (!wants(tag)) return;
    B r = true, n = true; bool in = true;
    for (int x = 0; x < (int)s.terrain_.size(); x++) for (int y = 0; y < (int)s.terrain_[0].size(); y++) for (int ind = 0; ind < 4; ind += 2)
        if (!plain0(s.body_soil_[ind][x][y]) || !plain0(s.body_soil_[ind + 1][x][y]) || has_rec(s, ind, x, y)) r = r && near(layer_soil(s, ind, x, y), rec_sum(s, ind, x, y), tol);
    for (auto& p : s.body_soil_pos_) {
        n = n && Q(p.h_soil) >= -tol;
        if ((p.ind != 0 && p.ind != 2) || p.ii < 0 || p.jj < 0 || p.ii >= (int)s.terrain_.size() || p.jj >= (int)s.terrain_[0].size()) in = false;
    }
    check(tag, in, "soil record refers to no layer of the grid");
    check(tag, r, "soil thickness of a layer differs from the sum of its records");
    check(tag, n, "a soil record has a negative height");
}
// new records (index >= from) carry the body-frame position of the column base
inline void check_new_records(const char* tag, World& w, size_t from) { if (!wants(tag)) return;
    B r = true;
    for (size_t i = from; i < w.s.body_soil_pos_.size(); i++) {
        auto& p = w.s.body_soil_pos_[i];
        auto e = frame_pos(w, p.ii, p.jj, Q(w.s.body_[p.ind + 1][p.ii][p.jj]));
        r = r && eq(Q(p.x_b), e[0]) && eq(Q(p.y_b), e[1]) && eq(Q(p.z_b), e[2]);
    }
    check(tag, r, "a new soil record does not carry the body-frame position of its column base");
}
enum { CONV_TERRAIN = 1, CONV_REST = 2, CONV_UPPER = 4, CONV_BODY = 8, CONV_ALL = 15 };
inline B conv_cell(const ss::SimOut& s, int x, int y, int what = CONV_ALL) {
    if (bare(s, x, y)) return true;
    B r = true;
    B bp[2] = {present(s.body_, 0, x, y), present(s.body_, 2, x, y)}; B sp[2] = {present(s.body_soil_, 0, x, y), present(s.body_soil_, 2, x, y)};
    Q t(s.terrain_[x][y]);
    for (int k = 0; k < 2; k++) {
        int i = 2 * k, o = 2 - i;
        Q b0(s.body_[i][x][y]), b1(s.body_[i + 1][x][y]), s0(s.body_soil_[i][x][y]), s1(s.body_soil_[i + 1][x][y]);
        if (what & CONV_TERRAIN) r = r && implies(bp[k], t <= b0);
        if (what & CONV_REST) r = r && implies(sp[k], bp[k] && eq(s0, b1) && s0 <= s1);
        Q o0(s.body_[o][x][y]);
        if (what & CONV_UPPER) r = r && implies(sp[k] && bp[k] && bp[1 - k] && b0 < o0, s1 <= o0);
        if (what & CONV_BODY) { r = r && implies(bp[k], b0 < b1) && implies(bp[0] && bp[1], (b1 < o0) || (Q(s.body_[o + 1][x][y]) < b0)); }
    }
    return r;
}
inline void check_conv(const char* tag, const ss::SimOut& s, int what = CONV_ALL) { if (!wants(tag)) return;
    static const int parts[4] = {CONV_TERRAIN, CONV_REST, CONV_UPPER, CONV_BODY};
    static const char* names[4] = {"terrain is above the bottom of a body layer", "body soil does not rest on its body layer", "soil of the lower layer enters the upper layer", "body layers are not separate"};
    for (int p = 0; p < 4; p++) if (what & parts[p]) {
        B r = true;
        for (int x = 0; x < (int)s.terrain_.size(); x++) for (int y = 0; y < (int)s.terrain_[0].size(); y++) r = r && conv_cell(s, x, y, parts[p]);
        check(tag, r, names[p]);
    }
}

// ---------------------------------------------------------------- columns
// layout 0 none, 1 layer 0 only, 2 layer 2 only, 3 both (0 below), 4 both (2 below)
struct ColOpt {
    int layouts = 31;        // bit mask of allowed layouts
    long tlo = -16, thi = 16; // terrain range in cells
    long ext = 12;           // largest extent of gaps, bodies and soils in cells
    bool soil = true;        // soil may be present
    int soil_mask = -1;      // when >=0, fixed soil flags (bit0 lower/only layer, bit1 upper layer)
    int split_rec = 0;       // 1: the soil may be split over two records
    bool terrain_below = true; // terrain not inside the body
    long soil_min = 0;       // minimal thickness of a present soil layer (cells)
};
struct Col { int layout = 0; int lo = -1, up = -1; bool soil_lo = false, soil_up = false; };
inline void add_record(World& w, int ind, int x, int y, const Q& h) {
    auto e = frame_pos(w, x, y, Q(w.s.body_[ind + 1][x][y]));
    w.s.body_soil_pos_.push_back(ss::body_soil{ind, x, y, f32(e[0]), f32(e[1]), f32(e[2]), f32(h)});
}
inline Col column(World& w, int x, int y, const string& n, const ColOpt& o = ColOpt()) {
    Col c; vector<int> ls; for (int i = 0; i < 5; i++) if (o.layouts >> i & 1) ls.push_back(i);
    c.layout = ls[choose(n + ".layout", (int)ls.size())];
    Q t = hz(n + ".t", o.tlo, o.thi); w.s.terrain_[x][y] = f32(t);
    if (c.layout == 0) return c;
    auto put = [&](int ind, const Q& b0, const Q& b1) { w.s.body_[ind][x][y] = f32(b0); w.s.body_[ind + 1][x][y] = f32(b1); };
    auto soil = [&](int ind, const Q& base, const Q& h) {
        w.s.body_soil_[ind][x][y] = f32(base); w.s.body_soil_[ind + 1][x][y] = f32(base + h);
        if (o.split_rec && choose(n + ".split", 2)) { Q h1 = hz(n + ".h1_", 0, o.ext); assume(h1 <= h); add_record(w, ind, x, y, h1); add_record(w, ind, x, y, h - h1); }
        else add_record(w, ind, x, y, h);
    };
    c.lo = (c.layout == 1 || c.layout == 3) ? 0 : 2; c.up = c.layout >= 3 ? 2 - c.lo : -1;
    Q b0 = t + hz(n + ".gap", o.terrain_below ? 0 : -o.ext, o.ext), b1 = b0 + hz(n + ".th", 1, o.ext);
    put(c.lo, b0, b1);
    int fl = o.soil_mask >= 0 ? o.soil_mask : (o.soil ? choose(n + ".soil", c.up >= 0 ? 4 : 2) : 0);
    c.soil_lo = fl & 1; c.soil_up = (fl & 2) && c.up >= 0;
    Q sl = Q(0); if (c.soil_lo) { sl = hz(n + ".sl", o.soil_min, o.ext); soil(c.lo, b1, sl); }
    if (c.up >= 0) {
        Q ex = hz(n + ".room", c.soil_lo ? 0 : 1, o.ext);
        if (c.soil_lo) assume(sl + ex >= CZ());
        Q u0 = b1 + sl + ex, u1 = u0 + hz(n + ".th2", 1, o.ext); put(c.up, u0, u1);
        if (c.soil_up) { Q su = hz(n + ".su", o.soil_min, o.ext); soil(c.up, u1, su); }
    }
    return c;
}
// accumulated rounding: every height of the column moves by at most an eighth of the tolerance
inline F32 jittered(const F32& v, const string& n) { return f32(Q(v) + in_scaled(n, -1, 1, -20)); }
inline void jitter(World& w, int x, int y, const Col& c, const string& n) {
    w.s.terrain_[x][y] = jittered(w.s.terrain_[x][y], n + ".et");
    for (int l : {c.lo, c.up}) if (l >= 0) {
        for (int k = 0; k < 2; k++) w.s.body_[l + k][x][y] = jittered(w.s.body_[l + k][x][y], n + ".eb" + S(l + k));
        if (l == c.lo ? c.soil_lo : c.soil_up) { w.s.body_soil_[l][x][y] = w.s.body_[l + 1][x][y]; w.s.body_soil_[l + 1][x][y] = jittered(w.s.body_soil_[l + 1][x][y], n + ".es" + S(l)); }
    }
}
inline void observe_cell(World& w, int x, int y) {
    string n = S(x) + "." + S(y); observe("t" + n, w.s.terrain_[x][y]);
    for (int k = 0; k < 4; k++) { observe("b" + S(k) + "_" + n, w.s.body_[k][x][y]); observe("s" + S(k) + "_" + n, w.s.body_soil_[k][x][y]); }
}
inline void observe_records(World& w) {
    observe_int("nrec", (long)w.s.body_soil_pos_.size()); int i = 0;
    for (auto& p : w.s.body_soil_pos_) { string n = "r" + S(i++); observe_int(n + "ind", p.ind); observe_int(n + "i", p.ii); observe_int(n + "j", p.jj); observe(n + "x", p.x_b); observe(n + "y", p.y_b); observe(n + "z", p.z_b); observe(n + "h", p.h_soil); }
}
const int DX4[4] = {1, -1, 0, 0}, DY4[4] = {0, 0, 1, -1};

// Prelude of every path (vh.hpp): two small simulations with other cell sizes, limits,
// tolerance, body and seeds than the harnesses use.
template <class T> inline void prelude_run(T body, F32 tol) {
    ss::Grid grid(F32(2.0), F32(1.5), F32(2.0), F32(0.5), F32(0.25)); ss::SimOut s(grid); ss::SoilDynamics sim; ss::SimParam par(F32(0.6), 2, 3);
    body.ori_ = {F32(1.0), F32(0.0), F32(0.0), F32(0.0)};
    sim.Init(&s, grid, F32(0.5));
    s.terrain_[2][3] = F32(1.5); s.terrain_[3][3] = F32(-0.75);
    vector<F32> ori = ss::AngleToQuat({F32(0.0), F32(0.0), F32(0.0)});
    sim.Step(&s, {F32(0.03), F32(0.04), F32(0.4)}, ori, grid, &body, par, tol);
    for (int x = 0, n = 0; x < 9; x++) for (int y = 0; y < 7; y++) if (n < 2 && (s.body_[0][x][y] != F32(0.0) || s.body_[1][x][y] != F32(0.0))) {
        n++; s.body_soil_[0][x][y] = s.body_[1][x][y]; s.body_soil_[1][x][y] = s.body_[1][x][y] + F32(0.75); s.body_soil_pos_.push_back({0, x, y, F32(0.1), F32(0.1), F32(0.1), F32(0.75)});
    }
    sim.Step(&s, {F32(-0.4), F32(0.04), F32(0.15)}, ori, grid, &body, par, tol);
    sim.Check(&s, 3, grid, tol);
}
inline void prelude_all() {
    prelude_run(ss::Bucket({F32(0.0), F32(0.0), F32(0.0)}, {F32(0.0), F32(0.0), F32(0.0)}, {F32(0.0), F32(0.0), F32(-0.5)}, {F32(0.5), F32(0.0), F32(-0.5)}, F32(0.75)), F32(1.0 / 1024));
    prelude_run(ss::Blade({F32(0.0), F32(0.0), F32(0.0)}, {F32(0.0), F32(0.0), F32(0.0)}, {F32(0.0), F32(0.0), F32(-0.5)}, {F32(0.5), F32(0.0), F32(-0.5)}, F32(0.75)), F32(1.0 / 1024));
}
static vh::Prelude prelude_reg(prelude_all);
