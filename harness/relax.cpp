// Relaxation of the terrain and of the soil resting on the body.
#include "common.hpp"
std::mt19937 soil_simulator::rng;

// Surface on which soil coming from the side lands.
struct Surf { int layer = -1; Q h; bool has_cap = false; Q cap; B soil = true; };   // layer -1 terrain, else body layer index

// status code -> (layer, on soil); false if the code does not describe the column layout
static bool decode(const ss::SimOut& s, int st, int x, int y, const Col& c, Surf& f) {
    if (st == 40) { f.layer = -1; f.h = Q(s.terrain_[x][y]); return c.layout == 0; }
    int a = st / 10, b = st % 10;
    if (c.layout == 0) return false;
    if (a != (c.layout >= 3 ? 3 : c.lo == 0 ? 1 : 2)) return false;
    if (b == 0) { f.layer = -1; f.h = Q(s.terrain_[x][y]); f.has_cap = true; f.cap = Q(s.body_[c.lo][x][y]); return true; }
    if (b > 4) return false;
    f.layer = b <= 2 ? 2 : 0; bool soil = b == 1 || b == 3;
    if (c.layout < 3 && f.layer != c.lo) return false;
    f.soil = iff(present(s.body_soil_, f.layer, x, y), B(soil));   // zero-thickness soil at height zero reads as absent
    f.h = Q(soil ? s.body_soil_[f.layer + 1][x][y] : s.body_[f.layer + 1][x][y]);
    if (c.layout >= 3 && f.layer == c.lo) { f.has_cap = true; f.cap = Q(s.body_[c.up][x][y]); }
    return true;
}
static Q layer_top(const ss::SimOut& s, const Col& c, bool up, int x, int y) { int l = up ? c.up : c.lo; return Q((up ? c.soil_up : c.soil_lo) ? s.body_soil_[l + 1][x][y] : s.body_[l + 1][x][y]); }

// Surface selected for soil sliding from a terrain column: 0 terrain, 1 lower layer, 2 upper layer
static B land_terrain(const ss::SimOut& s, const Col& c, int x, int y, int which) {
    if (c.layout == 0) return which == 0;
    B room = Q(s.terrain_[x][y]) < Q(s.body_[c.lo][x][y]);
    if (which == 0) return room;
    if (c.layout < 3) return !room && B(which == 1);
    B full = c.soil_lo ? B(Q(s.body_soil_[c.lo + 1][x][y]) >= Q(s.body_[c.up][x][y])) : B(false);
    return !room && (which == 2 ? full : !full);
}
// Surface selected for soil sliding from a body layer whose top is z
static B land_body(const ss::SimOut& s, const Col& c, int x, int y, const Q& z, int which) {
    if (c.layout == 0) return which == 0;
    if (c.layout < 3) { B under = z < Q(s.body_[c.lo][x][y]); return which == 0 ? under : which == 1 ? !under : B(false); }
    if (which == 0) return false;
    B under = z < Q(s.body_[c.up][x][y]);
    B full = c.soil_lo ? B(Q(s.body_soil_[c.lo + 1][x][y]) >= Q(s.body_[c.up][x][y])) : B(false);
    return which == 1 ? B(under && !full) : B(!under || full);
}
static void check_status(const ss::SimOut& s, const Col& c, int x, int y, int st, const Q& hmin, const std::function<B(int)>& land) {
    if (st == 0) {
        B ok = true;
        for (int w = 0; w < (c.layout == 0 ? 1 : c.layout < 3 ? 2 : 3); w++) { Q h = w == 0 ? Q(s.terrain_[x][y]) : layer_top(s, c, w == 2, x, y); ok = ok && implies(land(w), h >= hmin); }
        check("status", ok, "unstable soil reported as stable"); return;
    }
    Surf f; bool d = decode(s, st, x, y, c, f);
    check("status", d, "reported surface does not exist (status " + S(st) + ")"); if (!d) return;
    check("status", f.soil, "presence of soil on the receiving layer misreported (status " + S(st) + ")");
    int w = f.layer < 0 ? 0 : f.layer == c.lo ? 1 : 2;
    check("status", land(w), "wrong receiving surface (status " + S(st) + ")");
    check("status", f.h < hmin, "stable soil reported as unstable (status " + S(st) + ")");
}
static void check_flow(const Surf& f, const Q& S0, const Q& S1, const Q& R1, const Q& dh) {
    Q m = S0 - S1;
    check("flow", m >= Q(0), "soil moved towards the higher column");
    check("flow", eq(R1 - f.h, m), "soil left the column without arriving on the receiving surface");
    B slope = S1 - R1 <= dh;
    if (f.has_cap) { check("flow", R1 <= f.cap, "more soil moved than the space available"); check("flow", eq(R1, f.cap) || slope, "avalanche stopped before the repose slope or the available space"); }
    else check("flow", slope, "avalanche stopped before the repose slope");
    check("flow", R1 + R1 <= S0 + f.h - dh + CZ() + CZ(), "avalanche overshoots the repose slope");
}
static B on_lattice(const Q& h) { Q k = h * Q(8); return eq(qfloor(k), k); }

HARNESS(terrain_check) {
    World w(1, 2); int d = choose("dir", 2); int x = 1 + (d ? 0 : 1), y = 2 + (d ? -1 : 0);
    ColOpt o; o.tlo = -64; o.thi = 64; o.ext = 48; Col c = column(w, x, y, "n", o);
    Q hmin = hz("hmin", -80, 300);
    ss::SimOut pre = w.s;
    int st = ss::CheckUnstableTerrainCell(&w.s, x, y, f32(hmin), w.tol);
    observe_int("status", st);
    check_status(pre, c, x, y, st, hmin, [&](int k) { return land_terrain(pre, c, x, y, k); });
    check("status", state_same(pre, w.s), "stability check modifies the state");
}

HARNESS(body_check) {
    World w(1, 2); int d = choose("dir", 2); int x0 = 1, y0 = 2, x = 1 + (d ? 0 : 1), y = 2 + (d ? -1 : 0);
    ColOpt so; so.layouts = 2 + 4 + 8 + 16; so.tlo = 0; so.thi = 0; so.ext = 48; so.soil_mask = 1; int lay = choose("src", 2);
    so.layouts = 2 << lay; Col s0 = column(w, x0, y0, "s", so);
    ColOpt o; o.tlo = -64; o.thi = 64; o.ext = 48; Col c = column(w, x, y, "n", o);
    Q hmin = hz("hmin", -80, 300);
    ss::SimOut pre = w.s;
    int st = ss::CheckUnstableBodyCell(&w.s, x0, y0, s0.lo, x, y, f32(hmin), w.tol);
    observe_int("status", st);
    Q z(pre.body_[s0.lo + 1][x0][y0]);
    check_status(pre, c, x, y, st, hmin, [&](int k) { return land_body(pre, c, x, y, z, k); });
    check("status", state_same(pre, w.s), "stability check modifies the state");
}

// heights a little off the multiples of the cell height, as rounding leaves them: the decisions are those of the multiples
HARNESS(terrain_near) {
    World w(1, 2); int x = 2, y = 2;
    ColOpt o; o.tlo = -8; o.thi = 8; o.ext = 6; o.soil_min = 1; Col c = column(w, x, y, "n", o); Q hmin = hz("hmin", -10, 40);
    ss::SimOut pre = w.s; jitter(w, x, y, c, "n"); ss::SimOut mid = w.s;
    int st = ss::CheckUnstableTerrainCell(&w.s, x, y, jittered(f32(hmin), "ehmin"), w.tol); observe_int("status", st);
    check_status(pre, c, x, y, st, hmin, [&](int k) { return land_terrain(pre, c, x, y, k); });
    check("status", state_same(mid, w.s), "stability check modifies the state");
}
HARNESS(body_near) {
    World w(1, 2); int x0 = 1, y0 = 2, x = 2, y = 2; ColOpt so; so.tlo = 0; so.thi = 0; so.ext = 6; so.soil_mask = 1; so.soil_min = 1; so.layouts = 2 << choose("src", 2); Col s0 = column(w, x0, y0, "s", so);
    ColOpt o; o.tlo = -8; o.thi = 8; o.ext = 6; o.soil_min = 1; Col c = column(w, x, y, "n", o); Q hmin = hz("hmin", -10, 40);
    ss::SimOut pre = w.s; jitter(w, x, y, c, "n"); jitter(w, x0, y0, s0, "s"); ss::SimOut mid = w.s;
    int st = ss::CheckUnstableBodyCell(&w.s, x0, y0, s0.lo, x, y, jittered(f32(hmin), "ehmin"), w.tol); observe_int("status", st);
    Q z(pre.body_[s0.lo + 1][x0][y0]);
    check_status(pre, c, x, y, st, hmin, [&](int k) { return land_body(pre, c, x, y, z, k); });
    check("status", state_same(mid, w.s), "stability check modifies the state");
}
HARNESS(locate_near) {
    World w(2, 2); Q t[4], t0 = hz("t0", -20, 20), dh = hz("dh", 0, 10); B un = false;
    for (int k = 0; k < 4; k++) { t[k] = hz("t", -20, 20); w.s.terrain_[2 + DX4[k]][2 + DY4[k]] = jittered(f32(t[k]), "e"); un = un || t[k] < t0 - dh; }
    w.s.terrain_[2][2] = jittered(f32(t0), "e0"); w.s.impact_area_[0][0] = w.s.impact_area_[1][0] = 2; w.s.impact_area_[0][1] = w.s.impact_area_[1][1] = 3;
    auto r = ss::LocateUnstableTerrainCell(&w.s, f32(dh), w.tol); observe_int("n", r.size());
    check("locate", iff(un, B(r.size() == 1)), "potentially unstable cell not listed or stable cell listed");
}
HARNESS(locate_unstable) {
    World w(2, 2);   // 5x5
    for (int x = 1; x <= 3; x++) for (int y = 1; y <= 3; y++) if (x == 2 || y == 2) w.s.terrain_[x][y] = f32(hz("t" + S(x) + S(y), -40, 40));
    Q dh = hz("dh", 0, 20);
    w.s.impact_area_[0][0] = 2; w.s.impact_area_[0][1] = 3; w.s.impact_area_[1][0] = 2; w.s.impact_area_[1][1] = 3;
    auto r = ss::LocateUnstableTerrainCell(&w.s, f32(dh), w.tol);
    Q t(w.s.terrain_[2][2]); B un = false;
    for (int k = 0; k < 4; k++) un = un || Q(w.s.terrain_[2 + DX4[k]][2 + DY4[k]]) < t - dh;
    observe_int("n", r.size());
    check("locate", iff(un, B(r.size() == 1)), "potentially unstable cell not listed or stable cell listed");
    check("locate", r.empty() || (r.size() == 1 && r[0].size() == 2 && r[0][0] == 2 && r[0][1] == 2), "wrong cell listed");
}

// all cells of an active area of 2x2 cells in an asymmetric position
HARNESS(locate_area) {
    int far = choose("far", 3), ox = far == 1 ? 270 : 0, oy = far == 2 ? 270 : 0; World w(far == 1 ? 140 : 2, far == 2 ? 140 : 3);   // 5x7, or a long grid
    int xs[2] = {1 + ox, 3 + ox}, ys[2] = {2 + oy, 4 + oy};
    for (int x = 0; x <= 3; x++) for (int y = 1; y <= 4; y++) { bool ex = x < 1 || x > 2, ey = y < 2 || y > 3; if (ex && ey) continue; w.s.terrain_[x + ox][y + oy] = f32(hz("t" + S(x) + S(y), -3, 3)); }
    F32 dh = F32(0.25);
    w.s.impact_area_[0][0] = xs[0]; w.s.impact_area_[0][1] = xs[1]; w.s.impact_area_[1][0] = ys[0]; w.s.impact_area_[1][1] = ys[1];
    auto r = ss::LocateUnstableTerrainCell(&w.s, dh, w.tol);
    std::map<std::pair<int, int>, bool> listed; bool dup = false, out = false;
    for (auto& c : r) { if (c[0] < xs[0] || c[0] >= xs[1] || c[1] < ys[0] || c[1] >= ys[1]) { out = true; continue; } if (listed[{c[0], c[1]}]) dup = true; listed[{c[0], c[1]}] = true; }
    check("locate", B(!out && !dup), "cell outside the active area or listed twice");
    for (int x = xs[0]; x < xs[1]; x++) for (int y = ys[0]; y < ys[1]; y++) {
        B un = false; for (int k = 0; k < 4; k++) un = un || Q(w.s.terrain_[x + DX4[k]][y + DY4[k]]) < Q(w.s.terrain_[x][y]) - Q(0.25);
        check("locate", iff(un, B(listed[{x, y}])), "potentially unstable cell not listed or stable cell listed");
    }
}

// one avalanche from a terrain column to a neighbour
HARNESS(terrain_pair) {
    World w(1, 2); w.pose();
    int d = choose("dir", 4), x0 = 1, y0 = 2, x = x0 + DX4[d], y = y0 + DY4[d];
    ColOpt so; so.tlo = -200; so.thi = 200; so.ext = 100; so.soil = true; so.layouts = 1 + 2; so.soil_mask = 1; Col sc = column(w, x0, y0, "s", so); (void)sc;
    ColOpt o; o.tlo = -200; o.thi = 200; o.ext = 100; Col c = column(w, x, y, "n", o);
    Q dh = hz("dh", 0, 64);
    Q S0(w.s.terrain_[x0][y0]);
    int st = ss::CheckUnstableTerrainCell(&w.s, x, y, f32(S0 - dh), w.tol);
    if (st == 0) return;
    ss::SimOut pre = w.s; Surf f; bool ok = decode(pre, st, x, y, c, f); size_t nrec = pre.body_soil_pos_.size();
    ss::RelaxUnstableTerrainCell(&w.s, st, f32(dh), x0, y0, x, y, w.grid, &w.body, w.tol);
    reach("relaxed " + S(st)); observe_int("status", st);
    observe_cell(w, x0, y0); observe_cell(w, x, y); observe_records(w);
    check_mass("mass", pre, w.s);
    check_only("only", pre, w.s, {{x0, y0}, {x, y}});
    check_bodies_same("conv", pre, w.s);
    check_records("rec", w.s); check_new_records("recpos", w, nrec);
    check_conv("conv", w.s);
    if (!ok) { check("flow", false, "receiving surface does not exist"); return; }
    Q R1 = f.layer < 0 ? Q(w.s.terrain_[x][y]) : Q(w.s.body_soil_[f.layer + 1][x][y]);
    check_flow(f, S0, Q(w.s.terrain_[x0][y0]), R1, dh);
    check("flow", on_lattice(Q(w.s.terrain_[x0][y0])) && on_lattice(Q(w.s.terrain_[x][y])), "terrain is not a multiple of the cell height");
}

// one avalanche from soil resting on a body layer to a neighbour
HARNESS(body_pair) {
    World w(1, 2); w.pose();
    int d = choose("dir", 4), x0 = 1, y0 = 2, x = x0 + DX4[d], y = y0 + DY4[d];
    ColOpt so; so.tlo = -200; so.thi = 200; so.ext = 100; int k = choose("src", 4);
    // 0/1: single layer; 2: lower of two; 3: upper of two
    so.layouts = k < 2 ? 2 << k : k == 2 ? 8 : 16; so.soil_mask = k < 2 ? 1 : k == 2 ? 1 : 3; so.split_rec = k < 2;
    Col sc = column(w, x0, y0, "s", so); int ind = k == 3 ? sc.up : sc.lo;
    ColOpt o; o.tlo = -200; o.thi = 200; o.ext = 100; Col c = column(w, x, y, "n", o);
    Q dh = hz("dh", 0, 64);
    int nn = -1; for (size_t i = 0; i < w.s.body_soil_pos_.size(); i++) { auto& p = w.s.body_soil_pos_[i]; if (p.ind == ind && p.ii == x0 && p.jj == y0) { nn = (int)i; break; } }
    assume(Q(w.s.body_soil_pos_[nn].h_soil) > Q(0));
    Q S0(w.s.body_soil_[ind + 1][x0][y0]), rec(w.s.body_soil_pos_[nn].h_soil);
    int st = ss::CheckUnstableBodyCell(&w.s, x0, y0, ind, x, y, f32(S0 - dh), w.tol);
    if (st == 0) return;
    ss::SimOut pre = w.s; Surf f; bool ok = decode(pre, st, x, y, c, f); size_t nrec = pre.body_soil_pos_.size();
    vector<ss::body_soil> nw;
    ss::RelaxUnstableBodyCell(&w.s, st, &nw, f32(dh), nn, x0, y0, ind, x, y, w.grid, &w.body, w.tol);
    for (auto& p : nw) w.s.body_soil_pos_.push_back(p);
    reach("relaxed " + S(st)); observe_int("status", st);
    observe_cell(w, x0, y0); observe_cell(w, x, y); observe_records(w);
    check_mass("mass", pre, w.s);
    check_only("only", pre, w.s, {{x0, y0}, {x, y}});
    check_bodies_same("conv", pre, w.s);
    check_records("rec", w.s); check_new_records("recpos", w, nrec);
    check_conv("conv", w.s);
    if (!ok) { check("flow", false, "receiving surface does not exist"); return; }
    Q m = rec - Q(w.s.body_soil_pos_[nn].h_soil), R1 = f.h + m;
    check("flow", m >= Q(0) && m <= rec, "soil moved towards the higher column");
    if (f.has_cap) check("flow", implies(m > Q(0), R1 <= f.cap), "more soil moved than the space available");
    B done = S0 - m - R1 <= dh || eq(m, rec); if (f.has_cap) done = done || R1 >= f.cap;
    check("flow", done, "avalanche stopped before the repose slope, the available soil or the available space");
    check("flow", implies(m > Q(0), R1 + R1 <= S0 + f.h - dh + CZ() + CZ()), "avalanche overshoots the repose slope");
}

// the same avalanches from heights a little off the multiples: the outcome is that of the multiples, up to the tolerance
static B close(const ss::SimOut& a, const ss::SimOut& b, const std::set<std::pair<int, int>>& at) {
    const Q e(1.0 / 131072); B r = true; auto c = [&](const F32& u, const F32& v) { r = r && Q(u) - Q(v) <= e && Q(v) - Q(u) <= e; };
    for (auto& q : at) { c(a.terrain_[q.first][q.second], b.terrain_[q.first][q.second]); for (int k = 0; k < 4; k++) c(a.body_soil_[k][q.first][q.second], b.body_soil_[k][q.first][q.second]); }
    return r;
}
HARNESS(terrain_pair_near) {
    World w(1, 2); int d = tier_thorough() ? choose("dir", 4) : 2 * choose("dir", 2), x0 = 1, y0 = 2, x = x0 + DX4[d], y = y0 + DY4[d];
    ColOpt so; so.tlo = -12; so.thi = 12; so.ext = 8; so.layouts = 1 + 2; so.soil_mask = 0; Col sc = column(w, x0, y0, "s", so);
    ColOpt o; o.tlo = -12; o.thi = 12; o.ext = 8; o.soil_min = 1; Col c = column(w, x, y, "n", o); Q dh = hz("dh", 0, 12), S0(w.s.terrain_[x0][y0]);
    World v = w; jitter(v, x0, y0, sc, "s"); jitter(v, x, y, c, "n");
    int a = ss::CheckUnstableTerrainCell(&w.s, x, y, f32(S0 - dh), w.tol), b = ss::CheckUnstableTerrainCell(&v.s, x, y, f32(Q(v.s.terrain_[x0][y0]) - dh), v.tol); observe_int("a", a); observe_int("b", b);
    check("flow", B(a == b), "rounding changes the receiving surface"); if (a == 0 || a != b) return;
    ss::RelaxUnstableTerrainCell(&w.s, a, f32(dh), x0, y0, x, y, w.grid, &w.body, w.tol); ss::RelaxUnstableTerrainCell(&v.s, b, f32(dh), x0, y0, x, y, v.grid, &v.body, v.tol); observe_cell(v, x0, y0); observe_cell(v, x, y);
    check("flow", close(w.s, v.s, {{x0, y0}, {x, y}}), "rounding changes the amount of soil that avalanches");
}
HARNESS(body_pair_near) {
    World w(1, 2); int k = choose("src", 4), d = tier_thorough() ? choose("dir", 4) : k, x0 = 1, y0 = 2, x = x0 + DX4[d], y = y0 + DY4[d];
    ColOpt so; so.tlo = -12; so.thi = 12; so.ext = 8; so.layouts = k < 2 ? 2 << k : k == 2 ? 8 : 16; so.soil_mask = k < 3 ? 1 : 3; so.soil_min = 1; Col sc = column(w, x0, y0, "s", so); int ind = k == 3 ? sc.up : sc.lo;
    ColOpt o; o.tlo = -12; o.thi = 12; o.ext = 8; o.soil_min = 1; Col c = column(w, x, y, "n", o); Q dh = hz("dh", 0, 12), S0(w.s.body_soil_[ind + 1][x0][y0]);
    int nn = -1; for (size_t i = 0; i < w.s.body_soil_pos_.size(); i++) { auto& p = w.s.body_soil_pos_[i]; if (p.ind == ind && p.ii == x0 && p.jj == y0) { nn = (int)i; break; } }
    World v = w; jitter(v, x0, y0, sc, "s"); jitter(v, x, y, c, "n");
    int a = ss::CheckUnstableBodyCell(&w.s, x0, y0, ind, x, y, f32(S0 - dh), w.tol), b = ss::CheckUnstableBodyCell(&v.s, x0, y0, ind, x, y, f32(Q(v.s.body_soil_[ind + 1][x0][y0]) - dh), v.tol); observe_int("a", a); observe_int("b", b);
    check("flow", B(a == b), "rounding changes the receiving surface"); if (a == 0 || a != b) return;
    vector<ss::body_soil> nw; ss::RelaxUnstableBodyCell(&w.s, a, &nw, f32(dh), nn, x0, y0, ind, x, y, w.grid, &w.body, w.tol); ss::RelaxUnstableBodyCell(&v.s, b, &nw, f32(dh), nn, x0, y0, ind, x, y, v.grid, &v.body, v.tol); observe_cell(v, x0, y0); observe_cell(v, x, y);
    check("flow", close(w.s, v.s, {{x0, y0}, {x, y}}), "rounding changes the amount of soil that avalanches");
}
// ------------------------------------------------------------------ whole relaxation
static const double ANGLES[5] = {0.85, 0.3, 0.0, 1.2, 1.5707962};   // 2.28, 0.62, 0, 5.14 and millions of cells
static Q dh_of(int a) {   // documented limit: slope over one cell, rounded to whole cells (independent computation)
    double h = 0.25 * std::tan((double)(float)ANGLES[a]); return Q(mpq_class(std::floor(h / 0.125 + 0.5))) * CZ();
}
struct Area { int x0, x1, y0, y1; };
static void set_area(int a[2][2], const Area& r) { a[0][0] = r.x0; a[0][1] = r.x1; a[1][0] = r.y0; a[1][1] = r.y1; }
static B low_neighbour(const ss::SimOut& s, int x, int y, const Q& dh) { B un = false; for (int k = 0; k < 4; k++) un = un || Q(s.terrain_[x + DX4[k]][y + DY4[k]]) < Q(s.terrain_[x][y]) - dh; return un; }
// no terrain of the active area can avalanche
static B terrain_stable(const ss::SimOut& s, const Area& r, const Q& dh, const std::function<Col(int, int)>& col) {
    B ok = true;
    for (int x = r.x0; x < r.x1; x++) for (int y = r.y0; y < r.y1; y++) for (int k = 0; k < 4; k++) {
        int nx = x + DX4[k], ny = y + DY4[k]; Col c = col(nx, ny); Q hm = Q(s.terrain_[x][y]) - dh;
        for (int w = 0; w < (c.layout == 0 ? 1 : c.layout < 3 ? 2 : 3); w++) { Q h = w == 0 ? Q(s.terrain_[nx][ny]) : layer_top(s, c, w == 2, nx, ny); ok = ok && implies(land_terrain(s, c, nx, ny, w), h >= hm); }
    }
    return ok;
}
static void check_relax_area(World& w, const ss::SimOut& pre, const Area& r, const Q& dh, int buf) {
    int bx0 = 1000, bx1 = -1, by0 = 1000, by1 = -1;
    for (int x = r.x0; x < r.x1; x++) for (int y = r.y0; y < r.y1; y++) if (split(low_neighbour(pre, x, y, dh))) { bx0 = std::min(bx0, x); bx1 = std::max(bx1, x); by0 = std::min(by0, y); by1 = std::max(by1, y); }
    int e[2][2]; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) e[i][j] = pre.relax_area_[i][j];
    if (bx1 >= 0) { e[0][0] = std::max(bx0 - buf, 2); e[0][1] = std::min(bx1 + buf, 2 * w.grid.half_length_x_); e[1][0] = std::max(by0 - buf, 2); e[1][1] = std::min(by1 + buf, 2 * w.grid.half_length_y_); }
    bool ok = true; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) ok = ok && e[i][j] == w.s.relax_area_[i][j];
    check("area", ok, "relaxation area is not the buffered bounding box of the unstable cells");
}
static void terrain_specs(World& w, const ss::SimOut& pre, const Area& r, int ang, int buf, const std::function<Col(int, int)>& col, bool exact_eq) {
    Q dh = dh_of(ang); size_t nrec = pre.body_soil_pos_.size();
    check_mass("mass", pre, w.s); check_records("rec", w.s); check_new_records("recpos", w, nrec); check_conv("conv", w.s); check_bodies_same("conv", pre, w.s);
    std::set<std::pair<int, int>> al; for (int x = r.x0; x < r.x1; x++) for (int y = r.y0; y < r.y1; y++) { al.insert({x, y}); for (int k = 0; k < 4; k++) al.insert({x + DX4[k], y + DY4[k]}); }
    check_only("only", pre, w.s, al);
    B moved = !state_same_cells(pre, w.s); bool eqm = w.s.equilibrium_; bool newrec = w.s.body_soil_pos_.size() != nrec;
    check("eq", B(!eqm) || (!moved && B(!newrec)), "equilibrium reported although soil was moved");
    B flat = true; for (int x = r.x0; x < r.x1; x++) for (int y = r.y0; y < r.y1; y++) flat = flat && !low_neighbour(pre, x, y, dh);
    check("eq", implies(flat, B(eqm) && !moved), "stable terrain was changed or reported as unstable");
    if (exact_eq) check("eq", implies(B(eqm), terrain_stable(pre, r, dh, col)), "equilibrium reported although soil of the active area can avalanche");
    B lat = true; for (int x = 0; x < w.nx(); x++) for (int y = 0; y < w.ny(); y++) lat = lat && on_lattice(Q(w.s.terrain_[x][y]));
    check("flow", lat, "terrain is not a multiple of the cell height");
    check_relax_area(w, pre, r, dh, buf);
    check("area", B(std::memcmp(pre.body_area_, w.s.body_area_, sizeof pre.body_area_) == 0) && B(std::memcmp(pre.impact_area_, w.s.impact_area_, sizeof pre.impact_area_) == 0), "terrain relaxation changes the active or the body area");
}
static void observe_world(World& w, int x0, int x1, int y0, int y1) {
    for (int x = x0; x <= x1; x++) for (int y = y0; y <= y1; y++) observe_cell(w, x, y);
    observe_records(w); observe_int("eq", w.s.equilibrium_);
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) observe_int("ra" + S(i) + S(j), w.s.relax_area_[i][j]);
}

// one active cell, one neighbour of arbitrary layout, the others bare
HARNESS(terrain_one) {
    World w(2, 3); int ang = choose("ang", param("ang", 3, 5)), buf = 2;
    int d = choose("dir", 4), x0 = 2, y0 = 3, x = x0 + DX4[d], y = y0 + DY4[d];
    ColOpt so; so.layouts = tier_thorough() ? 3 : d & 1 ? 2 : 1; so.soil_mask = 0; Col sc = column(w, x0, y0, "s", so);
    ColOpt o; Col c = column(w, x, y, "n", o);
    int free = param("free", 1, 2), e = tier_thorough() ? 1 : 1 + choose("other", 3);
    for (int k = 1; k < 4; k++) { int q = (d + k) % 4; bool fr = tier_thorough() ? k <= free : k == e; w.s.terrain_[x0 + DX4[q]][y0 + DY4[q]] = f32(fr ? hz("t" + S(q), -16, 16) : Q(2)); }
    Area r{x0, x0 + 1, y0, y0 + 1}; set_area(w.s.impact_area_, r); set_area(w.s.relax_area_, Area{1, 4, 1, 6});
    w.s.equilibrium_ = c.layout & 1;
    ss::SimOut pre = w.s; ss::SimParam p(F32(ANGLES[ang]), 3, buf);
    rng_policy(4, param("draws", 1, 2));
    ss::RelaxTerrain(&w.s, w.grid, &w.body, p, w.tol);
    observe_world(w, 1, 3, 2, 4);
    terrain_specs(w, pre, r, ang, buf, [&](int a, int b) { return a == x && b == y ? c : a == x0 && b == y0 ? sc : Col(); }, true);
    B down = Q(w.s.terrain_[x0][y0]) <= Q(pre.terrain_[x0][y0]); for (int k = 0; k < 4; k++) { int a = x0 + DX4[k], b = y0 + DY4[k]; down = down && Q(w.s.terrain_[a][b]) >= Q(pre.terrain_[a][b]); }
    check("flow", down, "soil moved towards the higher column");
}

// one active cell above four bare neighbours of any height: the column is lowered several times
HARNESS(terrain_peak) {
    World w(2, 3); int ang = choose("ang", param("ang", 2, 5)), buf = 2, x0 = 2, y0 = 3; long R = param("range", 20, 40);
    Q c0 = hz("c", -4, R); w.s.terrain_[x0][y0] = f32(c0); Q n[4]; for (int k = 0; k < 4; k++) { n[k] = hz("n" + S(k), -8, 8); w.s.terrain_[x0 + DX4[k]][y0 + DY4[k]] = f32(n[k]); }
    Area r{x0, x0 + 1, y0, y0 + 1}; set_area(w.s.impact_area_, r); set_area(w.s.relax_area_, Area{1, 4, 1, 6});
    ss::SimOut pre = w.s; ss::SimParam p(F32(ANGLES[ang]), 3, buf); Q dh = dh_of(ang);
    rng_policy(4, 3);
    ss::RelaxTerrain(&w.s, w.grid, &w.body, p, w.tol);
    observe_world(w, 1, 3, 2, 4);
    terrain_specs(w, pre, r, ang, buf, [&](int, int) { return Col(); }, true);
    if (!wants("flow")) return;
    Q c1(w.s.terrain_[x0][y0]), m[4], e[4]; B any = false, last = false, up = true, rest = true, over = true, order = true;
    for (int k = 0; k < 4; k++) { e[k] = Q(w.s.terrain_[x0 + DX4[k]][y0 + DY4[k]]); m[k] = e[k] - n[k]; }
    for (int k = 0; k < 4; k++) {
        B mv = !eq(m[k], Q(0)); any = any || mv; up = up && m[k] >= Q(0); rest = rest && c1 - e[k] <= dh;
        last = last || (mv && n[k] < c1 + m[k] - dh && e[k] + e[k] <= c1 + m[k] + n[k] - dh + CZ() + CZ());    // the last avalanche was needed and stopped at the repose slope
        over = over && implies(mv, e[k] + e[k] <= c0 + n[k] - dh + CZ() + CZ());
        for (int j = 0; j < k; j++) order = order && implies(mv && !eq(m[j], Q(0)), n[j] < c0 - m[k] - dh || n[k] < c0 - m[j] - dh);
    }
    check("flow", up && c1 <= c0, "soil moved towards the higher column"); check("flow", rest, "avalanche stopped before the repose slope");
    check("flow", over, "avalanche overshoots the repose slope"); check("flow", order && implies(any, last), "soil left a column that was already stable");
}

// two active cells next to each other: avalanches of one change the other, any visiting order
HARNESS(terrain_two) {
    World w(2, 3); int ang = choose("ang", 2) * 2, buf = 3; int hor = choose("hor", 2);
    Area r = hor ? Area{2, 4, 4, 5} : Area{2, 3, 4, 6}; int xb = hor ? 3 : 2, yb = hor ? 4 : 5;
    for (int x = 1; x < 5; x++) for (int y = 2; y < 7; y++) w.s.terrain_[x][y] = F32(1.0);
    w.s.terrain_[2][4] = f32(hz("ta", -16, 16)); w.s.terrain_[xb][yb] = f32(hz("tb", -16, 16));
    int other = choose("other", 2);
    if (other) { w.s.terrain_[xb][yb - 1] = f32(hz("tc", -16, 16)); if (tier_thorough()) w.s.terrain_[1][4] = f32(hz("td", -16, 16)); }
    else { ColOpt o; o.layouts = 2 + 4; column(w, hor ? 4 : 1, hor ? 4 : 5, "n", o); }
    set_area(w.s.impact_area_, r); set_area(w.s.relax_area_, Area{1, 4, 1, 6});
    ss::SimOut pre = w.s; ss::SimParam p(F32(ANGLES[ang]), 3, buf);
    rng_policy(4, param("draws", 2, 5));
    ss::RelaxTerrain(&w.s, w.grid, &w.body, p, w.tol);
    observe_world(w, 1, 4, 2, 6);
    terrain_specs(w, pre, r, ang, buf, [&](int, int) { return Col(); }, false);
}

// which cells are visited and the relaxation area, over a larger active area
HARNESS(terrain_area) {
    World w(4, 5); int buf = 2 + choose("buf", 3);
    static const int cand[6][2] = {{2, 2}, {7, 2}, {2, 9}, {7, 9}, {4, 6}, {5, 3}};
    int n = param("n", 3, 4); vector<int> pick; int prev = -1;
    for (int i = 0; i < n; i++) { int k = prev + 1 + choose("cell" + S(i), 6 - n + i - prev); pick.push_back(k); prev = k; }
    for (int k : pick) w.s.terrain_[cand[k][0]][cand[k][1]] = f32(hz("t" + S(k), 0, 6));
    Area r = choose("area", 2) ? Area{2, 8, 2, 10} : Area{2, 7, 3, 8};
    set_area(w.s.impact_area_, r); set_area(w.s.relax_area_, Area{3, 5, 3, 6});
    ss::SimOut pre = w.s; ss::SimParam p(F32(0.85), 3, buf);
    rng_policy(4, 0);
    ss::RelaxTerrain(&w.s, w.grid, &w.body, p, w.tol);
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) observe_int("ra" + S(i) + S(j), w.s.relax_area_[i][j]);
    check_mass("mass", pre, w.s);
    std::set<std::pair<int, int>> al; for (int x = r.x0; x < r.x1; x++) for (int y = r.y0; y < r.y1; y++) { al.insert({x, y}); for (int k = 0; k < 4; k++) al.insert({x + DX4[k], y + DY4[k]}); }
    check_only("only", pre, w.s, al);
    check_relax_area(w, pre, r, dh_of(0), buf);
}

// soil resting on the body, whole pass
static void body_soil_specs(World& w, const ss::SimOut& pre, const std::set<std::pair<int, int>>& src, int ang, const std::map<std::pair<int, int>, Col>& cols) {
    size_t nrec = pre.body_soil_pos_.size();
    check_mass("mass", pre, w.s); check_records("rec", w.s); check_new_records("recpos", w, nrec); check_conv("conv", w.s); check_bodies_same("conv", pre, w.s);
    std::set<std::pair<int, int>> al; for (auto& c : src) { al.insert(c); for (int k = 0; k < 4; k++) al.insert({c.first + DX4[k], c.second + DY4[k]}); }
    check_only("only", pre, w.s, al);
    B moved = !state_same_cells(pre, w.s); bool rec = w.s.body_soil_pos_.size() != nrec;
    check("eq", B(!w.s.equilibrium_) || (!moved && B(!rec)), "equilibrium reported although soil was moved");
    if (w.s.equilibrium_ && wants("eq")) {   // no soil resting on the body can avalanche
        B ok = true; Q dh = dh_of(ang);
        for (auto& p : w.s.body_soil_pos_) for (int k = 0; k < 4; k++) {
            int nx = p.ii + DX4[k], ny = p.jj + DY4[k]; auto it = cols.find({nx, ny}); Col c = it == cols.end() ? Col() : it->second; Q z(w.s.body_[p.ind + 1][p.ii][p.jj]), hm = Q(w.s.body_soil_[p.ind + 1][p.ii][p.jj]) - dh;
            for (int q = 0; q < (c.layout == 0 ? 1 : c.layout < 3 ? 2 : 3); q++) { Q h = q == 0 ? Q(w.s.terrain_[nx][ny]) : layer_top(w.s, c, q == 2, nx, ny); ok = ok && implies(land_body(w.s, c, nx, ny, z, q) && Q(p.h_soil) > Q(0), h >= hm); }
        }
        check("eq", ok, "equilibrium reported although soil on the body can avalanche");
    }
    check("eq", B(pre.equilibrium_) || B(!w.s.equilibrium_), "missing equilibrium of the terrain forgotten");
    B lat = true; for (auto& c : al) lat = lat && on_lattice(Q(w.s.terrain_[c.first][c.second]));
    check("flow", lat, "terrain is not a multiple of the cell height");
    check("area", B(std::memcmp(pre.relax_area_, w.s.relax_area_, sizeof pre.relax_area_) == 0) && B(std::memcmp(pre.body_area_, w.s.body_area_, sizeof pre.body_area_) == 0), "soil relaxation changes the areas");
}
HARNESS(body_one) {
    World w(2, 3); int ang = choose("ang", param("ang", 1, 5));
    int d = choose("dir", 4); w.pose(d); if (!tier_thorough()) ang = d & 1 && d != 3; int x0 = 2, y0 = 3, x = x0 + DX4[d], y = y0 + DY4[d];
    int k = choose("src", 4); ColOpt so; so.layouts = k < 2 ? 2 << k : 8 << (k - 2); so.soil_mask = k < 2 ? 1 : 3; so.split_rec = k == 1 && (tier_thorough() || d == 1); if (k == 3 && !tier_thorough()) so.soil_mask = 2; Col sc = column(w, x0, y0, "s", so); (void)sc;
    ColOpt o; o.soil_mask = -1; if (!tier_thorough()) { o.layouts = d == 0 ? 8 : d == 1 ? 1 + 2 : d == 2 ? 16 : 4; o.soil_mask = d == 0 ? 1 : d == 2 ? 2 : -1; } Col c = column(w, x, y, "n", o); (void)c;
    for (int a = 0; a < 5; a++) for (int b = 0; b < 7; b++) if (!(a == x0 && b == y0) && !(a == x && b == y)) w.s.terrain_[a][b] = F32(16.0);
    w.s.equilibrium_ = (c.layout + sc.layout) & 1;
    ss::SimOut pre = w.s; ss::SimParam p(F32(ANGLES[ang]), 3, 2);
    rng_policy(4, param("draws", 0, 2));
    ss::RelaxBodySoil(&w.s, w.grid, &w.body, p, w.tol);
    observe_world(w, 1, 3, 2, 4);
    body_soil_specs(w, pre, {{x0, y0}, {x, y}}, ang, {{{x0, y0}, sc}, {{x, y}, c}});
    // a single record above a neighbour without records: exactly the avalanche of this record towards this neighbour
    Q dh = dh_of(ang); if (k > 1 || c.layout > 2 || c.soil_lo || so.split_rec || !wants("flow") || qconst(dh) == 0) return;
    int ind = sc.lo; Q S0(pre.body_soil_[ind + 1][x0][y0]), rec(pre.body_soil_pos_[0].h_soil), z(pre.body_[ind + 1][x0][y0]), m = rec; if (split(present(w.s.body_soil_, ind, x0, y0))) m = S0 - Q(w.s.body_soil_[ind + 1][x0][y0]);
    for (int q = 0; q < (c.layout ? 2 : 1); q++) {
        Q F = q ? layer_top(pre, c, false, x, y) : Q(pre.terrain_[x][y]), R1 = F + m; B on = land_body(pre, c, x, y, z, q) && S0 <= Q(15); B un = F < S0 - dh, done = S0 - m - R1 <= dh || eq(m, rec); if (!q && c.layout) done = done || R1 >= Q(pre.body_[c.lo][x][y]);
        check("flow", implies(on && !un, eq(m, Q(0))), "soil left a layer that was already stable"); check("flow", implies(on && un, done), "avalanche stopped before the repose slope, the available soil or the available space");
        check("flow", implies(on && un, R1 + R1 <= S0 + F - dh + CZ() + CZ()), "avalanche overshoots the repose slope"); 
    }
}
// one record above up to four lower columns of any height: the layer is lowered several times
HARNESS(body_peak) {
    World w(2, 3); int ang = choose("ang", param("ang", 2, 5)), x0 = 2, y0 = 3, lay = choose("layer", 2) * 2, on = choose("on", 3); w.pose(ang); long R = param("range", 20, 40);
    for (int a = 0; a < 5; a++) for (int b = 0; b < 7; b++) w.s.terrain_[a][b] = F32(-16.0);
    Q z = hz("z", -2, 2), h = hz("h", 1, R); w.s.body_[lay][x0][y0] = f32(z - Q(2)); w.s.body_[lay + 1][x0][y0] = f32(z); w.s.body_soil_[lay][x0][y0] = f32(z); w.s.body_soil_[lay + 1][x0][y0] = f32(z + h); add_record(w, lay, x0, y0, h);
    Q n[4], e[4], m[4]; int l[4]; for (int k = 0; k < 4; k++) {
        int x = x0 + DX4[k], y = y0 + DY4[k]; n[k] = k == 3 && !tier_thorough() ? Q(8) : hz("n" + S(k), -8, 8); l[k] = on == 0 ? -1 : on == 1 || k & 1 ? lay : -1; if (on == 2 && k == 1) l[k] = 2 - lay;
        if (l[k] < 0) w.s.terrain_[x][y] = f32(n[k]); else { w.s.body_[l[k]][x][y] = F32(-8.0); w.s.body_[l[k] + 1][x][y] = f32(n[k]); }
    }
    ss::SimOut pre = w.s; w.s.equilibrium_ = pre.equilibrium_ = true; ss::SimParam p(F32(ANGLES[ang]), 3, 2); Q dh = dh_of(ang);
    rng_policy(4, 3);
    ss::RelaxBodySoil(&w.s, w.grid, &w.body, p, w.tol);
    observe_world(w, 1, 3, 2, 4); size_t nrec = pre.body_soil_pos_.size();
    check_mass("mass", pre, w.s); check_records("rec", w.s); check_new_records("recpos", w, nrec); check_conv("conv", w.s); check_bodies_same("conv", pre, w.s);
    bool left = split(present(w.s.body_soil_, lay, x0, y0)); Q c0 = z + h, c1 = left ? Q(w.s.body_soil_[lay + 1][x0][y0]) : z; B any = false, last = false, up = true, rest = true, over = true, order = true;
    for (int k = 0; k < 4; k++) {
        int x = x0 + DX4[k], y = y0 + DY4[k]; e[k] = n[k]; if (l[k] < 0) e[k] = Q(w.s.terrain_[x][y]); else if (split(present(w.s.body_soil_, l[k], x, y))) e[k] = Q(w.s.body_soil_[l[k] + 1][x][y]);
        m[k] = e[k] - n[k]; B mv = !eq(m[k], Q(0)); any = any || mv; up = up && m[k] >= Q(0); rest = rest && (B(!left) || c1 - e[k] <= dh);
        last = last || (mv && n[k] < c1 + m[k] - dh && e[k] + e[k] <= c1 + m[k] + n[k] - dh + CZ() + CZ()); over = over && implies(mv, e[k] + e[k] <= c0 + n[k] - dh + CZ() + CZ());
        for (int j = 0; j < k; j++) order = order && implies(mv && !eq(m[j], Q(0)), n[j] < c0 - m[k] - dh || n[k] < c0 - m[j] - dh);
    }
    check("flow", up && c1 <= c0, "soil moved towards the higher column"); check("flow", rest, "avalanche stopped before the repose slope");
    check("flow", over, "avalanche overshoots the repose slope"); check("flow", order && implies(any, last), "soil left a layer that was already stable");
    check("eq", iff(any, B(!w.s.equilibrium_)), "equilibrium reported although soil moved, or the reverse");
    std::set<std::pair<int, int>> al = {{x0, y0}}; for (int k = 0; k < 4; k++) al.insert({x0 + DX4[k], y0 + DY4[k]}); check_only("only", pre, w.s, al);
}
// records in two adjacent columns and a bare neighbour: chains of avalanches
HARNESS(body_two) {
    World w(2, 3); int d = choose("dir", 2), x0 = 2, y0 = 3, x = x0 + DX4[2 * d], y = y0 + DY4[2 * d], ang = choose("ang", 2) * 2;
    for (int i = 1; i < 4; i++) for (int j = 1; j < 6; j++) w.s.terrain_[i][j] = F32(-4.0);
    ColOpt so; so.layouts = tier_thorough() ? 2 + 4 : 4; so.soil_mask = 1; so.split_rec = tier_thorough(); so.tlo = -16; so.thi = 16; Col sc = column(w, x0, y0, "s", so);
    ColOpt o; o.layouts = tier_thorough() ? 30 : d ? 2 : 16; o.soil_mask = 1; Col cn = column(w, x, y, "n", o), cq;
    int f = choose("third", 2); if (f) w.s.terrain_[x0 - DX4[2 * d]][y0 - DY4[2 * d]] = f32(hz("t3", -24, 24));
    else { ColOpt q; q.layouts = 4; q.soil_mask = 0; cq = column(w, x0 + DX4[2 - 2 * d], y0 + DY4[2 - 2 * d], "q", q); }
    for (int a = 0; a < 5; a++) for (int b = 0; b < 7; b++) if (w.s.terrain_[a][b] == F32(-4.0)) w.s.terrain_[a][b] = F32(16.0);
    ss::SimOut pre = w.s; ss::SimParam p(F32(ANGLES[ang]), 3, 2); w.s.equilibrium_ = pre.equilibrium_ = true;
    rng_policy(4, param("draws", 1, 3));
    ss::RelaxBodySoil(&w.s, w.grid, &w.body, p, w.tol);
    observe_world(w, 1, 3, 1, 5);
    body_soil_specs(w, pre, {{x0, y0}, {x, y}}, ang, {{{x0, y0}, sc}, {{x, y}, cn}, {{x0 + DX4[2 - 2 * d], y0 + DY4[2 - 2 * d]}, cq}});
}
