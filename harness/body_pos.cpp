// Position of the body on the grid.
#include "common.hpp"
std::mt19937 soil_simulator::rng;
typedef vector<vector<int>> Cells;

static B covers(const ss::SimOut& s, int x, int y, const Q& h) {
    B r = false; for (int l = 0; l < 4; l += 2) r = r || (present(s.body_, l, x, y) && Q(s.body_[l][x][y]) < h && h < Q(s.body_[l + 1][x][y])); return r;
}
// 0 none, 1 layer 0, 2 layer 2, 3 both with layer 0 lower, 4 both with layer 2 lower
static vector<std::pair<Q, Q>> put_layers(World& w, int x, int y, int lay, const string& n) {
    vector<std::pair<Q, Q>> e; if (!lay) return e;
    Q b0 = hz(n + ".b0", -24, 24), b1 = b0 + hz(n + ".th", 1, 24); int lo = lay == 1 || lay == 3 ? 0 : 2;
    w.s.body_[lo][x][y] = f32(b0); w.s.body_[lo + 1][x][y] = f32(b1); e.push_back({b0, b1});
    if (lay >= 3) { Q u0 = b1 + hz(n + ".sep", 1, 24), u1 = u0 + hz(n + ".th2", 1, 24); w.s.body_[2 - lo][x][y] = f32(u0); w.s.body_[3 - lo][x][y] = f32(u1); e.push_back({u0, u1}); }
    return e;
}
static B touch(const std::pair<Q, Q>& a, const std::pair<Q, Q>& b) { return a.first <= b.second && b.first <= a.second; }
static Q gap(const std::pair<Q, Q>& a, const std::pair<Q, Q>& b) { return split(a.first > b.second) ? a.first - b.second : b.first - a.second; }
static void check_union(const char* tag, const ss::SimOut& s, int x, int y, const vector<std::pair<Q, Q>>& old, const std::pair<Q, Q>& nw, const Q& sep = Q(0)) {
    Q h = hz("h" + S(x) + S(y), -120, 120) + CZ() * Q(0.5);           // any height (middle of any cell)
    auto in = [&](const std::pair<Q, Q>& e) { return e.first < h && h < e.second; };
    B want = in(nw); for (auto& e : old) want = want || in(e);
    B got = covers(s, x, y, h); bool third = old.size() == 2 && split(!touch(old[0], nw) && !touch(old[1], nw));
    if (!third) check(tag, iff(want, got), "the body layers are not the union of the extents");
    else {
        reach("third"); check(tag, implies(want, got), "an extent of the body is lost");
        Q g0 = gap(old[0], nw), g1 = gap(old[1], nw); auto& c = split(g0 < g1) ? old[0] : old[1]; bool tie = split(eq(g0, g1));
        auto between = [&](const std::pair<Q, Q>& e) { return (e.second < h && h < nw.first) || (nw.second < h && h < e.first); };
        check(tag, implies(got && !want, tie ? B(between(old[0]) || between(old[1])) : between(c)), "a third extent is not merged with the closest layer");
    }
    B p0 = present(s.body_, 0, x, y), p2 = present(s.body_, 2, x, y); Q a0(s.body_[0][x][y]), a1(s.body_[1][x][y]), c0(s.body_[2][x][y]), c1(s.body_[3][x][y]);
    check(tag, implies(p0, a0 < a1) && implies(p2, c0 < c1) && implies(p0 && p2, a1 + sep < c0 || c1 + sep < a0), "the two body layers are not separate");
}
static B others_same(const ss::SimOut& a, const ss::SimOut& b, const std::set<std::pair<int, int>>& skip) {
    B r = true; for (int x = 0; x < (int)a.terrain_.size(); x++) for (int y = 0; y < (int)a.terrain_[0].size(); y++) r = r && cell_same(a, b, x, y, !skip.count({x, y})); return r;
}

HARNESS(include) {
    World w(1, 2); int lay = choose("layout", 5); auto old = put_layers(w, 1, 3, lay, "c");
    w.s.body_[0][1][2] = F32(0.5); w.s.body_[1][1][2] = F32(1.0); w.s.body_[2][0][3] = F32(-0.5); w.s.body_[3][0][3] = F32(0.25); w.s.body_[0][2][3] = F32(0.5); w.s.body_[1][2][3] = F32(0.75);
    Q m = hz("m", -60, 60), M = m + hz("ext", 1, 40);
    ss::SimOut pre = w.s;
    ss::IncludeNewBodyPos(&w.s, 1, 3, f32(m), f32(M), w.tol);
    observe_cell(w, 1, 3);
    check_union("union", w.s, 1, 3, old, {m, M});
    check("union", others_same(pre, w.s, {{1, 3}}) && B(w.s.body_soil_pos_.empty()), "another part of the state changed");
}

// one wall: sorted cells, some columns with several cells
HARNESS(include_near) {
    World w(1, 2); int lay = choose("layout", 5); auto old = put_layers(w, 1, 3, lay, "c"); int lo = lay == 1 || lay == 3 ? 0 : 2;
    for (int k = 0; k < 4; k++) if (lay >= 3 || (lay && k / 2 == lo / 2)) w.s.body_[k][1][3] = jittered(w.s.body_[k][1][3], "e" + S(k));
    Q m = hz("m", -60, 60), M = m + hz("ext", 1, 40);
    ss::IncludeNewBodyPos(&w.s, 1, 3, jittered(f32(m), "em"), jittered(f32(M), "eM"), w.tol);
    observe_cell(w, 1, 3);
    check_union("union", w.s, 1, 3, old, {m, M}, Q(1.0 / 131072));
}
HARNESS(update_body) {
    World w(2, 3); Q base = hz("zbase", -20, 20); for (int k = 0; k < (int)w.grid.vect_z_.size(); k++) w.grid.vect_z_[k] = f64(base + Q(k) * CZ());
    int shape = choose("shape", 5), top = 10 + 3 * choose("k", 2);
    Cells c;
    if (shape == 0) c = {{2, 3, top}};
    if (shape == 1) c = {{1, 2, 9}, {1, 2, 9}, {1, 2, top}, {1, 4, 7}, {2, 1, top}, {2, 1, top + 2}};
    if (shape == 2) c = {{1, 2, 9}, {1, 3, 8}, {1, 3, 9}, {1, 3, top}, {1, 3, top + 1}, {3, 3, 9}};
    if (shape == 3) c = {{0, 0, top}, {4, 6, 12}, {4, 6, top + 3}};
    if (shape == 4) c = {{1, 2, 9}, {1, 3, 9}, {2, 2, top}, {2, 2, top}, {2, 3, top}, {3, 3, top - 2}};
    std::map<std::pair<int, int>, std::pair<int, int>> ext; for (auto& v : c) { auto k = std::make_pair(v[0], v[1]); if (!ext.count(k)) ext[k] = {v[2], v[2]}; ext[k].second = std::max(ext[k].second, v[2]); ext[k].first = std::min(ext[k].first, v[2]); }
    int sel = choose("col", (int)ext.size()); auto it = ext.begin(); std::advance(it, sel); int x = it->first.first, y = it->first.second;
    auto old = put_layers(w, x, y, choose("layout", 5), "c");
    w.s.body_[0][0][3] = F32(0.5); w.s.body_[1][0][3] = F32(1.0);
    ss::SimOut pre = w.s; std::set<std::pair<int, int>> skip; for (auto& e : ext) skip.insert(e.first);
    ss::UpdateBody(c, &w.s, w.grid, w.tol);
    for (auto& e : ext) observe_cell(w, e.first.first, e.first.second);
    check("union", others_same(pre, w.s, skip) && B(w.s.body_soil_pos_.empty()), "a column without wall changed");
    for (auto& e : ext) {
        std::pair<Q, Q> nw = {base + Q(e.second.first - 1) * CZ(), base + Q(e.second.second) * CZ()};
        check_union("union", w.s, e.first.first, e.first.second, e.first == it->first ? old : vector<std::pair<Q, Q>>(), nw);
    }
}

// ------------------------------------------------------------------ rasterisation
// index coordinates: cell (i,j,k) covers [i-1/2,i+1/2] x [j-1/2,j+1/2] x [k-1,k]
struct V3 { Q c[3]; };
static V3 to_ind(World& w, const vector<Q>& p) { return {{p[0] * Q(4) + Q(w.grid.half_length_x_), p[1] * Q(4) + Q(w.grid.half_length_y_), p[2] * Q(8) + Q(w.grid.half_length_z_ - 1)}}; }
static V3 at(const V3& a, const V3& d, const Q& t, const V3* e = nullptr, const Q* u = nullptr) { V3 r; for (int i = 0; i < 3; i++) { r.c[i] = a.c[i] + d.c[i] * t; if (e) r.c[i] += e->c[i] * *u; } return r; }
static Q lo_of(const vector<int>& c, int i) { return i < 2 ? Q(c[i]) - Q(0.5) : Q(c[i] - 1); }
static Q hi_of(const vector<int>& c, int i) { return i < 2 ? Q(c[i]) + Q(0.5) : Q(c[i]); }
static B inside(const vector<int>& c, const V3& p, const Q& eps) { B r = true; for (int i = 0; i < 3; i++) r = r && p.c[i] >= lo_of(c, i) - eps && p.c[i] <= hi_of(c, i) + eps; return r; }
// the segment a + t d, 0 <= t <= 1, meets the box of the cell extended by eps; d constant
static B meets(const vector<int>& c, const V3& a, const V3& d, const Q& eps) {
    vector<Q> lo = {Q(0)}, hi = {Q(1)}; B r = true;
    for (int i = 0; i < 3; i++) {
        mpq_class k = qconst(d.c[i]); Q l = lo_of(c, i) - eps - a.c[i], h = hi_of(c, i) + eps - a.c[i];
        if (k == 0) { r = r && l <= Q(0) && h >= Q(0); continue; }
        Q iv(mpq_class(1 / k)); if (k > 0) { lo.push_back(l * iv); hi.push_back(h * iv); } else { lo.push_back(h * iv); hi.push_back(l * iv); }
    }
    for (auto& x : lo) for (auto& y : hi) r = r && x <= y;
    return r;
}
static vector<F32> fv(const vector<Q>& v) { vector<F32> r; for (auto& q : v) r.push_back(f32(q)); return r; }
static vector<Q> plus(const vector<Q>& a, const vector<Q>& b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
static vector<Q> vec(const double* d) { return {Q(d[0]), Q(d[1]), Q(d[2])}; }
static V3 ind_vec(const vector<Q>& d) { return {{d[0] * Q(4), d[1] * Q(4), d[2] * Q(8)}}; }
// a point of a grid cell, away from the cell borders by at least 1/64 of a cell
static vector<Q> free_point(const string& n, int range, bool odd = false) {
    // with `odd`, x has a finer odd lattice: no edge of a wall passes exactly through the corner of a column
    vector<Q> p; if (odd) { p.push_back(in_scaled(n + "0", 2, 125, -9) + Q(1.0 / 1024) + Q(0.125)); p.push_back(in_scaled(n + "1", 1, 63, -8) + Q(0.125)); p.push_back(in_scaled(n + "2", 1, 63, -9)); return p; }
    for (int i = 0; i < 3; i++) { Q off = in_scaled(n + S(i), 1, 63, i < 2 ? -8 : -9); p.push_back(off + Q(i < 2 ? 0.125 : 0.0) + Q(choose(n + "c" + S(i), range)) * Q(i < 2 ? 0.25 : 0.125)); } return p;
}
static void observe_cells(const string& n, const Cells& c) { observe_int(n, (long)c.size()); int i = 0; for (auto& v : c) { observe_int(n + S(i), v[0] * 10000 + v[1] * 100 + v[2]); i++; } }

static const double DIRS[18][3] = {
    {0.5, 0.1875, 0.25}, {-0.625, 0.375, -0.3125}, {0.15625, -0.6875, 0.4375}, {-0.25, -0.25, 0.125}, {0.5, 0, 0}, {0, -0.5625, 0}, {0, 0, 0.4375}, {0.03125, 0.015625, -0.0625},
    {0, 0, -0.5}, {-0.75, 0, 0.0625}, {0, 0.4375, -0.1875}, {0.25, 0.25, 0}, {1.0, 0.03125, 0.015625}, {-0.015625, 0.875, -0.03125}, {0.28125, -0.34375, 0.90625}, {-0.375, -0.59375, -0.6875}, {0.25, -0.25, 0.125}, {-1.0, 0.5, 0.25}};
HARNESS(line) {
    decouple_rounding();
    World w(6, 8, 32); int k = choose("dir", param("dir", 8, 18)); vector<Q> d = vec(DIRS[k]);
    vector<Q> a = free_point("a", param("cells", 1, 2)), b = plus(a, d);
    V3 ia = to_ind(w, a), id = ind_vec(d), ib = to_ind(w, b); Q eps(1.0 / 128);
    auto c = ss::CalcLinePos(fv(a), fv(b), w.grid);
    observe_cells("c", c);
    check("line", B(!c.empty()), "no cell returned"); if (c.empty()) return;
    check("line", inside(c[0], ia, Q(0)), "the first cell does not contain the first point");
    check("line", inside(c.back(), ib, eps), "the last cell does not contain the last point");
    bool step = true; for (size_t i = 1; i < c.size(); i++) if (std::abs(c[i][0] - c[i - 1][0]) + std::abs(c[i][1] - c[i - 1][1]) + std::abs(c[i][2] - c[i - 1][2]) != 1) step = false;
    check("line", B(step), "consecutive cells do not share a face");
    B on = true; for (auto& v : c) on = on && meets(v, ia, id, eps);
    check("line", on, "a returned cell is not on the segment");
    Q t = in_scaled("t", 0, 1024, -10); V3 p = at(ia, id, t); B cov = false; for (auto& v : c) cov = cov || inside(v, p, eps);
    check("line", cov, "a point of the segment is in no returned cell");
}

// segments almost parallel to the faces of the cells, which cross a face by a thousandth of a cell
HARNESS(line_thin) {
    decouple_rounding();
    World w(6, 8, 32); int k = choose("axis", 3), sg = choose("sign", 2) ? 1 : -1; double del = k < 2 ? 1.0 / 4096 : 1.0 / 8192, u = del / 4;
    vector<Q> a, b; for (int i = 0; i < 3; i++) {
        if (i == k) { a.push_back(in_scaled("o", -7, 7, k < 2 ? -14 : -15) + Q(k < 2 ? 0.125 : 0.0) + Q(u / 2)); b.push_back(a[i] + Q(sg * del)); }
        else { a.push_back(Q(i < 2 ? 0.125 + 0.03125 : 0.03125)); if (i == (k + 1) % 3) a[i] += in_scaled("p", 0, 15, -8); b.push_back(a[i] + Q(i == 2 ? 0.1875 : i == (k + 1) % 3 ? 0.3125 : -0.125)); }
    }
    V3 ia = to_ind(w, a), ib = to_ind(w, b), id; for (int i = 0; i < 3; i++) id.c[i] = ib.c[i] - ia.c[i];
    auto c = ss::CalcLinePos(fv(a), fv(b), w.grid); observe_cells("c", c);
    check("line", B(!c.empty()), "no cell returned"); if (c.empty()) return;
    auto in = [&](const vector<int>& v, const V3& p) { B r = true; for (int i = 0; i < 3; i++) { Q e = i == k ? Q(1.0 / 32768) : Q(1.0 / 128); r = r && p.c[i] >= lo_of(v, i) - e && p.c[i] <= hi_of(v, i) + e; } return r; };
    check("line", in(c[0], ia), "the first cell does not contain the first point"); check("line", in(c.back(), ib), "the last cell does not contain the last point");
    Q t = in_scaled("t", 0, 1024, -10); V3 p = at(ia, id, t); B cov = false; for (auto& v : c) cov = cov || in(v, p);
    check("line", cov, "a point of the segment is in no returned cell");
}

// A flat convex wall: vertices a + off[i] in index coordinates, offsets constant
struct Wall { V3 a; vector<vector<mpq_class>> off; };
static vector<mpq_class> cross(const vector<mpq_class>& u, const vector<mpq_class>& v) { return {u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]}; }
static Wall wall_of(const V3& a, const vector<V3>& offs) { Wall w; w.a = a; for (auto& o : offs) w.off.push_back({qconst(o.c[0]), qconst(o.c[1]), qconst(o.c[2])}); return w; }
// separating axis test between the wall and the box of a cell (or the whole column) extended by eps
static B crosses(const Wall& w, int x, int y, const Q& zlo, const Q& zhi, const Q& eps, bool column = false) {
    vector<vector<mpq_class>> ax = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, edges; size_t n = w.off.size();
    for (size_t i = 0; i < n; i++) { vector<mpq_class> e; for (int k = 0; k < 3; k++) e.push_back(w.off[(i + 1) % n][k] - w.off[i][k]); edges.push_back(e); }
    if (!column) ax.push_back(cross(edges[0], edges[1]));
    for (auto& e : edges) { if (column) ax.push_back({-e[1], e[0], 0}); else for (int k = 0; k < 3; k++) { vector<mpq_class> u(3, 0); u[k] = 1; ax.push_back(cross(e, u)); } }
    B r = true; std::set<string> seen; mpq_class ep = qconst(eps);
    for (auto& v : ax) {
        if (column && v[2] != 0) continue;
        mpq_class m = std::max({mpq_class(abs(v[0])), mpq_class(abs(v[1])), mpq_class(abs(v[2]))}); if (m == 0) continue;
        for (auto& c : v) c /= m; if (v[0] < 0 || (v[0] == 0 && (v[1] < 0 || (v[1] == 0 && v[2] < 0)))) for (auto& c : v) c = -c;
        if (!seen.insert(v[0].get_str() + "," + v[1].get_str() + "," + v[2].get_str()).second) continue;
        mpq_class lo, hi; bool first = true; for (auto& o : w.off) { mpq_class p = v[0] * o[0] + v[1] * o[1] + v[2] * o[2]; if (first || p < lo) lo = p; if (first || p > hi) hi = p; first = false; }
        Q base = Q(v[0]) * w.a.c[0] + Q(v[1]) * w.a.c[1] + Q(v[2]) * w.a.c[2];
        mpq_class h = abs(v[0]) * (mpq_class(1, 2) + ep) + abs(v[1]) * (mpq_class(1, 2) + ep);     // half extents of the column
        Q mid = Q(mpq_class(v[0] * x + v[1] * y)), zl(0), zh(0);
        if (v[2] > 0) { zl = Q(v[2]) * (zlo - eps); zh = Q(v[2]) * (zhi + eps); } if (v[2] < 0) { zl = Q(v[2]) * (zhi + eps); zh = Q(v[2]) * (zlo - eps); }
        r = r && base + Q(lo) <= mid + Q(h) + zh && mid - Q(h) + zl <= base + Q(hi);
    }
    return r;
}
typedef std::map<std::pair<int, int>, std::pair<int, int>> Spans;
static Spans spans(const Cells& c) { Spans ext; for (auto& v : c) { auto k = std::make_pair(v[0], v[1]); if (!ext.count(k)) ext[k] = {v[2], v[2]}; ext[k].first = std::min(ext[k].first, v[2]); ext[k].second = std::max(ext[k].second, v[2]); } return ext; }
// every point of a wall lies in the column span between the lowest and highest returned cell
static void wall_specs(const Cells& c, const V3& ia, const V3& d1, const V3& d2, bool tri, const Q& eps) {
    Spans ext = spans(c); V3 z{{Q(0), Q(0), Q(0)}}, d12 = at(d1, d2, Q(1)); Wall wl = tri ? wall_of(ia, {z, d1, d2}) : wall_of(ia, {z, d1, d12, d2});
    Q s = in_scaled("s", 0, 256, -8), t = in_scaled("t", 0, 256, -8); if (tri) assume(s + t <= Q(1));
    V3 p = at(ia, d1, s, &d2, &t); B cov = false;
    for (auto& e : ext) cov = cov || (p.c[0] >= Q(e.first.first) - Q(0.5) - eps && p.c[0] <= Q(e.first.first) + Q(0.5) + eps && p.c[1] >= Q(e.first.second) - Q(0.5) - eps && p.c[1] <= Q(e.first.second) + Q(0.5) + eps && p.c[2] >= Q(e.second.first - 1) - eps && p.c[2] <= Q(e.second.second) + eps);
    check("wall", cov, "a point of the wall is in no column span");
    B on = true; std::set<vector<int>> done; for (auto& v : c) if (done.insert(v).second) on = on && crosses(wl, v[0], v[1], Q(v[2] - 1), Q(v[2]), eps);
    check("wall", on, "a returned cell is not crossed by the wall");
}
// walls whose vertices lie on a cell border are ambiguous by documentation
static void off_border(const V3& p) { for (int i = 0; i < 3; i++) { Q v = i < 2 ? p.c[i] + Q(0.5) : p.c[i]; Q f = v - qfloor(v); assume(f >= Q(1.0 / 64) && f <= Q(63.0 / 64)); } }
static const double RECT[8][2][3] = {
    {{0.5, 0.125, 0.125}, {-0.125, 0.4375, 0.1875}}, {{0.375, 0, 0}, {0, 0.3125, 0}}, {{0.4375, 0, 0.25}, {0, 0.375, 0}}, {{0.375, 0.125, 0}, {0, 0, 0.375}},
    {{0.25, 0.375, 0.25}, {0.375, -0.25, -0.5}}, {{0, 0.5, 0}, {0.28125, 0, -0.4375}}, {{0.5, 0.25, 0.125}, {0.25, 0.125, -0.3125}}, {{-0.5, 0.0625, -0.0625}, {0.0625, -0.375, 0.5}}};
HARNESS(rectangle) {
    decouple_rounding();
    World w(6, 8, 32); int k = choose("shape", param("shape", 3, 8)); if (k && !tier_thorough()) k++; vector<Q> ab = vec(RECT[k][0]), ad = vec(RECT[k][1]);
    vector<Q> a = free_point("a", 1, true), b = plus(a, ab), c = plus(b, ad), d = plus(a, ad);
    for (auto& v : {a, b, c, d}) off_border(to_ind(w, v));
    auto r = ss::CalcRectanglePos(fv(a), fv(b), fv(c), fv(d), w.grid, w.tol);
    observe_cells("r", r);
    wall_specs(r, to_ind(w, a), ind_vec(ab), ind_vec(ad), false, Q(1.0 / 16));
}
HARNESS(triangle) {
    decouple_rounding();
    World w(6, 8, 32); int k = choose("shape", param("shape", 4, 8)); if (k && !tier_thorough()) k++; vector<Q> ab = vec(RECT[k][0]), ac = vec(RECT[k][1]);
    vector<Q> a = free_point("a", 1, true), b = plus(a, ab), c = plus(a, ac);
    for (auto& v : {a, b, c}) off_border(to_ind(w, v));
    auto r = ss::CalcTrianglePos(fv(a), fv(b), fv(c), w.grid, w.tol);
    observe_cells("r", r);
    wall_specs(r, to_ind(w, a), ind_vec(ab), ind_vec(ac), true, Q(1.0 / 16));
}

// an edge exactly through the corner of a column is ambiguous by documentation; d constant
static void off_corners(const V3& p, const V3& d, int r) {
    for (int i = -r; i <= r; i++) for (int j = -r; j <= r; j++) { Q c = d.c[0] * (Q(8.5 + j) - p.c[1]) - d.c[1] * (Q(6.5 + i) - p.c[0]); assume(!eq(c, Q(0))); }
}
// steep walls: the projection is a narrow strip, whose interior still reaches corners of columns
HARNESS(rectangle_steep) {
    decouple_rounding();
    static const double ST[4][2][3] = {{{0.5, 0.0625, 0.03125}, {0, 0.0625, 0.4375}}, {{-0.046875, 0.4375, 0}, {0.078125, 0, -0.5}}, {{0.375, -0.375, 0.125}, {-0.03125, -0.046875, 0.375}}, {{0.03125, 0.03125, 0.5}, {-0.5, 0.25, -0.0625}}};
    World w(6, 8, 32); int k = choose("shape", param("shape", 3, 4)); vector<Q> ab = vec(ST[k][0]), ad = vec(ST[k][1]);
    vector<Q> a = free_point("a", 1, true); a[2] = Q(1.0 / 64); vector<Q> b = plus(a, ab), c = plus(b, ad), d = plus(a, ad);
    for (auto& v : {a, b, c, d}) off_border(to_ind(w, v));
    off_corners(to_ind(w, a), ind_vec(ab), 3); off_corners(to_ind(w, a), ind_vec(ad), 3); off_corners(to_ind(w, c), ind_vec(ab), 3); off_corners(to_ind(w, c), ind_vec(ad), 3);
    auto r = ss::CalcRectanglePos(fv(a), fv(b), fv(c), fv(d), w.grid, w.tol);
    observe_cells("r", r);
    wall_specs(r, to_ind(w, a), ind_vec(ab), ind_vec(ad), false, Q(1.0 / 64));
}
HARNESS(triangle_steep) {
    decouple_rounding();
    static const double ST[4][2][3] = {{{0.5, 0.0625, 0.03125}, {0.25, 0.078125, 0.5}}, {{-0.046875, 0.4375, 0}, {0.015625, 0.25, -0.5}}, {{0.375, -0.375, 0.125}, {0.125, -0.21875, 0.5}}, {{0.03125, 0.046875, 0.5}, {-0.5, 0.25, -0.0625}}};
    World w(6, 8, 32); int k = choose("shape", param("shape", 3, 4)); vector<Q> ab = vec(ST[k][0]), ac = vec(ST[k][1]);
    vector<Q> a = free_point("a", 1, true); a[2] = Q(1.0 / 64); vector<Q> b = plus(a, ab), c = plus(a, ac);
    for (auto& v : {a, b, c}) off_border(to_ind(w, v));
    V3 e = ind_vec(ac), f = ind_vec(ab); V3 g{{e.c[0] - f.c[0], e.c[1] - f.c[1], e.c[2] - f.c[2]}}; off_corners(to_ind(w, a), f, 3); off_corners(to_ind(w, a), e, 3); off_corners(to_ind(w, b), g, 3);
    auto r = ss::CalcTrianglePos(fv(a), fv(b), fv(c), w.grid, w.tol);
    observe_cells("r", r);
    wall_specs(r, to_ind(w, a), ind_vec(ab), ind_vec(ac), true, Q(1.0 / 64));
}

// large inclined walls: each vertex in turn is the extreme one of the bounding box in each direction
static vector<Q> line_point() { vector<Q> p; for (int i = 0; i < 3; i++) p.push_back(Q(i == 0 ? 1.0 / 1024 + 0.0625 : i == 1 ? 0.03125 + 1.0 / 128 : 1.0 / 64)); int k = choose("along", 3); p[k] += in_scaled("a", -31, 31, k < 2 ? -9 : -11); return p; }
HARNESS(rectangle_large) {
    decouple_rounding();
    World w(12, 14, 32); int v = choose("vertex", 4), mir = choose("mirror", 2); double ab0[3] = {mir ? -1.125 : 1.125, 1.0625, 0.4375}, ad0[3] = {mir ? 1.0625 : -1.0625, 1.125, -0.3125}, ab[3], ad[3];
    for (int i = 0; i < 3; i++) { double e[4] = {ab0[i], ad0[i], -ab0[i], -ad0[i]}; ab[i] = e[v]; ad[i] = e[(v + 1) % 4]; }
    vector<Q> a = line_point(), b = plus(a, vec(ab)), c = plus(b, vec(ad)), d = plus(a, vec(ad));
    for (auto& q : {a, b, c, d}) off_border(to_ind(w, q));
    auto r = ss::CalcRectanglePos(fv(a), fv(b), fv(c), fv(d), w.grid, w.tol);
    observe_cells("r", r);
    wall_specs(r, to_ind(w, a), ind_vec(vec(ab)), ind_vec(vec(ad)), false, Q(1.0 / 16));
}
HARNESS(triangle_large) {
    decouple_rounding();
    World w(12, 14, 32); int v = choose("vertex", 3), rot = choose("turn", 4), mir = tier_thorough() ? choose("mirror", 2) : (rot + v) & 1; static const double T[3][3] = {{0, 0, 0}, {1.6875, 0.3125, 0.4375}, {0.6875, 1.6875, -0.3125}}; double p[3][3], ab[3], ac[3];
    for (int i = 0; i < 3; i++) { double x = mir ? T[i][1] : T[i][0], y = mir ? T[i][0] : T[i][1]; for (int k = 0; k < rot; k++) { double t = x; x = -y; y = t; } p[i][0] = x; p[i][1] = y; p[i][2] = T[i][2]; }
    for (int i = 0; i < 3; i++) { ab[i] = p[(v + 1) % 3][i] - p[v][i]; ac[i] = p[(v + 2) % 3][i] - p[v][i]; }
    vector<Q> a = line_point(), b = plus(a, vec(ab)), c = plus(a, vec(ac));
    for (auto& q : {a, b, c}) off_border(to_ind(w, q));
    auto r = ss::CalcTrianglePos(fv(a), fv(b), fv(c), w.grid, w.tol);
    observe_cells("r", r);
    wall_specs(r, to_ind(w, a), ind_vec(vec(ab)), ind_vec(vec(ac)), true, Q(1.0 / 16));
}

// ------------------------------------------------------------------ footprint
static const double ORIS[4][4] = {{1, 0, 0, 0}, {1, 0, 0, 1}, {1, -1, 1, 1}, {0, 0, 0, 2}};
// the recorded body area covers every layer and is the buffered extent of the vertices
static void check_body_area(World& w, const vector<std::pair<int, int>>& cols, const Q& eps, int buf, const vector<V3>& corners) {
    B ar = true; int* a0 = w.s.body_area_[0]; int* a1 = w.s.body_area_[1];
    for (auto& q : cols) { bool in = q.first >= a0[0] && q.first < a0[1] && q.second >= a1[0] && q.second < a1[1]; if (!in) ar = ar && !present(w.s.body_, 0, q.first, q.second) && !present(w.s.body_, 2, q.first, q.second); }
    check("foot", ar, "a body layer lies outside the body area");
    for (int d = 0; d < 2; d++) {
        int half = d ? w.grid.half_length_y_ : w.grid.half_length_x_; int* a = d ? a1 : a0;
        check("foot", B(a[0] >= 1 && a[1] <= 2 * half && a[0] < a[1]), "the body area is not inside the grid");
        B lo = false, hi = false, loc = true, hic = true;   // buffered bounding box, rounded, clamped
        for (auto& c : corners) { lo = lo || c.c[d] - Q(buf) <= Q(a[0]) + Q(0.5) + eps; loc = loc && c.c[d] - Q(buf) >= Q(a[0]) - Q(0.5) - eps; hi = hi || c.c[d] + Q(buf) >= Q(a[1]) - Q(0.5) - eps; hic = hic && c.c[d] + Q(buf) <= Q(a[1]) + Q(0.5) + eps; }
        check("foot", lo && (loc || B(a[0] == 1)), "the lower limit of the body area is not the buffered extent of the body");
        check("foot", hi && (hic || B(a[1] == 2 * half)), "the upper limit of the body area is not the buffered extent of the body");
    }
}
static void check_footprint(World& w, const ss::SimOut& pre, const vector<Wall>& walls, const Q& eps, int buf, const vector<V3>& corners, bool border) {
    // coverage of a symbolic point of each wall
    Q u = in_scaled("u", 0, 64, -6), v = in_scaled("v", 0, 64, -6);
    B cov = true, only = true; 
    vector<std::pair<int, int>> cols; for (int x = 0; x < w.nx(); x++) for (int y = 0; y < w.ny(); y++) { bool any = false; for (int k = 0; k < 4; k++) if (!plain0(w.s.body_[k][x][y])) any = true; if (any) cols.push_back({x, y}); }
    for (auto& wl : walls) {
        bool tri = wl.off.size() == 3; V3 p = wl.a; Q uu = u, vv = v; B dom = tri ? u + v <= Q(1) : B(true);
        size_t l = tri ? 2 : 3; for (int i = 0; i < 3; i++) p.c[i] += Q(wl.off[0][i]) + uu * Q(mpq_class(wl.off[1][i] - wl.off[0][i])) + vv * Q(mpq_class(wl.off[l][i] - wl.off[0][i]));
        B c = false;
        for (auto& q : cols) {
            B lay = false; for (int k = 0; k < 4; k += 2) { if (plain0(w.s.body_[k][q.first][q.second]) && plain0(w.s.body_[k + 1][q.first][q.second])) continue;
                lay = lay || (p.c[2] >= Q(w.s.body_[k][q.first][q.second]) * Q(8) + Q(w.grid.half_length_z_ - 1) - eps && p.c[2] <= Q(w.s.body_[k + 1][q.first][q.second]) * Q(8) + Q(w.grid.half_length_z_ - 1) + eps); }
            c = c || (lay && p.c[0] >= Q(q.first) - Q(0.5) - eps && p.c[0] <= Q(q.first) + Q(0.5) + eps && p.c[1] >= Q(q.second) - Q(0.5) - eps && p.c[1] <= Q(q.second) + Q(0.5) + eps);
        }
        cov = cov && implies(dom, c);
    }
    check("foot", cov, "a part of the body is in no body layer");
    // a column holding a layer is crossed by a wall, and the layer lies within the heights of the body
    for (auto& q : cols) {
        B any = false; for (auto& wl : walls) any = any || crosses(wl, q.first, q.second, Q(0), Q(0), eps, true);
        only = only && implies(present(w.s.body_, 0, q.first, q.second) || present(w.s.body_, 2, q.first, q.second), any);
        for (int k = 0; k < 4; k += 2) { Q b0 = Q(w.s.body_[k][q.first][q.second]) * Q(8) + Q(w.grid.half_length_z_ - 1), b1 = Q(w.s.body_[k + 1][q.first][q.second]) * Q(8) + Q(w.grid.half_length_z_ - 1);
            B lo = false, hi = false; for (auto& c : corners) { lo = lo || b0 >= c.c[2] - Q(1) - eps; hi = hi || b1 <= c.c[2] + Q(1) + eps; }
            only = only && implies(present(w.s.body_, k, q.first, q.second), lo && hi && b0 < b1); }
    }
    check("foot", only, "a body layer is present where no wall of the body is");
    if (border) {   // nothing outside the bounding box of the vertices
        B in = true; vector<Q> mn(3), mx(3); for (int i = 0; i < 3; i++) { Q p0 = corners[0].c[i]; mpq_class lo = 0, hi = 0; for (auto& c : corners) { mpq_class d = qconst(c.c[i] - p0); if (d < lo) lo = d; if (d > hi) hi = d; } mn[i] = p0 + Q(lo); mx[i] = p0 + Q(hi); }
        for (auto& q : cols) for (int k = 0; k < 4; k += 2) { Q b0 = Q(w.s.body_[k][q.first][q.second]) * Q(8) + Q(w.grid.half_length_z_ - 1), b1 = Q(w.s.body_[k + 1][q.first][q.second]) * Q(8) + Q(w.grid.half_length_z_ - 1);
            in = in && implies(present(w.s.body_, k, q.first, q.second), Q(q.first) - Q(0.5) >= mn[0] && Q(q.first) + Q(0.5) <= mx[0] && Q(q.second) - Q(0.5) >= mn[1] && Q(q.second) + Q(0.5) <= mx[1] && b0 >= mn[2] && b1 <= mx[2]); }
        check("foot", in, "a body with its vertices on cell borders occupies a cell outside its bounding box");
    }
    check_body_area(w, cols, eps, buf, corners);
    B rest = true; for (int x = 0; x < w.nx(); x++) for (int y = 0; y < w.ny(); y++) rest = rest && cell_same(pre, w.s, x, y, false);
    check("foot", rest && B(pre.body_soil_pos_.size() == w.s.body_soil_pos_.size()) && B(std::memcmp(pre.relax_area_, w.s.relax_area_, sizeof pre.relax_area_) == 0), "computing the body position changes the terrain or the soil");
}
template <typename T> static void footprint(vector<vector<double>> ref, double width, bool blade) {
    decouple_rounding();
    // border: every vertex lies on cell borders and the tolerance moves it to the inner side
    int kind = choose("border", 4); bool border = kind == 1; int far = kind >= 2 ? 5 - 2 * kind : 0; if (border) { ref = {{0, 0, 0}, {0, 0, -0.5}, {blade ? 0.25 : 0.5, 0, blade ? 0.25 : -0.25}}; width = 0.5; }
    // far: near the borders of the grid, where the body area is cut at the limits of the grid
    World w(border ? 5 : far ? 8 : 6, border ? 5 : far ? 10 : 8, border ? 8 : 32); w.tol = F32(border ? 1.0 / 32 : 0.0); int o = choose("ori", 4), buf = far ? 4 : 2;
    auto f3 = [](const vector<double>& v) { return vector<F32>{F32(v[0]), F32(v[1]), F32(v[2])}; };
    T body(f3({0, 0, 0}), f3(ref[0]), f3(ref[1]), f3(ref[2]), F32(width));
    vector<F32> ori; for (int i = 0; i < 4; i++) ori.push_back(F32(ORIS[o][i]));
    // the body is translated along a line through the cell: one symbolic parameter, a set of lines
    static const int LN[14][6] = {{1, 10, 23, 2, 0, 0}, {17, 1, 9, 0, 2, 0}, {27, 21, 1, 0, 0, 2}, {1, 3, 5, 2, 1, 1}, {61, 2, 40, -1, 2, -1}, {33, 60, 2, 1, -1, 2},
        {65, 10, 23, 2, 0, 0}, {17, 65, 9, 0, 2, 0}, {27, 21, 65, 0, 0, 2}, {40, 3, 70, 1, 2, 1}, {1, 70, 100, 2, -2, -2}, {90, 80, 10, -2, 1, 0}, {50, 30, 60, 1, 0, 2}, {5, 44, 77, 0, 1, -1}};
    vector<Q> pos;
    if (border) for (int i = 0; i < 3; i++) pos.push_back(in_scaled("p" + S(i), -1, 1, i < 2 ? -2 : -3) + Q(i < 2 ? 0.125 : 0));
    else { int ln = choose("line", far ? param("far_lines", 2, 8) : param("lines", 8, 14)); Q t = in_int("t", 0, 31);
        for (int i = 0; i < 3; i++) pos.push_back((Q(LN[ln][i]) + Q(LN[ln][i + 3]) * t) * Q(i < 2 ? 1.0 / 512 : 1.0 / 1024) + Q(1.0 / (i == 0 ? 1024 : 2048)) + Q(i < 2 ? 0.0625 : 0) + Q(i < 2 ? far * (i ? 1.5 : 1.0) : 0.0)); }  // never on a cell border
    // previous pose: stale layers in the old body area, soil somewhere
    int ax = border ? 8 : 9, ay = border ? 9 : 12; w.s.body_area_[0][0] = 3; w.s.body_area_[0][1] = ax; w.s.body_area_[1][0] = 4; w.s.body_area_[1][1] = ay;
    w.s.body_[0][3][4] = F32(1.0); w.s.body_[1][3][4] = F32(1.5); w.s.body_[2][ax - 1][ay - 1] = F32(-1.0); w.s.body_[3][ax - 1][ay - 1] = F32(-0.5); w.s.body_[0][5][7] = F32(2.0); w.s.body_[1][5][7] = F32(2.5); w.s.body_[2][5][7] = F32(-2.5); w.s.body_[3][5][7] = F32(-2.0);
    w.s.terrain_[5][5] = F32(0.5); w.s.body_soil_[0][3][4] = F32(1.5); w.s.body_soil_[1][3][4] = F32(1.75);
    ss::SimOut pre = w.s; ss::SimParam par(F32(0.85), 3, buf);
    ss::CalcBodyPos(&w.s, fv(pos), ori, w.grid, &body, par, w.tol);
    for (int x = 0; x < w.nx(); x++) for (int y = 0; y < w.ny(); y++) if (!bare(w.s, x, y)) observe_cell(w, x, y);
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) observe_int("ba" + S(i) + S(j), w.s.body_area_[i][j]);
    // independent geometry: rotated reference points, shifted by half the width along the side normal
    vector<vector<Q>> p; vector<Q> q; for (int i = 0; i < 4; i++) q.push_back(Q(ORIS[o][i]));
    for (auto& r : ref) p.push_back(qrot(q, {Q(r[0]), Q(r[1]), Q(r[2])}));
    double e1[3], e2[3]; for (int i = 0; i < 3; i++) { e1[i] = mpq_class(qconst(p[1][i]) - qconst(p[0][i])).get_d(); e2[i] = mpq_class(qconst(p[2][i]) - qconst(p[0][i])).get_d(); }
    double c[3] = {e1[1] * e2[2] - e1[2] * e2[1], e1[2] * e2[0] - e1[0] * e2[2], e1[0] * e2[1] - e1[1] * e2[0]}, n = std::sqrt(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]);
    auto corner = [&](int k, int s) { vector<Q> v; for (int i = 0; i < 3; i++) v.push_back(p[k][i] + Q(c[i] / n * width * 0.5 * s)); return v; };   // relative to pos
    V3 ip = to_ind(w, pos); auto off = [&](const vector<Q>& v) { return ind_vec(v); };
    vector<V3> corners; vector<Wall> walls; vector<Q> z = {Q(0), Q(0), Q(0)};
    vector<vector<Q>> cr; for (int k = 0; k < 3; k++) for (int s = 1; s >= -1; s -= 2) cr.push_back(corner(k, s));     // jr jl br bl tr tl
    if (!blade) {
        walls = {wall_of(ip, {off(cr[2]), off(cr[3]), off(cr[5]), off(cr[4])}), wall_of(ip, {off(cr[2]), off(cr[3]), off(cr[1]), off(cr[0])}), wall_of(ip, {off(cr[0]), off(cr[2]), off(cr[4])}), wall_of(ip, {off(cr[1]), off(cr[3]), off(cr[5])})};
        for (auto& v : cr) corners.push_back(at(ip, off(v), Q(1)));
    } else {
        // back face: one cell along the normal of the blade (right ankle, left ankle, left base)
        double u[3], v[3]; for (int i = 0; i < 3; i++) { u[i] = mpq_class(qconst(cr[1][i]) - qconst(cr[0][i])).get_d(); v[i] = mpq_class(qconst(cr[3][i]) - qconst(cr[0][i])).get_d(); }
        double m[3] = {u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]}, k = std::sqrt(m[0] * m[0] + m[1] * m[1] + m[2] * m[2]);
        vector<vector<Q>> bk; for (auto& a : cr) bk.push_back({a[0] + Q(m[0] / k * 0.25), a[1] + Q(m[1] / k * 0.25), a[2] + Q(m[2] / k * 0.25)});
        for (auto* g : {&cr, &bk}) { auto& a = *g; walls.push_back(wall_of(ip, {off(a[2]), off(a[3]), off(a[1]), off(a[0])})); walls.push_back(wall_of(ip, {off(a[4]), off(a[5]), off(a[1]), off(a[0])})); for (auto& x : a) corners.push_back(at(ip, off(x), Q(1))); }
    }
    // with a tolerance, vertices are moved inside by tol * (sum of three edges)
    check_footprint(w, pre, walls, border ? Q(0.3125) : Q(1.0 / 256), buf, corners, border);
}
// turned and tilted poses in which one vertex alone is the extreme one in a horizontal direction
struct Turn { int q[4]; double gap; };
static void offsets(const int* q, const double (*ref)[3], double width, bool blade, double out[12][3]) {
    double n = 0; for (int i = 0; i < 4; i++) n += (double)q[i] * q[i]; double a = q[0], b = q[1], c = q[2], d = q[3], p[3][3];
    double R[3][3] = {{a * a + b * b - c * c - d * d, 2 * (b * c + a * d), 2 * (b * d - a * c)}, {2 * (b * c - a * d), a * a - b * b + c * c - d * d, 2 * (c * d + a * b)}, {2 * (b * d + a * c), 2 * (c * d - a * b), a * a - b * b - c * c + d * d}};
    for (int k = 0; k < 3; k++) for (int i = 0; i < 3; i++) { p[k][i] = 0; for (int j = 0; j < 3; j++) p[k][i] += R[i][j] / n * ref[k][j]; }
    auto unit = [](const double* o, const double* u, const double* v, double* r) { double e[3], f[3]; for (int i = 0; i < 3; i++) { e[i] = u[i] - o[i]; f[i] = v[i] - o[i]; } r[0] = e[1] * f[2] - e[2] * f[1]; r[1] = e[2] * f[0] - e[0] * f[2]; r[2] = e[0] * f[1] - e[1] * f[0]; double l = std::sqrt(r[0] * r[0] + r[1] * r[1] + r[2] * r[2]); for (int i = 0; i < 3; i++) r[i] /= l; };
    double m[3]; unit(p[0], p[1], p[2], m); for (int k = 0; k < 3; k++) for (int s = 0; s < 2; s++) for (int i = 0; i < 3; i++) out[2 * k + s][i] = p[k][i] + m[i] * width * (s ? -0.5 : 0.5);
    if (blade) { unit(out[0], out[1], out[3], m); for (int k = 0; k < 6; k++) for (int i = 0; i < 3; i++) out[6 + k][i] = out[k][i] + 0.25 * m[i]; }
}
static const Turn& extreme_pose(int corner, int dir, const double (*ref)[3], double width, bool blade) {
    static std::map<int, Turn> memo; int key = corner * 4 + dir + 100 * blade; auto it = memo.find(key); if (it != memo.end()) return it->second;
    Turn best{{1, 0, 0, 0}, -1}; int q[4]; for (q[0] = 1; q[0] <= 3; q[0]++) for (q[1] = -3; q[1] <= 3; q[1]++) for (q[2] = -3; q[2] <= 3; q[2]++) for (q[3] = -3; q[3] <= 3; q[3]++) {
        double o[12][3]; offsets(q, ref, width, blade, o); double sg = dir & 1 ? -1 : 1, mine = sg * o[corner][dir / 2], next = -1e9; for (int k = 0; k < (blade ? 12 : 6); k++) if (k != corner) next = std::max(next, sg * o[k][dir / 2]);
        bool plain = true; for (int k = 0; k < (blade ? 12 : 6); k++) for (int j = 0; j < k; j++) for (int i = 0; i < 3; i++) if (std::fabs(o[k][i] - o[j][i]) < 1e-3) plain = false;   // no edge along an axis
        if (plain && mine - next > best.gap + 1e-6) { best.gap = mine - next; std::copy(q, q + 4, best.q); }
    }
    return memo[key] = best;
}
template <typename T> static void footprint_turn(bool blade) {
    decouple_rounding();
    static const double BUCKET[3][3] = {{0, 0, 0}, {0.125, 0, -0.5}, {0.625, 0, -0.375}}, BLADE[3][3] = {{0, 0, 0}, {0.0625, 0, -0.375}, {0.0625, 0, 0.4375}}; auto ref = blade ? BLADE : BUCKET; double width = 0.625;
    int f = choose("corner", blade ? 12 : 6), dir = choose("dir", 4); const Turn& t = extreme_pose(f, dir, ref, width, blade); if (t.gap < 0.046875) return;
    World w(9, 11, 24); vector<vector<F32>> pts; for (int k = 0; k < 3; k++) pts.push_back({F32(ref[k][0]), F32(ref[k][1]), F32(ref[k][2])}); T body({F32(0.0), F32(0.0), F32(0.0)}, pts[0], pts[1], pts[2], F32(width));
    vector<Q> pos = {Q(0.0625 + 1.0 / 1024), Q(-0.1875 + 1.0 / 2048), Q(0.375 + 1.0 / 512)}; pos[dir / 2] += blade && !tier_thorough() ? in_scaled("t", 0, 7, -5) : in_scaled("t", 0, 15, -6); vector<F32> ori; for (int i = 0; i < 4; i++) ori.push_back(F32((double)t.q[i]));
    ss::SimOut pre = w.s; int buf = 2 + (f & 1); ss::SimParam par(F32(0.85), 3, buf); ss::CalcBodyPos(&w.s, fv(pos), ori, w.grid, &body, par, w.tol);
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) observe_int("ba" + S(i) + S(j), w.s.body_area_[i][j]);
    // exact vertices (the side normal up to rounding)
    vector<Q> q; for (int i = 0; i < 4; i++) q.push_back(Q(t.q[i])); double o[12][3]; offsets(t.q, ref, width, blade, o); V3 ip = to_ind(w, pos); vector<V3> corners; for (int k = 0; k < (blade ? 12 : 6); k++) corners.push_back(at(ip, ind_vec({Q(o[k][0]), Q(o[k][1]), Q(o[k][2])}), Q(1)));
    vector<std::pair<int, int>> cols; for (int x = 0; x < w.nx(); x++) for (int y = 0; y < w.ny(); y++) { bool any = false; for (int k = 0; k < 4; k++) if (!plain0(w.s.body_[k][x][y])) any = true; if (any) cols.push_back({x, y}); }
    if (!tier_thorough()) { check_body_area(w, cols, Q(1.0 / 128), buf, corners); reach("turned"); return; }
    vector<Wall> walls; auto off = [&](int k) { return ind_vec({Q(o[k][0]), Q(o[k][1]), Q(o[k][2])}); };
    if (!blade) walls = {wall_of(ip, {off(2), off(3), off(5), off(4)}), wall_of(ip, {off(2), off(3), off(1), off(0)}), wall_of(ip, {off(0), off(2), off(4)}), wall_of(ip, {off(1), off(3), off(5)})};
    else for (int g = 0; g < 12; g += 6) { walls.push_back(wall_of(ip, {off(g + 2), off(g + 3), off(g + 1), off(g)})); walls.push_back(wall_of(ip, {off(g + 4), off(g + 5), off(g + 1), off(g)})); }
    check_footprint(w, pre, walls, Q(1.0 / 32), buf, corners, false); reach("turned");
}
HARNESS(bucket_turn) { footprint_turn<ss::Bucket>(false); }
HARNESS(blade_turn) { footprint_turn<ss::Blade>(true); }
HARNESS(bucket) { footprint<ss::Bucket>({{0, 0, 0}, {0.015625, 0, -0.375}, {0.4375, 0, -0.28125}}, 0.421875, false); }
HARNESS(blade) { footprint<ss::Blade>({{0, 0, 0}, {0, 0, -0.375}, {0.03125, 0, 0.28125}}, 0.421875, true); }
