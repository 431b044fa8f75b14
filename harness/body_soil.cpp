// Soil carried by the moving body.
#include "common.hpp"
std::mt19937 soil_simulator::rng;
static const double ORI[5][4] = {{1, 0, 0, 0}, {1, 0, 0, 1}, {0, 0, 1, 0}, {1, -1, 0, 0}, {1, 0, 1, 0}};
static vector<F32> fv(const vector<Q>& v) { vector<F32> r; for (auto& q : v) r.push_back(f32(q)); return r; }
static vector<Q> pose_pos(const vector<Q>& pos, int o, const vector<Q>& p) {
    vector<Q> q; for (int i = 0; i < 4; i++) q.push_back(Q(ORI[o][i])); vector<Q> r = qrot(q, p); for (int i = 0; i < 3; i++) r[i] += pos[i]; return r;
}
static Q qabs(const Q& a) { return split(a < Q(0)) ? -a : a; }
// index of the cell closest to a coordinate
static int nearest(const Q& v, int half) { Q k = v * Q(4) + Q(half); for (int i = -1; i <= 2 * half + 1; i++) if (split(k < Q(i) + Q(0.5))) return i; return 2 * half + 2; }

struct Place { int ind = -1, x = 0, y = 0; };
// locations allowed for a record whose base moved from `a` to `b`
static vector<Place> allowed(World& w, const vector<Q>& a, const vector<Q>& b, int& cx, int& cy) {
    Q dx = b[0] - a[0], dy = b[1] - a[1]; int sx = split(dx >= Q(0)) ? 1 : -1, sy = split(dy >= Q(0)) ? 1 : -1;
    bool mainx = split(qabs(dx) > qabs(dy));
    int ox[9][2] = {{0, 0}, {sx, 0}, {sx, sy}, {0, sy}, {sx, -sy}, {0, -sy}, {-sx, sy}, {-sx, 0}, {-sx, -sy}};
    int oy[9][2] = {{0, 0}, {0, sy}, {sx, sy}, {sx, 0}, {-sx, sy}, {-sx, 0}, {sx, -sy}, {0, -sy}, {-sx, -sy}};
    cx = nearest(b[0], w.grid.half_length_x_); cy = nearest(b[1], w.grid.half_length_y_);
    vector<std::pair<Place, Q>> all; 
    for (int k = 0; k < 9; k++) {
        int x = cx + (mainx ? ox[k][0] : oy[k][0]), y = cy + (mainx ? ox[k][1] : oy[k][1]); vector<Place> here;
        for (int l = 0; l < 4; l += 2) {
            if (plain0(w.s.body_[l][x][y]) && plain0(w.s.body_[l + 1][x][y])) continue;
            if (!split(present(w.s.body_, l, x, y))) continue;
            Q d = qabs(b[2] - Q(w.s.body_[l + 1][x][y]));
            if (split(d <= CZ())) here.push_back({l, x, y}); all.push_back({{l, x, y}, d});
        }
        if (!here.empty()) return here;
    }
    vector<Place> best;
    for (auto& p : all) { bool m = true; for (auto& q : all) if (m && split(q.second < p.second)) m = false; if (m) best.push_back(p.first); }
    return best;
}

HARNESS(carry) {
    World w(4, 5); int x0 = 4, y0 = 5;
    int mode = choose("mode", param("mode", 3, 5));   // 0,1: translation; 2: quarter turn; 3,4 tilted poses
    int o0 = mode == 0 ? 0 : mode == 1 ? 1 : mode == 2 ? 0 : mode == 3 ? 3 : 0, o1 = mode == 0 ? 0 : mode == 1 ? 1 : mode == 2 ? 1 : mode == 3 ? 3 : 4;
    // heights of the body surfaces
    int a = choose("a", 9), nb = choose("b", param("b", 2, 10)); static const int off[9][2] = {{0, 0}, {1, 0}, {-1, 0}, {0, 1}, {0, -1}, {1, 1}, {1, -1}, {-1, 1}, {-1, -1}};
    vector<std::pair<int, int>> cells; ColOpt o; o.layouts = mode == 0 ? 2 + 16 : mode == 1 ? 4 : 8; if (tier_thorough()) o.layouts = 30; o.soil_mask = 0; o.tlo = -8; o.thi = 0; o.ext = 12;
    if (nb != 0 || a != 0) { column(w, x0 + off[a][0], y0 + off[a][1], "a", o); cells.push_back({x0 + off[a][0], y0 + off[a][1]}); }
    if (nb > 0) { int k = tier_thorough() ? nb - 1 : (a + 2 * nb) % 9; if (k != a) { ColOpt q = o; q.layouts = mode == 0 ? 4 : 2; column(w, x0 + off[k][0], y0 + off[k][1], "b", q); cells.push_back({x0 + off[k][0], y0 + off[k][1]}); } }
    // poses: the reference point is within one cell of the carried column
    vector<Q> p0, p1, c0 = {Q(w.grid.vect_x_[x0]), Q(w.grid.vect_y_[y0])};
    for (int i = 0; i < 2; i++) p0.push_back(c0[i] + in_scaled("p" + S(i), -16, 16, -6));
    p0.push_back(in_scaled("p2", -32, 32, -6));
    for (int i = 0; i < 2; i++) { int e = mode >= 2 ? 8 : tier_thorough() || ((a + nb) & 1) == i ? 23 : 6; p1.push_back(p0[i] + in_scaled("d" + S(i), -e, e, -6)); }
    p1.push_back(p0[2] + in_scaled("d2", -24, 24, -6));
    w.body.pos_ = fv(p0); for (int i = 0; i < 4; i++) w.body.ori_[i] = F32(ORI[o0][i]);
    // records on the column at the old pose; their layer no longer has to exist
    int nr = tier_thorough() ? 1 + choose("nrec", 2) : nb == 1 && a < 3 ? 2 : 1, lay = tier_thorough() ? choose("lay", 2) * 2 : (a & 1) * 2; Q z = hz("z", -8, 16); Q tot(0); Q top = z;
    vector<Q> hs; vector<vector<Q>> base;
    vector<Q> oc; for (int i = 0; i < 4; i++) oc.push_back(Q(ORI[o0][i]) * Q(i ? -1 : 1));
    for (int i = 0; i < nr; i++) {
        Q h = i == 0 ? hz("h" + S(i), 1, 12) : hz("h" + S(i), 0, 12); hs.push_back(h); tot += h;
        vector<Q> r = qrot(oc, {c0[0] - p0[0], c0[1] - p0[1], z - p0[2]}); base.push_back(r);
        w.s.body_soil_pos_.push_back(ss::body_soil{lay, x0, y0, f32(r[0]), f32(r[1]), f32(r[2]), f32(h)});
    }
    w.s.body_soil_[lay][x0][y0] = f32(z); w.s.body_soil_[lay + 1][x0][y0] = f32(z + tot);
    ss::SimOut pre = w.s; vector<F32> pos = fv(p1), ori; for (int i = 0; i < 4; i++) ori.push_back(F32(ORI[o1][i]));
    ss::UpdateBodySoil(&w.s, pos, ori, w.grid, &w.body, w.tol);
    for (int x = x0 - 3; x <= x0 + 3; x++) for (int y = y0 - 3; y <= y0 + 3; y++) if (!bare(w.s, x, y) || !plain0(w.s.terrain_[x][y])) observe_cell(w, x, y);
    observe_records(w); observe_int("warn", warnings());
    check_mass("mass", pre, w.s); check_records("rec", w.s); check_bodies_same("conv", pre, w.s);
    // no soil where there is no record, soil rests on its layer
    B clean = true, rest = true;
    for (int x = 0; x < w.nx(); x++) for (int y = 0; y < w.ny(); y++) for (int l = 0; l < 4; l += 2) {
        if (!has_rec(w.s, l, x, y)) { if (!plain0(w.s.body_soil_[l][x][y]) || !plain0(w.s.body_soil_[l + 1][x][y])) clean = clean && !present(w.s.body_soil_, l, x, y); }
        else rest = rest && eq(Q(w.s.body_soil_[l][x][y]), Q(w.s.body_[l + 1][x][y])) && present(w.s.body_, l, x, y);
    }
    check("stale", clean, "soil remains on a body layer where no record is left"); check("rest", rest, "carried soil does not rest on a body layer");
    B tsame = true; for (int x = 0; x < w.nx(); x++) for (int y = 0; y < w.ny(); y++) if (!same(pre.terrain_[x][y], w.s.terrain_[x][y])) tsame = tsame && eq(Q(pre.terrain_[x][y]), Q(w.s.terrain_[x][y]));
    reach(warnings() ? "warned" : "carried");
    check("mass", tsame || B(warnings() > 0), "carried soil fell to the terrain without a warning");
    check("pose", eq(Q(w.body.pos_[0]), p1[0]) && eq(Q(w.body.pos_[1]), p1[1]) && eq(Q(w.body.pos_[2]), p1[2]), "the new position of the body is not recorded");
    B oo = true; for (int i = 0; i < 4; i++) oo = oo && eq(Q(w.body.ori_[i]), Q(ORI[o1][i])); check("pose", oo, "the new orientation of the body is not recorded");
    check("pose", B(std::memcmp(pre.relax_area_, w.s.relax_area_, sizeof pre.relax_area_) == 0) && B(std::memcmp(pre.body_area_, w.s.body_area_, sizeof pre.body_area_) == 0), "the areas changed");
    if (!wants("land")) return;
    size_t out = 0;
    for (int i = 0; i < nr; i++) {
        if (i > 0 && split(eq(hs[i], Q(0)))) continue;     // nothing to move
        vector<Q> b = pose_pos(p1, o1, base[i]), a0 = {c0[0], c0[1], z}; int cx, cy; auto al = allowed(w, a0, b, cx, cy);
        if (al.empty()) {
            check("land", B(warnings() > 0) && eq(Q(w.s.terrain_[cx][cy]) - Q(pre.terrain_[cx][cy]), nr > 1 ? tot : hs[i]), "soil without body around its new location is not put on the terrain below with a warning"); reach("terrain"); continue;
        }
        if (out >= w.s.body_soil_pos_.size()) { check("land", false, "a soil record was lost"); return; }
        auto& r = w.s.body_soil_pos_[out++]; bool ok = false; for (auto& p : al) if (p.ind == r.ind && p.x == r.ii && p.y == r.jj) ok = true;
        reach(al.size() > 1 ? "several" : "one");
        check("land", B(ok), "carried soil is not placed on the expected body surface");
        check("land", eq(Q(r.x_b), base[i][0]) && eq(Q(r.y_b), base[i][1]) && eq(Q(r.z_b), base[i][2]), "the body-frame position of carried soil changed");
        check("land", eq(Q(r.h_soil), hs[i]), "the height of carried soil changed");
    }
    check("land", B(out == w.s.body_soil_pos_.size()), "a soil record was duplicated");
}

// order of the search: any two surfaces around the new location, any direction of motion
HARNESS(carry_order) {
    World w(4, 5); int x0 = 4, y0 = 5, a = choose("a", 9), b = choose("b", 9); if (b <= a) return; static const int off[9][2] = {{0, 0}, {1, 0}, {-1, 0}, {0, 1}, {0, -1}, {1, 1}, {1, -1}, {-1, 1}, {-1, -1}};
    Q z = hz("z", -2, 2); int k[2] = {a, b};
    for (int i = 0; i < 2; i++) { Q top = z + hz("top" + S(i), -3, 3); int x = x0 + off[k[i]][0], y = y0 + off[k[i]][1], l = (a + b * i + i) % 2 * 2; w.s.body_[l][x][y] = f32(top - Q(0.75)); w.s.body_[l + 1][x][y] = f32(top); w.s.terrain_[x][y] = F32(-2.0); }
    vector<Q> c0 = {Q(w.grid.vect_x_[x0]), Q(w.grid.vect_y_[y0])}, p0 = {c0[0] - Q(0.03125), c0[1] + Q(0.046875), Q(0.25)}, p1 = p0; for (int i = 0; i < 2; i++) p1[i] += in_scaled("d" + S(i), -7, 7, -6);
    w.body.pos_ = fv(p0); Q h = hz("h", 1, 4); vector<Q> r = {c0[0] - p0[0], c0[1] - p0[1], z - p0[2]}; w.s.body_soil_[0][x0][y0] = f32(z); w.s.body_soil_[1][x0][y0] = f32(z + h); w.s.body_soil_pos_.push_back(ss::body_soil{0, x0, y0, f32(r[0]), f32(r[1]), f32(r[2]), f32(h)});
    ss::SimOut pre = w.s; vector<F32> ori = {F32(1.0), F32(0.0), F32(0.0), F32(0.0)}; ss::UpdateBodySoil(&w.s, fv(p1), ori, w.grid, &w.body, w.tol); observe_records(w);
    check_mass("mass", pre, w.s); check_records("rec", w.s);
    if (!wants("land")) return; int cx, cy; auto al = allowed(w, {c0[0], c0[1], z}, pose_pos(p1, 0, r), cx, cy); bool ok = false;
    if (w.s.body_soil_pos_.size() != 1) { check("land", false, "a soil record was lost or duplicated"); return; } auto& q = w.s.body_soil_pos_[0]; for (auto& p : al) if (p.ind == q.ind && p.x == q.ii && p.y == q.jj) ok = true;
    check("land", B(ok), "carried soil is not placed on the expected body surface"); check("land", eq(Q(q.h_soil), h), "the height of carried soil changed"); reach("order");
}
// heights that are not whole cells (accumulated rounding errors)
HARNESS(carry_height) {
    World w(2, 3); int x0 = 2, y0 = 3, l = 2 * choose("lay", 2);
    Q b0 = hz("b0", -8, 8), b1 = b0 + hz("th", 1, 8); w.s.body_[l][x0][y0] = f32(b0); w.s.body_[l + 1][x0][y0] = f32(b1); w.s.terrain_[x0][y0] = F32(-1.0);
    Q e = in_scaled("err", -50, 50, -13), h = hz("h", 0, 100) + e; assume(h >= Q(0));   // 2^-13 of a unit, up to 5% of a cell
    Q pz = in_scaled("pz", -16, 16, -6); w.body.pos_[2] = f32(pz);
    w.s.body_soil_[l][x0][y0] = f32(b1); w.s.body_soil_[l + 1][x0][y0] = f32(b1 + h);
    w.s.body_soil_pos_.push_back(ss::body_soil{l, x0, y0, w.grid.vect_x_[x0], w.grid.vect_y_[y0], f32(b1 - pz), f32(h)});
    ss::SimOut pre = w.s;
    ss::UpdateBodySoil(&w.s, w.body.pos_, w.body.ori_, w.grid, &w.body, w.tol);
    observe_cell(w, x0, y0); observe_records(w);
    Q k = qfloor(h * Q(8) + Q(0.5)) * CZ();
    if (w.s.body_soil_pos_.empty()) { check("land", h < CZ(), "soil of at least one cell height is lost"); check("stale", !present(w.s.body_soil_, l, x0, y0), "soil remains where no record is left"); return; }
    auto& r = w.s.body_soil_pos_[0];
    check("land", eq(Q(r.h_soil), k), "the height of carried soil is not rounded to whole cells");
    check("mass", near(dmass(pre, w.s), Q(0), CZ() * Q(0.5)), "soil lost or created");
    check_records("rec", w.s);
}
// records of both layers of one column, each with a position of its own, in either order
HARNESS(carry_both) {
    World w(3, 4); int x0 = 3, y0 = 4, ord = choose("order", 2), nr = 2 + choose("more", 2), turn = choose("turn", param("turn", 2, 3)), at = choose("at", 3);
    static const int off[3][2] = {{0, 0}, {1, 0}, {0, -1}}; int x1 = x0 + off[at][0], y1 = y0 + off[at][1];
    vector<Q> c0 = {Q(w.grid.vect_x_[x0]), Q(w.grid.vect_y_[y0])}, p0 = {c0[0] - Q(0.03125), c0[1] + Q(0.046875), Q(0.25)}, p1 = p0; for (int i = 0; i < 2; i++) p1[i] += turn == 1 ? Q(i ? 0.0625 : -0.046875) : in_scaled("d" + S(i), -15, 15, -6); p1[2] += hz("d2", -1, 1);
    Q z[2] = {hz("z0", -4, 4), Q(0)}, g = hz("gap", 4, 12); z[1] = z[0] + g;
    for (int l = 0; l < 2; l++) { Q t = z[l]; w.s.body_[2 * l][x1][y1] = f32(t - Q(0.125)); w.s.body_[2 * l + 1][x1][y1] = f32(t); }
    w.s.terrain_[x1][y1] = F32(-3.0);
    w.body.pos_ = fv(p0); vector<vector<Q>> base, from; vector<Q> hs; vector<int> lay; Q tot[2] = {Q(0), Q(0)};
    for (int i = 0; i < nr; i++) {
        int l = (i + ord) & 1; Q h = hz("h" + S(i), 1, 3); tot[l] += h; lay.push_back(l); hs.push_back(h);
        // the records are not at the centre of the column: they came from different places
        vector<Q> at0 = {c0[0] + Q((i % 3 - 1) * 0.09375), c0[1] + Q((1 - i % 2 * 2) * 0.078125), z[l]}, r = {at0[0] - p0[0], at0[1] - p0[1], at0[2] - p0[2]};
        base.push_back(r); from.push_back(at0); w.s.body_soil_pos_.push_back(ss::body_soil{2 * l, x0, y0, f32(r[0]), f32(r[1]), f32(r[2]), f32(h)});
    }
    for (int l = 0; l < 2; l++) { assume(l == 1 || tot[0] <= g - Q(0.125)); w.s.body_soil_[2 * l][x0][y0] = f32(z[l]); w.s.body_soil_[2 * l + 1][x0][y0] = f32(z[l] + tot[l]); }
    int o1 = turn == 0 ? 0 : turn == 1 ? 1 : 3;
    ss::SimOut pre = w.s; vector<F32> ori; for (int i = 0; i < 4; i++) ori.push_back(F32(ORI[o1][i])); ss::UpdateBodySoil(&w.s, fv(p1), ori, w.grid, &w.body, w.tol); observe_records(w); observe_int("warn", warnings());
    check_mass("mass", pre, w.s); check_records("rec", w.s); 
    if (!wants("land")) return; size_t out = 0;
    for (int i = 0; i < nr; i++) {
        int cx, cy; auto al = allowed(w, from[i], pose_pos(p1, o1, base[i]), cx, cy); if (al.empty()) { check("land", B(warnings() > 0), "soil without body around its new location is kept"); continue; }
        if (out >= w.s.body_soil_pos_.size()) { check("land", false, "a soil record was lost"); return; } auto& r = w.s.body_soil_pos_[out++]; bool ok = false; for (auto& p : al) if (p.ind == r.ind && p.x == r.ii && p.y == r.jj) ok = true;
        check("land", B(ok), "carried soil is not placed on the expected body surface"); reach("both");
        check("land", eq(Q(r.x_b), base[i][0]) && eq(Q(r.y_b), base[i][1]) && eq(Q(r.z_b), base[i][2]), "the body-frame position of carried soil changed"); check("land", eq(Q(r.h_soil), hs[i]), "the height of carried soil changed");
    }
    check("land", B(out == w.s.body_soil_pos_.size()), "a soil record was duplicated");
}
