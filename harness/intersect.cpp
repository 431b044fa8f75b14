// Soil intersecting a body layer is moved to available places.
#include "common.hpp"
std::mt19937 soil_simulator::rng;
static const int DX8[8] = {1, -1, 0, 0, 1, 1, -1, -1}, DY8[8] = {0, 0, 1, -1, 1, -1, 1, -1};

static Q lowest(const ss::SimOut& s, const Col& c, int x, int y) { return Q(s.body_[c.lo][x][y]); }
static bool in_grid(World& w, int x, int y) { return x >= 0 && y >= 0 && x < w.nx() && y < w.ny(); }
static void set_area(int a[2][2], int x0, int x1, int y0, int y1) { a[0][0] = x0; a[0][1] = x1; a[1][0] = y0; a[1][1] = y1; }
static bool has_body(const ss::SimOut& s, int x, int y) { for (int k = 0; k < 4; k++) if (!plain0(s.body_[k][x][y])) return true; return false; }
// bottom of the lowest layer, whatever the layout
static B above_bottom(const ss::SimOut& s, int x, int y) {   // terrain above the bottom of a layer
    Q t(s.terrain_[x][y]); return (present(s.body_, 0, x, y) && t > Q(s.body_[0][x][y])) || (present(s.body_, 2, x, y) && t > Q(s.body_[2][x][y]));
}
static B no_terrain_in_body(const ss::SimOut& s, int x0, int x1, int y0, int y1) {
    B r = true; for (int x = x0; x < x1; x++) for (int y = y0; y < y1; y++) if (has_body(s, x, y)) r = r && !above_bottom(s, x, y); return r;
}
static void same_areas(const ss::SimOut& a, const ss::SimOut& b) {
    check("area", B(std::memcmp(a.relax_area_, b.relax_area_, sizeof a.relax_area_) == 0) && B(std::memcmp(a.body_area_, b.body_area_, sizeof a.body_area_) == 0) && B(std::memcmp(a.impact_area_, b.impact_area_, sizeof a.impact_area_) == 0), "moving intersecting soil changes the areas");
}
static void observe_all(World& w) { for (int x = 0; x < w.nx(); x++) for (int y = 0; y < w.ny(); y++) if (!bare(w.s, x, y) || !plain0(w.s.terrain_[x][y])) observe_cell(w, x, y); observe_records(w); observe_int("warn", warnings()); }

// exactly the layers of the body area whose bottom is below the terrain are listed
HARNESS(locate_intersecting) {
    World w(2, 3); int sx = choose("x", 3), sy = choose("y", 3);
    set_area(w.s.body_area_, 1, 4, 2, 5);
    ColOpt o; o.terrain_below = false; o.soil = false; o.tlo = -64; o.thi = 64; o.ext = 48; Col c = column(w, 1 + sx, 2 + sy, "c", o);
    int ox = choose("ox", 5), oy = choose("oy", 7); bool inside = ox >= 1 && ox < 4 && oy >= 2 && oy < 5;
    if (ox != 1 + sx || oy != 2 + sy) { w.s.body_[0][ox][oy] = F32(-1.0); w.s.body_[1][ox][oy] = F32(1.0); } else inside = false;
    ss::SimOut pre = w.s;
    auto r = ss::LocateIntersectingCells(&w.s, w.tol);
    int n[5][7][2] = {}; bool bad = false; observe_int("n", r.size());
    for (auto& v : r) { if (v.size() != 3 || (v[0] != 0 && v[0] != 2) || v[1] < 1 || v[1] >= 4 || v[2] < 2 || v[2] >= 5) bad = true; else n[v[1]][v[2]][v[0] / 2]++; }
    check("inter", B(!bad), "a listed cell is outside the body area");
    for (int x = 1; x < 4; x++) for (int y = 2; y < 5; y++) for (int l = 0; l < 2; l++) {
        bool here = x == 1 + sx && y == 2 + sy;
        B e = here ? B(present(pre.body_, 2 * l, x, y) && Q(pre.terrain_[x][y]) > Q(pre.body_[2 * l][x][y])) : B(inside && x == ox && y == oy && l == 0);
        check("inter", iff(e, B(n[x][y][l] == 1)) && B(n[x][y][l] <= 1), "intersecting terrain not listed exactly once, or listed although it does not intersect");
    }
    check("inter", state_same(pre, w.s), "locating intersecting soil modifies the state");
}

// one intersecting terrain column surrounded by one or two rings of body
HARNESS(inter_near) {
    World w(2, 3); set_area(w.s.body_area_, 1, 4, 2, 5); int x = 2, y = 3;
    ColOpt o; o.terrain_below = false; o.soil = false; o.tlo = -8; o.thi = 8; o.ext = 6; Col c = column(w, x, y, "c", o);
    ss::SimOut pre = w.s; jitter(w, x, y, c, "c");
    auto r = ss::LocateIntersectingCells(&w.s, w.tol); int n[2] = {}; observe_int("n", r.size());
    for (auto& v : r) if (v.size() == 3 && v[1] == x && v[2] == y && (v[0] == 0 || v[0] == 2)) n[v[0] / 2]++;
    for (int l = 0; l < 2; l++) check("inter", iff(present(pre.body_, 2 * l, x, y) && Q(pre.terrain_[x][y]) > Q(pre.body_[2 * l][x][y]), B(n[l] == 1)), "intersecting terrain not listed exactly once, or listed although it does not intersect");
}
HARNESS(body_ring) {
    static const int HX = 2, HY = 3; World w(HX, HY); int cx = 2, cy = 3;
    // surroundings: 0 all bare, 1 full bodies in ring one, 2 full bodies in both rings
    int sc = choose("scen", 3);
    int edge = sc == 2 ? choose("edge", 3) : 0; if (edge == 1) { cx = 1; cy = 1; } if (edge == 2) { cx = 4; cy = 6; }
    ColOpt co; co.layouts = tier_thorough() ? 30 : sc == 0 ? 30 : sc == 1 ? 2 + 16 : 4 + 8; co.terrain_below = false; co.soil_mask = tier_thorough() ? -1 : 0; co.tlo = -8; co.thi = 32; Col cc = column(w, cx, cy, "c", co);
    vector<std::pair<int, int>> spec;
    int a = choose("a", 8), b = (a + 1 + choose("b", param("b", 2, 7))) % 8;
    for (int p = 1; p <= 2; p++) for (int k = 0; k < 8; k++) {
        int x = cx + p * DX8[k], y = cy + p * DY8[k]; if (!in_grid(w, x, y)) continue;
        bool sp = p == 1 ? k == a || k == b : k == a && sc == 2;
        if (sp) { ColOpt o; o.layouts = sc == 2 ? (k == a ? (p == 1 ? 2 : 4) : 8) : k == a ? (tier_thorough() ? 31 : 1 + 4 + 8) : (tier_thorough() ? 30 : 2 + 16); o.soil_mask = 0; column(w, x, y, "n" + S(p) + S(k), o); }
        else if (p <= sc) { w.s.terrain_[x][y] = F32(0.5); w.s.body_[2 * (k & 1)][x][y] = F32(0.5); w.s.body_[2 * (k & 1) + 1][x][y] = F32(1.0); }
    }
    // the remaining cells of the grid: bare, or full bodies (no space anywhere)
    if (edge && choose("none", 2)) for (int x = 0; x < w.nx(); x++) for (int y = 0; y < w.ny(); y++) if (!(x == cx && y == cy) && !has_body(w.s, x, y) && plain0(w.s.terrain_[x][y])) { w.s.body_[0][x][y] = F32(0.0); w.s.body_[1][x][y] = F32(2.0); }
    set_area(w.s.body_area_, 0, w.nx(), 0, w.ny());
    ss::SimOut pre = w.s;
    rng_policy(4, param("draws", 1, 3), 1);
    ss::MoveIntersectingBody(&w.s, w.tol);
    observe_all(w);
    if (warnings() == 0) check_mass("mass", pre, w.s);
    else { check("mass", dmass(pre, w.s) <= Q(0), "soil created"); reach("no space"); }
    check("inter", no_terrain_in_body(w.s, 0, w.nx(), 0, w.ny()), "terrain is left inside the body");
    check_bodies_same("conv", pre, w.s);
    B soil_same = true; for (int x = 0; x < w.nx(); x++) for (int y = 0; y < w.ny(); y++) for (int k = 0; k < 4; k++) if (!same(pre.body_soil_[k][x][y], w.s.body_soil_[k][x][y])) soil_same = soil_same && eq(Q(pre.body_soil_[k][x][y]), Q(w.s.body_soil_[k][x][y]));
    check("rec", soil_same && B(pre.body_soil_pos_.size() == w.s.body_soil_pos_.size()), "moving terrain changes the soil on the body");
    same_areas(pre, w.s);
    B src = above_bottom(pre, cx, cy);
    check("near", implies(!src, state_same(pre, w.s)), "soil moved although nothing intersects");
    Q bot = cc.up >= 0 ? lowest(pre, cc, cx, cy) : Q(pre.body_[cc.lo][cx][cy]);
    check("near", implies(src, eq(Q(w.s.terrain_[cx][cy]), bot)), "the intersecting column does not end at the bottom of the body");
    if (!wants("near")) return;
    // nearest ring first: a farther ring receives soil only if the nearer ones are full
    std::set<std::pair<int, int>> star; star.insert({cx, cy}); B fullsofar = true; bool ok = true; B filled = true;
    for (int p = 1; p <= 8; p++) {
        B got = false, full = true;
        for (int k = 0; k < 8; k++) {
            int x = cx + p * DX8[k], y = cy + p * DY8[k]; if (!in_grid(w, x, y)) continue;
            star.insert({x, y});
            Q d = Q(w.s.terrain_[x][y]) - Q(pre.terrain_[x][y]);
            check("near", d >= Q(0), "terrain was removed from a column that does not intersect");
            got = got || d > Q(0);
            if (!has_body(pre, x, y)) full = false;
            else full = full && !((present(w.s.body_, 0, x, y) && Q(w.s.terrain_[x][y]) < Q(w.s.body_[0][x][y])) && (!present(w.s.body_, 2, x, y) || Q(w.s.terrain_[x][y]) < Q(w.s.body_[2][x][y])))
                        && !(!present(w.s.body_, 0, x, y) && Q(w.s.terrain_[x][y]) < Q(w.s.body_[2][x][y]));
        }
        check("near", implies(got, fullsofar), "soil moved farther although a nearer cell had room");
        fullsofar = fullsofar && full;
    }
    check_only("near", pre, w.s, star);
    if (warnings()) check("mass", fullsofar, "soil was given up although there was room");
}

// two intersecting columns next to each other
HARNESS(body_two_columns) {
    World w(3, 3); int cx = 3, cy = 3, d = choose("dir", 8), nx = cx + DX8[d], ny = cy + DY8[d];
    ColOpt co; co.layouts = tier_thorough() ? 30 : d & 1 ? 2 + 16 : 4 + 8; co.terrain_below = false; co.soil_mask = 0; co.tlo = -8; co.thi = 32; column(w, cx, cy, "c", co);
    ColOpt cn = co; cn.layouts = tier_thorough() ? 30 : d & 2 ? 2 + 8 : 4 + 16; column(w, nx, ny, "n", cn);
    int k = choose("room", 8), rx = cx + DX8[k], ry = cy + DY8[k];
    if (!(rx == nx && ry == ny)) { ColOpt o; o.layouts = 2; o.soil_mask = 0; column(w, rx, ry, "r", o); }
    set_area(w.s.body_area_, 1, 6, 1, 6);
    ss::SimOut pre = w.s;
    rng_policy(4, param("draws", 0, 2), 1);
    ss::MoveIntersectingBody(&w.s, w.tol);
    observe_all(w);
    check_mass("mass", pre, w.s);
    check("inter", no_terrain_in_body(w.s, 0, w.nx(), 0, w.ny()), "terrain is left inside the body");
    check_bodies_same("conv", pre, w.s); check("rec", B(w.s.body_soil_pos_.empty()), "moving terrain creates soil records");
    check("mass", B(warnings() == 0), "soil was given up although there was room");
    same_areas(pre, w.s);
}

// pushed-out terrain, from heights a little off the multiples: the outcome is that of the multiples, up to the tolerance
HARNESS(ring_near) {
    World w(3, 4); const int cx = 3, cy = 4; int open = choose("open", param("opens", 3, 8)), layer = 2 * choose("layer", 2); set_area(w.s.body_area_, 1, 6, 2, 7); rng_policy(0, 0, 3);
    vector<std::pair<int, int>> js; auto body = [&](int x, int y, const Q& lo) { w.s.body_[layer][x][y] = f32(lo); w.s.body_[layer + 1][x][y] = F32(4.0); js.push_back({x, y}); };
    body(cx, cy, hz("b", -10, 4)); Q t = Q(w.s.body_[layer][cx][cy]) + hz("in", 1, 10); w.s.terrain_[cx][cy] = f32(t);
    for (int k = 0; k < 8; k++) { int x = cx + DX8[k], y = cy + DY8[k]; Q g = k == open || k == (open + 3) % 8 ? hz("g" + S(k), 0, 6) : Q(0); w.s.terrain_[x][y] = F32(-1.0); body(x, y, Q(-1) + g); }
    World v = w; for (auto& q : js) { v.s.terrain_[q.first][q.second] = jittered(v.s.terrain_[q.first][q.second], "et"); v.s.body_[layer][q.first][q.second] = jittered(v.s.body_[layer][q.first][q.second], "eb"); }
    ss::MoveIntersectingBody(&w.s, w.tol); rng_policy(0, 0, 3); rng_record(); ss::MoveIntersectingBody(&v.s, v.tol); const Q e(1.0 / 131072); B r = true;
    for (int x = 0; x < w.nx(); x++) for (int y = 0; y < w.ny(); y++) { observe("t" + S(x) + "." + S(y), v.s.terrain_[x][y]); r = r && Q(w.s.terrain_[x][y]) - Q(v.s.terrain_[x][y]) <= e && Q(v.s.terrain_[x][y]) - Q(w.s.terrain_[x][y]) <= e; }
    check("near", r, "rounding changes where displaced terrain goes");
}
// columns without intersection are left alone, wherever their heights are
HARNESS(untouched) {
    World w(1, 2); w.pose(choose("pose", 4)); int x = choose("x", 3), y = 1 + choose("y", 3), near = choose("near", 2); set_area(w.s.body_area_, 0, w.nx(), 0, w.ny());
    ColOpt o; o.tlo = -24; o.thi = 24; o.ext = 12; o.split_rec = !near; Col c = column(w, x, y, "c", o); int ox = x == 1 ? 0 : 1; ColOpt o2; o2.tlo = -24; o2.thi = 24; o2.ext = 12; o2.layouts = 2 << choose("other", 4); o2.soil_mask = 1; column(w, ox, y, "d", o2);
    if (near) jitter(w, x, y, c, "c");
    ss::SimOut pre = w.s; ss::MoveIntersectingCells(&w.s, w.grid, &w.body, w.tol); observe_all(w);
    check("near", state_same(pre, w.s) && B(warnings() == 0), "soil is moved although nothing intersects");
}
// one lateral movement of soil pushed out by the layer above
HARNESS(move_soil) {
    World w(1, 2); int d = choose("dir", 8); w.pose(d & 3); int x0 = 1, y0 = 2, x = x0 + DX8[d], y = y0 + DY8[d];
    ColOpt so; so.layouts = 8 << choose("src", 2); so.soil_mask = 0; so.tlo = -200; so.thi = 200; so.ext = 100; Col sc = column(w, x0, y0, "s", so);
    ColOpt o; o.tlo = -200; o.thi = 200; o.ext = 100; o.soil_mask = param("smask", 1, -1); if (!tier_thorough()) o.soil_mask = choose("soil", 3); Col c = column(w, x, y, "n", o);
    Q h = hz("h", 1, 100); Q base(w.s.body_[sc.lo + 1][x0][y0]), maxh(w.s.body_[sc.up][x0][y0]);
    ss::SimOut pre = w.s; size_t nrec = pre.body_soil_pos_.size();
    auto [ip, xp, yp, hr, wall] = ss::MoveBodySoil(&w.s, sc.lo, x0, y0, f32(maxh), x, y, f32(h), false, w.grid, &w.body, w.tol);
    observe_int("ip", ip); observe_int("xp", xp); observe_int("yp", yp); observe("hr", hr); observe_int("wall", wall); observe_cell(w, x, y); observe_records(w);
    Q left(hr), moved = h - left;
    check("mass", eq(dmass(pre, w.s), moved), "the amount reported as moved did not arrive");
    check("mass", left >= Q(0) && left <= h, "negative amount of soil");
    check_bodies_same("conv", pre, w.s); check_records("rec", w.s); check_new_records("recpos", w, nrec);
    check_only("near", pre, w.s, {{x, y}});
    if (o.soil_mask != 0 || true) { check_conv("conv", w.s, CONV_REST | CONV_UPPER | CONV_BODY); }
    // where it may go
    Q dt = Q(w.s.terrain_[x][y]) - Q(pre.terrain_[x][y]);
    if (c.layout == 0) { check("near", eq(dt, h) && eq(left, Q(0)) && B(!wall), "soil next to an open column does not fall to the terrain"); return; }
    Q b0(pre.body_[c.lo][x][y]), b1(pre.body_[c.lo + 1][x][y]);
    if (c.layout < 3) {
        B under = b0 > base, blocked = !under && b1 >= maxh;
        check("near", iff(under, eq(dt, h)), "soil falls below a body layer exactly when that layer starts above the base of the soil");
        check("near", iff(B(wall), blocked), "a body wall is misdetected");
        check("near", implies(blocked, eq(moved, Q(0)) && state_same(pre, w.s)), "soil passed through a body wall");
        check("near", implies(!blocked, eq(left, Q(0))), "soil not moved although nothing blocks it");
    } else {
        Q cap(pre.body_[c.up][x][y]); Q top = c.soil_lo ? B(true), Q(pre.body_soil_[c.lo + 1][x][y]) : b1;
        // zero-thickness soil at height zero reads as absent, the top is the same
        Q room = cap - top;
        check("near", eq(dt, Q(0)) && B(!wall), "soil between two layers moved elsewhere");
        check("near", implies(h <= room, eq(left, Q(0))) && implies(h > room, eq(moved, room)), "the space between the two layers is not exactly used");
        check("near", implies(left > Q(0), B(ip == c.lo && xp == x && yp == y)), "the search does not continue from the filled column");
    }
}

// the same movement from heights a little off the multiples
HARNESS(move_soil_near) {
    World w(1, 2); int d = tier_thorough() ? choose("dir", 8) : 4; int x0 = 1, y0 = 2, x = x0 + DX8[d], y = y0 + DY8[d];
    ColOpt so; so.layouts = 8 << choose("src", 2); so.soil_mask = 0; so.tlo = -12; so.thi = 12; so.ext = 8; Col sc = column(w, x0, y0, "s", so);
    ColOpt o; o.tlo = -12; o.thi = 12; o.ext = 8; o.soil_min = 1; Col c = column(w, x, y, "n", o); Q h = hz("h", 1, 20);
    World v = w; jitter(v, x0, y0, sc, "s"); jitter(v, x, y, c, "n"); F32 hv = jittered(f32(h), "eh");
    auto a = ss::MoveBodySoil(&w.s, sc.lo, x0, y0, w.s.body_[sc.up][x0][y0], x, y, f32(h), false, w.grid, &w.body, w.tol);
    auto b = ss::MoveBodySoil(&v.s, sc.lo, x0, y0, v.s.body_[sc.up][x0][y0], x, y, hv, false, v.grid, &v.body, v.tol); observe_cell(v, x, y); observe_int("wall", std::get<4>(b));
    const Q e(1.0 / 131072); B r = std::get<4>(a) == std::get<4>(b); auto cl = [&](const F32& p, const F32& q) { r = r && Q(p) - Q(q) <= e && Q(q) - Q(p) <= e; };
    cl(std::get<3>(a), std::get<3>(b)); cl(w.s.terrain_[x][y], v.s.terrain_[x][y]); for (int k = 0; k < 4; k++) cl(w.s.body_soil_[k][x][y], v.s.body_soil_[k][x][y]);
    check("near", r, "rounding changes where displaced soil goes");
}
// soil trapped between two layers, whole pass
HARNESS(trapped) {
    World w(3, 3); int cx = 3, cy = 3; int edge = choose("edge", 3); if (edge == 1) { cx = 0; cy = 2; } if (edge == 2) { cx = 5; cy = 6; }
    int d = choose("dir", 8); w.pose(d & 3);
    int lay = choose("src", 2); bool sup = tier_thorough() ? choose("sup", 2) : d & 1;
    // source column: lower layer with soil reaching into the upper layer
    int lo = lay ? 2 : 0, up = 2 - lo; Q t = hz("t", -8, 8), b0 = t + hz("gap", 0, 8), b1 = b0 + hz("th", 1, 8), u0 = b1 + hz("sep", 1, 8), u1 = u0 + hz("th2", 1, 8);
    w.s.terrain_[cx][cy] = f32(t); w.s.body_[lo][cx][cy] = f32(b0); w.s.body_[lo + 1][cx][cy] = f32(b1); w.s.body_[up][cx][cy] = f32(u0); w.s.body_[up + 1][cx][cy] = f32(u1);
    int nr = 1 + choose("nrec", 2); Q tot(0); for (int i = 0; i < nr; i++) { Q h = hz("h" + S(i), 1, 12); tot += h; add_record(w, lo, cx, cy, h); }
    w.s.body_soil_[lo][cx][cy] = f32(b1); w.s.body_soil_[lo + 1][cx][cy] = f32(b1 + tot);
    if (sup) { Q h = hz("su", 1, 4); w.s.body_soil_[up][cx][cy] = f32(u1); w.s.body_soil_[up + 1][cx][cy] = f32(u1 + h); add_record(w, up, cx, cy, h); }
    // surroundings: walls everywhere, one direction with a chain of one or two columns
    int wl = choose("walls", 3);   // 0 none, 1 walls, 2 two-layer columns without room
    for (int p = 1; p <= 3; p++) for (int k = 0; k < 8; k++) {
        int x = cx + p * DX8[k], y = cy + p * DY8[k]; if (!in_grid(w, x, y)) continue;
        if (k == d && p <= 2) { ColOpt o; o.layouts = p == 1 ? (tier_thorough() ? 31 : wl == 1 ? 8 : wl == 0 ? 16 : 2) : (tier_thorough() ? 1 + 2 + 8 : wl == 1 ? 8 : 1); o.soil_mask = p == 1 && wl == 1 ? choose("soil1", 2) : 0; column(w, x, y, "n" + S(p), o); }
        else if (wl == 1 && p == 1) { w.s.body_[k & 2][x][y] = F32(-4.0); w.s.body_[(k & 2) + 1][x][y] = F32(16.0); w.s.terrain_[x][y] = F32(-4.0); }
        else if (wl == 2) { int l = k & 2; w.s.terrain_[x][y] = F32(-4.0); w.s.body_[l][x][y] = F32(-3.0); w.s.body_[l + 1][x][y] = F32(-2.0); w.s.body_[2 - l][x][y] = F32(-1.0); w.s.body_[3 - l][x][y] = F32(8.0);
            w.s.body_soil_[l][x][y] = F32(-2.0); w.s.body_soil_[l + 1][x][y] = F32(-1.0); add_record(w, l, x, y, Q(1)); }
    }
    set_area(w.s.body_area_, 0, w.nx(), 0, w.ny());
    ss::SimOut pre = w.s; size_t nrec = pre.body_soil_pos_.size();
    rng_policy(4, param("draws", 0, 1), 1);
    ss::MoveIntersectingBodySoil(&w.s, w.grid, &w.body, w.tol);
    observe_all(w);
    Q dm = dmass(pre, w.s);
    if (warnings() == 0) { check("mass", eq(dm, Q(0)), "total soil height changed"); reach("moved"); } else { check("mass", dm <= Q(0), "soil created"); reach("removed"); }
    check("near", implies(b1 + tot <= u0, state_same(pre, w.s)), "soil moved although nothing intersects");
    check("near", implies(b1 + tot > u0, eq(Q(w.s.body_soil_[lo + 1][cx][cy]), u0)), "the intersecting soil is not cut at the bottom of the upper layer");
    check_bodies_same("conv", pre, w.s); check_records("rec", w.s); check_new_records("recpos", w, nrec);
    check_conv("inter", w.s, CONV_REST | CONV_UPPER); same_areas(pre, w.s);
    if (warnings()) {   // nothing may be given up while an open neighbour exists
        bool open = false; for (int k = 0; k < 8; k++) { int x = cx + DX8[k], y = cy + DY8[k]; if (in_grid(w, x, y) && !has_body(pre, x, y)) open = true; }
        check("mass", B(!open), "soil was removed although a neighbouring column is open");
    }
}

// the only free place is several cells away along the longer axis of the grid, or there is none up to the border
// trapped soil with two ways out: the result is that of one way followed by the other, computed independently
namespace {
struct Cell { int x = 0, y = 0, lay = 0, lo = 0; Q t, b, top, ub; bool soil = false; Q st; };   // lay 0 bare, 1 one layer, 2 two layers
struct Gain { Q terr, soil; };
}
HARNESS(trapped_two) {
    World w(3, 3); int cx = 3, cy = 3, lo = choose("src", 2) ? 2 : 0, up = 2 - lo, d = choose("dir", 8), e = (d + (choose("way", 2) ? 3 : 6)) % 8; w.pose(d & 3);
    for (int x = 0; x < w.nx(); x++) for (int y = 0; y < w.ny(); y++) { int l = (x + y) & 1 ? 2 : 0; w.s.body_[l][x][y] = F32(-4.0); w.s.body_[l + 1][x][y] = F32(16.0); w.s.terrain_[x][y] = F32(-4.0); }
    auto clear = [&](int x, int y) { for (int q = 0; q < 4; q++) w.s.body_[q][x][y] = F32(0.0); };
    Q b1 = hz("b1", -4, 4), sep = hz("sep", 1, 6), ex = hz("ex", 1, 12), u0 = b1 + sep; clear(cx, cy); w.s.body_[lo][cx][cy] = f32(b1 - Q(0.5)); w.s.body_[lo + 1][cx][cy] = f32(b1); w.s.body_[up][cx][cy] = f32(u0); w.s.body_[up + 1][cx][cy] = f32(u0 + Q(1));
    w.s.body_soil_[lo][cx][cy] = f32(b1); w.s.body_soil_[lo + 1][cx][cy] = f32(u0 + ex); add_record(w, lo, cx, cy, sep + ex);
    vector<Cell> way[2]; int kind = choose("kind", param("kind", 5, 6)); static const int K[6][2][2] = {{{2, -1}, {1, -1}}, {{2, 1}, {1, -1}}, {{1, -1}, {1, -1}}, {{2, 2}, {1, -1}}, {{2, -1}, {2, 1}}, {{2, 1}, {2, 0}}};
    for (int v = 0; v < 2; v++) for (int p = 1; p <= 2; p++) {
        int lay = K[kind][v][p - 1]; if (lay < 0) break; Cell c; c.x = cx + p * DX8[v ? e : d]; c.y = cy + p * DY8[v ? e : d]; c.lay = lay; c.lo = (p + v) & 1 ? lo : up; string n = "c" + S(v) + S(p); clear(c.x, c.y); c.t = Q(-8); 
        if (lay) { c.b = hz(n + "b", -8, 8); c.top = c.b + hz(n + "th", 1, 8); w.s.body_[c.lo][c.x][c.y] = f32(c.b); w.s.body_[c.lo + 1][c.x][c.y] = f32(c.top); }
        if (lay == 2) { c.ub = c.top + hz(n + "sp", 1, 6); w.s.body_[2 - c.lo][c.x][c.y] = f32(c.ub); w.s.body_[3 - c.lo][c.x][c.y] = f32(c.ub + Q(0.5)); if (p == 1 && kind == 1) { Q sh = hz(n + "so", 1, 6); c.soil = true; c.st = c.top + sh; assume(c.st <= c.ub); w.s.body_soil_[c.lo][c.x][c.y] = f32(c.top); w.s.body_soil_[c.lo + 1][c.x][c.y] = f32(c.st); add_record(w, c.lo, c.x, c.y, sh); } }
        w.s.terrain_[c.x][c.y] = f32(c.t); way[v].push_back(c);
    }
    set_area(w.s.body_area_, 0, w.nx(), 0, w.ny()); ss::SimOut pre = w.s; size_t nrec = pre.body_soil_pos_.size(); rng_policy(4, 0);
    ss::MoveIntersectingBodySoil(&w.s, w.grid, &w.body, w.tol); observe_all(w);
    B good = false; Q lost(0); B gone = false;
    for (int first = 0; first < 2; first++) {
        Q rem = ex; B same = true;
        for (int o = 0; o < 2; o++) {
            int v = o ? 1 - first : first; Q base = b1, mh = u0; bool wall = false;
            for (auto& c : way[v]) {
                Q gt(0), gs(0);
                if (!wall && split(rem > Q(0))) {
                    if (c.lay == 0) { gt = rem; rem = Q(0); }
                    else if (c.lay == 1) { if (split(c.b > base)) { gt = rem; rem = Q(0); } else if (split(c.top >= mh)) wall = true; else { gs = rem; rem = Q(0); } }
                    else { Q room = c.ub - (c.soil ? c.st : c.top); if (split(rem <= room)) { gs = rem; rem = Q(0); } else { gs = room; rem = rem - room; } base = c.top; mh = c.ub; }
                }
                same = same && eq(Q(w.s.terrain_[c.x][c.y]), c.t + gt); Q was = c.soil ? c.st : c.top; if (c.lay) { B pr = present(w.s.body_soil_, c.lo, c.x, c.y); B want = gs > Q(0) || B(c.soil); same = same && iff(want, pr) && implies(pr, eq(Q(w.s.body_soil_[c.lo + 1][c.x][c.y]), was + gs)); }
            }
        }
        B so = same && iff(rem > Q(0), B(warnings() > 0)) && eq(dmass(pre, w.s), -rem); good = good || so;
    }
    Q dm = dmass(pre, w.s); check("mass", dm <= Q(0) && iff(eq(dm, Q(0)), B(warnings() == 0)), "soil was lost without a warning, or created");
    check("near", good, "the trapped soil does not go one way and then the other"); if (warnings()) reach("removed"); else reach("moved");
    check("near", eq(Q(w.s.body_soil_[lo + 1][cx][cy]), u0), "the intersecting soil is not cut at the bottom of the upper layer");
    check_bodies_same("conv", pre, w.s); check_records("rec", w.s); check_new_records("recpos", w, nrec); check_conv("inter", w.s, CONV_REST | CONV_UPPER); same_areas(pre, w.s);
    std::set<std::pair<int, int>> al = {{cx, cy}}; for (auto& v : way) for (auto& c : v) al.insert({c.x, c.y}); check_only("near", pre, w.s, al);
}
HARNESS(trapped_far) {
    int lng = choose("long", 2); World w(lng ? 2 : 5, lng ? 5 : 2); w.pose(lng); int across = choose("across", 2), d = choose("dir", 2) ? 1 : -1, at = choose("at", 3), k = 1 + choose("dist", across ? 3 : 5);
    int pl = at == 0 ? 5 : at == 1 ? 2 : 8, cx = lng ? 2 : pl, cy = lng ? pl : 2; int sx = lng ^ across ? 0 : d, sy = lng ^ across ? d : 0; int lo = choose("src", 2) ? 2 : 0, up = 2 - lo; if (!tier_thorough() && lo != (k & 2)) return;
    for (int x = 0; x < w.nx(); x++) for (int y = 0; y < w.ny(); y++) { int l = (x + y) & 1 ? 2 : 0; w.s.body_[l][x][y] = F32(-4.0); w.s.body_[l + 1][x][y] = F32(16.0); w.s.terrain_[x][y] = F32(-4.0); }
    auto two = [&](int x, int y, int l, const Q& sep) { for (int q = 0; q < 4; q++) w.s.body_[q][x][y] = F32(0.0); w.s.body_[l][x][y] = F32(-3.0); w.s.body_[l + 1][x][y] = F32(-2.0); w.s.body_[2 - l][x][y] = f32(Q(-2.0) + sep); w.s.body_[3 - l][x][y] = F32(8.0); };
    Q sep = hz("sep", 1, 16), ex = hz("extra", 1, 24), t = hz("t", -64, 0); two(cx, cy, lo, sep); Q tot = sep + ex, h0 = hz("h0", 1, 40); assume(h0 <= tot);
    w.s.body_soil_[lo][cx][cy] = F32(-2.0); w.s.body_soil_[lo + 1][cx][cy] = f32(Q(-2.0) + tot); add_record(w, lo, cx, cy, h0); add_record(w, lo, cx, cy, tot - h0);
    bool free = false; int fx = -1, fy = -1; for (int p = 1; p <= 11; p++) {
        int x = cx + p * sx, y = cy + p * sy; if (!in_grid(w, x, y)) break;
        if (p == k) { for (int q = 0; q < 4; q++) w.s.body_[q][x][y] = F32(0.0); w.s.terrain_[x][y] = f32(t); free = true; fx = x; fy = y; break; }
        two(x, y, p & 1 ? 0 : 2, Q(0.25)); int l = p & 1 ? 0 : 2; w.s.body_soil_[l][x][y] = F32(-2.0); w.s.body_soil_[l + 1][x][y] = F32(-1.75); add_record(w, l, x, y, Q(0.25));
    }
    set_area(w.s.body_area_, 0, w.nx(), 0, w.ny()); ss::SimOut pre = w.s; size_t nrec = pre.body_soil_pos_.size(); rng_policy(4, 0, 1);
    ss::MoveIntersectingBodySoil(&w.s, w.grid, &w.body, w.tol); observe_all(w); Q dm = dmass(pre, w.s);
    if (free) { check("mass", B(warnings() == 0) && eq(dm, Q(0)), "soil was removed although a place is free"); check("near", eq(Q(w.s.terrain_[fx][fy]), t + ex), "the soil does not fall on the open column"); reach("far"); }
    else { check("mass", eq(dm, -ex), "soil without a free place is not removed exactly"); check("area", B(warnings() > 0), "soil was removed without a warning"); reach("border"); }
    check("near", eq(Q(w.s.body_soil_[lo + 1][cx][cy]), Q(-2.0) + sep), "the intersecting soil is not cut at the bottom of the upper layer"); (void)up;
    check_bodies_same("conv", pre, w.s); check_records("rec", w.s); check_new_records("recpos", w, nrec); check_conv("inter", w.s, CONV_REST | CONV_UPPER); same_areas(pre, w.s);
}

// terrain in the body: the only room is several cells away along the longer axis or a diagonal of the grid, or there is none
HARNESS(ring_far) {
    int lng = choose("long", 2); World w(lng ? 2 : 5, lng ? 5 : 2); int d = choose("dir", 8), at = choose("at", 3), k = 1 + choose("dist", 6);
    int pl = at == 0 ? 5 : at == 1 ? 2 : 8, cx = lng ? 2 : pl, cy = lng ? pl : 2, fx = cx + k * DX8[d], fy = cy + k * DY8[d]; bool free = in_grid(w, fx, fy); if (!free && d != 2 * lng) return;
    for (int x = 0; x < w.nx(); x++) for (int y = 0; y < w.ny(); y++) { int l = (x + y) & 1 ? 2 : 0; w.s.body_[l][x][y] = F32(0.5); w.s.body_[l + 1][x][y] = F32(1.0); w.s.terrain_[x][y] = F32(0.5); }
    Q ex = hz("extra", 1, 24), t = hz("t", -64, 4), room = hz("room", 1, 24); w.s.terrain_[cx][cy] = f32(Q(0.5) + ex); bool lim = choose("limited", 2);
    if (free) { if (lim) { int l = (fx + fy) & 1 ? 2 : 0; w.s.terrain_[fx][fy] = f32(Q(0.5) - room); (void)l; } else { for (int q = 0; q < 4; q++) w.s.body_[q][fx][fy] = F32(0.0); w.s.terrain_[fx][fy] = f32(t); } }
    set_area(w.s.body_area_, 0, w.nx(), 0, w.ny()); ss::SimOut pre = w.s; rng_policy(4, 0, 1);
    ss::MoveIntersectingBody(&w.s, w.tol); observe_all(w); Q dm = dmass(pre, w.s);
    B fits = free ? (lim ? ex <= room : B(true)) : B(false); check("mass", implies(fits, B(warnings() == 0) && eq(dm, Q(0))), "soil was removed although a place is free"); Q lost = free ? ex - room : ex;
    check("mass", implies(!fits, B(warnings() > 0) && eq(dm, -lost)), "soil without a free place is not removed exactly");
    if (free) check("near", eq(Q(w.s.terrain_[fx][fy]), split(fits) ? Q(pre.terrain_[fx][fy]) + ex : Q(0.5)), "the soil does not arrive at the free place"); reach(free ? "far" : "border");
    check("inter", no_terrain_in_body(w.s, 0, w.nx(), 0, w.ny()), "terrain is left inside the body"); check_bodies_same("conv", pre, w.s); same_areas(pre, w.s);
}

// both movements one after the other
HARNESS(move_both) {
    World w(3, 3); int cx = 3, cy = 3, d = choose("dir", 8); w.pose(d & 3); int x = cx + DX8[d], y = cy + DY8[d];
    int lo = choose("src", 2) ? 2 : 0, up = 2 - lo; Q t = hz("t", -8, 16), b0 = hz("b0", -8, 8), b1 = b0 + hz("th", 1, 8), u0 = b1 + hz("sep", 1, 8), u1 = u0 + hz("th2", 1, 8);
    w.s.terrain_[cx][cy] = f32(t); w.s.body_[lo][cx][cy] = f32(b0); w.s.body_[lo + 1][cx][cy] = f32(b1); w.s.body_[up][cx][cy] = f32(u0); w.s.body_[up + 1][cx][cy] = f32(u1);
    Q h = hz("h", 1, 12); add_record(w, lo, cx, cy, h); w.s.body_soil_[lo][cx][cy] = f32(b1); w.s.body_soil_[lo + 1][cx][cy] = f32(b1 + h);
    ColOpt o; o.layouts = tier_thorough() ? 31 : d & 1 ? 2 : 4; o.terrain_below = false; o.soil_mask = tier_thorough() ? -1 : 0; column(w, x, y, "n", o);
    if (choose("walls", 2)) for (int k = 0; k < 8; k++) if (k != d) { int a = cx + DX8[k], b = cy + DY8[k]; w.s.body_[k & 2][a][b] = F32(-4.0); w.s.body_[(k & 2) + 1][a][b] = F32(16.0); w.s.terrain_[a][b] = F32(-4.0); }
    set_area(w.s.body_area_, 1, 6, 1, 6);
    ss::SimOut pre = w.s; size_t nrec = pre.body_soil_pos_.size();
    rng_policy(4, param("draws", 0, 1), 1);
    ss::MoveIntersectingCells(&w.s, w.grid, &w.body, w.tol);
    observe_all(w);
    Q dm = dmass(pre, w.s);
    if (warnings() == 0) check("mass", eq(dm, Q(0)), "total soil height changed"); else check("mass", dm <= Q(0), "soil created");
    check("inter", no_terrain_in_body(w.s, 0, w.nx(), 0, w.ny()), "terrain is left inside the body");
    check_bodies_same("conv", pre, w.s); check_records("rec", w.s); check_new_records("recpos", w, nrec);
    check_conv("inter", w.s, CONV_REST | CONV_UPPER);
    same_areas(pre, w.s);
}
