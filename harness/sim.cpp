// Whole-simulator entry points: initial terrain, result files and simulation steps.
#include "common.hpp"
typedef vector<Q> VQ;
static vector<F32> fv(const VQ& v) { vector<F32> r; for (auto& x : v) r.push_back(f32(x)); return r; }
static vector<F32> v3(double a, double b, double c) { return {F32(a), F32(b), F32(c)}; }

// ------------------------------------------------------------------ C24
// terrain of any grid, amplitude and first random draws; the rest of the state is arbitrary and dirty
HARNESS(init) {
    static const int G[6][2] = {{1, 2}, {6, 4}, {3, 1}, {1, 140}, {2, 5}, {9, 11}}; int g = choose("grid", param("grids", 4, 6)); World w(G[g][0], G[g][1], 16);
    int zero = choose("zero", 2); Q amp = zero ? Q(0) : in_scaled("amp", -384, 384, -6);
    rng_policy(256, param("draws", 1, 1), 0); ss::SoilDynamics sim;
    for (int x = 0; x < w.nx(); x++) for (int y = 0; y < w.ny(); y++) w.s.terrain_[x][y] = F32(0.3);
    w.s.body_[0][1][1] = F32(0.5); w.s.body_[1][1][1] = F32(0.75); w.s.body_soil_[0][1][1] = F32(0.75); w.s.body_soil_[1][1][1] = f32(hz("soil", 6, 9)); w.s.body_soil_pos_.push_back(ss::body_soil{0, 1, 1, F32(0.0), F32(0.0), F32(0.0), F32(0.25)});
    w.s.relax_area_[0][0] = 1; w.s.body_area_[1][1] = 2; ss::SimOut pre = w.s; rng_record();
    sim.Init(&w.s, w.grid, f32(amp));
    Q a = split(amp < Q(0)) ? -amp : amp, lim = qfloor(a * Q(8) + Q(0.5)) * CZ(); B mult = true, bound = true, flat = true; bool fin = true;
    for (int x = 0; x < w.nx(); x++) for (int y = 0; y < w.ny(); y++) {
        observe("t" + S(x) + "." + S(y), w.s.terrain_[x][y]); if (is_special(w.s.terrain_[x][y])) { fin = false; continue; }
        Q t(w.s.terrain_[x][y]); mult = mult && eq(qfloor(t * Q(8)), t * Q(8)); bound = bound && t <= lim && -t <= lim; flat = flat && eq(t, Q(0));
    }
    check("init", B(fin), "a cell of the initial terrain is not finite");
    check("init", mult, "a cell of the initial terrain is not a multiple of the cell height"); check("init", bound, "a cell of the initial terrain exceeds the noise amplitude");
    if (zero) check("init", flat, "zero noise amplitude does not give a flat terrain");
    ss::SimOut rest = w.s; rest.terrain_ = pre.terrain_; check("init", state_same(pre, rest) && B(rest.equilibrium_ == pre.equilibrium_), "initialisation changes more than the terrain");
    // the same random draws give the same terrain, whatever the previous state
    World v(G[g][0], G[g][1], 16); rng_replay(); ss::SoilDynamics sim2; sim2.Init(&v.s, v.grid, f32(amp)); bool ok = rng_replay_end();
    B eqt = true; for (int x = 0; x < w.nx(); x++) for (int y = 0; y < w.ny(); y++) if (!same(w.s.terrain_[x][y], v.s.terrain_[x][y])) { if (is_special(w.s.terrain_[x][y]) || is_special(v.s.terrain_[x][y])) eqt = false; else eqt = eqt && eq(Q(w.s.terrain_[x][y]), Q(v.s.terrain_[x][y])); }
    check("init", B(ok) && eqt, "the initial terrain depends on more than the random draws");
}
// ------------------------------------------------------------------ C25
static string num5(int k) { string s = S(k); return string(5 - s.size(), '0') + s; }
typedef vector<vector<F32>> Pts;
struct Rows { vector<vector<F32>> r; vector<vector<F64>> z; };
// exactly these lines after the header
static B rows_are(const FileOut& f, const vector<vector<F32>>& pts) {
    if (f.rows.size() != pts.size() + 1) return false; B ok = true;
    for (size_t i = 0; i < pts.size(); i++) { if (f.rows[i + 1].size() != 3) return false; for (int k = 0; k < 3; k++) ok = ok && file_cell_is(f.rows[i + 1][k], pts[i][k]); }
    return ok;
}
static bool header(const FileOut& f) { return f.rows.size() > 0 && f.rows[0].size() == 3 && f.rows[0][0].text == "x" && f.rows[0][1].text == "y" && f.rows[0][2].text == "z"; }
static int g_first = 0;   // numbers below are taken
// the file was created under the first number free for it and its mate; returns the number or -1
static int first_free(const FileOut& f, const string& base, const string& mate = "") {
    if (f.name.size() != base.size() + 10 || f.name.compare(0, base.size() + 1, base + "_") || f.name.substr(f.name.size() - 4) != ".csv") return -1;
    for (int k = 0; k < g_first + 8; k++) { string n = base + "_" + num5(k) + ".csv"; if (n == f.name) return f.existed || f.append ? -1 : k; if (!file_preexisted(f.dir + "/" + n) && (mate.empty() || !file_preexisted(f.dir + "/" + mate + "_" + num5(k) + ".csv"))) return -1; }
    return -1;
}
static bool in_results(const FileOut& f) { return f.dir.size() >= 7 && f.dir.substr(f.dir.size() - 7) == "results"; }
static const FileOut* pick(const vector<FileOut>& fs, const string& base) { const FileOut* r = nullptr; for (auto& f : fs) if (f.name.compare(0, base.size() + 1, base + "_") == 0) r = &f; return r; }
// terrain rows: every cell once, in any order; soil rows: the top of every layer present
static void check_soil_files(World& w, const ss::SimOut& pre, size_t expect) {
    auto fs = files_written(); check("write", B(fs.size() == expect), "unexpected number of result files");
    const FileOut* t = pick(fs, "terrain"); const FileOut* b = pick(fs, "body_soil");
    check("write", B(t && b), "the terrain or the body soil file is missing"); if (!t || !b) return;
    int n = first_free(*t, "terrain", "body_soil"); check("write", B(n >= 0 && in_results(*t)), "the terrain file is not created at the first free number");
    check("write", B(n >= 0 && b->name == "body_soil_" + num5(n) + ".csv" && b->dir == t->dir && !b->append && !b->existed), "the body soil file does not have the number of the terrain file, or replaces a file");
    check("write", B(header(*t) && header(*b)), "a result file has no header line");
    Pts tp, bp; for (int x = 0; x < w.nx(); x++) for (int y = 0; y < w.ny(); y++) {
        tp.push_back({w.grid.vect_x_[x], w.grid.vect_y_[y], pre.terrain_[x][y]});
        for (int ind = 0; ind < 4; ind += 2) if (split(present(pre.body_soil_, ind, x, y))) bp.push_back({w.grid.vect_x_[x], w.grid.vect_y_[y], pre.body_soil_[ind + 1][x][y]});
    }
    check("write", rows_are(*t, tp), "the terrain file does not list every cell with its position and height");
    if (pre.body_soil_pos_.empty()) check("write", B(b->rows.size() == 2), "no dummy point is written when there is no body soil");
    else check("write", rows_are(*b, bp), "the body soil file does not list the top of every soil layer");
}
template <class T> static void check_body_file(T& body, const string& base, const Pts& e, size_t expect) {
    auto fs = files_written(); check("write", B(fs.size() == expect), "unexpected number of result files"); const FileOut* f = pick(fs, base);
    check("write", B(f != nullptr), "the body file is missing"); if (!f) return;
    check("write", B(first_free(*f, base) >= 0 && in_results(*f) && header(*f)), "the body file is not created at the first free number"); check("write", rows_are(*f, e), "the body file does not list the corners of the walls");
}
template <class T> static Pts wall_points(T& body, bool blade) {
    auto [jr, jl, br, bl, tr, tl] = ss::CalcBodyCornerPos(body.pos_, body.ori_, &body);
    if (blade) return {br, bl, jl, jr, jr, jl, tl, tr};
    return {br, tr, jr, jr, jl, bl, br, br, tr, tl, bl, bl, tl, jl};
}
static const double QS[4][4] = {{1, 0, 0, 0}, {1, 0, 0, 1}, {1, -1, 1, 1}, {1, 2, 2, 4}};
template <class T> static void place(T& b) { int o = choose("ori", 4); for (int i = 0; i < 4; i++) b.ori_[i] = F32(QS[o][i]); for (int i = 0; i < 3; i++) b.pos_[i] = f32(in_scaled("pos" + S(i), -128, 128, -5)); }
static void soil_state(World& w) {
    int recs = choose("soil", 3); w.s.terrain_[0][0] = f32(hz("t0", -64, 64)); w.s.terrain_[w.nx() - 1][w.ny() - 1] = f32(hz("t1", -64, 64)); w.s.terrain_[1][2] = F32(-0.375);
    if (recs) { column(w, 2, 1, "c", ColOpt{30, -8, 8, 4, true, -1, 0}); if (recs == 2) { w.s.body_soil_[2][0][w.ny() - 1] = f32(hz("u", -4, 4)); w.s.body_soil_[3][0][w.ny() - 1] = f32(hz("v", -4, 4)); } w.s.body_soil_pos_.push_back(ss::body_soil{2, 0, w.ny() - 1, F32(0.0), F32(0.0), F32(0.0), F32(0.125)}); }
}
HARNESS(write_soil) {
    file_reset(); g_first = 0; file_policy_max_existing(3); World w(1, 2, 16); soil_state(w); ss::SimOut pre = w.s;
    ss::WriteSoil(&w.s, w.grid); check_soil_files(w, pre, 2); check("write", state_same(pre, w.s), "writing modifies the state"); reach(pre.body_soil_pos_.empty() ? "none" : "soil");
}
HARNESS(write_body) {
    file_reset(); g_first = 0; file_policy_max_existing(3); int blade = choose("blade", 2); F32 wd = f32(in_scaled("width", 1, 32, -4));
    ss::Bucket bu(v3(0, 0, 0), v3(0.25, 0.125, 0), v3(0, 0.125, -0.75), v3(0.5, 0.5, -0.5), wd); ss::Blade bl(v3(0, 0, 0), v3(0.25, 0.125, 0), v3(0, 0.125, -0.75), v3(0.5, 0.5, -0.5), wd);
    if (blade) { place(bl); auto p = bl.pos_, o = bl.ori_; ss::WriteBody(&bl); check_body_file(bl, "blade", wall_points(bl, true), 1); bool s = true; for (int i = 0; i < 3; i++) s = s && same(p[i], bl.pos_[i]); check("write", B(s), "writing moves the body"); }
    else { place(bu); auto p = bu.pos_, o = bu.ori_; ss::WriteBody(&bu); check_body_file(bu, "bucket", wall_points(bu, false), 1); bool s = true; for (int i = 0; i < 3; i++) s = s && same(p[i], bu.pos_[i]); check("write", B(s), "writing moves the body"); }
    reach(blade ? "blade" : "bucket");
}
// many previous results: the number grows to five digits
HARNESS(write_many) {
    static const int N[11] = {9, 10, 11, 99, 100, 101, 999, 1000, 1001, 9999, 10000}; int n = N[choose("previous", param("previous", 9, 11))], kind = choose("kind", 3); file_reset(); file_policy_max_existing(1); file_policy_taken(n); g_first = n; World w(1, 1, 16); ss::SimOut pre = w.s;
    if (kind == 0) { w.s.terrain_[1][2] = f32(hz("t", -8, 8)); pre = w.s; ss::WriteSoil(&w.s, w.grid); check_soil_files(w, pre, 2); }
    else if (kind == 1) { place(w.body); ss::WriteBody(&w.body); check_body_file(w.body, "bucket", wall_points(w.body, false), 1); }
    else { ss::Blade b(v3(0, 0, 0), v3(0, 0, 0), v3(0, 0, -0.5), v3(0.5, 0, -0.5), F32(0.5)); place(b); ss::WriteBody(&b); check_body_file(b, "blade", wall_points(b, true), 1); }
    reach("many");
}
// both files of one time step, twice: the second call uses the next numbers
HARNESS(write_all) {
    file_reset(); g_first = 0; file_policy_max_existing(1); World w(1, 1, 16); place(w.body); w.s.terrain_[2][0] = f32(hz("t", -16, 16)); ss::SoilDynamics sim; ss::SimOut pre = w.s; int blade = choose("blade", 2);
    ss::Blade bl(v3(0, 0, 0), v3(0, 0, 0), v3(0, 0, -0.5), v3(0.5, 0, -0.5), F32(0.5)); bl.pos_ = w.body.pos_; bl.ori_ = w.body.ori_; string base = blade ? "blade" : "bucket";
    auto write = [&] { if (blade) sim.WriteOutputs(&w.s, w.grid, &bl); else sim.WriteOutputs(&w.s, w.grid, &w.body); };
    write(); check_soil_files(w, pre, 3); if (blade) check_body_file(bl, base, wall_points(bl, true), 3); else check_body_file(w.body, base, wall_points(w.body, false), 3);
    write(); auto fs = files_written(); std::set<string> names; bool fresh = true; for (auto& f : fs) { if (!names.insert(f.dir + "/" + f.name).second || f.existed || f.append) fresh = false; }
    check("write", B(fs.size() == 6 && fresh), "a second write replaces results"); check("write", state_same(pre, w.s), "writing modifies the state");
    bool next = true; for (const char* b : {"terrain", "body_soil", blade ? "blade" : "bucket"}) { vector<int> n; for (auto& f : fs) if (f.name.compare(0, string(b).size() + 1, string(b) + "_") == 0) n.push_back(atoi(f.name.substr(f.name.size() - 9, 5).c_str())); if (n.size() != 2 || n[0] == n[1]) next = false; else { int lo = std::min(n[0], n[1]), hi = std::max(n[0], n[1]); for (int k = lo + 1; k < hi; k++) if (!file_preexisted(fs[0].dir + "/" + b + "_" + num5(k) + ".csv") && (b[0] != 't' || !file_preexisted(fs[0].dir + "/body_soil_" + num5(k) + ".csv")) && (string(b) != "body_soil" || !file_preexisted(fs[0].dir + "/terrain_" + num5(k) + ".csv"))) next = false; } }
    check("write", B(next), "the second write does not use the next free number");
}

// ------------------------------------------------------------------ C27
static bool same_pose(const ss::Body& a, const ss::Body& b) { for (int i = 0; i < 3; i++) if (!same(a.pos_[i], b.pos_[i])) return false; for (int i = 0; i < 4; i++) if (!same(a.ori_[i], b.ori_[i])) return false; return true; }
static void union_area(ss::SimOut& s) { for (int d = 0; d < 2; d++) { s.impact_area_[d][0] = std::min(s.body_area_[d][0], s.relax_area_[d][0]); s.impact_area_[d][1] = std::max(s.body_area_[d][1], s.relax_area_[d][1]); } }
// the phases of a step, in order
template <class T> static bool reference_step(ss::SimOut& s, const vector<F32>& pos, const vector<F32>& ori, const ss::Grid& g, T* b, const ss::SimParam& p, F32 tol, int* its) {
    *its = 0; if (!ss::CheckBodyMovement(pos, ori, g, b)) return false;
    ss::CalcBodyPos(&s, pos, ori, g, b, p, tol); ss::UpdateBodySoil(&s, pos, ori, g, b, tol); ss::MoveIntersectingCells(&s, g, b, tol); s.equilibrium_ = false;
    while (!s.equilibrium_ && *its < p.max_iterations_) {
        ++*its; union_area(s); ss::RelaxTerrain(&s, g, b, p, tol);
        for (int a = (int)s.body_soil_pos_.size() - 1; a > 0; a--) { std::uniform_int_distribution<int> dist(0, a); int k = dist(ss::rng); std::swap(s.body_soil_pos_[a], s.body_soil_pos_[k]); }
        ss::RelaxBodySoil(&s, g, b, p, tol);
    }
    return true;
}
static const double SHAPE[3][3] = {{0, 0, 0}, {0, 0, -0.5}, {0.5, 0, -0.5}};
template <class T> static T make_body() { return T(v3(0, 0, 0), v3(0, 0, 0), v3(0, 0, -0.5), v3(0.5, 0, -0.5), F32(0.5)); }
static const double POSES[6][4] = {{0, 0.0625, 0.5625, 0}, {0, 0.0625, 0.4375, 0}, {-0.0625, 0, 0.6875, 1}, {0.25, 0.1875, 0.5, 0}, {0.0625, -0.25, 0.5, 2}, {0, 0, 0.75, 3}};
static vector<F32> pose_ori(int k) { return {F32(POSES[k][3] == 3 ? 2.0 : 1.0), F32(0.0), F32(0.0), F32(POSES[k][3] == 1 ? 1.0 : POSES[k][3] == 2 ? -1.0 : 0.0)}; }
static vector<F32> pose_pos(int k) { return v3(POSES[k][0], POSES[k][1], POSES[k][2]); }
// soil on a body layer of the column, with its record at the pose of the body
static bool put_soil(World& w, ss::Body& b, int x, int y, int ind, const string& n, int records) {
    if (plain0(w.s.body_[ind][x][y]) && plain0(w.s.body_[ind + 1][x][y])) return false; World v = w; v.body.pos_ = b.pos_; v.body.ori_ = b.ori_; Q base(w.s.body_[ind + 1][x][y]), h(0);
    for (int i = 0; i < records; i++) { Q d = hz(n + "." + S(i), 1, param("soil_high", 3, 6)); h += d; auto e = frame_pos(v, x, y, base); w.s.body_soil_pos_.push_back(ss::body_soil{ind, x, y, f32(e[0]), f32(e[1]), f32(e[2]), f32(d)}); }
    w.s.body_soil_[ind][x][y] = f32(base); w.s.body_soil_[ind + 1][x][y] = f32(base + h); return true;
}
static const int CELLS[8][2] = {{3, 4}, {4, 4}, {4, 5}, {5, 5}, {2, 4}, {4, 3}, {5, 3}, {3, 6}};
static void raise(World& w, int n, int at, long lo, long hi) { for (int i = 0; i < n; i++) { int k = (at + 3 * i) & 7; w.s.terrain_[CELLS[k][0]][CELLS[k][1]] = f32(hz("t" + S(i), lo, hi)); } }
static void area_of_step(const ss::SimOut& pre, const ss::SimOut& s, const ss::SimOut& ref, int its) { if (!wants("uarea")) return;
    check("uarea", B(!its || std::memcmp(s.impact_area_, ref.impact_area_, sizeof s.impact_area_) == 0), "the active area of an iteration is not the union of the body area and the relaxation area of the previous one");
    bool in = true; for (int d = 0; d < 2; d++) if (its && (s.impact_area_[d][0] > s.body_area_[d][0] || s.impact_area_[d][1] < s.body_area_[d][1])) in = false; check("uarea", B(in), "the active area of a step does not cover the body area");
    if (its == 1) { bool ok = true; for (int d = 0; d < 2; d++) if (s.impact_area_[d][0] != std::min(s.body_area_[d][0], pre.relax_area_[d][0]) || s.impact_area_[d][1] != std::max(s.body_area_[d][1], pre.relax_area_[d][1])) ok = false; check("uarea", B(ok), "the active area of a step is not the union of the body area and the relaxation area"); }
}
template <class T> static void step() {
    World w(4, 5, 24); T b = make_body<T>(); ss::SimParam par(F32(0.85), tier_thorough() ? choose("limit", 4) : 1 + choose("limit", 2), 2); ss::SoilDynamics sim; int at = choose("at", 8);
    int first = choose("first", 2), k = tier_thorough() ? choose("pose", 6) : at % 3, draws = tier_thorough() ? choose("draws", 2) : at == 1; rng_policy(0, 0);
    static const int MODE[3] = {0, 2, 3}; int mode = MODE[at % 3];   // draws beyond the arbitrary ones: all highest, all lowest, varying
    if (!tier_thorough() && at == 2 && par.max_iterations_ == 1) par.max_iterations_ = 0; if (!tier_thorough() && at == 0 && par.max_iterations_ == 2) par.max_iterations_ = 3;
    for (int x = 3; x < 6; x++) w.s.terrain_[x][4] = F32(0.125);
    w.s.equilibrium_ = at % 2 == 0;   // what the previous step reported
    if (!first) { ss::CalcBodyPos(&w.s, fv({Q(-0.25), Q(0.0), Q(0.8125)}), fv({Q(1), Q(0), Q(0), Q(0)}), w.grid, &b, par, w.tol); b.pos_ = v3(-0.25, 0, 0.8125); b.ori_ = pose_ori(0); }
    raise(w, param("cells", 2, 3), at, param("low", -1, -2), param("high", 4, 10));
    if (!first) { int n = tier_thorough() ? choose("soil", 3) : choose("soil", 2) * (1 + at % 2); if (n) for (int ind = 0; ind < 4; ind += 2) if (put_soil(w, b, 4, 5, ind, "s" + S(ind), n)) break; if (n == 2) for (int ind = 0; ind < 4; ind += 2) if (put_soil(w, b, 3, 5, ind, "q" + S(ind), 1)) break; }
    auto pos = pose_pos(k), ori = pose_ori(k); ss::SimOut pre = w.s, ref = w.s; T rb = b; int w0 = warnings(), its = 0; rng_record(); rng_policy(draws ? 3 : 0, draws ? param("random", 1, 3) : 0, mode);
    bool r = sim.Step(&w.s, pos, ori, w.grid, &b, par, w.tol); int dw = warnings() - w0; rng_replay();
    bool e = reference_step(ref, pos, ori, w.grid, &rb, par, w.tol, &its); bool drawn = rng_replay_end();
    observe_int("r", r); observe_int("its", its); for (int x = 0; x < w.nx(); x++) for (int y = 0; y < w.ny(); y++) observe("t" + S(x) + "." + S(y), w.s.terrain_[x][y]);
    check("step", B(r == e), "the step does not report whether it was performed");
    // an implementation drawing its random numbers differently is only comparable when all draws are the same
    if (drawn || (!draws && mode == 0)) check("step", state_same(ref, w.s) && B(ref.equilibrium_ == w.s.equilibrium_), "the step differs from its phases performed in order up to equilibrium or the iteration limit");
    check("step", B(same_pose(b, rb)), "the step does not record the new pose");
    if (dw == 0) check_mass("step", pre, w.s);
    if (drawn || (!draws && mode == 0)) area_of_step(pre, w.s, ref, its); reach("its " + S(its));
}
HARNESS(step_bucket) { step<ss::Bucket>(); }
HARNESS(step_blade) { step<ss::Blade>(); }
// a tilted body with an overhanging wall: carried soil ends below the other layer and is pushed out within the same step
template <class T> static void step_tilt() {
    World w(10, 8, 32); T b(v3(0, 0, 0), v3(0, 0, 0), v3(0, 0, -1), v3(1.375, 0, -1), F32(0.5)); ss::SoilDynamics sim; ss::SimParam par(F32(0.85), choose("iterations", 2), 2); rng_policy(0, 0);
    static const int TILT[6][3] = {{-7, -3, 1}, {-3, -3, 1}, {-6, -3, 0}, {-7, 1, 1}, {-3, -2, 0}, {0, -3, 0}}; int k = choose("tilt", param("tilts", 4, 6));
    auto ori = [](int t) { return vector<F32>{F32(20.0), F32(0.0), F32((double)t), F32(0.0)}; };
    b.pos_ = v3(0.015625, 0.03125, 1.515625); b.ori_ = ori(TILT[k][0]); ss::CalcBodyPos(&w.s, b.pos_, b.ori_, w.grid, &b, par, w.tol);
    int rows = param("rows", 2, 3); Q h[3]; for (int i = 0; i < 3; i++) h[i] = hz("h" + S(i), 0, 6); World v = w; v.body.pos_ = b.pos_; v.body.ori_ = b.ori_;
    for (int x = 1; x < 20; x++) for (int y = 8; y < 8 + rows; y++) {
        bool p0 = !plain0(w.s.body_[0][x][y]) || !plain0(w.s.body_[1][x][y]), p2 = !plain0(w.s.body_[2][x][y]) || !plain0(w.s.body_[3][x][y]); if (!p0 && !p2) continue;
        int l = p0 && p2 ? (qconst(Q(w.s.body_[2][x][y])) < qconst(Q(w.s.body_[0][x][y])) ? 2 : 0) : p0 ? 0 : 2; Q base(w.s.body_[l + 1][x][y]), t = h[x % 3];
        if (p0 && p2) { Q room = Q(w.s.body_[2 - l][x][y]) - base; if (qconst(room) < mpq_class(1, 2)) continue; }
        w.s.body_soil_[l][x][y] = f32(base); w.s.body_soil_[l + 1][x][y] = f32(base + t); auto e = ss::CalcBodyFramePos(x, y, w.s.body_[l + 1][x][y], w.grid, &b); w.s.body_soil_pos_.push_back(ss::body_soil{l, x, y, e[0], e[1], e[2], f32(t)});
    }
    auto pos = v3(0.015625 + 0.0625 * TILT[k][2], 0.03125, 1.453125), no = ori(TILT[k][0] + TILT[k][1]); ss::SimOut pre = w.s, ref = w.s; T rb = b; int w0 = warnings(), its = 0; rng_record(); w.s.equilibrium_ = ref.equilibrium_ = k % 2 == 0; rng_policy(0, 0, k % 2 ? 3 : 0);
    bool r = sim.Step(&w.s, pos, no, w.grid, &b, par, w.tol); int dw = warnings() - w0; rng_replay(); bool e = reference_step(ref, pos, no, w.grid, &rb, par, w.tol, &its); bool drawn = rng_replay_end();
    observe_int("r", r); for (int x = 0; x < w.nx(); x++) for (int y = 6; y < 11; y++) { observe("t" + S(x) + "." + S(y), w.s.terrain_[x][y]); observe("l" + S(x) + "." + S(y), w.s.body_soil_[1][x][y]); observe("u" + S(x) + "." + S(y), w.s.body_soil_[3][x][y]); }
    check("step", B(r == e), "the step does not report whether it was performed"); if (drawn || k % 2 == 0) check("step", state_same(ref, w.s) && B(ref.equilibrium_ == w.s.equilibrium_), "the step differs from its phases performed in order up to equilibrium or the iteration limit");
    check("step", B(same_pose(b, rb)), "the step does not record the new pose"); if (dw == 0) { check_mass("step", pre, w.s); reach("kept"); } check_conv("step", w.s, CONV_UPPER | CONV_BODY); reach("tilt");
}
HARNESS(tilt_bucket) { step_tilt<ss::Bucket>(); }
HARNESS(tilt_blade) { step_tilt<ss::Blade>(); }
// two and three consecutive steps: the invariants of the state hold after each, from the terrain alone
template <class T> static void history() {
    World w(4, 5, 24); T b = make_body<T>(); ss::SimParam par(F32(0.85), param("iterations", 2, 3), 2); ss::SoilDynamics sim; rng_policy(0, 0);
    for (int x = 3; x < 6; x++) w.s.terrain_[x][4] = F32(0.125);
    raise(w, param("cells", 2, 3), choose("at", 8), -2, 10);
    int k = choose("pose", param("poses", 3, 6)), turn = choose("turn", 2); rng_policy(0, 0, turn ? 3 : 0);
    for (int i = 0; i < param("steps", 2, 3); i++) {
        int p = (k + i * (turn ? 2 : 1)) % 6; auto pos = pose_pos(p), ori = pose_ori(p); ss::SimOut pre = w.s; int w0 = warnings(); T old = b;
        bool r = sim.Step(&w.s, pos, ori, w.grid, &b, par, w.tol); for (int x = 0; x < w.nx(); x++) for (int y = 0; y < w.ny(); y++) observe("t" + S(i) + "." + S(x) + "." + S(y), w.s.terrain_[x][y]);
        if (!r) { check("step", state_same(pre, w.s) && B(same_pose(b, old)), "a skipped step changes the state"); reach("skipped"); continue; }
        if (warnings() == w0) { check_mass("step", pre, w.s); reach("moved " + S(i)); }
        check_records("step", w.s); check_conv("step", w.s);
        // the footprint is that of the new pose alone
        World f(4, 5, 24); T fb = make_body<T>(); fb.pos_ = old.pos_; fb.ori_ = old.ori_; ss::CalcBodyPos(&f.s, pos, ori, w.grid, &fb, par, w.tol); check_bodies_same("step", f.s, w.s);
        if (!w.s.body_soil_pos_.empty()) reach("soil");
    }
    check("step", B(ss::CheckSoil(&w.s, w.tol)), "the soil check rejects the result of a step");
}
HARNESS(history_bucket) { history<ss::Bucket>(); }
HARNESS(history_blade) { history<ss::Blade>(); }
// the same simulation at the centre of a small grid and far from the centre of a long one: the result is the same, shifted
static B same_num(const F32& a, const F32& b) { if (same(a, b)) return true; if (is_special(a) || is_special(b)) return false; return eq(Q(a), Q(b)); }
static B shifted_state(const World& a, const World& b, int ox, int oy, const vector<F32>& shift) {
    B r = true; int X = a.s.terrain_.size(), Y = a.s.terrain_[0].size();
    for (int x = 0; x < X; x++) for (int y = 0; y < Y; y++) { r = r && same_num(a.s.terrain_[x][y], b.s.terrain_[x + ox][y + oy]); for (int k = 0; k < 4; k++) r = r && same_num(a.s.body_[k][x][y], b.s.body_[k][x + ox][y + oy]) && same_num(a.s.body_soil_[k][x][y], b.s.body_soil_[k][x + ox][y + oy]); }
    if (a.s.body_soil_pos_.size() != b.s.body_soil_pos_.size()) return false;
    for (size_t i = 0; i < a.s.body_soil_pos_.size(); i++) { auto& p = a.s.body_soil_pos_[i]; auto& q = b.s.body_soil_pos_[i]; if (p.ind != q.ind || p.ii + ox != q.ii || p.jj + oy != q.jj) return false; r = r && same_num(p.h_soil, q.h_soil); }
    return r;
}
template <class T> static void far_away() {
    static const int HX = 8, HY = 9; int axis = choose("axis", 2), far = 140; World a(HX, HY, 24), b(axis ? HX : far, axis ? far : HY, 24); T p = make_body<T>(), q = make_body<T>(); ss::SimParam par(F32(0.85), 2, 2); ss::SoilDynamics sim;
    int half = axis ? HY : HX, off = 2 * (far - half) - 1; int ox = axis ? 0 : off, oy = axis ? off : 0; vector<F32> sh = v3(axis ? 0 : (off - (far - half)) * 0.25, axis ? (off - (far - half)) * 0.25 : 0, 0);
    int at = choose("at", param("at", 3, 8)); for (int i = 0; i < 2; i++) { int k = (at + 3 * i) & 7; a.s.terrain_[CELLS[k][0] + 4][CELLS[k][1] + 4] = f32(hz("t" + S(i), -2, 10)); } for (int x = 0; x < a.nx(); x++) for (int y = 0; y < a.ny(); y++) b.s.terrain_[x + ox][y + oy] = a.s.terrain_[x][y];
    if (!axis) { b.s.relax_area_[0][0] = b.s.impact_area_[0][0] = 1 + ox; b.s.relax_area_[0][1] = b.s.impact_area_[0][1] = 2 * HX + ox; } else { b.s.relax_area_[1][0] = b.s.impact_area_[1][0] = 1 + oy; b.s.relax_area_[1][1] = b.s.impact_area_[1][1] = 2 * HY + oy; }
    static const int K[3][2] = {{3, 1}, {5, 0}, {1, 5}}; int seq = choose("seq", param("seq", 2, 3));
    for (int i = 0; i < 2; i++) {
        auto pos = pose_pos(K[seq][i]), ori = pose_ori(K[seq][i]); ss::SimOut pre = b.s; rng_policy(0, 0, 3); rng_record(); bool r = sim.Step(&a.s, pos, ori, a.grid, &p, par, a.tol);
        auto posb = pos; for (int k = 0; k < 3; k++) posb[k] = posb[k] + sh[k]; rng_policy(0, 0, 3); rng_record(); int w0 = warnings(); bool t = sim.Step(&b.s, posb, ori, b.grid, &q, par, b.tol);
        for (int x = 0; x < a.nx(); x++) for (int y = 0; y < a.ny(); y++) observe("t" + S(i) + "." + S(x) + "." + S(y), b.s.terrain_[x + ox][y + oy]);
        check("step", B(r == t) && shifted_state(a, b, ox, oy, sh), "the step depends on where in the grid it takes place");
        if (warnings() == w0) check_mass("mass", pre, b.s); check_records("rec", b.s); check_conv("conv", b.s); check("eq", B(a.s.equilibrium_ == b.s.equilibrium_), "the equilibrium flag depends on where in the grid the step takes place");
        B foot = true; for (int x = 0; x < a.nx(); x++) for (int y = 0; y < a.ny(); y++) for (int k = 0; k < 4; k++) foot = foot && same_num(a.s.body_[k][x][y], b.s.body_[k][x + ox][y + oy]); check("foot", foot, "the footprint depends on where in the grid the body is");
        bool ar = true; for (int k = 0; k < 2; k++) { ar = ar && a.s.relax_area_[0][k] + ox == b.s.relax_area_[0][k] && a.s.relax_area_[1][k] + oy == b.s.relax_area_[1][k]; check("foot", B(a.s.body_area_[0][k] + ox == b.s.body_area_[0][k] && a.s.body_area_[1][k] + oy == b.s.body_area_[1][k]), "the body area depends on where in the grid the body is"); } check("uarea", B(ar), "the relaxation area depends on where in the grid the step takes place");
        if (!a.s.body_soil_pos_.empty()) reach("soil");
    }
    reach("far");
}
HARNESS(far_bucket) { far_away<ss::Bucket>(); }
HARNESS(far_blade) { far_away<ss::Blade>(); }
