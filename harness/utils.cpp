// Pose algebra, movement check, diagnostics and construction of the data types.
#include "common.hpp"
typedef vector<Q> VQ;
static vector<F32> fv(const VQ& v) { vector<F32> r; for (auto& x : v) r.push_back(f32(x)); return r; }
static VQ in_vec(const string& n, int k, long lo, long hi, int e) { VQ r; for (int i = 0; i < k; i++) r.push_back(in_scaled(n + S(i), lo, hi, e)); return r; }
static VQ conj(const VQ& q) { return {q[0], -q[1], -q[2], -q[3]}; }
static Q norm2(const VQ& v) { Q r(0); for (auto& x : v) r += x * x; return r; }
static VQ rot_n(const VQ& q, const VQ& p) { VQ r = qmul(qmul(conj(q), {Q(0), p[0], p[1], p[2]}), q); return {r[1], r[2], r[3]}; }   // |q|^2 times the rotated vector
static VQ rot(const VQ& q, const VQ& p) { Q n = norm2(q); VQ r = rot_n(q, p); for (auto& x : r) x = qdiv(x, n); return r; }
// any quaternion with one component of magnitude 2..4 and the others up to 4, times 2^e
static VQ quat_input(int e) {
    int k = choose("dominant", 4), s = choose("sign", 2); VQ q; for (int i = 0; i < 4; i++) { Q x = i == k ? in_scaled("q" + S(i), 16, 32, e - 3) : in_scaled("q" + S(i), -32, 32, e - 3); q.push_back(i == k && s ? -x : x); }
    return q;
}
static void observe_vec(const string& n, const vector<F32>& v) { for (size_t i = 0; i < v.size(); i++) observe(n + S(i), v[i]); }
static bool finite3(const char* tag, const vector<F32>& v, size_t k) { bool ok = v.size() == k; for (auto& x : v) if (is_special(x)) ok = false; check(tag, ok, "a component is NaN, infinite or missing"); return ok; }

// ------------------------------------------------------------------ C17
HARNESS(quat_mul) {
    int sc = -4 * (1 + choose("small", 3)); VQ a = in_vec("a", 4, -256, 256, sc), b = in_vec("b", 4, -256, 256, sc);
    auto r = ss::MultiplyQuaternion(fv(a), fv(b)); observe_vec("r", r);
    if (!finite3("quat", r, 4)) return;
    VQ e = qmul(a, b); B ok = true; for (int i = 0; i < 4; i++) ok = ok && eq(Q(r[i]), e[i]);
    check("quat", ok, "the product of two quaternions is not their Hamilton product");
}
HARNESS(quat_rot) {
    int e = choose("scale", 3) * 2 - 2; VQ q = quat_input(e), p = in_vec("p", 3, -64, 64, -3);
    auto r = ss::CalcRotationQuaternion(fv(q), fv(p)); observe_vec("r", r);
    if (!finite3("quat", r, 3)) return;
    VQ x = rot(q, p); B ok = true; for (int i = 0; i < 3; i++) ok = ok && near(Q(r[i]), x[i], Q(1.0 / 4096));
    check("quat", ok, "the rotated vector is not conj(q) p q / |q|^2");
}
HARNESS(quat_back) {
    int e = choose("scale", 2) * -3; VQ q = quat_input(e), p = in_vec("p", 3, -64, 64, -3);
    auto r = ss::CalcRotationQuaternion(fv(q), fv(p)); auto b = ss::CalcRotationQuaternion(fv(conj(q)), r); observe_vec("b", b);
    if (!finite3("quat", b, 3)) return;
    B ok = true; for (int i = 0; i < 3; i++) ok = ok && near(Q(b[i]), p[i], Q(1.0 / 64));
    check("quat", ok, "rotating by the conjugate quaternion does not undo the rotation");
}
HARNESS(angles) {
    VQ a = in_vec("a", 3, -64, 64, -4); vector<F32> af = fv(a); VQ s, c;
    for (int i = 0; i < 3; i++) { F64 h = F64(af[i]) / F64(2.0); s.push_back(Q(F32(std::sin(h)))); c.push_back(Q(F32(std::cos(h)))); }
    auto r = ss::AngleToQuat(af); observe_vec("r", r);
    if (!finite3("quat", r, 4)) return;
    Q eps(1.0 / 65536);
    VQ e = qmul(qmul({c[0], Q(0), Q(0), s[0]}, {c[1], Q(0), s[1], Q(0)}), {c[2], s[2], Q(0), Q(0)});       // yaw, pitch, roll
    B pos = true, neg = true; for (int i = 0; i < 4; i++) { pos = pos && near(Q(r[i]), e[i], eps); neg = neg && near(Q(r[i]), -e[i], eps); }
    check("quat", pos || neg, "the quaternion of ZYX Euler angles is wrong");
    check("quat", Q(r[0]) >= Q(0), "the scalar part of the quaternion is negative");
}

// two constant angles and one within 1/32 of a centre, whose sine and cosine are known up to 1/32 (|sin x - sin y|, |cos x - cos y| <= |x - y|):
// every combination of signs is realised
HARNESS(angles_near) {
    static const double CT[8] = {-2.75, -1.9375, -0.8125, 0.375, 1.3125, 2.625, 3.5, -3.625}; int nc = param("centres", 7, 8), sy = choose("symbolic", 3); double ct[3]; VQ a; for (int i = 0; i < 3; i++) { ct[i] = CT[choose("centre" + S(i), nc)]; a.push_back(Q(ct[i]) + (i == sy ? in_scaled("a" + S(i), -8, 8, -8) : Q(0))); }
    vector<F32> af = fv(a); VQ s, c;
    for (int i = 0; i < 3; i++) {
        F64 h = F64(af[i]) / F64(2.0); s.push_back(Q(F32(std::sin(h)))); c.push_back(Q(F32(std::cos(h)))); Q e(1.0 / 63);
        if (i == sy) assume(near(s[i], Q(std::sin(ct[i] / 2)), e) && near(c[i], Q(std::cos(ct[i] / 2)), e));
    }
    auto r = ss::AngleToQuat(af); observe_vec("r", r);
    if (!finite3("quat", r, 4)) return;
    Q eps(1.0 / 65536); VQ e = qmul(qmul({c[0], Q(0), Q(0), s[0]}, {c[1], Q(0), s[1], Q(0)}), {c[2], s[2], Q(0), Q(0)});
    B pos = true, neg = true; for (int i = 0; i < 4; i++) { pos = pos && near(Q(r[i]), e[i], eps); neg = neg && near(Q(r[i]), -e[i], eps); }
    check("quat", pos || neg, "the quaternion of ZYX Euler angles is wrong");
    check("quat", Q(r[0]) >= Q(0), "the scalar part of the quaternion is negative");
}

// ------------------------------------------------------------------ C18
HARNESS(frame) {
    int far = choose("far", 3); World w(far == 1 ? 140 : 2, far == 2 ? 140 : 3, 32); int e = choose("scale", 2) * -3; VQ q = quat_input(e), p = in_vec("pos", 3, -256, 256, -6); Q z = hz("z", -64, 64);
    int x = choose("x", 3) * 2, y = choose("y", 3) * 3; if (far == 1) { x += 275; p[0] = p[0] + Q(137 * 0.25); } if (far == 2) { y += 273; p[1] = p[1] + Q(136 * 0.25); }
    w.body.ori_ = fv(q); w.body.pos_ = fv(p);
    auto r = ss::CalcBodyFramePos(x, y, f32(z), w.grid, &w.body); observe_vec("r", r);
    if (!finite3("frame", r, 3)) return;
    auto b = ss::CalcRotationQuaternion(w.body.ori_, r); observe_vec("b", b);
    VQ d = {Q(w.grid.vect_x_[x]) - p[0], Q(w.grid.vect_y_[y]) - p[1], z - p[2]}; B ok = true, ex = true;
    if (finite3("frame", b, 3)) for (int i = 0; i < 3; i++) ok = ok && near(Q(b[i]), d[i], Q(1.0 / 64));
    check("frame", ok, "the body-frame position does not map back to the cell");
    VQ inv = rot(conj(q), d); for (int i = 0; i < 3; i++) ex = ex && near(Q(r[i]), inv[i], Q(1.0 / 4096));
    check("frame", ex, "the position in the body frame is not the inverse rotation of the offset from the body origin");
}

// ------------------------------------------------------------------ C19
static void corner_specs(const vector<vector<F32>>& c, const vector<VQ>& ref, const VQ& half, const Q& eps) {
    B ok = true; for (int k = 0; k < 3; k++) for (int i = 0; i < 3; i++) ok = ok && near(Q(c[2 * k][i]), ref[k][i] + half[i], eps) && near(Q(c[2 * k + 1][i]), ref[k][i] - half[i], eps);
    check("corner", ok, "a corner is not the moved reference point shifted by half the width along the side normal");
}
static vector<vector<F32>> corners(const vector<F32>& pos, const vector<F32>& ori, ss::Body* b) {
    auto [jr, jl, br, bl, tr, tl] = ss::CalcBodyCornerPos(pos, ori, b); vector<vector<F32>> v = {jr, jl, br, bl, tr, tl};
    for (int k = 0; k < 6; k++) observe_vec("c" + S(k), v[k]); return v;
}
static bool all_finite(const char* tag, const vector<vector<F32>>& v) { bool ok = true; for (auto& x : v) for (auto& y : x) if (is_special(y)) ok = false; check(tag, ok, "NaN or infinite corner"); return ok; }
static const double QS[12][4] = {{1, 0, 0, 0}, {1, 0, 0, 1}, {1, -1, 1, 1}, {0, 0, 0, 2}, {0, 1, 0, 0}, {1, 2, 2, 4}, {2, -1, 0, 3}, {-1, 3, 2, -1}, {0.5, 0.5, -0.5, 0.5}, {4, 1, 0, 0}, {3, 0, -2, 0}, {5, 1, -1, 2}};
static void cross(const double* a, const double* b, double* c) { c[0] = a[1] * b[2] - a[2] * b[1]; c[1] = a[2] * b[0] - a[0] * b[2]; c[2] = a[0] * b[1] - a[1] * b[0]; }
// every reference shape, orientation from a list, symbolic position and width
HARNESS(corners) {
    static const double SH[4][3][3] = {{{0, 0, 0}, {0, 0, -0.5}, {0.5, 0, -0.5}}, {{0.25, 0.125, 0}, {0, 0.125, -0.75}, {0.5, 0.5, -0.5}}, {{0, 0, 0}, {0.375, 0.25, -0.25}, {-0.5, 0.125, 0.625}}, {{1, 2, 3}, {1, 2.5, 2}, {1.5, 2.25, 2.5}}};
    static const double OR[2][3] = {{0, 0, 0}, {0.5, -0.25, 1}};
    int k = choose("shape", 4), o = choose("origin", 2), t = choose("ori", 12); VQ pos = in_vec("pos", 3, -512, 512, -6); Q width = in_scaled("width", 1, 128, -5); bool blade = choose("blade", 2);
    auto d3 = [](const double* v) { return vector<F32>{F32(v[0]), F32(v[1]), F32(v[2])}; };
    vector<F32> pf = fv(pos), of; for (int i = 0; i < 4; i++) of.push_back(F32(QS[t][i]));
    ss::Bucket bu(d3(OR[o]), d3(SH[k][0]), d3(SH[k][1]), d3(SH[k][2]), f32(width)); ss::Blade bl(d3(OR[o]), d3(SH[k][0]), d3(SH[k][1]), d3(SH[k][2]), f32(width));
    auto c = corners(pf, of, blade ? (ss::Body*)&bl : (ss::Body*)&bu); if (!all_finite("corner", c)) return;
    VQ q; for (int i = 0; i < 4; i++) q.push_back(Q(QS[t][i])); vector<VQ> ref; double r[3][3];
    for (int v = 0; v < 3; v++) { VQ p; for (int i = 0; i < 3; i++) p.push_back(Q(SH[k][v][i]) - Q(OR[o][i])); p = qrot(q, p); for (int i = 0; i < 3; i++) { r[v][i] = qconst(p[i]).get_d(); p[i] += pos[i]; } ref.push_back(p); }
    double a[3], b[3], n[3]; for (int i = 0; i < 3; i++) { a[i] = r[1][i] - r[0][i]; b[i] = r[2][i] - r[0][i]; } cross(a, b, n);
    double l = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]); VQ half; for (int i = 0; i < 3; i++) half.push_back(Q(n[i] / l * 0.5) * width);
    corner_specs(c, ref, half, Q(1.0 / 8192));
}
// symbolic turn about an axis: the corners follow the rotation for every quaternion of the plane
HARNESS(corners_turn) {
    int ax = choose("axis", 3), k = choose("dominant", 2), sg = choose("sign", 2); Q big = in_scaled("q0", 16, 32, -3), oth = in_scaled("q1", -32, 32, -3); if (sg) big = -big;
    VQ q = {k ? oth : big, Q(0), Q(0), Q(0)}; q[1 + ax] = k ? big : oth;
    VQ pos = in_vec("pos", 3, -64, 64, -5); static const double SH[3][3] = {{0, 0, 0}, {0, 0, -0.5}, {0.5, 0, -0.5}};
    auto d3 = [&](int k) { return vector<F32>{F32(SH[k][0]), F32(SH[k][1]), F32(SH[k][2])}; };
    ss::Bucket b({F32(0.0), F32(0.0), F32(0.0)}, d3(0), d3(1), d3(2), F32(0.5));
    // side normal of the reference shape: e1 x e2 = (0, -1/4, 0), unit (0, -1, 0); it turns with the body
    VQ half = rot(q, {Q(0), Q(-0.25), Q(0)}); vector<VQ> ref; for (int k = 0; k < 3; k++) ref.push_back(rot(q, {Q(SH[k][0]), Q(SH[k][1]), Q(SH[k][2])}));
    auto c = corners(fv(pos), fv(q), &b); if (!all_finite("corner", c)) return;
    B ok = true, par = true; Q eps(1.0 / 1024);
    for (int k = 0; k < 3; k++) for (int i = 0; i < 3; i++) {
        ok = ok && near((Q(c[2 * k][i]) + Q(c[2 * k + 1][i])) * Q(0.5), ref[k][i] + pos[i], eps);
        par = par && near((Q(c[2 * k][i]) - Q(c[2 * k + 1][i])) * Q(0.5), half[i], eps);
    }
    check("corner", ok, "the midpoint of a corner pair is not the moved reference point");
    check("corner", par, "right and left corners are not one width apart along the side normal");
}
HARNESS(normal) {
    int pl = choose("plane", 4); static const int PL[4][9] = {{1, 1, 1, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 1, 1, 1, 0, 0, 0}, {0, 1, 0, 1, 0, 1, 0, 0, 1}, {0, 0, 0, 1, 0, 1, 0, 1, 1}};
    static const int DF[9] = {1, 0, -1, 0, 2, 1, 1, 0, 2}; VQ v; for (int i = 0; i < 9; i++) v.push_back(PL[pl][i] ? in_scaled("v" + S(i), -4, 4, -1) : Q(DF[i] * 0.5));
    VQ a = {v[0], v[1], v[2]}, b = {v[3], v[4], v[5]}, c = {v[6], v[7], v[8]}, e, f; for (int i = 0; i < 3; i++) { e.push_back(b[i] - a[i]); f.push_back(c[i] - a[i]); }
    VQ x = {e[1] * f[2] - e[2] * f[1], e[2] * f[0] - e[0] * f[2], e[0] * f[1] - e[1] * f[0]}; Q n2 = norm2(x); assume(n2 >= Q(1.0 / 16)); sqrt_hint(Q(0.25));
    auto r = ss::CalcNormal(fv(a), fv(b), fv(c)); observe_vec("r", r);
    if (!finite3("corner", r, 3)) return;
    Q len(std::sqrt(f64(n2))); B ok = true; for (int i = 0; i < 3; i++) ok = ok && near(Q(r[i]) * len, x[i], Q(1.0 / 1024) * len);
    check("corner", ok, "the normal is not the unit vector along the cross product of the edges");
}

// ------------------------------------------------------------------ C20
// corners of the reference body under quarter turns are exact; distances are compared through their squares
static VQ exact_corner(int o, int k, int s) {
    static const double SH[3][3] = {{0, 0, 0}, {0, 0, -0.5}, {0.5, 0, -0.5}}; VQ q; for (int i = 0; i < 4; i++) q.push_back(Q(QS[o][i]));
    VQ p = {Q(SH[k][0]), Q(-0.25 * s), Q(SH[k][2])}; return qrot(q, p);
}
static const double CELL[3][2] = {{0.25, 0.125}, {0.25, 0.25}, {0.5, 0.0625}};
HARNESS(movement) {
    int g = choose("cells", 3); ss::Grid grid(F32(1.0), F32(1.5), F32(2.0), F32(CELL[g][0]), F32(CELL[g][1])); Q mc(std::min(CELL[g][0], CELL[g][1]));
    int o0 = choose("ori0", param("ori", 2, 5)), o1 = choose("ori1", param("ori", 2, 5)); int what = choose("axes", 4); bool diff = o0 != o1;
    VQ p0 = in_vec("p", 3, -64, 64, -5), d; for (int i = 0; i < 3; i++) d.push_back(what == 3 || what == i ? in_scaled("d" + S(i), -160, 160, -7) : Q(i == 1 ? 0.0 : 0.015625));
    VQ p1; for (int i = 0; i < 3; i++) p1.push_back(p0[i] + d[i]);
    Q lo = Q(0.5) * mc, hi = Q(2) * mc, dl(1.0 / 4194304); for (auto& t : {lo, hi}) { sqrt_hint(t); sqrt_hint(t - dl); sqrt_hint(t + dl); }
    ss::Bucket b({F32(0.0), F32(0.0), F32(0.0)}, {F32(0.0), F32(0.0), F32(0.0)}, {F32(0.0), F32(0.0), F32(-0.5)}, {F32(0.5), F32(0.0), F32(-0.5)}, F32(0.5));
    b.pos_ = fv(p0); for (int i = 0; i < 4; i++) b.ori_[i] = F32(QS[o0][i]); vector<F32> ori; for (int i = 0; i < 4; i++) ori.push_back(F32(QS[o1][i]));
    int w0 = warnings(); bool r = ss::CheckBodyMovement(fv(p1), ori, grid, &b); int dw = warnings() - w0; observe_int("r", r);
    B small = true, large = false;
    for (int k = 0; k < 3; k++) for (int s = -1; s <= 1; s += 2) {
        VQ c0 = exact_corner(o0, k, s), c1 = exact_corner(o1, k, s); Q q2(0); for (int i = 0; i < 3; i++) { Q t = d[i] + c1[i] - c0[i]; q2 += t * t; }
        small = small && q2 < lo * lo; large = large || q2 > hi * hi;
    }
    check("move", iff(B(!r), small), r ? "a movement below half a cell is not skipped" : "a movement of at least half a cell is skipped");
    check("move", iff(B(dw > 0), large), dw ? "a warning is logged for a movement of at most two cells" : "no warning is logged for a movement above two cells");
    B same_pose = true; for (int i = 0; i < 3; i++) same_pose = same_pose && eq(Q(b.pos_[i]), p0[i]);
    check("move", same_pose, "checking the movement changes the recorded pose"); (void)diff;
    reach(r ? dw ? "large" : "update" : "skipped");
}
// turns combined with a translation such that one corner alone moves beyond a limit; distances closer than 2^-9 to a limit are not judged
HARNESS(movement_turn) {
    static const double SH[2][3][3] = {{{-0.75, 0.125, 0.5}, {0, 0.125, -0.25}, {0.25, 0.125, 0.25}}, {{0.125, 0, -0.25}, {1, 0.25, 0.5}, {-0.25, -0.125, 0}}};
    static const double TQ[8][4] = {{32, 1, 0, 0}, {36, 0, -1, 0}, {44, 0, 0, 1}, {8, 1, 0, 0}, {10, 0, 1, 0}, {10, 0, 0, -1}, {44, 1, 1, 1}, {12, 1, 1, 1}};
    int g = choose("cells", param("cells", 1, 3)), k = choose("shape", 2), t = choose("turn", 8), o = choose("ori", param("ori", 1, 3)), f = choose("corner", 6);
    ss::Grid grid(F32(1.0), F32(1.5), F32(2.0), F32(CELL[g][0]), F32(CELL[g][1])); double mc = std::min(CELL[g][0], CELL[g][1]); Q lo(0.5 * mc), hi(2 * mc), e(1.0 / 512);
    auto d3 = [&](int v) { return vector<F32>{F32(SH[k][v][0]), F32(SH[k][v][1]), F32(SH[k][v][2])}; }; ss::Bucket b({F32(0.0), F32(0.0), F32(0.0)}, d3(0), d3(1), d3(2), F32(1.0));
    VQ q[2]; for (int j = 0; j < 4; j++) q[0].push_back(Q(QS[o][j])); q[1] = qmul(q[0], {Q(TQ[t][0]), Q(TQ[t][1]), Q(TQ[t][2]), Q(TQ[t][3])});
    double a[3], c[3], n[3]; for (int i = 0; i < 3; i++) { a[i] = SH[k][1][i] - SH[k][0][i]; c[i] = SH[k][2][i] - SH[k][0][i]; } cross(a, c, n); double l = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
    vector<VQ> dc; double D[6][3]; for (int v = 0; v < 3; v++) for (int s = 1; s >= -1; s -= 2) { VQ p; for (int i = 0; i < 3; i++) p.push_back(Q(SH[k][v][i] + s * 0.5 * n[i] / l)); VQ x = qrot(q[0], p), y = qrot(q[1], p), z; for (int i = 0; i < 3; i++) { z.push_back(y[i] - x[i]); D[dc.size()][i] = qconst(z[i]).get_d(); } dc.push_back(z); }
    // a translation for which corner f is beyond the limit and the others are not
    double lim = t % 8 < 3 || t == 6 ? 0.5 * mc : 2 * mc, best = -1, tr[3]; for (int u = -6; u <= 6; u++) for (int v = -6; v <= 6; v++) for (int w = -6; w <= 6; w++) {
        double d[3] = {u * lim / 4, v * lim / 4, w * lim / 4}, mx = 0, mf = 0; for (int m = 0; m < 6; m++) { double r = 0; for (int i = 0; i < 3; i++) r += (d[i] + D[m][i]) * (d[i] + D[m][i]); r = std::sqrt(r); if (m == f) mf = r; else mx = std::max(mx, r); }
        double gap = std::min(mf - lim, lim - mx); if (gap > best) { best = gap; for (int i = 0; i < 3; i++) tr[i] = d[i]; } }
    if (best < 2.5 / 512) return;
    int ax = choose("axis", 3); VQ p0 = {Q(0.25), Q(-0.5), Q(0.125)}, d, p1; for (int i = 0; i < 3; i++) { d.push_back(Q(tr[i]) + (i == ax ? in_scaled("d", -64, 64, -8) : Q(0))); p1.push_back(p0[i] + d[i]); }
    b.pos_ = fv(p0); vector<F32> ori = fv(q[1]); b.ori_ = fv(q[0]); for (auto& x : {lo, hi}) sqrt_hint(x);
    int w0 = warnings(); bool r = ss::CheckBodyMovement(fv(p1), ori, grid, &b); int dw = warnings() - w0; observe_int("r", r);
    B small = true, notsmall = false, large = false, notlarge = true;
    for (auto& v : dc) { Q q2(0); for (int i = 0; i < 3; i++) { Q x = d[i] + v[i]; q2 += x * x; } small = small && q2 < (lo - e) * (lo - e); notsmall = notsmall || q2 > (lo + e) * (lo + e); large = large || q2 > (hi + e) * (hi + e); notlarge = notlarge && q2 < (hi - e) * (hi - e); }
    check("move", implies(small, B(!r)) && implies(notsmall, B(r)), r ? "a movement below half a cell is not skipped" : "a movement of at least half a cell is skipped");
    check("move", implies(large, B(dw > 0)) && implies(notlarge, B(dw == 0)), dw ? "a warning is logged for a movement of at most two cells" : "no warning is logged for a movement above two cells");
    reach(string(lim == 0.5 * mc ? "low " : "high ") + S(f));
}
// before the first update the orientation is undefined (zero): the step is never skipped
HARNESS(movement_first) {
    ss::Grid grid(F32(1.0), F32(1.5), F32(2.0), F32(0.25), F32(0.125)); VQ p = in_vec("p", 3, -32, 32, -7); int o = choose("ori", 4); vector<F32> ori; for (int i = 0; i < 4; i++) ori.push_back(F32(QS[o][i]));
    ss::Bucket b({F32(0.0), F32(0.0), F32(0.0)}, {F32(0.0), F32(0.0), F32(0.0)}, {F32(0.0), F32(0.0), F32(-0.5)}, {F32(0.5), F32(0.0), F32(-0.5)}, F32(0.5));
    bool r = ss::CheckBodyMovement(fv(p), ori, grid, &b); check("move", B(r), "the first update is skipped");
}
// a skipped step has no side effects; a movement above the limit reaches the update
HARNESS(skip) {
    World w(3, 4, 16); Q lim(0.0625); sqrt_hint(lim); VQ d = in_vec("d", 3, -16, 16, -7); assume(norm2(d) < lim * lim);
    w.body.pos_ = {F32(0.25), F32(-0.125), F32(0.5)};
    for (int i = 0; i < 2; i++) { column(w, 3 + i, 4, "c" + S(i), ColOpt{24, -8, 8, 4, true, 3, 0}); } w.s.terrain_[2][2] = f32(hz("t", -16, 16)); w.s.equilibrium_ = choose("eq", 2);
    w.s.body_area_[0][0] = 2; w.s.relax_area_[1][1] = 5; ss::SimOut pre = w.s; auto pos0 = w.body.pos_, ori0 = w.body.ori_; VQ p; for (int i = 0; i < 3; i++) p.push_back(Q(pos0[i]) + d[i]);
    ss::SimParam par(F32(0.85), 3, 2); ss::SoilDynamics sim; rng_policy(0, 0); rng_record();
    bool r = sim.Step(&w.s, fv(p), w.body.ori_, w.grid, &w.body, par, w.tol);
    check("move", B(!r), "a step moving less than half a cell is not reported as skipped");
    B ok = state_same(pre, w.s) && B(pre.equilibrium_ == w.s.equilibrium_); for (int i = 0; i < 3; i++) ok = ok && B(same(pos0[i], w.body.pos_[i])); for (int i = 0; i < 4; i++) ok = ok && B(same(ori0[i], w.body.ori_[i]));
    check("move", ok, "a skipped step changes the simulation state or the recorded pose");
}

// ------------------------------------------------------------------ C21
// heights in quarter cells away from the half: the number of cells is the nearest integer
static Q cells(const string& n, long lo, long hi, Q* count) { Q k = in_int(n, lo, hi), f = in_int(n + "f", -1, 1); *count = k; return (k * Q(4) + f) * Q(1.0 / 32); }
HARNESS(volume) {
    int variant = choose("kind", 6); static const int NY[3] = {1, 2, 140}; World w(1, NY[choose("ny", param("ny", 3, 3))], 16); Q n(0), c(0); int big = param("big", 2, 4);
    // terrain: the first and the last cell and one in the middle, whole cells plus up to a quarter of a cell
    w.s.terrain_[0][0] = f32(cells("t0", -big, big, &c)); n += c; w.s.terrain_[0][w.ny() - 1] = F32(37 * 0.125); n += Q(37);
    if (variant == 0) { w.s.terrain_[w.nx() - 1][w.ny() - 1] = f32(cells("t1", -3, 40, &c)); n += c; w.s.terrain_[1][1] = f32(hz("t2", -2, 2)); n += Q(w.s.terrain_[1][1]) * Q(8); }
    // soil layers: records with symbolic heights
    B cons = true;
    auto layer = [&](const string& nm, int ind, int x, int y, int recs) {
        Q base = hz(nm + "b", -8, 8); Q k; Q h = cells(nm + "h", 0, recs == 1 ? big + 1 : big, &k); w.s.body_soil_[ind][x][y] = f32(base); w.s.body_soil_[ind + 1][x][y] = f32(base + h);
        n += k;
        Q sum(0); for (int i = 0; i < recs; i++) { Q r = in_scaled(nm + "r" + S(i), -(1 << 16), 1 << 18, -18); sum += r; w.s.body_soil_pos_.push_back(ss::body_soil{ind, x, y, F32(0.0), F32(0.0), F32(0.0), f32(r)}); }
        cons = cons && near(h, sum, Q(1.0 / 131072));
    };
    if (variant >= 1 && variant <= 3) layer("A", variant == 2 ? 2 : 0, 0, 1, 1); if (variant == 3) layer("B", 2, 0, 1, 1); if (variant == 4) layer("C", 2, w.nx() - 1, w.ny() - 1, 2);
    // a record without soil in its column
    if (variant == 5) { Q r = in_scaled("lr", 0, 64, -18); int ind = choose("li", 2) * 2; w.s.body_soil_pos_.push_back(ss::body_soil{ind, 2, 0, F32(0.0), F32(0.0), F32(0.0), f32(r)}); cons = cons && r <= Q(1.0 / 131072); }
    Q diff = in_int("diff", -2, 2); Q want = n + diff; int init = (int)F64(f64(want)); 
    ss::SimOut pre = w.s; int w0 = warnings(); bool viaCheck = false;
    bool r = ss::CheckVolume(&w.s, init, w.grid, w.tol); int dw = warnings() - w0; observe_int("r", r); (void)viaCheck;
    check("volume", iff(B(r), cons && eq(diff, Q(0))), r ? "the volume check accepts an inconsistent state" : "the volume check rejects a consistent state");
    check("volume", B((dw > 0) == !r), "the volume check does not warn exactly when it fails");
    check("volume", state_same(pre, w.s), "the volume check modifies the state");
    reach(r ? "ok" : "bad");
}

// ------------------------------------------------------------------ C22
HARNESS(soil) {
    World w(2, 2, 16); int ax = choose("cell", 3); static const int CX[3][2] = {{1, 2}, {2, 1}, {2, 3}}; int x = CX[ax][0], y = CX[ax][1];
    w.s.body_area_[0][0] = 1; w.s.body_area_[0][1] = 3; w.s.body_area_[1][0] = 1; w.s.body_area_[1][1] = 4; long R = 6;
    // offsets below and above the tolerance on each height are covered by whole cells plus a fixed small deviation
    int mask = choose("layers", 16); int dev = choose("dev", 3);
    Q t = hz("t", -R, R); w.s.terrain_[x][y] = f32(t); Q b[4], s[4]; for (int k = 0; k < 4; k++) { b[k] = Q(0); s[k] = Q(0); }
    for (int k = 0; k < 4; k++) { if (mask >> (k / 2) & 1) b[k] = hz("b" + S(k), -R, R); if (mask >> (2 + k / 2) & 1) s[k] = hz("s" + S(k), -R, R); }
    Q small(1.0 / 262144); Q big(1.0 / 65536); if (dev) { Q z = dev == 1 ? small : -small; w.s.terrain_[x][y] = f32(t = t + z); if (mask & 1) b[1] = b[1] - z; if (mask & 4) s[1] = s[1] + z; }
    for (int k = 0; k < 4; k++) { w.s.body_[k][x][y] = f32(b[k]); w.s.body_soil_[k][x][y] = f32(s[k]); }
    // a cell outside the body area is never examined
    w.s.body_[0][3][3] = F32(1.0); w.s.terrain_[3][3] = F32(2.0); w.s.body_soil_[2][1][4] = F32(1.0); w.s.body_soil_[2][0][2] = F32(1.0); w.s.body_soil_[0][2][0] = F32(1.0);
    ss::SimOut pre = w.s; int w0 = warnings(); bool r = ss::CheckSoil(&w.s, w.tol); int dw = warnings() - w0; observe_int("r", r);
    Q tol(1.0 / 131072); B good = true;
    auto pres = [](const Q& lo, const Q& hi) { return !(eq(lo, Q(0)) && eq(hi, Q(0))); };
    B bp[2] = {pres(b[0], b[1]), pres(b[2], b[3])}, sp[2] = {pres(s[0], s[1]), pres(s[2], s[3])};
    for (int k = 0; k < 2; k++) {
        int i = 2 * k, o = 2 - i;
        good = good && implies(bp[k], t <= b[i] + tol && b[i] + tol <= b[i + 1]);
        good = good && implies(sp[k], bp[k] && s[i] <= s[i + 1] + tol && eq(s[i], b[i + 1]));
        good = good && implies(bp[k] && sp[1 - k], b[i + 1] <= s[o] + tol || s[o + 1] <= b[i] + tol);
    }
    good = good && implies(bp[0] && bp[1], b[1] + tol <= b[2] || b[3] + tol <= b[0]);
    check("soilcheck", iff(B(r), good), r ? "the soil check accepts a state violating a convention" : "the soil check rejects a valid state");
    check("soilcheck", B((dw > 0) == !r), "the soil check does not warn exactly when it fails");
    check("soilcheck", state_same(pre, w.s), "the soil check modifies the state");
    reach(r ? "ok" : "bad"); (void)big;
}
// SoilDynamics::Check runs both diagnostics
HARNESS(check_both) {
    World w(1, 1, 16); Q k = in_int("k", 0, 4), d = in_int("d", -1, 1); w.s.terrain_[1][1] = f32(k * CZ()); int init = (int)F64(f64(k + d));
    w.s.body_area_[0][0] = w.s.body_area_[1][0] = 1; w.s.body_area_[0][1] = w.s.body_area_[1][1] = 2; Q b = hz("b", 1, 8); w.s.body_[0][1][1] = f32(b); w.s.body_[1][1][1] = f32(b + Q(0.25));
    ss::SoilDynamics sim; ss::SimOut pre = w.s; int w0 = warnings(); sim.Check(&w.s, init, w.grid, w.tol); int dw = warnings() - w0; observe_int("w", dw);
    B bad = !eq(d, Q(0)), bs = k * CZ() > b; if (wants("volume")) check("volume", implies(bad, B(dw > 0)), "Check does not report a volume mismatch"); if (wants("soilcheck")) check("soilcheck", implies(bs, B(dw > 0)), "Check does not report a violated convention");
    check("volume", implies(!bad && !bs, B(dw == 0)), "Check warns for a consistent state"); check("soilcheck", implies(!bad && !bs, B(dw == 0)), "Check warns for a consistent state");
    check("volume", state_same(pre, w.s), "Check modifies the state");
}

// ------------------------------------------------------------------ C23
template <typename F> static bool throws(F f) { try { f(); return false; } catch (std::exception&) { return true; } }
HARNESS(make_grid) {
    static const double CS[8][2] = {{0.25, 0.125}, {0.25, 0.25}, {0.125, 0.25}, {0, 0.125}, {0.25, 0}, {-0.25, 0.125}, {0.25, -0.125}, {0.5, 0.0625}};
    int k = choose("cells", 8); Q cxy(CS[k][0]), cz(CS[k][1]); int lim = param("lim", 6, 10); VQ sz; for (int i = 0; i < 3; i++) sz.push_back(in_scaled("s" + S(i), -1, i == 2 ? lim : lim - 1, -3));
    B valid = cz > Q(0) && cxy > Q(0) && sz[0] > Q(0) && sz[1] > Q(0) && sz[2] > Q(0) && cz <= cxy && sz[0] >= cxy && sz[1] >= cxy && sz[2] >= cz;
    ss::Grid* g = nullptr; bool t = throws([&] { g = new ss::Grid(f32(sz[0]), f32(sz[1]), f32(sz[2]), F32(CS[k][0]), F32(CS[k][1])); }); observe_int("throws", t);
    check("make", iff(B(!t), valid), t ? "a valid grid is rejected" : "an invalid grid is accepted"); if (!g) return;
    if (CS[k][0] <= 0 || CS[k][1] <= 0) { delete g; return; }
    Q ixy(1 / CS[k][0]), iz(1 / CS[k][1]); B mult = eq(qfloor(sz[0] * ixy), sz[0] * ixy) && eq(qfloor(sz[1] * ixy), sz[1] * ixy) && eq(qfloor(sz[2] * iz), sz[2] * iz);
    if (split(mult)) {
        B ok = true; auto axis = [&](auto& v, int half, const Q& size, const Q& cell, const Q& inv, const Q& off) { ok = ok && B((int)v.size() == 2 * half + 1) && eq(Q(half), size * inv); for (size_t i = 0; i < v.size(); i++) ok = ok && eq(Q(v[i]), Q((int)i - half) * cell + off); };
        axis(g->vect_x_, g->half_length_x_, sz[0], cxy, ixy, Q(0)); axis(g->vect_y_, g->half_length_y_, sz[1], cxy, ixy, Q(0)); axis(g->vect_z_, g->half_length_z_, sz[2], cz, iz, cz);
        check("make", ok, "the cells of the grid are not centred and spaced by the cell size");
        ss::SimOut s(*g); bool empty = !s.equilibrium_ && s.body_soil_pos_.empty() && (int)s.terrain_.size() == 2 * g->half_length_x_ + 1 && s.body_.size() == 4 && s.body_soil_.size() == 4; B ar = true;
        for (auto* a : {&s.terrain_, &s.body_[0], &s.body_[1], &s.body_[2], &s.body_[3], &s.body_soil_[0], &s.body_soil_[1], &s.body_soil_[2], &s.body_soil_[3]}) { if ((int)a->size() != 2 * g->half_length_x_ + 1) empty = false; for (auto& r : *a) { if ((int)r.size() != 2 * g->half_length_y_ + 1) empty = false; for (auto& v : r) if (!plain0(v)) empty = false; } }
        for (auto* a : {s.body_area_, s.relax_area_, s.impact_area_}) for (int d = 0; d < 2; d++) { int h = d ? g->half_length_y_ : g->half_length_x_; if (a[d][0] < 0 || a[d][0] > a[d][1] || a[d][1] > 2 * h + 1) ar = false; }
        check("make", B(empty), "the initial outputs are not empty arrays of the size of the grid"); check("make", ar, "an initial area is not inside the grid");
        reach("grid");
    }
    check("make", eq(Q(g->cell_size_xy_), cxy) && eq(Q(g->cell_size_z_), cz) && eq(Q(g->cell_area_), cxy * cxy) && eq(Q(g->cell_volume_), cxy * cxy * cz), "cell size, area or volume is wrong");
    delete g;
}
// sizes that are a multiple of the cell size up to rounding (as 0.7 and 0.1 are in single precision)
HARNESS(make_grid_near) {
    static const double CS[3][2] = {{0.25, 0.125}, {0.5, 0.0625}, {0.125, 0.125}}; int k = choose("cells", 3); Q n[3], e[3]; VQ sz; for (int i = 0; i < 3; i++) { n[i] = in_int("n" + S(i), 2, param("lim", 4, 7)); e[i] = in_scaled("e" + S(i), -2, 2, -19); sz.push_back(n[i] * Q(CS[k][i == 2]) + e[i]); }
    ss::Grid* g = nullptr; bool t = throws([&] { g = new ss::Grid(f32(sz[0]), f32(sz[1]), f32(sz[2]), F32(CS[k][0]), F32(CS[k][1])); }); check("make", B(!t), "a valid grid is rejected"); if (!g) return;
    B ok = eq(Q(g->half_length_x_), n[0]) && eq(Q(g->half_length_y_), n[1]) && eq(Q(g->half_length_z_), n[2]); observe_int("hx", g->half_length_x_); observe_int("hy", g->half_length_y_); observe_int("hz", g->half_length_z_);
    check("make", ok, "a grid size that is a multiple of the cell size up to rounding does not give that number of cells");
    B sz_ok = B((int)g->vect_x_.size() == 2 * g->half_length_x_ + 1 && (int)g->vect_y_.size() == 2 * g->half_length_y_ + 1 && (int)g->vect_z_.size() == 2 * g->half_length_z_ + 1); check("make", sz_ok, "the coordinate vectors do not have the size of the grid"); if (g->vect_x_.empty() || g->vect_y_.empty() || g->vect_z_.empty()) return;
    Q tiny(1.0 / 65536); B cen = near(Q(g->vect_x_.front()), -(n[0] * Q(CS[k][0])), tiny) && near(Q(g->vect_x_.back()), n[0] * Q(CS[k][0]), tiny) && near(Q(g->vect_y_.front()), -(n[1] * Q(CS[k][0])), tiny) && near(Q(g->vect_y_.back()), n[1] * Q(CS[k][0]), tiny)
        && near(Q(g->vect_z_.front()), Q(CS[k][1]) - n[2] * Q(CS[k][1]), tiny) && near(Q(g->vect_z_.back()), n[2] * Q(CS[k][1]) + Q(CS[k][1]), tiny);
    check("make", cen, "the grid is not centred"); delete g; reach("near");
}
HARNESS(make_body) {
    int sizes = choose("sizes", 5); VQ p[4]; for (int k = 0; k < 4; k++) p[k] = in_vec("p" + S(k), 3, -2, 2, -1); Q width = in_scaled("w", -2, 2, -2); bool blade = choose("blade", 2); int shrink = choose("shrink", 2);
    vector<F32> f[4]; for (int k = 0; k < 4; k++) { f[k] = fv(p[k]); if (sizes == k + 1) { if (shrink) f[k].pop_back(); else f[k].push_back(F32(0.0)); } }
    auto same3 = [&](int a, int b) { B r = true; for (int i = 0; i < 3; i++) r = r && eq(p[a][i], p[b][i]); return r; };
    B valid = B(sizes == 0) && !same3(1, 2) && !same3(1, 3) && !same3(2, 3) && width > Q(0);
    ss::Bucket* bu = nullptr; ss::Blade* bl = nullptr; bool t = throws([&] { if (blade) bl = new ss::Blade(f[0], f[1], f[2], f[3], f32(width)); else bu = new ss::Bucket(f[0], f[1], f[2], f[3], f32(width)); }); observe_int("throws", t);
    check("make", iff(B(!t), valid), t ? "a valid body is rejected" : "an invalid body is accepted"); ss::Body* b = blade ? (ss::Body*)bl : (ss::Body*)bu; if (!b) return;
    B ok = eq(Q(b->width_), width); vector<F32>* v[3] = {&b->j_pos_init_, &b->b_pos_init_, &b->t_pos_init_}; for (int k = 0; k < 3; k++) for (int i = 0; i < 3; i++) ok = ok && eq(Q((*v[k])[i]), p[k + 1][i] - p[0][i]);
    check("make", ok, "the reference points are not stored relative to the origin"); check("make", B(b->pos_.size() == 3 && b->ori_.size() == 4), "pose vectors have the wrong size"); reach("body");
    delete bu; delete bl;
}
HARNESS(make_param) {
    Q a = in_scaled("angle", -64, 512, -7), it = in_int("it", -3, 5), buf = in_int("buf", -2, 5); int iti = (int)F64(f64(it)), bufi = (int)F64(f64(buf));
    ss::SimParam* s = nullptr; bool t = throws([&] { s = new ss::SimParam(f32(a), iti, bufi); }); observe_int("throws", t);
    B valid = a >= Q(0) && a <= Q(1.5707963267948966) && B(iti >= 0) && B(bufi >= 2);
    check("make", iff(B(!t), valid), t ? "valid parameters are rejected" : "invalid parameters are accepted"); if (!s) return;
    check("make", eq(Q(s->repose_angle_), a) && B(s->max_iterations_ == iti) && B(s->cell_buffer_ == bufi), "parameters are not stored"); reach("param"); delete s;
}
