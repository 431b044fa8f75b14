// Solver-backed scalar types. Force-included before the rewritten sources.
//
// F32 / F64 stand for `float` / `double`. A value is either concrete (id == 0;
// the native IEEE operation is executed) or symbolic (id > 0; index of a
// polynomial node over solver variables, see vx_engine.cpp). Comparisons return
// plain bool: on symbolic operands the engine forks on them.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numbers>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <source_location>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <array>
#include <deque>
#include <span>
#include <ranges>
#include <concepts>
#include <compare>
#include <cassert>
#include <cstring>
#include <cstdio>
#include <cstddef>
#include <climits>
#include <cfloat>
#include <math.h>
#include <stdlib.h>

namespace vx { struct F64; struct F32; }
namespace std {
template <> struct is_floating_point<vx::F32> : true_type {};
template <> struct is_floating_point<vx::F64> : true_type {};
template <> struct is_arithmetic<vx::F32> : true_type {};
template <> struct is_arithmetic<vx::F64> : true_type {};
template <> inline constexpr bool is_floating_point_v<vx::F32> = true;
template <> inline constexpr bool is_floating_point_v<vx::F64> = true;
}

namespace vx {

// --- engine entry points (slow path) ---
enum Op { ADD, SUB, MUL, DIV };
enum Cmp { LT, LE, EQ };
enum Un { FLOOR, CEIL, ROUND, TRUNC, RINT, ABS, SQRT, SIN, COS, TAN, ASIN, ACOS, ATAN, EXP, LOG };

// binary op on (c,id) pairs; prec 24 or 53; result concrete value in *c
int32_t bin_slow(int op, double a, int32_t ia, double b, int32_t ib, int prec, double* c);
bool cmp_slow(int op, double a, int32_t ia, double b, int32_t ib);
int32_t un_slow(int op, double a, int32_t ia, int prec, double* c);
int32_t bin2_slow(int op, double a, int32_t ia, double b, int32_t ib, int prec, double* c);  // atan2, fmod, pow...
int32_t narrow_slow(double a, int32_t ia, double* c);      // double -> float
int64_t toint_slow(double a, int32_t ia);
int32_t minmax_slow(bool is_max, const double* c, const int32_t* id, int n, int prec, double* out);
void uninit_slow();
int choose_rng(int n);
void tick_slow();
extern uint64_t g_ticks, g_tick_limit;
inline void tick() { if (++g_ticks > g_tick_limit) tick_slow(); }

struct F64 {
    double c; int32_t id; int32_t pad;
    F64() = default;
    constexpr F64(double v) : c(v), id(0), pad(0) {}
    constexpr F64(float v) : c(v), id(0), pad(0) {}
    template <class I> requires std::is_integral_v<I>
    constexpr F64(I v) : c(static_cast<double>(v)), id(0), pad(0) {}
    constexpr F64(double v, int32_t i) : c(v), id(i), pad(0) {}
    inline F64(const F32& o);
    template <class I> requires (std::is_integral_v<I> && !std::is_same_v<I, bool>)
    operator I() const;
    explicit operator bool() const;
    explicit operator float() const = delete;
    F64 operator-() const; F64 operator+() const { return *this; }
    F64& operator++(); F64& operator--(); F64 operator++(int); F64 operator--(int);
};

struct F32 {
    float c; int32_t id;
    F32() = default;
    constexpr F32(float v) : c(v), id(0) {}
    constexpr F32(double v) : c(static_cast<float>(v)), id(0) {}
    template <class I> requires std::is_integral_v<I>
    constexpr F32(I v) : c(static_cast<float>(v)), id(0) {}
    constexpr F32(float v, int32_t i) : c(v), id(i) {}
    constexpr F32(const F64& o);
    template <class I> requires (std::is_integral_v<I> && !std::is_same_v<I, bool>)
    operator I() const;
    explicit operator bool() const;
    F32 operator-() const; F32 operator+() const { return *this; }
    F32& operator++(); F32& operator--(); F32 operator++(int); F32 operator--(int);
};

constexpr inline F64 lit64(double v) { return F64(v); }
constexpr inline F32 lit32(float v) { return F32(v); }

inline F64::F64(const F32& o) : c(o.c), id(o.id), pad(0) { if (o.id < 0) uninit_slow(); }
constexpr inline F32::F32(const F64& o) : c(0), id(0) {
    if (o.id == 0) { c = static_cast<float>(o.c); }
    else { double r = 0; id = narrow_slow(o.c, o.id, &r); c = static_cast<float>(r); }
}

template <class I> requires (std::is_integral_v<I> && !std::is_same_v<I, bool>)
F64::operator I() const { tick(); if (id == 0) return static_cast<I>(c); return static_cast<I>(toint_slow(c, id)); }
template <class I> requires (std::is_integral_v<I> && !std::is_same_v<I, bool>)
F32::operator I() const { tick(); if (id == 0) return static_cast<I>(c); return static_cast<I>(toint_slow(c, id)); }

// --- type classification ---
template <class T> struct is_f : std::false_type {};
template <> struct is_f<F32> : std::true_type {};
template <> struct is_f<F64> : std::true_type {};
template <class T> inline constexpr bool is_f_v = is_f<T>::value;
template <class T> inline constexpr bool num_v = is_f_v<T> || std::is_arithmetic_v<T>;
// result type of usual arithmetic conversions
template <class T> struct rank_ { static constexpr int v = std::is_same_v<T, F64> || std::is_same_v<T, double> || std::is_same_v<T, long double> ? 2 : (std::is_same_v<T, F32> || std::is_same_v<T, float> ? 1 : 0); };
template <class A, class B> using res_t = std::conditional_t<(rank_<A>::v == 2 || rank_<B>::v == 2), F64, F32>;
template <class A, class B> concept FMix = num_v<A> && num_v<B> && (is_f_v<A> || is_f_v<B>);
template <class I> requires std::is_arithmetic_v<I> inline F64 widen64(I v) { return F64(static_cast<double>(v)); }

inline F32 op32(int op, const F32& a, const F32& b) {
    tick();
    if (a.id == 0 && b.id == 0) {
        switch (op) { case ADD: return F32(a.c + b.c); case SUB: return F32(a.c - b.c);
                      case MUL: return F32(a.c * b.c); default: return F32(a.c / b.c); }
    }
    double c = 0; int32_t id = bin_slow(op, a.c, a.id, b.c, b.id, 24, &c);
    return F32(static_cast<float>(c), id);
}
inline F64 op64(int op, const F64& a, const F64& b) {
    tick();
    if (a.id == 0 && b.id == 0) {
        switch (op) { case ADD: return F64(a.c + b.c); case SUB: return F64(a.c - b.c);
                      case MUL: return F64(a.c * b.c); default: return F64(a.c / b.c); }
    }
    double c = 0; int32_t id = bin_slow(op, a.c, a.id, b.c, b.id, 53, &c);
    return F64(c, id);
}
template <class A, class B> inline res_t<A, B> opx(int op, const A& a, const B& b) {
    if constexpr (std::is_same_v<res_t<A, B>, F64>) return op64(op, F64(a), F64(b));
    else return op32(op, F32(a), F32(b));
}
template <class A, class B> inline bool cmpx(int op, const A& a_, const B& b_) {
    tick();
    res_t<A, B> a(a_), b(b_);
    if (a.id == 0 && b.id == 0) return op == LT ? a.c < b.c : op == LE ? a.c <= b.c : a.c == b.c;
    return cmp_slow(op, a.c, a.id, b.c, b.id);
}
template <class A, class B> requires FMix<A, B> inline auto operator+(const A& a, const B& b) { return opx(ADD, a, b); }
template <class A, class B> requires FMix<A, B> inline auto operator-(const A& a, const B& b) { return opx(SUB, a, b); }
template <class A, class B> requires FMix<A, B> inline auto operator*(const A& a, const B& b) { return opx(MUL, a, b); }
template <class A, class B> requires FMix<A, B> inline auto operator/(const A& a, const B& b) { return opx(DIV, a, b); }
template <class A, class B> requires FMix<A, B> inline bool operator<(const A& a, const B& b) { return cmpx(LT, a, b); }
template <class A, class B> requires FMix<A, B> inline bool operator>(const A& a, const B& b) { return cmpx(LT, b, a); }
template <class A, class B> requires FMix<A, B> inline bool operator<=(const A& a, const B& b) { return cmpx(LE, a, b); }
template <class A, class B> requires FMix<A, B> inline bool operator>=(const A& a, const B& b) { return cmpx(LE, b, a); }
template <class A, class B> requires FMix<A, B> inline bool operator==(const A& a, const B& b) { return cmpx(EQ, a, b); }
template <class A, class B> requires FMix<A, B> inline bool operator!=(const A& a, const B& b) { return !cmpx(EQ, a, b); }
template <class A> requires is_f_v<A> inline std::partial_ordering cmp3(const A& a, const A& b) {
    if (a < b) return std::partial_ordering::less;
    if (a == b) return std::partial_ordering::equivalent;
    return std::partial_ordering::greater;
}
template <class A, class B> requires FMix<A, B> inline std::partial_ordering operator<=>(const A& a_, const B& b_) { res_t<A, B> a(a_), b(b_); return cmp3(a, b); }

// compound assignment: left operand F32/F64 or builtin arithmetic
template <class A, class B> requires FMix<A, B> inline A& operator+=(A& a, const B& b) { a = static_cast<A>(opx(ADD, a, b)); return a; }
template <class A, class B> requires FMix<A, B> inline A& operator-=(A& a, const B& b) { a = static_cast<A>(opx(SUB, a, b)); return a; }
template <class A, class B> requires FMix<A, B> inline A& operator*=(A& a, const B& b) { a = static_cast<A>(opx(MUL, a, b)); return a; }
template <class A, class B> requires FMix<A, B> inline A& operator/=(A& a, const B& b) { a = static_cast<A>(opx(DIV, a, b)); return a; }

inline F64::operator bool() const { return *this != 0; }
inline F32::operator bool() const { return *this != 0; }
// operand of a conditional expression whose alternatives have the types A and B
template <class A, class B, class T> inline decltype(auto) com(T&& v) {
    using X = std::remove_cvref_t<A>; using Y = std::remove_cvref_t<B>;
    if constexpr (!std::is_same_v<X, Y> && num_v<X> && num_v<Y> && (is_f_v<X> || is_f_v<Y>)) return res_t<X, Y>(v);
    else if constexpr (std::is_lvalue_reference_v<T>) return static_cast<T>(v);
    else return std::remove_cvref_t<T>(std::move(v));
}

inline F64 F64::operator-() const { if (id == 0) return F64(-c); return opx(SUB, F64(0.0), *this); }
inline F32 F32::operator-() const { if (id == 0) return F32(-c); return opx(SUB, F32(0.0f), *this); }
inline F64& F64::operator++() { *this += 1; return *this; }
inline F64& F64::operator--() { *this -= 1; return *this; }
inline F64 F64::operator++(int) { F64 t = *this; *this += 1; return t; }
inline F64 F64::operator--(int) { F64 t = *this; *this -= 1; return t; }
inline F32& F32::operator++() { *this += 1; return *this; }
inline F32& F32::operator--() { *this -= 1; return *this; }
inline F32 F32::operator++(int) { F32 t = *this; *this += 1; return t; }
inline F32 F32::operator--(int) { F32 t = *this; *this -= 1; return t; }

inline F32 u32(int op, const F32& a) { double c = 0; int32_t id = un_slow(op, a.c, a.id, 24, &c); return F32((float)c, id); }
inline F64 u64_(int op, const F64& a) { double c = 0; int32_t id = un_slow(op, a.c, a.id, 53, &c); return F64(c, id); }

#define VX_UN(NAME, OPC, FN) \
    inline F32 NAME##_(const F32& a) { tick(); if (a.id == 0) return F32(FN(a.c)); return u32(OPC, a); } \
    inline F64 NAME##_(const F64& a) { tick(); if (a.id == 0) return F64(FN(a.c)); return u64_(OPC, a); }
VX_UN(floor, FLOOR, std::floor) VX_UN(ceil, CEIL, std::ceil) VX_UN(round, ROUND, std::round)
VX_UN(trunc, TRUNC, std::trunc) VX_UN(rint, RINT, std::rint) VX_UN(abs, ABS, std::abs)
VX_UN(sqrt, SQRT, std::sqrt) VX_UN(sin, SIN, std::sin) VX_UN(cos, COS, std::cos) VX_UN(tan, TAN, std::tan)
VX_UN(asin, ASIN, std::asin) VX_UN(acos, ACOS, std::acos) VX_UN(atan, ATAN, std::atan) VX_UN(exp, EXP, std::exp) VX_UN(log, LOG, std::log)
#undef VX_UN

template <class A> inline bool signbit_(const A& a) { if (a.id == 0) return std::signbit(a.c); return a < 0; }
template <class A> inline A copysign_(const A& m, const A& s) { if (m.id == 0 && s.id == 0) return A(std::copysign(m.c, s.c)); A am = abs_(m); return signbit_(s) ? A(-am) : am; }
inline F32 bin2(int op, const F32& a, const F32& b) { double c = 0; int32_t id = bin2_slow(op, a.c, a.id, b.c, b.id, 24, &c); return F32((float)c, id); }
inline F64 bin2(int op, const F64& a, const F64& b) { double c = 0; int32_t id = bin2_slow(op, a.c, a.id, b.c, b.id, 53, &c); return F64(c, id); }
enum Bin2 { ATAN2, FMOD, POW };

inline F64 pick(bool m, std::initializer_list<F64> l) {
    std::vector<double> c; std::vector<int32_t> id; bool sym = false;
    for (auto& x : l) { c.push_back(x.c); id.push_back(x.id); sym = sym || x.id != 0; }
    double out = 0; int32_t r = minmax_slow(m, c.data(), id.data(), (int)c.size(), 53, &out); return F64(out, r);
}
inline F32 pick(bool m, std::initializer_list<F32> l) {
    std::vector<double> c; std::vector<int32_t> id;
    for (auto& x : l) { c.push_back(x.c); id.push_back(x.id); }
    double out = 0; int32_t r = minmax_slow(m, c.data(), id.data(), (int)c.size(), 24, &out); return F32((float)out, r);
}

// --- logging / IO ---
inline std::ostream& operator<<(std::ostream& o, const F64& x) { if (x.id == 0) return o << x.c; return o << "<sym>"; }
inline std::ostream& operator<<(std::ostream& o, const F32& x) { if (x.id == 0) return o << x.c; return o << "<sym>"; }

struct FileTok { int kind; std::string s; double c; int32_t id; };  // 0 text, 1 value
struct FileEvent { std::string name; bool write; bool trunc; bool existed; std::vector<FileTok> toks; bool closed = false; };
extern std::vector<FileEvent> g_files;
bool file_exists(const std::string& n);

class OFStream {
    int idx = -1;
 public:
    OFStream() {}
    explicit OFStream(const std::string& n, std::ios_base::openmode m = std::ios_base::out) { open(n, m); }
    void open(const std::string& n, std::ios_base::openmode m = std::ios_base::out) {
        idx = (int)g_files.size(); g_files.push_back({n, true, !(m & std::ios_base::app), file_exists(n), {}, false}); }
    bool is_open() const { return idx >= 0 && !g_files[idx].closed; }
    bool good() const { return idx >= 0; }
    bool fail() const { return idx < 0; }
    explicit operator bool() const { return idx >= 0; }
    bool operator!() const { return idx < 0; }
    void close() { if (idx >= 0) g_files[idx].closed = true; }
    OFStream& flush() { return *this; }
    void put(FileTok t) { if (idx >= 0) { auto& v = g_files[idx].toks; if (t.kind == 0 && !v.empty() && v.back().kind == 0) v.back().s += t.s; else v.push_back(t); } }
    template <class T> OFStream& operator<<(const T& x) {
        if constexpr (is_f_v<T>) { put({1, "", (double)x.c, x.id}); }
        else if constexpr (std::is_floating_point_v<T>) put({1, "", (double)x, 0});
        else { std::ostringstream s; s << x; put({0, s.str(), 0, 0}); }
        return *this;
    }
    OFStream& operator<<(std::ostream& (*f)(std::ostream&)) { std::ostringstream s; s << f; if (!s.str().empty()) put({0, s.str(), 0, 0}); return *this; }
    OFStream& operator<<(std::ios_base& (*)(std::ios_base&)) { put({0, "<manip>", 0, 0}); return *this; }
    OFStream& operator<<(std::_Setprecision) { put({0, "<manip>", 0, 0}); return *this; }
    std::streamsize precision(std::streamsize) { put({0, "<manip>", 0, 0}); return 6; }
};
class IFStream {
    bool ok = false;
 public:
    IFStream() {}
    explicit IFStream(const std::string& n, std::ios_base::openmode = std::ios_base::in) { open(n); }
    void open(const std::string& n, std::ios_base::openmode = std::ios_base::in) { ok = file_exists(n); g_files.push_back({n, false, false, ok, {}, true}); }
    bool good() const { return ok; }
    bool is_open() const { return ok; }
    bool fail() const { return !ok; }
    explicit operator bool() const { return ok; }
    bool operator!() const { return !ok; }
    void close() {}
};

template <class T = int> class uniform_int {
 public:
    T lo, hi;
    using result_type = T;
    explicit uniform_int(T a = 0, T b = std::numeric_limits<T>::max()) : lo(a), hi(b) {}
    struct param_type { T a, b; explicit param_type(T a_ = 0, T b_ = 0) : a(a_), b(b_) {} };
    explicit uniform_int(const param_type& p) : lo(p.a), hi(p.b) {}
    template <class G> T operator()(G&) { return lo + (T)choose_rng((int)(hi - lo + 1)); }
    template <class G> T operator()(G&, const param_type& p) { return p.a + (T)choose_rng((int)(p.b - p.a + 1)); }
    T min() const { return lo; } T max() const { return hi; } T a() const { return lo; } T b() const { return hi; }
    void reset() {}
};

}  // namespace vx

namespace std::numbers {
template <> inline constexpr vx::F32 pi_v<vx::F32> = vx::F32(3.14159265358979323846f);
template <> inline constexpr vx::F64 pi_v<vx::F64> = vx::F64(3.14159265358979323846);
template <> inline constexpr vx::F32 sqrt2_v<vx::F32> = vx::F32(1.41421356237309504880f);
template <> inline constexpr vx::F64 sqrt2_v<vx::F64> = vx::F64(1.41421356237309504880);
}
namespace std {
#define VX_FWD1(NAME) inline vx::F32 NAME(const vx::F32& a) { return vx::NAME##_(a); } inline vx::F64 NAME(const vx::F64& a) { return vx::NAME##_(a); }
VX_FWD1(floor) VX_FWD1(ceil) VX_FWD1(round) VX_FWD1(trunc) VX_FWD1(rint) VX_FWD1(abs) VX_FWD1(sqrt)
VX_FWD1(sin) VX_FWD1(cos) VX_FWD1(tan) VX_FWD1(asin) VX_FWD1(acos) VX_FWD1(atan) VX_FWD1(exp) VX_FWD1(log)
#undef VX_FWD1
inline vx::F32 nearbyint(const vx::F32& a) { return vx::rint_(a); }
inline vx::F64 nearbyint(const vx::F64& a) { return vx::rint_(a); }
inline vx::F32 fabs(const vx::F32& a) { return vx::abs_(a); }
inline vx::F64 fabs(const vx::F64& a) { return vx::abs_(a); }
template <class A> requires vx::is_f_v<A> inline long lround(const A& a) { return (long)vx::round_(a); }
template <class A> requires vx::is_f_v<A> inline long long llround(const A& a) { return (long long)vx::round_(a); }
template <class A> requires vx::is_f_v<A> inline long lrint(const A& a) { return (long)vx::rint_(a); }
template <class A> requires vx::is_f_v<A> inline bool signbit(const A& a) { return vx::signbit_(a); }
template <class A> requires vx::is_f_v<A> inline bool isnan(const A& a) { return a.id == 0 && std::isnan(a.c); }
template <class A> requires vx::is_f_v<A> inline bool isinf(const A& a) { return a.id == 0 && std::isinf(a.c); }
template <class A> requires vx::is_f_v<A> inline bool isfinite(const A& a) { return a.id != 0 || std::isfinite(a.c); }
template <class A, class B> requires vx::FMix<A, B> inline auto copysign(const A& a, const B& b) { using R = vx::res_t<A, B>; return vx::copysign_(R(a), R(b)); }
template <class A, class B> requires vx::FMix<A, B> inline auto fmin(const A& a, const B& b) { using R = vx::res_t<A, B>; R x(a), y(b); return y < x ? y : x; }
template <class A, class B> requires vx::FMix<A, B> inline auto fmax(const A& a, const B& b) { using R = vx::res_t<A, B>; R x(a), y(b); return x < y ? y : x; }
template <class A, class B> requires vx::FMix<A, B> inline auto hypot(const A& a, const B& b) { using R = vx::res_t<A, B>; R x(a), y(b); return vx::sqrt_(R(x * x + y * y)); }
template <class A, class B, class C> requires (vx::FMix<A, B> && vx::FMix<B, C>) inline auto hypot(const A& a, const B& b, const C& c) { using R = vx::res_t<vx::res_t<A, B>, C>; R x(a), y(b), z(c); return vx::sqrt_(R(x * x + y * y + z * z)); }
template <class A, class B, class C> requires (vx::FMix<A, B> && vx::FMix<B, C>) inline auto fma(const A& a, const B& b, const C& c) { using R = vx::res_t<vx::res_t<A, B>, C>; return R(R(a) * R(b) + R(c)); }
template <class A, class B> requires vx::FMix<A, B> inline auto fdim(const A& a, const B& b) { using R = vx::res_t<A, B>; R x(a), y(b); return x > y ? R(x - y) : R(0.0); }
template <class A, class B> requires vx::FMix<A, B> inline auto atan2(const A& a, const B& b) { using R = vx::res_t<A, B>; return vx::bin2(vx::ATAN2, R(a), R(b)); }
template <class A, class B> requires vx::FMix<A, B> inline auto fmod(const A& a, const B& b) { using R = vx::res_t<A, B>; return vx::bin2(vx::FMOD, R(a), R(b)); }
template <class A, class B> requires vx::FMix<A, B> inline auto pow(const A& a, const B& b) {
    using R = vx::res_t<A, B>;
    R y(b); R x(a);
    if (y.id == 0 && y.c == 2) return R(x * x);
    if (y.id == 0 && y.c == 0.5) return vx::sqrt_(x);
    return vx::bin2(vx::POW, x, y);
}
inline vx::F32 min(std::initializer_list<vx::F32> l) { return vx::pick(false, l); }
inline vx::F32 max(std::initializer_list<vx::F32> l) { return vx::pick(true, l); }
inline vx::F64 min(std::initializer_list<vx::F64> l) { return vx::pick(false, l); }
inline vx::F64 max(std::initializer_list<vx::F64> l) { return vx::pick(true, l); }
template <> class numeric_limits<vx::F32> : public numeric_limits<float> {};
template <> class numeric_limits<vx::F64> : public numeric_limits<double> {};
template <> struct common_type<vx::F32, vx::F64> { using type = vx::F64; };
template <> struct common_type<vx::F64, vx::F32> { using type = vx::F64; };
using vx_ofstream = vx::OFStream;
using vx_ifstream = vx::IFStream;
template <class T = int> using vx_uniform_int_distribution = vx::uniform_int<T>;
inline std::string to_string(const vx::F32& a) { if (a.id) vx::uninit_slow(); return std::to_string(a.c); }
inline std::string to_string(const vx::F64& a) { if (a.id) vx::uninit_slow(); return std::to_string(a.c); }
}  // namespace std

// Unqualified C calls on `float` arguments go through the double versions
// (only <cmath>'s std:: overloads keep float).
namespace vx {
#define VX_G1(NAME) inline F64 NAME(const F32& a) { return NAME##_(F64(a)); } inline F64 NAME(const F64& a) { return NAME##_(a); }
VX_G1(floor) VX_G1(ceil) VX_G1(round) VX_G1(trunc) VX_G1(rint) VX_G1(sqrt) VX_G1(sin) VX_G1(cos) VX_G1(tan) VX_G1(asin) VX_G1(acos) VX_G1(atan) VX_G1(exp) VX_G1(log)
#undef VX_G1
inline F32 abs(const F32& a) { return abs_(a); }
inline F64 abs(const F64& a) { return abs_(a); }
inline F64 fabs(const F32& a) { return abs_(F64(a)); }
inline F64 fabs(const F64& a) { return abs_(a); }
template <class A, class B> requires FMix<A, B> inline F64 copysign(const A& a, const B& b) { return copysign_(F64(a), F64(b)); }
template <class A, class B> requires FMix<A, B> inline F64 hypot(const A& a, const B& b) { F64 x(a), y(b); return sqrt_(F64(x * x + y * y)); }
template <class A, class B> requires FMix<A, B> inline F64 fmin(const A& a, const B& b) { return std::fmin(F64(a), F64(b)); }
template <class A, class B> requires FMix<A, B> inline F64 fmax(const A& a, const B& b) { return std::fmax(F64(a), F64(b)); }
template <class A, class B> requires FMix<A, B> inline F64 pow(const A& a, const B& b) { return std::pow(F64(a), F64(b)); }
template <class A, class B> requires FMix<A, B> inline F64 fmod(const A& a, const B& b) { return std::fmod(F64(a), F64(b)); }
template <class A, class B> requires FMix<A, B> inline F64 atan2(const A& a, const B& b) { return std::atan2(F64(a), F64(b)); }
template <class A> requires is_f_v<A> inline long lround(const A& a) { return (long)round_(a); }
template <class A> requires is_f_v<A> inline bool isnan(const A& a) { return std::isnan(a); }
template <class A> requires is_f_v<A> inline bool isfinite(const A& a) { return std::isfinite(a); }
}  // namespace vx

#define uniform_int_distribution vx_uniform_int_distribution
#define ofstream vx_ofstream
#define ifstream vx_ifstream
