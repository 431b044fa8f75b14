// Force-included before the unmodified sources in the native (replay) build:
// only the source of randomness is redirected, so that a trace fixes the draws.
#pragma once
#include <algorithm>
#include <cmath>
#include <random>
#include <string>
#include <vector>
#include <limits>
namespace vx {
int choose_rng(int n);
template <class T = int> class uniform_int {
 public:
    T lo, hi;
    using result_type = T;
    struct param_type { T a, b; explicit param_type(T a_ = 0, T b_ = 0) : a(a_), b(b_) {} };
    explicit uniform_int(T a = 0, T b = std::numeric_limits<T>::max()) : lo(a), hi(b) {}
    explicit uniform_int(const param_type& p) : lo(p.a), hi(p.b) {}
    template <class G> T operator()(G&) { return lo + (T)choose_rng((int)(hi - lo + 1)); }
    template <class G> T operator()(G&, const param_type& p) { return p.a + (T)choose_rng((int)(p.b - p.a + 1)); }
    T min() const { return lo; } T max() const { return hi; } T a() const { return lo; } T b() const { return hi; }
    void reset() {}
};
}
namespace std { template <class T = int> using vx_uniform_int_distribution = vx::uniform_int<T>; }
#define uniform_int_distribution vx_uniform_int_distribution
