// Harness interface. The same harness source is compiled twice:
//   VX_SYMBOLIC   over the rewritten sources, inputs are solver variables
//   otherwise     over the unmodified sources with real floats, inputs are read
//                 from a trace (counterexample replay / engine validation)
#pragma once
#ifdef VX_SYMBOLIC
#include "vx_sym.hpp"
#else
#include <cmath>
#endif
#include <gmpxx.h>
#include <string>
#include <vector>
#include <functional>
#include <initializer_list>

namespace vh {

#ifdef VX_SYMBOLIC
using vx::F32;
using vx::F64;
struct B { int id; B(bool b); struct Raw {}; B(Raw, int i) : id(i) {} };
struct Q {                                    // exact rational: index of an interned polynomial
    int id; struct Raw {}; explicit Q(Raw) : id(0) {}
    Q() : Q(0) {} Q(int v); Q(long v); Q(double v); Q(const mpq_class& v);
    Q(const F32& f); Q(const F64& f);
};
#else
using F32 = float;
using F64 = double;
struct B { bool v; B(bool b) : v(b) {} };
struct Q {
    mpq_class c;
    Q() {} Q(int v) : c(v) {} Q(long v) : c(v) {} Q(const mpq_class& v) : c(v) {}
    Q(float f); Q(double f);
};
#endif

Q operator+(const Q&, const Q&); Q operator-(const Q&, const Q&); Q operator*(const Q&, const Q&);
Q operator-(const Q&);
mpq_class qconst(const Q& a);                  // value of a constant
Q qfloor(const Q& a);                         // exact floor
Q qdiv(const Q& a, const Q& b);               // exact quotient (b is not zero)
inline Q& operator+=(Q& a, const Q& b) { a = a + b; return a; }
inline Q& operator-=(Q& a, const Q& b) { a = a - b; return a; }
B operator<(const Q&, const Q&); B operator<=(const Q&, const Q&); B eq(const Q&, const Q&);
inline B operator>(const Q& a, const Q& b) { return b < a; }
inline B operator>=(const Q& a, const Q& b) { return b <= a; }
B operator&&(const B&, const B&); B operator||(const B&, const B&); B operator!(const B&);
inline B ne(const Q& a, const Q& b) { return !eq(a, b); }
inline B implies(const B& a, const B& b) { return !a || b; }
inline B iff(const B& a, const B& b) { return (a && b) || (!a && !b); }
inline B near(const Q& a, const Q& b, const Q& tol) { return (a - b <= tol) && (b - a <= tol); }

bool is_special(const F32&);                 // NaN / infinity (Q() of those is invalid)
bool is_special(const F64&);

Q in_int(const std::string& name, long lo, long hi);          // integer input
Q in_scaled(const std::string& name, long lo, long hi, int e); // integer * 2^e
int choose(const std::string& name, int n);                    // harness-level alternative
bool split(const B& c);                                        // fork on a condition
void assume(const B& c);
bool wants(const char* tag);                   // is this group of assertions active
void check(const char* tag, const B& c, const std::string& msg);
void observe(const std::string& name, const F32& v);
void observe(const std::string& name, const F64& v);
void observe_int(const std::string& name, long v);
void reach(const std::string& what);                           // reachability witness
F32 f32(const Q& v);                                           // must be exactly representable
F64 f64(const Q& v);
// RNG model: draws from {0..n-1}; n <= full fork over everything, larger n fork over
// `few` representative values; after `budget` forked draws the rest take n-1 (mode 2: 0,
// mode 3: a fixed varying sequence).
void rng_policy(int full, int budget, int mode = 0);
void rng_record();            // start logging the draws of this path
void rng_replay();            // feed the logged draws again
bool rng_replay_end();        // true if exactly the logged draws were consumed
int rng_drawn();
void decouple_rounding();     // weaken path facts by independent rounding errors (first statement of a harness)
void sqrt_hint(const Q& k);   // constant for which sqrt(x) <= k <=> x <= k^2 is handed to the solver
int warnings();
bool tier_thorough();
int param(const char* name, int quick, int thorough);
const std::string& variant();

// virtual files
void file_reset();
void file_policy_max_existing(int n);
void file_policy_taken(int n);   // results numbered below n exist already
bool file_preexisted(const std::string& path);                // did the file exist before the code ran
struct FileCell { std::string text; bool num = false, bad = false; double c = 0; int id = 0; };
struct FileOut { std::string name, dir; bool existed = false, append = false; std::vector<std::vector<FileCell>> rows; };
std::vector<FileOut> files_written();
B file_cell_is(const FileCell& c, const F32& v);
B file_cell_is(const FileCell& c, const F64& v);

struct Harness { const char* name; std::function<void()> fn; };
std::vector<Harness>& harnesses();
struct Reg { Reg(const char* n, std::function<void()> f) { harnesses().push_back({n, f}); } };
// Runs, on other concrete values, before the harness on every path: whatever the code
// under test keeps in static storage is then stale when the harness starts.
extern void (*prelude)();
extern bool in_prelude;
struct Prelude { Prelude(void (*f)()) { prelude = f; } };
#define HARNESS(N) static void h_##N(); static vh::Reg r_##N(#N, h_##N); static void h_##N()

}  // namespace vh
