// Native twin of the symbolic engine: runs a harness over the unmodified code
// with the concrete inputs, choices and random draws of a trace.
//   vx_native --results DIR --tags a,b [--thorough] [--variant V] < traces
// Trace format (one per block): "T <harness> <id>", "I name value", "C k name value", "E".
#include "vh.hpp"
#include <glog/logging.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <cstring>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vxlog { int g_warnings = 0, g_errors = 0, g_infos = 0; }
using std::string; using std::vector;
namespace fs = std::filesystem;

static string g_variant, g_results; static bool g_thorough = false;
static std::map<string, string> g_in; static std::map<string, int> g_names;
struct Ch { char k; string name, val; };
static vector<Ch> g_ch; static size_t g_cpos = 0;
static std::set<string> g_tags; static bool g_alltags = true;
static std::set<string> g_pre;
static void diverge(const string& w) { printf("DIVERGE %s\n", w.c_str()); fflush(stdout); _exit(3); }

namespace vh {
std::vector<Harness>& harnesses() { static std::vector<Harness> h; return h; }
static mpq_class rq(double d) { if (!std::isfinite(d)) { printf("SPECIAL NaN or infinity reaches the specification\n"); fflush(stdout); _exit(4); } return mpq_class(d); }
Q::Q(float f) : c(rq(f)) {}
Q::Q(double f) : c(rq(f)) {}
Q operator+(const Q& a, const Q& b) { return Q(mpq_class(a.c + b.c)); }
Q operator-(const Q& a, const Q& b) { return Q(mpq_class(a.c - b.c)); }
Q operator*(const Q& a, const Q& b) { return Q(mpq_class(a.c * b.c)); }
Q operator-(const Q& a) { return Q(mpq_class(-a.c)); }
mpq_class qconst(const Q& a) { return a.c; }
bool wants(const char* tag) { return g_alltags || g_tags.count(tag); }
Q qdiv(const Q& a, const Q& b) { return Q(mpq_class(a.c / b.c)); }
Q qfloor(const Q& a) { mpz_class r; mpz_fdiv_q(r.get_mpz_t(), a.c.get_num_mpz_t(), a.c.get_den_mpz_t()); return Q(mpq_class(r)); }
B operator<(const Q& a, const Q& b) { return a.c < b.c; }
B operator<=(const Q& a, const Q& b) { return a.c <= b.c; }
B eq(const Q& a, const Q& b) { return a.c == b.c; }
B operator&&(const B& a, const B& b) { return B(bool(a.v & b.v)); }
B operator||(const B& a, const B& b) { return B(bool(a.v | b.v)); }
B operator!(const B& a) { return B(!a.v); }
void (*prelude)() = nullptr; bool in_prelude = false;
bool is_special(const F32& f) { return !std::isfinite(f); }
bool is_special(const F64& f) { return !std::isfinite(f); }
Q in_scaled(const string& name_, long lo, long hi, int e) {
    int k = g_names[name_]++; string name = k ? name_ + "#" + std::to_string(k) : name_;
    auto it = g_in.find(name); if (it == g_in.end()) diverge("missing input " + name);
    mpq_class v(it->second); if (v < lo || v > hi) diverge("input out of range " + name);
    mpq_class s(1); if (e >= 0) mpz_mul_2exp(s.get_num_mpz_t(), s.get_num_mpz_t(), e); else mpz_mul_2exp(s.get_den_mpz_t(), s.get_den_mpz_t(), -e);
    return Q(mpq_class(v * s));
}
Q in_int(const string& n, long lo, long hi) { return in_scaled(n, lo, hi, 0); }
static Ch next(char k) { while (g_cpos < g_ch.size() && g_ch[g_cpos].k == 'x') g_cpos++; if (g_cpos >= g_ch.size()) diverge(string("choices exhausted (") + k + ")"); Ch c = g_ch[g_cpos++]; if (c.k != k) diverge("choice kind"); return c; }
int choose(const string& name, int) { Ch c = next('c'); if (c.name != name) diverge("choice " + name + " vs " + c.name); return std::stoi(c.val); }
bool split(const B& c) { return c.v; }
void assume(const B& c) { if (!c.v) { printf("ASSUME\n"); fflush(stdout); _exit(5); } }
void check(const char* tag, const B& c, const string& msg) { if (!g_alltags && !g_tags.count(tag)) return; if (!c.v) { printf("FAIL %s %s\n", tag, msg.c_str()); fflush(stdout); } }
void observe(const string& n, const F32& v) { printf("O %s f %a\n", n.c_str(), (double)v); }
void observe(const string& n, const F64& v) { printf("O %s f %a\n", n.c_str(), v); }
void observe_int(const string& n, long v) { printf("O %s i %ld\n", n.c_str(), v); }
void reach(const string&) {}
F32 f32(const Q& v) { double d = v.c.get_d(); if (mpq_class(d) != v.c || (double)(float)d != d) diverge("value not a float"); return (float)d; }
F64 f64(const Q& v) { double d = v.c.get_d(); if (mpq_class(d) != v.c) diverge("value not a double"); return d; }
void rng_policy(int, int, int) {}
static vector<std::pair<int, int>> rng_log; static bool rng_replaying = false, rng_mismatch = false; static size_t rng_rpos = 0;
void rng_record() { rng_log.clear(); rng_replaying = false; rng_mismatch = false; }
void rng_replay() { rng_replaying = true; rng_rpos = 0; rng_mismatch = false; }
bool rng_replay_end() { bool ok = !rng_mismatch && rng_rpos == rng_log.size(); rng_replaying = false; return ok; }
int rng_drawn() { return (int)rng_log.size(); }
void sqrt_hint(const Q&) {}
void decouple_rounding() {}
int warnings() { return vxlog::g_warnings; }
bool tier_thorough() { return g_thorough; }
int param(const char*, int q, int t) { return g_thorough ? t : q; }
const string& variant() { return g_variant; }
void file_reset() {
    if (g_results.empty()) return;
    for (auto& e : fs::directory_iterator(g_results)) fs::remove(e.path());
    g_pre.clear();
    for (auto& c : g_ch) if (c.k == 'x' && c.val == "1") { size_t p = c.name.find_last_of('/'); string b = p == string::npos ? c.name : c.name.substr(p + 1); std::ofstream o(g_results + "/" + b); o << "previous result"; g_pre.insert(b); }
}
void file_policy_max_existing(int) {}
void file_policy_taken(int n) { if (g_results.empty()) return; for (const char* b : {"terrain", "body_soil", "bucket", "blade"}) for (int k = 0; k < n; k++) { string s = std::to_string(k), f = string(b) + "_" + string(5 - s.size(), '0') + s + ".csv"; std::ofstream o(g_results + "/" + f); o << "previous result"; g_pre.insert(f); } }
bool file_preexisted(const string& p) { size_t k = p.find_last_of('/'); return g_pre.count(k == string::npos ? p : p.substr(k + 1)) > 0; }
vector<FileOut> files_written() {
    vector<FileOut> r; std::set<string> names;
    for (auto& e : fs::directory_iterator(g_results)) names.insert(e.path().filename().string());
    for (auto& n : names) {
        std::ifstream in(g_results + "/" + n); std::stringstream ss; ss << in.rdbuf(); string s = ss.str();
        if (g_pre.count(n) && s == "previous result") continue;
        FileOut o; o.name = n; o.dir = g_results; o.existed = g_pre.count(n) > 0; std::vector<FileCell> row; FileCell cur; bool has = false;
        auto flush = [&]() { row.push_back(cur); cur = FileCell(); has = false; };
        for (char ch : s) { if (ch == ',') flush(); else if (ch == '\n') { flush(); o.rows.push_back(row); row.clear(); } else { cur.text += ch; has = true; } }
        if (has || !row.empty()) { flush(); o.rows.push_back(row); }
        r.push_back(o);
    }
    return r;
}
template <class T> static bool same_num(const FileCell& c, T v) {
    // printed with at least 6 significant digits of the value
    char* end = nullptr; double d = strtod(c.text.c_str(), &end); if (c.text.empty() || *end) return false;
    double a = (double)v; return std::fabs(d - a) <= 1e-5 * std::fabs(a) + 1e-12;
}
B file_cell_is(const FileCell& c, const F32& v) { return same_num(c, v); }
B file_cell_is(const FileCell& c, const F64& v) { return same_num(c, v); }
}  // namespace vh
namespace vx {
int choose_rng(int n) {
    if (vh::in_prelude) { if (n <= 0) abort(); return n - 1; }
    if (vh::rng_replaying) {
        if (vh::rng_rpos >= vh::rng_log.size() || vh::rng_log[vh::rng_rpos].first != n) { vh::rng_mismatch = true; return n - 1; }
        return vh::rng_log[vh::rng_rpos++].second;
    }
    if (n <= 0) abort();
    Ch c = vh::next('r'); int r = std::stoi(c.val); if (r >= n) diverge("random range"); vh::rng_log.push_back({n, r}); return r; }
}
static void run_one(const string& h) {
    for (auto& x : vh::harnesses()) if (x.name == h) {
        if (vh::prelude) {
            vh::in_prelude = true; try { vh::prelude(); } catch (std::exception& e) { printf("EXC %s\n", e.what()); }
            vh::in_prelude = false; vxlog::g_warnings = vxlog::g_errors = vxlog::g_infos = 0; g_names.clear(); g_cpos = 0; vh::rng_record();
        }
        try { vh::file_reset(); x.fn(); } catch (std::exception& e) { printf("EXC %s\n", e.what()); }
        printf("DONE\n"); fflush(stdout); _exit(0);
    }
    printf("NOHARNESS\n"); fflush(stdout); _exit(6);
}
int main(int argc, char** argv) {
    string tags; int tmo = 20; bool list = false;
    for (int i = 1; i < argc; i++) {
        string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
        if (a == "--results") g_results = nx(); else if (a == "--tags") tags = nx(); else if (a == "--thorough") g_thorough = true;
        else if (a == "--variant") g_variant = nx(); else if (a == "--timeout") tmo = stoi(nx()); else if (a == "--list") list = true;
    }
    if (list) { for (auto& h : vh::harnesses()) puts(h.name); return 0; }
    if (!tags.empty()) { g_alltags = false; std::stringstream s(tags); string t; while (getline(s, t, ',')) g_tags.insert(t); }
    string line, h, id;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        std::istringstream s(line); char k; s >> k;
        if (k == 'T') { s >> h >> id; g_in.clear(); g_names.clear(); g_ch.clear(); g_cpos = 0; }
        else if (k == 'I') { string n, v; s >> n >> v; g_in[n] = v; }
        else if (k == 'C') { Ch c; string kk; s >> kk >> c.name >> c.val; c.k = kk[0]; if (c.name == "-") c.name = ""; g_ch.push_back(c); }
        else if (k == 'E') {
            printf("BEGIN %s\n", id.c_str()); fflush(stdout);
            pid_t p = fork();
            if (p == 0) {
                struct rlimit rl{4ul << 30, 4ul << 30}; setrlimit(RLIMIT_AS, &rl); struct rlimit rc{0, 0}; setrlimit(RLIMIT_CORE, &rc);
                alarm(tmo); fclose(stdin); freopen("/dev/null", "w", stderr); run_one(h);
            }
            int st; waitpid(p, &st, 0);
            if (WIFSIGNALED(st)) { int sg = WTERMSIG(st); if (sg == SIGALRM) printf("HANG\n"); else printf("CRASH %d\n", sg); }
            printf("END %s\n", id.c_str()); fflush(stdout);
        }
    }
    return 0;
}
