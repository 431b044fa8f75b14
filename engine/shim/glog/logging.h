// Stand-in for glog: counts log records per severity, evaluates operands.
#pragma once
#include <ostream>
#include <sstream>
#include <string>
namespace vxlog {
extern int g_warnings, g_errors, g_infos;
struct Sink {
    std::ostringstream s;
    explicit Sink(int sev) { if (sev == 1) ++g_warnings; else if (sev >= 2) ++g_errors; else ++g_infos; }
    template <class T> Sink& operator<<(const T& x) { s << x; return *this; }
    Sink& operator<<(std::ostream& (*f)(std::ostream&)) { s << f; return *this; }
};
struct Void { void operator&(const Sink&) {} };
}
enum { VXLOG_INFO = 0, VXLOG_WARNING = 1, VXLOG_ERROR = 2, VXLOG_FATAL = 3, VXLOG_DFATAL = 3 };
#define LOG(sev) ::vxlog::Sink(VXLOG_##sev)
#define LOG_IF(sev, c) !(c) ? (void)0 : ::vxlog::Void() & LOG(sev)
#define DLOG(sev) LOG(sev)
#define VLOG(n) ::vxlog::Sink(0)
#define LOG_FIRST_N(sev, n) LOG(sev)
#define LOG_EVERY_N(sev, n) LOG(sev)
namespace google { inline void InitGoogleLogging(const char*) {} }
inline int FLAGS_logtostderr = 0, FLAGS_minloglevel = 0;
