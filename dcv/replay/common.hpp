// Shared parts of the replay harnesses: they run the real code of /repo on generated inputs and compare it with
// oracles written from the property statements. A harness ends with 0 (nothing found) or 1 and one line
// "FAIL <property> <what>" preceded by the failing history. The search is bounded (stated in the evidence).
#ifndef DCV_REPLAY_COMMON
#define DCV_REPLAY_COMMON
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <iomanip>
#include <iostream>
#include <limits>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <unistd.h>

namespace rp
{
struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed) : s(seed * 2654435769u + 88172645463325252ull) {}
    std::uint64_t next()
    {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        return s;
    }
    // uniform in [a, b]
    unsigned u(unsigned a, unsigned b) { return a + static_cast<unsigned>((next() >> 11) % (std::uint64_t(b - a) + 1)); }
    bool p(unsigned percent) { return u(1, 100) <= percent; }
    double d(double a, double b) { return a + (b - a) * (double(next() >> 11) / 9007199254740992.0); }
    template <typename T> const T &of(const std::vector<T> &v) { return v[u(0, unsigned(v.size() - 1))]; }
};

inline std::string g_prop = "?";
inline std::vector<std::string> g_log;
inline unsigned long g_cases = 0, g_checks = 0;
inline std::set<std::string> g_distinct;
inline std::vector<std::string> g_samples;
inline std::chrono::steady_clock::time_point g_start;
inline double g_budget = 20;
inline std::uint64_t g_seed = 1;

inline void watchdog(unsigned seconds = 60) { alarm(seconds); }
inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_start).count(); }
inline bool time_left() { return elapsed() < g_budget; }
inline void begin_case(const std::string &what)
{
    g_log.clear();
    g_log.push_back(what);
    ++g_cases;
    watchdog();
}
inline void step(const std::string &s) { g_log.push_back(s); }
inline void done_case(const std::string &key)
{
    if (g_distinct.size() < 2000000) g_distinct.insert(key);
    if (g_samples.size() < 3 && g_log.size() > 1) {
        std::string t;
        for (auto &l : g_log) t += (t.empty() ? "" : " | ") + l;
        g_samples.push_back(t.substr(0, 600));
    }
}
[[noreturn]] inline void fail(const std::string &msg)
{
    std::cout << "--- failing history (replay: the harness with the same seed runs it again) ---\n";
    for (auto &l : g_log) std::cout << "  " << l << "\n";
    std::cout << "FAIL " << g_prop << " " << msg << std::endl;
    std::_Exit(1);
}
// A crash or a call that does not return is a failing history as well.
extern "C" inline void on_signal(int sig)
{
    std::cout << "--- failing history (replay: the harness with the same seed runs it again) ---\n";
    for (auto &l : g_log) std::cout << "  " << l << "\n";
    std::cout << "FAIL " << g_prop << (sig == SIGALRM ? " the last operation does not return" : " the last operation crashes with signal ") << (sig == SIGALRM ? std::string() : std::to_string(sig)) << std::endl;
    std::_Exit(1);
}
inline void check(const char *props, bool ok, const std::string &msg)
{
    // props: the properties this assertion belongs to, for instance "C01 C06"
    if (std::strstr(props, g_prop.c_str()) == nullptr) return;
    ++g_checks;
    if (!ok) fail(msg);
}
inline bool on(const char *props) { return std::strstr(props, g_prop.c_str()) != nullptr; }
inline void init(int argc, char **argv)
{
    if (argc > 1) g_prop = argv[1];
    if (argc > 2) g_seed = std::strtoull(argv[2], nullptr, 10);
    if (argc > 3) g_budget = std::atof(argv[3]);
    g_start = std::chrono::steady_clock::now();
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGALRM}) std::signal(s, on_signal);
}
inline std::string esc(const std::string &s)
{
    std::string o;
    for (char c : s) {
        if (c == '"' || c == '\\') o += '\\';
        if (c == '\n' || c == '\t') o += ' ';
        else if (static_cast<unsigned char>(c) >= 32) o += c;
    }
    return o;
}
inline int finish()
{
    std::cout << "{\"cases\": " << g_cases << ", \"checks\": " << g_checks << ", \"distinct\": " << g_distinct.size() << ", \"seconds\": " << elapsed()
              << ", \"samples\": [";
    for (std::size_t i = 0; i < g_samples.size(); ++i) std::cout << (i ? ", " : "") << '"' << esc(g_samples[i]) << '"';
    std::cout << "]}" << std::endl;
    return 0;
}
template <typename V> std::string str(const V &v)
{
    std::ostringstream o;
    o << std::setprecision(17) << "[";
    bool f = true;
    for (const auto &x : v) {
        o << (f ? "" : ",") << x;
        f = false;
    }
    o << "]";
    return o.str();
}
template <typename F> std::string outcome(F f)
{
    // "ok", "invalid_argument" or the kind of another exception
    try {
        f();
        return "ok";
    } catch (const std::invalid_argument &) {
        return "invalid_argument";
    } catch (const std::exception &e) {
        return std::string("other exception: ") + e.what();
    } catch (...) {
        return "unknown exception";
    }
}
inline bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
inline bool same(const std::vector<double> &a, const std::vector<double> &b)
{
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i)
        if (!same(a[i], b[i])) return false;
    return true;
}
inline bool close(double a, double b, double tol = 1e-9)
{
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return a == b;
    return std::abs(a - b) <= tol * (1. + std::max(std::abs(a), std::abs(b)));
}
} // namespace rp
#endif
