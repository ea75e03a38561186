// C12 (and the wrapper part of C13): random histories of wrappers and kernels against a model of what each one holds
// NEED_S11N
#include "common.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#include <dcgp/function.hpp>
#include <dcgp/kernel.hpp>
#include <memory>
using namespace rp;
using TS = pagmo::thread_safety;
static double f_add(double a, double b) { return a + b; }
static double f_sub(double a, double b) { return a - b; }
using fp = double (*)(double, double);
// callables with a value of their own, which changes at each call: copies must not share it
template <int K, TS L> struct counter {
    mutable double n = 0;
    double operator()(double a, double b) const
    {
        n += 1;
        return a * K + b + 1000 * n;
    }
    TS get_thread_safety() const { return L; }
    template <typename A> void serialize(A &ar, unsigned) { ar &n; }
};
struct plain {
    double k = 0;
    double operator()(double a, double b) const { return a * b + k; }
    template <typename A> void serialize(A &ar, unsigned) { ar &k; }
};
using C0 = counter<2, TS::none>;
using C1 = counter<3, TS::constant>;
using C2 = counter<5, TS::basic>;
DCGP_S11N_FUNCTION_EXPORT(rc0, C0, double, double, double)
DCGP_S11N_FUNCTION_EXPORT(rc1, C1, double, double, double)
DCGP_S11N_FUNCTION_EXPORT(rc2, C2, double, double, double)
DCGP_S11N_FUNCTION_EXPORT(rpl, plain, double, double, double)
using W = dcgp::function<double(double, double)>;
struct Model {
    bool valid = true;
    int kind = 0; // 0 null pointer, 1 add, 2 sub, 3..5 counters, 6 plain
    double v = 0; // counter or constant
    TS ts = TS::basic;
};
static const char *names[] = {"null function pointer", "pointer to add", "pointer to sub", "counter none", "counter constant", "counter basic", "plain functor"};
static W make(int k, double v)
{
    C0 a;
    C1 b;
    C2 c;
    plain p;
    a.n = b.n = c.n = v;
    p.k = v;
    switch (k) {
        case 0: return v > 2 ? W() : W(static_cast<fp>(nullptr));
        case 1: return v > 2 ? W(f_add) : W(&f_add);
        case 2: return W(f_sub);
        case 3: return W(a);
        case 4: return W(std::move(b));
        case 5: return W(c);
        default: return W(p);
    }
}
static Model model(int k, double v)
{
    Model m;
    m.kind = k;
    m.v = k < 3 ? 0 : v;
    m.ts = k == 3 ? TS::none : k == 4 ? TS::constant : TS::basic;
    return m;
}
static void look(const W &w, const Model &m, const std::string &who)
{
    check("C12 C13", w.is_valid() == m.valid, who + ": is_valid");
    if (!m.valid) {
        check("C12", w.extract<fp>() == nullptr && !w.is<C0>() && !w.is<plain>(), who + ": a moved-from wrapper holds something");
        return;
    }
    check("C12 C13", w.get_thread_safety() == m.ts, who + ": thread safety level of " + names[m.kind]);
    check("C12 C13", w.is<fp>() == (m.kind < 3) && w.is<C0>() == (m.kind == 3) && w.is<C1>() == (m.kind == 4) && w.is<C2>() == (m.kind == 5) && w.is<plain>() == (m.kind == 6),
          who + ": holds another type than " + names[m.kind]);
    if (m.kind == 6) check("C12 C13", w.extract<plain>() != nullptr && w.extract<plain>()->k == m.v, who + ": state of the callable");
    if (m.kind == 3) check("C12 C13", w.extract<C0>() != nullptr && w.extract<C0>()->n == m.v, who + ": state of the callable");
}
static void call(const W &w, Model &m, Rng &R, const std::string &who)
{
    double a = R.d(-3, 3), b = R.d(-3, 3), r = 0, want = 0;
    auto o = outcome([&] { r = w(a, b); });
    if (!m.valid || m.kind == 0) {
        check("C12 C13", o.find("other exception") == 0, who + ": calling what holds nothing callable ends with: " + o);
        return;
    }
    check("C12 C13", o == "ok", who + ": call of " + names[m.kind] + " ends with " + o);
    switch (m.kind) {
        case 1: want = a + b; break;
        case 2: want = a - b; break;
        case 6: want = a * b + m.v; break;
        default: m.v += 1; want = a * (m.kind == 3 ? 2 : m.kind == 4 ? 3 : 5) + b + 1000 * m.v;
    }
    check("C12 C13", r == want, who + ": " + names[m.kind] + " returned " + std::to_string(r) + " instead of " + std::to_string(want));
}
template <typename O, typename I, typename T> static void archive(const T &from, T &to)
{
    std::stringstream ss;
    {
        O o(ss);
        o << from;
    }
    I i(ss);
    i >> to;
}
static void wrappers(Rng &R)
{
    begin_case("history of wrappers");
    std::vector<W> w;
    std::vector<Model> m;
    for (int i = 0; i < 4; ++i) {
        int k = int(R.u(0, 6));
        double v = R.u(0, 5);
        w.push_back(make(k, v));
        m.push_back(model(k, v));
        step("slot " + std::to_string(i) + " = " + names[k] + "(" + std::to_string(v) + ")");
    }
    unsigned n = R.u(5, 40);
    std::string key;
    for (unsigned s = 0; s < n; ++s) {
        unsigned i = R.u(0, 3), j = R.u(0, 3), op = R.u(0, on("C13") ? 9 : 8);
        std::string si = std::to_string(i), sj = std::to_string(j);
        key += char('a' + op);
        switch (op) {
            case 0: {
                step("slot " + si + " = slot " + sj);
                w[i] = w[j];
                m[i] = m[j];
                break;
            }
            case 1: {
                step("slot " + si + " = move(slot " + sj + ")");
                w[i] = std::move(w[j]);
                if (i != j) {
                    m[i] = m[j];
                    m[j].valid = false;
                }
                break;
            }
            case 2: {
                step("swap of slots " + si + " and " + sj);
                std::swap(w[i], w[j]);
                std::swap(m[i], m[j]);
                break;
            }
            case 3: {
                step("copy of slot " + sj + " built, called and dropped");
                W c(w[j]);
                Model cm = m[j];
                look(c, cm, "copy of slot " + sj);
                call(c, cm, R, "copy of slot " + sj);
                look(c, cm, "copy of slot " + sj);
                break;
            }
            case 4: {
                step("slot " + sj + " moved into a new wrapper and back");
                W c(std::move(w[j]));
                Model gone = m[j];
                gone.valid = false;
                look(w[j], gone, "moved-from slot " + sj);
                call(w[j], gone, R, "moved-from slot " + sj);
                look(c, m[j], "move constructed from slot " + sj);
                w[j] = std::move(c);
                break;
            }
            case 5: {
                int k = int(R.u(0, 6));
                double v = R.u(0, 5);
                step("slot " + si + " = " + names[k] + "(" + std::to_string(v) + ")");
                w[i] = make(k, v);
                m[i] = model(k, v);
                break;
            }
            case 6: {
                step("value of slot " + si + " written through extract");
                if (auto p = w[i].extract<plain>()) {
                    check("C12", m[i].valid && m[i].kind == 6, "extract gives a plain functor that is not there");
                    p->k = m[i].v = R.u(0, 9);
                }
                break;
            }
            case 9: {
                if (!m[j].valid || m[j].kind < 3) break; // pointers to functions cannot be serialized
                step("slot " + sj + " saved and loaded into slot " + si);
                if (R.p(50)) archive<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(w[j], w[i]);
                else archive<boost::archive::text_oarchive, boost::archive::text_iarchive>(w[j], w[i]);
                m[i] = m[j];
                break;
            }
            default: {
                step("call of slot " + si);
                call(w[i], m[i], R, "slot " + si);
            }
        }
        for (unsigned q = 0; q < 4; ++q) look(w[q], m[q], "slot " + std::to_string(q));
    }
    done_case(key);
}
// arguments go through unchanged: references stay references, move-only values are moved, results come back as they are
struct probe {
    static inline int copies = 0;
    int v = 0;
    explicit probe(int x) : v(x) {}
    probe(const probe &o) : v(o.v) { ++copies; }
    probe(probe &&o) noexcept : v(o.v) { o.v = -1; }
};
static int &pick(int &a, const int &) { return a; }
static std::unique_ptr<int> up(std::unique_ptr<int> p, int k)
{
    *p += k;
    return p;
}
static const std::vector<double> *seen = nullptr;
static double vec(const std::vector<double> &v)
{
    seen = &v;
    return v.empty() ? -1. : v.back();
}
static int take(probe p, int &out)
{
    out = p.v;
    return p.v * 2;
}
static void forwarding(Rng &R)
{
    int k = int(R.u(1, 99));
    begin_case("forwarding, " + std::to_string(k));
    int a = k, b = 2;
    dcgp::function<int &(int &, const int &)> f(pick);
    int &r = f(a, b);
    check("C12", &r == &a, "a reference is returned as a reference to the same object");
    r = 7;
    check("C12", a == 7, "a reference argument is the caller's object");
    dcgp::function<std::unique_ptr<int>(std::unique_ptr<int>, int)> g(up);
    auto p = std::make_unique<int>(k);
    int *raw = p.get();
    auto q = g(std::move(p), 5);
    check("C12", q.get() == raw && *q == k + 5 && !p, "a move-only argument is passed on");
    dcgp::function<double(const std::vector<double> &)> h(vec);
    std::vector<double> v(R.u(0, 4), R.d(-1, 1));
    double hv = h(v);
    check("C12", seen == &v && hv == (v.empty() ? -1. : v.back()), "a const reference argument is the caller's object");
    dcgp::function<int(probe, int &)> t(take);
    int out = 0;
    check("C12", t(probe(k), out) == 2 * k && out == k, "an argument by value arrives with its value");
    auto lam = [s = std::string("state"), k](const std::string &x) { return s + x + std::to_string(k); };
    dcgp::function<std::string(const std::string &)> l(lam);
    auto l2 = l;
    l = dcgp::function<std::string(const std::string &)>(lam);
    check("C12", l2("x") == lam("x") && l("y") == lam("y"), "a closure gives what it gives without the wrapper");
    int calls = 0;
    auto thrower = [&calls](int x) -> int {
        ++calls;
        if (x < 0) throw std::out_of_range("own");
        return x;
    };
    dcgp::function<int(int)> th(thrower);
    bool own = false;
    try {
        th(-1);
    } catch (const std::out_of_range &) {
        own = true;
    }
    check("C12", own && th(k) == k && calls == 2, "an exception of the callable goes through, and each call calls once");
    done_case(std::to_string(k));
}
template <int N, TS L> struct kf {
    double s = 0;
    double operator()(const std::vector<double> &x) const { return s + N * (x.empty() ? 0. : x[0]) + double(x.size()); }
    TS get_thread_safety() const { return L; }
    template <typename A> void serialize(A &ar, unsigned) { ar &s; }
};
template <int N, TS L> struct pf {
    std::string s;
    std::string operator()(const std::vector<std::string> &x) const { return s + (x.empty() ? "-" : x.back()) + std::to_string(N); }
    TS get_thread_safety() const { return L; }
    template <typename A> void serialize(A &ar, unsigned) { ar &s; }
};
using K0 = kf<1, TS::none>;
using K1 = kf<2, TS::basic>;
using K2 = kf<3, TS::constant>;
using P0 = pf<1, TS::none>;
using P1 = pf<2, TS::basic>;
using P2 = pf<3, TS::constant>;
DCGP_S11N_FUNCTION_EXPORT(rk0, K0, double, const std::vector<double> &)
DCGP_S11N_FUNCTION_EXPORT(rk1, K1, double, const std::vector<double> &)
DCGP_S11N_FUNCTION_EXPORT(rk2, K2, double, const std::vector<double> &)
DCGP_S11N_FUNCTION_EXPORT(rp0, P0, std::string, const std::vector<std::string> &)
DCGP_S11N_FUNCTION_EXPORT(rp1, P1, std::string, const std::vector<std::string> &)
DCGP_S11N_FUNCTION_EXPORT(rp2, P2, std::string, const std::vector<std::string> &)
struct KM {
    int k, p;
    double s;
    std::string ps, name;
};
static dcgp::kernel<double> mk(const KM &m)
{
    K0 a{m.s};
    K1 b{m.s};
    K2 c{m.s};
    P0 x{m.ps};
    P1 y{m.ps};
    P2 z{m.ps};
    auto with = [&](auto f) { return m.p == 0 ? dcgp::kernel<double>(f, x, m.name) : m.p == 1 ? dcgp::kernel<double>(f, y, m.name) : dcgp::kernel<double>(f, z, m.name); };
    return m.k == 0 ? with(a) : m.k == 1 ? with(b) : with(c);
}
static KM rk(Rng &R) { return KM{int(R.u(0, 2)), int(R.u(0, 2)), R.d(-2, 2), R.of(std::vector<std::string>{"", "p", "sin("}), R.of(std::vector<std::string>{"", "sum", "my kernel"})}; }
static void klook(const dcgp::kernel<double> &k, const KM &m, Rng &R, const std::string &who)
{
    TS l[] = {TS::none, TS::basic, TS::constant};
    check("C12 C13", k.get_name() == m.name, who + ": name");
    check("C12 C13", k.get_thread_safety() == std::min(l[m.k], l[m.p]), who + ": thread safety level is not the lower one of its two callables");
    std::vector<double> v(R.u(0, 4));
    for (auto &x : v) x = R.d(-2, 2);
    check("C12 C13", k(v) == m.s + (m.k + 1) * (v.empty() ? 0. : v[0]) + double(v.size()), who + ": value");
    check("C12 C13", k({1.5, 2.}) == m.s + (m.k + 1) * 1.5 + 2., who + ": value on a list");
    std::vector<std::string> s(R.u(0, 3), "x1");
    check("C12 C13", k(s) == m.ps + (s.empty() ? "-" : "x1") + std::to_string(m.p + 1), who + ": printed form");
    std::ostringstream o;
    o << k;
    check("C12 C13", o.str() == m.name, who + ": streams its name");
}
static void kernels(Rng &R)
{
    begin_case("history of kernels");
    std::vector<dcgp::kernel<double>> k;
    std::vector<KM> m;
    for (int i = 0; i < 3; ++i) {
        m.push_back(rk(R));
        k.push_back(mk(m.back()));
    }
    std::string key;
    for (unsigned n = R.u(3, 15); n > 0; --n) {
        unsigned i = R.u(0, 2), j = R.u(0, 2), op = R.u(0, on("C13") ? 5 : 4);
        key += char('a' + op);
        step("operation " + std::to_string(op) + " on kernels " + std::to_string(i) + " and " + std::to_string(j));
        if (op == 0) k[i] = k[j], m[i] = m[j];
        else if (op == 1) std::swap(k[i], k[j]), std::swap(m[i], m[j]);
        else if (op == 2) {
            auto c = k[j];
            auto cm = m[j];
            k[j] = mk(m[j] = rk(R));
            k[i] = std::move(c);
            m[i] = cm;
        } else if (op == 3) k[i] = mk(m[i] = rk(R));
        else if (op == 4) {
            auto c = k[j];
            auto cm = m[j];
            k[j] = mk(m[j] = rk(R));
            klook(c, cm, R, "copy made before the original changed");
        } else {
            dcgp::kernel<double> fresh;
            auto &to = R.p(30) ? fresh : k[i];
            if (R.p(50)) archive<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(k[j], to);
            else archive<boost::archive::text_oarchive, boost::archive::text_iarchive>(k[j], to);
            if (&to == &k[i]) m[i] = m[j];
            klook(to, m[j], R, "loaded kernel");
        }
        for (unsigned q = 0; q < 3; ++q) klook(k[q], m[q], R, "kernel " + std::to_string(q));
    }
    done_case("k" + key);
}
int main(int argc, char **argv)
{
    init(argc, argv);
    for (std::uint64_t i = 0; time_left(); ++i) {
        Rng R(g_seed * 1000003 + i);
        if (i % 10 == 9) forwarding(R);
        else if (i % 3 == 1) kernels(R);
        else wrappers(R);
    }
    return finish();
}
