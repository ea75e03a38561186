// C11: every named kernel, for the three number types and for strings, against the function its name stands for
// NEED_S11N
#include "common.hpp"
#include <audi/audi.hpp>
#include <dcgp/kernel.hpp>
#include <dcgp/kernel_set.hpp>
#include <functional>
#include <map>
using namespace rp;
using audi::gdual_d;
using audi::gdual_v;
static const std::vector<std::string> all = {"sum", "diff", "mul", "div", "pdiv", "sig", "tanh", "ReLu", "ELU", "ISRU", "sin", "cos", "log", "exp", "gaussian", "sqrt", "psqrt",
                                             "sin_nu", "cos_nu", "gaussian_nu", "inv_sum", "abs", "step"};
static bool unary(const std::string &n) { return n == "sin" || n == "cos" || n == "log" || n == "exp" || n == "gaussian" || n == "sqrt" || n == "psqrt"; }
static double val(double x) { return x; }
static double val(const gdual_d &x) { return x.constant_cf(); }
static double val(const gdual_v &x) { return x.constant_cf()[0]; }
// the function, from its name alone
template <typename T> static T oracle(const std::string &n, const std::vector<T> &a)
{
    T s = a[0], m = a[0], d = a[0], q = a[0], one(1.), zero(0.);
    for (std::size_t i = 1; i < a.size(); ++i) s = s + a[i], m = m * a[i], d = d - a[i], q = q / a[i];
    if (n == "sum") return s;
    if (n == "diff") return d;
    if (n == "mul") return m;
    if (n == "div") return q;
    if (n == "sig") return one / (one + audi::exp(-s));
    if (n == "tanh") return audi::tanh(s);
    if (n == "ReLu") return val(s) < 0 ? zero : s;
    if (n == "ELU") return val(s) < 0 ? T(audi::exp(s) - one) : s;
    if (n == "ISRU") return s / audi::sqrt(one + s * s);
    if (n == "sin_nu") return audi::sin(s);
    if (n == "cos_nu") return audi::cos(s);
    if (n == "gaussian_nu") return audi::exp(-(s * s));
    if (n == "inv_sum") return -s;
    if (n == "abs") return audi::abs(s);
    if (n == "step") return val(s) < 0 ? zero : one;
    if (n == "sin") return audi::sin(a[0]);
    if (n == "cos") return audi::cos(a[0]);
    if (n == "log") return audi::log(a[0]);
    if (n == "exp") return audi::exp(a[0]);
    if (n == "gaussian") return audi::exp(-(a[0] * a[0]));
    if (n == "sqrt") return audi::sqrt(a[0]);
    return audi::sqrt(audi::abs(a[0]));
}
// the printed form, read as an expression in the names of the arguments
struct Parser {
    const std::string &t;
    std::function<double(const std::string &)> var;
    std::size_t i = 0;
    void need(const std::string &c)
    {
        if (t.compare(i, c.size(), c) != 0) throw std::runtime_error("'" + c + "' expected at " + std::to_string(i));
        i += c.size();
    }
    double expr()
    {
        double v = term();
        while (i < t.size() && (t[i] == '+' || t[i] == '-')) {
            char c = t[i++];
            double w = term();
            v = c == '+' ? v + w : v - w;
        }
        return v;
    }
    double term()
    {
        double v = factor();
        while (i < t.size() && ((t[i] == '*' && t.compare(i, 2, "**") != 0) || t[i] == '/')) {
            char c = t[i++];
            double w = factor();
            v = c == '*' ? v * w : v / w;
        }
        return v;
    }
    double factor()
    {
        if (i < t.size() && t[i] == '-') {
            ++i;
            return -factor();
        }
        double v = atom();
        if (t.compare(i, 2, "**") == 0) {
            i += 2;
            v = std::pow(v, factor());
        }
        return v;
    }
    double atom()
    {
        if (i < t.size() && t[i] == '(') {
            ++i;
            double v = expr();
            need(")");
            return v;
        }
        std::string w;
        while (i < t.size() && (std::isalnum(static_cast<unsigned char>(t[i])) || t[i] == '_' || t[i] == '.')) w += t[i++];
        if (w.empty()) throw std::runtime_error("operand expected at " + std::to_string(i));
        if (std::isdigit(static_cast<unsigned char>(w[0]))) return std::stod(w);
        if (i < t.size() && t[i] == '(') {
            ++i;
            double v = expr();
            need(")");
            static const std::map<std::string, std::function<double(double)>> f = {
                {"sin", [](double x) { return std::sin(x); }}, {"cos", [](double x) { return std::cos(x); }}, {"log", [](double x) { return std::log(x); }},
                {"exp", [](double x) { return std::exp(x); }}, {"sqrt", [](double x) { return std::sqrt(x); }}, {"abs", [](double x) { return std::abs(x); }},
                {"tanh", [](double x) { return std::tanh(x); }}, {"sig", [](double x) { return 1. / (1. + std::exp(-x)); }}, {"ReLu", [](double x) { return x < 0 ? 0. : x; }},
                {"ELU", [](double x) { return x < 0 ? std::exp(x) - 1. : x; }}, {"ISRU", [](double x) { return x / std::sqrt(1. + x * x); }}, {"step", [](double x) { return x < 0 ? 0. : 1.; }}};
            auto it = f.find(w);
            if (it == f.end()) throw std::runtime_error("function " + w);
            return it->second(v);
        }
        return var(w);
    }
    double all()
    {
        double v = expr();
        if (i != t.size()) throw std::runtime_error("text left at " + std::to_string(i));
        return v;
    }
};
static double number(Rng &R)
{
    switch (R.u(0, 9)) {
        case 0: return 0.;
        case 1: return double(R.u(0, 6)) - 3.;
        case 2: return double(R.u(0, 16)) / 8. - 1.;
        default: return R.d(-3, 3);
    }
}
static bool sharp(const std::string &n, const std::vector<double> &x)
{
    // within rounding of a jump or kink of the function
    double s = 0;
    bool exact = true;
    for (double v : x) s += v, exact = exact && v * 8 == std::floor(v * 8);
    return !exact && std::abs(s) < 1e-9 && (n == "step" || n == "ReLu" || n == "ELU" || n == "abs");
}
static void one(const std::string &n, Rng &R)
{
    begin_case("kernel " + n);
    dcgp::kernel_set<double> ks({n});
    check("C11", ks().size() == 1 && ks[0].get_name() == n && ks()[0].get_name() == n, "name of the kernel");
    auto k = ks[0];
    for (int rep = 0; rep < 6; ++rep) {
        unsigned len = R.p(20) ? R.u(6, 30) : R.u(1, 5);
        std::vector<double> x(len);
        std::vector<std::string> nm(len);
        for (unsigned i = 0; i < len; ++i) {
            x[i] = number(R);
            nm[i] = (R.p(50) ? "x" : "c") + std::to_string(i);
        }
        step("arguments " + str(x));
        if (sharp(n, x)) continue;
        double v = k(x), w;
        if (n == "pdiv") {
            double q = 1;
            for (unsigned i = 1; i < len; ++i) q *= x[i];
            w = std::isfinite(x[0] / q) ? x[0] / q : 1.;
            check("C11", std::isfinite(v), "protected division is " + std::to_string(v));
        } else w = oracle(n, x);
        if (n == "psqrt") check("C11", std::isfinite(v), "protected square root is " + std::to_string(v));
        check("C11", close(v, w, 1e-10), "value is " + std::to_string(v) + ", the function named gives " + std::to_string(w));
        std::string t = k(nm);
        step("printed: " + t);
        double p = 0;
        try {
            Parser P{t, [&](const std::string &s) -> double {
                         for (unsigned i = 0; i < len; ++i)
                             if (nm[i] == s) return x[i];
                         throw std::runtime_error("operand " + s);
                     }};
            p = P.all();
        } catch (const std::exception &e) {
            check("C11", false, std::string("printed form cannot be read: ") + e.what());
        }
        // the protection of pdiv is not in its printed form
        if (n != "pdiv" || std::isfinite(p)) check("C11", close(v, p, 1e-9), "the printed form is " + std::to_string(p) + ", the value " + std::to_string(v));
        if (len == 2) check("C11", same(k({x[0], x[1]}), v), "value on a list");
        if (n == "pdiv") continue;
        // differential numbers: values and first derivatives
        dcgp::kernel_set<gdual_d> kd({n});
        std::vector<gdual_d> g;
        for (unsigned i = 0; i < len; ++i) g.emplace_back(x[i], "y" + std::to_string(i), 2u);
        auto a = kd[0](g), b = oracle(n, g);
        check("C11", kd[0].get_name() == n && kd[0](nm) == t, "name or printed form of the differential kernel");
        check("C11", close(a.constant_cf(), w, 1e-10), "value of the differential kernel is " + std::to_string(a.constant_cf()) + ", the function named gives " + std::to_string(w));
        for (unsigned i = 0; i < len; ++i) {
            std::string s = "dy" + std::to_string(i);
            check("C11", close(a.getg(s), b.getg(s), 1e-7) || !std::isfinite(b.getg(s)), "derivative of the differential kernel in argument " + std::to_string(i) + " is " + std::to_string(a.getg(s)));
            check("C11", close(a.geth(s, "dy0"), b.geth(s, "dy0"), 1e-6) || !std::isfinite(b.geth(s, "dy0")), "second derivative of the differential kernel in argument " + std::to_string(i));
        }
        // vectorised: every lane by itself
        dcgp::kernel_set<gdual_v> kv({n});
        unsigned lanes = R.u(1, 4);
        std::vector<std::vector<double>> y(lanes, std::vector<double>(len));
        for (unsigned q = 0; q < lanes; ++q)
            for (unsigned i = 0; i < len; ++i) y[q][i] = q ? number(R) : x[i];
        std::vector<gdual_v> gv;
        for (unsigned i = 0; i < len; ++i) {
            std::vector<double> l(lanes);
            for (unsigned q = 0; q < lanes; ++q) l[q] = y[q][i];
            gv.emplace_back(audi::vectorized<double>(l), "y" + std::to_string(i), 2u);
            step("lanes of argument " + std::to_string(i) + ": " + str(l));
        }
        auto c = kv[0](gv);
        check("C11", kv[0].get_name() == n && kv[0](nm) == t, "name or printed form of the vectorised kernel");
        for (unsigned q = 0; q < lanes; ++q) {
            if (sharp(n, y[q])) continue;
            std::vector<gdual_d> gq;
            for (unsigned i = 0; i < len; ++i) gq.emplace_back(y[q][i], "y" + std::to_string(i), 2u);
            auto o = oracle(n, gq);
            check("C11", close(c.constant_cf()[q], o.constant_cf(), 1e-10), "lane " + std::to_string(q) + " of the vectorised kernel is " + std::to_string(c.constant_cf()[q]));
            for (unsigned i = 0; i < len; ++i) {
                std::string s = "dy" + std::to_string(i);
                check("C11", close(c.getg(s)[q], o.getg(s), 1e-7) || !std::isfinite(o.getg(s)), "lane " + std::to_string(q) + " of the derivative of the vectorised kernel is " + std::to_string(c.getg(s)[q]));
                check("C11", close(c.geth(s, "dy0")[q], o.geth(s, "dy0"), 1e-6) || !std::isfinite(o.geth(s, "dy0")), "lane " + std::to_string(q) + " of the second derivative of the vectorised kernel");
            }
        }
    }
    done_case(n + std::to_string(R.s % 4096));
}
static void extremes(Rng &R)
{
    begin_case("protection on extreme finite arguments");
    dcgp::kernel_set<double> ks({"pdiv", "psqrt"});
    std::vector<double> ext = {0., -0., 1e308, -1e308, 5e-324, -5e-324, 1e-300, 1., -1., 1e200, std::numeric_limits<double>::max()};
    if (R.p(30)) ext.push_back(std::numeric_limits<double>::infinity()), ext.push_back(std::nan(""));
    std::vector<double> x(R.u(1, 5));
    for (auto &v : x) v = R.of(ext);
    step("arguments " + str(x));
    double v = ks[0](x);
    check("C11", std::isfinite(v), "protected division is not finite");
    if (x.size() == 2) check("C11", v == (std::isfinite(x[0] / x[1]) ? x[0] / x[1] : 1.), "protected division is " + std::to_string(v));
    if (std::isfinite(x[0])) check("C11", std::isfinite(ks[1](x)) && close(ks[1](x), std::sqrt(std::abs(x[0]))), "protected square root is " + std::to_string(ks[1](x)));
    done_case(str(x));
}
template <typename T> static void sets(Rng &R)
{
    begin_case("history of a kernel set");
    std::vector<std::string> ok = all;
    bool d = std::is_same<T, double>::value;
    if (!d) ok.erase(ok.begin() + 4);
    std::vector<std::string> bad = {"", "Sum", "relu", "RELU", "elu", "isru", "sum ", "my_sum", "sinn", "si", "gaussian_", "gaussian_n", "pdivv", "inv", "tan", "step_nu", "x"};
    if (!d) bad.push_back("pdiv");
    std::vector<std::string> names;
    for (unsigned n = R.u(0, 5); n > 0; --n) names.push_back(R.of(ok));
    auto ks = names.empty() && R.p(50) ? dcgp::kernel_set<T>() : dcgp::kernel_set<T>(names);
    std::string key;
    auto look = [&]() {
        auto v = ks();
        check("C11", v.size() == names.size(), "the set holds " + std::to_string(v.size()) + " kernels instead of " + std::to_string(names.size()));
        std::string txt;
        std::vector<std::string> arg = {"a", "b"};
        for (unsigned i = 0; i < names.size(); ++i) {
            dcgp::kernel_set<T> lone({names[i]});
            check("C11", v[i].get_name() == names[i] && ks[i].get_name() == names[i], "kernel " + std::to_string(i) + " is " + v[i].get_name() + " instead of " + names[i]);
            check("C11", v[i](arg) == lone[0](arg) && ks[i](arg) == lone[0](arg), "kernel " + std::to_string(i) + " prints another function than its name says");
            std::vector<T> x = {T(1.25), T(0.75)};
            check("C11", same(val(v[i](x)), val(lone[0](x))) && same(val(ks[i](x)), val(lone[0](x))), "kernel " + std::to_string(i) + " computes another function than its name says");
            txt += (i ? ", " : "") + names[i];
        }
        std::ostringstream o;
        o << ks;
        check("C11", o.str() == "[" + txt + "]", "streamed as " + o.str());
    };
    look();
    for (unsigned n = R.u(1, 12); n > 0; --n) {
        unsigned op = R.u(0, 9);
        key += char('a' + op);
        if (op < 4) {
            names.push_back(R.of(ok));
            step("push_back(" + names.back() + ")");
            ks.push_back(names.back());
        } else if (op < 6) {
            std::string b = R.of(bad);
            step("push_back(" + b + "), an unknown name");
            check("C11", outcome([&] { ks.push_back(b); }) == "invalid_argument", "an unknown name is not rejected with an invalid-argument error");
        } else if (op == 6) {
            step("clear");
            ks.clear();
            names.clear();
        } else if (op == 7) {
            std::string nm = R.of(ok);
            step("push_back of the kernel " + nm);
            dcgp::kernel_set<T> o({R.of(ok), nm});
            ks.push_back(o[1]);
            names.push_back(nm);
        } else if (op == 8) {
            std::vector<std::string> l = names;
            l.insert(l.begin() + R.u(0, unsigned(l.size())), R.of(bad));
            step("constructor with an unknown name");
            check("C11", outcome([&] { dcgp::kernel_set<T> t(l); }) == "invalid_argument", "an unknown name is not rejected with an invalid-argument error");
        } else {
            step("copy");
            auto c = ks;
            ks.clear();
            ks = c;
            c.push_back("sum");
        }
        look();
    }
    done_case(key);
}
int main(int argc, char **argv)
{
    init(argc, argv);
    for (std::uint64_t i = 0; time_left(); ++i) {
        Rng R(g_seed * 1000003 + i);
        one(all[i % all.size()], R);
        extremes(R);
        if (i % 3 == 0) sets<double>(R);
        if (i % 3 == 1) sets<gdual_d>(R);
        if (i % 3 == 2) sets<gdual_v>(R);
    }
    return finish();
}
