// Symbolic regression problems for the harnesses: random problems and decision vectors, and what they should give.
#ifndef DCV_REPLAY_SR
#define DCV_REPLAY_SR
#include "graph.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <dcgp/problems/symbolic_regression.hpp>
#include <pagmo/problem.hpp>
using namespace rp;
using SR = dcgp::symbolic_regression;
using VV = std::vector<VD>;
using GV = audi::gdual_v;
// phenotype corrections
struct PC {
    double k = 1;
    template <typename T> std::vector<T> operator()(const std::vector<T> &x, std::function<std::vector<T>(const std::vector<T> &)> g) const
    {
        auto r = g(x);
        for (auto &v : r) v = v * T(k) + x[0];
        return r;
    }
    template <typename A> void serialize(A &ar, unsigned) { ar &k; }
};
using FD = std::function<VD(const VD &)>;
using FG = std::function<std::vector<GV>(const std::vector<GV> &)>;
struct PCD {
    double k = 1;
    VD operator()(const VD &x, FD g) const { return PC{k}.operator()<double>(x, g); }
    template <typename A> void serialize(A &ar, unsigned) { ar &k; }
};
struct PCG {
    double k = 1;
    std::vector<GV> operator()(const std::vector<GV> &x, FG g) const { return PC{k}.operator()<GV>(x, g); }
    template <typename A> void serialize(A &ar, unsigned) { ar &k; }
};
DCGP_S11N_FUNCTION_EXPORT(rppcd, PCD, VD, const VD &, FD)
DCGP_S11N_FUNCTION_EXPORT(rppcg, PCG, std::vector<GV>, const std::vector<GV> &, FG)

struct Case {
    Shape s;
    VS kn;
    VV X, Y;
    bool mo = false;
    unsigned par = 0, seed = 0;
    std::string loss = "MSE";
    bool pc = false;
    double k = 1;
    bool pdiv() const { return std::find(kn.begin(), kn.end(), "pdiv") != kn.end(); }
    std::vector<dcgp::kernel<double>> f() const { return dcgp::kernel_set<double>(kn)(); }
    SR build() const { return SR(X, Y, s.r, s.c, s.l, s.arity[0], f(), s.neph, mo, par, loss, seed); }
    std::string text() const { return s.text() + " kernels " + str(kn) + " loss " + loss + (mo ? " multi" : "") + " batches " + std::to_string(par) + " points " + std::to_string(X.size()); }
};
static Case random_case(Rng &R)
{
    Case c;
    c.s.n = R.u(1, 3);
    c.s.m = R.u(1, 3);
    c.s.r = R.u(1, 3);
    c.s.c = R.u(1, 5);
    c.s.l = R.u(1, c.s.c + 2);
    c.s.arity.assign(c.s.c, R.u(2, 4));
    c.s.neph = R.p(20) ? 0 : R.p(12) ? R.u(10, 13) : R.u(1, 4);
    static const VS any = {"sum", "diff", "mul", "pdiv", "sig", "tanh", "ELU", "ISRU", "sin", "cos", "gaussian", "sin_nu", "cos_nu", "gaussian_nu", "inv_sum", "ReLu", "abs", "step"};
    c.s.nf = R.u(1, 5);
    for (unsigned i = 0; i < c.s.nf; ++i) c.kn.push_back(R.p(50) ? any[R.u(0, R.p(30) ? 3 : 2)] : R.of(any));
    unsigned N = R.p(20) ? 1 : R.u(2, 12);
    for (unsigned i = 0; i < N; ++i) {
        VD x, y;
        for (unsigned j = 0; j < c.s.n; ++j) x.push_back(R.d(-2, 2));
        for (unsigned j = 0; j < c.s.m; ++j) y.push_back(R.d(0, 1));
        c.X.push_back(x);
        c.Y.push_back(y);
    }
    c.mo = R.p(40);
    c.loss = R.p(70) ? "MSE" : "CE";
    if (c.loss == "CE")
        for (auto &y : c.Y) {
            double t = 0;
            for (double v : y) t += v;
            for (double &v : y) v /= t;
        }
    if (R.p(40))
        do c.par = R.u(1, N);
        while (N % c.par);
    c.seed = unsigned(R.next());
    return c;
}
static VD random_x(Rng &R, const Case &c)
{
    VD x;
    for (unsigned i = 0; i < c.s.neph; ++i) x.push_back(R.p(15) ? double(R.u(0, 4)) - 2 : R.d(-3, 3));
    VU lb, ub;
    c.s.bounds(lb, ub);
    bool chain = R.p(60);
    for (unsigned i = 0; i < lb.size(); ++i) x.push_back(chain && R.p(50) ? ub[i] : R.u(lb[i], ub[i]));
    if (R.p(30) && c.s.neph)
        // outputs near the constants
        for (unsigned v = c.s.ni(); v < c.s.nodes(); ++v)
            for (unsigned j = 0; j < c.s.ar(v); ++j) {
                unsigned g = c.s.gene(v) + 1 + j, q = c.s.n + R.u(0, c.s.neph - 1);
                if (lb[g] <= q && q <= ub[g] && R.p(40)) x[c.s.neph + g] = q;
            }
    return x;
}
static dcgp::expression<double> decode(const Case &c, const VD &x)
{
    dcgp::expression<double> e(c.s.n, c.s.m, c.s.r, c.s.c, c.s.l, c.s.arity[0], c.f(), c.s.neph, 1u);
    VU g;
    for (unsigned i = c.s.neph; i < x.size(); ++i) g.push_back(unsigned(x[i]));
    e.set(g);
    e.set_eph_val(VD(x.begin(), x.begin() + c.s.neph));
    if (c.pc) e.set_phenotype_correction(PCD{c.k});
    return e;
}
static double one_loss(const std::string &l, const VD &o, const VD &y)
{
    double r = 0;
    if (l == "MSE") {
        for (unsigned i = 0; i < o.size(); ++i) r += (o[i] - y[i]) * (o[i] - y[i]);
        return r / double(o.size());
    }
    double t = 0;
    for (double v : o) t += std::exp(v);
    for (double v : o)
        if (!(std::abs(v) < 30)) return NAN; // nothing is said about overflow
    for (unsigned i = 0; i < o.size(); ++i) r -= y[i] * (o[i] - std::log(t));
    return r;
}
static double score(const Case &c, const VD &x)
{
    auto e = decode(c, x);
    double t = 0;
    for (unsigned i = 0; i < c.X.size(); ++i) t += one_loss(c.loss, e(c.X[i]), c.Y[i]);
    return t / double(c.X.size());
}
static bool small(const audi::gdual_d &d)
{
    // magnitudes at which cancellation is no concern
    bool r = std::abs(d.constant_cf()) < 1e3;
    for (auto &p : d.m_g) r = r && std::abs(p.second) < 1e3;
    for (auto &p : d.m_h) r = r && std::abs(p.second) < 1e3;
    return r;
}
static bool g_mild = true;
static bool mild(const audi::gdual_d &d) { return g_mild && small(d); }
// loss with its derivatives in the constants, sample after sample
static audi::gdual_d dscore(const Case &c, const VD &x, unsigned order)
{
    using G = audi::gdual_d;
    dcgp::kernel_set<G> ks;
    for (auto &n : c.kn) ks.push_back(n == "pdiv" ? "div" : n);
    dcgp::expression<G> e(c.s.n, c.s.m, c.s.r, c.s.c, c.s.l, c.s.arity[0], ks(), c.s.neph, 1u);
    VU g;
    for (unsigned i = c.s.neph; i < x.size(); ++i) g.push_back(unsigned(x[i]));
    e.set(g);
    std::vector<G> k;
    for (unsigned i = 0; i < c.s.neph; ++i) k.emplace_back(x[i], "k" + std::to_string(i), order);
    e.set_eph_val(k);
    G t(0.);
    g_mild = true;
    for (unsigned i = 0; i < c.X.size(); ++i) {
        std::vector<G> in;
        for (double v : c.X[i]) in.emplace_back(v);
        auto o = e(in);
        if (c.pc)
            for (auto &v : o) v = v * G(c.k) + in[0];
        for (auto &v : o) g_mild = g_mild && small(v) && (c.loss == "MSE" || std::abs(v.constant_cf()) < 12);
        G l(0.);
        if (c.loss == "MSE") {
            for (unsigned j = 0; j < o.size(); ++j) l = l + (o[j] - c.Y[i][j]) * (o[j] - c.Y[i][j]) / double(o.size());
        } else {
            G z(0.);
            for (auto &v : o) z = z + audi::exp(v);
            for (unsigned j = 0; j < o.size(); ++j) l = l - c.Y[i][j] * (o[j] - audi::log(z));
        }
        t = t + l;
    }
    return t / double(c.X.size());
}
template <typename T> static std::string txt(const T &x)
{
    std::ostringstream o;
    audi::stream(o, x);
    return o.str();
}
static bool sane(double v) { return std::isfinite(v) && std::abs(v) < 1e8; }
template <typename O, typename I, typename T> static void archive(const T &from, T &to)
{
    std::stringstream s;
    {
        O o(s);
        o << from;
    }
    I i(s);
    i >> to;
}
template <typename T> static void through(const T &from, T &to, Rng &R, bool finite)
{
    if (!finite || R.p(60)) archive<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(from, to);
    else archive<boost::archive::text_oarchive, boost::archive::text_iarchive>(from, to);
}
#endif
