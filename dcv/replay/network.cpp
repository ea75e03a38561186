// Evaluation, weights, loss, gradients and gradient descent of expressions against oracles written from the property
// statements: C03 (numeric values), C04 (symbolic values), C07 (addressing of weights and biases), C08 (gradients),
// C09 (stochastic gradient descent), C10 (loss).
#include "graph.hpp"
#include <functional>
#include <map>

using namespace rp;
using EX = dcgp::expression<double>;
using EW = dcgp::expression_weighted<double>;
using EA = dcgp::expression_ann;

// first weight of a node
static unsigned woff(const Shape &s, unsigned v) { return s.gene(v) - (v - s.ni()); }
static unsigned nweights(const Shape &s) { return woff(s, s.nodes()); }

struct Net {
    Shape s;
    VU x;
    VD w, b; // empty: not used
    std::vector<dcgp::kernel<double>> f;
    VD in; // inputs including the constants
    std::map<unsigned, double> memo;
    double arg(unsigned v, unsigned j)
    {
        unsigned g = s.gene(v);
        double a = value(x[g + 1 + j]);
        if (!w.empty()) a = a * w[woff(s, v) + j];
        if (!b.empty() && j == 0) a += b[v - s.ni()];
        return a;
    }
    double value(unsigned v)
    {
        if (v < s.ni()) return in[v];
        auto it = memo.find(v);
        if (it != memo.end()) return it->second;
        VD a;
        for (unsigned j = 0; j < s.ar(v); ++j) a.push_back(arg(v, j));
        return memo[v] = f[x[s.gene(v)]](a);
    }
    VD outputs(const VD &point)
    {
        in = point;
        memo.clear();
        VD r;
        for (unsigned i = 0; i < s.m; ++i) r.push_back(value(x[x.size() - s.m + i]));
        return r;
    }
};

struct SNet {
    Shape s;
    VU x;
    int fam; // 0 plain, 1 weighted, 2 ann
    std::vector<dcgp::kernel<double>> f;
    VS in;
    std::map<unsigned, std::string> memo;
    std::size_t total = 0;
    std::string value(unsigned v)
    {
        if (v < s.ni()) return in[v];
        auto it = memo.find(v);
        if (it != memo.end()) return it->second;
        VS a;
        unsigned g = s.gene(v);
        for (unsigned j = 0; j < s.ar(v); ++j) {
            std::string t = value(x[g + 1 + j]), nm = "w" + std::to_string(v) + "_" + std::to_string(j);
            if (fam == 1) t = "(" + nm + "*" + t + ")";
            if (fam == 2) t = nm + "*" + t;
            if (fam == 2 && j == 0) t = "b" + std::to_string(v) + "+" + t;
            a.push_back(t);
        }
        std::string r = f[x[g]](a);
        total += r.size();
        return memo[v] = r;
    }
    // length the strings would have: formulas can grow exponentially with the number of columns
    double length(unsigned v, std::map<unsigned, double> &lm)
    {
        if (v < s.ni()) return 2;
        auto it = lm.find(v);
        if (it != lm.end()) return it->second;
        double t = 12;
        for (unsigned j = 0; j < s.ar(v); ++j) t += 30 + 2 * length(x[s.gene(v) + 1 + j], lm);
        return lm[v] = t;
    }
};

static double pick(Rng &R)
{
    if (R.p(6)) return 0.;
    if (R.p(3)) return R.p(50) ? 1e6 : -1e6;
    if (R.p(2)) return std::numeric_limits<double>::quiet_NaN();
    return R.d(-2.5, 2.5);
}
static VD vec(Rng &R, unsigned n)
{
    VD r;
    for (unsigned i = 0; i < n; ++i) r.push_back(pick(R));
    return r;
}
static VD finite(Rng &R, unsigned n, double a = -1.5, double b = 1.5)
{
    VD r;
    for (unsigned i = 0; i < n; ++i) r.push_back(R.d(a, b));
    return r;
}

template <typename E> void churn(E &e, const Shape &s, Rng &R)
{
    VU lb, ub;
    s.bounds(lb, ub);
    unsigned k = R.u(0, 4);
    for (unsigned i = 0; i < k; ++i) {
        unsigned op = R.u(0, 7);
        step("operation " + std::to_string(op));
        if (op == 0) e.mutate_random(R.u(1, 5));
        if (op == 1) e.mutate_active(R.u(1, 5));
        if (op == 2) e.mutate_active_cgene(R.u(1, 3));
        if (op == 3) e.mutate_active_fgene(R.u(1, 3));
        if (op == 4) e.mutate_ogene(R.u(1, 3));
        if (op == 5) e.mutate(R.u(0, s.size() - 1));
        if (op == 6) {
            VU x;
            for (unsigned j = 0; j < s.size(); ++j) x.push_back(R.u(lb[j], ub[j]));
            e.set(x);
        }
        if (op == 7) e.set_f_gene(R.u(s.ni(), s.nodes() - 1), R.u(0, s.nf - 1));
    }
}

template <typename E> void evaluate(Rng &R)
{
    using M = make<E>;
    Shape s = random_shape(R, M::eph);
    auto f = kernels(s.nf, R, M::ann);
    begin_case(std::string("evaluate ") + M::name() + " " + s.text());
    E e = M::with(s, f, unsigned(R.next()));
    Net n;
    n.s = s;
    n.f = f;
    SNet q;
    q.s = s;
    q.f = f;
    q.fam = M::ann ? 2 : (M::eph ? 0 : 1);
    VD consts;
    VS names;
    consts = e.get_eph_val();
    names = e.get_eph_symb();
    check("C03 C04", consts.size() == s.neph && names.size() == s.neph, "number of ephemeral constants");
    for (unsigned round = 0; round < 3; ++round) {
        churn(e, s, R);
        if constexpr (M::eph) {
            if (s.neph && R.p(50)) {
                consts = vec(R, s.neph);
                e.set_eph_val(consts);
                step("constants " + str(consts));
            }
            if (s.neph && R.p(50)) {
                for (auto &t : names) t = std::string(1, char('p' + R.u(0, 5))) + std::to_string(R.u(0, 99));
                e.set_eph_symb(names);
            }
        } else {
            if (R.p(70)) {
                VD w = vec(R, nweights(s));
                e.set_weights(w);
                n.w = w;
            } else if (n.w.empty()) n.w.assign(nweights(s), 1.);
            if constexpr (M::ann) {
                if (R.p(70)) {
                    VD b = vec(R, s.r * s.c);
                    e.set_biases(b);
                    n.b = b;
                } else if (n.b.empty()) n.b.assign(s.r * s.c, 0.);
            }
        }
        n.x = q.x = e.get();
        step("chromosome " + str(n.x) + " weights " + str(n.w) + " biases " + str(n.b));
        for (unsigned k = 0; k < 3 && on("C03"); ++k) {
            VD p = vec(R, s.n), full = p;
            full.insert(full.end(), consts.begin(), consts.end());
            step("point " + str(p));
            VD want = n.outputs(full), got = e(p);
            bool ok = want.size() == got.size();
            for (unsigned i = 0; ok && i < want.size(); ++i) ok = close(want[i], got[i]);
            check("C03", ok, "value " + str(got) + " but the graph encodes " + str(want));
            if (s.n == 2) check("C03", e({p[0], p[1]}).size() == s.m && close(e({p[0], p[1]})[0], want[0]), "value at an initializer list");
        }
        if (on("C03")) {
            for (unsigned d : {0u, s.n - 1, s.n + 1, s.n + s.neph, 2 * s.n + 3})
                if (d != s.n) {
                    std::string o = outcome([&] { e(VD(d, .5)); });
                    check("C03", o == "invalid_argument", "a point of size " + std::to_string(d) + " instead of " + std::to_string(s.n) + ": " + o);
                }
        }
        if (on("C04")) {
            VS in;
            for (unsigned i = 0; i < s.n; ++i) in.push_back("x" + std::to_string(i));
            q.in = in;
            for (auto &t : names) q.in.push_back(t);
            q.memo.clear();
            std::map<unsigned, double> lm;
            double len = 0;
            for (unsigned v : s.active(q.x)) len += q.length(v, lm);
            if (len < 2e6) {
                VS want;
                for (unsigned i = 0; i < s.m; ++i) want.push_back(q.value(q.x[q.x.size() - s.m + i]));
                VS got = e(in);
                check("C04", got.size() == want.size(), "number of formulas");
                for (unsigned i = 0; i < s.m; ++i) check("C04", got[i] == want[i], "formula " + got[i].substr(0, 300) + " but the graph encodes " + want[i].substr(0, 300));
                if (s.n == 2) check("C04", e({in[0], in[1]}) == want, "formulas from an initializer list");
            }
            for (unsigned d : {0u, s.n - 1, s.n + 1, s.n + s.neph, 2 * s.n + 3})
                if (d != s.n) {
                    std::string o = outcome([&] { e(VS(d, "y")); });
                    check("C04", o == "invalid_argument", std::to_string(d) + " symbols instead of " + std::to_string(s.n) + ": " + o);
                }
        }
        // an installed phenotype correction gets the point and this evaluation function
        if constexpr (std::is_same<E, EX>::value) {
            if (on("C03 C10") && R.p(50)) {
                VD p = vec(R, s.n), full = p;
                full.insert(full.end(), consts.begin(), consts.end());
                VD want = n.outputs(full), seen, other = vec(R, s.n), of = other;
                of.insert(of.end(), consts.begin(), consts.end());
                VD wother = n.outputs(of), gother;
                e.set_phenotype_correction([&](const VD &pt, std::function<VD(const VD &)> g) {
                    seen = pt;
                    VD r = g(pt);
                    gother = g(other);
                    for (auto &t : r) t = t * 2. + 3.;
                    return r;
                });
                VD got = e(p);
                for (auto &t : want) t = t * 2. + 3.;
                bool ok = same(seen, p) && got.size() == want.size() && gother.size() == wother.size();
                for (unsigned i = 0; ok && i < want.size(); ++i) ok = close(want[i], got[i]) && close(wother[i], gother[i]);
                check("C03", ok, "with a phenotype correction the value is " + str(got) + " instead of " + str(want));
                E cp = e;
                e.unset_phenotype_correction();
                VD plain = e(p), wplain = n.outputs(full);
                ok = plain.size() == wplain.size();
                for (unsigned i = 0; ok && i < plain.size(); ++i) ok = close(wplain[i], plain[i]);
                check("C03", ok, "after removing the phenotype correction the value is " + str(plain) + " instead of " + str(wplain));
                got = cp(p);
                ok = got.size() == want.size();
                for (unsigned i = 0; ok && i < got.size(); ++i) ok = close(want[i], got[i]);
                check("C03", ok, "a copy does not keep the phenotype correction");
            }
        }
    }
    done_case(g_log[0] + str(n.x));
}

// C07
template <typename E> void addressing(Rng &R)
{
    using M = make<E>;
    if constexpr (!M::eph) {
        Shape s = random_shape(R, false);
        auto f = kernels(s.nf, R, M::ann);
        begin_case(std::string("weights of ") + M::name() + " " + s.text());
        E e = M::with(s, f, unsigned(R.next()));
        if (R.p(30)) {
            s.arity.assign(s.c, s.arity[0]);
            e = M::uniform(s, s.arity[0], f, unsigned(R.next()));
        }
        unsigned W = nweights(s);
        check("C07", e.get_weights().size() == W, "there are " + std::to_string(e.get_weights().size()) + " weights instead of " + std::to_string(W));
        check("C07", same(e.get_weights(), VD(W, 1.)), "weights do not start at one");
        VD all;
        for (unsigned i = 0; i < W; ++i) all.push_back(100. + i);
        e.set_weights(all);
        check("C07", same(e.get_weights(), all), "all weights do not read back");
        unsigned p = 0;
        for (unsigned v = s.ni(); v < s.nodes() && p < 400; ++v)
            for (unsigned j = 0; j < s.ar(v); ++j, ++p) {
                std::string wh = "(" + std::to_string(v) + "," + std::to_string(j) + ")";
                check("C07", e.get_weight(v, j) == all[p], "weight " + wh + " reads " + std::to_string(e.get_weight(v, j)) + " and should be entry " + std::to_string(p) + " of the weights");
                double t = R.d(-5, 5);
                step("set_weight" + wh);
                e.set_weight(v, j, t);
                VD now = e.get_weights();
                all[p] = t;
                check("C07", same(now, all), "setting weight " + wh + " changes other weights or not the entry " + std::to_string(p));
                check("C07", e.get_weight(v, j) == t, "weight " + wh + " does not read back");
            }
        if constexpr (M::ann) {
            for (unsigned k = 0; k < 8; ++k) {
                std::size_t i = R.u(0, W - 1);
                double t = R.d(-5, 5);
                e.set_weight(i, t);
                all[i] = t;
                check("C07", same(e.get_weights(), all) && e.get_weight(i) == t, "weight by position " + std::to_string(i));
            }
            VD b = finite(R, s.r * s.c);
            check("C07", same(e.get_biases(), VD(s.r * s.c, 0.)), "biases do not start at zero, one per node");
            e.set_biases(b);
            check("C07", same(e.get_biases(), b), "all biases do not read back");
            for (unsigned i = 0; i < s.r * s.c; ++i) {
                double t = R.d(-5, 5);
                e.set_bias(i, t);
                b[i] = t;
                check("C07", same(e.get_biases(), b) && e.get_bias(i) == t, "bias " + std::to_string(i) + " changes other biases or does not read back");
            }
            for (std::size_t i : {std::size_t(s.r * s.c), std::size_t(s.r * s.c + 7), std::size_t(-1)}) {
                check("C07", outcome([&] { e.set_bias(i, 1.); }) == "invalid_argument", "set_bias of a bias that does not exist");
                check("C07", outcome([&] { e.get_bias(i); }) == "invalid_argument", "get_bias of a bias that does not exist");
            }
            for (std::size_t i : {std::size_t(W), std::size_t(W + 7), std::size_t(-1)}) {
                check("C07", outcome([&] { e.set_weight(i, 1.); }) == "invalid_argument", "set_weight of a weight that does not exist");
                check("C07", outcome([&] { e.get_weight(i); }) == "invalid_argument", "get_weight of a weight that does not exist");
            }
            check("C07", same(e.get_weights(), all) && same(e.get_biases(), b), "weights or biases changed by rejected calls");
        }
        for (unsigned k = 0; k < 8; ++k) {
            unsigned v = R.u(0, s.nodes() + 2), j = R.u(0, 6);
            bool ok = v >= s.ni() && v < s.nodes() && j < s.ar(v);
            std::string wh = "(" + std::to_string(v) + "," + std::to_string(j) + ")";
            std::string o = outcome([&] { e.get_weight(v, j); }), o2 = outcome([&] { if (!ok) e.set_weight(v, j, 0.); });
            check("C07", o == (ok ? "ok" : "invalid_argument"), "get_weight" + wh + ": " + o);
            check("C07", o2 == (ok ? "ok" : "invalid_argument"), "set_weight" + wh + ": " + o2);
        }
        check("C07", same(e.get_weights(), all), "weights changed by reading or by rejected calls");
        // the weight addressed is the one evaluation uses on that connection
        VU act = s.active(e.get());
        for (unsigned k = 0; k < 6; ++k) {
            unsigned v = R.u(s.ni(), s.nodes() - 1), j = R.u(0, s.ar(v) - 1);
            Net n;
            n.s = s;
            n.x = e.get();
            n.f = f;
            e.set_weight(v, j, R.d(-1, 1));
            n.w = e.get_weights();
            if constexpr (M::ann) n.b = e.get_biases();
            n.w[woff(s, v) + j] = e.get_weight(v, j);
            VD pt = finite(R, s.n), a = e(pt), b2 = n.outputs(pt);
            bool ok = true;
            for (unsigned i = 0; i < s.m; ++i) ok = ok && close(a[i], b2[i]);
            check("C07", ok, "evaluation does not use weight (" + std::to_string(v) + "," + std::to_string(j) + ") on that connection");
        }
        // names
        VS in;
        for (unsigned i = 0; i < s.n; ++i) in.push_back("x");
        done_case(g_log[0]);
    }
}

// ------------------------------------------------ loss (C10), on plain, weighted and ann expressions
static double softce(const VD &o, const VD &y)
{
    double mx = o[0];
    for (double t : o) mx = std::max(mx, t);
    double z = 0;
    for (double t : o) z += std::exp(t - mx);
    double r = 0;
    for (unsigned i = 0; i < o.size(); ++i) r -= std::log(std::exp(o[i] - mx) / z) * y[i];
    return r;
}
static double mse(const VD &o, const VD &y)
{
    double r = 0;
    for (unsigned i = 0; i < o.size(); ++i) r += (o[i] - y[i]) * (o[i] - y[i]);
    return r / double(o.size());
}
template <typename E> E small_net(Rng &R, Shape &s, std::vector<dcgp::kernel<double>> &f, bool ann)
{
    s = random_shape(R, make<E>::eph);
    if (s.r * s.c > 40) s.r = 2, s.c = 3, s.arity.assign(3, 2);
    s.l = R.u(1, s.c + 1);
    f = kernels(s.nf, R, true);
    (void)ann;
    begin_case(std::string(make<E>::name()) + " " + s.text());
    E e = make<E>::with(s, f, unsigned(R.next()));
    churn(e, s, R);
    step("chromosome " + str(e.get()));
    return e;
}
static VD distribution(Rng &R, unsigned m)
{
    VD y(m, 0.);
    if (R.p(50)) {
        y[R.u(0, m - 1)] = 1.;
        return y;
    }
    double t = 0;
    for (auto &v : y) t += v = R.d(0.05, 1);
    for (auto &v : y) v /= t;
    return y;
}
template <typename E> void losses(Rng &R)
{
    Shape s;
    std::vector<dcgp::kernel<double>> f;
    E e = small_net<E>(R, s, f, true);
    VD consts = e.get_eph_val();
    Net n;
    n.s = s;
    n.f = f;
    if constexpr (!make<E>::eph) {
        VD w = finite(R, nweights(s));
        e.set_weights(w);
        n.w = w;
        if constexpr (make<E>::ann) {
            VD b = finite(R, s.r * s.c);
            e.set_biases(b);
            n.b = b;
        }
    }
    n.x = e.get();
    unsigned N = R.u(1, 12);
    std::vector<VD> pts, labs;
    for (unsigned i = 0; i < N; ++i) pts.push_back(finite(R, s.n)), labs.push_back(R.p(50) ? finite(R, s.m) : distribution(R, s.m));
    bool ce = R.p(50);
    auto le = ce ? EX::loss_type::CE : EX::loss_type::MSE;
    const char *ln = ce ? "CE" : "MSE";
    double want = 0;
    for (unsigned i = 0; i < N; ++i) {
        VD full = pts[i];
        full.insert(full.end(), consts.begin(), consts.end());
        double one = ce ? softce(n.outputs(full), labs[i]) : mse(n.outputs(full), labs[i]);
        double got = e.loss(pts[i], labs[i], le);
        check("C10", close(one, got), std::string(ln) + " of one sample is " + std::to_string(got) + " instead of " + std::to_string(one));
        want += one;
    }
    want /= N;
    const E &ce_ = e;
    for (unsigned par = 0; par <= N + 2; ++par) {
        step("loss with split " + std::to_string(par) + " of " + std::to_string(N));
        double got = 0;
        std::string o = outcome([&] { got = ce_.loss(pts, labs, ln, par); });
        bool bad = par > 0 && N % par != 0;
        check("C10", o == (bad ? "invalid_argument" : "ok"), "loss of " + std::to_string(N) + " samples in " + std::to_string(par) + " parts: " + o);
        if (!bad) check("C10", close(want, got), std::string(ln) + " is " + std::to_string(got) + " instead of " + std::to_string(want) + " in " + std::to_string(par) + " parts");
    }
    std::vector<VD> none;
    auto labs2 = labs;
    labs2.pop_back();
    check("C10", outcome([&] { ce_.loss(pts, labs2, ln, 0); }) == "invalid_argument", "fewer labels than points");
    check("C10", outcome([&] { ce_.loss(labs2, labs, ln, 0); }) == "invalid_argument", "fewer points than labels");
    check("C10", outcome([&] { ce_.loss(none, none, ln, R.u(0, 2)); }) == "invalid_argument", "empty data");
    for (const char *bad : {"", "mse", "ce", "MSE ", "CEE", "foo"}) check("C10", outcome([&] { ce_.loss(pts, labs, bad, 0); }) == "invalid_argument", std::string("loss named ") + bad);
    for (unsigned d : {0u, s.n - 1, s.n + 1}) {
        if (d == s.n) continue;
        check("C10", outcome([&] { ce_.loss(VD(d, .1), labs[0], le); }) == "invalid_argument", "a point of wrong dimension " + std::to_string(d));
        auto p2 = pts;
        p2[R.u(0, N - 1)].resize(d);
        check("C10", outcome([&] { ce_.loss(p2, labs, ln, 0); }) == "invalid_argument", "a data set with a point of wrong dimension");
    }
    for (unsigned d : {0u, s.m - 1, s.m + 1}) {
        if (d == s.m) continue;
        check("C10", outcome([&] { ce_.loss(pts[0], VD(d, .1), le); }) == "invalid_argument", "a label of wrong dimension " + std::to_string(d));
    }
    done_case(g_log[0] + str(n.x) + ln);
}

// ------------------------------------------------ gradients (C08) and gradient descent (C09)
struct Dual {
    long double v, d;
};
struct GNet {
    Shape s;
    VU x;
    VD w, b;
    VS names; // of the kernels
    bool kink = false;
    // value and derivative of a kernel at the sum of its arguments
    Dual act(const std::string &nm, Dual a)
    {
        long double t = a.v;
        if (!(fabsl(t) < 200)) kink = true; // rounding errors would be amplified: not compared
        if (nm == "sig") {
            long double y = 1 / (1 + expl(-t));
            return {y, a.d * y * (1 - y)};
        }
        if (nm == "tanh") {
            long double y = tanhl(t);
            return {y, a.d * (1 - y * y)};
        }
        if (nm == "sum") return a;
        if (nm == "inv_sum") return {-a.v, -a.d};
        if (nm == "ReLu") {
            if (fabsl(t) < 1e-7L) kink = true;
            return {t > 0 ? t : 0, t > 0 ? a.d : 0};
        }
        if (nm == "ELU") return {t > 0 ? t : expm1l(t), t > 0 ? a.d : a.d * expl(t)};
        if (nm == "ISRU") {
            long double q = sqrtl(1 + t * t);
            return {t / q, a.d / (q * q * q)};
        }
        if (nm == "sin_nu") return {sinl(t), a.d * cosl(t)};
        if (nm == "cos_nu") return {cosl(t), -a.d * sinl(t)};
        if (nm == "gaussian_nu") return {expl(-t * t), -2 * t * a.d * expl(-t * t)};
        if (nm == "abs") {
            if (fabsl(t) < 1e-7L) kink = true;
            return {fabsl(t), t < 0 ? -a.d : a.d};
        }
        if (nm == "step") {
            if (fabsl(t) < 1e-7L) kink = true;
            return {t > 0 ? 1.L : 0.L, 0};
        }
        fail("unknown kernel " + nm);
    }
    // outputs and their derivatives for parameter q (weights first, then biases; -1: none)
    std::vector<Dual> outputs(const VD &pt, long q)
    {
        std::vector<Dual> node(s.nodes(), Dual{0, 0});
        for (unsigned i = 0; i < s.n; ++i) node[i] = {pt[i], 0};
        for (unsigned v : s.active(x)) {
            if (v < s.n) continue;
            Dual t{b[v - s.n], q == long(w.size() + v - s.n) ? 1.L : 0.L};
            for (unsigned j = 0; j < s.ar(v); ++j) {
                unsigned k = woff(s, v) + j;
                Dual c = node[x[s.gene(v) + 1 + j]];
                t.v += c.v * w[k];
                t.d += c.d * w[k] + (q == long(k) ? c.v : 0.L);
            }
            node[v] = act(names[x[s.gene(v)]], t);
        }
        std::vector<Dual> r;
        for (unsigned i = 0; i < s.m; ++i) r.push_back(node[x[x.size() - s.m + i]]);
        return r;
    }
    Dual loss(const VD &pt, const VD &y, bool ce, long q)
    {
        auto o = outputs(pt, q);
        Dual r{0, 0};
        if (!ce) {
            for (unsigned i = 0; i < o.size(); ++i) {
                r.v += (o[i].v - y[i]) * (o[i].v - y[i]) / o.size();
                r.d += 2 * (o[i].v - y[i]) * o[i].d / o.size();
            }
            return r;
        }
        long double mx = o[0].v, z = 0, zd = 0;
        for (auto &t : o) mx = std::max(mx, t.v);
        for (auto &t : o) z += expl(t.v - mx), zd += expl(t.v - mx) * t.d;
        for (unsigned i = 0; i < o.size(); ++i) {
            r.v -= y[i] * (o[i].v - mx - logl(z));
            r.d -= y[i] * (o[i].d - zd / z);
        }
        return r;
    }
    // mean over samples [from, to)
    long double mean(const std::vector<VD> &P, const std::vector<VD> &L, const std::vector<unsigned> &idx, bool ce, std::vector<long double> *g)
    {
        long double v = 0;
        std::size_t np = w.size() + b.size();
        if (g) g->assign(np, 0);
        for (unsigned i : idx) {
            v += loss(P[i], L[i], ce, -1).v;
            if (g)
                for (std::size_t q = 0; q < np; ++q) (*g)[q] += loss(P[i], L[i], ce, long(q)).d;
        }
        if (g)
            for (auto &t : *g) t /= idx.size();
        return v / idx.size();
    }
};
static bool near(long double a, double b) { return std::isnan(b) ? false : fabsl(a - b) <= 2e-7L * (1 + std::max(fabsl(a), fabsl((long double)b))); }

struct Case {
    Shape s;
    std::vector<dcgp::kernel<double>> f;
    GNet g;
    std::vector<VD> P, L;
    bool ce;
    unsigned N;
};
static EA ann_case(Rng &R, Case &c, bool force_ok)
{
    EA e = small_net<EA>(R, c.s, c.f, true);
    c.g.s = c.s;
    c.g.x = e.get();
    for (auto &k : c.f) c.g.names.push_back(k.get_name());
    c.g.w = finite(R, nweights(c.s), -1., 1.);
    c.g.b = finite(R, c.s.r * c.s.c, -1., 1.);
    bool zero = R.p(12) && !force_ok;
    if (zero) c.g.b.assign(c.s.r * c.s.c, 0.);
    e.set_weights(c.g.w);
    e.set_biases(c.g.b);
    c.N = R.u(1, 9);
    c.ce = R.p(50);
    for (unsigned i = 0; i < c.N; ++i) {
        c.P.push_back(zero ? VD(c.s.n, 0.) : finite(R, c.s.n));
        c.L.push_back(c.ce ? distribution(R, c.s.m) : finite(R, c.s.m));
    }
    step(std::string(c.ce ? "CE" : "MSE") + " weights " + str(c.g.w) + " biases " + str(c.g.b) + (zero ? " at zero" : ""));
    return e;
}
static void gradients(Rng &R)
{
    Case c;
    EA e = ann_case(R, c, false);
    std::vector<unsigned> idx;
    for (unsigned i = 0; i < c.N; ++i) idx.push_back(i);
    std::vector<long double> g;
    long double v = c.g.mean(c.P, c.L, idx, c.ce, &g);
    if (c.g.kink) return;
    auto le = c.ce ? EX::loss_type::CE : EX::loss_type::MSE;
    for (unsigned par = 0; par <= c.N + 1; ++par) {
        if (par > 2 && R.p(60)) continue;
        step("d_loss of " + std::to_string(c.N) + " samples in " + std::to_string(par) + " parts");
        std::tuple<double, VD, VD> r;
        std::string o = outcome([&] { r = e.d_loss(c.P, c.L, le, par); });
        bool bad = par > 0 && c.N % par != 0;
        check("C08", o == (bad ? "invalid_argument" : "ok"), "d_loss: " + o);
        if (bad) continue;
        check("C08", near(v, std::get<0>(r)), "the loss returned with the gradient is " + std::to_string(std::get<0>(r)) + " instead of " + std::to_string(double(v)));
        check("C08", std::get<1>(r).size() == c.g.w.size() && std::get<2>(r).size() == c.g.b.size(), "the gradient has the wrong size");
        for (unsigned i = 0; i < c.g.w.size(); ++i)
            check("C08", near(g[i], std::get<1>(r)[i]), "derivative for weight " + std::to_string(i) + " is " + std::to_string(std::get<1>(r)[i]) + " instead of " + std::to_string(double(g[i])));
        for (unsigned i = 0; i < c.g.b.size(); ++i)
            check("C08", near(g[c.g.w.size() + i], std::get<2>(r)[i]), "derivative for bias " + std::to_string(i) + " is " + std::to_string(std::get<2>(r)[i]) + " instead of " + std::to_string(double(g[c.g.w.size() + i])));
        check("C08", same(e.get_weights(), c.g.w) && same(e.get_biases(), c.g.b) && e.get() == c.g.x, "computing the gradient changed the network");
    }
    // single sample, accumulating
    double val = 0.25;
    VD gw(c.g.w.size(), 0.5), gb(c.g.b.size(), -1.5);
    std::vector<unsigned> one{0};
    v = c.g.mean(c.P, c.L, one, c.ce, &g);
    e.d_loss(val, gw, gb, c.P[0], c.L[0], le);
    check("C08", near(v + 0.25L, val), "accumulated loss of one sample");
    for (unsigned i = 0; i < gw.size(); ++i) check("C08", near(g[i] + 0.5L, gw[i]), "accumulated derivative for weight " + std::to_string(i));
    for (unsigned i = 0; i < gb.size(); ++i) check("C08", near(g[gw.size() + i] - 1.5L, gb[i]), "accumulated derivative for bias " + std::to_string(i));
    done_case(g_log[0] + str(c.g.x));
}

// one epoch with the samples in the given order; false when the network is not differentiable somewhere
static bool epoch(GNet g, const Case &c, const std::vector<unsigned> &order, double lr, unsigned batch, VD &w, VD &b, long double &ret)
{
    ret = 0;
    unsigned nb = 0;
    for (std::size_t i = 0; i < order.size(); ) {
        std::vector<unsigned> idx;
        for (unsigned k = 0; k < batch && i < order.size(); ++k, ++i) idx.push_back(order[i]);
        std::vector<long double> gr;
        ret += g.mean(c.P, c.L, idx, c.ce, &gr);
        ++nb;
        for (auto t : gr)
            if (!(fabsl(t) * lr < 1)) return false; // the epoch diverges: rounding errors would be amplified
        for (std::size_t q = 0; q < g.w.size(); ++q) g.w[q] -= double(lr * gr[q]);
        for (std::size_t q = 0; q < g.b.size(); ++q) g.b[q] -= double(lr * gr[g.w.size() + q]);
    }
    ret /= nb;
    w = g.w;
    b = g.b;
    return !g.kink;
}
static bool nearv(const VD &a, const VD &b)
{
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i)
        if (!near(a[i], b[i])) return false;
    return true;
}
static void descent(Rng &R)
{
    Case c;
    EA e = ann_case(R, c, true);
    double lr = R.d(0.001, 0.2);
    unsigned batch = R.p(20) ? 4294967295u - R.u(0, 3) : R.u(1, c.N + 3);
    bool shuffle = R.p(30) && c.N <= 5;
    if (R.p(10)) shuffle = true, batch = c.N + R.u(0, 2);
    auto P = c.P, L = c.L;
    step("sgd lr=" + std::to_string(lr) + " batch=" + std::to_string(batch) + " samples=" + std::to_string(c.N) + (shuffle ? " shuffled" : ""));
    unsigned par = 0;
    if (R.p(25)) par = R.u(1, 2);
    unsigned eff = std::min(batch, c.N);
    if (par && (eff % par || (c.N % eff) % par)) par = 0;
    double got = e.sgd(P, L, lr, batch, c.ce ? "CE" : "MSE", par, shuffle);
    std::vector<unsigned> order;
    for (unsigned i = 0; i < c.N; ++i) order.push_back(i);
    if (!shuffle) check("C09", P == c.P && L == c.L, "the data changed although no shuffling was asked for");
    // the order of the samples after the call is the one they were presented in
    if (shuffle) {
        std::vector<bool> used(c.N, false);
        for (unsigned i = 0; i < c.N; ++i) {
            unsigned k = 0;
            while (k < c.N && (used[k] || c.P[k] != P[i] || c.L[k] != L[i])) ++k;
            check("C09", k < c.N, "after shuffling, sample " + std::to_string(i) + " is not a sample with its own label");
            if (k == c.N) return;
            used[k] = true;
            order[i] = k;
        }
    }
    VD w, b;
    long double want;
    if (!epoch(c.g, c, order, lr, eff, w, b, want)) return;
    check("C09", nearv(w, e.get_weights()), "the weights after an epoch are " + str(e.get_weights()) + " instead of " + str(w));
    check("C09", nearv(b, e.get_biases()), "the biases after an epoch are " + str(e.get_biases()) + " instead of " + str(b));
    check("C09", near(want, got), "the value returned is " + std::to_string(got) + " instead of the mean of the batch losses " + std::to_string(double(want)));
    check("C09", e.get() == c.g.x, "gradient descent changed the chromosome");
    check("C09", e.get_weights().size() == w.size() && e.get_active_nodes() == c.s.active(c.g.x), "gradient descent changed the structure of the network");
    // rejected calls
    const std::string before = digest(e);
    auto P2 = c.P, L2 = c.L;
    std::vector<VD> none1, none2;
    auto L3 = c.L;
    L3.push_back(L3[0]);
    auto rej = [&](const char *what, std::vector<VD> p, std::vector<VD> l, double r, unsigned bs, const std::string &ln) {
        auto p0 = p, l0 = l;
        std::string o = outcome([&] { e.sgd(p, l, r, bs, ln, 0, R.p(50)); });
        check("C09", o == "invalid_argument", std::string(what) + " should be rejected: " + o);
        check("C09", digest(e) == before && p == p0 && l == l0, std::string(what) + " was rejected but changed something");
    };
    rej("more labels than points", c.P, L3, lr, batch, "MSE");
    rej("no data", none1, none2, lr, batch, "MSE");
    rej("no labels", c.P, none2, lr, batch, "CE");
    rej("a zero learning rate", c.P, c.L, 0., batch, "MSE");
    rej("a negative learning rate", c.P, c.L, -lr, batch, "MSE");
    rej("a learning rate that is not a number", c.P, c.L, std::nan(""), batch, "MSE");
    rej("a zero batch size", c.P, c.L, lr, 0, "MSE");
    rej("an unknown loss", c.P, c.L, lr, batch, "mse");
    rej("an empty loss name", c.P, c.L, lr, batch, "");
    done_case(g_log[0] + str(c.g.x) + std::to_string(batch));
}

int main(int argc, char **argv)
{
    init(argc, argv);
    for (std::uint64_t i = 0; time_left(); ++i) {
        Rng R(g_seed * 1000003 + i);
        if (on("C03 C04")) switch (i % 3) {
                case 0: evaluate<EX>(R); break;
                case 1: evaluate<EW>(R); break;
                case 2: evaluate<EA>(R); break;
            }
        if (on("C07")) i % 2 ? addressing<EW>(R) : addressing<EA>(R);
        if (on("C10")) switch (i % 3) {
                case 0: losses<EX>(R); break;
                case 1: losses<EW>(R); break;
                case 2: losses<EA>(R); break;
            }
        if (on("C08")) gradients(R);
        if (on("C09")) descent(R);
    }
    return finish();
}
