// Evolvers: what they return (C17, C18, C19), what they reject (C20), reproducibility (C22), saving and loading (C13),
// against oracles written from the property statements.
// NEED_S11N
#include "sr.hpp"
#include <dcgp/algorithms/es4cgp.hpp>
#include <dcgp/algorithms/gd4cgp.hpp>
#include <dcgp/algorithms/mes4cgp.hpp>
#include <dcgp/algorithms/moes4cgp.hpp>
#include <dcgp/algorithms/momes4cgp.hpp>
#include <pagmo/batch_evaluators/member_bfe.hpp>
#include <pagmo/batch_evaluators/thread_bfe.hpp>
#include <pagmo/bfe.hpp>
#include <pagmo/population.hpp>
#include <pagmo/problems/rosenbrock.hpp>
#include <pagmo/problems/zdt.hpp>
// a batch evaluator without threads
struct plain_bfe {
    VD operator()(const pagmo::problem &p, const VD &dvs) const
    {
        VD r;
        auto d = p.get_nx();
        for (std::size_t i = 0; i < dvs.size() / d; ++i) {
            auto f = p.fitness(VD(dvs.begin() + long(i * d), dvs.begin() + long((i + 1) * d)));
            r.insert(r.end(), f.begin(), f.end());
        }
        return r;
    }
    template <typename A> void serialize(A &, unsigned) {}
};
PAGMO_S11N_BFE_EXPORT(plain_bfe)
struct Silence {
    std::streambuf *b = std::cout.rdbuf(nullptr);
    ~Silence() { std::cout.rdbuf(b); }
};
struct Par {
    unsigned gen = 1, mut = 4, seed = 1, verb = 0;
    double ftol = 0, lr = 1, lrm = 1e-3;
    bool learn = true;
    int bfe = 0;
    std::string text() const
    {
        std::ostringstream o;
        o << std::setprecision(17) << "generations " << gen << " mutations " << mut << " tolerance " << ftol << (learn ? " learning" : " not learning") << " seed " << seed << " verbosity " << verb << " bfe " << bfe << " rates " << lr << " " << lrm;
        return o.str();
    }
};
template <typename A> struct alg;
template <typename A> static void dress(A &a, const Par &p)
{
    a.set_verbosity(p.verb);
}
#define ALG(T, ES, MULTI, BFE, LEARN, ...)                                                                                              \
    template <> struct alg<dcgp::T> {                                                                                                   \
        static constexpr bool es = ES, multi = MULTI, bfe = BFE, learn = LEARN;                                                         \
        static const char *name() { return #T; }                                                                                        \
        static dcgp::T with(const Par &p) { return dcgp::T(__VA_ARGS__); }                                                              \
    };
ALG(es4cgp, true, false, true, true, p.gen, p.mut, p.ftol, p.learn, p.seed)
ALG(mes4cgp, true, false, false, false, p.gen, p.mut, p.ftol, p.seed)
ALG(moes4cgp, true, true, true, true, p.gen, p.mut, p.ftol, p.learn, p.seed)
ALG(momes4cgp, true, true, false, false, p.gen, p.mut, p.ftol, p.seed)
ALG(gd4cgp, false, false, false, false, p.gen, p.lr, p.lrm)
template <typename A> static A build(const Par &p)
{
    A a = alg<A>::with(p);
    a.set_verbosity(p.verb);
    if constexpr (alg<A>::bfe) {
        if (p.bfe == 1) a.set_bfe(pagmo::bfe{plain_bfe{}});
        if (p.bfe == 2) a.set_bfe(pagmo::bfe{pagmo::thread_bfe{}});
    }
    return a;
}
static Par random_par(Rng &R)
{
    Par p;
    p.gen = R.p(8) ? 0 : R.p(60) ? R.u(1, 4) : R.u(5, 25);
    p.mut = R.p(40) ? R.u(1, 2) : R.u(3, 12);
    p.ftol = R.p(50) ? 0. : R.p(50) ? R.d(0, 0.1) : R.d(0, 3);
    p.learn = R.p(50);
    p.seed = unsigned(R.next());
    p.verb = R.p(70) ? 0 : R.u(1, 4);
    p.bfe = R.p(60) ? 0 : R.p(80) ? 1 : 2;
    p.lr = R.d(0.01, 2);
    p.lrm = p.lr * R.d(0.0001, 0.5);
    return p;
}
// problems on which every fitness is finite unless something overflows
static Case tame(Rng &R, bool multi, bool consts)
{
    Case c = random_case(R);
    static const VS any = {"sum", "diff", "mul", "sig", "tanh", "ISRU", "sin", "cos", "gaussian", "sin_nu", "gaussian_nu", "inv_sum", "ELU", "pdiv"};
    for (auto &n : c.kn) n = any[R.u(0, R.p(20) ? 13 : R.p(50) ? 2 : 12)];
    static const VS partial = {"sqrt", "log", "div"}; // some fitnesses are not numbers
    if (!multi && R.p(15)) c.kn[R.u(0, unsigned(c.kn.size()) - 1)] = R.of(partial);
    c.mo = multi;
    c.loss = "MSE";
    c.par = 0;
    if (c.s.neph > 5) c.s.neph = 3;
    if (consts && !c.s.neph) c.s.neph = 1;
    c.s.c = R.u(1, 4);
    c.s.l = R.u(1, c.s.c + 1);
    c.s.arity.assign(c.s.c, R.u(2, 3));
    if (R.p(15)) { // data some vector fits exactly
        auto x = random_x(R, c);
        auto e = decode(c, x);
        for (unsigned i = 0; i < c.X.size(); ++i) {
            auto y = e(c.X[i]);
            bool ok = true;
            for (double v : y) ok = ok && sane(v);
            if (ok) c.Y[i] = y;
        }
    }
    return c;
}
static pagmo::population populate(Rng &R, const Case &c, unsigned n, std::string &t)
{
    pagmo::population P(pagmo::problem(c.build()), 0u, unsigned(R.next()));
    VD last;
    for (unsigned i = 0; i < n; ++i) {
        VD x = i && R.p(15) ? last : random_x(R, c);
        P.push_back(x);
        last = x;
        t += "\n    " + str(x);
    }
    return P;
}
static bool better(double a, double b) { return std::isnan(b) ? !std::isnan(a) : a < b; }
static double best(const pagmo::population &P)
{
    double r = NAN;
    for (auto &f : P.get_f())
        if (better(f[0], r)) r = f[0];
    return r;
}
static bool equal(const pagmo::population &a, const pagmo::population &b, bool ids = true)
{
    if (a.size() != b.size() || (ids && a.get_ID() != b.get_ID())) return false;
    for (std::size_t i = 0; i < a.size(); ++i)
        if (!same(a.get_x()[i], b.get_x()[i]) || !same(a.get_f()[i], b.get_f()[i])) return false;
    return true;
}
static VD consts(const VD &x, unsigned k) { return VD(x.begin(), x.begin() + k); }
static VD genes(const VD &x, unsigned k) { return VD(x.begin() + k, x.end()); }
template <typename A> static void run(Rng &R)
{
    using T = alg<A>;
    Par p = random_par(R);
    if (on("C17") && R.p(60)) p.verb = 1;
    Case c = tame(R, T::multi, !T::es);
    unsigned N = R.p(30) ? 2 : R.u(T::es ? 2 : 1, 9);
    std::string t;
    begin_case(std::string("evolution by ") + T::name() + ": " + c.text());
    auto P = populate(R, c, N, t);
    step("population" + t);
    step(p.text());
    A a = build<A>(p);
    pagmo::population Q = P;
    {
        Silence s;
        Q = a.evolve(P);
    }
    const char *one = T::multi ? "C18" : "C17";
    unsigned k = c.s.neph;
    check(one, Q.size() == N, "the population has another size");
    VU lb, ub;
    c.s.bounds(lb, ub);
    for (std::size_t i = 0; i < Q.size(); ++i) {
        const VD &x = Q.get_x()[i], &f = Q.get_f()[i];
        std::string w = "individual " + std::to_string(i) + " " + str(x);
        check(one, x.size() == k + lb.size() && f.size() == 1u + T::multi, w + " has another dimension");
        for (unsigned g = 0; g < lb.size(); ++g) check(one, x[k + g] == std::floor(x[k + g]) && x[k + g] >= lb[g] && x[k + g] <= ub[g], w + " has a gene that is not integral or not within bounds");
        double v = score(c, x);
        if (sane(v)) check(one, close(f[0], v, 1e-7), w + " has fitness " + std::to_string(f[0]) + " instead of " + std::to_string(v));
        if (T::multi) check(one, f[1] == double(c.s.active_genes(VU(x.begin() + k, x.end())).size()), w + " has complexity " + std::to_string(f[1]));
    }
    if (!T::multi) check("C17", !better(best(P), best(Q)), "the best fitness was " + std::to_string(best(P)) + " and is now " + std::to_string(best(Q)));
    if constexpr (!T::multi) {
        double last = NAN;
        for (auto &l : a.get_log()) {
            double f = std::get<T::es ? 2 : 5>(l);
            check("C17", !better(last, f), "the log has the best at " + std::to_string(f) + " after it was " + std::to_string(last));
            last = f;
        }
        check("C17", !better(last, best(Q)), "the best of the log was " + std::to_string(last) + " and that of the population is " + std::to_string(best(Q)));
    } else {
        bool fin = true;
        for (auto *S : {&P, &Q})
            for (auto &f : S->get_f()) fin = fin && std::isfinite(f[0]);
        for (std::size_t i = 0; fin && i < P.size(); ++i) {
            const VD &f = P.get_f()[i];
            bool all = true;
            for (auto &g : Q.get_f()) all = all && f[0] <= g[0] && f[1] <= g[1] && (f[0] < g[0] || f[1] < g[1]);
            check("C18", !all, "individual " + std::to_string(i) + " of the old population dominates all of the new one");
        }
    }
    if (p.gen == 0) check(one, equal(P, Q), "no generations, but the population changed");
    // constants
    if (T::learn && !p.learn) {
        std::set<VD> old;
        for (auto &x : P.get_x()) old.insert(consts(x, k));
        for (auto &x : Q.get_x()) check("C19", old.count(consts(x, k)), "constants " + str(consts(x, k)) + " are those of no individual of the old population");
        // one generation of es4cgp: all mutants have the constants of the best
        if (!T::multi && p.gen == 1) {
            auto b = P.get_x()[P.best_idx()];
            for (std::size_t i = 0; i < Q.size(); ++i)
                if (!same(Q.get_x()[i], P.get_x()[i])) check("C19", consts(Q.get_x()[i], k) == consts(b, k), "the constants of a mutant are not those of the best");
        }
    }
    if (T::learn && p.learn && k && p.gen > 12 && p.ftol == 0 && !T::multi && N > 4) (void)0;
    if (!T::es) {
        unsigned changed = 0;
        for (std::size_t i = 0; i < Q.size(); ++i) {
            check("C19", genes(Q.get_x()[i], k) == genes(P.get_x()[i], k), "gd4cgp changed the chromosome of individual " + std::to_string(i));
            changed += !same(Q.get_x()[i], P.get_x()[i]);
        }
        check("C19 C17", changed <= 1, "gd4cgp changed several individuals");
    }
    // reproducibility
    if (on("C22") && p.bfe != 2) {
        Par other = p;
        other.seed = unsigned(R.next());
        A b = R.p(50) ? build<A>(p) : build<A>(other);
        if constexpr (T::es) b.set_seed(p.seed);
        pagmo::population S = P, U = P;
        {
            Silence s;
            S = b.evolve(P);
            if (R.p(50)) U = b.evolve(P);
        }
        bool fin = true;
        for (auto &f : Q.get_f()) fin = fin && std::isfinite(f[0]);
        check("C22", equal(Q, S, false), "the same seed, parameters and population gave another population");
        if constexpr (T::es) {
            // what was evolved before does not matter after reseeding
            auto r = unsigned(R.next());
            a.set_seed(r);
            b.set_seed(r);
            pagmo::population V = P;
            {
                Silence s;
                U = a.evolve(P);
                V = b.evolve(P);
            }
            check("C22", equal(U, V, false), "reseeded, the two evolvers give different populations");
        }
    }
    done_case(T::name() + c.text() + p.text());
}
template <typename A> static std::string digest_alg(const A &a)
{
    std::ostringstream o;
    o << std::setprecision(17) << a.get_name() << "|" << a.get_extra_info() << "|" << a.get_verbosity() << "|";
    for (auto &l : a.get_log()) std::apply([&](const auto &...v) { ((pagmo::stream(o, v), o << ","), ...); }, l), o << ";";
    if constexpr (alg<A>::es) o << a.get_seed();
    else {
        auto any = [&](const boost::any &v) {
            if (auto *s = boost::any_cast<std::string>(&v)) o << "|" << *s;
            if (auto *n = boost::any_cast<pagmo::population::size_type>(&v)) o << "|" << *n;
        };
        any(a.get_selection());
        any(a.get_replacement());
    }
    return o.str();
}
template <typename A> static void trip(Rng &R)
{
    using T = alg<A>;
    Par p = random_par(R), q = random_par(R);
    begin_case(std::string("saving and loading of ") + T::name());
    step(p.text());
    step("loaded into: " + q.text());
    if (p.bfe == 2) p.bfe = 1;
    if (q.bfe == 2) q.bfe = 1;
    A a = build<A>(p), b = build<A>(q);
    Case c = tame(R, T::multi, !T::es);
    std::string t;
    auto P = populate(R, c, R.u(2, 6), t);
    step(c.text() + t);
    if constexpr (!T::es) {
        static const VS how = {"best", "worst", "random"};
        if (R.p(60)) a.set_selection(how[R.u(0, 1)]);
        else a.set_selection(pagmo::population::size_type(R.u(0, unsigned(P.size()) - 1)));
        if (R.p(60)) a.set_replacement(how[R.u(0, 1)]);
        else a.set_replacement(pagmo::population::size_type(R.u(0, unsigned(P.size()) - 1)));
        if (R.p(50)) b.set_selection("random");
        if (R.p(50)) b.set_replacement("worst");
    }
    {
        Silence s;
        if (R.p(70)) a.evolve(P);
        if (R.p(50)) b.evolve(P);
    }
    std::string before = digest_alg(a);
    bool fin = true;
    for (auto &l : a.get_log()) std::apply([&](const auto &...v) { ((fin = fin && [&] { if constexpr (std::is_same<std::decay_t<decltype(v)>, double>::value) return std::isfinite(v); else return true; }()), ...); }, l);
    through(a, b, R, fin);
    check("C13", digest_alg(a) == before, "saving changed the evolver");
    check("C13", digest_alg(b) == before, "loaded evolver is " + digest_alg(b) + " instead of " + before);
    for (int i = 0; i < 2; ++i) {
        Silence s;
        auto U = a.evolve(P), V = b.evolve(P);
        bool ok = equal(U, V, false), lg = digest_alg(a) == digest_alg(b);
        std::cout.rdbuf(s.b);
        check("C13", ok, "the original and the loaded evolver give different populations");
        check("C13", lg, "the logs of the original and of the loaded evolver differ");
    }
    done_case(T::name() + p.text() + c.text());
}
// the same through pagmo::algorithm
template <typename A> static void rejections(Rng &R)
{
    using T = alg<A>;
    begin_case(std::string("rejections by ") + T::name());
    // parameters
    Par p = random_par(R);
    bool bad = false;
    if constexpr (T::es) {
        if (R.p(30)) p.mut = 0, bad = true;
        if (R.p(30)) p.ftol = R.p(50) ? -R.d(1e-12, 2) : -5e-324, bad = true;
        if (R.p(10)) p.ftol = bad ? p.ftol : -0.;
    } else {
        int w = int(R.u(0, 5));
        if (w == 0) p.lrm = 0, bad = true;
        if (w == 1) p.lrm = -R.d(1e-9, 1), bad = true;
        if (w == 2) p.lrm = p.lr, bad = true;
        if (w == 3) p.lrm = p.lr * 1.5, bad = true;
        if (w == 4) p.lr = -1, bad = true;
    }
    step("constructed with " + p.text());
    std::string o = outcome([&] { T::with(p); });
    check("C20", o == (bad ? "invalid_argument" : "ok"), "construction: " + o);
    // problems
    p = random_par(R);
    p.bfe = 0;
    A a = build<A>(p);
    if (R.p(40)) { // something in the log
        Case g = tame(R, T::multi, !T::es);
        std::string u;
        auto G = populate(R, g, R.u(2, 4), u);
        step("evolved before " + g.text() + u);
        Silence s;
        a.evolve(G);
    }
    unsigned w = R.u(0, 4), N = R.u(2, 5);
    std::string what, t;
    Case c = tame(R, T::multi, !T::es);
    bad = true;
    pagmo::population P;
    if (w == 0) {
        P = pagmo::population(R.p(50) ? pagmo::problem(pagmo::rosenbrock(3)) : pagmo::problem(pagmo::zdt(1, 5)), N, unsigned(R.next()));
        what = "another kind of problem";
    } else {
        if (w == 1) c.mo = !c.mo, what = "number of objectives";
        else if (w == 2 && !T::es) c.s.neph = 0, what = "no constants";
        else if (w == 3 && T::es) N = R.u(0, 1), what = "population of " + std::to_string(N);
        else bad = false, what = "nothing wrong";
        P = populate(R, c, N, t);
    }
    step(what + " " + c.text() + t);
    step(p.text());
    pagmo::population Q(P), S(P);
    std::string kept = digest_alg(a);
    o = outcome([&] {
        Silence s;
        S = a.evolve(P);
    });
    check("C20", o == (bad ? "invalid_argument" : "ok"), what + ": " + o);
    check("C20", equal(P, Q), "the population of the caller changed");
    if (bad) check("C20", digest_alg(a) == kept, "a rejected evolution left " + digest_alg(a) + " of " + kept);
    done_case(T::name() + what + p.text());
}
template <typename A> static void all(Rng &R)
{
    if (on("C20")) rejections<A>(R);
    else if (on("C13")) trip<A>(R);
    else run<A>(R);
}
int main(int argc, char **argv)
{
    init(argc, argv);
    for (std::uint64_t i = 0; time_left(); ++i) {
        Rng R(g_seed * 1000003 + i);
        bool single = !on("C18"), multi = !on("C17");
        unsigned w = R.u(0, 4);
        if (on("C19")) w = w == 1 ? 0 : w == 3 ? 2 : w; // the two memetic ones always learn
        if (single && w == 0) all<dcgp::es4cgp>(R);
        if (single && w == 1) all<dcgp::mes4cgp>(R);
        if (multi && w == 2) all<dcgp::moes4cgp>(R);
        if (multi && w == 3) all<dcgp::momes4cgp>(R);
        if (single && w == 4) all<dcgp::gd4cgp>(R);
    }
    return finish();
}
