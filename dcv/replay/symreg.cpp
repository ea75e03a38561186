// Symbolic regression problems: decoding, bounds, scores (C15), derivatives (C16), saving and loading of problems and
// expressions (C13), against oracles written from the property statements.
// NEED_S11N
#include "sr.hpp"
static void queries(SR &p, Case &c, Rng &R, const VD &x, const std::string &who)
{
    unsigned op = R.u(0, 6);
    static const char *nm[] = {"fitness", "gradient", "hessians", "pretty", "predict", "predict many", "prettier"};
    step(who + std::string(nm[op]) + " of " + str(x));
    auto e = decode(c, x);
    if (op == 0) {
        VD f = p.fitness(x);
        check("C15 C13", f.size() == 1u + c.mo, "number of objectives");
        double w = score(c, x);
        if (sane(w)) check("C15 C13", close(f[0], w, 1e-8), who + "fitness is " + std::to_string(f[0]) + ", the loss of the expression encoded is " + std::to_string(w));
        if (c.mo) check("C15 C13", f[1] == double(c.s.active_genes(VU(e.get())).size()), who + "second objective is " + std::to_string(f[1]) + ", active genes " + std::to_string(e.get_active_genes().size()));
    } else if (op == 1) {
        VD g = p.gradient(x);
        check("C16", g.size() == c.s.neph, "length of the gradient");
        auto d = dscore(c, x, 2);
        bool ok = sane(score(c, x)) && mild(d) && close(score(c, x), d.constant_cf(), 1e-8);
        for (unsigned i = 0; ok && i < g.size(); ++i) {
            double w = d.getg("dk" + std::to_string(i));
            if (sane(w)) check("C16 C13", close(g[i], w, 1e-6), who + "gradient entry " + std::to_string(i) + " is " + std::to_string(g[i]) + ", the derivative is " + std::to_string(w));
        }
        // the derivative, from differences
        if (ok && R.p(20))
            for (unsigned i = 0; i < g.size(); ++i) {
                double h = 1e-5;
                VD a = x, b = x;
                a[i] += h;
                b[i] -= h;
                double fd = (score(c, a) - score(c, b)) / (2 * h), w = d.getg("dk" + std::to_string(i)), w2 = d.geth("dk" + std::to_string(i), "dk" + std::to_string(i));
                bool elu = std::find(c.kn.begin(), c.kn.end(), "ELU") != c.kn.end();
                if (sane(fd) && std::abs(w2) < 100 && std::abs(w) < 100 && !elu && std::abs(fd - w) < 1e-4) check("C16", close(g[i], fd, 1e-3), who + "gradient entry " + std::to_string(i) + " is not the slope of the fitness");
            }
    } else if (op == 2) {
        VV h = p.hessians(x);
        check("C16", h.size() == 1u + c.mo && h[0].size() == c.s.neph * (c.s.neph + 1) / 2, "shape of the Hessians");
        auto d = dscore(c, x, 2);
        bool ok = sane(score(c, x)) && mild(d) && close(score(c, x), d.constant_cf(), 1e-8);
        unsigned q = 0;
        for (unsigned i = 0; i < c.s.neph; ++i)
            for (unsigned j = 0; j <= i; ++j, ++q) {
                double w = d.geth("dk" + std::to_string(i), "dk" + std::to_string(j));
                if (ok && sane(w)) check("C16 C13", close(h[0][q], w, 1e-5), who + "Hessian entry (" + std::to_string(i) + ", " + std::to_string(j) + ") is " + std::to_string(h[0][q]) + ", the derivative is " + std::to_string(w));
            }
        if (c.mo)
            for (double v : h[1]) check("C16", v == 0, "Hessian of the second objective");
    } else if (op == 3 || op == 6) {
        VS in;
        for (unsigned i = 0; i < c.s.n; ++i) in.push_back("x" + std::to_string(i));
        if (c.s.c <= 4) check("C15 C13", op == 6 ? !p.prettier(x).empty() : p.pretty(x) == txt(e(in)), who + "formula is " + p.pretty(x) + ", that of the expression encoded is " + txt(e(in)));
    } else if (op == 4) {
        VD pt;
        for (unsigned i = 0; i < c.s.n; ++i) pt.push_back(R.d(-3, 3));
        check("C15 C13", same(p.predict(pt, x), e(pt)), who + "prediction is not that of the expression encoded");
    } else {
        VV pts;
        for (unsigned k = R.u(0, 4); k > 0; --k) {
            pts.emplace_back();
            for (unsigned i = 0; i < c.s.n; ++i) pts.back().push_back(R.d(-3, 3));
        }
        VV r = p.predict(pts, x);
        check("C15 C13", r.size() == pts.size(), "number of predictions");
        for (unsigned k = 0; k < r.size(); ++k) check("C15 C13", same(r[k], e(pts[k])), who + "prediction " + std::to_string(k) + " is not that of the expression encoded");
    }
}
static void shape(const SR &p, const Case &c, const char *who)
{
    auto b = p.get_bounds();
    VU lb, ub;
    c.s.bounds(lb, ub);
    VD wl(c.s.neph, -10.), wu(c.s.neph, 10.);
    wl.insert(wl.end(), lb.begin(), lb.end());
    wu.insert(wu.end(), ub.begin(), ub.end());
    check("C15 C13", b.first == wl && b.second == wu, std::string(who) + "bounds are " + str(b.first) + " to " + str(b.second));
    check("C15 C13", p.get_nix() == lb.size() && p.get_nobj() == 1u + c.mo, std::string(who) + "integer dimension or number of objectives");
    pagmo::sparsity_pattern gs, hs;
    for (unsigned i = 0; i < c.s.neph; ++i) {
        gs.push_back({0u, i});
        for (unsigned j = 0; j <= i; ++j) hs.push_back({i, j});
    }
    check("C16 C13", p.gradient_sparsity() == gs, std::string(who) + "gradient sparsity");
    check("C16 C13", p.hessians_sparsity().size() == 1u + c.mo && p.hessians_sparsity()[0] == hs, std::string(who) + "Hessian sparsity");
}
static void history(Rng &R)
{
    Case c = random_case(R);
    begin_case("symbolic regression: " + c.text());
    SR p = c.build();
    shape(p, c, "");
    std::vector<VD> xs;
    for (int i = 0; i < 3; ++i) xs.push_back(random_x(R, c));
    // one that differs in one constant or gene only
    xs.push_back(xs[0]);
    {
        VU lb, ub;
        c.s.bounds(lb, ub);
        unsigned i = R.u(0, unsigned(xs[3].size() - 1));
        if (i < c.s.neph) xs[3][i] += R.d(-1, 1);
        else xs[3][i] = R.u(lb[i - c.s.neph], ub[i - c.s.neph]);
    }
    std::string key = c.text();
    for (unsigned n = R.u(3, 12); n > 0; --n) {
        const VD x = R.of(xs);
        unsigned op = R.u(0, on("C13") ? 12 : 10);
        key += char('a' + op);
        if (op < 8) queries(p, c, R, x, "");
        else if (op == 8) {
            c.pc = R.p(60);
            c.k = R.d(0.5, 2);
            step(c.pc ? "set_phenotype_correction" : "unset_phenotype_correction");
            if (c.pc) p.set_phenotype_correction(PCD{c.k}, PCG{c.k});
            else p.unset_phenotype_correction();
        } else if (op == 9) {
            step("copied");
            SR q(p);
            queries(q, c, R, x, "copy: ");
            if (R.p(50)) p = q;
        } else if (op == 10) {
            step("inside pagmo::problem");
            pagmo::problem P(p);
            check("C15", P.get_nx() == x.size() && P.get_nix() == x.size() - c.s.neph && P.get_nobj() == 1u + c.mo, "dimensions of the problem");
            double w = score(c, x);
            VD f = P.fitness(x);
            if (sane(w)) check("C15", close(f[0], w, 1e-8), "fitness of the problem");
        } else {
            step("saved, and loaded into another problem");
            Case d = random_case(R);
            SR q = d.build();
            if (R.p(50)) q.set_phenotype_correction(PCD{3.}, PCG{3.});
            VD y = random_x(R, d);
            q.fitness(y);
            if (d.s.neph) q.gradient(y);
            through(p, q, R, false);
            shape(q, c, "loaded: ");
            check("C13", q.get_extra_info() == p.get_extra_info() && q.get_thread_safety() == p.get_thread_safety(), "loaded: extra info or thread safety");
            auto a = p.get_cgp(), b = q.get_cgp();
            check("C13", digest(a) == digest(b), "loaded: inner expression");
            a.mutate_random(5);
            b.mutate_random(5);
            check("C13", digest(a) == digest(b), "loaded: inner expression after the same mutation");
            for (int k = 0; k < 4; ++k) queries(q, c, R, R.of(xs), "loaded: ");
            if (R.p(50)) p = q;
        }
    }
    done_case(key);
}
static void rejected(Rng &R)
{
    Case c = random_case(R);
    begin_case("construction: " + c.text());
    unsigned op = R.u(0, 11), i = R.u(0, unsigned(c.X.size() - 1));
    unsigned ar = c.s.arity[0];
    bool bad = true;
    std::string what;
    if (op == 0) c.X.clear(), what = "no points";
    else if (op == 1) c.Y.pop_back(), what = "fewer labels than points";
    else if (op == 2) c.Y.push_back(c.Y[0]), what = "more labels than points";
    else if (op == 3) c.X[i].push_back(1.), bad = c.X.size() > 1, what = "a point with another dimension";
    else if (op == 4) c.Y[i].push_back(1.), bad = c.Y.size() > 1, what = "a label with another dimension";
    else if (op == 5) c.s.r = 0, what = "no rows";
    else if (op == 6) c.s.c = 0, what = "no columns";
    else if (op == 7) c.s.l = 0, what = "no levels back";
    else if (op == 8) ar = R.u(0, 1), what = "arity below two";
    else if (op == 9) c.kn.clear(), what = "no kernels";
    else if (op == 10) c.loss = R.of(VS{"", "mse", "MAE", "CE ", "ce"}), what = "unknown loss";
    else bad = false, what = "nothing wrong";
    step(what);
    std::string o = outcome([&] { SR p(c.X, c.Y, c.s.r, c.s.c, c.s.l, ar, c.f(), c.s.neph, c.mo, c.par, c.loss, c.seed); });
    check("C15", o == (bad ? "invalid_argument" : "ok"), what + ": " + o);
    if (R.p(20)) {
        Case d = random_case(R);
        for (auto &x : d.X) x.clear();
        d.s.neph = 0; // with constants, a model of the constants alone
        step("points without dimension");
        o = outcome([&] { d.build(); });
        check("C15", o == "invalid_argument", "points without dimension: " + o);
    }
    done_case(what + o);
}
// saving and loading of the three kinds of expression
template <typename E> static E some(Rng &R, Shape &s)
{
    s = random_shape(R, make<E>::eph);
    if (make<E>::ann)
        for (auto &a : s.arity) a = std::max(a, 1u);
    return make<E>::with(s, kernels(s.nf, R, make<E>::ann), unsigned(R.next()));
}
template <typename E> static void work(E &e, const Shape &s, Rng &R)
{
    for (unsigned k = R.u(0, 3); k > 0; --k) {
        unsigned op = R.u(0, 3);
        if (op == 0) e.mutate_random(R.u(0, 6));
        else if (op == 1) e.mutate_active(R.u(0, 3));
        else if (op == 2) {
            VU lb, ub, x;
            s.bounds(lb, ub);
            for (unsigned i = 0; i < lb.size(); ++i) x.push_back(R.u(lb[i], ub[i]));
            e.set(x);
        } else if constexpr (make<E>::eph) {
            VD v;
            for (unsigned i = 0; i < s.neph; ++i) v.push_back(R.d(-2, 2));
            if (s.neph) e.set_eph_val(v);
        }
        if constexpr (std::is_same<E, dcgp::expression<double>>::value) {
            if (R.p(30)) e.set_phenotype_correction(PCD{R.d(1, 2)});
            if (R.p(20)) e.unset_phenotype_correction();
            if (s.neph && R.p(30)) {
                VS n;
                for (unsigned i = 0; i < s.neph; ++i) n.push_back("q" + std::to_string(i));
                e.set_eph_symb(n);
            }
        }
        if constexpr (make<E>::ann || std::is_same<E, dcgp::expression_weighted<double>>::value) {
            VD w = e.get_weights();
            for (auto &v : w) v = R.d(-2, 2);
            e.set_weights(w);
        }
        if constexpr (make<E>::ann) {
            VD w = e.get_biases();
            for (auto &v : w) v = R.d(-2, 2);
            e.set_biases(w);
        }
    }
}
template <typename E> static void trips(Rng &R)
{
    begin_case(std::string("saving and loading of an ") + make<E>::name());
    Shape s, t;
    E a = some<E>(R, s), b = some<E>(R, t);
    step(s.text() + ", loaded into one with " + t.text());
    work(a, s, R);
    work(b, t, R);
    std::string before = digest(a);
    through(a, b, R, true);
    check("C13", digest(a) == before, "saving changed the expression");
    check("C13", digest(b) == digest(a), "loaded expression differs: " + digest(b) + " instead of " + digest(a));
    std::ostringstream oa, ob;
    oa << a;
    ob << b;
    check("C13", oa.str() == ob.str(), "loaded expression is streamed as " + ob.str() + " instead of " + oa.str());
    auto look = [&](const char *when) {
        VD x;
        VS n;
        for (unsigned i = 0; i < s.n; ++i) x.push_back(R.d(-1.5, 1.5)), n.push_back("v" + std::to_string(i));
        if constexpr (std::is_same<E, dcgp::expression<double>>::value) {
            check("C13", same(a(x), b(x)), std::string("loaded expression has other values ") + when);
        } else check("C13", same(a(x), b(x)), std::string("loaded expression has other values ") + when);
        if (s.c <= 4 && s.arity.size() < 5 && s.r < 5) check("C13", a(n) == b(n), std::string("loaded expression has another formula ") + when);
        if constexpr (make<E>::ann) {
            VD y;
            for (unsigned i = 0; i < s.m; ++i) y.push_back(R.d(0, 1));
            using EL = dcgp::expression<double>::loss_type;
            auto p = a.d_loss(VV{x, x}, VV{y, y}, EL::MSE), q = b.d_loss(VV{x, x}, VV{y, y}, EL::MSE);
            check("C13", same(std::get<0>(p), std::get<0>(q)) && same(std::get<1>(p), std::get<1>(q)) && same(std::get<2>(p), std::get<2>(q)), std::string("loaded network has other gradients ") + when);
        }
    };
    look("");
    for (unsigned k = R.u(1, 4); k > 0; --k) {
        unsigned op = R.u(0, 2), q = R.u(1, 6);
        step("the same mutation on both");
        if (op == 0) a.mutate_random(q), b.mutate_random(q);
        else if (op == 1) a.mutate_active(q), b.mutate_active(q);
        else a.mutate_active_cgene(q), b.mutate_active_cgene(q);
        check("C13", digest(a) == digest(b), "original and loaded expression differ after the same operation");
    }
    look("after the same operations");
    done_case(make<E>::name() + s.text());
}
int main(int argc, char **argv)
{
    init(argc, argv);
    for (std::uint64_t i = 0; time_left(); ++i) {
        Rng R(g_seed * 1000003 + i);
        if (on("C13") && i % 2) {
            if (i % 3 == 0) trips<dcgp::expression<double>>(R);
            if (i % 3 == 1) trips<dcgp::expression_weighted<double>>(R);
            if (i % 3 == 2) trips<dcgp::expression_ann>(R);
            continue;
        }
        if (on("C15") && i % 4 == 3) rejected(R);
        else history(R);
    }
    return finish();
}
