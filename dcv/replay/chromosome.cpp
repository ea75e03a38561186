// NEED_S11N
// Histories of public operations on expressions: layout and bounds (C01), activity (C02), mutations (C05),
// rejected calls (C06), determinism (C22).
#include "graph.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>

using namespace rp;

static const char *ALL = "C01 C02 C05 C06 C22";

// call f and report whether it threw invalid_argument exactly when it should, leaving the object as it was
template <typename E, typename F> bool attempt(E &e, bool reject, const std::string &what, F f)
{
    const std::string before = on("C06 C05 C02") ? digest(e) : "";
    std::string o = outcome(f);
    if (reject) {
        check("C06", o == "invalid_argument", what + " should be rejected with an invalid-argument error, but: " + o);
        if (o != "ok") check("C06 C02 C05", digest(e) == before, what + " was rejected but changed the expression");
        return false;
    }
    check("C06", o == "ok", what + " should be accepted, but: " + o);
    return o == "ok";
}

struct Diff {
    unsigned n = 0;
    VU at;
    Diff(const VU &a, const VU &b)
    {
        for (unsigned i = 0; i < a.size() && i < b.size(); ++i)
            if (a[i] != b[i]) {
                ++n;
                at.push_back(i);
            }
    }
};

static bool has(const VU &v, unsigned x)
{
    for (unsigned y : v)
        if (y == x) return true;
    return false;
}

template <typename E> void history(Rng &R)
{
    using M = make<E>;
    Shape s = random_shape(R, M::eph);
    bool uniform = R.p(25);
    if (uniform) s.arity.assign(s.c, s.arity[0]);
    Rng RK = R;
    auto f = kernels(s.nf, R, M::ann);
    unsigned seed = unsigned(R.next());
    begin_case(std::string(M::name()) + " " + s.text() + " seed=" + std::to_string(seed) + (uniform ? " uniform arity" : ""));
    E e = uniform ? M::uniform(s, s.arity[0], f, seed) : M::with(s, f, seed);
    E twin = uniform ? M::uniform(s, s.arity[0], f, seed) : M::with(s, f, seed);
    VU lb, ub;
    s.bounds(lb, ub);
    check_layout(e, s);
    check_active(e, s);
    check("C22", digest(e) == digest(twin), "two expressions built from the same arguments and seed differ");
    if (e.get().size() != s.size() || e.get_lb() != lb || e.get_ub() != ub) return; // C01 reports it
    unsigned steps = s.size() > 200 ? 4 : R.u(4, 16);
    for (unsigned k = 0; k < steps; ++k) {
        const E before = e;
        const VU x0 = e.get();
        const VU ag = e.get_active_genes(), an = e.get_active_nodes();
        unsigned op = R.u(0, 15);
        switch (op) {
            case 0: { // set a chromosome, maybe a bad one
                VU x;
                for (unsigned i = 0; i < s.size(); ++i) x.push_back(R.u(lb[i], ub[i]));
                bool bad = false;
                if (R.p(50)) {
                    unsigned how = R.u(0, 4);
                    unsigned i = R.u(0, s.size() - 1);
                    if (R.p(30)) i = R.p(50) ? 0 : s.size() - 1;
                    if (how == 0) x.pop_back();
                    else if (how == 1) x.push_back(0);
                    else if (how == 2) x[i] = ub[i] + 1;
                    else if (how == 3 && lb[i] > 0) x[i] = lb[i] - 1;
                    else x[i] = 4000000000u;
                    bad = true;
                }
                step("set " + str(x));
                if (attempt(e, bad, "set" + str(x), [&] { e.set(x); })) check("C06", e.get() == x, "the chromosome set is not the one given");
                outcome([&] { twin.set(x); });
                break;
            }
            case 1: { // set from a range of doubles
                VD x;
                for (unsigned i = 0; i < s.size(); ++i) x.push_back(R.u(lb[i], ub[i]));
                bool bad = false;
                if (R.p(60)) {
                    unsigned how = R.u(0, 5);
                    unsigned i = R.u(0, s.size() - 1);
                    if (how == 0) x.pop_back();
                    else if (how == 1) x.push_back(0);
                    else if (how == 2) x[i] = ub[i] + 0.5;
                    else if (how == 3) x[i] = double(lb[i]) - 1;
                    else if (how == 4) x[i] = std::numeric_limits<double>::quiet_NaN();
                    else x[i] = 1e300;
                    bad = true;
                }
                step("set_from_range(doubles) " + str(x));
                if (attempt(e, bad, "set_from_range" + str(x), [&] { e.set_from_range(x.begin(), x.end()); })) {
                    VU xi;
                    for (double d : x) xi.push_back(unsigned(d));
                    check("C06", e.get() == xi, "the chromosome set from a range is not the one given");
                }
                outcome([&] { twin.set_from_range(x.begin(), x.end()); });
                break;
            }
            case 2: { // function gene
                unsigned node = R.u(0, s.nodes() + 1), g = R.u(0, s.nf);
                if (R.p(70)) node = R.u(s.ni(), s.nodes() - 1);
                if (R.p(70)) g = R.u(0, s.nf - 1);
                if (R.p(5)) node = 4294967295u;
                bool bad = node < s.ni() || node >= s.nodes() || g >= s.nf;
                step("set_f_gene(" + std::to_string(node) + "," + std::to_string(g) + ")");
                if (attempt(e, bad, "set_f_gene(" + std::to_string(node) + "," + std::to_string(g) + ")", [&] { e.set_f_gene(node, g); })) {
                    VU x = x0;
                    x[s.gene(node)] = g;
                    check("C06", e.get() == x, "set_f_gene changed something else than the function gene of the node");
                }
                outcome([&] { twin.set_f_gene(node, g); });
                break;
            }
            case 3: { // mutate one gene
                unsigned i = R.p(80) ? R.u(0, s.size() - 1) : R.u(s.size(), s.size() + 3);
                if (R.p(15)) i = s.size();
                step("mutate(" + std::to_string(i) + ")");
                bool bad = i >= s.size();
                std::string d0 = digest(e);
                std::string o = outcome([&] { e.mutate(i); });
                check("C05", (o == "invalid_argument") == bad && (bad || o == "ok"), "mutate(" + std::to_string(i) + "): " + o);
                if (bad) check("C05 C02", digest(e) == d0, "a rejected mutation changed the expression");
                else {
                    Diff d(x0, e.get());
                    check("C05", lb[i] < ub[i] ? (d.n == 1 && d.at[0] == i) : d.n == 0, "mutate(" + std::to_string(i) + ") changed genes " + str(d.at));
                }
                outcome([&] { twin.mutate(i); });
                break;
            }
            case 4: { // mutate several
                VU idx;
                unsigned k2 = R.u(0, 6);
                bool bad = false, dup = false;
                for (unsigned i = 0; i < k2; ++i) {
                    unsigned g = R.p(90) ? R.u(0, s.size() - 1) : s.size() + R.u(0, 2);
                    if (g >= s.size()) bad = true;
                    if (has(idx, g)) dup = true;
                    idx.push_back(g);
                }
                step("mutate(" + str(idx) + ")");
                std::string d0 = digest(e);
                std::string o = outcome([&] { e.mutate(idx); });
                check("C05", (o == "invalid_argument") == bad && (bad || o == "ok"), "mutate(" + str(idx) + "): " + o);
                if (bad) check("C05 C02", digest(e) == d0, "a rejected mutation changed the expression");
                else {
                    Diff d(x0, e.get());
                    for (unsigned g : d.at) check("C05", has(idx, g), "mutate(" + str(idx) + ") changed gene " + std::to_string(g));
                    if (!dup)
                        for (unsigned g : idx) check("C05", lb[g] == ub[g] || has(d.at, g), "mutate(" + str(idx) + ") left gene " + std::to_string(g) + " as it was");
                }
                outcome([&] { twin.mutate(idx); });
                break;
            }
            case 5: {
                unsigned N = R.u(0, 5);
                step("mutate_random(" + std::to_string(N) + ")");
                e.mutate_random(N);
                twin.mutate_random(N);
                Diff d(x0, e.get());
                check("C05", d.n <= N, "mutate_random(" + std::to_string(N) + ") changed " + std::to_string(d.n) + " genes");
                break;
            }
            case 6: {
                unsigned N = R.u(0, 5);
                step("mutate_inactive(" + std::to_string(N) + ")");
                e.mutate_inactive(N);
                twin.mutate_inactive(N);
                Diff d(x0, e.get());
                check("C05", d.n <= N, "mutate_inactive(" + std::to_string(N) + ") changed " + std::to_string(d.n) + " genes");
                for (unsigned g : d.at) check("C05", !has(ag, g), "mutate_inactive changed the active gene " + std::to_string(g));
                check("C05", s.active(e.get()) == an || s.active(x0) != an, "mutate_inactive changed the active nodes");
                VD p;
                for (unsigned i = 0; i < e.get_n(); ++i) p.push_back(R.d(-2, 2));
                if constexpr (M::eph) p.resize(s.n);
                E a = before, b = e;
                check("C05", same(a(p), b(p)), "mutate_inactive changed the value at " + str(p) + ": " + str(a(p)) + " became " + str(b(p)));
                break;
            }
            case 7: {
                unsigned N = R.u(0, 5);
                step("mutate_active(" + std::to_string(N) + ")");
                e.mutate_active(N);
                twin.mutate_active(N);
                Diff d(x0, e.get());
                check("C05", d.n <= N, "mutate_active(" + std::to_string(N) + ") changed " + std::to_string(d.n) + " genes");
                for (unsigned g : d.at) check("C05", has(ag, g), "mutate_active changed the inactive gene " + std::to_string(g));
                break;
            }
            case 8:
            case 9:
            case 10: {
                unsigned N = R.u(0, 4);
                bool one = R.p(60);
                if (one) N = std::min(N, 1u);
                static const char *nm[] = {"mutate_active_fgene", "mutate_active_cgene", "mutate_ogene"};
                step(std::string(nm[op - 8]) + "(" + std::to_string(N) + ")");
                if (op == 8) e.mutate_active_fgene(N), twin.mutate_active_fgene(N);
                if (op == 9) e.mutate_active_cgene(N), twin.mutate_active_cgene(N);
                if (op == 10) e.mutate_ogene(N), twin.mutate_ogene(N);
                Diff d(x0, e.get());
                check("C05", d.n <= N, std::string(nm[op - 8]) + "(" + std::to_string(N) + ") changed " + std::to_string(d.n) + " genes");
                for (unsigned g : d.at) {
                    bool out = g >= s.size() - s.m, fn = false;
                    for (unsigned v = s.ni(); v < s.nodes(); ++v) fn = fn || s.gene(v) == g;
                    check("C05", op == 10 ? out : (op == 8 ? fn : !fn && !out), std::string(nm[op - 8]) + " changed gene " + std::to_string(g) + ", which is not of that kind");
                    if (N <= 1) check("C05", has(ag, g), std::string(nm[op - 8]) + " changed the inactive gene " + std::to_string(g));
                }
                break;
            }
            case 11: { // seeds
                unsigned sd = unsigned(R.next() >> 40);
                step("seed(" + std::to_string(sd) + ") and mutate");
                E other = e;
                e.seed(sd);
                twin.seed(sd);
                other.mutate_random(R.u(0, 3));
                other.set(e.get());
                other.seed(sd);
                unsigned N = R.u(1, 4);
                e.mutate_random(N);
                twin.mutate_random(N);
                other.mutate_random(N);
                check("C22", other.get() == e.get(), "after reseeding, mutation depends on more than the seed and the chromosome");
                break;
            }
            case 12: { // copies
                step("copy, mutate the copy, assign");
                E copy = e;
                std::string d0 = digest(e);
                copy.mutate_active(3);
                copy.mutate_random(3);
                check("C22 C02", digest(e) == d0, "mutating a copy changed its source");
                E c2 = before;
                c2 = e;
                e = c2;
                E moved(std::move(c2));
                e = std::move(moved);
                check_active(copy, s);
                check_layout(copy, s);
                check("C22", digest(e) == d0, "copying and moving changed the expression");
                break;
            }
            case 13: { // constants, weights
                if constexpr (M::eph) {
                    unsigned kk = R.p(60) ? s.neph : R.u(0, s.neph + 2);
                    VD v;
                    VS names;
                    for (unsigned i = 0; i < kk; ++i) v.push_back(R.d(-5, 5)), names.push_back("k" + std::to_string(i));
                    step("set_eph_val " + str(v));
                    if (attempt(e, kk != s.neph, "set_eph_val" + str(v), [&] { e.set_eph_val(v); })) {
                        check("C06", e.get_eph_val() == v, "constants are not those given");
                        E b = before;
                        b.set_eph_val(v);
                        check("C06", digest(b) == digest(e), "set_eph_val changed something else");
                    }
                    if (attempt(e, kk != s.neph, "set_eph_symb" + str(names), [&] { e.set_eph_symb(names); })) check("C06", e.get_eph_symb() == names, "names of the constants are not those given");
                    outcome([&] { twin.set_eph_val(v); });
                    outcome([&] { twin.set_eph_symb(names); });
                } else {
                    unsigned nw = unsigned(e.get_weights().size());
                    unsigned kk = R.p(60) ? nw : R.u(0, nw + 2);
                    VD v;
                    for (unsigned i = 0; i < kk; ++i) v.push_back(R.d(-5, 5));
                    step("set_weights with " + std::to_string(kk) + " values");
                    if (attempt(e, kk != nw, "set_weights of size " + std::to_string(kk), [&] { e.set_weights(v); })) check("C06", e.get_weights() == v, "weights are not those given");
                    outcome([&] { twin.set_weights(v); });
                    if constexpr (M::ann) {
                        unsigned nb = s.r * s.c;
                        kk = R.p(60) ? nb : R.u(0, nb + 2);
                        VD b(kk);
                        for (auto &z : b) z = R.d(-5, 5);
                        if (attempt(e, kk != nb, "set_biases of size " + std::to_string(kk), [&] { e.set_biases(b); })) check("C06", e.get_biases() == b, "biases are not those given");
                        outcome([&] { twin.set_biases(b); });
                    }
                }
                break;
            }
            case 14: { // save and load into another object
                step("save, load into another expression");
                std::stringstream ss;
                {
                    boost::archive::binary_oarchive oa(ss);
                    oa << e;
                }
                E other = M::with(s, f, seed + 1);
                {
                    boost::archive::binary_iarchive ia(ss);
                    ia >> other;
                }
                e = other;
                break;
            }
            case 15: { // set from a range of integers
                VU x;
                for (unsigned i = 0; i < s.size(); ++i) x.push_back(R.u(lb[i], ub[i]));
                bool bad = R.p(30);
                if (bad) x[R.u(0, s.size() - 1)] = 1000000;
                step("set_from_range " + str(x));
                const VU cx = x;
                if (attempt(e, bad, "set_from_range" + str(x), [&] { e.set_from_range(cx.begin(), cx.end()); })) check("C06", e.get() == x, "the chromosome set from a range is not the one given");
                outcome([&] { twin.set_from_range(cx.begin(), cx.end()); });
                break;
            }
        }
        check_layout(e, s);
        check_active(e, s);
        check("C22", digest(e) == digest(twin), "two expressions with the same history differ");
        if (e.get().size() != s.size()) return;
    }
    done_case(g_log[0] + str(e.get()));
}

template <typename E> void rejections(Rng &R)
{
    using M = make<E>;
    Shape s = random_shape(R, M::eph);
    auto f = kernels(s.nf, R, M::ann);
    unsigned how = R.u(0, 9);
    bool bad = true, uni = R.p(40);
    if (how == 0) {
        s.n = 0;
        if (M::eph && R.p(50)) s.neph = R.u(0, 2);
        bad = s.n + s.neph == 0;
    }
    if (how == 1) s.m = 0;
    if (how == 2) s.r = 0;
    if (how == 3) s.c = 0, uni = true;
    if (how == 4) s.l = 0;
    if (how == 5) uni ? void(s.arity[0] = 0) : void(s.arity[R.u(0, s.c - 1)] = 0);
    if (how == 6) {
        uni = false;
        if (R.p(50) && s.c > 1) s.arity.pop_back();
        else s.arity.push_back(2);
        if (R.p(20)) s.arity.clear();
    }
    if (how == 7) f.clear(), s.nf = 0;
    if (how == 8) bad = false;
    if (how == 9) {
        if (M::ann) {
            dcgp::kernel_set<double> ks;
            static const VS no = {"diff", "mul", "div", "pdiv", "sin", "cos", "exp", "log", "gaussian", "sqrt"};
            ks.push_back(R.of(no));
            f.insert(f.begin() + R.u(0, unsigned(f.size())), ks()[0]);
            s.nf++;
        } else bad = false;
    }
    begin_case(std::string("construct ") + M::name() + " " + s.text() + (uni ? " uniform" : ""));
    unsigned a0 = s.arity.empty() ? 2 : s.arity[0];
    if (uni && how != 3) s.arity.assign(s.c, a0);
    std::string o = outcome([&] {
        if (uni) M::uniform(s, a0, f, 7);
        else M::with(s, f, 7);
    });
    check("C06", bad ? o == "invalid_argument" : o == "ok", std::string("construction with ") + s.text() + ": " + o + (bad ? ", should be rejected" : ", should be accepted"));
    if (!bad && o == "ok") {
        E e = uni ? M::uniform(s, a0, f, 7) : M::with(s, f, 7);
        check_layout(e, s);
        check_active(e, s);
    }
    done_case(g_log[0]);
}

// indices of single weights and biases
template <typename E> void single_indices(Rng &R)
{
    using M = make<E>;
    if constexpr (!M::eph) {
        Shape s = random_shape(R, false);
        auto f = kernels(s.nf, R, M::ann);
        begin_case(std::string("single weights of ") + M::name() + " " + s.text());
        E e = M::with(s, f, 3);
        for (unsigned k = 0; k < 10; ++k) {
            unsigned node = R.p(10) ? 4294967295u : R.u(0, s.nodes() + 1), j = R.p(10) ? 4294967295u : R.u(0, 5);
            bool bad = node < s.ni() || node >= s.nodes() || j >= s.ar(node);
            double w = R.d(-3, 3);
            std::string wh = "(" + std::to_string(node) + "," + std::to_string(j) + ")";
            step("weight " + wh);
            if (attempt(e, bad, "set_weight" + wh, [&] { e.set_weight(node, j, w); })) check("C06", e.get_weight(node, j) == w, "weight " + wh + " does not read back");
            attempt(e, bad, "get_weight" + wh, [&] { e.get_weight(node, j); });
        }
        done_case(g_log[0]);
    }
}

int main(int argc, char **argv)
{
    init(argc, argv);
    (void)ALL;
    for (std::uint64_t i = 0; time_left(); ++i) {
        Rng R(g_seed * 1000003 + i);
        switch (i % 4) {
            case 0:
            case 3: history<dcgp::expression<double>>(R); break;
            case 1: history<dcgp::expression_weighted<double>>(R); break;
            case 2: history<dcgp::expression_ann>(R); break;
        }
        if (on("C06") || i % 8 == 0) {
            switch (i % 3) {
                case 0: rejections<dcgp::expression<double>>(R); break;
                case 1: rejections<dcgp::expression_weighted<double>>(R); break;
                case 2: rejections<dcgp::expression_ann>(R); break;
            }
            single_indices<dcgp::expression_weighted<double>>(R);
            single_indices<dcgp::expression_ann>(R);
        }
    }
    return finish();
}
