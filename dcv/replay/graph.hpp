// Oracle for the Cartesian encoding, written from the property statements (independent of the code under test).
#ifndef DCV_REPLAY_GRAPH
#define DCV_REPLAY_GRAPH
#include "common.hpp"
#include <dcgp/expression.hpp>
#include <dcgp/expression_ann.hpp>
#include <dcgp/expression_weighted.hpp>
#include <dcgp/kernel_set.hpp>

namespace rp
{
using VU = std::vector<unsigned>;
using VD = std::vector<double>;
using VS = std::vector<std::string>;

struct Shape {
    unsigned n, m, r, c, l;
    VU arity;
    unsigned nf, neph;
    unsigned ni() const { return n + neph; } // inputs including constants
    unsigned nodes() const { return ni() + r * c; }
    unsigned col(unsigned node) const { return (node - ni()) / r; }
    unsigned ar(unsigned node) const { return arity[col(node)]; }
    unsigned gene(unsigned node) const
    {
        unsigned g = 0;
        for (unsigned v = ni(); v < node; ++v) g += 1 + ar(v);
        return g;
    }
    unsigned size() const { return gene(nodes()) + m; }
    std::string text() const
    {
        std::ostringstream o;
        o << "n=" << n << " m=" << m << " r=" << r << " c=" << c << " l=" << l << " arity=" << str(arity) << " kernels=" << nf << " constants=" << neph;
        return o.str();
    }
    // bounds of every gene
    void bounds(VU &lb, VU &ub) const
    {
        lb.clear();
        ub.clear();
        for (unsigned v = ni(); v < nodes(); ++v) {
            lb.push_back(0);
            ub.push_back(nf - 1);
            unsigned k = col(v);
            for (unsigned j = 0; j < ar(v); ++j) {
                // inputs of the node: nodes of the l previous columns, and the inputs while l reaches them
                lb.push_back(k >= l ? ni() + (k - l) * r : 0);
                ub.push_back(ni() + k * r - 1);
            }
        }
        for (unsigned i = 0; i < m; ++i) {
            ub.push_back(nodes() - 1);
            lb.push_back(l <= c ? ni() + (c - l) * r : 0);
        }
    }
    VU active(const VU &x) const
    {
        std::set<unsigned> s;
        std::vector<unsigned> todo;
        for (unsigned i = 0; i < m; ++i) todo.push_back(x[x.size() - m + i]);
        while (!todo.empty()) {
            unsigned v = todo.back();
            todo.pop_back();
            if (!s.insert(v).second) continue;
            if (v < ni()) continue;
            for (unsigned j = 0; j < ar(v); ++j) todo.push_back(x[gene(v) + 1 + j]);
        }
        return VU(s.begin(), s.end());
    }
    VU active_genes(const VU &x) const
    {
        VU g;
        for (unsigned v : active(x))
            if (v >= ni())
                for (unsigned j = 0; j <= ar(v); ++j) g.push_back(gene(v) + j);
        for (unsigned i = 0; i < m; ++i) g.push_back(size() - m + i);
        return g;
    }
};

inline Shape random_shape(Rng &R, bool eph, bool big = false)
{
    Shape s;
    s.n = R.u(1, 3);
    s.m = R.u(1, 4);
    s.r = R.u(1, 4);
    s.c = R.u(1, big ? 8 : 5);
    s.l = R.p(50) ? R.u(1, s.c + 1) : R.u(1, s.c + 3);
    bool uni = R.p(30);
    unsigned a = R.u(1, 4);
    for (unsigned i = 0; i < s.c; ++i) s.arity.push_back(uni ? a : R.u(1, 4));
    s.nf = R.u(1, 4);
    s.neph = eph && R.p(50) ? R.u(1, 3) : 0;
    if (R.p(4)) {
        // a wide shape: many genes, many nodes (indices past 8 bits)
        s.r = R.u(20, 40);
        s.c = R.u(10, 16);
        s.arity.assign(s.c, 2);
        s.arity[R.u(0, s.c - 1)] = R.u(1, 6);
        s.l = R.u(1, s.c + 1);
    }
    return s;
}

template <typename E> void check_layout(const E &ex, const Shape &s)
{
    const VU &x = ex.get();
    check("C01", ex.get_n() == s.ni() && ex.get_m() == s.m && ex.get_r() == s.r && ex.get_c() == s.c && ex.get_l() == s.l,
          "the dimensions reported are not those of construction");
    check("C01", ex.get_arity() == s.arity, "the arities reported are not those of construction");
    check("C01", x.size() == s.size(), "chromosome length " + std::to_string(x.size()) + " but the layout prescribes " + std::to_string(s.size()));
    VU lb, ub;
    s.bounds(lb, ub);
    check("C01", ex.get_lb() == lb, "lower bounds " + str(ex.get_lb()) + " but the layout prescribes " + str(lb));
    check("C01", ex.get_ub() == ub, "upper bounds " + str(ex.get_ub()) + " but the layout prescribes " + str(ub));
    for (std::size_t i = 0; i < x.size() && i < lb.size(); ++i)
        check("C01", lb[i] <= x[i] && x[i] <= ub[i], "gene " + std::to_string(i) + " = " + std::to_string(x[i]) + " outside [" + std::to_string(lb[i]) + ", " + std::to_string(ub[i]) + "]");
    if (on("C01")) {
        const VU &gi = ex.get_gene_idx();
        check("C01", gi.size() == s.nodes(), "gene positions listed for " + std::to_string(gi.size()) + " nodes");
        for (unsigned v = s.ni(); v < s.nodes(); ++v) {
            check("C01", gi[v] == s.gene(v), "first gene of node " + std::to_string(v) + " reported as " + std::to_string(gi[v]) + " instead of " + std::to_string(s.gene(v)));
            check("C01", ex.get_arity(v) == s.ar(v), "arity of node " + std::to_string(v));
        }
        check("C01", outcome([&] { ex.get_arity(s.nodes()); }) == "invalid_argument", "arity of a node that does not exist");
        check("C01", outcome([&] { ex.get_arity(s.ni() - 1); }) == "invalid_argument", "arity of an input node");
    }
}

template <typename E> void check_active(const E &ex, const Shape &s)
{
    if (!on("C02")) return;
    const VU &x = ex.get();
    VU an = s.active(x), ag = s.active_genes(x);
    check("C02", ex.get_active_nodes() == an, "active nodes " + str(ex.get_active_nodes()) + " but the outputs depend on " + str(an) + " (chromosome " + str(x) + ")");
    check("C02", ex.get_active_genes() == ag, "active genes " + str(ex.get_active_genes()) + " but the outputs depend on " + str(ag) + " (chromosome " + str(x) + ")");
    std::set<unsigned> sn(an.begin(), an.end()), sg(ag.begin(), ag.end());
    for (unsigned v = 0; v < s.nodes() + 2; ++v) check("C02", ex.is_active_node(v) == (sn.count(v) > 0), "activity of node " + std::to_string(v));
    for (unsigned g = 0; g < s.size() + 2; ++g) check("C02", ex.is_active_gene(g) == (sg.count(g) > 0), "activity of gene " + std::to_string(g));
}

inline std::vector<dcgp::kernel<double>> kernels(unsigned nf, Rng &R, bool ann)
{
    static const VS any = {"sum", "diff", "mul", "pdiv", "sig", "tanh", "ReLu", "ELU", "ISRU", "sin", "cos", "exp", "gaussian", "sqrt", "psqrt", "log", "sin_nu", "cos_nu", "gaussian_nu", "inv_sum", "abs", "step", "div"};
    static const VS ok = {"sum", "sig", "tanh", "ReLu", "ELU", "ISRU", "sin_nu", "cos_nu", "gaussian_nu", "inv_sum", "abs", "step"};
    dcgp::kernel_set<double> ks;
    for (unsigned i = 0; i < nf; ++i) ks.push_back(R.of(ann ? ok : any));
    return ks();
}

template <typename E> struct make;
template <> struct make<dcgp::expression<double>> {
    static constexpr bool eph = true, ann = false;
    static const char *name() { return "expression"; }
    static dcgp::expression<double> with(const Shape &s, const std::vector<dcgp::kernel<double>> &f, unsigned seed)
    {
        return dcgp::expression<double>(s.n, s.m, s.r, s.c, s.l, s.arity, f, s.neph, seed);
    }
    static dcgp::expression<double> uniform(const Shape &s, unsigned a, const std::vector<dcgp::kernel<double>> &f, unsigned seed)
    {
        return dcgp::expression<double>(s.n, s.m, s.r, s.c, s.l, a, f, s.neph, seed);
    }
};
template <> struct make<dcgp::expression_weighted<double>> {
    static constexpr bool eph = false, ann = false;
    static const char *name() { return "expression_weighted"; }
    static dcgp::expression_weighted<double> with(const Shape &s, const std::vector<dcgp::kernel<double>> &f, unsigned seed)
    {
        return dcgp::expression_weighted<double>(s.n, s.m, s.r, s.c, s.l, s.arity, f, seed);
    }
    static dcgp::expression_weighted<double> uniform(const Shape &s, unsigned a, const std::vector<dcgp::kernel<double>> &f, unsigned seed)
    {
        return dcgp::expression_weighted<double>(s.n, s.m, s.r, s.c, s.l, a, f, seed);
    }
};
template <> struct make<dcgp::expression_ann> {
    static constexpr bool eph = false, ann = true;
    static const char *name() { return "expression_ann"; }
    static dcgp::expression_ann with(const Shape &s, const std::vector<dcgp::kernel<double>> &f, unsigned seed)
    {
        return dcgp::expression_ann(s.n, s.m, s.r, s.c, s.l, s.arity, f, seed);
    }
    static dcgp::expression_ann uniform(const Shape &s, unsigned a, const std::vector<dcgp::kernel<double>> &f, unsigned seed)
    {
        return dcgp::expression_ann(s.n, s.m, s.r, s.c, s.l, a, f, seed);
    }
};

// everything observable of an expression, as text
template <typename E> std::string digest(const E &e)
{
    std::ostringstream o;
    o << std::setprecision(17) << e.get_n() << ' ' << e.get_m() << ' ' << e.get_r() << ' ' << e.get_c() << ' ' << e.get_l() << str(e.get_arity()) << str(e.get()) << str(e.get_lb())
      << str(e.get_ub()) << str(e.get_active_nodes()) << str(e.get_active_genes()) << str(e.get_gene_idx()) << str(e.get_eph_val()) << str(e.get_eph_symb());
    for (const auto &k : e.get_f()) o << k.get_name() << ',';
    if constexpr (std::is_same<E, dcgp::expression_weighted<double>>::value) o << str(e.get_weights());
    if constexpr (std::is_same<E, dcgp::expression_ann>::value) o << str(e.get_weights()) << str(e.get_biases());
    return o.str();
}
} // namespace rp
#endif
