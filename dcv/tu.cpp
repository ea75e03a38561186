// Translation unit handed to the extractor: it only makes the compiler instantiate the templates of the code under
// verification, at the element types the checks reason about. It contains no look-alike of any dcgp code.
#include <dcgp/dcgp.hpp>

#include <dcgp/algorithms/es4cgp.hpp>
#include <dcgp/algorithms/gd4cgp.hpp>
#include <dcgp/algorithms/mes4cgp.hpp>
#include <dcgp/algorithms/moes4cgp.hpp>
#include <dcgp/algorithms/momes4cgp.hpp>
#include <dcgp/gym.hpp>
#include <dcgp/problems/symbolic_regression.hpp>
#include <dcgp/rng.hpp>

// Archives, declared only: they make the serialize members concrete, so that they are in the AST.
#define DCV_ARCHIVE(A, SAVING, LOADING)                                                                                                    \
    struct A {                                                                                                                             \
        using is_saving = boost::mpl::bool_<SAVING>;                                                                                       \
        using is_loading = boost::mpl::bool_<LOADING>;                                                                                     \
        template <typename T>                                                                                                              \
        A &operator&(const T &);                                                                                                           \
        template <typename T>                                                                                                              \
        A &operator&(T &);                                                                                                                 \
        template <typename T>                                                                                                              \
        A &operator<<(const T &);                                                                                                          \
        template <typename T>                                                                                                              \
        A &operator>>(T &);                                                                                                                \
    };
DCV_ARCHIVE(dcv_oarchive, true, false)
DCV_ARCHIVE(dcv_iarchive, false, true)

// Callables of which nothing is known (declared only), with and without a thread safety level.
struct dcv_callable {
    double operator()(const std::vector<double> &) const;
    template <typename Archive>
    void serialize(Archive &, unsigned)
    {
    }
};
struct dcv_callable_ts {
    double operator()(const std::vector<double> &) const;
    pagmo::thread_safety get_thread_safety() const;
    template <typename Archive>
    void serialize(Archive &, unsigned)
    {
    }
};
double dcv_free_function(const std::vector<double> &);

namespace dcgp
{
template class function<double(const std::vector<double> &)>;
inline void dcv_instantiate(function<double(const std::vector<double> &)> f, const function<double(const std::vector<double> &)> &cf,
                            double (*p)(const std::vector<double> &))
{
    using fun = function<double(const std::vector<double> &)>;
    dcv_callable a;
    dcv_callable_ts b;
    fun f1(a), f2(b), f3(p), f4(dcv_free_function), f5;
    fun g(std::move(f));
    g = std::move(f);
    g = cf;
    g.extract<dcv_callable>();
    cf.extract<dcv_callable>();
    cf.is<dcv_callable>();
    std::swap(f, g);
}
template class expression<double>;
template class expression_weighted<double>;
template class kernel_set<double>;
template class kernel<double>;
template class kernel_set<audi::gdual_d>;
template class kernel<audi::gdual_d>;
template class kernel_set<audi::gdual_v>;
template class kernel<audi::gdual_v>;
using dcv_vu_it = std::vector<unsigned>::const_iterator;
using dcv_vd_it = std::vector<double>::const_iterator;
template void expression<double>::set_from_range(dcv_vu_it, dcv_vu_it);
template void expression<double>::set_from_range(dcv_vd_it, dcv_vd_it);
#define DCV_SERIALIZE(...)                                                                                                                 \
    template void __VA_ARGS__::serialize(dcv_oarchive &, unsigned);                                                                        \
    template void __VA_ARGS__::serialize(dcv_iarchive &, unsigned);
DCV_SERIALIZE(expression<double>)
DCV_SERIALIZE(expression<audi::gdual_v>)
DCV_SERIALIZE(expression_weighted<double>)
DCV_SERIALIZE(expression_ann)
DCV_SERIALIZE(kernel<double>)
DCV_SERIALIZE(kernel<audi::gdual_v>)
DCV_SERIALIZE(kernel_set<double>)
DCV_SERIALIZE(function<double(const std::vector<double> &)>)
DCV_SERIALIZE(detail::function_inner<dcv_callable, double, const std::vector<double> &>)
DCV_SERIALIZE(symbolic_regression)
DCV_SERIALIZE(es4cgp)
DCV_SERIALIZE(gd4cgp)
DCV_SERIALIZE(mes4cgp)
DCV_SERIALIZE(moes4cgp)
DCV_SERIALIZE(momes4cgp)
} // namespace dcgp
