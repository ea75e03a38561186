// Verification stand-in for the AuDi library (not installed in this sandbox).
// A small functional truncated-Taylor algebra (value, gradient, Hessian; order <= 2), written for
// the replay harnesses, with the part of AuDi's interface dcgp uses. It is part of the trusted base.
#ifndef DCV_AUDI_STUB
#define DCV_AUDI_STUB
#include <algorithm>
#include <cmath>
#include <initializer_list>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <unordered_map>
#include <vector>
#include <boost/serialization/map.hpp>
#include <boost/serialization/set.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/utility.hpp>
#include <boost/serialization/vector.hpp>

namespace audi
{
inline void stream(std::ostream &) {}
namespace detail
{
template <typename T> inline void stream_impl(std::ostream &os, const T &x) { os << x; }
inline void stream_impl(std::ostream &os, const bool &b) { os << (b ? "true" : "false"); }
template <typename T> inline void stream_impl(std::ostream &os, const std::vector<T> &v)
{
    os << "[";
    for (std::size_t i = 0; i < v.size(); ++i) {
        if (i) os << ", ";
        stream_impl(os, static_cast<const T &>(v[i]));
    }
    os << "]";
}
} // namespace detail
template <typename T, typename... Args> inline void stream(std::ostream &os, const T &x, const Args &...args)
{
    detail::stream_impl(os, x);
    stream(os, args...);
}

template <typename T> struct vectorized {
    vectorized() : m_c(1, T(0)) {}
    vectorized(double v) : m_c(1, T(v)) {}
    vectorized(const std::vector<T> &v) : m_c(v)
    {
        if (v.empty()) throw std::invalid_argument("empty vectorized");
    }
    vectorized(std::initializer_list<T> l) : m_c(l) {}
    typename std::vector<T>::const_iterator begin() const { return m_c.begin(); }
    typename std::vector<T>::const_iterator end() const { return m_c.end(); }
    typename std::vector<T>::size_type size() const { return m_c.size(); }
    const T &operator[](std::size_t i) const { return m_c.size() == 1 ? m_c[0] : m_c[i]; }
    const std::vector<T> &get_v() const { return m_c; }
    template <typename F> static vectorized zip(const vectorized &a, const vectorized &b, F f)
    {
        std::size_t n = std::max(a.size(), b.size());
        if ((a.size() != n && a.size() != 1) || (b.size() != n && b.size() != 1))
            throw std::invalid_argument("vectorized size mismatch");
        std::vector<T> r(n);
        for (std::size_t i = 0; i < n; ++i) r[i] = f(a[i], b[i]);
        return vectorized(r);
    }
    friend vectorized operator+(const vectorized &a, const vectorized &b) { return zip(a, b, [](T x, T y) { return x + y; }); }
    friend vectorized operator-(const vectorized &a, const vectorized &b) { return zip(a, b, [](T x, T y) { return x - y; }); }
    friend vectorized operator*(const vectorized &a, const vectorized &b) { return zip(a, b, [](T x, T y) { return x * y; }); }
    friend vectorized operator/(const vectorized &a, const vectorized &b) { return zip(a, b, [](T x, T y) { return x / y; }); }
    vectorized operator-() const { return vectorized(0.) - *this; }
    friend bool operator<(const vectorized &a, const vectorized &b) { return a.m_c[0] < b.m_c[0]; }
    friend bool operator>(const vectorized &a, const vectorized &b) { return b < a; }
    friend bool operator==(const vectorized &a, const vectorized &b) { return a.m_c == b.m_c; }
    friend std::ostream &operator<<(std::ostream &os, const vectorized &v) { detail::stream_impl(os, v.m_c); return os; }
    template <typename Archive> void serialize(Archive &ar, unsigned) { ar &m_c; }
    std::vector<T> m_c;
};
namespace detail
{
template <typename F> inline double ap(double x, F f) { return f(x); }
template <typename F> inline vectorized<double> ap(const vectorized<double> &x, F f)
{
    std::vector<double> r(x.m_c);
    for (auto &e : r) e = f(e);
    return vectorized<double>(r);
}
} // namespace detail

template <typename Cf> class gdual
{
    using key = std::pair<std::string, std::string>;

public:
    using cf_type = Cf;
    gdual() : m_v(0.), m_order(0u) {}
    gdual(const gdual &) = default;
    gdual(gdual &&) = default;
    gdual &operator=(const gdual &) = default;
    gdual &operator=(gdual &&) = default;
    template <typename T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0>
    explicit gdual(const T &v) : m_v(static_cast<double>(v)), m_order(0u) {}
    template <typename C = Cf, std::enable_if_t<!std::is_arithmetic<C>::value, int> = 0>
    explicit gdual(const Cf &v) : m_v(v), m_order(0u) {}
    template <typename C = Cf, std::enable_if_t<!std::is_arithmetic<C>::value, int> = 0>
    explicit gdual(const std::vector<double> &v) : m_v(v), m_order(0u) {}
    explicit gdual(const Cf &v, const std::string &s, unsigned order) : m_v(v), m_order(order)
    {
        m_s.insert("d" + s);
        if (order > 0u) m_g.emplace("d" + s, Cf(1.));
    }
    Cf constant_cf() const { return m_v; }
    unsigned get_order() const { return m_order; }
    void extend_symbol_set(const std::vector<std::string> &s) { m_s.insert(s.begin(), s.end()); }
    std::vector<std::string> get_symbol_set() const { return std::vector<std::string>(m_s.begin(), m_s.end()); }
    Cf get_derivative(const std::vector<unsigned> &k) const
    {
        if (k.size() != m_s.size()) throw std::invalid_argument("multi-index size mismatch");
        std::vector<std::string> l;
        std::size_t i = 0;
        for (const auto &s : m_s) {
            for (unsigned j = 0; j < k[i]; ++j) l.push_back(s);
            ++i;
        }
        if (l.size() > m_order) throw std::invalid_argument("derivative order larger than the truncation order");
        if (l.empty()) return m_v;
        if (l.size() == 1) return getg(l[0]);
        if (l.size() == 2) return geth(l[0], l[1]);
        throw std::invalid_argument("order > 2 is not supported by this stand-in");
    }
    Cf get_derivative(const std::unordered_map<std::string, unsigned> &d) const
    {
        std::vector<unsigned> k;
        for (const auto &s : m_s) {
            auto it = d.find(s);
            k.push_back(it == d.end() ? 0u : it->second);
        }
        for (const auto &p : d)
            if (p.second && !m_s.count(p.first)) return Cf(0.);
        return get_derivative(k);
    }
    Cf getg(const std::string &s) const
    {
        auto it = m_g.find(s);
        return it == m_g.end() ? Cf(0.) : it->second;
    }
    Cf geth(const std::string &a, const std::string &b) const
    {
        auto it = m_h.find(a < b ? key{a, b} : key{b, a});
        return it == m_h.end() ? Cf(0.) : it->second;
    }
    // f(a, b) given its value and partial derivatives up to order two.
    static gdual comb(const gdual &a, const gdual &b, const Cf &v, const Cf &fa, const Cf &fb, const Cf &faa,
                      const Cf &fab, const Cf &fbb)
    {
        gdual r;
        r.m_v = v;
        r.m_order = std::max(a.m_order, b.m_order);
        r.m_s = a.m_s;
        r.m_s.insert(b.m_s.begin(), b.m_s.end());
        if (r.m_order >= 1)
            for (const auto &s : r.m_s) r.m_g[s] = fa * a.getg(s) + fb * b.getg(s);
        if (r.m_order >= 2)
            for (const auto &s : r.m_s)
                for (const auto &t : r.m_s) {
                    if (t < s) continue;
                    r.m_h[key{s, t}] = fa * a.geth(s, t) + fb * b.geth(s, t) + faa * a.getg(s) * a.getg(t)
                                       + fab * (a.getg(s) * b.getg(t) + a.getg(t) * b.getg(s))
                                       + fbb * b.getg(s) * b.getg(t);
                }
        return r;
    }
    static gdual un(const gdual &a, const Cf &v, const Cf &f1, const Cf &f2)
    {
        return comb(a, gdual(), v, f1, Cf(0.), f2, Cf(0.), Cf(0.));
    }
    friend gdual operator+(const gdual &a, const gdual &b) { return comb(a, b, a.m_v + b.m_v, Cf(1.), Cf(1.), Cf(0.), Cf(0.), Cf(0.)); }
    friend gdual operator-(const gdual &a, const gdual &b) { return comb(a, b, a.m_v - b.m_v, Cf(1.), Cf(-1.), Cf(0.), Cf(0.), Cf(0.)); }
    friend gdual operator*(const gdual &a, const gdual &b) { return comb(a, b, a.m_v * b.m_v, b.m_v, a.m_v, Cf(0.), Cf(1.), Cf(0.)); }
    friend gdual operator/(const gdual &a, const gdual &b)
    {
        Cf i = Cf(1.) / b.m_v;
        return comb(a, b, a.m_v / b.m_v, i, -(a.m_v * i * i), Cf(0.), -(i * i), Cf(2.) * a.m_v * i * i * i);
    }
#define DCV_MIX(op)                                                                                                    \
    template <typename T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0>                                     \
    friend gdual operator op(const gdual &a, const T &b) { return a op gdual(b); }                                     \
    template <typename T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0>                                     \
    friend gdual operator op(const T &a, const gdual &b) { return gdual(a) op b; }
    DCV_MIX(+)
    DCV_MIX(-)
    DCV_MIX(*)
    DCV_MIX(/)
#undef DCV_MIX
    gdual operator-() const { return gdual(-1.) * (*this); }
    template <typename T> gdual &operator+=(const T &b) { return *this = *this + b; }
    template <typename T> gdual &operator-=(const T &b) { return *this = *this - b; }
    template <typename T> gdual &operator*=(const T &b) { return *this = *this * b; }
    template <typename T> gdual &operator/=(const T &b) { return *this = *this / b; }
    friend bool operator<(const gdual &a, const gdual &b) { return a.m_v < b.m_v; }
    friend bool operator>(const gdual &a, const gdual &b) { return b.m_v < a.m_v; }
    friend bool operator==(const gdual &a, const gdual &b) { return a.m_v == b.m_v && a.m_g == b.m_g && a.m_h == b.m_h; }
    friend bool operator!=(const gdual &a, const gdual &b) { return !(a == b); }
    friend std::ostream &operator<<(std::ostream &os, const gdual &g)
    {
        os << g.m_v;
        for (const auto &p : g.m_g) os << "+" << p.second << "*" << p.first;
        return os;
    }
    template <typename Archive> void serialize(Archive &ar, unsigned) { ar &m_v &m_g &m_h &m_s &m_order; }
    Cf m_v;
    std::map<std::string, Cf> m_g;
    std::map<key, Cf> m_h;
    std::set<std::string> m_s;
    unsigned m_order;
};
using gdual_d = gdual<double>;
using gdual_v = gdual<vectorized<double>>;

// double overloads
inline double exp(double x) { return std::exp(x); }
inline double log(double x) { return std::log(x); }
inline double sin(double x) { return std::sin(x); }
inline double cos(double x) { return std::cos(x); }
inline double tanh(double x) { return std::tanh(x); }
inline double sqrt(double x) { return std::sqrt(x); }
inline double abs(double x) { return std::abs(x); }
#define DCV_FUN(name, f0, f1, f2)                                                                                      \
    template <typename Cf> inline gdual<Cf> name(const gdual<Cf> &g)                                                   \
    {                                                                                                                  \
        return gdual<Cf>::un(                                                                                          \
            g, detail::ap(g.m_v, [](double x) { return f0; }), detail::ap(g.m_v, [](double x) { return f1; }),         \
            detail::ap(g.m_v, [](double x) { return f2; }));                                                           \
    }
DCV_FUN(exp, std::exp(x), std::exp(x), std::exp(x))
DCV_FUN(log, std::log(x), 1. / x, -1. / (x * x))
DCV_FUN(sin, std::sin(x), std::cos(x), -std::sin(x))
DCV_FUN(cos, std::cos(x), -std::sin(x), -std::cos(x))
DCV_FUN(tanh, std::tanh(x), 1. - std::tanh(x) * std::tanh(x), -2. * std::tanh(x) * (1. - std::tanh(x) * std::tanh(x)))
DCV_FUN(sqrt, std::sqrt(x), 0.5 / std::sqrt(x), -0.25 / (std::sqrt(x) * x))
DCV_FUN(abs, std::abs(x), (x < 0. ? -1. : 1.), 0. * x)
#undef DCV_FUN
} // namespace audi
#endif
