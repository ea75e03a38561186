// C21: every generator of the gym against the documented function, domain, size and, for the NIST data, the certified
// residual sum of squares
#include "common.hpp"
#include <dcgp/gym.hpp>
#include <dcgp/rng.hpp>
#include <functional>
using namespace rp;
using VV = std::vector<std::vector<double>>;
using V = std::vector<double>;
using std::cos;
using std::exp;
using std::sin;
static const double PI = 3.14159265358979323846, E = 2.71828182845904523536;
struct G {
    const char *name;
    void (*gen)(VV &, VV &);
    unsigned N;
    std::vector<std::pair<double, double>> dom;
    bool grid;
    std::function<double(const V &)> f;
};
static double p(double x, int n)
{
    double r = 1;
    for (int i = 0; i < n; ++i) r *= x;
    return r;
}
static double sal(double x) { return exp(-x) * p(x, 3) * cos(x) * sin(x) * (cos(x) * p(sin(x), 2) - 1); }
namespace gy = dcgp::gym;
static std::vector<G> table()
{
    return {
        {"koza_quintic", gy::generate_koza_quintic, 10, {{-3, 3}}, true, [](const V &x) { return p(x[0], 5) - 2 * p(x[0], 3) + x[0]; }},
        {"P1", gy::generate_P1, 10, {{1, 3}}, true, [](const V &x) { return p(x[0], 5) - PI * p(x[0], 3) + x[0]; }},
        {"P2", gy::generate_P2, 10, {{.1, 5}}, true, [](const V &x) { return p(x[0], 5) - PI * p(x[0], 3) + 2 * PI / x[0]; }},
        {"P3", gy::generate_P3, 10, {{-.9, 1}}, true, [](const V &x) { return (E * p(x[0], 5) + p(x[0], 3)) / (x[0] + 1); }},
        {"P4", gy::generate_P4, 10, {{-1, 1}}, true, [](const V &x) { return sin(PI * x[0]) + 1 / x[0]; }},
        {"P5", gy::generate_P5, 10, {{1, 3}}, true, [](const V &x) { return E * p(x[0], 5) - PI * p(x[0], 3) + x[0]; }},
        {"P6", gy::generate_P6, 10, {{-2.1, 1}}, true, [](const V &x) { return (E * x[0] * x[0] - 1) / (PI * (x[0] + 2)); }},
        {"P7", gy::generate_P7, 10, {{-1, 1}}, true, [](const V &x) { return cos(PI * x[0]) + sin(E * x[0]); }},
        {"kotanchek", gy::generate_kotanchek, 100, {{.3, 4}, {.3, 4}}, false, [](const V &x) { return exp(-p(x[0] - 1, 2)) / (1.2 + p(x[1] - 2.5, 2)); }},
        {"salutowicz", gy::generate_salutowicz, 100, {{.05, 10}}, true, [](const V &x) { return sal(x[0]); }},
        {"salutowicz2d", gy::generate_salutowicz2d, 601, {{.05, 10}, {.05, 10}}, false, [](const V &x) { return sal(x[0]) * (x[1] - 5); }},
        {"uball5d", gy::generate_uball5d, 1024, {{.05, 6.05}, {.05, 6.05}, {.05, 6.05}, {.05, 6.05}, {.05, 6.05}}, false,
         [](const V &x) { return 10 / (5 + p(x[0] - 3, 2) + p(x[1] - 3, 2) + p(x[2] - 3, 2) + p(x[3] - 3, 2) + p(x[4] - 3, 2)); }},
        {"ratpol3d", gy::generate_ratpol3d, 300, {{.05, 2}, {1, 2}, {.05, 2}}, false, [](const V &x) { return 30 * (x[0] - 1) * (x[2] - 1) / (x[1] * x[1] * (x[0] - 10)); }},
        {"sinecosine", gy::generate_sinecosine, 30, {{.1, 5.9}, {.1, 5.9}}, false, [](const V &x) { return 6 * sin(x[0]) * cos(x[1]); }},
        {"ripple", gy::generate_ripple, 300, {{.05, 6.05}, {.05, 6.05}}, false, [](const V &x) { return (x[0] - 3) * (x[1] - 3) + 2 * sin((x[0] - 4) * (x[1] - 4)); }},
        {"ratpol2d", gy::generate_ratpol2d, 50, {{.05, 6.05}, {.05, 6.05}}, false, [](const V &x) { return (p(x[0] - 3, 4) + p(x[1] - 3, 3) - (x[1] - 3)) / (p(x[1] - 2, 4) + 10); }},
    };
}
struct T {
    const char *name;
    void (*gen)(VV &, VV &);
    unsigned N;
    std::function<double(double)> model; // at the certified parameters
    double rss;
};
static std::vector<T> nist()
{
    return {
        {"chwirut1", gy::generate_chwirut1, 214, [](double x) { return exp(-1.9027818370E-01 * x) / (6.1314004477E-03 + 1.0530908399E-02 * x); }, 2.3844771393E+03},
        {"chwirut2", gy::generate_chwirut2, 54, [](double x) { return exp(-1.6657666537E-01 * x) / (5.1653291286E-03 + 1.2150007096E-02 * x); }, 5.1304802941E+02},
        {"daniel_wood", gy::generate_daniel_wood, 6, [](double x) { return 7.6886226176E-01 * std::pow(x, 3.8604055871E+00); }, 4.3173084083E-03},
        {"gauss1", gy::generate_gauss1, 250,
         [](double x) {
             return 9.8778210871E+01 * exp(-1.0497276517E-02 * x) + 1.0048990633E+02 * exp(-p((x - 6.7481111276E+01) / 2.3129773360E+01, 2))
                    + 7.1994503004E+01 * exp(-p((x - 1.7899805021E+02) / 1.8389389025E+01, 2));
         },
         1.3158222432E+03},
        {"kirby2", gy::generate_kirby2, 151,
         [](double x) { return (1.6745063063E+00 - 1.3927397867E-01 * x + 2.5961181191E-03 * x * x) / (1 - 1.7241811870E-03 * x + 2.1664802578E-05 * x * x); }, 3.9050739624E+00},
        {"lanczos2", gy::generate_lanczos2, 24,
         [](double x) {
             return 9.6251029939E-02 * exp(-1.0057332849E+00 * x) + 8.6424689056E-01 * exp(-3.0078283915E+00 * x) + 1.5529016879E+00 * exp(-5.0028798100E+00 * x);
         },
         2.2299428125E-11},
        {"misra1b", gy::generate_misra1b, 14, [](double x) { return 3.3799746163E+02 * (1 - 1 / p(1 + 3.9039091287E-04 * x / 2, 2)); }, 7.5464681533E-02},
        {"luca1", gy::generate_luca1, 631, nullptr, 0},
    };
}
static VV junk(Rng &R)
{
    VV r(R.u(0, 5));
    for (auto &v : r) v.assign(R.u(0, 3), R.d(-9, 9));
    return r;
}
static void shape(const char *n, const VV &P, const VV &L, unsigned N, std::size_t dim)
{
    check("C21", P.size() == N, std::string(n) + ": " + std::to_string(P.size()) + " points instead of " + std::to_string(N));
    check("C21", L.size() == P.size(), std::string(n) + ": not one label for each point");
    for (std::size_t i = 0; i < P.size(); ++i) {
        check("C21", P[i].size() == dim, std::string(n) + ": wrong dimension of a point");
        check("C21", L[i].size() == 1, std::string(n) + ": wrong dimension of a label");
    }
}
static void noise(Rng &R)
{
    if (R.p(50)) dcgp::random_device::set_seed(unsigned(R.next()));
    for (unsigned i = R.u(0, 3); i > 0; --i) dcgp::random_device::next();
}
int main(int argc, char **argv)
{
    init(argc, argv);
    auto gs = table();
    auto ts = nist();
    std::vector<VV> seen(2 * (gs.size() + ts.size()));
    for (std::uint64_t it = 0; time_left() || it < 3; ++it) {
        Rng R(g_seed * 1000003 + it);
        for (std::size_t gi = 0; gi < gs.size() + ts.size(); ++gi) {
            std::size_t g = R.p(70) ? gi : R.u(0, unsigned(gs.size() + ts.size() - 1));
            auto P = junk(R), L = junk(R);
            const char *n = g < gs.size() ? gs[g].name : ts[g - gs.size()].name;
            begin_case(std::string("generate_") + n + " on arguments of " + std::to_string(P.size()) + " and " + std::to_string(L.size()) + " elements");
            noise(R);
            if (g < gs.size()) {
                auto &s = gs[g];
                s.gen(P, L);
                shape(n, P, L, s.N, s.dom.size());
                for (std::size_t i = 0; i < P.size(); ++i) {
                    for (std::size_t j = 0; j < s.dom.size(); ++j)
                        check("C21", P[i][j] >= s.dom[j].first - 1e-12 && P[i][j] <= s.dom[j].second + 1e-12, std::string(n) + ": point outside the domain");
                    if (s.grid) check("C21", close(P[i][0], s.dom[0].first + double(i) * (s.dom[0].second - s.dom[0].first) / (s.N - 1)), std::string(n) + ": the points are not the uniform grid of the domain");
                    // cancellation near the zeros of the functions is absorbed by an absolute tolerance
                    check("C21", close(L[i][0], s.f(P[i]), 1e-8), std::string(n) + ": the label of point " + str(P[i]) + " is " + std::to_string(L[i][0]) + " instead of " + std::to_string(s.f(P[i])));
                }
                if (!s.grid)
                    for (std::size_t j = 0; j < s.dom.size(); ++j) {
                        double lo = 1e300, hi = -1e300;
                        for (auto &x : P) lo = std::min(lo, x[j]), hi = std::max(hi, x[j]);
                        double w = s.dom[j].second - s.dom[j].first;
                        check("C21", lo < s.dom[j].first + .35 * w && hi > s.dom[j].second - .35 * w, std::string(n) + ": the points do not cover the domain");
                    }
            } else {
                auto &t = ts[g - gs.size()];
                t.gen(P, L);
                shape(n, P, L, t.N, 1);
                if (t.model) {
                    double r = 0;
                    for (std::size_t i = 0; i < P.size(); ++i) r += p(t.model(P[i][0]) - L[i][0], 2);
                    check("C21", std::abs(r - t.rss) <= 1e-8 * t.rss, std::string(n) + ": the data do not give the certified residual sum of squares");
                } else {
                    double a = 0, b = 0;
                    for (std::size_t i = 0; i < P.size(); ++i) a += double(i + 1) * P[i][0], b += double(i + 1) * L[i][0];
                    check("C21", std::abs(a - 5099757660.0) < 1e-3 && std::abs(b - 61293936.8712583) < 1e-5, std::string(n) + ": not the data set of the pinned commit");
                }
            }
            auto &s0 = seen[2 * g], &s1 = seen[2 * g + 1];
            if (!s0.empty()) check("C21", s0 == P && s1 == L, std::string(n) + ": another result than in an earlier call");
            s0 = P, s1 = L;
            // what the caller does with the result must not show in later calls
            for (auto &x : P) x.assign(1, -1);
            done_case(n);
        }
    }
    return finish();
}
