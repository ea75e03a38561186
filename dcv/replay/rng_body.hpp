// C14: the global seed sequence, sequentially and from several threads
#include "common.hpp"
#include <algorithm>
#include <atomic>
#include <dcgp/rng.hpp>
#include <thread>
using namespace rp;
using U = std::vector<unsigned>;
static U take(unsigned n)
{
    U r;
    for (unsigned i = 0; i < n; ++i) r.push_back(dcgp::random_device::next());
    return r;
}
static void sequential(Rng &R)
{
    unsigned s = R.p(30) ? R.of(U{0u, 1u, 5489u, 0x80000000u, 0xffffffffu}) : unsigned(R.next()), n = R.u(1, 700), k = R.u(0, 5);
    begin_case("set_seed(" + std::to_string(s) + "), " + std::to_string(n) + " numbers, other seeds and draws in between, set_seed again");
    dcgp::random_device::set_seed(s);
    auto a = take(n);
    for (unsigned i = 0; i < k; ++i) {
        if (R.p(50)) dcgp::random_device::set_seed(unsigned(R.next()));
        take(R.u(0, 1300));
    }
    dcgp::random_device::set_seed(s);
    auto b = take(n);
    check("C14", a == b, "the sequence after set_seed is not a function of the seed alone");
    if (n > 4) check("C14", std::set<unsigned>(a.begin(), a.end()).size() > 1, "the sequence is constant");
    dcgp::random_device::set_seed(s ^ (1u + unsigned(R.u(0, 100))));
    check("C14", n < 4 || take(n) != a, "another seed gives the same sequence");
    // in another thread the same sequence goes on
    dcgp::random_device::set_seed(s);
    U c;
    std::thread([&] { c = take(n / 2); }).join();
    auto d = take(n - n / 2);
    c.insert(c.end(), d.begin(), d.end());
    check("C14", c == a, "the sequence is not shared between threads");
    std::thread([&] { dcgp::random_device::set_seed(s); }).join();
    check("C14", take(n) == a, "a seed set in another thread is not the global one");
    done_case(std::to_string(s) + "/" + std::to_string(n));
}
static void concurrent(Rng &R, unsigned per)
{
    unsigned s = unsigned(R.next()), t = R.u(2, 8);
    begin_case("set_seed(" + std::to_string(s) + "), " + std::to_string(t) + " threads take " + std::to_string(per) + " numbers each");
    dcgp::random_device::set_seed(s);
    auto want = take(t * per);
    std::sort(want.begin(), want.end());
    dcgp::random_device::set_seed(s);
    std::vector<U> got(t);
    std::atomic<unsigned> ready{0};
    std::vector<std::thread> th;
    for (unsigned i = 0; i < t; ++i)
        th.emplace_back([&, i] {
            ++ready;
            while (ready < t) {
            }
            got[i] = take(per);
        });
    for (auto &x : th) x.join();
    U all;
    for (auto &g : got) all.insert(all.end(), g.begin(), g.end());
    std::sort(all.begin(), all.end());
    check("C14", all == want, "numbers were lost or handed out twice, or come from elsewhere");
    // setting the seed while others draw: whoever is last, afterwards the sequence is the one of that seed
    std::vector<std::thread> t2;
    for (unsigned i = 0; i < t; ++i)
        t2.emplace_back([&, i] {
            for (unsigned k = 0; k < per / 50 + 1; ++k)
                if (i % 2) take(20);
                else dcgp::random_device::set_seed(s);
        });
    for (auto &x : t2) x.join();
    dcgp::random_device::set_seed(s);
    auto again = take(t * per);
    std::sort(again.begin(), again.end());
    check("C14", again == want, "the sequence of the seed differs after concurrent use");
    done_case(std::to_string(s) + "x" + std::to_string(t));
}
int main(int argc, char **argv)
{
    init(argc, argv);
    for (std::uint64_t i = 0; time_left(); ++i) {
        Rng R(g_seed * 1000003 + i);
        i % 4 == 3 ? concurrent(R, DCV_PER) : sequential(R);
    }
    return finish();
}
