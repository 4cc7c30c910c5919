// Randomness of the core under control: every draw of the sources included after this header asks the explorer.
#pragma once
#include <algorithm>
#include <chrono>
#include <cmath>
#include <functional>
#include <iterator>
#include <limits>
#include <memory>
#include <numeric>
#include <random>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>

extern "C" {
typedef long (*mc_choose_t)(long, const double *);
typedef double (*mc_unit_t)();
typedef double (*mc_normal_t)();
}
namespace mc {
static mc_choose_t choose = nullptr;     // one of n, optionally with weights
static mc_unit_t unit = nullptr;         // a number from [0, 1)
static mc_normal_t normal = nullptr;
}
extern "C" void mc_set_tape(mc_choose_t c, mc_unit_t u, mc_normal_t n) { mc::choose = c; mc::unit = u; mc::normal = n; }

namespace std {
struct mc_engine {
    using result_type = std::uint_fast32_t;
    explicit mc_engine(result_type = 0) { }
    void seed(result_type = 0) { }
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return 0xffffffffu; }
    result_type operator()() { return (result_type) (mc::unit() * 4294967296.0); }
    void discard(unsigned long long) { }
};
template <class T = int>
struct mc_uniform_int {
    T a, b;
    explicit mc_uniform_int(T p = 0, T q = std::numeric_limits<T>::max()) : a(p), b(q) { }
    template <class G> T operator()(G &) { return (T) (a + (T) mc::choose((long) (b - a) + 1, nullptr)); }
};
template <class T = double>
struct mc_uniform_real {
    T a, b;
    explicit mc_uniform_real(T p = 0, T q = 1) : a(p), b(q) { }
    template <class G> T operator()(G &) { return a + (b - a) * (T) mc::unit(); }
};
template <class T = double>
struct mc_normal {
    T m, s;
    explicit mc_normal(T p = 0, T q = 1) : m(p), s(q) { }
    template <class G> T operator()(G &) { return m + s * (T) mc::normal(); }
};
template <class T = int>
struct mc_discrete {
    std::vector<double> w;
    template <class I> mc_discrete(I f, I l) : w(f, l) { }
    mc_discrete(std::initializer_list<double> l) : w(l) { }
    template <class G> T operator()(G &) { return (T) mc::choose((long) w.size(), w.data()); }
};
}
#define mt19937 mc_engine
#define mt19937_64 mc_engine
#define default_random_engine mc_engine
#define minstd_rand mc_engine
#define uniform_int_distribution mc_uniform_int
#define uniform_real_distribution mc_uniform_real
#define normal_distribution mc_normal
#define discrete_distribution mc_discrete
