// Helpers of pyclustering/utils of the core over C arrays.
#include <cstdint>
#include <vector>

#include <pyclustering/utils/algorithm.hpp>
#include <pyclustering/utils/linalg.hpp>
#include <pyclustering/utils/math.hpp>
#include <pyclustering/utils/metric.hpp>
#include <pyclustering/utils/stats.hpp>

using namespace pyclustering::utils;
using vec = std::vector<double>;
using mat = std::vector<vec>;

static vec V(const double *p, int n) { return vec(p, p + n); }
static int out(const vec &v, double *o) { for (std::size_t i = 0; i < v.size(); i++) o[i] = v[i]; return (int)v.size(); }

// op: 0 a-b  1 a-s  2 a*b  3 a*s  4 a/b  5 a/s  6 sum(a)
extern "C" int mc_linalg(int op, const double *a, const double *b, int n, double s, double *o) {
    vec x = V(a, n), y = V(b, n);
    switch (op) {
    case 0: return out(linalg::subtract(x, y), o);
    case 1: return out(linalg::subtract(x, s), o);
    case 2: return out(linalg::multiply(x, y), o);
    case 3: return out(linalg::multiply(x, s), o);
    case 4: return out(linalg::divide(x, y), o);
    case 5: return out(linalg::divide(x, s), o);
    case 6: o[0] = linalg::sum(x); return 1;
    }
    return -1;
}

// matrix (rows x cols): op 0 multiply by vector (per column), 1 sum over axis 0, 2 sum over axis 1
extern "C" int mc_matrix(int op, const double *m, int rows, int cols, const double *b, int nb, double *o) {
    mat a;
    for (int i = 0; i < rows; i++) a.push_back(V(m + i * cols, cols));
    if (op == 0) {
        int k = 0;
        for (auto &r : linalg::multiply(a, V(b, nb))) { for (double v : r) o[k++] = v; }
        return k;
    }
    return out(linalg::sum(a, op - 1), o);
}

// op 0 mean, 1 var, 2 std, 3 pdf, 4 cdf, 5 anderson, 6 critical values of this size, 7 heaviside of each
extern "C" int mc_stats(int op, const double *a, int n, double *o) {
    vec x = V(a, n);
    switch (op) {
    case 0: o[0] = stats::mean(x); return 1;
    case 1: o[0] = stats::var(x); return 1;
    case 2: o[0] = stats::std(x); return 1;
    case 3: return out(stats::pdf(x), o);
    case 4: return out(stats::cdf(x), o);
    case 5: o[0] = stats::anderson(x); return 1;
    case 6: return out(stats::critical_values(n), o);
    case 7: for (int i = 0; i < n; i++) o[i] = math::heaviside(a[i]); return n;
    }
    return -1;
}

extern "C" int mc_left(const double *a, int n) {
    vec x = V(a, n);
    return (int)(algorithm::find_left_element(x.begin(), x.end()) - x.begin());
}

extern "C" double mc_neighbours(const double *a, int n, int dim, int k) {
    mat d;
    for (int i = 0; i < n; i++) d.push_back(V(a + i * dim, dim));
    return metric::average_neighbor_distance(&d, k);
}
