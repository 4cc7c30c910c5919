// X-Means and G-Means of the core: randomness under control, loops sequential (so that the draws come in a fixed order)
#include <cstring>
#include "tape.hpp"
#include <pyclustering/parallel/parallel.hpp>
namespace pyclustering { namespace parallel {
template <class I, class F> void mc_for(const I b, const I e, const F & f) { for (I i = b; i < e; i++) { f(i); } }
template <class C, class F> void mc_for_each(C & c, const F & f) { for (auto & x : c) { f(x); } }
} }
#define parallel_for mc_for
#define parallel_for_each mc_for_each
#include "../src/cluster/kmeans_plus_plus.cpp"
#include "../src/cluster/kmeans.cpp"
#include "../src/cluster/xmeans.cpp"
#include "../src/cluster/gmeans.cpp"

using namespace pyclustering;
using namespace pyclustering::clst;
using pyclustering::utils::metric::distance_metric_factory;

static dataset points(long n, long dim, const double * data) {
    dataset out;
    for (long i = 0; i < n; i++) { out.emplace_back(data + i * dim, data + (i + 1) * dim); }
    return out;
}

// out: amount of clusters, amount of centers, error, then clusters (size, indexes), then centers. Returns the length.
static long store(const cluster_sequence & clusters, const dataset & centers, double wce, double * out, long room) {
    std::vector<double> v = { (double) clusters.size(), (double) centers.size(), wce };
    for (const auto & c : clusters) { v.push_back((double) c.size()); for (auto i : c) { v.push_back((double) i); } }
    for (const auto & c : centers) { v.insert(v.end(), c.begin(), c.end()); }
    if ((long) v.size() > room) { return -2; }
    std::memcpy(out, v.data(), v.size() * sizeof(double));
    return (long) v.size();
}

extern "C" long xg_xmeans(long n, long dim, const double * data, long k, const double * centers, long kmax, double tolerance, long mndl, long repeat,
                          double alpha, double beta, long manhattan, double * out, long room) {
    dataset p = points(n, dim, data);
    try {
        xmeans_data r;
        distance_metric<point> m = manhattan ? distance_metric<point>(distance_metric_factory<point>::manhattan()) : distance_metric<point>(distance_metric_factory<point>::euclidean_square());
        xmeans o(points(k, dim, centers), (std::size_t) kmax, tolerance, mndl ? splitting_type::MINIMUM_NOISELESS_DESCRIPTION_LENGTH : splitting_type::BAYESIAN_INFORMATION_CRITERION,
                 (std::size_t) repeat, RANDOM_STATE_CURRENT_TIME, m);
        o.set_mndl_alpha_bound(alpha);
        o.set_mndl_beta_bound(beta);
        o.process(p, r);
        return store(r.clusters(), r.centers(), r.wce(), out, room);
    }
    catch (std::exception &) { return -1; }
}

extern "C" long xg_gmeans(long n, long dim, const double * data, long k, double tolerance, long repeat, long kmax, double * out, long room) {
    dataset p = points(n, dim, data);
    try {
        gmeans_data r;
        gmeans o((std::size_t) k, tolerance, (std::size_t) repeat, kmax, RANDOM_STATE_CURRENT_TIME);
        o.process(p, r);
        return store(r.clusters(), r.centers(), r.wce(), out, room);
    }
    catch (std::exception &) { return -1; }
}
