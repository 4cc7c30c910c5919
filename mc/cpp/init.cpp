// Center initializers of the core under the controlled source of randomness
#include <cstring>
#include "tape.hpp"
#include "../src/cluster/kmeans_plus_plus.cpp"
#include "../src/cluster/random_center_initializer.cpp"

using namespace pyclustering;
using namespace pyclustering::clst;
using pyclustering::utils::metric::distance_metric_factory;

// form: 0 points, 1 indexes, 2 points with a range given. Returns the amount of centers, -1 when refused.
extern "C" long init_centers(long kind, long amount, long candidates, long euclidean, long form, long n, long dim, const double * data,
                             long nrange, const long * range, double * out)
{
    dataset points;
    for (long i = 0; i < n; i++) { points.emplace_back(data + i * dim, data + (i + 1) * dim); }
    index_sequence indexes(range, range + nrange);
    dataset centers;
    index_sequence chosen;
    try {
        if (kind == 1) {
            random_center_initializer o((std::size_t) amount, RANDOM_STATE_CURRENT_TIME);
            if (form == 2) { o.initialize(points, indexes, centers); } else { o.initialize(points, centers); }
        }
        else {
            const std::size_t c = candidates < 0 ? kmeans_plus_plus::FARTHEST_CENTER_CANDIDATE : (std::size_t) candidates;
            distance_functor<std::vector<double>> m = euclidean ? distance_metric_factory<std::vector<double>>::euclidean() : distance_metric_factory<std::vector<double>>::euclidean_square();
            kmeans_plus_plus o((std::size_t) amount, c, m);
            if (form == 1) { o.initialize(points, chosen); }
            else if (form == 2) { o.initialize(points, indexes, centers); }
            else { o.initialize(points, centers); }
        }
    }
    catch (std::exception &) { return -1; }
    if (form == 1) {
        for (std::size_t i = 0; i < chosen.size(); i++) { out[i] = (double) chosen[i]; }
        return (long) chosen.size();
    }
    for (std::size_t i = 0; i < centers.size(); i++) { std::memcpy(out + i * dim, centers[i].data(), dim * sizeof(double)); }
    return (long) centers.size();
}
