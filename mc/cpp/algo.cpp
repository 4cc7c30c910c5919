// Algorithms of the core that use parallel loops: the result does not depend on the schedule. See c25.py.
#include <pyclustering/cluster/elbow.hpp>
#include <pyclustering/cluster/fcm.hpp>
#include <pyclustering/cluster/kmeans.hpp>
#include <pyclustering/cluster/kmeans_plus_plus.hpp>
#include <pyclustering/cluster/kmedians.hpp>
#include <pyclustering/cluster/kmedoids.hpp>
#include <pyclustering/cluster/xmeans.hpp>
#include <pyclustering/nnet/sync.hpp>

#include <cstdlib>
#include <cstring>
#include <random>
#include <sstream>

#include "sched.hpp"

using namespace pyclustering;
using namespace pyclustering::clst;
using namespace pyclustering::nnet;

// the entropy source of the core
void std::random_device::_M_init(const std::string &) { }
void std::random_device::_M_fini() { }
std::random_device::result_type std::random_device::_M_getval() { return 12345; }

struct digest {
    unsigned long h = 1469598103934665603ul;
    void add(unsigned long v) { h = (h ^ v) * 1099511628211ul; h ^= h >> 29; }
    void add(double v) { unsigned long u; std::memcpy(&u, &v, 8); add(u); }
    template <class T> void add(const std::vector<T> & v) { add((unsigned long) v.size()); for (const auto & x : v) { add(x); } }
};

static dataset parse(const std::string & s) {           // "1,2;3,4"
    dataset out;
    std::stringstream rows(s);
    for (std::string row; std::getline(rows, row, ';'); ) {
        point p;
        std::stringstream values(row);
        for (std::string v; std::getline(values, v, ','); ) { p.push_back(std::atof(v.c_str())); }
        out.push_back(p);
    }
    return out;
}

int main(int argc, char ** argv) {
    std::vector<std::string> a(argv + 1, argv + argc);
    mc::options opt;
    opt.bound = std::atoi(a[0].c_str());
    opt.limit = std::atol(a[1].c_str());
    opt.steps = 200000;
    const std::string name = a[2];
    const dataset data = parse(a[3]), start = a.size() > 4 ? parse(a[4]) : dataset();
    return mc::explore([&]() {
        digest d;
        if (name == "kmeans") {
            kmeans_data r;
            kmeans(start, 0.001, 10).process(data, r);
            d.add(r.clusters()); d.add(r.centers()); d.add(r.wce());
        }
        else if (name == "kmeans_indexes") {
            kmeans_data r;
            index_sequence indexes;
            for (std::size_t i = 0; i < data.size(); i++) { if (i != 1) { indexes.push_back(i); } }
            kmeans(start, 0.001, 10).process(data, indexes, r);
            d.add(r.clusters()); d.add(r.centers());
        }
        else if (name == "kmedians") {
            kmedians_data r;
            kmedians(start, 0.001, 10).process(data, r);
            d.add(r.clusters()); d.add(r.medians());
        }
        else if (name == "kmedoids") {
            kmedoids_data r;
            medoid_sequence m;
            for (auto & p : start) { m.push_back((std::size_t) p[0]); }
            kmedoids(m, 0.001, 10).process(data, r);
            d.add(r.clusters()); d.add(r.medoids()); d.add(r.total_deviation());
        }
        else if (name == "fcm") {
            fcm_data r;
            fcm(start, 2.0, 0.001, 3).process(data, r);
            d.add(r.clusters()); d.add(r.centers()); d.add(r.membership());
        }
        else if (name == "xmeans") {
            xmeans_data r;
            xmeans(start, 4, 0.001, splitting_type::BAYESIAN_INFORMATION_CRITERION, 1, 7).process(data, r);
            d.add(r.clusters()); d.add(r.centers());
        }
        else if (name == "xmeans_mndl") {
            xmeans_data r;
            xmeans(start, 4, 0.001, splitting_type::MINIMUM_NOISELESS_DESCRIPTION_LENGTH, 1, 7).process(data, r);
            d.add(r.clusters()); d.add(r.centers());
        }
        else if (name == "elbow") {
            elbow_data r;
            elbow<kmeans_plus_plus>(1, data.size(), 1, 7).process(data, r);
            d.add(r.get_wce()); d.add((unsigned long) r.get_amount());
        }
        else if (name == "sync") {
            sync_network net((std::size_t) data[0][0], 1.0, 0.0, (connection_t) (int) data[0][1], initial_type::EQUIPARTITION);
            sync_dynamic r;
            net.simulate_static((std::size_t) data[0][2], 1.0, (solve_type) (int) data[0][3], true, r);
            for (auto & state : r) { d.add(state.m_time); d.add(state.m_phase); }
        }
        else { mc::fail("harness: unknown algorithm"); }
        mc::outcome((long) d.h);
    }, opt);
}
