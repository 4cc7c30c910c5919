// Access to the state of oscillatory networks of the core: phases and frequencies are set and read, dynamics are built from given rows.
#include <vector>
#include <pyclustering/nnet/sync.hpp>

using namespace pyclustering::nnet;

struct opened : public sync_network {
    static std::vector<sync_oscillator> & state(void * p) { return static_cast<opened *>((sync_network *) p)->m_oscillators; }
};

extern "C" void mc_sync_set(void * net, const double * phases, const double * freq) {
    auto & s = opened::state(net);
    for (std::size_t i = 0; i < s.size(); i++) {
        s[i].phase = phases[i];
        if (freq) { s[i].frequency = freq[i]; }
    }
}

extern "C" void mc_sync_get(void * net, double * phases, double * freq) {
    auto & s = opened::state(net);
    for (std::size_t i = 0; i < s.size(); i++) { phases[i] = s[i].phase; freq[i] = s[i].frequency; }
}

extern "C" void * mc_sync_dynamic(long rows, long n, const double * phases, const double * times) {
    auto * out = new sync_dynamic();
    for (long r = 0; r < rows; r++) {
        sync_network_state s((std::size_t) n);
        for (long i = 0; i < n; i++) { s.m_phase[i] = phases[r * n + i]; }
        s.m_time = times[r];
        out->push_back(s);
    }
    return out;
}
