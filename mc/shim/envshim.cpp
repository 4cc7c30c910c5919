// Takes over the environment nondeterminism of the C++ core: hardware entropy and the amount of processors.
#include <cstdlib>
#include <random>
#include <thread>

static unsigned int g_seed = 1;
static unsigned int g_hwc = 0;
static unsigned long g_draws = 0;

extern "C" {
void mc_set_seed(unsigned int seed) { g_seed = seed; }
unsigned long mc_entropy_draws(void) { return g_draws; }
}

namespace std {

unsigned int random_device::_M_getval() { ++g_draws; return g_seed++; }

unsigned int thread::hardware_concurrency() noexcept {
    if (g_hwc == 0) {
        const char * value = std::getenv("MC_HWC");
        g_hwc = value ? (unsigned int) std::atoi(value) : 2;
    }
    return g_hwc;
}

}

#include <chrono>
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
    ++g_draws;
    return system_clock::time_point(system_clock::duration(g_seed++));
}
} } }
