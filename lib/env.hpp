// The environment a planner can observe, owned by the explorer: clock, C random source, OMPL random source.
// Include it in exactly one translation unit of a harness. (mc.hpp itself uses clock_gettime.)
#pragma once
#include <cmath>
#include <random>
#include <chrono>
#include <cstdlib>
#include <ctime>
#include <ompl/util/RandomNumbers.h>

namespace env {
struct E {
    long long ns = 1000000000000LL;   // virtual time; moves only when a harness says so
    unsigned long long readings = 0;
    unsigned rnd = 1;                 // state of rand()
    unsigned randMask = 0;            // decouples the sequence from what srand is given
    unsigned long rngSeed = 1;        // seed of the next ompl::RNG
    unsigned long long randCalls = 0, rngCount = 0;
    double span = 1;                  // part of the range, around its middle, that random numbers keep to
};
inline E& e() { static E x; return x; }
inline void reset() { e() = E(); }
inline void tick(double seconds) { e().ns += (long long)(seconds * 1e9); }
}  // namespace env

#ifndef ENV_ON_READ
#define ENV_ON_READ (void)0
#endif
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { env::e().readings++; ENV_ON_READ; return time_point(duration(env::e().ns)); }
steady_clock::time_point steady_clock::now() noexcept { env::e().readings++; ENV_ON_READ; return time_point(duration(env::e().ns)); }
} } }
#ifndef ENV_CLOCK_ONLY   // (address sanitizer has its own rand and time)
extern "C" {
int rand(void) noexcept {
    auto& s = env::e().rnd;
    env::e().randCalls++;
    s = s * 1103515245u + 12345u;
    unsigned a = (s >> 16) & 0x7fff;
    s = s * 1103515245u + 12345u;
    int v = int((a << 16) | (((s >> 16) & 0x7fff) << 1));   // 31 bits; RAND_MAX is 2^31-1
    return env::e().span >= 1 ? v : int(RAND_MAX * (0.5 + env::e().span * (double(v) / RAND_MAX - 0.5)));
}
void srand(unsigned) noexcept {}                           // the explorer owns the sequence
time_t time(time_t* t) noexcept { time_t v = time_t(env::e().ns / 1000000000LL); if (t) *t = v; return v; }
}
#endif
/// with a narrow span, the next seed whose first numbers keep to it
static std::uint_fast32_t envSeed() {
    auto& e = env::e();
    std::uint_fast32_t s = e.rngSeed + 7919 * e.rngCount++;
    for (; e.span < 1; ++s) {
        std::mt19937 g(s);
        std::uniform_real_distribution<> u(0, 1);
        bool in = true;
        for (int i = 0; i < 2; ++i) if (std::fabs(u(g) - 0.5) > e.span / 2) in = false;
        if (in) break;
    }
    return s;
}
ompl::RNG::RNG() : RNG(envSeed()) {}
