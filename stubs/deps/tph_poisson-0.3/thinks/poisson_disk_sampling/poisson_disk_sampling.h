// Stand-in for thinks/tph_poisson v0.3 (not available offline): dart throwing with the same interface.
#ifndef POISSON_STANDIN_H
#define POISSON_STANDIN_H
#include <array>
#include <cstdint>
#include <random>
#include <vector>
namespace thinks {
// every sample handed out by the last call, for the observer
inline std::vector<std::vector<double>>& handed(){ static std::vector<std::vector<double>> h; return h; }
template <typename F, std::size_t N>
std::vector<std::array<F, N>> PoissonDiskSampling(F r, const std::array<F, N>& lo, const std::array<F, N>& hi,
                                                  std::uint32_t attempts = 30, std::uint32_t seed = 0){
    std::mt19937 g(seed); std::vector<std::array<F, N>> out; std::uint32_t fail = 0;
    while (fail < attempts * 10 && out.size() < 100000){
        std::array<F, N> c; for (std::size_t d = 0; d < N; d++) c[d] = lo[d] + (hi[d] - lo[d]) * (g() / 4294967296.0);
        bool ok = true;
        for (auto& o : out){ F s = 0; for (std::size_t d = 0; d < N; d++) s += (o[d]-c[d])*(o[d]-c[d]); if (s < r*r){ ok = false; break; } }
        if (ok){ out.push_back(c); fail = 0; } else fail++;
    }
    handed().clear(); for (auto& o : out) handed().push_back(std::vector<double>(o.begin(), o.end()));
    return out;
}
}
#endif
