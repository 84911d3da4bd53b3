// Included before everything else (-include): replaces the pseudorandom engine of
// the library by one that replays a script, to reach engine outputs that no seed
// produces in reasonable time.
#ifndef VERIF_ENGINE_H
#define VERIF_ENGINE_H
#include <random>
#include <vector>
#include <cstdint>
extern std::vector<unsigned long long> vf_script;
extern unsigned long long vf_draws;
extern unsigned long long vf_tail;   // 0: the script repeats; otherwise state of the generator that continues it
namespace std {
struct verif_engine {
  typedef uint64_t result_type;
  static constexpr result_type default_seed = 5489u;
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return ~(uint64_t)0; }
  explicit verif_engine(result_type = default_seed) {}
  void seed(result_type = default_seed) {}
  void discard(unsigned long long n) { vf_draws += n; }
  result_type operator()() { if (vf_tail && vf_draws >= vf_script.size()) { vf_draws++; uint64_t z = (vf_tail += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    uint64_t v = vf_script.empty() ? 0 : vf_script[vf_draws % vf_script.size()]; vf_draws++; return v; }
  friend bool operator==(const verif_engine&, const verif_engine&) { return true; }
  friend bool operator!=(const verif_engine&, const verif_engine&) { return false; }
};
}
#define mt19937_64 verif_engine
#endif
