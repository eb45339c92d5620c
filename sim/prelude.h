// Force-included before every /repo source (see build.py). It owns one seam: the
// standard random engines. Every engine the code constructs becomes a simulator
// engine whose numbers come from the run's seed (if the code seeded it from an
// entropy source) or from the constant the code supplied (if it did not).
#pragma once
#include <cstdint>
#include <algorithm>
#include <random>
extern "C" std::uint32_t ktsim_rng_new();
extern "C" void ktsim_rng_seed(std::uint32_t id, std::uint64_t seed);
extern "C" std::uint32_t ktsim_rng_copy(std::uint32_t id);
extern "C" std::uint64_t ktsim_rng_next(std::uint32_t id);
namespace std {
template <typename R> class ktsim_engine {
public:
  using result_type = R;
  static constexpr R default_seed = 5489u;
  ktsim_engine() : ktsim_engine(default_seed) {}
  explicit ktsim_engine(R s) : _id{ktsim_rng_new()} { ktsim_rng_seed(_id, s); }
  template <typename S, typename = decltype(std::declval<S&>().generate(
                            (uint32_t*)nullptr, (uint32_t*)nullptr))>
  explicit ktsim_engine(S& q) : _id{ktsim_rng_new()} { seed(q); }
  ktsim_engine(const ktsim_engine& o) : _id{ktsim_rng_copy(o._id)} {}
  ktsim_engine& operator=(const ktsim_engine& o) { if (this != &o) _id = ktsim_rng_copy(o._id); return *this; }
  void seed(R s = default_seed) { ktsim_rng_seed(_id, s); }
  template <typename S, typename = decltype(std::declval<S&>().generate(
                            (uint32_t*)nullptr, (uint32_t*)nullptr))>
  void seed(S& q) {
    uint32_t v[2]{};
    q.generate(v, v + 2);
    ktsim_rng_seed(_id, v[0] | static_cast<uint64_t>(v[1]) << 32);
  }
  static constexpr R min() { return 0; }
  static constexpr R max() { return ~R{}; }
  R operator()() { return static_cast<R>(ktsim_rng_next(_id)); }
  void discard(unsigned long long n) { while (n--) (*this)(); }
  friend bool operator==(const ktsim_engine& a, const ktsim_engine& b) { return a._id == b._id; }
private:
  uint32_t _id;
};
} // namespace std
#define mt19937 ktsim_engine<std::uint32_t>
#define mt19937_64 ktsim_engine<std::uint64_t>
#define minstd_rand ktsim_engine<std::uint32_t>
#define minstd_rand0 ktsim_engine<std::uint32_t>
#define default_random_engine ktsim_engine<std::uint32_t>
#define ranlux24 ktsim_engine<std::uint32_t>
#define ranlux48 ktsim_engine<std::uint64_t>
#define knuth_b ktsim_engine<std::uint32_t>
