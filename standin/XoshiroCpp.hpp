// Stand-in for the (empty, unavailable offline) Xoshiro-cpp submodule: same interface as far as CPPQEDutils/Random.h uses it.
// xoshiro256++ 1.0 and splitmix64 by D. Blackman and S. Vigna (public domain), reimplemented.
#pragma once
#include <array>
#include <cstdint>
namespace XoshiroCpp {
class SplitMix64 {
  std::uint64_t s_;
public:
  explicit SplitMix64(std::uint64_t s) : s_(s) {}
  std::uint64_t operator()() {
    std::uint64_t z=(s_+=0x9e3779b97f4a7c15ull);
    z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31);
  }
};
class Xoshiro256PlusPlus {
public:
  using state_type=std::array<std::uint64_t,4>;
  using result_type=std::uint64_t;
  explicit Xoshiro256PlusPlus(std::uint64_t seed=1234567890ull) { SplitMix64 m(seed); for (auto& s : s_) s=m(); }
  explicit Xoshiro256PlusPlus(state_type s) : s_(s) {}
  result_type operator()() {
    const std::uint64_t r=rotl(s_[0]+s_[3],23)+s_[0], t=s_[1]<<17;
    s_[2]^=s_[0]; s_[3]^=s_[1]; s_[1]^=s_[2]; s_[0]^=s_[3]; s_[2]^=t; s_[3]=rotl(s_[3],45); return r;
  }
  static constexpr result_type min() {return 0;}
  static constexpr result_type max() {return ~result_type(0);}
  state_type serialize() const {return s_;}
  void deserialize(state_type s) {s_=s;}
  friend bool operator==(const Xoshiro256PlusPlus& a, const Xoshiro256PlusPlus& b) {return a.s_==b.s_;}
private:
  static std::uint64_t rotl(std::uint64_t x, int k) {return (x<<k)|(x>>(64-k));}
  state_type s_;
};
}
