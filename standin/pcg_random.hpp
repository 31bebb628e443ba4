// Stand-in for the (empty, unavailable offline) pcg-cpp submodule: same interface as far as CPPQEDutils/Random.h uses it.
// A 128-bit LCG with XSL-RR output and selectable stream (increment), state text-streamable.
#pragma once
#include <cstdint>
#include <istream>
#include <ostream>
class pcg64 {
  using u128=unsigned __int128;
  static constexpr u128 mult() {return (u128(2549297995355413924ull)<<64)|4865540595714422341ull;}
  u128 state_, inc_;
public:
  using result_type=std::uint64_t;
  explicit pcg64(std::uint64_t seed=0xcafef00dd15ea5e5ull, std::uint64_t stream=0xa02bdbf7bb3c0a7ull) {this->seed(seed,stream);}
  void seed(std::uint64_t s, std::uint64_t stream=0xa02bdbf7bb3c0a7ull) { inc_=(u128(stream)<<1)|1; state_=(u128(s)+inc_)*mult()+inc_; }
  result_type operator()() {
    state_=state_*mult()+inc_;
    const unsigned rot=unsigned(state_>>122); const std::uint64_t x=std::uint64_t(state_>>64)^std::uint64_t(state_);
    return (x>>rot)|(x<<((64-rot)&63));
  }
  static constexpr result_type min() {return 0;}
  static constexpr result_type max() {return ~result_type(0);}
  friend bool operator==(const pcg64& a, const pcg64& b) {return a.state_==b.state_ && a.inc_==b.inc_;}
  friend std::ostream& operator<<(std::ostream& os, const pcg64& p) {
    return os<<std::uint64_t(p.state_>>64)<<' '<<std::uint64_t(p.state_)<<' '<<std::uint64_t(p.inc_>>64)<<' '<<std::uint64_t(p.inc_);
  }
  friend std::istream& operator>>(std::istream& is, pcg64& p) {
    std::uint64_t a,b,c,d; if (is>>a>>b>>c>>d) {p.state_=(u128(a)<<64)|b; p.inc_=(u128(c)<<64)|d;} return is;
  }
};
