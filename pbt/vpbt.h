// Small property-based-testing engine: choice tapes, forked workers, shrinking, replay.
// A case is a sequence of bounded choices ("tape"). Generators draw choices; when a case fails (oracle disagreement, unexpected
// exception, crash, or CPU-time limit), the tape is shrunk (deleting, zeroing and lowering choices) and written out as the replay file.
#pragma once
#include <cmath>
#include <complex>
#include <cstdint>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vp {

struct Fail { std::string msg; };
struct Discard {};

class Ctx {
public:
  // --- choices; 0 is always the simplest value
  std::uint64_t choice(std::uint64_t n);            // uniform in [0,n)
  int range(int lo, int hi) {return lo+int(choice(std::uint64_t(hi-lo)+1));}
  bool boolean(double pTrue=.5) {return choice(1000)>=std::uint64_t(std::llround(1000*(1-pTrue)));} // 0 -> false
  double unit();                                     // [0,1)
  double real(double lo, double hi);                 // nice or continuous in [lo,hi]; simplest = 0 if contained, lo otherwise
  double logReal(double lo, double hi) {return lo*std::exp(unit()*std::log(hi/lo));}
  double gauss();
  std::complex<double> cplx(double r) {double a=real(-r,r), b=real(-r,r); return {a,b};}
  std::complex<double> cgauss() {double a=gauss(), b=gauss(); return {a,b};}
  template<typename T> const T& pick(const std::vector<T>& v) {return v[choice(v.size())];}
  template<typename T> T oneOf(std::initializer_list<T> v) {return *(v.begin()+choice(v.size()));}
  std::vector<int> permutation(int n);

  // --- reporting
  template<typename... A> void note(A&&... a) {(desc<<...<<a); desc<<"; ";}
  void nontrivial(bool b=true) {nontrivial_=b;}
  void label(const std::string& l) {labels.push_back(l);}
  [[noreturn]] void discard() {throw Discard{};}

  // --- oracle helpers
  template<typename... A> [[noreturn]] void fail(A&&... a) {std::ostringstream s; s.precision(17); (s<<...<<a); throw Fail{s.str()};}
  template<typename... A> void check(bool b, A&&... a) {if (!b) fail(std::forward<A>(a)...);}
  template<typename S, typename T, typename... A> void near(S got, T want, double tol, A&&... a)
  {
    const double d=std::abs(std::complex<double>(got)-std::complex<double>(want)), lim=tol*std::max(1.,std::abs(std::complex<double>(want)));
    if (!(d<=lim)) {std::ostringstream s; s.precision(17); (s<<...<<a); s<<": got "<<got<<", want "<<want<<" (|diff| "<<d<<" > "<<lim<<")"; throw Fail{s.str()};}
  }
  // ratio statistic: worst observed |diff|/tol, for calibrating margins
  void margin(double m) {if (m>worst) worst=m;}

  // --- engine side
  std::vector<std::uint64_t> replay; bool replaying=false; std::uint64_t rng=0; std::size_t pos=0;
  std::vector<std::uint64_t>* rec=nullptr; std::uint64_t* shTape=nullptr; std::uint64_t* shLen=nullptr; std::size_t shCap=0;
  bool nontrivial_=false; std::ostringstream desc; std::vector<std::string> labels; double worst=0; int tier=0;
  bool thorough() const {return tier>0;}
private:
  std::uint64_t raw();
};

// generates the same thing several times, from the same choices
template<typename G> auto again(Ctx& c, int n, G g) {std::vector<std::uint64_t> t; const auto old=c.rec; c.rec=&t; std::vector<decltype(g(c))> r; r.push_back(g(c)); c.rec=old; if (old) old->insert(old->end(),t.begin(),t.end()); for (int i=1; i<n; ++i) {Ctx d; d.replaying=true; d.replay=t; d.tier=c.tier; r.push_back(g(d));} return r;}

using Body=std::function<void(Ctx&)>;
struct Prop { std::string name; int nQuick, nThorough; double cpuLimit; Body body; std::string known; };
std::vector<Prop>& registry();
struct Register { Register(std::string name, int q, int t, double cpu, Body b, std::string known="") {registry().push_back({name,q,t,cpu,b,known});} };

std::string scratch(); // private scratch directory of the current case; emptied before each case

} // vp

#define VP_CAT2(a,b) a##b
#define VP_CAT(a,b) VP_CAT2(a,b)
// NAME: sub-property; Q, T: number of cases in the quick and thorough tiers; CPU: seconds of CPU time per case that count as a hang
#define VP_PROP(NAME,Q,T,CPU) \
  static void VP_CAT(vpbody_,__LINE__)(vp::Ctx&); static vp::Register VP_CAT(vpreg_,__LINE__)(NAME,Q,T,CPU,VP_CAT(vpbody_,__LINE__)); \
  static void VP_CAT(vpbody_,__LINE__)([[maybe_unused]] vp::Ctx& c)
// A specific input recorded in known_findings.jsonl under ID: failing is reported as a known finding if (and only if) it is listed there
#define VP_KNOWN(NAME,ID,CPU) \
  static void VP_CAT(vpbody_,__LINE__)(vp::Ctx&); static vp::Register VP_CAT(vpreg_,__LINE__)(NAME,1,1,CPU,VP_CAT(vpbody_,__LINE__),ID); \
  static void VP_CAT(vpbody_,__LINE__)([[maybe_unused]] vp::Ctx& c)
