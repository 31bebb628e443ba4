// A recording trajectory and helpers for the run-driver checks (C08, C09)
#pragma once
#include "dense.h"
#include "Simulated.h"
#include <fstream>
#include <iostream>
#include <filesystem>

namespace mock {
using namespace cppqedutils;

struct Plan { // everything deterministic about the recording trajectory
  std::vector<double> steps;           // adaptive step sizes, used cyclically
  std::vector<double> base, amp, rate; // value j after step k: base + amp*exp(-rate*k)
  int logEvery=0; int nPar=0; bool constantFirst=false; std::vector<std::string> labels;
};

struct Core {
  std::shared_ptr<const Plan> plan; double t=0, dtDid=0; long k=0;
  struct Line {long k; double t, dtDid; std::vector<double> v;};
  mutable std::vector<Line> lines; std::vector<std::pair<double,double>> asked; // (time, requested deltaT)
  std::vector<double> values() const {std::vector<double> r{plan->constantFirst ? 1. : double(k)}; for (size_t j=0; j<plan->base.size(); ++j) r.push_back(plan->base[j]+plan->amp[j]*std::exp(-plan->rate[j]*double(k))); return r;}
  void doStep(double dT, std::ostream& log)
  {
    asked.emplace_back(t,dT); const double s=plan->steps[size_t(k)%plan->steps.size()]; dtDid=dT<=s ? dT : s; t+=dtDid; ++k;
    if (plan->logEvery && k%plan->logEvery==0) log<<"log entry of step "<<k<<" with numbers 1 2 3"<<std::endl;
  }
  std::ostream& streamParameters(std::ostream& os) const {for (int i=0; i<plan->nPar; ++i) os<<"parameter "<<i<<"\n"; return os;}
  std::tuple<std::ostream&,DArray<1>> stream(std::ostream& os, int precision) const
  {
    auto v=values(); DArray<1> a(int(v.size())); const FormDouble f(precision); for (size_t i=0; i<v.size(); ++i) a(int(i))=v[i]; os<<long(k)<<' '; for (size_t i=1; i<v.size(); ++i) os<<f(v[i])<<' ';
    lines.push_back({k,t,dtDid,v}); return {os,a};
  }
  std::ostream& streamKey(std::ostream& os) const {size_t i=3; return KeyPrinter("Recorder",std::list<std::string>(plan->labels.begin(),plan->labels.end())).stream(os,i);}
  std::ostream& logOnEnd(std::ostream& os) const {return os<<"recorder finished"<<std::endl;}
  iarchive& readFromArrayOnlyArchive(iarchive& iar) {throw std::runtime_error("recorder: array-only");}
  template<typename Ar> Ar& stateIO(Ar& ar) {return ar & t & dtDid & k;}
  double getTime() const {return t;} double getDtDid() const {return dtDid;}
};
struct Adaptive : Core { using StreamedArray=DArray<1>; void step(double dT, std::ostream& log) {doStep(dT,log);} };
struct Fixed : Core { using StreamedArray=DArray<1>; void advance(double dT, std::ostream& log) {const double end=t+dT; while (double d=end-t) doStep(d,log);} };
} // mock

template<> struct cppqedutils::trajectory::MakeSerializationMetadata<mock::Adaptive> {static auto _() {return SerializationMetadata{"Recorder","Adaptive",1};}};
template<> struct cppqedutils::trajectory::MakeSerializationMetadata<mock::Fixed> {static auto _() {return SerializationMetadata{"Recorder","Fixed",1};}};

struct CoutCapture { std::ostringstream s; std::streambuf* old; CoutCapture() {old=std::cout.rdbuf(s.rdbuf());} ~CoutCapture() {std::cout.rdbuf(old);} };

struct Parsed { std::vector<std::vector<std::string>> data; std::vector<std::string> comments; std::string bad; };
inline Parsed parseOutput(const std::string& s)
{
  Parsed p; std::istringstream in(s); std::string line;
  while (std::getline(in,line)) {
    if (line.empty()) continue;
    if (line[0]=='#') {p.comments.push_back(line); continue;}
    std::istringstream l(line); std::vector<std::string> w; std::string x; while (l>>x) w.push_back(x); if (!w.empty()) p.data.push_back(w);
  }
  return p;
}
inline std::string slurp(const std::string& f) {std::ifstream i(f,std::ios_base::binary); std::ostringstream s; s<<i.rdbuf(); return s.str();}

// the legend: consecutive numbers starting at one, everything commented; returns the number of announced columns
inline long legend(vp::Ctx& c, const Parsed& p)
{
  size_t i=0; while (i<p.comments.size() && p.comments[i].find("Key to data:")==std::string::npos) ++i;
  c.check(i<p.comments.size(),"no legend in the header"); long n=0;
  for (++i; i<p.comments.size(); ++i) {
    std::istringstream l(p.comments[i].substr(1)); long k; char dot; if (!(l>>k) || !l.get(dot) || dot!='.') continue;
    c.check(k==n+1,"legend entry number ",k," follows number ",n,": ",p.comments[i]); ++n;
  }
  return n;
}
// value printed with p significant digits
inline void printed(vp::Ctx& c, const std::string& got, double want, int precision, const char* what)
{
  double x; try {size_t n; x=std::stod(got,&n); c.check(n==got.size(),what,": '",got,"' is not a number");} catch (const std::out_of_range&) {x=std::strtod(got.c_str(),nullptr);} catch (const std::invalid_argument&) {c.fail(what,": '",got,"' is not a number");}
  if (std::isnan(want)) {c.check(std::isnan(x),what,": ",got," instead of nan"); return;} if (std::isinf(want)) {c.check(x==want,what,": ",got," instead of ",want); return;}
  const double tol=want==0 ? 0 : .5000001*std::pow(10.,std::floor(std::log10(std::abs(want)))+1-precision)*(1+1e-9)+std::abs(want)*4e-16+5e-324;
  c.check(std::abs(x-want)<=tol,what,": printed '",got,"', value ",want,", at ",precision," significant digits");
}

inline std::shared_ptr<mock::Plan> makePlan(vp::Ctx& c, double T)
{
  auto p=std::make_shared<mock::Plan>(); const int n=c.range(1,5); for (int i=0; i<n; ++i) p->steps.push_back(T*c.logReal(.004,.6));
  const int m=c.range(0,4); dense::Rng r(c.choice(1ull<<32)); const int style=c.range(0,2);
  for (int j=0; j<m; ++j) {p->base.push_back(r.u()<.2 ? 0 : r.g()*std::pow(10.,style==2 ? 6*(r.u()-.5) : 0)); p->amp.push_back(style==0 ? 0 : r.g()); p->rate.push_back(.02+r.u());}
  p->logEvery=c.boolean(.3) ? c.range(1,7) : 0; p->nPar=c.range(0,3); for (int j=0; j<=m; ++j) p->labels.push_back("quantity "+std::to_string(j)+(j%2 ? " re, im" : ""));
  return p;
}
