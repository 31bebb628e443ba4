// Random engines, drawn arrays, and ensembles of arbitrary trajectories
#include "traj_common.h"
#include "StochasticTrajectory.h"
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <set>
using namespace vp; using namespace randomutils;
using Xpp=XoshiroCpp::Xoshiro256PlusPlus;

template<typename E> std::vector<std::uint64_t> draw(E& e, int n) {std::vector<std::uint64_t> r; for (int i=0; i<n; ++i) r.push_back(e()); return r;}
// a history of drawing, saving and restoring, on engines with any seeds
template<typename E> void saveRestore(Ctx& c, const char* name)
{
  const unsigned long s1=c.choice(1ul<<40), s2=c.choice(1ul<<40); const int k=c.range(0,400), k2=c.range(0,400), m=c.range(1,700); c.note(name,", seeds ",s1," ",s2,", ",k," draws before saving"); E a{s1}, twin{s1}, b{s2}; c.check(draw(a,k)==draw(twin,k),"equal seeds give different sequences"); draw(b,k2);
  std::stringstream st; const int form=c.range(0,3); const E& ca=a;
  switch (form) {
  case 0: {cppqedutils::oarchive oa(st); oa & ca;} {cppqedutils::iarchive ia(st); ia & b;} break;
  case 1: {boost::archive::text_oarchive oa(st); oa & ca;} {boost::archive::text_iarchive ia(st); ia & b;} break;
  case 2: {boost::archive::binary_oarchive oa(st); oa & ca & ca;} {boost::archive::binary_iarchive ia(st); ia & b & b;} break;
  default: {cppqedutils::oarchive oa(st); oa & ca; E other{s2}; draw(other,3); oa & other;} {cppqedutils::iarchive ia(st); ia & b; E o2{s1}, other{s2}; draw(other,3); ia & o2; c.check(draw(o2,9)==draw(other,9),"second engine in the archive");}
  }
  const auto want=draw(twin,m), gb=draw(b,m); c.check(gb==want,"the restored engine does not continue the sequence of the saved one"); c.check(draw(a,m)==want,"saving an engine disturbs it"); const bool differ=s1!=s2; if (differ) {E x{s1}, y{s2}; c.check(draw(x,8)!=draw(y,8),"seeds ",s1," and ",s2," give the same sequence");} c.nontrivial(k>0 && differ);
}
VP_PROP("engine-gsl",1500,20000,5) {saveRestore<GSL_Engine>(c,"GSL");}
VP_PROP("engine-mt",600,5000,5) {saveRestore<std::mt19937_64>(c,"MT");}
VP_PROP("engine-pcg",1500,20000,5) {saveRestore<pcg64>(c,"PCG");}
VP_PROP("engine-xpp",1500,20000,5) {saveRestore<Xpp>(c,"Xoshiro");}

struct None {None(parameters::Table&, const std::string&) {}};
// streams: same seed and ordinal – same sequence; any other – another one, and uncorrelated
VP_PROP("streams",2000,20000,5)
{
  const unsigned long s=c.choice(1ul<<40), p=c.choice(1ul<<30); const int n=c.range(2,12); c.note("seed ",s," stream ",p,", ",n," neighbours"); std::set<std::vector<std::uint64_t>> seen;
  for (int i=0; i<n; ++i) {EngineWithParameters<pcg64> a(s,p+i), b(s,p+i); const auto x=draw(a.engine,6); c.check(x==draw(b.engine,6),"equal streams differ"); c.check(seen.insert(x).second,"streams ",p+i," and an earlier one give the same sequence"); EngineWithParameters<pcg64> d(s+1+i,p); c.check(seen.insert(draw(d.engine,6)).second,"another seed gives the same sequence"); std::ostringstream o; a.stream(o); c.check(o.str().find("PCG64")!=std::string::npos && o.str().find("seed="+std::to_string(s))!=std::string::npos && o.str().find("streamOrdo="+std::to_string(p+i))!=std::string::npos,"description ",o.str());}
  parameters::Table t; randomutils::Pars<pcg64,None> q(t); q.seed=s; q.prngStream=p; auto x=streamOfOrdo(q); const auto first=draw(x,5); for (int i=1; i<n; ++i) {incrementForNextStream(q); c.check(q.prngStream==p+i,"stream ordinal after ",i," increments"); auto y=streamOfOrdo(q); c.check(draw(y,5)!=first,"incremented stream is the same");} {std::set<std::vector<std::uint64_t>> u, v; const int k=std::min(n,5); for (int i=0; i<k; ++i) for (int j=0; j<k; ++j) {q.seed=s+i; q.prngStream=p+j; auto y=streamOfOrdo(q); c.check(u.insert(draw(y,5)).second,"seed ",s+i," with stream ",p+j," gives the sequence of another seed and stream"); EngineWithParameters<pcg64> a(s+i,p+j); c.check(v.insert(draw(a.engine,5)).second,"engine: seed ",s+i," with stream ",p+j," gives the sequence of another seed and stream");}} q.seed=s; q.prngStream=p; auto z=streamOfOrdo(q); c.check(draw(z,5)==first,"not reproducible"); c.nontrivial();
}

// drawn arrays: determined by engine, seed, distribution; elements drawn one after the other
template<typename E, typename D, int R, typename... A> void filled(Ctx& c, A... a)
{
  using T=typename D::result_type; blitz::TinyVector<int,R> ext; for (int i=0; i<R; ++i) ext(i)=c.range(1,5); blitz::Array<T,R> x(ext), y(ext), z(ext); const unsigned long seed=c.choice(1ul<<40); c.note("seed ",seed,", extents ",ext); x=T(); y=T(); z=T();
  E e{seed}, f{seed}; auto& back=fill<D>(x,e,a...); c.check(&back==&e,"another engine is returned"); D d{a...}; for (auto& v : y) v=d(f); c.check(blitz::all(x==y),"array not drawn element by element from the distribution"); c.check(e()==f(),"engine not left after the drawn elements"); fill<D,E>(z,seed,a...); c.check(blitz::all(z==x),"array drawn from a seed differs from the one drawn from an engine with that seed");
  fill<D>(z,e,a...); fill<D>(y,f,a...); c.check(blitz::all(z==y),"second array from the same engine"); c.nontrivial(x.size()>1);
}
template<typename E> void filledAny(Ctx& c)
{
  switch (c.range(0,4)) {
  case 0: filled<E,std::uniform_real_distribution<double>,2>(c,c.real(-3,0),c.real(.5,3)); break;
  case 1: filled<E,std::normal_distribution<double>,1>(c,c.real(-3,3),c.real(.1,3)); break;
  case 2: if constexpr (!std::is_same_v<E,GSL_Engine>) filled<E,std::uniform_int_distribution<int>,3>(c,c.range(-5,0),c.range(1,9)); else filled<E,std::bernoulli_distribution,3>(c,c.real(.1,.9)); break;
  case 3: filled<E,std::poisson_distribution<int>,2>(c,c.real(.5,4)); break;
  default: filled<E,std::normal_distribution<double>,3>(c);
  }
}
VP_PROP("fill-gsl",500,5000,5) {filledAny<GSL_Engine>(c);}
VP_PROP("fill-mt",500,5000,5) {filledAny<std::mt19937_64>(c);}
VP_PROP("fill-pcg",500,5000,5) {filledAny<pcg64>(c);}
VP_PROP("fill-xpp",500,5000,5) {filledAny<Xpp>(c);}

// ensembles of trajectories averaged naively, and ensembles of ensembles
namespace mock {
struct Avg : Core { using StreamedArray=DArray<1>; using EnsembleAverageResult=dcomp; dcomp v{}; void step(double dT, std::ostream& log) {doStep(dT,log); v+=dcomp(dtDid,double(k));} dcomp averaged() const {return v;} template<typename Ar> Ar& stateIO(Ar& ar) {return Core::stateIO(ar) & v;} };
struct Str {std::ostream& streamKey(std::ostream& os, size_t& i) const {return os<<i<<". mean\n";} std::tuple<std::ostream&,DArray<1>> operator()(double t, dcomp a, std::ostream& os, int) const {DArray<1> r(3); r=t,a.real(),a.imag(); os<<t<<' '<<a.real()<<' '<<a.imag(); return {os,r};} };
struct Log {template<typename T> void operator()(const T& tr, std::ostream& os) const {os<<"members "<<tr.size();} };
}
template<> struct cppqedutils::trajectory::MakeSerializationMetadata<mock::Avg> {static auto _() {return SerializationMetadata{"Recorder","Avg",1};}};
namespace {
mock::Avg member(Ctx& c) {mock::Avg a; mock::Plan p; const int n=c.range(1,3); for (int i=0; i<n; ++i) p.steps.push_back(c.logReal(.01,.5)); a.plan=std::make_shared<mock::Plan>(p); a.v=c.cplx(2); return a;}
using Ens=cppqedutils::trajectory::Ensemble<mock::Avg,mock::Str,mock::Log>; using Ens2=cppqedutils::trajectory::Ensemble<Ens,mock::Str,mock::Log>;
}
VP_PROP("naive",1500,10000,5)
{
  const int n=c.range(1,6); std::vector<mock::Avg> m; for (int i=0; i<n; ++i) m.push_back(member(c)); auto ref=m; Ens e{std::vector<mock::Avg>(m),mock::Str{},mock::Log{},dcomp(99)}; double t=0; std::ostringstream lg; const int rounds=c.range(1,4); c.note(n," members, ",rounds," advances"); c.nontrivial(n>1);
  for (int r=0; r<=rounds; ++r) {
    if (r) {const double T=c.logReal(.01,2.); t+=T; cppqedutils::advance(e,T,lg); for (auto& x : ref) cppqedutils::advance(x,T,lg);} dcomp s=0; double dt=0; for (auto& x : ref) {s+=x.v/double(n); dt+=x.dtDid/n;} c.near(e.averaged(),s,1e-12,"mean"); c.near(e.getTime(),t,1e-12,"time"); c.near(e.getDtDid(),dt,1e-12,"mean step"); std::ostringstream o; const auto a=std::get<1>(e.stream(o,5)); c.near(a(1),s.real(),1e-12,"streamed"); c.near(a(2),s.imag(),1e-12,"streamed");
  }
  std::stringstream st; {cppqedutils::oarchive oa(st); e.stateIO(oa);} std::vector<mock::Avg> other; for (auto& x : m) {mock::Avg y=x; y.v=7; other.push_back(y);} Ens f{std::move(other),mock::Str{},mock::Log{},dcomp(1)}; {cppqedutils::iarchive ia(st); f.stateIO(ia);} cppqedutils::advance(e,.7,lg); cppqedutils::advance(f,.7,lg); c.check(e.averaged()==f.averaged() && e.getTime()==f.getTime(),"restored ensemble continues differently"); std::ostringstream o; e.logOnEnd(o); c.check(o.str()=="members "+std::to_string(n),"members handed to the logger"); std::ostringstream sp; e.streamParameters(sp); c.check(sp.str().find("Ensemble of "+std::to_string(n)+" trajectories")!=std::string::npos,"description ",sp.str());
}
VP_PROP("nested",500,5000,5)
{
  const int n=c.range(1,4); std::vector<Ens> es; std::vector<std::vector<mock::Avg>> ref; for (int i=0; i<n; ++i) {std::vector<mock::Avg> m; const int k=c.range(1,4); for (int j=0; j<k; ++j) m.push_back(member(c)); ref.push_back(m); es.push_back(Ens{std::vector<mock::Avg>(m),mock::Str{},mock::Log{},dcomp(3)});}
  Ens2 e{std::move(es),mock::Str{},mock::Log{},dcomp(5)}; std::ostringstream lg; double t=0; const int rounds=c.range(1,3); c.note(n," ensembles"); c.nontrivial(n>1);
  for (int r=0; r<rounds; ++r) {const double T=c.logReal(.01,2.); t+=T; cppqedutils::advance(e,T,lg); dcomp s=0; for (auto& m : ref) {dcomp q=0; for (auto& x : m) {cppqedutils::advance(x,T,lg); q+=x.v/double(m.size());} s+=q/double(n);} c.near(e.averaged(),s,1e-12,"mean of means"); c.near(e.getTime(),t,1e-12,"time");}
}
