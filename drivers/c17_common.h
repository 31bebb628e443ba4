#pragma once
#include "quantum.h"
#include <deque>
using namespace sys;

// random engine whose outputs are prescribed; falls back to a fixed sequence
struct Scripted {
  using result_type=std::uint64_t; static inline std::deque<std::uint64_t> script; static inline size_t drawn=0; dense::Rng r; Scripted(unsigned long s, unsigned long p) : r(s+p) {}
  static constexpr result_type min() {return 0;} static constexpr result_type max() {return ~result_type(0);}
  result_type operator()() {++drawn; if (script.empty()) return r(); const auto x=script.front(); script.pop_front(); return x;}
};
inline std::uint64_t bits(double u) {return u>=1 ? ~0ull : std::uint64_t(std::ldexp(u,64));}

struct P17 {double dp, tol, eps; int logLevel; unsigned long seed;};
template<template<int> class OE, int R, typename Engine=Scripted> auto makeTraj(const Whole<R>& w, const VectorXcd& psi, const P17& q)
{
  parameters::Table t; cppqedutils::ode_engine::Pars<> p(t); p.epsRel=p.epsAbs=q.eps; p.logLevel=q.logLevel;
  return quantumtrajectory::MCWF_Trajectory<R,OE<R>,Engine>(w.p,makeSV<R>(w.d,psi),OE<R>{quantumtrajectory::initialTimeStep<R>(w.p),p},{q.seed,1},q.dp,q.tol,q.logLevel);
}

// every step of a trajectory obeys the rules
template<template<int> class OE, int R> void follow(Ctx& c, const Whole<R>& w, bool ground=false)
{
  const long n=w.n(); VectorXcd psi0=ground ? VectorXcd(VectorXcd::Unit(n,0)) : initial(c,n); P17 q; q.dp=c.logReal(1e-4,.3); q.tol=c.oneOf({1.,2.,10.,1.05}); if (q.dp*q.tol>.6) q.tol=.6/q.dp; if (q.tol<1) q.tol=1; q.eps=1e-10; q.logLevel=c.range(0,4); q.seed=c.choice(1000);
  const int steps=c.range(3,12); const double pj=c.oneOf({.5,0.,.9}), T=c.logReal(1e-2,3.)/w.scale(); c.note(w.name,", dpLimit ",q.dp,", tolerance ",q.tol,", ",steps," steps at most ",T);
  Scripted::script.clear(); auto tr=makeTraj<OE,R>(w,psi0,q); std::ostringstream log; int jumps=0, backs=0; size_t K=w.J.size();
  c.check(tr.getTime()==0,"time at start ",tr.getTime()); same(c,vec<R>(tr.getStateVector()),psi0,1e-14,"state at start");
  for (int s=0; s<steps; ++s) {
    const VectorXcd before=vec<R>(tr.getStateVector()); const double t=tr.getTime(), Dt=T*c.oneOf({1.,.3,.01}); const size_t nj=tr.getLogger().getTrajectory().size();
    const double tot=w.total(before); Scripted::script.clear(); Scripted::script.push_back(bits(c.boolean(pj) ? c.unit()*std::min(1.,std::max(1e-9,tot*std::min(Dt,q.dp/std::max(1e-9,tot)))) : c.unit())); Scripted::drawn=0;
    std::ostringstream lg; tr.step(Dt,lg); log<<lg.str(); const double dt=tr.getDtDid(); const auto& traj=tr.getLogger().getTrajectory();
    c.check(dt>0 && dt<=Dt*(1+1e-12),"step ",s,": performed ",dt,", requested at most ",Dt); c.near(tr.getTime(),t+dt,1e-14,"step ",s,": time after a step of ",dt," from ",t); c.check(traj.size()<=nj+1,"more than one jump in a step");
    const VectorXcd got=vec<R>(tr.getStateVector()); VectorXcd want=normalised(expm(w.G*dt)*before); const double edge=w.edge(want), r=w.total(want); if (lg.str().find("stepping back")!=std::string::npos) ++backs;
    if (K) c.check(r*dt<=q.tol*q.dp*(1+1e-6)+1e-9,"step ",s,": jump probability ",r*dt," of an accepted step above the tolerated ",q.tol*q.dp);
    double tol=5e-9; bool norm=true;
    if (traj.size()>nj) {
      ++jumps; const auto [tj,k]=traj.back(); c.check(tj==tr.getTime(),"step ",s,": jump recorded at ",tj,", the time is ",tr.getTime()); c.check(k<K,"jump number ",k," recorded, there are ",K);
      const double rk=w.rate(k,want); c.check(rk>1e-13,"step ",s,": jump ",k," of rate ",rk," occurs"); if (rk<1e-5) return; // a state after a hardly possible jump is determined by the integration error
      tol/=std::min(1.,std::sqrt(rk)); want=w.J[k]*want; const double nn=want.squaredNorm(); if (nn<1e-5) return; norm=std::abs(nn-rk)<1e-12*rk; if (!norm) c.label("jump at the truncation edge"); want/=std::sqrt(nn);
    }
    if (norm) c.near(got.norm(),1.,tol>5e-9 ? 1e-6 : 1e-10,"step ",s,": norm");
    const double dist=rayDistance(normalised(got),want); c.margin(dist/tol); c.check(dist<=tol,"step ",s," of ",dt," from t=",t,traj.size()>nj ? " with a jump" : "",": state differs from the expected by ",dist);
    if (!norm) return;
  }
  if (jumps) c.label("jumps"); if (backs) c.label("undone steps"); if (!w.J.empty() && (jumps || backs)) c.nontrivial();
}

// measure of the random numbers that lead to each jump, by stratified sampling of the random number
template<template<int> class OE, int R> void probability(Ctx& c, const Whole<R>& w)
{
  const long n=w.n(); const size_t K=w.J.size(); if (!K) c.discard(); const VectorXcd psi0=initial(c,n); P17 q; q.dp=c.real(.02,.4); q.tol=std::max(1.,c.real(1.,2.)); if (q.dp*q.tol>.8) q.tol=.8/q.dp; q.eps=1e-10; q.logLevel=0; q.seed=1; const int M=c.thorough() ? 2000 : 400, pre=c.range(0,2); const double T=c.real(.1,3.)/w.scale(), off=c.real(.05,.95);
  c.note(w.name,", dpLimit ",q.dp,", tolerance ",q.tol,", ",pre," steps before, at most ",T); std::vector<int> count(K+1,0); double dt=0; VectorXcd psi; std::ostringstream lg;
  for (int i=0; i<M; ++i) {
    Scripted::script.clear(); auto tr=makeTraj<OE,R>(w,psi0,q); for (int k=0; k<pre; ++k) {Scripted::script.assign(1,~0ull); tr.step(T,lg); if (!tr.getLogger().getTrajectory().empty()) c.fail("jump with the highest random number");}
    if (!i) psi=vec<R>(tr.getStateVector()); Scripted::script.assign(1,bits((i+off)/M)); tr.step(T,lg); if (!i) dt=tr.getDtDid(); c.check(std::abs(dt-tr.getDtDid())<=1e-5*dt,"the length of the step depends on the random number: ",dt," ",tr.getDtDid()); const auto& l=tr.getLogger().getTrajectory(); c.check(l.size()<2,"several jumps in a step"); ++count[l.empty() ? K : std::min(K,l.front().second)];
  }
  psi=normalised(expm(w.G*dt)*psi); double rest=1; bool some=false;
  for (size_t k=0; k<=K; ++k) {const double p=k<K ? w.rate(k,psi)*dt : rest; rest-=p; some=some || (k<K && p>.01); c.margin(std::abs(count[k]-p*M)/(2.02+1e-6*M)); c.check(std::abs(count[k]-p*M)<=2.02+1e-6*M,k<K ? "jump " : "no jump: channel ",k," occurs for ",count[k]," of ",M," equidistant random numbers, its probability is ",p); if (k<K && p<1e-12) c.check(!count[k],"a jump of vanishing rate occurs");}
  c.nontrivial(some);
}

// equal seeds: identical trajectories whatever is logged; the log tells exactly what happened; the averages streamed are those of the state
// (the system is made anew for each, since its operators remember the times they have visited with a rounding error)
template<template<int> class OE, int R> void reproducible(Ctx& c, const std::vector<Whole<R>>& ww)
{
  const auto& w=ww[0]; if (w.heated) c.discard(); // a raising jump at the truncation edge leaves no state
    using Engine=pcg64; const VectorXcd psi0=initial(c,w.n()); parameters::Table t1,t2; quantumtrajectory::mcwf::Pars<Engine> a(t1), b(t2); a.dpLimit=b.dpLimit=c.logReal(1e-3,.3); a.overshootTolerance=b.overshootTolerance=c.oneOf({1.,2.,10.}); a.epsRel=b.epsRel=c.logReal(1e-10,1e-4); a.epsAbs=b.epsAbs=c.logReal(1e-12,1e-4); a.seed=b.seed=c.choice(1u<<20); a.prngStream=b.prngStream=c.choice(50); a.logLevel=c.range(1,4); b.logLevel=c.range(0,4);
  auto x=quantumtrajectory::mcwf::make<OE<R>,Engine>(w.p,makeSV<R>(w.d,psi0),a), y=quantumtrajectory::mcwf::make<OE<R>,Engine>(ww[1].p,makeSV<R>(w.d,psi0),b); const int steps=c.range(1,40); const double T=c.logReal(1e-2,3.)/w.scale(); c.note(w.name,", dpLimit ",a.dpLimit,", seed ",a.seed," ",a.prngStream,", log levels ",a.logLevel," ",b.logLevel,", ",steps," steps at most ",T);
  parameters::Table t3; cppqedutils::ode_engine::Pars<> p(t3); p.epsRel=a.epsRel; p.epsAbs=a.epsAbs; quantumtrajectory::MCWF_Trajectory<R,OE<R>,Engine> z(ww[2].p,makeSV<R>(w.d,psi0),OE<R>{quantumtrajectory::initialTimeStep<R>(w.p),p},{a.seed,a.prngStream},a.dpLimit,a.overshootTolerance,0);
  std::ostringstream lx,ly; std::ostringstream jumpText; jumpText.precision(6); size_t nj=0;
  for (int s=0; s<steps; ++s) {
    const double Dt=T*c.oneOf({1.,.1}); x.step(Dt,lx); y.step(Dt,ly); z.step(Dt,ly); c.check(x.getTime()==y.getTime() && x.getDtDid()==y.getDtDid() && x.getDtTry()==y.getDtTry() && vec<R>(x.getStateVector())==vec<R>(y.getStateVector()),"step ",s,": trajectories with equal seeds differ: times ",x.getTime()," ",y.getTime(),", next steps ",x.getDtTry()," ",y.getDtTry(),", distance ",(vec<R>(x.getStateVector())-vec<R>(y.getStateVector())).norm()); c.check(x.getTime()==z.getTime() && vec<R>(x.getStateVector())==vec<R>(z.getStateVector()),"step ",s,": the trajectory made from a parameter set differs from the one made from the same parameters");
    const auto& l=x.getLogger().getTrajectory(); if (l.size()>nj) {nj=l.size(); jumpText<<l.back().first<<"\t"<<l.back().second<<"\n"; if (a.logLevel>1) {std::ostringstream o; o<<"Jump No. "<<l.back().second<<" at time "<<l.back().first<<"\n"; c.check(lx.str().find(o.str())!=std::string::npos,"jump not reported during the run");}}
  }
  c.check(x.getLogger().getTrajectory()==y.getLogger().getTrajectory() && x.getLogger().getTrajectory()==z.getLogger().getTrajectory(),"jump logs with equal seeds differ"); c.check(x.sampleRandom()==y.sampleRandom(),"random sequences with equal seeds diverge");
  std::ostringstream e,f; x.logOnEnd(e); z.logOnEnd(f); const std::string txt=e.str(); c.check(f.str().empty(),"summary although logging is off"); c.check(txt.find("\nTotal number of MCWF steps: "+std::to_string(steps)+"\n")!=std::string::npos,"number of steps in the summary: ",txt); const auto at=txt.find("MCWF Trajectory:\n"); c.check(at!=std::string::npos && txt.substr(at)=="MCWF Trajectory:\n"+jumpText.str()+"\n","jumps in the summary: ",txt,", should be ",jumpText.str());
  size_t times=0; for (size_t i=0; (i=lx.str().find("Jump No.",i))!=std::string::npos; ++i) ++times; c.check(times==(a.logLevel>1 ? nj : 0),"number of jumps reported during the run");
  std::ostringstream s; const auto av=std::get<1>(x.stream(s,6)); const QuantumSystemWrapper<R> q(w.p,true); const auto ref=q.stream(x.getTime(),x.getStateVector(),f,6); const auto& rv=std::get<1>(ref); c.check(s.str()==f.str() && av.size()==rv.size(),"streamed averages");
  c.nontrivial(nj>0); c.label(nj ? "jumps" : "no jump");
  auto wrong=w.d; ++wrong[c.range(0,R-1)]; bool refused=false; try {quantumtrajectory::mcwf::make<OE<R>,Engine>(w.p,makeSV<R>(wrong,VectorXcd(VectorXcd::Unit(prod(wrong),0))),a);} catch (const std::exception&) {refused=true;} c.check(refused,"a state of other dimensions is accepted");
}

// advancing over given intervals: the last step may go back by the rounding error of the time, and nothing happens there
template<typename T> struct Watched {T& tr; std::function<void(double)> before, after; void step(double dt, std::ostream& os) {before(dt); tr.step(dt,os); after(dt);} double getTime() const {return tr.getTime();}};
template<template<int> class OE, int R> void advancing(Ctx& c, const Whole<R>& w)
{
  if (w.heated) c.discard(); const long n=w.n(); const VectorXcd psi0=initial(c,n); P17 q; q.dp=c.logReal(1e-3,.3); q.tol=c.oneOf({10.,2.,1.}); q.eps=c.logReal(1e-10,1e-3); q.logLevel=0; q.seed=c.choice(1000); const int rounds=c.range(1,4); c.note(w.name,", dpLimit ",q.dp,", tolerance ",q.tol,", ",rounds," intervals");
  Scripted::script.clear(); auto tr=makeTraj<OE,R>(w,psi0,q); std::ostringstream lg; int back=0, steps=0; VectorXcd was; size_t nj=0; double t0=0;
  Watched<decltype(tr)> x{tr,[&](double) {was=vec<R>(tr.getStateVector()); nj=tr.getLogger().getTrajectory().size(); t0=tr.getTime();},[&](double dt) {
    const VectorXcd now=vec<R>(tr.getStateVector()); const size_t k=tr.getLogger().getTrajectory().size(); if (++steps>200000) c.fail("no end of steps"); if (!w.J.empty() && k>nj && w.rate(tr.getLogger().getTrajectory().back().second,was)<1e-3) return; c.near(now.norm(),1.,1e-6,"norm after a step of ",dt);
    if (dt<0) {++back; c.check(k==nj,"a jump in a step of ",dt); c.check(std::abs(dt)<1e-14*std::max(1.,t0),"a step back of ",dt); c.check(rayDistance(now,was)<1e-9,"the state changes in a step of ",dt);}
    if (k>nj) {const auto [tj,j]=tr.getLogger().getTrajectory().back(); c.check(j<w.J.size(),"jump number ",j," of ",w.J.size());}
  }};
  for (int r=0; r<rounds; ++r) {const double T=c.logReal(1e-3,2.)/w.scale(), end=tr.getTime()+T; if (c.boolean(.3)) Scripted::script.assign(5,bits(c.unit())); cppqedutils::advance(x,T,lg); c.check(tr.getTime()==end,"advanced to ",tr.getTime()," instead of ",end);}
  c.nontrivial(!w.J.empty() && n>1); if (back) c.label("steps back by rounding error");
}
