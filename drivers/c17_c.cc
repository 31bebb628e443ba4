// time-dependent systems, and systems on other time scales, written against the base classes
#include "c17_common.h"
#include "userdef.h"
template<template<int> class OE> auto makeUser(const user::System& u, const VectorXcd& psi, const P17& q)
{
  parameters::Table t; cppqedutils::ode_engine::Pars<> p(t); p.epsRel=p.epsAbs=q.eps; p.logLevel=q.logLevel; return quantumtrajectory::MCWF_Trajectory<1,OE<1>,Scripted>(u.p,makeSV<1>({u.law->n},psi),OE<1>{quantumtrajectory::initialTimeStep<1>(u.p),p},{q.seed,1},q.dp,q.tol,q.logLevel);
}
template<template<int> class OE> void followUser(Ctx& c)
{
  const auto u=user::any(c,4,false); const auto& l=*u.law; const long n=l.n; const VectorXcd psi0=initial(c,n); P17 q; q.dp=c.logReal(1e-3,.3); q.tol=c.oneOf({1.,2.,10.,1.05}); if (q.dp*q.tol>.6) q.tol=.6/q.dp; if (q.tol<1) q.tol=1; q.eps=1e-10; q.logLevel=c.range(0,4); q.seed=c.choice(1000);
  const int steps=c.range(3,10); const double pj=c.oneOf({.5,0.,.9}), T=c.logReal(3e-2,2.)/l.rateScale(); c.note(u.name,", dpLimit ",q.dp,", tolerance ",q.tol,", ",steps," steps at most ",T); Scripted::script.clear(); auto tr=makeUser<OE>(u,psi0,q); int jumps=0, backs=0; const size_t K=l.J.size(); double deviation=0;
  for (int s=0; s<steps; ++s) {
    const VectorXcd before=vec<1>(tr.getStateVector()); const double t=tr.getTime(), Dt=T*c.oneOf({1.,.3,.01}); const size_t nj=tr.getLogger().getTrajectory().size(); const double tot=l.total(t,before);
    Scripted::script.assign(1,bits(c.boolean(pj) ? c.unit()*std::min(1.,std::max(1e-9,tot*std::min(Dt,q.dp/std::max(1e-300,tot)))) : c.unit())); Scripted::drawn=0; std::ostringstream lg; tr.step(Dt,lg); const double dt=tr.getDtDid(); const auto& traj=tr.getLogger().getTrajectory();
    c.check(dt>0 && dt<=Dt*(1+1e-12),"step ",s,": performed ",dt,", requested at most ",Dt); c.near(tr.getTime()/T,(t+dt)/T,1e-13,"step ",s,": time after a step of ",dt," from ",t); c.check(traj.size()<=nj+1,"more than one jump in a step"); if (!l.hasHa && !K) c.check(dt==Dt,"without Hamiltonian and jumps, a step of ",dt," is done instead of the requested ",Dt);
    if (lg.str().find("stepping back")!=std::string::npos) ++backs; const VectorXcd got=vec<1>(tr.getStateVector()); const VectorXcd raw=l.pure(before,t,dt); deviation=std::max(deviation,std::abs(1-raw.norm())); VectorXcd want=normalised(raw); const double now=tr.getTime(), r=l.total(now,want);
    if (K) {c.check(r*dt<=q.tol*q.dp*(1+1e-6)+1e-9,"step ",s,": jump probability ",r*dt," of an accepted step above the tolerated ",q.tol*q.dp); if (!l.hasHa) c.check(std::abs(tr.getDtTry()*r/q.dp-1)<1e-6,"step ",s,": without Hamiltonian, the next step to try is ",tr.getDtTry(),", the jumps allow ",q.dp/r);}
    double tol=2e-8;
    if (traj.size()>nj) {++jumps; const auto [tj,k]=traj.back(); c.check(tj==now,"step ",s,": jump recorded at ",tj,", the time is ",now); c.check(k<K,"jump number ",k," recorded, there are ",K); const double rk=l.rate(k,now,want); if (rk*l.unit<1e-4) return; tol/=std::min(1.,std::sqrt(rk*l.unit)); want=normalised(VectorXcd(l.jump(k,now)*want));}
    c.near(got.norm(),1.,1e-7,"step ",s,": norm"); const double dist=rayDistance(normalised(got),want); c.margin(dist/tol); c.check(dist<=tol,"step ",s," of ",dt," from t=",t,traj.size()>nj ? " with a jump" : "",": state differs from the expected by ",dist);
    std::ostringstream o; const auto av=std::get<1>(tr.stream(o,6)); for (size_t k=0; k<l.O.size(); ++k) c.near(av(int(k)),user::average(u,k,now,got*got.adjoint()),1e-9,"average ",k," at time ",now);
  }
  if (q.logLevel && !backs && q.logLevel>2) {std::ostringstream e; tr.logOnEnd(e); const std::string key="Maximal deviation of norm from 1: "; const auto p=e.str().find(key); c.check(p!=std::string::npos,"no norm deviation in the summary"); const double d=std::stod(e.str().substr(p+key.size())); c.check(std::abs(d-deviation)<=1e-5*deviation+1e-7,"maximal deviation of the norm reported ",d,", it is ",deviation);}
  if (jumps) c.label("jumps"); if (backs) c.label("undone steps"); c.nontrivial(jumps || backs || l.timeH || l.hasEx);
}
VP_PROP("user-defined",20000,200000,30) {if (c.boolean()) followUser<OB>(c); else followUser<OG>(c);}

template<template<int> class OE> void probabilityUser(Ctx& c)
{
  const auto u=user::any(c,4,false); const auto& l=*u.law; const size_t K=l.J.size(); if (!K) c.discard(); const VectorXcd psi0=initial(c,l.n); P17 q; q.dp=c.real(.02,.4); q.tol=std::max(1.,c.real(1.,2.)); if (q.dp*q.tol>.8) q.tol=.8/q.dp; q.eps=1e-10; q.logLevel=0; q.seed=1; const int M=c.thorough() ? 1000 : 250, pre=c.range(0,2); const double T=c.real(.1,3.)/l.rateScale(), off=c.real(.05,.95);
  c.note(u.name,", dpLimit ",q.dp,", tolerance ",q.tol,", ",pre," steps before, at most ",T); std::vector<int> count(K+1,0); double dt=0, t=0; VectorXcd psi; std::ostringstream lg;
  for (int i=0; i<M; ++i) {
    Scripted::script.clear(); auto tr=makeUser<OE>(u,psi0,q); for (int k=0; k<pre; ++k) {Scripted::script.assign(1,~0ull); tr.step(T,lg); if (!tr.getLogger().getTrajectory().empty()) c.fail("jump with the highest random number");}
    if (!i) {psi=vec<1>(tr.getStateVector()); t=tr.getTime();} Scripted::script.assign(1,bits((i+off)/M)); tr.step(T,lg); if (!i) dt=tr.getDtDid(); c.check(std::abs(dt-tr.getDtDid())<=1e-5*dt,"the length of the step depends on the random number: ",dt," ",tr.getDtDid()); const auto& j=tr.getLogger().getTrajectory(); c.check(j.size()<2,"several jumps in a step"); ++count[j.empty() ? K : std::min(K,j.front().second)];
  }
  psi=normalised(l.pure(psi,t,dt)); double rest=1; bool some=false; for (size_t k=0; k<=K; ++k) {const double p=k<K ? l.rate(k,t+dt,psi)*dt : rest; rest-=p; some=some || (k<K && p>.01); c.margin(std::abs(count[k]-p*M)/(2.02+1e-6*M)); c.check(std::abs(count[k]-p*M)<=2.02+1e-6*M,k<K ? "jump " : "no jump: channel ",k," occurs for ",count[k]," of ",M," equidistant random numbers, its probability is ",p);} c.nontrivial(some);
}
VP_PROP("user-defined-probability",2000,10000,40) {probabilityUser<OB>(c);}
