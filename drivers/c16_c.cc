// time-dependent systems written against the base classes
#include "c16_common.h"
#include "userdef.h"
template<template<int> class ME> void followUser(Ctx& c)
{
  const auto u=user::any(c,4,true); const auto& l=*u.law; const int n=l.n; const double eps=c.logReal(1e-10,1e-6); const bool pure=c.boolean(); const VectorXcd psi=initial(c,n); MatrixXcd ref=pure ? MatrixXcd(psi*psi.adjoint()) : densityMatrix(c,n); c.note(u.name,", tolerance ",eps,pure ? ", pure state" : ", mixed state");
  parameters::Table pt; quantumtrajectory::master::Pars p(pt); p.epsRel=p.epsAbs=eps; auto m=quantumtrajectory::master::make<ME<1>,tmptools::V_Empty>(structure::QuantumSystemPtr<1>(u.p),makeDO<1>({n},ref),p,0); std::ostringstream lg; double t=0; int steps=0; const int stops=c.range(1,3);
  for (int s=0; s<stops; ++s) {
    const double T=c.logReal(.3,8.)/l.rateScale(); ref=l.mixed(ref,t,T); t+=T; if (c.boolean(.3)) cppqedutils::advance(m,T,lg); else while (m.getTime()<t*(1-1e-14)) {m.step(t-m.getTime(),lg); if (++steps>20000) c.fail("too many steps");}
    const MatrixXcd got=rhoOf<1>(m); const double tol=(400+5*steps)*eps+2e-8, d=(got-ref).cwiseAbs().maxCoeff(); c.margin(d/tol); c.check(d<=tol,"at time ",t," the density operator differs from the solution of the Lindblad equation by ",d,", allowed ",tol); c.near(got.trace(),1.,1e-11,"trace"); c.check((got-got.adjoint()).cwiseAbs().maxCoeff()<1e-13,"not Hermitian"); if (l.J.empty() && pure) c.near((got*got).trace(),1.,tol*n,"purity of a lossless system");
    std::ostringstream o; const auto av=std::get<1>(m.stream(o,6)); for (size_t k=0; k<l.O.size(); ++k) c.near(av(int(k)),user::average(u,k,m.getTime(),got),1e-9,"average ",k," at time ",t);
  }
  c.nontrivial(l.timeH || l.hasEx || !l.J.empty());
  // a state of the same total dimension but of other dimensions
}
VP_PROP("user-defined",3000,20000,40) {if (c.boolean()) followUser<MB>(c); else followUser<MG>(c);}

// states whose dimensions differ from those of the system, the total dimension being the same
VP_PROP("dimensions",300,3000,20)
{
  const auto w=anyWhole2(c,4,2); auto d=w.d; std::swap(d[0],d[1]); const long n=w.n(); c.note(w.name,", dimensions ",show(w.d)); c.nontrivial(d!=w.d); if (!applicable(w) || !clearlyApplicable(w)) c.discard(); parameters::Table pt; quantumtrajectory::master::Pars p(pt); bool refused=false;
  try {quantumtrajectory::master::make<MB<2>,tmptools::V_Empty>(w.p,makeDO<2>(d,MatrixXcd(MatrixXcd::Identity(n,n)/double(n))),p,0);} catch (const std::exception&) {refused=true;} c.check(refused==(d!=w.d),refused ? "a density operator of the right dimensions is refused" : "a density operator of exchanged dimensions is accepted");
  refused=false; try {quantumtrajectory::master::make<MB<2>,tmptools::V_Empty>(w.p,makeSV<2>(d,VectorXcd(VectorXcd::Unit(n,0))),p,0);} catch (const std::exception&) {refused=true;} c.check(refused==(d!=w.d),refused ? "a state of the right dimensions is refused" : "a state of exchanged dimensions is accepted");
}
