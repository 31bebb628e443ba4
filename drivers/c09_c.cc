// quantum trajectories of time-dependent systems written against the base classes
#include "c09_common.h"
#include "userdef.h"
VP_PROP("reload/user-defined-single",4000,30000,20)
{
  const auto u=vp::again(c,2,[](Ctx& c) {return user::any(c,4,false);}); const auto& l=*u[0].law; const VectorXcd a=initial(c,l.n), b=initial(c,l.n); const double dp=c.logReal(1e-2,.2), eps=c.logReal(1e-10,1e-6); const unsigned long seed=c.choice(1u<<20); const int level=c.range(0,3); c.note(u[0].name,", seed ",seed,", dpLimit ",dp);
  const auto make=[&](const user::System& s, const VectorXcd& psi, unsigned long sd) {parameters::Table t; quantumtrajectory::mcwf::Pars<pcg64> p(t); p.epsRel=p.epsAbs=eps; p.dpLimit=dp; p.seed=sd; p.logLevel=level; return quantumtrajectory::mcwf::make<OB<1>,pcg64>(structure::QuantumSystemPtr<1>(s.p),makeSV<1>({l.n},psi),p);};
  auto live=make(u[0],a,seed), re=make(u[1],b,seed+7); reload<1>(c,live,re,l.rateScale()); if (!jumpsOf(live).empty()) c.label("jumps");
}
VP_PROP("reload/user-defined-master",2000,15000,20)
{
  const auto u=vp::again(c,2,[](Ctx& c) {return user::any(c,4,true);}); const auto& l=*u[0].law; const double eps=c.logReal(1e-10,1e-7); const MatrixXcd a=densityMatrix(c,l.n), b=densityMatrix(c,l.n); c.note(u[0].name,", tolerance ",eps);
  const auto make=[&](const user::System& s, const MatrixXcd& r) {parameters::Table t; quantumtrajectory::master::Pars p(t); p.epsRel=p.epsAbs=eps; return quantumtrajectory::master::make<MB<1>,tmptools::V_Empty>(structure::QuantumSystemPtr<1>(s.p),makeDO<1>({l.n},r),p,0);};
  auto live=make(u[0],a), re=make(u[1],b); reload<1>(c,live,re,l.rateScale());
}
