// Whole quantum systems with their documented dense generator and jumps, as input to the trajectory drivers.
#pragma once
#include "interactions.h"
#include "BinarySystem.h"
#include "ODE.h"
#include "ODE_GSL.h"
#include "MCWF_Trajectory.h"
#include "Master.h"

namespace sys {
template<int R> struct Whole {
  std::string name; structure::QuantumSystemPtr<R> p; std::vector<int> d; MatrixXcd G; std::vector<MatrixXcd> J, Rt; std::vector<char> special; bool heated=false, inMaster=true; std::vector<F> parts;
  long n() const {return prod(d);}
  double scale() const {return std::max(1.,G.cwiseAbs().maxCoeff());}
  double rate(size_t k, const VectorXcd& psi) const {return (psi.adjoint()*Rt[k]*psi)(0,0).real();}
  double total(const VectorXcd& psi) const {double s=0; for (size_t k=0; k<Rt.size(); ++k) s+=rate(k,psi); return s;}
  // population where a raising jump leads out of the truncated space
  double edge(const VectorXcd& psi) const {double s=0; if (heated) for (size_t k=0; k<J.size(); ++k) s+=std::abs(((psi.adjoint()*(Rt[k]-J[k].adjoint()*J[k])*psi)(0,0))); return s;}
  MatrixXcd lindblad(const MatrixXcd& rho) const {MatrixXcd r=G*rho+rho*G.adjoint(); for (auto& j : J) r+=j*rho*j.adjoint(); return r;}
};
inline Whole<1> whole(const F& f) {Whole<1> w; w.name=f.name; w.p=f.p; w.d={f.dim}; w.G=f.G; w.J=f.J; w.Rt=f.R; w.special=f.special; w.parts={f}; w.heated=f.J.size()>1 && !f.special[0] && f.mode; return w;}
inline Whole<2> whole(const IA<2>& ia)
{
  Whole<2> w; w.name=ia.name; w.p=binary::make(ia.p); w.d=ia.dims(); w.G=ia.K; w.parts=ia.f;
  for (int i=0; i<2; ++i) {const F& f=ia.f[i]; w.G+=embed(f.G,{i},w.d); for (size_t k=0; k<f.J.size(); ++k) {w.J.push_back(embed(f.J[k],{i},w.d)); w.Rt.push_back(embed(f.R[k],{i},w.d)); w.special.push_back(f.special[k]);} w.heated=w.heated || f.J.size()>1;}
  return w;
}
inline F anyFree(Ctx& c, int maxDim, bool noise=true)
{
  const auto pic=anyPicture(c);
  switch (c.range(0,6)) {
  case 0: case 1: return makeMode(c,maxDim,pic);
  case 2: return makeQbit(c,qbitPars(c,false,noise && c.boolean(.4)),pic);
  case 3: return makeSpin(c,spinPars(c,std::min(maxDim,6)),pic,c.boolean(.7));
  case 4: return makePart(c,partPars(c,1,3),pic);
  case 5: return makeTLA(c,qbitPars(c));
  default: return makeMode(c,maxDim,QMP_IP);
  }
}
inline Whole<2> anyWhole2(Ctx& c, int maxDim=4, int maxFin=3) {const auto ia=anyBinary(c,maxDim,maxFin); if (ia.margin) c.discard(); return whole(ia);}
// a system with Exact and Liouvillean but no Hamiltonian part
inline F noHamiltonian(Ctx& c, int maxDim)
{
  if (c.boolean()) {auto m=modePars(c,maxDim); m.eta=0; m.kerr=m.kerrA=0; if (!m.kappa) m.kappa=1; return makeMode(c,m,c.oneOf({QMP_IP,QMP_UIP}));}
  auto q=qbitPars(c,false,c.boolean()); q.eta=0; if (!q.gamma) q.gamma=1; return makeQbit(c,q,c.oneOf({QMP_IP,QMP_UIP}));
}
inline VectorXcd initial(Ctx& c, long n) {VectorXcd v=c.boolean(.3) ? VectorXcd(VectorXcd::Unit(n,c.range(0,int(n)-1))) : data(c,n); return v/v.norm();}
inline VectorXcd normalised(const VectorXcd& v) {return v/v.norm();}
// distance of two rays
inline double rayDistance(const VectorXcd& a, const VectorXcd& b) {const dcomp o=b.dot(a); const dcomp ph=std::abs(o)>0 ? o/std::abs(o) : dcomp(1); return (a-ph*b).norm();}

template<int R> using OB=cppqedutils::ODE_EngineBoost<quantumdata::StateVectorLow<R>>;
template<int R> using OG=cppqedutils::ODE_EngineGSL<quantumdata::StateVectorLow<R>>;
template<int R> using MB=cppqedutils::ODE_EngineBoost<quantumdata::DensityOperatorLow<R>>;
template<int R> using MG=cppqedutils::ODE_EngineGSL<quantumdata::DensityOperatorLow<R>>;
} // sys
