// Interactions built through the framework's public makers, each with its documented dense coupling H/i, in the announced order of subsystems.
#pragma once
#include "systems.h"
#include "JaynesCummings.h"
#include "CoupledModes.h"
#include "GeneralDicke.h"
#include "ParticleCavity.h"
#include "ParticleTwoModes.h"
#include "IdenticalParticles.h"

namespace sys {
template<int R> struct IA {
  std::string name; structure::InteractionPtr<R> p; std::vector<F> f; MatrixXcd K; // K: coupling H/i on the product space of the subsystems f
  int margin=0;        // columns this close to the momentum edges of the last subsystem feel the truncation
  VectorXd conserved;  // diagonal of a conserved quantity of the coupling, if the documented form has one
  std::vector<int> dims() const {std::vector<int> d; for (auto& x : f) d.push_back(x.dim); return d;}
};
inline MatrixXcd k2(const MatrixXcd& a, const MatrixXcd& b) {return kron(a,b);}
inline MatrixXcd plusHCoverI(const MatrixXcd& m) {return (m+m.adjoint())/dcomp(0,1);}
inline MatrixXcd minusHC(const MatrixXcd& m) {return m-m.adjoint();}
// product of position-space functions, free of truncation inside the given momentum window
inline MatrixXcd compose(int n, int t1, int k1, int t2, int k2) {const int pad=std::abs(k1)+std::abs(k2), N=n+2*pad; const MatrixXcd m=modeFn(N,t1,k1).adjoint()*modeFn(N,t2,k2); return m.block(pad,pad,n,n);}
inline VectorXd total(const VectorXd& a, const VectorXd& b) {VectorXd r(a.size()*b.size()); for (long i=0; i<a.size(); ++i) for (long j=0; j<b.size(); ++j) r(i*b.size()+j)=a(i)+b(j); return r;}
inline dcomp strength(Ctx& c, bool real=false) {if (c.boolean(.1)) return 0; return real ? dcomp(c.real(-3.,3.)) : c.cplx(3.);}
inline VectorXd ladder(int n) {return VectorXd::LinSpaced(n,0,n-1);}

inline IA<2> jc(Ctx& c, const F& q, const F& m)
{
  IA<2> r; r.f={q,m}; const dcomp g=strength(c); r.p=q.spin ? jaynescummings::make(q.spin,m.mode,g) : jaynescummings::make(q.qbit,m.mode,g); const MatrixXcd s=q.spin ? MatrixXcd(splus(q.dim,q.twoS).adjoint()) : destroy(2);
  r.K=minusHC(std::conj(g)*k2(s,destroy(m.dim).adjoint())); r.conserved=total(ladder(q.dim),ladder(m.dim)); std::ostringstream o; o<<"Jaynes-Cummings(g "<<g<<", "<<q.name<<", "<<m.name<<")"; r.name=o.str(); return r;
}
inline IA<2> coupled(Ctx& c, const F& a, const F& b)
{
  IA<2> r; r.f={a,b}; const int kind=c.range(0,2); const dcomp u=kind<2 ? strength(c,c.boolean()) : strength(c); const int n=a.dim, m=b.dim; const MatrixXcd xa=(destroy(n)+destroy(n).adjoint())/std::sqrt(2.), xb=(destroy(m)+destroy(m).adjoint())/std::sqrt(2.);
  switch (kind) {
  case 0: r.p=coupledmodes::make<coupledmodes::CM_NX>(a.mode,b.mode,u); r.K=u.real()/dcomp(0,1)*k2(number(n),xb); r.conserved=total(ladder(n),VectorXd::Zero(m)); break;
  case 1: r.p=coupledmodes::make<coupledmodes::CM_XX>(a.mode,b.mode,u); r.K=u.real()/dcomp(0,1)*k2(xa,xb); break;
  default: r.p=coupledmodes::make<coupledmodes::CM_XX_RWA>(a.mode,b.mode,u); r.K=minusHC(std::conj(u)*k2(destroy(n),destroy(m).adjoint())); r.conserved=total(ladder(n),ladder(m));
  }
  std::ostringstream o; o<<"coupled modes(form "<<kind<<", u "<<u<<", "<<a.name<<", "<<b.name<<")"; r.name=o.str(); return r;
}
inline IA<2> dicke(Ctx& c, const F& m, const F& s)
{
  IA<2> r; r.f={m,s}; const double u=strength(c,true).real(), y=strength(c,true).real(); r.p=std::make_shared<GeneralDicke<>>(m.mode,s.spin,u,y); const MatrixXcd P=splus(s.dim,s.twoS), a=destroy(m.dim);
  r.K=(u*k2(number(m.dim),sz(s.dim,s.twoS)+s.twoS/2.*MatrixXcd::Identity(s.dim,s.dim))+y*k2(a+a.adjoint(),(P+P.adjoint())/2.))/dcomp(0,1);
  std::ostringstream o; o<<"Dicke(u "<<u<<", y "<<y<<", "<<m.name<<", "<<s.name<<")"; r.name=o.str(); return r;
}
inline double etaEff(double u, double v) {return (u>0 ? 1 : u<0 ? -1 : 0)*std::sqrt(u*v);}
inline MatrixXcd dispersive(const F& m, const F& p, double u, int mf, int k) {if (mf>1) return MatrixXcd::Zero(m.dim*p.dim,m.dim*p.dim); return u*(mf==MFT_SIN ? -1. : 1.)/dcomp(0,2)*k2(number(m.dim),cosM(p.dim,2*k));}
inline PartPars resolvable(Ctx& c, int minFin, int maxFin, bool pumped) {auto p=partPars(c,std::max(2,minFin),std::max(2,maxFin)); p.k=(p.fin>2 ? c.range(1,3) : 1)*(c.boolean(.2) ? -1 : 1); p.pumped=pumped; return p;}
inline int resolvableK(Ctx& c, const F& p) {return (p.dim>4 ? c.range(1,3) : 1)*(c.boolean(.25) ? -1 : 1);} // negative wave numbers are mode functions of -x

inline IA<2> orthogonal(Ctx& c, const F& m, const F& p)
{
  IA<2> r; r.f={m,p}; const double u=c.boolean(.1) ? 0 : (p.vClass<0 ? -1 : 1)*c.real(0.,3.), eta=etaEff(u,p.vClass); parameters::Table t; particlecavity::ParsOrthogonal q(t); q.uNot=u; r.p=std::make_shared<ParticleOrthogonalToCavity>(m.mode,p.ppart,q);
  r.K=eta*plusHCoverI(k2(destroy(m.dim),modeFn(p.dim,p.mf,p.kPart))); std::ostringstream o; o<<"particle orthogonal to cavity(U "<<u<<", "<<m.name<<", "<<p.name<<")"; r.name=o.str(); return r;
}
inline IA<2> along(Ctx& c, const F& m, const F& p)
{
  IA<2> r; r.f={m,p}; const int mf=c.range(0,3), k=resolvableK(c,p); const bool generic=c.boolean(); double u=c.boolean(.15) ? 0 : c.real(-3.,3.), eta=0; const int kind=p.ppart ? c.range(0,1) : 0; double v=0;
  parameters::Table t; particlecavity::ParsAlongGenericPump q(t); q.kCav=k; q.modeCav=ModeFunctionType(mf);
  if (generic) eta=c.boolean(.15) ? 0 : c.real(-3.,3.); else {v=kind ? p.vClass : c.boolean(.3) ? 0 : c.real(-3.,3.); if (u*v<0) u=-u; eta=etaEff(u,v);}
  q.uNot=u; q.etaeff=eta; const auto& pa=static_cast<const particlecavity::ParsAlong&>(q);
  if (kind) {if (generic) r.p=std::make_shared<ParticleAlongCavity>(m.mode,p.ppart,q); else r.p=std::make_shared<ParticleAlongCavity>(m.mode,p.ppart,pa);}
  else {if (generic) r.p=std::make_shared<ParticleAlongCavity>(m.mode,p.part,q); else if (v) r.p=std::make_shared<ParticleAlongCavity>(m.mode,p.part,pa,v); else r.p=std::make_shared<ParticleAlongCavity>(m.mode,p.part,pa);}
  r.K=dispersive(m,p,u,mf,k);
  if (kind) {r.K+=eta*plusHCoverI(k2(destroy(m.dim).adjoint(),compose(p.dim,mf,k,p.mf,p.kPart))); if (k!=p.kPart || k<0) r.margin=std::abs(k)+std::abs(p.kPart);} else r.K+=eta*plusHCoverI(k2(destroy(m.dim),modeFn(p.dim,mf,k)));
  std::ostringstream o; o<<"particle along cavity("<<(kind ? "pumped particle" : "particle")<<(generic ? ", generic pump" : "")<<", U "<<u<<", eta "<<eta<<", mode function "<<mf<<" k "<<k<<", "<<m.name<<", "<<p.name<<")"; r.name=o.str(); return r;
}
inline IA<3> twoModes(Ctx& c, const F& a, const F& b, const F& p)
{
  IA<3> r; r.f={a,b,p}; const int f0=c.range(0,3), f1=c.range(0,3), k0=resolvableK(c,p), k1=c.boolean() ? (c.boolean(.3) ? -k0 : k0) : resolvableK(c,p); double u0=c.boolean(.1) ? 0 : c.real(-3.,3.), u1=c.boolean(.1) ? 0 : c.real(-3.,3.); if (u0*u1<0) u1=-u1; const double phi=c.boolean() ? c.real(-3.,3.) : 0;
  parameters::Table t; particlecavity::ParsAlong q0(t,"0"), q1(t,"1"); q0.uNot=u0; q1.uNot=u1; q0.kCav=k0; q1.kCav=k1; q0.modeCav=ModeFunctionType(f0); q1.modeCav=ModeFunctionType(f1);
  if (phi) r.p=std::make_shared<ParticleTwoModes>(a.mode,b.mode,p.part,q0,q1,phi); else r.p=std::make_shared<ParticleTwoModes>(a.mode,b.mode,p.part,q0,q1);
  r.K=plusHCoverI(etaEff(u0,u1)*std::exp(dcomp(0,phi))*kron(MatrixXcd(destroy(a.dim).adjoint()),kron(destroy(b.dim),compose(p.dim,f0,k0,f1,k1)))); if (k0!=k1) r.margin=std::abs(k0)+std::abs(k1);
  r.conserved=total(total(ladder(a.dim),ladder(b.dim)),VectorXd::Zero(p.dim)); std::ostringstream o; o<<"particle and two modes(U "<<u0<<" "<<u1<<", phi "<<phi<<", mode functions "<<f0<<" k "<<k0<<", "<<f1<<" k "<<k1<<", "<<a.name<<", "<<b.name<<", "<<p.name<<")"; r.name=o.str(); return r;
}

inline F anyQbitOrSpin(Ctx& c, int maxDim, bool lossless=false) {if (c.boolean()) {auto s=spinPars(c,maxDim,lossless); return makeSpin(c,s,anyPicture(c),!lossless && c.boolean());} return makeQbit(c,anyPicture(c),lossless);}
inline IA<2> anyBinary(Ctx& c, int maxDim=5, int maxFin=4, bool lossless=false)
{
  const auto md=[&]{const auto p=anyPicture(c); return makeMode(c,modePars(c,maxDim,lossless),p);};
  switch (c.range(0,4)) {
  case 0: {const F q=anyQbitOrSpin(c,maxDim,lossless); return jc(c,q,md());}
  case 1: {const F a=c.boolean(.2) ? makeQbit(c,anyPicture(c),lossless) : md(); return coupled(c,a,md());}
  case 2: {const F m=md(); const auto s=spinPars(c,maxDim,lossless); const auto pic=anyPicture(c); return dicke(c,m,makeSpin(c,s,pic,!lossless && c.boolean()));}
  case 3: {const F m=md(); const auto p=resolvable(c,2,maxFin,true); return orthogonal(c,m,makePart(c,p,anyPicture(c)));}
  default: {const F m=md(); const auto p=resolvable(c,2,maxFin,c.boolean()); return along(c,m,makePart(c,p,anyPicture(c)));}
  }
}
inline VectorXcd freeExact(const std::vector<F>& f, double t, double t0) {VectorXcd u=VectorXcd::Ones(1); for (auto& x : f) {const QuantumSystemWrapper<1> w(x.p); u=kron(u,exactDiag<1>(w,{x.dim},t,t0));} return u;}
} // sys
