// Elementary systems built through the framework's public makers, each with its documented dense Hamiltonian, jump operators, rates and
// exactly solved part. The references are written down from the documentation, independently of the implementation.
#pragma once
#include "qdata.h"
#include "Mode.h"
#include "Qbit.h"
#include "Spin.h"
#include "Particle.h"
#include "Structure.h"
#include "PumpedTwoLevelAtom.h"
#include "TimeIndependentMatrixHamiltonian.h"
#include "Pars.h"

namespace sys {
using namespace dense;
using structure::QuantumSystemWrapper;

inline MatrixXcd destroy(int n) {MatrixXcd a=MatrixXcd::Zero(n,n); for (int i=1; i<n; ++i) a(i-1,i)=std::sqrt(double(i)); return a;}
inline MatrixXcd number(int n) {MatrixXcd a=MatrixXcd::Zero(n,n); for (int i=0; i<n; ++i) a(i,i)=i; return a;}
inline MatrixXcd kerr(int n) {MatrixXcd a=MatrixXcd::Zero(n,n); for (int i=0; i<n; ++i) a(i,i)=double(i)*(i-1); return a;}
inline MatrixXcd ketbra(int n, int i, int j) {MatrixXcd a=MatrixXcd::Zero(n,n); a(i,j)=1; return a;}
inline MatrixXcd splus(int n, int twoS) {MatrixXcd a=MatrixXcd::Zero(n,n); const double s=twoS/2.; for (int i=0; i+1<n; ++i) {const double m=i-s; a(i+1,i)=std::sqrt(s*(s+1)-m*(m+1));} return a;}
inline MatrixXcd sz(int n, int twoS) {MatrixXcd a=MatrixXcd::Zero(n,n); for (int i=0; i<n; ++i) a(i,i)=i-twoS/2.; return a;}
// multiplication with exp(i*m*x) in momentum representation
inline MatrixXcd expI(int n, int m) {MatrixXcd a=MatrixXcd::Zero(n,n); for (int i=0; i<n; ++i) if (i+m>=0 && i+m<n) a(i+m,i)=1; return a;}
inline MatrixXcd cosM(int n, int m) {return (expI(n,m)+expI(n,-m))/2.;}
inline MatrixXcd sinM(int n, int m) {return (expI(n,m)-expI(n,-m))/dcomp(0,2);}
inline MatrixXcd modeFn(int n, int type, int k) {switch (type) {case MFT_SIN: return sinM(n,k); case MFT_COS: return cosM(n,k); case MFT_PLUS: return expI(n,k); default: return expI(n,-k);}}

struct F {
  std::string name; int dim=0; std::shared_ptr<const structure::Free> p; mode::Ptr mode; qbit::Ptr qbit; spin::Ptr spin; particle::Ptr part; particle::PtrPumped ppart;
  VectorXcd D;              // exact part: U(t)=exp(-D t)
  MatrixXcd G;              // documented non-Hermitian H/i, up to a multiple of the identity
  std::vector<MatrixXcd> J, R; // jump operators, rate operators (R=J^dagger J, without the truncation)
  std::vector<char> special; // rate reported negative, to be replaced by the squared norm of the jumped state
  bool super=true, kerrExact=false; int twoS=0, mf=0, kPart=0; double vClass=0; QM_Picture pic=QMP_SCH; double z=0;
  MatrixXcd H() const {return dcomp(0,.5)*(G-G.adjoint());}
  double scale() const {double s=1; for (int i=0; i<dim; ++i) for (int j=0; j<dim; ++j) s=std::max(s,std::abs(G(i,j))); return s;}
};

inline int pictureShift=0; // the same parameters in other pictures
inline QM_Picture anyPicture(Ctx& c) {const QM_Picture p[]={QMP_SCH,QMP_IP,QMP_UIP}; return p[(c.choice(3)+pictureShift)%3];}
inline const char* picName(QM_Picture p) {return p==QMP_SCH ? "Sch" : p==QMP_IP ? "IP" : "UIP";}

struct ModePars {int cutoff; double delta, kerr, kerrA, kappa, nTh; dcomp eta;};
inline ModePars modePars(Ctx& c, int maxDim, bool lossless=false, bool withKerr=true)
{
  ModePars m; m.cutoff=c.range(2,maxDim); m.delta=c.real(-8.,8.); m.kerr=withKerr && c.boolean(.3) ? c.real(-1.5,1.5) : 0; m.kerrA=withKerr && c.boolean(.2) ? c.real(-1.5,1.5) : 0;
  m.kappa=lossless || c.boolean(.3) ? 0 : c.real(0.,3.); m.nTh=m.kappa && c.boolean(.5) ? c.real(0.,2.) : 0; m.eta=c.boolean(.6) ? c.cplx(4.) : dcomp(0); return m;
}
inline F makeMode(Ctx& c, const ModePars& m, QM_Picture pic, mode::Ptr given={})
{
  F f; f.dim=m.cutoff; f.pic=pic;
  if (given) f.mode=given; else {parameters::Table t; mode::ParsPumpedLossy p(t); p.cutoff=m.cutoff; p.delta=m.delta; p.omegaKerr=m.kerr; p.omegaKerrAlter=m.kerrA; p.kappa=m.kappa; p.nTh=m.nTh; p.eta=m.eta; f.mode=mode::make(p,pic);}
  f.p=f.mode; const int n=m.cutoff; const MatrixXcd a=destroy(n), N=number(n); const dcomp z(m.kappa*(2*m.nTh+1),-m.delta);
  f.G=-z*N+m.eta*a.adjoint()-std::conj(m.eta)*a+(m.kerr+m.kerrA)/dcomp(0,1)*kerr(n);
  if (m.kappa) {f.J.push_back(std::sqrt(2*m.kappa*(m.nTh+1))*a); f.R.push_back(2*m.kappa*(m.nTh+1)*N); if (m.nTh) {f.J.push_back(std::sqrt(2*m.kappa*m.nTh)*a.adjoint()); f.R.push_back(2*m.kappa*m.nTh*(N+MatrixXcd::Identity(n,n)));}}
  f.special.assign(f.J.size(),0); f.z=z.real(); f.kerrExact=m.kerr!=0;
  std::ostringstream s; s<<picName(pic)<<" mode(cutoff "<<n<<", delta "<<m.delta<<", kerr "<<m.kerr<<"+"<<m.kerrA<<", kappa "<<m.kappa<<", nTh "<<m.nTh<<", eta "<<m.eta<<")"; f.name=s.str(); return f;
}
inline F makeMode(Ctx& c, int maxDim, QM_Picture pic, bool lossless=false) {return makeMode(c,modePars(c,maxDim,lossless),pic);}
inline F makeMode(Ctx& c, int maxDim) {auto m=modePars(c,maxDim); return makeMode(c,m,anyPicture(c));}

struct QbitPars {double delta, gamma, par; dcomp eta;};
inline QbitPars qbitPars(Ctx& c, bool lossless=false, bool noise=false) {QbitPars q; q.delta=c.real(-8.,8.); q.gamma=lossless || c.boolean(.3) ? 0 : c.real(0.,3.); q.eta=c.boolean(.6) ? c.cplx(4.) : dcomp(0); q.par=noise && !lossless ? c.real(.01,3.) : 0; return q;}
inline F makeQbit(Ctx& c, const QbitPars& q, QM_Picture pic)
{
  F f; f.dim=2; f.pic=pic;
  {parameters::Table t; qbit::ParsPumpedLossyPhaseNoise p(t); p.delta=q.delta; p.gamma=q.gamma; p.eta=q.eta; p.gamma_parallel=q.par; f.qbit=q.par ? qbit::make(p,pic) : qbit::make(static_cast<const qbit::ParsPumpedLossy&>(p),pic);}
  f.p=f.qbit; f.mode=f.qbit; const MatrixXcd s=destroy(2), N=number(2); const dcomp z(q.gamma,-q.delta); f.G=-z*N-q.eta*s.adjoint()+std::conj(q.eta)*s;
  if (q.gamma || q.par) {f.J.push_back(std::sqrt(2*q.gamma)*s); f.R.push_back(2*q.gamma*N);} f.special.assign(f.J.size(),0);
  if (q.par) {f.J.push_back(std::sqrt(2*q.par)*(MatrixXcd::Identity(2,2)-2*N)); f.R.push_back(2*q.par*MatrixXcd::Identity(2,2)); f.special.assign(2,1); f.super=false;}
  f.z=q.gamma; std::ostringstream o; o<<picName(pic)<<" qbit(delta "<<q.delta<<", gamma "<<q.gamma<<", eta "<<q.eta<<", phase noise "<<q.par<<")"; f.name=o.str(); return f;
}
inline F makeQbit(Ctx& c, QM_Picture pic, bool lossless=false) {return makeQbit(c,qbitPars(c,lossless),pic);}

struct SpinPars {int twoS, dim; double omega, gamma, theta, phi;};
inline SpinPars spinPars(Ctx& c, int maxDim, bool lossless=false)
{
  SpinPars s; s.twoS=c.range(1,maxDim-1); s.dim=c.boolean(.2) ? c.range(2,std::max(2,s.twoS+2)) : 0; s.omega=c.real(-4.,4.); s.gamma=lossless || c.boolean(.3) ? 0 : c.real(0.,2.); s.theta=c.boolean(.4) ? c.real(0.,3.14) : 0; s.phi=c.boolean(.4) ? c.real(-3.,3.) : 0; return s;
}
// lossy: with the jumps; otherwise gamma has to vanish for a physical system
inline F makeSpin(Ctx& c, const SpinPars& s, QM_Picture pic, bool lossy)
{
  F f; f.pic=pic; parameters::Table t; spin::Pars p(t); p.twoS=s.twoS; p.dim=s.dim; p.omega=s.omega; p.gamma=lossy ? s.gamma : 0; p.theta=s.theta; p.phi=s.phi;
  if (pic==QMP_SCH) {if (lossy) f.spin=std::make_shared<LossySpinSch>(p); else f.spin=std::make_shared<SpinSch>(p);} else {if (lossy) f.spin=std::make_shared<LossySpin>(p); else f.spin=std::make_shared<Spin>(p);}
  f.p=f.spin; f.twoS=s.twoS; f.dim=s.dim && s.dim<s.twoS+1 ? s.dim : s.twoS+1; const int n=f.dim; const MatrixXcd P=splus(n,s.twoS), Z=sz(n,s.twoS);
  const MatrixXcd X=(P+P.adjoint())/2., Y=(P-P.adjoint())/dcomp(0,2); const double th=pic==QMP_SCH ? s.theta : 0;
  f.G=-dcomp(0,1)*s.omega*(std::sin(th)*(std::cos(s.phi)*X+std::sin(s.phi)*Y)+std::cos(th)*Z);
  if (lossy) {MatrixXcd R=MatrixXcd::Zero(n,n); for (int i=0; i<n; ++i) R(i,i)=double(i)*(s.twoS-i+1); f.G-=s.gamma*R; f.J.push_back(std::sqrt(2*s.gamma)*P.adjoint()); f.R.push_back(2*s.gamma*R);}
  f.special.assign(f.J.size(),0); f.super=false; f.z=lossy ? s.gamma : 0; std::ostringstream o; o<<picName(pic)<<" spin(2S "<<s.twoS<<", dim "<<n<<", omega "<<s.omega<<", gamma "<<(lossy ? s.gamma : 0)<<", theta "<<th<<", phi "<<s.phi<<")"; f.name=o.str(); return f;
}

struct PartPars {int fin; double omrec, vClass; int k, mf; bool pumped;};
inline PartPars partPars(Ctx& c, int minFin, int maxFin) {PartPars p; p.fin=c.range(minFin,maxFin); p.omrec=c.real(.01,2.); p.pumped=c.boolean(); p.vClass=c.boolean(.8) ? c.real(-5.,5.) : 0; p.k=c.range(1,2); p.mf=c.range(0,3); return p;}
inline F makePart(Ctx& c, const PartPars& q, QM_Picture pic)
{
  F f; f.pic=pic; parameters::Table t; particle::ParsPumped p(t); p.omrec=q.omrec; p.fin=q.fin; p.vClass=q.vClass; p.kPart=q.k; p.modePart=ModeFunctionType(q.mf); if (q.pumped) {f.ppart=particle::makePumped(p,pic); f.part=f.ppart;} else f.part=particle::make(p,pic);
  f.p=f.part; f.dim=1<<q.fin; const int n=f.dim; f.G=MatrixXcd::Zero(n,n); for (int i=0; i<n; ++i) {const double k=i-n/2; f.G(i,i)=-dcomp(0,1)*q.omrec*k*k;}
  if (q.pumped && q.mf<2) f.G+=-dcomp(0,1)*q.vClass*(q.mf==MFT_SIN ? -1. : 1.)*cosM(n,2*q.k)/2.;
  f.mf=q.mf; f.kPart=q.k; f.vClass=q.vClass; f.super=true; std::ostringstream o; o<<picName(pic)<<" particle(fin "<<q.fin<<", omrec "<<q.omrec; if (q.pumped) o<<", vClass "<<q.vClass<<", k "<<q.k<<", mode function "<<q.mf; o<<")"; f.name=o.str(); return f;
}

inline F makeTLA(Ctx& c, const QbitPars& q)
{
  F f; f.dim=2; parameters::Table t; qbit::ParsPumpedLossy p(t); p.delta=q.delta; p.gamma=q.gamma; p.eta=q.eta; f.p=std::make_shared<PumpedTwoLevelAtomSch>(p); const MatrixXcd s=destroy(2), N=number(2);
  f.G=-dcomp(q.gamma,-q.delta)*N-q.eta*s.adjoint()+std::conj(q.eta)*s; f.J.push_back(std::sqrt(2*q.gamma)*s); f.R.push_back(2*q.gamma*N); f.special={0}; f.super=false; std::ostringstream o; o<<"two-level atom(delta "<<q.delta<<", gamma "<<q.gamma<<", eta "<<q.eta<<")"; f.name=o.str(); return f;
}
inline F makeMatrix(Ctx& c, int maxDim)
{
  F f; f.dim=c.range(1,maxDim); f.G=gaussianM(c,f.dim,f.dim); linalg::CMatrix m(f.dim,f.dim); for (int i=0; i<f.dim; ++i) for (int j=0; j<f.dim; ++j) m(i,j)=f.G(i,j); f.p=std::make_shared<TimeIndependentMatrixHamiltonian>(m); f.name="matrix Hamiltonian of dimension "+std::to_string(f.dim); return f;
}

inline bool isExact(const F& f) {return bool(std::dynamic_pointer_cast<const structure::Exact<1>>(f.p));}

// --- what a system does, as dense objects
template<int R> MatrixXcd contribution(Ctx& c, const QuantumSystemWrapper<R>& w, const std::vector<int>& d, double t, double t0, bool additive=false)
{
  const long n=prod(d); MatrixXcd m(n,n); VectorXcd base=additive ? gaussian(c,n) : VectorXcd(VectorXcd::Zero(n));
  for (long j=0; j<n; ++j) {auto psi=makeSV<R>(d,VectorXcd::Unit(n,j)), dp=makeSV<R>(d,base); const auto p0=vec<R>(psi); w.addContribution(t,psi.getArray(),dp.getArray(),t0); m.col(j)=vec<R>(dp)-base; if (p0!=vec<R>(psi)) c.fail("the state is changed by calculating its derivative");}
  return m;
}
template<int R> VectorXcd exactDiag(const QuantumSystemWrapper<R>& w, const std::vector<int>& d, double t, double t0) {auto psi=makeSV<R>(d,VectorXcd::Ones(prod(d))); w.actWithU(t,psi.getArray(),t0); return vec<R>(psi);}
template<int R> MatrixXcd jumpMatrix(const QuantumSystemWrapper<R>& w, const std::vector<int>& d, size_t k, double t=0) {const long n=prod(d); MatrixXcd m(n,n); for (long j=0; j<n; ++j) {auto psi=makeSV<R>(d,VectorXcd::Unit(n,j)); w.actWithJ(t,psi.getArray(),k); m.col(j)=vec<R>(psi);} return m;}

// complete generator in the Schroedinger picture, reconstructed from what the system does at time t0+tau; the exact part is diagonal
template<int R> MatrixXcd generator(Ctx& c, const QuantumSystemWrapper<R>& w, const std::vector<int>& d, double tau, double t0, double h)
{
  MatrixXcd m=contribution<R>(c,w,d,t0+tau,t0); if (!w.getEx()) return m; const VectorXcd u=exactDiag<R>(w,d,t0+tau,t0), v=exactDiag<R>(w,d,t0+h,t0); const long n=m.rows();
  for (long i=0; i<n; ++i) for (long j=0; j<n; ++j) m(i,j)*=u(i)/u(j); for (long i=0; i<n; ++i) m(i,i)+=std::log(v(i))/h; return m;
}
// removes the part proportional to the identity
inline MatrixXcd traceless(const MatrixXcd& m) {return m-m.trace()/double(m.rows())*MatrixXcd::Identity(m.rows(),m.cols());}
} // sys
