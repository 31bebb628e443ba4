// C20: quasi-probability functions against the Wigner transform of oscillator eigenfunctions (numerical quadrature) and the overlap with coherent states
#include "qdata.h"
#include "DistributionFunctions.h"
#include "Pars.h"
#include <cmath>
#include <sstream>
using namespace dense; using quantumdata::wignerFunction; using quantumdata::qFunction;

static VectorXd oscillator(double q, int dim) {VectorXd f(dim); f(0)=std::pow(M_PI,-.25)*std::exp(-q*q/2); if (dim>1) f(1)=std::sqrt(2.)*q*f(0); for (int n=1; n<dim-1; ++n) f(n+1)=std::sqrt(2./(n+1))*q*f(n)-std::sqrt(n/(n+1.))*f(n-1); return f;}
// 1/pi int dy exp(2ipy) <q-y|rho|q+y>,  q=sqrt(2) x, p=sqrt(2) y
static double wignerRef(const MatrixXcd& rho, double x, double y)
{
  const int dim=int(rho.rows()); const double q=std::sqrt(2.)*x, p=std::sqrt(2.)*y, R=std::sqrt(2.*dim)+7+std::abs(q), h=M_PI/(std::sqrt(2.*dim)+7+std::abs(p))*.8; const int N=int(R/h)+1; MatrixXd A(2*N+1,dim), B(2*N+1,dim); VectorXcd e(2*N+1);
  for (int i=-N; i<=N; ++i) {A.row(i+N)=oscillator(q-i*h,dim); B.row(i+N)=oscillator(q+i*h,dim); e(i+N)=std::polar(h/M_PI,2*p*i*h);}
  const MatrixXcd C=A.cast<dcomp>()*rho; dcomp s=0; for (int i=0; i<=2*N; ++i) s+=e(i)*(C.row(i)*B.row(i).transpose().cast<dcomp>())(0); return s.real();
}
static VectorXcd coherentRef(dcomp a, int dim) // long-double logarithms: no overflow
{
  VectorXcd v(dim); const long double l=std::abs(a)>0 ? std::log((long double)std::abs(a)) : 0, f=std::arg(a);
  for (int n=0; n<dim; ++n) v(n)=std::abs(a)>0 ? dcomp(std::polar(std::exp(n*l-std::lgamma((long double)(n)+1)/2-(long double)(std::norm(a))/2),n*f)) : dcomp(n==0);
  return v;
}
static double qRef(const MatrixXcd& rho, double x, double y) {const VectorXcd a=coherentRef({x,y},int(rho.rows())); return a.dot(rho*a).real();}

static double coordinate(Ctx& c) {switch (c.choice(4)) {case 0: return c.range(-2,2); case 1: return .25*c.range(-8,8); case 2: return c.real(-2,2); default: return c.real(-6,6);}}
static MatrixXcd modeState(Ctx& c, int dim)
{
  switch (c.choice(5)) {
  case 0: {MatrixXcd m=MatrixXcd::Zero(dim,dim); const int n=c.range(0,dim-1); m(n,n)=1; c.label("number state"); return m;}
  case 1: {VectorXcd v=coherentRef(c.cplx(2),dim); v/=v.norm(); c.label("coherent"); return v*v.adjoint();}
  case 2: {VectorXcd v=VectorXcd::Zero(dim); v(c.range(0,dim-1))+=1.; v(c.range(0,dim-1))+=c.cgauss(); if (!(v.norm()>1e-3)) v(0)=1; v/=v.norm(); c.label("superposition of two numbers"); return v*v.adjoint();}
  default: c.label("random"); return densityMatrix(c,dim);
  }
}
template<typename M> static auto W(const M& rho, double x, double y, size_t t=0) {return wignerFunction(rho,x,y,t);}

VP_PROP("wigner",6000,60000,20) {
  const int dim=c.boolean(.15) ? c.range(20,60) : c.range(1,14); const MatrixXcd M=modeState(c,dim); const double x=coordinate(c), y=coordinate(c); c.note("dim ",dim,", point ",x,",",y); c.nontrivial(dim>1);
  const auto rho=makeDO<1>({dim},M); const double tol=1e-9, w=W(rho,x,y); c.near(w,wignerRef(M,x,y),tol,"Wigner function"); c.check(std::abs(w)<=1/M_PI+tol,"Wigner function ",w," beyond its bound"); same(c,mat<1>(rho),M,0,"density operator afterwards");
  if (M.norm()>0) { // pure-state interface: the same function of the projector
    const VectorXcd v=data(c,dim); const auto psi=makeSV<1>({dim},v); c.near(W(static_cast<const LDO<1>&>(psi),x,y),W(makeDO<1>({dim},MatrixXcd(v*v.adjoint())),x,y),1e-9*(1+v.squaredNorm()),"Wigner function of a state vector");
  }
  const int t=c.range(0,dim+3); const int d=t && t<dim ? t : dim; c.near(W(rho,x,y,size_t(t)),wignerRef(M.topLeftCorner(d,d),x,y),tol,"Wigner function of the state truncated to ",d);
  // rotation in phase space
  const double th=c.real(-4,4); MatrixXcd R=M; for (int m=0; m<dim; ++m) for (int n=0; n<dim; ++n) R(m,n)*=std::polar(1.,-th*(m-n)); const dcomp z=dcomp(x,y)*std::polar(1.,-th); c.near(W(makeDO<1>({dim},R),z.real(),z.imag()),w,tol,"Wigner function of the rotated state at the rotated point");
  // linearity
  const MatrixXcd M2=densityMatrix(c,dim); const double a=c.real(0,1); c.near(W(makeDO<1>({dim},MatrixXcd(a*M+(1-a)*M2)),x,y),a*w+(1-a)*W(makeDO<1>({dim},M2),x,y),tol,"Wigner function of a mixture");
}
VP_PROP("husimi",6000,60000,20) {
  const int dim=c.boolean(.1) ? c.range(20,120) : c.range(1,14); const MatrixXcd M=modeState(c,dim); const double x=coordinate(c), y=coordinate(c); c.note("dim ",dim,", point ",x,",",y); c.nontrivial(dim>1);
  const auto rho=makeDO<1>({dim},M); const double tol=1e-10, q=qFunction(rho,x,y,0); c.near(q,qRef(M,x,y),tol,"Q function"); c.check(q>-tol && q<1+tol,"Q function ",q," outside [0,1]"); same(c,mat<1>(rho),M,0,"density operator afterwards");
  const VectorXcd v=data(c,dim); const auto psi=makeSV<1>({dim},v); c.near(qFunction(static_cast<const LDO<1>&>(psi),x,y,0),qRef(v*v.adjoint(),x,y),tol*(1+v.squaredNorm()),"Q function of a state vector");
  const double th=c.real(-4,4); MatrixXcd R=M; for (int m=0; m<dim; ++m) for (int n=0; n<dim; ++n) R(m,n)*=std::polar(1.,-th*(m-n)); const dcomp z=dcomp(x,y)*std::polar(1.,-th); c.near(qFunction(makeDO<1>({dim},R),z.real(),z.imag(),0),q,tol,"Q function of the rotated state at the rotated point");
}
VP_PROP("displaced-vacuum",800,8000,30) { // far from truncation: Gaussians around the amplitude
  const double r=c.boolean(.7) ? c.real(0,3) : c.real(0,5), f=c.real(-4,4); const dcomp a=std::polar(r,f); const int dim=int(r*r+10*r+12); const double x=a.real()+c.real(-2,2), y=a.imag()+c.real(-2,2); c.note("amplitude ",a,", dim ",dim,", point ",x,",",y); c.nontrivial(r>0);
  const VectorXcd v=coherentRef(a,dim); const auto rho=makeDO<1>({dim},MatrixXcd(v*v.adjoint())); const double d2=std::norm(dcomp(x,y)-a); c.near(qFunction(rho,x,y,0),std::exp(-d2),1e-8,"Q function of a coherent state"); c.near(W(rho,x,y),std::exp(-2*d2)/M_PI,1e-8,"Wigner function of a coherent state");
}
VP_PROP("husimi-large",60,300,60) { // amplitudes beyond the range of naive formulas; the Stirling formula is good to a few 1e-4 there
  const double r=c.real(10,34), f=c.real(-4,4); const dcomp a=std::polar(r,f); const int dim=std::min(1100,int(r*r+c.real(0,6)*r+2)); const double x=a.real()+c.real(-1,1), y=a.imag()+c.real(-1,1); c.note("amplitude ",a,", dim ",dim,", point ",x,",",y); c.nontrivial();
  const VectorXcd v=coherentRef(a,dim); const auto psi=makeSV<1>({dim},v); c.near(qFunction(static_cast<const LDO<1>&>(psi),x,y,0),qRef(v*v.adjoint(),x,y),2e-3,"Q function");
}
VP_PROP("scan",1500,15000,20) {
  parameters::Table table; quantumdata::ParsFunctionScan p(table); const int dim=c.range(1,8); const MatrixXcd M=modeState(c,dim); const auto rho=makeDO<1>({dim},M);
  p.fStep=c.pick(std::vector<double>{1,.5,.25,.3,.7,1.1}); const bool symX=c.boolean(), symY=c.boolean(); p.fLimitXUL=symX ? c.oneOf({.5,1.,1.75,2.}) : 0; p.fLimitYUL=symY ? c.oneOf({.5,1.,1.75,2.}) : 0;
  p.fLimitXL=c.oneOf({-1.,-2.,0.,.5}); p.fLimitXU=p.fLimitXL+c.oneOf({1.,0.,.55,2.2,-1.}); p.fLimitYL=c.oneOf({-1.,-2.,0.,.5}); p.fLimitYU=p.fLimitYL+c.oneOf({1.,0.,.55,2.2,-1.}); p.fCutoff=c.oneOf({100,0,1,2,3,5});
  const double XL=symX ? -p.fLimitXUL : p.fLimitXL, XU=symX ? p.fLimitXUL : p.fLimitXU, YL=symY ? -p.fLimitYUL : p.fLimitYL, YU=symY ? p.fLimitYUL : p.fLimitYU, h=p.fStep; const size_t cut=size_t(p.fCutoff);
  c.note("dim ",dim,", x ",XL,"..",XU,", y ",YL,"..",YU,", step ",h,", cutoff ",cut); std::ostringstream os; os.precision(16); const bool wig=c.boolean(); const DO<1> copy(rho);
  if (wig) quantumdata::scanFunction(&quantumdata::wignerFunction<DO<1>>,rho,os,p); else quantumdata::scanFunction(&quantumdata::qFunction<DO<1>>,rho,os,p);
  std::istringstream in(os.str()); std::string line; long i=0, j=0, blocks=0, total=0; std::vector<long> sizes;
  while (std::getline(in,line)) {
    if (line.find_first_not_of(" \t\r")==std::string::npos) {sizes.push_back(j); ++blocks; ++i; j=0; continue;}
    std::istringstream l(line); double x,y,v; std::string more; c.check(bool(l>>x>>y>>v) && !(l>>more),"line '",line,"' is not a point and a value"); c.near(x,XL+i*h,1e-10,"abscissa of line ",i,",",j); c.near(y,YL+j*h,1e-10,"ordinate of line ",i,",",j);
    c.check(x<XU+1e-9 && y<YU+1e-9,"point ",x,",",y," outside the requested region"); c.near(v,wig ? W(rho,x,y,cut) : qFunction(rho,x,y,cut),1e-9,"value at ",x,",",y); ++j; ++total;
  }
  const auto count=[&](double L, double U, long n, const char* what) {const double e=(U-L)/h; const long lo=std::max(0l,long(std::ceil(e-1e-9))), hi=std::max(0l,long(std::ceil(e+1e-9))); c.check(n>=lo && n<=hi,n," ",what," instead of ",lo);};
  c.check(j==0,"the last block is not terminated"); count(XL,XU,blocks,"blocks"); for (long n : sizes) count(YL,YU,n,"lines in a block"); c.nontrivial(total>1 && dim>1);
}
