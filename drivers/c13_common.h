// Averages against dense expectation values
#pragma once
#include "systems.h"
#include "Structure.h"

using namespace sys;
using Quantities=std::vector<std::pair<std::string,double>>; // label, value
inline dcomp ev(const MatrixXcd& o, const MatrixXcd& rho) {return (o*rho).trace();}
inline std::vector<double> fromAvr(const structure::Averages& a) {std::vector<double> v; for (int i=0; i<a.extent(0); ++i) v.push_back(a(i+a.lbound(0))); return v;}

inline Quantities ofMode(const MatrixXcd& rho, bool quad=false, bool cutoff=false)
{
  const int n=int(rho.rows()); const MatrixXcd a=destroy(n), N=number(n); const double m=ev(N,rho).real(), v=ev(N*N,rho).real()-m*m; const dcomp f=ev(a,rho), s=ev(a*a,rho); Quantities q{{"<number operator>",m},{"VAR(number operator)",v},{"real(<ladder operator>)",f.real()},{"imag(\")",f.imag()}};
  if (quad) {q.push_back({"VAR(X)",m+.5+s.real()-2*f.real()*f.real()}); q.push_back({"VAR(Y)",m+.5-s.real()-2*f.imag()*f.imag()}); q.push_back({"COV(X,Y)",s.imag()-2*f.real()*f.imag()});}
  if (cutoff) q.push_back({"|Psi(cutoff-1)|^2",rho(n-1,n-1).real()}); return q;
}
inline Quantities ofQbit(const MatrixXcd& r) {return {{"rho00",r(0,0).real()},{"rho11",r(1,1).real()},{"real(rho10=<sigma>)",r(1,0).real()},{"imag(\")",r(1,0).imag()}};}
inline Quantities ofSpin(const MatrixXcd& r, int twoS) {const int n=int(r.rows()); const MatrixXcd Z=sz(n,twoS), P=splus(n,twoS); const double z=ev(Z,r).real(); const dcomp p=ev(P,r); return {{"<sz>",z},{"VAR(sz)",ev(Z*Z,r).real()-z*z},{"real(<s^+>)",p.real()},{"imag(\")",p.imag()},{"|Psi(dim-1)|^2",r(n-1,n-1).real()}};}
inline Quantities ofParticle(const MatrixXcd& r)
{
  const int n=int(r.rows()); double p=0, p2=0, x1=0, x2=0; for (int i=0; i<n; ++i) {const double k=i-n/2, d=r(i,i).real(); p+=k*d; p2+=k*k*d; const double x=2*M_PI*i/n-M_PI; VectorXcd w(n); for (int j=0; j<n; ++j) w(j)=std::exp(dcomp(0,x*(j-n/2)))/std::sqrt(double(n)); const double q=(w.transpose()*r*w.conjugate())(0).real(); x1+=x*q; x2+=x*x*q;}
  return {{"<P>",p},{"VAR(P)",p2-p*p},{"<X>",x1},{"DEV(X)",std::sqrt(std::max(0.,x2-x1*x1))}};
}
inline Quantities ofMatrix(const MatrixXcd& r, const std::vector<int>& d, bool off)
{
  const int n=int(r.rows()); Quantities q; auto nm=[&](int i){std::ostringstream s; const auto x=unflat(i,d); if (d.size()==1) {blitz::TinyVector<int,1> t(x[0]); s<<t;} else if (d.size()==2) s<<blitz::TinyVector<int,2>(x[0],x[1]); else s<<blitz::TinyVector<int,3>(x[0],x[1],x[2]); return s.str();};
  for (int i=0; i<n; ++i) q.push_back({"rho_"+nm(i)+";"+nm(i),r(i,i).real()}); if (off) for (int i=0; i<n; ++i) for (int j=i+1; j<n; ++j) {q.push_back({"real[rho_"+nm(i)+";"+nm(j)+"]",r(i,j).real()}); q.push_back({"imag[rho_"+nm(i)+";"+nm(j)+"]",r(i,j).imag()});} return q;
}
inline void prefix(Quantities& q, const std::string& a, const std::string& b) {for (auto& x : q) {const auto p=x.first.find(a); if (p!=std::string::npos) x.first.replace(p,a.size(),b);}}

// everything said about averages: number, legend, values after processing, pure state versus projector, linearity before processing, streamed text
template<int R, typename REF> void averages(Ctx& c, std::shared_ptr<const structure::Averaged<R>> av, const std::vector<int>& d, REF&& ref, double t=0, bool sqrtLast=false)
{
  const long n=prod(d); c.check(bool(av),"no averages"); VectorXcd x=data(c,n); x/=x.norm(); const MatrixXcd pure=x*x.adjoint(), rho=densityMatrix(c,n), sig=densityMatrix(c,n); const auto P=makeSV<R>(d,x); const auto PD=makeDO<R>(d,pure), D=makeDO<R>(d,rho), S=makeDO<R>(d,sig); const double a=c.real(0.,1.); const MatrixXcd mix=a*rho+(1-a)*sig;
  const auto rp=fromAvr(av->average(t,P)), rpd=fromAvr(av->average(t,PD)), r=fromAvr(av->average(t,D)), s=fromAvr(av->average(t,S)), m=fromAvr(av->average(t,makeDO<R>(d,mix))); const size_t N=av->nAvr(); c.check(r.size()==N && rp.size()==N,"number of averages returned");
  for (size_t i=0; i<N; ++i) {c.near(rp[i],rpd[i],1e-10,"average ",i," of a pure state compared with its projector"); c.near(m[i],a*r[i]+(1-a)*s[i],1e-10,"linearity of average ",i);}
  for (int k=0; k<2; ++k) {
    const Quantities q=ref(k ? rho : pure); c.check(q.size()==N,"number of averages ",N," instead of ",q.size()); const int prec=c.range(4,12); std::ostringstream o; auto [os,got]=k ? structure::stream<R>(av,t,D,o,prec) : structure::stream<R>(av,t,P,o,prec); const auto g=fromAvr(got);
    for (size_t i=0; i<N; ++i) {const double tol=sqrtLast && q[i].first=="DEV(X)" ? std::min(1e-6,1e-9/std::max(1e-12,q[i].second)) : 1e-9; c.near(g[i],q[i].second,tol,"average ",i," (",q[i].first,")",k ? " of a mixed state" : " of a pure state");}
    std::istringstream in(o.str()); for (size_t i=0; i<N; ++i) {double v; c.check(bool(in>>v),"streamed text '",o.str(),"' ends before average ",i); c.check(std::abs(v-g[i])<=2*std::pow(10.,1-prec)*std::abs(g[i])+1e-300,"streamed value ",v," of average ",g[i]," at precision ",prec);} std::string rest; c.check(!(in>>rest),"streamed text has more than the averages: '",o.str(),"'");
  }
  {std::ostringstream o; size_t i=7; av->streamKey(o,i); c.check(i==7+N,"ordinal after the legend ",i); const Quantities q=ref(rho); const std::string text=o.str(); size_t at=0; for (size_t k=0; k<N; ++k) {std::ostringstream l; l<<7+k<<". "; const auto f=text.find(l.str(),at); c.check(f!=std::string::npos,"legend lacks '",l.str(),"': ",text); const auto e=text.find('\n',f); const std::string line=text.substr(f,e-f); c.check(line.find(q[k].first)!=std::string::npos,"legend of average ",k," is '",line,"', should be ",q[k].first); at=e;}}
}
