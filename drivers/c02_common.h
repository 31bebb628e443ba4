#pragma once
#include "qdata.h"
namespace c02 {
using namespace dense;
using Fn=void(*)(Ctx&);

template<int R, int... V> void trace(Ctx& c)
{
  constexpr int K=sizeof...(V); using Vec=tmptools::Vector<V...>; const std::vector<int> v{V...};
  auto d=dims(c,R,R>3 ? 48 : 36,5); const long n=prod(d); std::vector<int> dv; for (int i : v) dv.push_back(d[i]); const long m=prod(dv);
  c.note("rank ",R,", dims ",show(d),", retained ",show(v)); c.nontrivial(m>1 && (m<n || K==R)); c.label("rank "+std::to_string(R));
  VectorXcd x=data(c,n); if (c.boolean(.7)) x/=x.norm(); const bool mixed=c.boolean();
  const SV<R> psi=makeSV<R>(d,x); const MatrixXcd pure=x*x.adjoint(); const MatrixXcd rhoM=mixed ? densityMatrix(c,n) : pure; const DO<R> rho=makeDO<R>(d,rhoM);
  const double tol=1e-11*std::max(1.,pure.norm());
  const MatrixXcd wantP=reduced(pure,v,d), wantR=reduced(rhoM,v,d);
  // reduced density operators, directly
  auto rr=quantumdata::reduce<Vec>(rho); same(c,mat<K>(rr),wantR,tol,"reduced density operator of a density operator");
  for (int k=0; k<K; ++k) c.check(rr.getDimension(k)==dv[k],"dimension ",k," of the reduced density operator is ",rr.getDimension(k));
  auto rl=quantumdata::reduce<Vec>(static_cast<const LDO<R>&>(rho)); same(c,mat<K>(rl),wantR,tol,"reduced density operator via the lazy interface");
  auto rp=quantumdata::reduce<Vec>(psi); same(c,mat<K>(rp),wantP,tol,"reduced density operator of a state vector");
  c.near(rp.norm(),x.squaredNorm(),1e-10,"trace of the reduced density operator");
  // an arbitrary linear functional, through the lazy interface
  const MatrixXcd w=gaussianM(c,m,m);
  long calls=0; double shape=0;
  auto functional=[&](const LDO<K>& s) -> dcomp {++calls; for (int k=0; k<K; ++k) if (s.getDimension(k)!=size_t(dv[k])) shape=1; return (w.transpose().cwiseProduct(lazyMat<K>(s))).sum();};
  auto want=[&](const MatrixXcd& r) {return (w.transpose().cwiseProduct(r)).sum();};
  const dcomp fp=quantumdata::partialTrace<Vec>(static_cast<const LDO<R>&>(psi),functional); c.check(calls==n/m,"functional called ",calls," times instead of ",n/m); c.check(!shape,"functional saw wrong dimensions");
  c.near(fp,want(wantP),tol*100,"linear functional of a state vector");
  calls=0; const dcomp fr=quantumdata::partialTrace<Vec>(static_cast<const LDO<R>&>(rho),functional); c.check(calls==n/m,"functional called ",calls," times instead of ",n/m);
  c.near(fr,want(wantR),tol*100,"linear functional of a density operator");
  // an array-valued functional (what averages do)
  auto arr=[&](const LDO<K>& s) {return DArray<1>(quantumdata::deflate(s,true));};
  const DArray<1> ap=quantumdata::partialTrace<Vec>(static_cast<const LDO<R>&>(psi),arr), ar=quantumdata::partialTrace<Vec>(static_cast<const LDO<R>&>(rho),arr);
  c.check(ap.extent(0)==m*m && ar.extent(0)==m*m,"flattened length ",ap.extent(0)," instead of ",m*m);
  for (int which=0; which<2; ++which) {
    const MatrixXcd& r=which ? wantR : wantP; const DArray<1>& a=which ? ar : ap; long k=0;
    for (long i=0; i<m; ++i) c.near(a(int(k++)),r(i,i).real(),tol,"flattened diagonal ",i);
    for (long i=0; i<m; ++i) for (long j=i+1; j<m; ++j) {c.near(a(int(k++)),r(i,j).real(),tol,"flattened real part ",i,",",j); c.near(a(int(k++)),r(i,j).imag(),tol,"flattened imaginary part ",i,",",j);}
  }
  // the arguments are untouched
  same(c,vec<R>(psi),x,0,"state vector after tracing"); same(c,mat<R>(rho),rhoM,0,"density operator after tracing");
}
} // c02
