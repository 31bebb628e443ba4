// reference model of a tensor product of multi-diagonal operators: dense matrix + vector of free-evolution exponents
#pragma once
#include "qdata.h"
#include "TridiagonalHamiltonian.h"
#include <list>
using namespace dense;
using quantumoperator::Tridiagonal;
using Fn=void(*)(Ctx&);
typedef CArray<1> Diag;

struct Axis {int n, k; bool freq; VectorXcd D;};
struct Model {MatrixXcd M; VectorXcd D; double t;
  void propagate(double T) {for (long i=0; i<M.rows(); ++i) for (long j=0; j<M.cols(); ++j) M(i,j)*=std::exp((T-t)*(D(i)-D(j))); t=T;}};

inline Diag diag(const VectorXcd& v) {Diag d(int(v.size())); for (long i=0; i<v.size(); ++i) d(int(i))=v(i); return d;}

inline Axis axis(Ctx& c, int maxDim)
{
  Axis a; a.n=c.range(2,maxDim); a.k=c.range(1,a.n-1); a.freq=c.boolean(.6); a.D=VectorXcd::Zero(a.n);
  if (a.freq) {const int style=int(c.choice(3)); Rng r(c.choice(1ull<<32)); for (int i=0; i<a.n; ++i) { // multiples of 1/64: sums of frequencies are exact in any order of association
    auto q=[&](double s) {return std::round(64*s*r.g())/64;}; a.D(i)=style==0 ? dcomp(0,i) : style==1 ? dcomp(0,q(2)) : dcomp(q(.4),q(2));}}
  c.note("axis dim ",a.n," offset ",a.k,a.freq ? " with frequencies" : "");
  return a;
}

template<int R> struct Built {Tridiagonal<R> t; Model m;};

inline Built<1> leaf(Ctx& c, const Axis& a)
{
  // which diagonals are present; toFreqs needs the main diagonal for the frequencies
  const int mask=c.range(1,7); const bool z=mask&1, mi=mask&2, pl=mask&4; const int n=a.n, k=a.k; VectorXcd zv=z ? data(c,n) : VectorXcd(), mv=mi ? data(c,n-k) : VectorXcd(), pv=pl ? data(c,n-k) : VectorXcd();
  MatrixXcd M=MatrixXcd::Zero(n,n); for (int i=0; i<n-k; ++i) {if (mi) M(i+k,i)=mv(i); if (pl) M(i,i+k)=pv(i);}
  Model m{M,a.D,0.}; const bool off=mi||pl;
  auto withMain=[&]{for (int i=0; i<n; ++i) if (z) m.M(i,i)+=zv(i);};
  if (!off) {withMain(); return {Tridiagonal<1>(diag(zv),c.boolean() ? k : 0),m};} // purely diagonal
  if (!a.freq) {withMain(); return {Tridiagonal<1>(diag(zv),k,diag(mv),diag(pv)),m};}
  const int how=c.range(0,2);
  if (how==0) return {Tridiagonal<1>(diag(VectorXcd(-a.D)),k,diag(mv),diag(pv),true),m};
  withMain(); Tridiagonal<1> t(diag(zv),k,diag(mv),diag(pv)); const Diag D=diag(a.D);
  if (how==1) {t.furnishWithFreqs(D); return {t,m};} return {quantumoperator::furnishWithFreqs<1>(t,D),m};
}

template<int R> Built<R> gen(Ctx& c, const std::vector<Axis>& ax, double t0, int depth);

template<int R1, int R2> Built<R1+R2> product(Ctx& c, const std::vector<Axis>& ax, double t0, int depth)
{
  auto a=gen<R1>(c,{ax.begin(),ax.begin()+R1},t0,depth-1); auto b=gen<R2>(c,{ax.begin()+R1,ax.end()},t0,depth-1);
  VectorXcd D(a.m.D.size()*b.m.D.size()); for (long i=0; i<a.m.D.size(); ++i) for (long j=0; j<b.m.D.size(); ++j) D(i*b.m.D.size()+j)=a.m.D(i)+b.m.D(j);
  return {a.t*b.t,Model{kron(a.m.M,b.m.M),D,t0}};
}

template<int R> Built<R> gen(Ctx& c, const std::vector<Axis>& ax, double t0, int depth)
{
  // operators of a sum and the factors of a product have to refer to the same instant
  if (t0!=0 && c.boolean(.5)) {auto b=gen<R>(c,ax,0.,depth); if (c.boolean()) {const double u=c.real(-1.5,1.5); b.t.propagate(u);} b.t.propagate(t0); b.m.propagate(t0); return b;}
  const int op=depth>0 ? c.range(0,9) : 0; const dcomp s=c.cplx(2.);
  auto sub=[&]{return gen<R>(c,ax,t0,depth-1);};
  switch (op) {
  case 1: {auto a=sub(); a.t*=s; a.m.M*=s; return a;}
  case 2: {auto a=sub(); Tridiagonal<R> r(s*a.t); a.m.M*=s; return {r,a.m};}
  case 3: {auto a=sub(); const dcomp q=std::abs(s)<.1 ? dcomp(0,1) : s; Tridiagonal<R> r(a.t/q); a.m.M/=q; return {r,a.m};}
  case 4: {auto a=sub(); a.m.M*=-s.real(); Tridiagonal<R> r(-a.t*s.real()); return {r,a.m};}
  case 5: {auto a=sub(); a.m.M=a.m.M.adjoint().eval(); return {c.boolean() ? a.t.dagger() : a.t.hermitianConjugate(),a.m};}
  case 6: {auto a=sub(); auto b=sub(); a.m.M+=b.m.M; if (c.boolean()) {a.t+=b.t; return a;} Tridiagonal<R> r(a.t+b.t); return {r,a.m};}
  case 7: {auto a=sub(); auto b=sub(); a.m.M-=b.m.M; if (c.boolean()) {a.t-=b.t; return a;} Tridiagonal<R> r(a.t-b.t); return {r,a.m};}
  case 8: {auto a=sub(); a.m.M-=a.m.M.adjoint().eval(); return {quantumoperator::tridiagMinusHC(a.t),a.m};}
  case 9: {auto a=sub(); const bool i=c.boolean(); a.m.M+=a.m.M.adjoint().eval(); if (i) {a.m.M/=dcomp(0,1); return {quantumoperator::tridiagPlusHC_overI(a.t),a.m};} return {quantumoperator::tridiagPlusHC(a.t),a.m};}
  }
  if constexpr (R==1) {auto a=leaf(c,ax[0]); a.t.propagate(t0); a.m.propagate(t0); return a;}
  else if constexpr (R==2) return product<1,1>(c,ax,t0,depth);
  else if constexpr (R==3) {if (c.boolean()) return product<2,1>(c,ax,t0,depth); return product<1,2>(c,ax,t0,depth);}
  else {switch (c.choice(3)) {case 0: return product<2,2>(c,ax,t0,depth); case 1: return product<1,3>(c,ax,t0,depth); default: return product<3,1>(c,ax,t0,depth);}}
}

// an array of the given extents, perhaps a window of a larger or differently stored one
template<int R> CArray<R> viewOf(Ctx& c, const std::vector<int>& d, const VectorXcd& v)
{
  const int step=c.boolean(.3) ? 3 : 1; auto p=c.boolean(.3) ? c.permutation(R) : [&]{std::vector<int> q(R); std::iota(q.begin(),q.end(),0); return q;}();
  static std::list<std::vector<dcomp>> keep; keep.emplace_back(v.size()*step,dcomp(77,-77)); if (keep.size()>64) keep.pop_front();
  blitz::TinyVector<int,R> sh; blitz::TinyVector<blitz::diffType,R> st; long s=step; for (int i=R-1; i>=0; --i) {st(p[i])=s; s*=d[p[i]];} for (int i=0; i<R; ++i) sh(i)=d[i];
  CArray<R> a(keep.back().data(),sh,st,blitz::neverDeleteData); fromVec<R>(a,v); return a;
}

template<int R> void tree(Ctx& c)
{
  std::vector<Axis> ax; std::vector<int> d; for (int i=0; i<R; ++i) {ax.push_back(axis(c,R==1 ? 9 : R==2 ? 6 : R==3 ? 4 : 3)); d.push_back(ax.back().n);}
  const double t0=c.boolean(.4) ? c.real(-1.5,1.5) : 0.; auto b=gen<R>(c,ax,t0,R>2 ? c.range(0,3) : c.range(0,4)); const long n=prod(d); c.note("rank ",R,", time ",t0," "); c.label("rank "+std::to_string(R));
  c.nontrivial((b.m.M-MatrixXcd(b.m.M.diagonal().asDiagonal())).norm()>0);
  for (int i=0; i<R; ++i) c.check(b.t.getDimension(i)==size_t(d[i]),"dimension ",i); c.check(b.t.getTotalDimension()==size_t(n),"total dimension"); c.check(b.t.getTime()==t0,"time instant");
  auto act=[&](const char* what) {VectorXcd x=data(c,n), y=data(c,n); const CArray<R> psi=viewOf<R>(c,d,x); CArray<R> dpsi=viewOf<R>(c,d,y); if (c.boolean()) b.t.apply(psi,dpsi); else quantumoperator::apply<R>(psi,dpsi,b.t); const double s=1e-11*std::max(1.,(b.m.M.cwiseAbs().maxCoeff())*x.norm()+y.norm()); same(c,toVec<R>(dpsi),VectorXcd(y+b.m.M*x),s,what); same(c,toVec<R>(psi),x,0.,"operand afterwards");};
  act("operator applied");
  const int k=c.range(0,3); for (int i=0; i<k; ++i) {const double T=c.real(-1.5,1.5); b.t.propagate(T); b.m.propagate(T); c.check(b.t.getTime()==T,"time instant after propagation"); act("operator applied after propagation");}
  { Tridiagonal<R> copy(b.t); copy.propagate(t0+.7); copy*=3.; act("operator after its copy was changed"); }
}
