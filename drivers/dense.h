// Dense reference arithmetic (Eigen) and generators shared by the drivers. Uses nothing of /repo but the array type.
#pragma once
#include "vpbt.h"
#include "BlitzArray.h"
#include <Eigen/Dense>
#include <numeric>
#include <vector>

using Eigen::MatrixXcd; using Eigen::VectorXcd; using Eigen::MatrixXd; using Eigen::VectorXd;
using vp::Ctx;

namespace dense {

struct Rng { // local generator seeded by one tape choice: bulk data does not blow up the tape
  std::uint64_t s; explicit Rng(std::uint64_t s) : s(s*0x9e3779b97f4a7c15ull+12345) {}
  std::uint64_t operator()() {s+=0x9e3779b97f4a7c15ull; std::uint64_t z=s; z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31);}
  double u() {return double((*this)()>>11)/9007199254740992.;}
  double g() {double a=1.-u(), b=u(); return std::sqrt(-2*std::log(a))*std::cos(2*M_PI*b);}
  dcomp cg() {double a=g(), b=g(); return {a,b};}
};

inline long prod(const std::vector<int>& d) {return std::accumulate(d.begin(),d.end(),1l,std::multiplies<long>());}
inline std::string show(const std::vector<int>& v) {std::ostringstream s; s<<"["; for (size_t i=0; i<v.size(); ++i) s<<(i ? "," : "")<<v[i]; s<<"]"; return s.str();}

inline std::vector<int> dims(Ctx& c, int rank, int maxTotal, int maxDim=6, int minDim=1)
{
  std::vector<int> d; long t=1;
  for (int i=0; i<rank; ++i) {
    long room=maxTotal/t; for (int k=i+1; k<rank; ++k) room/=std::max(1,minDim);
    int hi=int(std::max<long>(minDim,std::min<long>(maxDim,room)));
    d.push_back(c.range(minDim,hi)); t*=d.back();
  }
  // spread the large ones over all positions
  auto p=c.permutation(rank); std::vector<int> r(rank); for (int i=0; i<rank; ++i) r[i]=d[p[i]];
  return r;
}

// style 0: basis vector, 1: small integers, 2: gaussian, 3: gaussian of widely different magnitudes
inline VectorXcd data(Ctx& c, long n)
{
  const int style=int(c.choice(5)); Rng r(c.choice(1ull<<32)); VectorXcd v=VectorXcd::Zero(n);
  if (style==0) v(r()%n)=1.;
  else if (style==1) {for (long i=0; i<n; ++i) v(i)=dcomp(double(int(r()%7)-3),double(int(r()%7)-3)); if (v.norm()==0) v(0)=1.;}
  else if (style==4) for (long i=0; i<n; ++i) v(i)=r.cg()*std::pow(10.,3*(r.u()-.5));
  else for (long i=0; i<n; ++i) v(i)=r.cg();
  return v;
}
inline VectorXcd gaussian(Ctx& c, long n) {Rng r(c.choice(1ull<<32)); VectorXcd v(n); for (long i=0; i<n; ++i) v(i)=r.cg(); return v;}
inline MatrixXcd gaussianM(Ctx& c, long n, long m) {Rng r(c.choice(1ull<<32)); MatrixXcd v(n,m); for (long i=0; i<n; ++i) for (long j=0; j<m; ++j) v(i,j)=r.cg(); return v;}
inline MatrixXcd unitary(Ctx& c, long n) {MatrixXcd m=gaussianM(c,n,n); return Eigen::HouseholderQR<MatrixXcd>(m).householderQ()*MatrixXcd::Identity(n,n);}

// random density matrix of random mixing rank
inline MatrixXcd densityMatrix(Ctx& c, long n)
{
  const int k=c.range(1,int(std::min<long>(n,4))); MatrixXcd rho=MatrixXcd::Zero(n,n); double w=0;
  for (int i=0; i<k; ++i) {VectorXcd v=data(c,n); v/=v.norm(); double x=c.real(0.05,1.); rho+=x*v*v.adjoint(); w+=x;}
  return rho/w;
}

inline MatrixXcd kron(const MatrixXcd& a, const MatrixXcd& b)
{
  MatrixXcd r(a.rows()*b.rows(),a.cols()*b.cols());
  for (long i=0; i<a.rows(); ++i) for (long j=0; j<a.cols(); ++j) r.block(i*b.rows(),j*b.cols(),b.rows(),b.cols())=a(i,j)*b;
  return r;
}
inline VectorXcd kron(const VectorXcd& a, const VectorXcd& b) {VectorXcd r(a.size()*b.size()); for (long i=0; i<a.size(); ++i) r.segment(i*b.size(),b.size())=a(i)*b; return r;}

// row-major multi-index <-> flat
inline long flat(const std::vector<int>& idx, const std::vector<int>& d) {long f=0; for (size_t i=0; i<d.size(); ++i) f=f*d[i]+idx[i]; return f;}
inline std::vector<int> unflat(long f, const std::vector<int>& d) {std::vector<int> r(d.size()); for (int i=int(d.size())-1; i>=0; --i) {r[i]=int(f%d[i]); f/=d[i];} return r;}

// embeds op (acting on subsystems v, in that order) into the space of dimensions d
inline MatrixXcd embed(const MatrixXcd& op, const std::vector<int>& v, const std::vector<int>& d)
{
  const long n=prod(d); MatrixXcd r=MatrixXcd::Zero(n,n); std::vector<int> dv; for (int i : v) dv.push_back(d[i]); const long m=prod(dv);
  for (long j=0; j<n; ++j) {
    auto idx=unflat(j,d); std::vector<int> s; for (int i : v) s.push_back(idx[i]); const long col=flat(s,dv);
    for (long k=0; k<m; ++k) {auto t=unflat(k,dv); auto out=idx; for (size_t q=0; q<v.size(); ++q) out[v[q]]=t[q]; r(flat(out,d),j)+=op(k,col);}
  }
  return r;
}

// reduced density matrix retaining subsystems v in that order
inline MatrixXcd reduced(const MatrixXcd& rho, const std::vector<int>& v, const std::vector<int>& d)
{
  std::vector<int> dv; for (int i : v) dv.push_back(d[i]); const long m=prod(dv), n=prod(d); MatrixXcd r=MatrixXcd::Zero(m,m);
  for (long i=0; i<n; ++i) for (long j=0; j<n; ++j) {
    auto a=unflat(i,d), b=unflat(j,d); bool same=true;
    for (size_t k=0; k<d.size(); ++k) if (std::find(v.begin(),v.end(),int(k))==v.end() && a[k]!=b[k]) same=false;
    if (!same) continue;
    std::vector<int> x,y; for (int q : v) {x.push_back(a[q]); y.push_back(b[q]);}
    r(flat(x,dv),flat(y,dv))+=rho(i,j);
  }
  return r;
}

// matrix exponential by scaling and squaring of the Taylor series
inline MatrixXcd expm(MatrixXcd a)
{
  int s=0; double n=a.cwiseAbs().rowwise().sum().maxCoeff(); while (n>.25) {n/=2; ++s;} a/=std::ldexp(1.,s); MatrixXcd r=MatrixXcd::Identity(a.rows(),a.cols()), t=r; for (int k=1; k<20; ++k) {t=t*a/double(k); r+=t;} for (; s; --s) r=r*r; return r;
}

template<int R> blitz::TinyVector<int,R> tiny(const std::vector<int>& v) {blitz::TinyVector<int,R> t; for (int i=0; i<R; ++i) t(i)=v[i]; return t;}
template<int R> ExtTiny<R> ext(const std::vector<int>& v) {ExtTiny<R> t; for (int i=0; i<R; ++i) t(i)=v[i]; return t;}

// element-wise access through logical indices, whatever the storage
template<int R> VectorXcd toVec(const CArray<R>& a)
{
  std::vector<int> d; for (int i=0; i<R; ++i) d.push_back(a.extent(i)); VectorXcd v(prod(d));
  for (long f=0; f<v.size(); ++f) {auto t=tiny<R>(unflat(f,d)); for (int i=0; i<R; ++i) t(i)+=a.lbound(i); v(f)=a(t);} return v;
}
template<int R> void fromVec(CArray<R>& a, const VectorXcd& v)
{
  std::vector<int> d; for (int i=0; i<R; ++i) d.push_back(a.extent(i));
  for (long f=0; f<v.size(); ++f) {auto t=tiny<R>(unflat(f,d)); for (int i=0; i<R; ++i) t(i)+=a.lbound(i); a(t)=v(f);}
}
template<int R2> MatrixXcd toMat(const CArray<R2>& a)
{
  VectorXcd v=toVec(a); const long n=std::lround(std::sqrt(double(v.size()))); MatrixXcd m(n,n); for (long i=0; i<n; ++i) for (long j=0; j<n; ++j) m(i,j)=v(i*n+j); return m;
}
template<int R2> void fromMat(CArray<R2>& a, const MatrixXcd& m) {const long n=m.rows(); VectorXcd v(n*n); for (long i=0; i<n; ++i) for (long j=0; j<n; ++j) v(i*n+j)=m(i,j); fromVec(a,v);}

template<typename A, typename B, typename... N>
void same(Ctx& c, const A& got, const B& want, double tol, N&&... what)
{
  if (got.rows()!=want.rows() || got.cols()!=want.cols()) c.fail(what...," (shape ",got.rows(),"x",got.cols()," instead of ",want.rows(),"x",want.cols(),")");
  const double scale=std::max(1.,want.size() ? want.cwiseAbs().maxCoeff() : 0.);
  double worst=0; long wi=0,wj=0; bool bad=false;
  for (long i=0; i<got.rows(); ++i) for (long j=0; j<got.cols(); ++j) {const double d=std::abs(got(i,j)-want(i,j)); if (!(d<=tol*scale)) bad=true; if (!(d<=worst)) {worst=d; wi=i; wj=j;}}
  c.margin(worst/(tol*scale));
  if (bad) {std::ostringstream s; s.precision(12); (s<<...<<what); s<<": element ("<<wi<<","<<wj<<") is "<<got(wi,wj)<<", should be "<<want(wi,wj)<<" (|diff| "<<worst<<", allowed "<<tol*scale<<")"; throw vp::Fail{s.str()};}
}

} // dense
