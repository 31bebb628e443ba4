// conversions between dense reference objects and the framework's quantum data
#pragma once
#include "dense.h"
#include "StateVector.h"
#include "DensityOperator.h"

namespace dense {
template<int R> using SV=quantumdata::StateVector<R>;
template<int R> using DO=quantumdata::DensityOperator<R>;
template<int R> using LDO=quantumdata::LazyDensityOperator<R>;

template<int R> SV<R> makeSV(const std::vector<int>& d, const VectorXcd& v) {SV<R> r(ext<R>(d)); fromVec<R>(r.getArray(),v); return r;}
template<int R> DO<R> makeDO(const std::vector<int>& d, const MatrixXcd& m) {DO<R> r(ext<R>(d)); fromMat<2*R>(r.getArray(),m); return r;}
template<int R> VectorXcd vec(const SV<R>& p) {return toVec<R>(p.getArray());}
template<int R> MatrixXcd mat(const DO<R>& p) {return toMat<2*R>(p.getArray());}
// through the lazy interface only
template<int R> MatrixXcd lazyMat(const LDO<R>& m)
{
  std::vector<int> d; for (int i=0; i<R; ++i) d.push_back(int(m.getDimension(i))); const long n=prod(d); MatrixXcd r(n,n);
  for (long i=0; i<n; ++i) for (long j=0; j<n; ++j) {IdxTiny<R> a,b; auto x=unflat(i,d), y=unflat(j,d); for (int k=0; k<R; ++k) {a(k)=x[k]; b(k)=y[k];} r(i,j)=m(a)(b);}
  return r;
}
template<int R> VectorXd lazyDiag(const LDO<R>& m)
{
  std::vector<int> d; for (int i=0; i<R; ++i) d.push_back(int(m.getDimension(i))); const long n=prod(d); VectorXd r(n);
  for (long i=0; i<n; ++i) {IdxTiny<R> a; auto x=unflat(i,d); for (int k=0; k<R; ++k) a(k)=x[k]; r(i)=double(m(a));}
  return r;
}
} // dense
