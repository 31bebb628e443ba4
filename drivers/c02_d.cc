#include "c02_common.h"
using namespace c02;
template<int R> void lazy(Ctx& c)
{
  auto d=dims(c,R,24,5); const long n=prod(d); VectorXcd x=data(c,n); if (c.boolean(.4)) x/=x.norm(); const MatrixXcd P=x*x.adjoint(); const double tol=1e-12*std::max(1.,P.norm());
  c.note("rank ",R,", dims ",show(d),", norm ",x.norm()); c.nontrivial(n>1); c.label("rank "+std::to_string(R));
  const SV<R> psi=makeSV<R>(d,x); const DO<R> rho(psi); const LDO<R> &lp=psi, &lr=rho;
  same(c,mat<R>(rho),P,tol,"projector"); same(c,lazyMat<R>(lp),P,tol,"lazy matrix elements of a state vector"); same(c,lazyMat<R>(lr),P,tol,"lazy matrix elements of a density operator");
  same(c,lazyDiag<R>(lp),P.diagonal().real(),tol,"lazy diagonal of a state vector"); same(c,lazyDiag<R>(lr),P.diagonal().real(),tol,"lazy diagonal of a density operator");
  c.check(lp.getTotalDimension()==size_t(n) && lr.getTotalDimension()==size_t(n),"total dimension"); for (int i=0; i<R; ++i) c.check(lp.getDimension(i)==size_t(d[i]) && lr.getDimension(i)==size_t(d[i]),"dimension ",i);
  c.near(lr.trace(),x.squaredNorm(),1e-11,"trace of the projector"); c.near(lp.trace(),x.squaredNorm(),1e-11,"trace of the pure state");
  // any Hermitian operator may be looked at lazily, one with negative diagonal elements just as well
  {MatrixXcd H=gaussianM(c,n,n); H=MatrixXcd(H+H.adjoint()); const DO<R> h=makeDO<R>(d,H); const LDO<R>& l=h; same(c,lazyMat<R>(l),H,0,"lazy matrix elements of an operator"); same(c,lazyDiag<R>(l),H.diagonal().real(),0,"lazy diagonal of an operator"); c.near(l.trace(),H.trace().real(),1e-11,"trace of an operator");}
  // deep copy into a density operator
  same(c,mat<R>(quantumdata::densityOperatorize(lp)),P,tol,"conversion of a state vector to a density operator");
  const MatrixXcd M=densityMatrix(c,n); const DO<R> mixed=makeDO<R>(d,M); auto conv=quantumdata::densityOperatorize(static_cast<const LDO<R>&>(mixed)); same(c,mat<R>(conv),M,1e-13,"conversion of a density operator"); conv.getArray()=0; same(c,mat<R>(mixed),M,0,"conversion must not share data");
  // flatten and inflate
  const bool off=c.boolean(.7); const auto fp=quantumdata::deflate(lp,off), fr=quantumdata::deflate(lr,off), fm=quantumdata::deflate(static_cast<const LDO<R>&>(mixed),off);
  c.check(fp.extent(0)==(off ? n*n : n) && fm.extent(0)==(off ? n*n : n),"flattened length ",fp.extent(0));
  for (int i=0; i<fp.extent(0); ++i) c.near(fp(i),fr(i),tol,"flattened element ",i," of a state and its projector");
  for (long i=0; i<n; ++i) c.near(fm(int(i)),M(i,i).real(),1e-13,"flattened diagonal ",i);
  if (off) {int k=int(n); for (long i=0; i<n; ++i) for (long j=i+1; j<n; ++j) {c.near(fm(k++),M(i,j).real(),1e-13,"flattened real part (",i,",",j,")"); c.near(fm(k++),M(i,j).imag(),1e-13,"flattened imaginary part (",i,",",j,")");}}
  DO<R> back(ext<R>(d)); const bool dirty=c.boolean(); MatrixXcd before=MatrixXcd::Zero(n,n); if (dirty) {before=densityMatrix(c,n); fromMat<2*R>(back.getArray(),before);}
  quantumdata::inflate(fm,back,off); MatrixXcd wantB=M; if (!off) {wantB=before; wantB.diagonal()=M.diagonal();}
  same(c,mat<R>(back),wantB,1e-13,"inflating a flattened density operator");
}
VP_PROP("lazy-interface",20000,200000,20) {static const std::vector<Fn> f{&lazy<1>,&lazy<2>,&lazy<3>,&lazy<4>}; c.pick(f)(c);}

// slices of state vectors and density operators reference the original
template<int R, int... V> void slicesOf(Ctx& c)
{
  constexpr int K=sizeof...(V); using Vec=tmptools::Vector<V...>; const std::vector<int> v{V...}; auto d=dims(c,R,24,4); const long n=prod(d); std::vector<int> dv,dd,dummy; for (int i : v) dv.push_back(d[i]);
  for (int i=0; i<R; ++i) if (std::find(v.begin(),v.end(),i)==v.end()) {dummy.push_back(i); dd.push_back(d[i]);} const long m=prod(dv);
  c.note("rank ",R,", dims ",show(d),", retained ",show(v)); c.nontrivial(m>1 && m<n);
  namespace si=cppqedutils::sliceiterator; VectorXcd x=data(c,n); SV<R> psi=makeSV<R>(d,x); MatrixXcd M=gaussianM(c,n,n); DO<R> rho=makeDO<R>(d,M);
  long k=0; for (auto& s : si::fullRange<Vec,quantumdata::StateVector>(psi)) {
    auto fix=unflat(k,dd); VectorXcd w(m); for (long f=0; f<m; ++f) {auto r=unflat(f,dv); std::vector<int> full(R); for (int q=0; q<K; ++q) full[v[q]]=r[q]; for (size_t q=0; q<dummy.size(); ++q) full[dummy[q]]=fix[q]; w(f)=x(flat(full,d));}
    same(c,vec<K>(s),w,0,"state-vector slice ",k); c.near(s.norm(),w.norm(),1e-12,"norm of slice ",k); ++k;
  }
  c.check(k==n/m,k," slices");
  k=0; for (auto& s : si::fullRange<Vec,quantumdata::DensityOperator>(rho)) {
    auto fix=unflat(k,dd); MatrixXcd w(m,m); for (long f=0; f<m; ++f) for (long g=0; g<m; ++g) {auto r=unflat(f,dv), t=unflat(g,dv); std::vector<int> a(R),b(R); for (int q=0; q<K; ++q) {a[v[q]]=r[q]; b[v[q]]=t[q];} for (size_t q=0; q<dummy.size(); ++q) a[dummy[q]]=b[dummy[q]]=fix[q]; w(f,g)=M(flat(a,d),flat(b,d));}
    same(c,mat<K>(s),w,0,"density-operator slice ",k); ++k;
  }
  c.check(k==n/m,k," density-operator slices");
}
VP_PROP("state-slices",10000,100000,20) {static const std::vector<Fn> f{&slicesOf<2,0>,&slicesOf<2,1>,&slicesOf<3,1>,&slicesOf<3,2,0>,&slicesOf<3,0,1>,&slicesOf<4,3,1>,&slicesOf<4,0,2,1>}; c.pick(f)(c);}
