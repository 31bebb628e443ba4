#include "qdata.h"
#include "LazyDensityOperatorFFT.h"
#include "FFT.tcc"
using namespace dense; using namespace fft; using tmptools::Vector;
using Fn=void(*)(Ctx&);

// plain discrete Fourier sum, forward with the negative exponent, and the centred unitary one: zero frequency and origin both at the middle of the grid
static MatrixXcd dft(int n, Direction d) {MatrixXcd m(n,n); for (int j=0; j<n; ++j) for (int k=0; k<n; ++k) m(j,k)=std::polar(1.,(d==DIR_XK ? -1 : 1)*2*M_PI*double((long(j)*k)%n)/n); return m;}
static MatrixXcd centred(int n, Direction d) {MatrixXcd m=dft(n,d)/std::sqrt(double(n)); for (int j=0; j<n; ++j) for (int k=0; k<n; ++k) if ((j+k)%2) m(j,k)*=-1.; return m;}

static int pow2(Ctx& c, int maxExp) {return 1<<c.range(0,maxExp);}
static Direction dir(Ctx& c) {return c.boolean() ? DIR_KX : DIR_XK;}
static CArray<1> strided(const VectorXcd& v, int st, std::vector<dcomp>& mem) {mem.assign(v.size()*st,dcomp(5,-7)); CArray<1> a(mem.data(),blitz::TinyVector<int,1>(int(v.size())),blitz::TinyVector<blitz::diffType,1>(st),blitz::neverDeleteData); fromVec<1>(a,v); return a;}
static void untouched(Ctx& c, const std::vector<dcomp>& m, int st) {for (size_t i=0; i<m.size(); ++i) if (i%st) c.check(m[i]==dcomp(5,-7),"element ",i," between the strided ones overwritten");}

VP_PROP("raw-transform",8000,80000,20) {
  const int n=pow2(c,9), st=c.boolean(.4) ? c.range(2,5) : 1; const Direction d=dir(c); VectorXcd x=data(c,n); c.note("length ",n,", stride ",st,d==DIR_XK ? ", forward" : ", backward"); c.nontrivial(n>1); c.label(n>32 ? "long" : "short"); std::vector<dcomp> mem; auto a=strided(x,st,mem); const double tol=1e-12*std::max(1.,x.lpNorm<1>());
  transform(a,d); const VectorXcd y=toVec<1>(a); same(c,y,VectorXcd(dft(n,d)*x),tol,"transform"); c.near(y.squaredNorm(),n*x.squaredNorm(),1e-11,"norm of the transform"); untouched(c,mem,st);
  c.check(reverse(d)!=d && reverse(reverse(d))==d,"reversal of the direction"); transform(a,reverse(d)); same(c,toVec<1>(a),VectorXcd(double(n)*x),tol*n,"transform there and back");
}
VP_PROP("state-vector-low-level",8000,80000,20) {
  const int n=pow2(c,9), st=c.boolean(.4) ? c.range(2,5) : 1; const Direction d=dir(c); VectorXcd x=data(c,n); c.note("length ",n,", stride ",st,d==DIR_XK ? ", forward" : ", backward"); c.nontrivial(n>1); std::vector<dcomp> mem; auto a=strided(x,st,mem); const double tol=1e-12*std::max(1.,x.lpNorm<1>());
  quantumdata::ffTransform(a,d); same(c,toVec<1>(a),VectorXcd(centred(n,d)*x),tol,"centred unitary transform"); c.near(toVec<1>(a).norm(),x.norm(),1e-12,"norm"); untouched(c,mem,st);
  quantumdata::ffTransform(a,reverse(d)); same(c,toVec<1>(a),x,tol,"there and back");
}
VP_PROP("matrix-low-level",4000,40000,20) {
  const int n=pow2(c,5); const Direction d=dir(c); MatrixXcd M=c.boolean() ? densityMatrix(c,n) : gaussianM(c,n,n); c.note("dim ",n); c.nontrivial(n>1); CArray<2> m(n,n); fromMat<2>(m,M); quantumdata::ffTransform(m,d); const MatrixXcd U=centred(n,d); same(c,toMat<2>(m),MatrixXcd(U*M*U.adjoint()),1e-11,"transform of a density matrix"); quantumdata::ffTransform(m,reverse(d)); same(c,toMat<2>(m),M,1e-11,"there and back");
}

template<int R, int... V> void lazy(Ctx& c)
{
  // transformed axes have power-of-two lengths, the others are arbitrary
  const std::vector<int> v{V...}; std::vector<int> d(R); long t=1; for (int i=0; i<R; ++i) {const bool in=std::find(v.begin(),v.end(),i)!=v.end(); d[i]=in ? pow2(c,R==1 ? 5 : R==2 ? 3 : 2) : c.range(1,3); t*=d[i];}
  const Direction dr=dir(c); c.note("dims ",show(d),", axes ",show(v),dr==DIR_XK ? ", forward" : ", backward"); c.label("rank "+std::to_string(R)); c.nontrivial(t>1); std::vector<int> dv; for (int i : v) dv.push_back(d[i]);
  MatrixXcd U=MatrixXcd::Identity(1,1); for (int i : v) U=kron(U,centred(d[i],dr)); const MatrixXcd W=embed(U,v,d);
  VectorXcd x=data(c,t); x/=x.norm(); const SV<R> psi=makeSV<R>(d,x); const auto q=quantumdata::ffTransform<Vector<V...>>(static_cast<const LDO<R>&>(psi),dr); const VectorXcd y=W*x; same(c,lazyMat<R>(*q),MatrixXcd(y*y.adjoint()),1e-11,"transform of a pure state");
  const auto* qs=dynamic_cast<const SV<R>*>(q.get()); c.check(qs,"transform of a pure state is not a pure state"); same(c,vec<R>(*qs),y,1e-11,"transformed amplitudes"); same(c,vec<R>(psi),x,0.,"original pure state afterwards");
  MatrixXcd M=densityMatrix(c,t); const DO<R> rho=makeDO<R>(d,M); const auto r=quantumdata::ffTransform<Vector<V...>>(static_cast<const LDO<R>&>(rho),dr); const MatrixXcd N=W*M*W.adjoint(); same(c,lazyMat<R>(*r),N,1e-11,"transform of a mixed state"); same(c,mat<R>(rho),M,0.,"original mixed state afterwards");
  const auto back=quantumdata::ffTransform<Vector<V...>>(*r,reverse(dr)); same(c,lazyMat<R>(*back),M,1e-11,"mixed state there and back");
}
VP_PROP("lazy-density-operators",6000,60000,30) {static const std::vector<Fn> f{&lazy<1,0>,&lazy<2,0>,&lazy<2,1>,&lazy<2,0,1>,&lazy<2,1,0>,&lazy<3,0>,&lazy<3,1>,&lazy<3,2>,&lazy<3,0,2>,&lazy<3,2,1>,&lazy<3,0,1,2>}; c.pick(f)(c);}

VP_PROP("unsupported-lengths-refused",600,6000,20) {
  int n=c.range(3,300); if (!(n&(n-1))) ++n; if (n==4) n=5; const Direction d=dir(c); c.note("length ",n); c.nontrivial(); auto refused=[&](auto f) {try {f();} catch (const std::exception&) {return true;} return false;};
  VectorXcd x=gaussian(c,n); CArray<1> a(n); fromVec<1>(a,x); c.check(refused([&]{transform(a,d);}),"raw transform accepted"); c.check(refused([&]{quantumdata::ffTransform(a,d);}),"state transform accepted");
  if (n<20) {CArray<2> m(n,n); m=1.; c.check(refused([&]{quantumdata::ffTransform(m,d);}),"matrix transform accepted"); const SV<2> psi=makeSV<2>({n,2},gaussian(c,2*n)); c.check(refused([&]{quantumdata::ffTransform<Vector<1,0>>(static_cast<const LDO<2>&>(psi),d);}),"transform of a two-partite state accepted");}
}
