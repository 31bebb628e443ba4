#include "c01_common.h"
using namespace c01;

template<int R> void mii(Ctx& c)
{
  std::vector<int> lo,up,d; for (int i=0; i<R; ++i) {lo.push_back(c.range(0,6)-3); d.push_back(c.range(1,R>4 ? 3 : 5)); up.push_back(lo[i]+d[i]-1);}
  const bool zero=c.boolean(.3); if (zero) for (int i=0; i<R; ++i) {up[i]-=lo[i]; lo[i]=0;}
  c.note("rank ",R," from ",show(lo)," to ",show(up)); const long n=prod(d); c.nontrivial(n>1); c.label("rank "+std::to_string(R));
  using I=cppqedutils::MultiIndexIterator<R>; namespace m=cppqedutils::mii;
  auto mk=[&](auto e) {return zero ? I(tiny<R>(up),e) : I(tiny<R>(lo),tiny<R>(up),e);};
  auto want=[&](long k) {auto w=unflat(k,d); for (int i=0; i<R; ++i) w[i]+=lo[i]; return w;};
  auto eq=[&](const auto& t, const std::vector<int>& w) {for (int i=0; i<R; ++i) if (t(i)!=w[i]) return false; return true;};
  long k=0; const I end=mk(m::end);
  for (I i=mk(m::begin); i!=end; ++i, ++k) {c.check(k<n,"runs past the end"); c.check(eq(*i,want(k)),"index tuple no. ",k," is ",*i," instead of ",show(want(k)));}
  c.check(k==n,k," index tuples instead of ",n);
  // restarting and comparing
  const long p=long(c.choice(n)), q=long(c.choice(n)); I a=mk(m::begin), b=mk(m::begin); for (long x=0; x<p; ++x) ++a; for (long x=0; x<q; ++x) b++;
  c.check((a==b)==(p==q),"positions ",p," and ",q," compare ",a==b); c.check(a.getBegin()==mk(m::begin) && a.getEnd()==end,"getBegin/getEnd from position ",p);
  c.check(eq(*a,want(p)),"getBegin/getEnd moved the iterator");
  a.setToBegin(); c.check(eq(*a,want(0)),"setToBegin gives ",*a); long r=0; for (; a!=a.getEnd(); ++a) ++r; c.check(r==n,"after setToBegin ",r," tuples"); a.setToBegin(); ++a; a.setToEnd(); c.check(a==end,"setToEnd");
}
VP_PROP("multi-index-counting",20000,300000,10) {
  static const std::vector<Fn> f{&mii<1>,&mii<2>,&mii<3>,&mii<4>,&mii<5>,&mii<6>}; c.pick(f)(c);
}

// rows and columns of multi-matrices as vectors
template<int R, typename LR> void vectors(Ctx& c)
{
  constexpr bool left=std::is_same_v<LR,blitzplusplus::vfmsi::Left>;
  auto d=dims(c,R,R>2 ? 18 : 24,R>2 ? 3 : 6); auto dd=d; dd.insert(dd.end(),d.begin(),d.end()); auto l=layout<dcomp,2*R>(c,dd); auto& a=l.view; const long n=prod(d);
  if (l.how=="shifted bases") a.reindexSelf(blitz::TinyVector<int,2*R>(0));
  VectorXcd v(n*n); for (long i=0; i<n*n; ++i) v(i)=dcomp(i,-i); fromVec(a,v); MatrixXcd m=toMat(a);
  c.note("arity ",R,", dims ",show(d),left ? ", from the left, " : ", from the right, ",l.how); c.nontrivial(n>1); c.label(left ? "left" : "right");
  long k=0; for (auto& s : blitzplusplus::vfmsi::fullRange<LR>(a)) {
    c.check(k<n,"more than ",n," vectors"); VectorXcd x=toVec(s), w= left ? VectorXcd(m.col(k)) : VectorXcd(m.row(k).transpose()); same(c,x,w,0,"vector no. ",k); ++k;
  }
  c.check(k==n,k," vectors instead of ",n);
  // composing with a matrix from the left/right
  MatrixXcd A=gaussianM(c,n,n); for (auto& s : blitzplusplus::vfmsi::fullRange<LR>(a)) {VectorXcd y=A*toVec(s); fromVec(s,y);}
  same(c,toMat(a),left ? MatrixXcd(A*m) : MatrixXcd(m*A.transpose()),1e-10,"composition with a matrix");
}
VP_PROP("matrix-as-vectors",3000,50000,10) {
  using namespace blitzplusplus::vfmsi; static const std::vector<Fn> f{&vectors<1,Left>,&vectors<1,Right>,&vectors<2,Left>,&vectors<2,Right>,&vectors<3,Left>,&vectors<3,Right>}; c.pick(f)(c);
}
