#include "c05_common.h"
VP_PROP("expressions-unary",60000,600000,20) {tree<1>(c);}
VP_PROP("expressions-binary",40000,400000,20) {tree<2>(c);}

VP_PROP("refusals",5000,50000,10) {
  // inconsistent diagonals, unequal offsets, unequal instants, unequal frequencies
  const int n=c.range(3,8), k=c.range(1,n-2); auto v=[&](int m){return diag(gaussian(c,m));}; c.nontrivial(); auto refused=[&](auto f) {try {f();} catch (const std::exception&) {return true;} return false;};
  const int kind=c.range(0,5); c.note("n ",n,", k ",k,", kind ",kind); c.label("kind "+std::to_string(kind)); const int w=n-k+(c.boolean() ? 1 : -1)*c.range(1,2);
  if (kind==0) {const bool m=c.boolean(); c.check(w<1 || refused([&]{Tridiagonal<1>(v(n),k,m ? v(w) : Diag(),m ? Diag() : v(w));}),"off-diagonal of length ",w," accepted");}
  else if (kind==1) c.check(w<1 || refused([&]{Tridiagonal<1>(Diag(),k,v(n-k),v(w));}),"unequal off-diagonals accepted");
  else if (kind==2) c.check(refused([&]{Tridiagonal<1>(v(n),0,v(n),Diag());}) && refused([&]{Tridiagonal<1>(Diag(),0,Diag(),v(n));}),"off-diagonal of zero offset accepted");
  else if (kind==3) {Tridiagonal<1> a(Diag(),k,v(n-k),v(n-k)), b(Diag(),k+1,v(n-k-1),v(n-k-1)); c.check(refused([&]{a+=b;}),"sum of operators of unequal offsets accepted"); c.check(refused([&]{Tridiagonal<1> r(a-b);}),"difference of operators of unequal offsets accepted");}
  else if (kind==4) {Tridiagonal<1> a(v(n),k,v(n-k),v(n-k)), b(v(n),k,v(n-k),v(n-k)); a.furnishWithFreqs(v(n)); a.propagate(c.real(.1,1)); c.check(refused([&]{a*b;}) && refused([&]{b*a;}),"tensor product of operators at different instants accepted");}
  else {Tridiagonal<1> a(v(n),k,v(n-k),v(n-k)), b(v(n),k,v(n-k),v(n-k)); VectorXcd D=gaussian(c,n), E=D; for (int j=0; j<n; ++j) E(j)+=.3*(j+1)*(j+1); a.furnishWithFreqs(diag(D)); b.furnishWithFreqs(diag(E)); c.check(refused([&]{a+=b;}),"sum of operators of different frequencies accepted");}
}

VP_PROP("identity-and-diagonal",3000,30000,10) {
  const int n=c.range(1,9), m=c.range(2,6), k=c.range(1,m-1); c.nontrivial(n>1); c.note(n,"x",m); VectorXcd p=data(c,m-k), x=data(c,n*m), y=data(c,n*m); Tridiagonal<1> one=quantumoperator::identity(n), a(Diag(),k,Diag(),diag(p));
  MatrixXcd A=MatrixXcd::Zero(m,m); for (int i=0; i<m-k; ++i) A(i,i+k)=p(i);
  CArray<2> psi=viewOf<2>(c,{n,m},x), r=viewOf<2>(c,{n,m},y); (one*a).apply(psi,r); same(c,toVec<2>(r),VectorXcd(y+kron(MatrixXcd::Identity(n,n),A)*x),1e-11*(1+x.norm()*p.norm()+y.norm()),"identity times operator");
  CArray<2> psi2=viewOf<2>(c,{m,n},x), r2=viewOf<2>(c,{m,n},y); (a*one).apply(psi2,r2); same(c,toVec<2>(r2),VectorXcd(y+kron(A,MatrixXcd::Identity(n,n))*x),1e-11*(1+x.norm()*p.norm()+y.norm()),"operator times identity");
}

template<int R> void assignment(Ctx& c)
{
  const auto some=[&]{std::vector<Axis> ax; for (int i=0; i<R; ++i) ax.push_back(axis(c,R==1 ? 7 : 5)); const double t0=c.boolean(.4) ? c.real(-1.5,1.5) : 0.; return gen<R>(c,ax,t0,c.range(0,2));};
  auto a=some(); const auto b=some(); c.label("rank "+std::to_string(R)); c.nontrivial(a.m.M.size()!=b.m.M.size() || (a.m.M-b.m.M).norm()>0);
  const auto acts=[&](const Built<R>& x, const Tridiagonal<R>& t, const char* what) {std::vector<int> d; for (int i=0; i<R; ++i) d.push_back(int(t.getDimension(i))); c.check(prod(d)==x.m.M.rows(),what,": dimension"); const VectorXcd v=data(c,prod(d)); auto psi=makeSV<R>(d,v), r=makeSV<R>(d,VectorXcd::Zero(v.size())); t.apply(psi.getArray(),r.getArray()); same(c,vec<R>(r),VectorXcd(x.m.M*v),1e-11*(1+x.m.M.cwiseAbs().maxCoeff()*v.norm()),what);};
  if constexpr (R==1) if (c.boolean(.2)) {Tridiagonal<1> e; e=b.t; acts(b,e,"operator assigned to an empty one");}
  a.t=b.t; c.check(a.t.getTime()==b.t.getTime(),"time instant of the assigned operator"); acts(b,a.t,"assigned operator"); a.t*=2.; acts(b,b.t,"source of the assignment after the assigned operator was changed");
  Built<R> d=b; d.t=d.t; acts(b,d.t,"operator assigned to itself"); const double T=c.real(-1.5,1.5); d.t.propagate(T); d.m.propagate(T); acts(d,d.t,"assigned operator after propagation");
}
VP_PROP("assignment-unary",10000,100000,10) {assignment<1>(c);}
VP_PROP("assignment-binary",6000,60000,10) {assignment<2>(c);}

VP_KNOWN("known-partially-different-frequencies","C05-partial-frequency-mismatch",10) {
  // operators that differ in one of their frequencies only
  const int n=4; VectorXcd D(n), E(n); for (int i=0; i<n; ++i) E(i)=D(i)=dcomp(0,i); E(n-1)=dcomp(0,7); Diag o=diag(VectorXcd::Ones(n-1)); Tridiagonal<1> a(Diag(),1,o,o), b(Diag(),1,o,o); a.furnishWithFreqs(diag(D)); b.furnishWithFreqs(diag(E)); c.nontrivial();
  bool refused=false; try {a+=b;} catch (const std::exception&) {refused=true;} c.check(refused,"sum of two operators that differ in the last of their three frequencies accepted");
}
