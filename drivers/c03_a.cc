#include "qdata.h"
#include "ComplexArrayExtensions.h"
#include <list>
#include <memory>
using namespace dense;
using Fn=void(*)(Ctx&);

template<int R> void stateAlgebra(Ctx& c)
{
  auto d=dims(c,R,60,8); const long n=prod(d); VectorXcd x=data(c,n), y=data(c,n); const dcomp a=c.cplx(2.), b=c.cplx(2.); const double r=c.real(-3,3);
  c.note("rank ",R,", dims ",show(d),", a=",a,", b=",b,", r=",r); c.nontrivial(n>1 && x.norm()>0); c.label("rank "+std::to_string(R)); const double s=std::max({1.,x.norm(),y.norm()}), tol=1e-12*s*s;
  SV<R> p=makeSV<R>(d,x), q=makeSV<R>(d,y);
  c.near(p.norm(),x.norm(),1e-12,"norm"); c.near(braket(p,q),x.dot(y),tol,"scalar product"); c.near(braket(p,p),x.squaredNorm(),tol,"scalar product with itself");
  { auto e=p+q; same(c,vec<R>(e),VectorXcd(x+y),tol,"sum"); auto f=p-q; same(c,vec<R>(f),VectorXcd(x-y),tol,"difference"); auto g=a*p; same(c,vec<R>(g),VectorXcd(a*x),tol,"complex multiple from the left"); auto h=p*a; same(c,vec<R>(h),VectorXcd(a*x),tol,"complex multiple from the right");
    auto k=r*p; same(c,vec<R>(k),VectorXcd(r*x),tol,"real multiple"); if (std::abs(r)>.01) {auto l=p/r; same(c,vec<R>(l),VectorXcd(x/r),tol*100,"real quotient");} if (std::abs(a)>.01) {auto l=p/a; same(c,vec<R>(l),VectorXcd(x/a),tol*100,"complex quotient");}
    SV<R> m(a*p+b*q); same(c,vec<R>(m),VectorXcd(a*x+b*y),tol*10,"linear combination"); }
  same(c,vec<R>(p),x,0,"first operand afterwards"); same(c,vec<R>(q),y,0,"second operand afterwards");
  { SV<R> m(p); m+=q; m-=p; m*=a; same(c,vec<R>(m),VectorXcd(a*(x+y-x)),tol*10,"compound assignment"); }
  // dyads
  { DO<R> D(p); same(c,mat<R>(D),MatrixXcd(x*x.adjoint()),tol,"projector"); auto E=dyad(p,q); same(c,mat<R>(E),MatrixXcd(x*y.adjoint()),tol,"dyad of two states"); CArray<2*R> low=p.dyad(q); same(c,toMat<2*R>(low),MatrixXcd(x*y.adjoint()),tol,"low-level dyad");
    CArray<2*R> low1=p.dyad(); same(c,toMat<2*R>(low1),MatrixXcd(x*x.adjoint()),tol,"low-level dyad with itself"); c.near(D.norm(),x.squaredNorm(),1e-11,"trace of the projector"); }
  { const double w=c.real(-1.5,2.5); MatrixXcd M=densityMatrix(c,n); DO<R> D=makeDO<R>(d,M); p.addTo(D,w); same(c,mat<R>(D),MatrixXcd(M+w*x*x.adjoint()),tol*10,"adding a weighted projector, weight ",w); p.addTo(D); same(c,mat<R>(D),MatrixXcd(M+(w+1.)*x*x.adjoint()),tol*10,"adding a projector"); D=q; same(c,mat<R>(D),MatrixXcd(y*y.adjoint()),tol,"density operator assigned from a state"); }
  { SV<R> m(p); const double o=m.renorm(); c.near(o,x.norm(),1e-12,"renorm returns the old norm"); same(c,vec<R>(m),VectorXcd(x/x.norm()),1e-12,"renormalised state"); c.near(m.norm(),1.,1e-12,"norm after renorm"); }
}
VP_PROP("state-vector-algebra",30000,300000,20) {static const std::vector<Fn> f{&stateAlgebra<1>,&stateAlgebra<2>,&stateAlgebra<3>,&stateAlgebra<4>}; c.pick(f)(c);}

template<int R1, int R2> void direct(Ctx& c)
{
  auto d1=dims(c,R1,12,5), d2=dims(c,R2,12,5); VectorXcd x=data(c,prod(d1)), y=data(c,prod(d2)); c.note(show(d1)," times ",show(d2)); c.nontrivial(x.size()>1 && y.size()>1); const double tol=1e-12*std::max(1.,x.norm()*y.norm());
  SV<R1> p=makeSV<R1>(d1,x); SV<R2> q=makeSV<R2>(d2,y); const auto s=p*q; same(c,vec<R1+R2>(s),kron(x,y),tol,"tensor product"); auto d=d1; d.insert(d.end(),d2.begin(),d2.end());
  for (int i=0; i<R1+R2; ++i) c.check(s.getDimension(i)==size_t(d[i]) && s.getArray().extent(i)==d[i],"dimension ",i," of the product"); c.check(s.getTotalDimension()==size_t(prod(d)),"total dimension of the product");
  c.near(s.norm(),x.norm()*y.norm(),1e-12,"norm of the product");
  { auto a=blitzplusplus::doDirect<blitzplusplus::dodirect::addition,R1,R2>(p.getArray(),q.getArray()); VectorXcd w(x.size()*y.size()); for (long i=0; i<x.size(); ++i) for (long j=0; j<y.size(); ++j) w(i*y.size()+j)=x(i)+y(j); same(c,toVec<R1+R2>(a),w,tol,"direct sum"); }
}
VP_PROP("tensor-products",30000,300000,20) {static const std::vector<Fn> f{&direct<1,1>,&direct<1,2>,&direct<2,1>,&direct<2,2>,&direct<3,1>,&direct<1,3>}; c.pick(f)(c);}

template<int R> void density(Ctx& c)
{
  auto d=dims(c,R,16,6); const long n=prod(d); MatrixXcd A=gaussianM(c,n,n), B=c.boolean() ? gaussianM(c,n,n) : densityMatrix(c,n); const dcomp a=c.cplx(2.); const double r=c.real(-3,3); c.note("rank ",R,", dims ",show(d),", a=",a,", r=",r); c.nontrivial(n>1); const double tol=1e-11;
  DO<R> p=makeDO<R>(d,A), q=makeDO<R>(d,B); c.near(p.norm(),A.trace().real(),tol,"trace"); c.near(quantumdata::frobeniusNorm(p),A.norm(),tol,"Frobenius norm");
  { auto e=p+q; same(c,mat<R>(e),MatrixXcd(A+B),tol,"sum"); auto f=p-q; same(c,mat<R>(f),MatrixXcd(A-B),tol,"difference"); auto g=a*p; same(c,mat<R>(g),MatrixXcd(a*A),tol,"complex multiple"); auto h=p*r; same(c,mat<R>(h),MatrixXcd(r*A),tol,"real multiple"); }
  { auto V=p.matrixView(); MatrixXcd m(n,n); for (int i=0; i<n; ++i) for (int j=0; j<n; ++j) m(i,j)=V(i,j); same(c,m,A,0,"matrix view"); V(0,int(n-1))=dcomp(9,9); MatrixXcd A2=A; A2(0,n-1)=dcomp(9,9); same(c,mat<R>(p),A2,0,"writing through the matrix view"); fromMat<2*R>(p.getArray(),A); }
  { MatrixXcd M=densityMatrix(c,n); DO<R> m=makeDO<R>(d,MatrixXcd(3.*M)); const double o=m.renorm(); c.near(o,3.,tol,"renorm returns the old trace"); same(c,mat<R>(m),M,tol,"renormalised density operator"); c.near(quantumdata::purity(m),(M*M).trace().real(),tol,"purity"); }
  { auto h=blitzplusplus::hermitianConjugate(p.getArray()); same(c,toMat<2*R>(h),MatrixXcd(A.adjoint()),0,"Hermitian conjugate"); same(c,mat<R>(p),A,0,"argument of the Hermitian conjugation"); CArray<2*R> s(p.getArray().copy()); blitzplusplus::hermitianConjugateSelf(s); same(c,toMat<2*R>(s),MatrixXcd(A.adjoint()),0,"Hermitian conjugate in place"); blitzplusplus::hermitianConjugateSelf(s); same(c,toMat<2*R>(s),A,0,"Hermitian conjugate twice"); }
  // element access, multi-index style
  { const long i=long(c.choice(n)), j=long(c.choice(n)); IdxTiny<R> x,y; auto ii=unflat(i,d), jj=unflat(j,d); for (int k=0; k<R; ++k) {x(k)=ii[k]; y(k)=jj[k];} c.near(p(x)(y),A(i,j),0,"element access"); p(x)(y)=dcomp(5,-5); MatrixXcd A2=A; A2(i,j)=dcomp(5,-5); same(c,mat<R>(p),A2,0,"element assignment"); }
}
VP_PROP("density-operator-algebra",20000,200000,20) {static const std::vector<Fn> f{&density<1>,&density<2>,&density<3>}; c.pick(f)(c);}

VP_PROP("matrix-helpers",10000,100000,10) {
  const int n=c.range(1,9), m=c.range(1,9); MatrixXcd M=gaussianM(c,n,m), S=gaussianM(c,n,n); VectorXcd a=gaussian(c,m), b=gaussian(c,n); c.note(n,"x",m); c.nontrivial(n>1 && m>1);
  CArray<2> mm(n,m), ss(n,n); for (int i=0; i<n; ++i) {for (int j=0; j<m; ++j) mm(i,j)=M(i,j); for (int j=0; j<n; ++j) ss(i,j)=S(i,j);} CArray<1> aa(m), bb(n); fromVec(aa,a); fromVec(bb,b);
  linalg::apply(aa,bb,mm); same(c,toVec(bb),VectorXcd(b+M*a),1e-12,"matrix applied on a vector"); linalg::calculateTwoTimesRealPartOfSelf(ss); same(c,toMat(ss),MatrixXcd(S+S.adjoint()),1e-13,"two times the Hermitian part");
}

// histories of copying, referencing, moving and assigning: every object must hold what a model with explicit storage says
template<template<int> class Q, int R> void history(Ctx& c)
{
  constexpr bool isSV=std::is_same_v<Q<R>,SV<R>>; constexpr int AR=isSV ? R : 2*R;
  auto d=dims(c,R,isSV ? 12 : 6,4,2); const long n=isSV ? prod(d) : prod(d)*prod(d); struct Obj {std::unique_ptr<Q<R>> q; std::shared_ptr<VectorXcd> m;}; std::vector<Obj> o;
  auto fresh=[&] {Obj x; x.m=std::make_shared<VectorXcd>(data(c,n)); x.q=std::make_unique<Q<R>>(ext<R>(d)); fromVec<AR>(x.q->getArray(),*x.m); return x;};
  o.push_back(fresh()); o.push_back(fresh()); const int steps=c.range(1,14); std::ostringstream h; int copies=0;
  auto verify=[&](const std::string& what) {for (size_t i=0; i<o.size(); ++i) {same(c,toVec<AR>(o[i].q->getArray()),*o[i].m,1e-9,"after ",what,": object ",i); for (int k=0; k<R; ++k) c.check(o[i].q->getDimension(k)==size_t(d[k]),"after ",what,": dimensions of object ",i); c.check(o[i].q->getTotalDimension()==size_t(prod(d)),"after ",what,": total dimension of object ",i);}};
  verify("construction");
  for (int s=0; s<steps; ++s) {
    const size_t i=c.choice(o.size()), j=c.choice(o.size()); std::string what; const double r=c.real(-2,2);
    switch (c.choice(13)) {
    case 0: what="new zero object"; {Obj x; x.q=std::make_unique<Q<R>>(ext<R>(d)); x.m=std::make_shared<VectorXcd>(VectorXcd::Zero(n)); o.push_back(std::move(x));} break;
    case 1: what="copy of "+std::to_string(i); {Obj x; x.q=std::make_unique<Q<R>>(*o[i].q); x.m=std::make_shared<VectorXcd>(*o[i].m); o.push_back(std::move(x)); ++copies;} break;
    case 2: what="reference to "+std::to_string(i); {Obj x; x.q=std::make_unique<Q<R>>(o[i].q->getArray(),quantumdata::byReference); x.m=o[i].m; o.push_back(std::move(x)); ++copies;} break;
    case 3: what=std::to_string(i)+" assigned from "+std::to_string(j); *o[i].q=*o[j].q; *o[i].m=VectorXcd(*o[j].m); ++copies; break;
    case 4: what="move-construction from a copy of "+std::to_string(i); {Q<R> t(*o[i].q); Obj x; x.q=std::make_unique<Q<R>>(std::move(t)); x.m=std::make_shared<VectorXcd>(*o[i].m); o.push_back(std::move(x)); ++copies;} break;
    case 5: what=std::to_string(i)+" move-assigned from a copy of "+std::to_string(j); {Q<R> t(*o[j].q); *o[i].q=std::move(t); *o[i].m=VectorXcd(*o[j].m); ++copies;} break;
    case 6: what=std::to_string(i)+" += "+std::to_string(j); if (o[i].m->norm()<1e6 && o[j].m->norm()<1e6) {*o[i].q+=*o[j].q; *o[i].m=VectorXcd(*o[i].m+*o[j].m);} break;
    case 7: what=std::to_string(i)+" scaled by "+std::to_string(r); *o[i].q*=r; *o[i].m*=r; break;
    case 8: what=std::to_string(i)+" set to zero"; *o[i].q=0; o[i].m->setZero(); break;
    case 9: what="element of "+std::to_string(i)+" written"; {const long k=long(c.choice(n)); std::vector<int> dd=d; if (!isSV) dd.insert(dd.end(),d.begin(),d.end()); o[i].q->getArray()(tiny<AR>(unflat(k,dd)))=dcomp(r,1.); (*o[i].m)(k)=dcomp(r,1.);} break;
    case 10: what=std::to_string(i)+" -= "+std::to_string(j); if (o[i].m->norm()<1e6 && o[j].m->norm()<1e6) {*o[i].q-=*o[j].q; *o[i].m=VectorXcd(*o[i].m-*o[j].m);} break;
    case 11: what=std::to_string(i)+" made to refer to "+std::to_string(j); if (i!=j) {o[i].q->reference(*o[j].q); o[i].m=o[j].m; ++copies;} break;
    default: what="function result"; {auto f=[&]() {Q<R> t(*o[i].q); t*=2.; return t;}; Obj x; x.q=std::make_unique<Q<R>>(f()); x.m=std::make_shared<VectorXcd>(2.* *o[i].m); o.push_back(std::move(x));}
    }
    h<<what<<", "; if (o.size()>8) o.erase(o.begin()+c.choice(o.size())); verify(what);
  }
  c.note(isSV ? "state vectors, " : "density operators, ","rank ",R,", dims ",show(d),": ",h.str()); c.nontrivial(copies>=2 && steps>=4); c.label(isSV ? "state vector" : "density operator");
}
// referring to an object of other dimensions: the dimensions follow, and the data are shared from then on
template<template<int> class Q, int R> void rereference(Ctx& c)
{
  constexpr bool isSV=std::is_same_v<Q<R>,SV<R>>; constexpr int AR=isSV ? R : 2*R; const auto d1=dims(c,R,isSV ? 12 : 6,4), d2=dims(c,R,isSV ? 12 : 6,4); const long n1=isSV ? prod(d1) : prod(d1)*prod(d1), n=isSV ? prod(d2) : prod(d2)*prod(d2);
  VectorXcd x=data(c,n1), y=data(c,n), z=data(c,n); Q<R> p(ext<R>(d1)), q(ext<R>(d2)); fromVec<AR>(p.getArray(),x); fromVec<AR>(q.getArray(),y); c.note(isSV ? "state" : "density operator"," of dims ",show(d1)," made to refer to ",show(d2)); c.nontrivial(d1!=d2); c.label(isSV ? "state" : "density operator");
  const bool empty=c.choice(4)==0; Q<R> e; Q<R>& t=empty ? e : p; t.reference(q); for (int k=0; k<R; ++k) c.check(t.getDimension(k)==size_t(d2[k]) && t.getArray().extent(k)==d2[k],"dimension ",k); c.check(t.getTotalDimension()==size_t(prod(d2)),"total dimension ",t.getTotalDimension()); c.check(t==q,"dimensions compared"); same(c,toVec<AR>(t.getArray()),y,0,"data referred to");
  fromVec<AR>(q.getArray(),z); same(c,toVec<AR>(t.getArray()),z,0,"data referred to, written through the other object"); t*=2.; same(c,toVec<AR>(q.getArray()),VectorXcd(2.*z),1e-12,"written through the reference"); if (!empty) {Q<R> u(t); u*=3.; same(c,toVec<AR>(q.getArray()),VectorXcd(2.*z),1e-12,"after a copy was scaled"); c.check(u.getTotalDimension()==size_t(prod(d2)),"total dimension of a copy");}
}
VP_PROP("referring",5000,50000,10) {static const std::vector<Fn> f{&rereference<quantumdata::StateVector,1>,&rereference<quantumdata::StateVector,2>,&rereference<quantumdata::StateVector,3>,&rereference<quantumdata::DensityOperator,1>,&rereference<quantumdata::DensityOperator,2>}; c.pick(f)(c);}
VP_PROP("value-and-reference-semantics",20000,200000,20) {static const std::vector<Fn> f{&history<quantumdata::StateVector,1>,&history<quantumdata::StateVector,2>,&history<quantumdata::StateVector,3>,&history<quantumdata::DensityOperator,1>,&history<quantumdata::DensityOperator,2>}; c.pick(f)(c);}

template<int R> void dimensions(Ctx& c)
{
  auto d=dims(c,R,100,5), e=c.boolean() ? d : dims(c,R,100,5); if (c.boolean(.3)) e[c.choice(R)]+=1; c.note(show(d)," vs ",show(e)); c.nontrivial(d!=e); const bool eq=d==e;
  SV<R> p(ext<R>(d)), q(ext<R>(e)); const DimensionsBookkeeper<R> &a=p, &b=q; c.check((a==b)==eq,"equality of dimensions says ",a==b); c.check((a!=b)==!eq,"inequality of dimensions says ",a!=b);
  c.check(p.norm()==0 && q.norm()==0,"new states are zero");
}
VP_PROP("dimension-comparison",10000,100000,10) {static const std::vector<Fn> f{&dimensions<1>,&dimensions<2>,&dimensions<3>,&dimensions<4>}; c.pick(f)(c);}
