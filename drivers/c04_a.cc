#include "qdata.h"
#include "EntanglementMeasures.h"
using namespace dense;
using Fn=void(*)(Ctx&);

static VectorXd spectrum(const MatrixXcd& h) {return Eigen::SelfAdjointEigenSolver<MatrixXcd>(h,Eigen::EigenvaluesOnly).eigenvalues();}
static double entropyRef(const MatrixXcd& r) {double s=0; for (double e : spectrum(r)) if (e>1e-300) s-=e*std::log(e); return s;}
static MatrixXcd partialTranspose(const MatrixXcd& r, const std::vector<int>& v, const std::vector<int>& d)
{
  MatrixXcd t(r.rows(),r.cols());
  for (long i=0; i<r.rows(); ++i) for (long j=0; j<r.cols(); ++j) {auto a=unflat(i,d), b=unflat(j,d); for (int k : v) std::swap(a[k],b[k]); t(flat(a,d),flat(b,d))=r(i,j);}
  return t;
}
static double negativityRef(const MatrixXcd& r, const std::vector<int>& v, const std::vector<int>& d) {double s=0; for (double e : spectrum(partialTranspose(r,v,d))) if (e<0) s-=e; return s;}

template<int R, int... V> void measures(Ctx& c)
{
  using Vec=tmptools::Vector<V...>; using Neg=tmptools::NegatedVector<R,Vec>; const std::vector<int> v{V...}; std::vector<int> w; for (int i=0; i<R; ++i) if (std::find(v.begin(),v.end(),i)==v.end()) w.push_back(i);
  auto d=dims(c,R,R>2 ? 18 : 16,4,2); const long n=prod(d); const int kind=int(c.choice(4)); MatrixXcd M; bool pure=false, product=false;
  if (kind==0) {VectorXcd x=data(c,n); x/=x.norm(); M=x*x.adjoint(); pure=true;}
  else if (kind==1) { // product state across the bipartition
    std::vector<int> dv,dw; for (int i : v) dv.push_back(d[i]); for (int i : w) dw.push_back(d[i]); M=embed(densityMatrix(c,prod(dv)),v,d)*embed(densityMatrix(c,prod(dw)),w,d); product=true;
  }
  else {M=densityMatrix(c,n); if (c.boolean(.3)) M=.7*M+.3*MatrixXcd::Identity(n,n)/double(n);}
  c.note("rank ",R,", dims ",show(d),", subsystem ",show(v),", kind ",kind); c.nontrivial(); c.label(pure ? "pure" : product ? "product" : "mixed");
  const double tol=2e-6; // ComplexEigenSolver of degenerate matrices and sqrt-type sensitivity of small eigenvalues
  const DO<R> rho=makeDO<R>(d,M); const double S=quantumdata::entropy(rho), P=quantumdata::purity(rho), N=quantumdata::negPT(rho,Vec()), I=quantumdata::mutualInformation(rho,Vec()), PP=quantumdata::purityOfPartialTrace(rho,Vec());
  const MatrixXcd A=reduced(M,v,d), B=reduced(M,w,d);
  c.near(S,entropyRef(M),1e-9,"entropy"); c.near(P,(M*M).trace().real(),1e-12,"purity"); c.near(N,negativityRef(M,v,d),tol,"negativity of the partial transpose"); c.near(I,entropyRef(A)+entropyRef(B)-entropyRef(M),1e-8,"mutual information"); c.near(PP,(A*A).trace().real(),1e-11,"purity of the partial trace");
  // textbook bounds
  c.check(S>-1e-8 && S<std::log(double(n))+1e-8,"entropy ",S," outside [0,log dim]"); c.check(P<1+1e-10 && P>1./n-1e-10,"purity ",P," outside [1/dim,1]"); c.check(N>-tol,"negative negativity ",N); c.check(I>-1e-8,"negative mutual information ",I);
  const double SA=quantumdata::entropy(quantumdata::reduce<Vec>(rho)), SB=quantumdata::entropy(quantumdata::reduce<Neg>(rho)); c.near(SA,entropyRef(A),1e-9,"entropy of the part"); c.near(SB,entropyRef(B),1e-9,"entropy of the complement");
  if (pure) {c.near(S,0.,1e-8,"entropy of a pure state"); c.near(P,1.,1e-10,"purity of a pure state"); c.near(SA,SB,1e-7,"entropies of the two halves of a pure state"); c.near(I,2*SA,1e-7,"mutual information of a pure state");}
  if (product) {c.near(N,0.,tol,"negativity of a product state"); c.near(I,0.,1e-7,"mutual information of a product state");}
  // the complement gives the same negativity and mutual information
  c.near(quantumdata::negPT(rho,Neg()),N,tol,"negativity with the complement transposed"); c.near(quantumdata::mutualInformation(rho,Neg()),I,1e-8,"mutual information seen from the complement"); c.near(quantumdata::negPT(rho,tmptools::V_Empty()),0.,0,"negativity for an empty subsystem");
  // local unitaries change nothing
  MatrixXcd U=MatrixXcd::Identity(n,n); for (int i=0; i<R; ++i) U=embed(unitary(c,d[i]),{i},d)*U; const MatrixXcd M2=U*M*U.adjoint(); const DO<R> rho2=makeDO<R>(d,M2);
  c.near(quantumdata::entropy(rho2),S,1e-8,"entropy after local unitaries"); c.near(quantumdata::purity(rho2),P,1e-10,"purity after local unitaries"); c.near(quantumdata::negPT(rho2,Vec()),N,tol,"negativity after local unitaries"); c.near(quantumdata::mutualInformation(rho2,Vec()),I,1e-7,"mutual information after local unitaries");
  same(c,mat<R>(rho),M,0,"density operator afterwards");
}
#define M_(R,...) &measures<R,__VA_ARGS__>
VP_PROP("measures-bipartite",6000,60000,20) {static const std::vector<Fn> f{M_(2,0),M_(2,1)}; c.pick(f)(c);}
VP_PROP("measures-tripartite",5000,50000,20) {static const std::vector<Fn> f{M_(3,0),M_(3,1),M_(3,2),M_(3,0,1),M_(3,0,2),M_(3,2,1)}; c.pick(f)(c);}
VP_PROP("measures-four-partite",3000,30000,20) {static const std::vector<Fn> f{M_(4,1),M_(4,0,2),M_(4,1,3),M_(4,0,1,3)}; c.pick(f)(c);}
VP_PROP("measures-single-system",10000,100000,20) {
  const int n=c.range(1,12); MatrixXcd M=densityMatrix(c,n); c.note("dim ",n); c.nontrivial(n>1); const DO<1> rho=makeDO<1>({n},M); c.near(quantumdata::entropy(rho),entropyRef(M),1e-9,"entropy"); c.near(quantumdata::purity(rho),(M*M).trace().real(),1e-12,"purity");
  const DO<1> mixed=makeDO<1>({n},MatrixXcd(MatrixXcd::Identity(n,n)/double(n))); c.near(quantumdata::entropy(mixed),std::log(double(n)),1e-12,"entropy of the maximally mixed state");
}
