#include "c05_common.h"
#include "Sigma.h"
using quantumoperator::TridiagonalHamiltonian;

template<int R, bool TD> void hamiltonian(Ctx& c)
{
  std::vector<Axis> ax; std::vector<int> d; for (int i=0; i<R; ++i) {ax.push_back(axis(c,R==1 ? 9 : R==2 ? 5 : 3)); d.push_back(ax.back().n);} const long n=prod(d);
  const int terms=c.range(1,4); std::list<Tridiagonal<R>> l; std::vector<Model> ms; bool off=false;
  for (int i=0; i<terms; ++i) {auto axi=ax; if (i) for (auto& a : axi) {a.k=c.range(1,a.n-1); if (c.boolean(.3)) {a.freq=false; a.D.setZero();}} auto b=gen<R>(c,axi,0.,c.range(0,2)); l.push_back(b.t); ms.push_back(b.m); off|=(b.m.M-MatrixXcd(b.m.M.diagonal().asDiagonal())).norm()>0;}
  c.note("rank ",R,", terms ",terms,TD ? ", time-dependent" : ""); c.nontrivial(off); c.label(TD ? "time-dependent" : "time-independent");
  auto go=[&](const TridiagonalHamiltonian<R,TD>& h) {
    const structure::Hamiltonian<R>& H=h; const int k=c.range(1,12); double last=0;
    for (int i=0; i<k; ++i) {
      const double t0=c.boolean() ? c.real(-5,5) : 0., t=i && c.boolean(.2) ? last : t0+c.real(-1,1); last=t; VectorXcd x=data(c,n), y=data(c,n); CArray<R> psi=viewOf<R>(c,d,x), dpsi=viewOf<R>(c,d,y); if (std::abs(t-t0)>1.5) continue;
      H.addContribution(t,psi,dpsi,t0); VectorXcd w=y; double s=1+y.norm(); for (auto m : ms) {if (TD) m.propagate(t-t0); w+=m.M*x; s+=m.M.cwiseAbs().maxCoeff()*x.norm();} same(c,toVec<R>(dpsi),w,1e-11*s,"contribution number ",i," at t=",t,", t0=",t0);
    }
  };
  if (terms==1 && c.boolean()) go(TridiagonalHamiltonian<R,TD>(Tridiagonal<R>(l.front()))); else go(TridiagonalHamiltonian<R,TD>(l));
}
VP_PROP("hamiltonian-of-several-terms",8000,100000,20) {static const std::vector<Fn> f{&hamiltonian<1,true>,&hamiltonian<2,true>,&hamiltonian<3,true>,&hamiltonian<1,false>,&hamiltonian<2,false>}; c.pick(f)(c);}

template<int L, int R> MatrixXcd ketbra(int n) {MatrixXcd m=MatrixXcd::Zero(n,n); m(L,R)=1.; return m;}
template<int R, typename OP> void actOn(Ctx& c, const OP& op, const std::vector<int>& d, const MatrixXcd& M, const char* what)
{
  VectorXcd x=data(c,prod(d)), y=data(c,prod(d)); CArray<R> psi=viewOf<R>(c,d,x), dpsi=viewOf<R>(c,d,y); op.apply(psi,dpsi); same(c,toVec<R>(dpsi),VectorXcd(y+M*x),1e-11*(1+y.norm()+M.cwiseAbs().maxCoeff()*x.norm()),what);
}
template<int L, int R, int L2, int R2> void sigma(Ctx& c)
{
  using quantumoperator::Sigma; const Sigma<L,R> s; const Sigma<L2,R2> u; const int n=std::max(L,R)+c.range(1,3), m=std::max(L2,R2)+c.range(1,3); c.nontrivial(); c.note("|",L,"><",R,"| and |",L2,"><",R2,"|, dims ",n,",",m);
  actOn<1>(c,s,{n},ketbra<L,R>(n),"ket-bra"); actOn<1>(c,s.dagger(),{n},ketbra<R,L>(n),"conjugated ket-bra");
  actOn<2>(c,s*u,{n,m},kron(ketbra<L,R>(n),ketbra<L2,R2>(m)),"product of ket-bras");
  std::vector<Axis> ax{axis(c,4)}; auto b=gen<1>(c,ax,0.,c.range(0,2)); const int k=ax[0].n; const double T=c.real(-1,1); b.t.propagate(T); b.m.propagate(T);
  actOn<2>(c,s*b.t,{n,k},kron(ketbra<L,R>(n),b.m.M),"ket-bra times operator"); actOn<2>(c,b.t*s,{k,n},kron(b.m.M,ketbra<L,R>(n)),"operator times ket-bra");
  {auto q=s*b.t; actOn<3>(c,q*u,{n,k,m},kron(kron(ketbra<L,R>(n),b.m.M),ketbra<L2,R2>(m)),"ket-bra times operator times ket-bra"); actOn<3>(c,u*q,{m,n,k},kron(ketbra<L2,R2>(m),kron(ketbra<L,R>(n),b.m.M)),"ket-bra times ket-bra times operator");}
  {std::vector<Axis> a2{axis(c,3),axis(c,3)}; auto e=gen<2>(c,a2,0.,c.range(0,2)); actOn<3>(c,s*e.t,{n,a2[0].n,a2[1].n},kron(ketbra<L,R>(n),e.m.M),"ket-bra times binary operator"); actOn<3>(c,e.t*s,{a2[0].n,a2[1].n,n},kron(e.m.M,ketbra<L,R>(n)),"binary operator times ket-bra");}
}
VP_PROP("ket-bra-products",6000,60000,20) {static const std::vector<Fn> f{&sigma<0,0,0,1>,&sigma<0,1,1,0>,&sigma<1,0,2,2>,&sigma<2,0,0,2>,&sigma<1,2,1,1>,&sigma<3,1,0,3>}; c.pick(f)(c);}
