#include "interactions.h"
#include "multilevel.h"
#include "MLJC.h"
using namespace sys;

template<int NL, typename VC> static void mljcCase(Ctx& c, const ML<NL>& f)
{
  VC gs=drawPumps<VC>(c); const F m=makeMode(c,modePars(c,4),anyPicture(c)); parameters::Table t; mljc::Pars<VC> p(t); p.gs=gs; std::shared_ptr<const structure::Interaction<2>> ia=std::make_shared<MLJC<NL,VC>>(f.ml,m.mode,p);
  const std::vector<int> d{NL,m.dim}; const long n=prod(d); MatrixXcd K=MatrixXcd::Zero(n,n); c.note(f.name," ",m.name); for (auto& e : edges(gs)) {K+=minusHC(kron(ketbra(NL,e.i,e.j),MatrixXcd(std::conj(e.v)*destroy(m.dim).adjoint()))); c.note("coupling ",e.i,e.j," ",e.v);}
  c.nontrivial(K.cwiseAbs().maxCoeff()>0); const double t0=c.boolean() ? c.real(-2.,2.) : 0, ta=c.real(-.5,1.5)/(1+m.z*m.dim); const auto h=std::dynamic_pointer_cast<const structure::Hamiltonian<2>>(ia); c.check(bool(h),"no Hamiltonian"); const VectorXcd u=freeExact({f,m},t0+ta,t0), base=gaussian(c,n); MatrixXcd r(n,n);
  for (long j=0; j<n; ++j) {auto psi=makeSV<2>(d,VectorXcd::Unit(n,j)), dp=makeSV<2>(d,base); h->addContribution(t0+ta,psi.getArray(),dp.getArray(),t0); r.col(j)=vec<2>(dp)-base;}
  double amp=1; for (long i=0; i<n; ++i) for (long j=0; j<n; ++j) {amp=std::max(amp,std::abs(u(i)/u(j))); r(i,j)*=u(i)/u(j);} same(c,r,K,1e-11*amp,"coupling H/i"); same(c,r,MatrixXcd(-r.adjoint()),1e-11*amp,"anti-Hermiticity");
}
template<int I, int J> using Co=Coupling<I,J>;
VP_PROP("multi-level",4000,40000,20)
{
  switch (c.range(0,2)) {
  case 0: mljcCase<2,Ve<Co<0,1>>>(c,makeML<2,Ve<Pu<0,1>>,Ve<De<0,1>,De<1,0>>>(c)); break;
  case 1: mljcCase<3,Ve<Co<0,2>,Co<2,1>>>(c,makeML<3,Ve<Pu<0,2>,Pu<1,2>>,Ve<De<0,2>,De<1,2>>>(c)); break;
  default: mljcCase<4,Ve<Co<0,1>,Co<3,2>,Co<0,3>>>(c,makeML<4,Ve<Pu<0,1>,Pu<3,2>,Pu<0,3>>,Ve<De<0,1>,De<1,2>,De<0,3>,De<2,3>>>(c));
  }
}

// the operators the particle couplings are made of, in both pictures
static MatrixXcd tri(const particle::Tridiagonal& o, int n) {MatrixXcd m(n,n); for (int j=0; j<n; ++j) {auto a=makeSV<1>({n},VectorXcd::Unit(n,j)), b=makeSV<1>({n},VectorXcd::Zero(n)); o.apply(a.getArray(),b.getArray()); m.col(j)=vec<1>(b);} return m;}
VP_PROP("mode-functions",4000,40000,20)
{
  const auto q=resolvable(c,2,5,c.boolean()); const F p=makePart(c,q,anyPicture(c)); const int n=p.dim, f=c.range(0,3), g=c.range(0,3), m=n/2-1, k=c.range(-m,m), l=c.boolean() ? k : c.boolean() ? -k : c.range(-m,m); const double t=c.boolean(.3) ? 0 : c.real(-1.,1.); c.note(p.name,", functions ",f," k ",k,", ",g," k ",l,", time ",t); c.nontrivial(k);
  const QuantumSystemWrapper<1> w(p.p); const VectorXcd u=exactDiag<1>(w,{n},t,0); const auto rotated=[&](MatrixXcd m) {for (int i=0; i<n; ++i) for (int j=0; j<n; ++j) m(i,j)*=u(j)/u(i); return m;};
  const auto compare=[&](particle::Tridiagonal o, const MatrixXcd& m, const char* what) {o.propagate(t); same(c,tri(o,n),rotated(m),1e-10,what);};
  compare(particle::expINKX(p.part,k),expI(n,k),"exp(iKx)"); compare(particle::sinNKX(p.part,k),sinM(n,k),"sin(Kx)"); compare(particle::cosNKX(p.part,k),cosM(n,k),"cos(Kx)"); compare(particle::mfNKX(p.part,ModeFunction(ModeFunctionType(f),k)),modeFn(n,f,k),"mode function");
  bool refused=false; particle::Tridiagonal o; try {o=particle::mfComposition(p.part,ModeFunction(ModeFunctionType(f),k),ModeFunction(ModeFunctionType(g),l));} catch (const std::exception&) {refused=true;}
  if (std::abs(k)!=std::abs(l)) {c.check(refused,"composition of mode functions with different wave numbers accepted"); c.label("refused"); return;} c.check(!refused,"composition of mode functions of wave numbers ",k," and ",l," refused");
  compare(o,compose(n,f,k,g,l),"composition of two mode functions");
}
