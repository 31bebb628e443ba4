#include "systems.h"
#include "HomodynedMode.h"
#include "BichromaticMode.h"
#include "Mode.tcc"
using namespace sys;

static F anyFree(Ctx& c)
{
  const auto pic=anyPicture(c);
  switch (c.range(0,5)) {
  case 0: case 1: return makeMode(c,8,pic);
  case 2: return makeQbit(c,qbitPars(c,false,c.boolean(.3)),pic);
  case 3: return makeSpin(c,spinPars(c,6),pic,c.boolean(.7));
  case 4: return makePart(c,partPars(c,1,4),pic);
  default: if (c.boolean()) return makeTLA(c,qbitPars(c)); return makeMatrix(c,6);
  }
}
static double tau(Ctx& c, const F& f) {const double m=std::max(1.,f.z*f.dim); return (c.boolean(.15) ? 0 : c.real(-.5,1.5))/m;}

// the Hamiltonian, in whatever picture, is the documented one
static void hamiltonian(Ctx& c, const F& f)
{
  const QuantumSystemWrapper<1> w(f.p); const double t0=c.boolean() ? c.real(-3.,5.) : 0, ta=tau(c,f), s=f.scale(); c.note(f.name,", t0 ",t0,", tau ",ta); c.nontrivial(f.dim>1 && f.G.cwiseAbs().maxCoeff()>0);
  c.check(int(f.p->getDimension())==f.dim,"dimension ",f.p->getDimension()," instead of ",f.dim);
  const MatrixXcd g=generator<1>(c,w,{f.dim},ta,t0,1e-2/s); same(c,traceless(g),traceless(f.G),2e-9,"H/i");
  same(c,contribution<1>(c,w,{f.dim},t0+ta,t0,true),contribution<1>(c,w,{f.dim},t0+ta,t0),1e-11,"derivative added to what is already there");
}
VP_PROP("hamiltonian",6000,100000,20) {hamiltonian(c,anyFree(c));}

// jumps, rates, superoperators, norm loss
static void jumps(Ctx& c, const F& f)
{
  const QuantumSystemWrapper<1> w(f.p); const int n=f.dim; const size_t K=w.nAvr<structure::LA_Li>(); c.note(f.name); c.nontrivial(K>0); c.check(K==f.J.size(),"number of jumps: ",K," instead of ",f.J.size()); if (!K) return;
  const double t=c.real(-1.,3.); const MatrixXcd rho=densityMatrix(c,n); VectorXcd psi=data(c,n); if (c.boolean()) psi/=psi.norm(); const auto D=makeDO<1>({n},rho); const auto P=makeSV<1>({n},psi); const double nn=std::max(1.,psi.squaredNorm());
  const auto rp=w.average<structure::LA_Li>(t,P), rm=w.average<structure::LA_Li>(t,D); c.check(size_t(rp.size())==K && size_t(rm.size())==K,"number of rates");
  MatrixXcd sum=MatrixXcd::Zero(n,n), sup=sum, sand=sum, spec=sum, norm=sum;
  for (size_t k=0; k<K; ++k) {
    const MatrixXcd j=jumpMatrix<1>(w,{n},k,t); same(c,j,f.J[k],1e-12,"jump operator ",k);
    auto q=makeSV<1>({n},psi); w.actWithJ(t,q.getArray(),k); same(c,vec<1>(q),VectorXcd(f.J[k]*psi),1e-12*std::max(1.,psi.norm()),"jumped state ",k);
    if (f.special[k]) c.check(rp(k)<0 && rm(k)<0,"rate of a special jump ",rp(k)," ",rm(k));
    else {c.near(rp(k),(psi.adjoint()*f.R[k]*psi)(0).real(),1e-11*nn,"rate ",k," of a pure state"); c.near(rm(k),(f.R[k]*rho).trace().real(),1e-11,"rate ",k," of a mixed state");
      const MatrixXcd pr=psi*psi.adjoint(); c.near(w.average<structure::LA_Li>(t,makeDO<1>({n},pr))(k),rp(k),1e-11*nn,"rate ",k," of the projector");}
    norm-=f.J[k].adjoint()*f.J[k]/2.;
    if (f.super) {MatrixXcd b=gaussianM(c,n,n), r=gaussianM(c,n,n); auto d=makeDO<1>({n},b), in=makeDO<1>({n},r); w.actWithSuperoperator(t,in.getArray(),d.getArray(),k); same(c,MatrixXcd(mat<1>(d)-b),MatrixXcd(f.J[k]*r*f.J[k].adjoint()),1e-11*std::max(1.,f.J[k].squaredNorm()),"superoperator ",k); same(c,mat<1>(in),r,0,"density operator changed by the superoperator");}
  }
  for (size_t k=K; k<K+2; ++k) {bool thrown=false; auto q=makeSV<1>({n},psi); if (f.special[0]) continue; try {w.actWithJ(t,q.getArray(),k);} catch (const std::exception&) {thrown=true;} c.check(thrown,"jump ",k," beyond the last accepted");}
}
VP_PROP("jumps",6000,100000,20) {jumps(c,anyFree(c));}

// norm loss of the non-Hermitian evolution equals the total jump rate, measured on the implementation only (constant offsets are removed by the normalisation)
static void normLoss(Ctx& c, const F& f, bool homodyne=false)
{
  const QuantumSystemWrapper<1> w(f.p); const int n=f.dim; const size_t K=w.nAvr<structure::LA_Li>(); const double s=f.scale(), ta=tau(c,f); const MatrixXcd g=generator<1>(c,w,{n},ta,0,1e-2/s); MatrixXcd l=g+g.adjoint(); c.note(f.name); c.nontrivial(K>0);
  for (size_t k=0; k<K; ++k) {const MatrixXcd j=jumpMatrix<1>(w,{n},k); l+=j.adjoint()*j;}
  const int m=std::max(1,n-1); // below the truncation edge
  const MatrixXcd b=l.topLeftCorner(m,m); same(c,traceless(b),MatrixXcd(MatrixXcd::Zero(m,m)),4e-9*s,"anti-Hermitian part of H plus half the jump operators' squares");
}
VP_PROP("norm-loss",4000,60000,20) {F f=anyFree(c); if (f.name[0]=='m') f=makeQbit(c,anyPicture(c)); normLoss(c,f);}

// specials
VP_PROP("alternative",500,5000,20)
{
  auto m=modePars(c,8); if (!m.kappa) m.kappa=c.real(.01,2.); parameters::Table t; mode::ParsPumpedLossy p(t); p.cutoff=m.cutoff; p.delta=m.delta; p.omegaKerr=m.kerr; p.omegaKerrAlter=m.kerrA; p.kappa=m.kappa; p.nTh=m.nTh; p.eta=m.eta;
  mode::Ptr q; if (m.nTh) q=std::make_shared<PumpedLossyModeAlternative<true>>(p); else q=std::make_shared<PumpedLossyModeAlternative<false>>(p); F f=makeMode(c,m,QMP_IP,q); f.special.assign(f.J.size(),1); f.name="alternative "+f.name;
  switch (c.range(0,2)) {case 0: hamiltonian(c,f); break; case 1: jumps(c,f); break; default: normLoss(c,f);}
}
VP_PROP("homodyned",500,5000,20)
{
  auto m=modePars(c,8); if (!m.kappa) m.kappa=c.real(.01,2.); parameters::Table t; mode::ParsHomodyned<mode::ParsPumpedLossy> p(t); p.cutoff=m.cutoff; p.delta=m.delta; p.omegaKerr=m.kerr; p.omegaKerrAlter=m.kerrA; p.kappa=m.kappa; p.nTh=m.nTh; p.eta=m.eta; const dcomp h=c.cplx(2.); p.homodyneAmplitude=h;
  F f=makeMode(c,m,QMP_SCH,mode::make<mode::Averaged>(p)); f.name="homodyned "+f.name; c.note("amplitude ",h);
  if (h!=0.) {f.J.resize(2); const int n=f.dim; const MatrixXcd a=destroy(n), I=MatrixXcd::Identity(n,n); f.J[0]=h*I+std::sqrt(2*m.kappa*(m.nTh+1))*a; f.J[1]=std::conj(h)*I+std::sqrt(2*m.kappa*m.nTh)*MatrixXcd(a.adjoint()); f.R=f.J; f.special.assign(2,1); f.super=false;}
  if (c.boolean()) jumps(c,f); else normLoss(c,f);
}

// the mode in interaction picture without the exact part: everything is expressed through explicit time dependence
static F noExact(Ctx& c, const ModePars& m) {parameters::Table t; mode::ParsPumpedLossy p(t); p.cutoff=m.cutoff; p.delta=m.delta; p.omegaKerr=m.kerr; p.kappa=m.kappa; p.eta=m.eta; F f=makeMode(c,m,QMP_SCH); f.name="not exact "+f.name; f.p=std::make_shared<PumpedLossyModeIP_NoExact>(p); return f;}
static void noExactHamiltonian(Ctx& c, const ModePars& m, double t)
{
  const F f=noExact(c,m); const QuantumSystemWrapper<1> w(f.p); const int n=f.dim; MatrixXcd e=f.G; const MatrixXcd d=f.G.diagonal().asDiagonal(); for (int i=0; i<n; ++i) for (int j=0; j<n; ++j) e(i,j)=i==j ? 0. : f.G(i,j)*std::exp((d(j,j)-d(i,i))*t);
  c.note(f.name,", t ",t); same(c,contribution<1>(c,w,{n},t,0),e,1e-11*std::exp(std::abs(m.kappa*t)),"pump in interaction picture");
}
VP_PROP("not-exact",1000,10000,20)
{
  auto m=modePars(c,8,false,false); m.nTh=0; if (!m.kappa) m.kappa=c.real(.01,2.); const double t=c.boolean(.15) ? 0 : c.real(-.5,2.); c.nontrivial(m.eta!=0. && t!=0); noExactHamiltonian(c,m,t);
  const F f=noExact(c,m); const QuantumSystemWrapper<1> w(f.p); const int n=f.dim; c.check(w.nAvr<structure::LA_Li>()==1,"number of jumps"); same(c,jumpMatrix<1>(w,{n},0,t),MatrixXcd(std::exp(-dcomp(m.kappa,-m.delta)*t)*f.J[0]),1e-11*std::exp(std::abs(m.kappa*t)),"jump in interaction picture");
}
VP_KNOWN("not-exact/kerr","C11-noexact-kerr",10) {noExactHamiltonian(c,ModePars{4,-1.,1.,0,.5,0,dcomp(1,0)},.1);}
VP_KNOWN("not-exact/rate","C11-noexact-rate",10) {const F f=noExact(c,ModePars{4,-1.,0,0,2.,0,dcomp(1,0)}); const QuantumSystemWrapper<1> w(f.p); c.near(w.average<structure::LA_Li>(0,makeSV<1>({4},VectorXcd::Unit(4,1)))(0),4.,1e-12,"rate in the one-photon state");}
