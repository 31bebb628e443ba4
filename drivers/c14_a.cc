#include "interactions.h"
using namespace sys;

// what the coupling adds to the derivative, transformed back to the Schroedinger picture with the exact parts of the free systems
template<int R> static void coupling(Ctx& c, const IA<R>& ia)
{
  const auto d=ia.dims(); const long n=prod(d); const auto h=std::dynamic_pointer_cast<const structure::Hamiltonian<R>>(ia.p); double zm=1; for (auto& x : ia.f) zm+=x.z*x.dim;
  const double t0=c.boolean() ? c.real(-3.,5.) : 0, ta=(c.boolean(.15) ? 0 : c.real(-.5,1.5))/zm; c.note(ia.name,", t0 ",t0,", tau ",ta); c.nontrivial(ia.K.cwiseAbs().maxCoeff()>0);
  for (int i=0; i<R; ++i) c.check(int(ia.p->getDimension(i))==d[i] && ia.p->getFrees()[i].get()==ia.f[i].p.get(),"subsystem ",i," of the interaction is not the announced one");
  if (!h) {c.check(ia.K.cwiseAbs().maxCoeff()==0,"no Hamiltonian for a non-vanishing coupling"); return;}
  const VectorXcd u=freeExact(ia.f,t0+ta,t0), base=gaussian(c,n); MatrixXcd m(n,n), w=ia.K; std::vector<char> inner(n,1);
  // a few earlier calls at other instants must not matter
  for (int k=c.range(0,2); k; --k) {const double t=t0+c.real(-.5,.5)/zm; auto psi=makeSV<R>(d,gaussian(c,n)), dp=makeSV<R>(d,base); h->addContribution(t,psi.getArray(),dp.getArray(),t0);}
  for (long j=0; j<n; ++j) {auto psi=makeSV<R>(d,VectorXcd::Unit(n,j)), dp=makeSV<R>(d,base); h->addContribution(t0+ta,psi.getArray(),dp.getArray(),t0); m.col(j)=vec<R>(dp)-base; c.check(vec<R>(psi)==VectorXcd::Unit(n,j),"the state is changed by calculating its derivative");
    if (ia.margin) {const int k=unflat(j,d).back(); inner[j]=k>=ia.margin && k<d.back()-ia.margin;}}
  double amp=1; for (long i=0; i<n; ++i) for (long j=0; j<n; ++j) {amp=std::max(amp,std::abs(u(i)/u(j))); m(i,j)*=u(i)/u(j);}
  for (long j=0; j<n; ++j) if (!inner[j]) {m.col(j).setZero(); w.col(j).setZero();}
  same(c,m,w,1e-11*amp,"coupling H/i");
  // Hermitian, conserving, linear: on the implementation alone
  if (!ia.margin) same(c,m,MatrixXcd(-m.adjoint()),1e-11*amp,"anti-Hermiticity of H/i");
  for (long i=0; ia.conserved.size() && i<n; ++i) for (long j=0; j<n; ++j) if (ia.conserved(i)!=ia.conserved(j) && inner[j]) c.check(std::abs(m(i,j))<=1e-11,"the conserved quantity changes from ",ia.conserved(j)," to ",ia.conserved(i));
  const VectorXcd x=data(c,n); auto psi=makeSV<R>(d,x), dp=makeSV<R>(d,base); h->addContribution(t0+ta,psi.getArray(),dp.getArray(),t0); VectorXcd y=vec<R>(dp)-base, z=VectorXcd::Zero(n); const VectorXcd xs=u.cwiseProduct(x); if (!ia.margin) {z=ia.K*xs; z=z.cwiseQuotient(u); same(c,y,z,1e-11*amp*std::max(1.,x.norm()*ia.K.norm()),"derivative of a superposition");}
}
VP_PROP("binary",20000,200000,20) {coupling(c,anyBinary(c,c.boolean(.06) ? 11 : 5));}
VP_PROP("along-cavity",6000,60000,20) {const F m=makeMode(c,modePars(c,3),anyPicture(c)); const auto p=resolvable(c,3,4,c.boolean(.8)); coupling(c,along(c,m,makePart(c,p,anyPicture(c))));}
VP_PROP("two-modes",4000,40000,20) {const F a=makeMode(c,modePars(c,3),anyPicture(c)), b=makeMode(c,modePars(c,3),anyPicture(c)); auto p=resolvable(c,2,3,c.boolean()); coupling(c,twoModes(c,a,b,makePart(c,p,anyPicture(c))));}

// couplings whose sign cannot be accommodated are refused; coupling without effect between identical particles
VP_PROP("sign-discrepancy",600,6000,20)
{
  const F m=makeMode(c,3), b=makeMode(c,3); auto q=resolvable(c,2,3,true); const double s=c.boolean() ? 1 : -1, v=c.real(.1,3.), u=c.real(.1,3.); q.vClass=s*v; const F p=makePart(c,q,anyPicture(c)); parameters::Table t; particlecavity::ParsAlong a0(t,"0"), a1(t,"1"); a0.kCav=a1.kCav=1; const int kind=c.range(0,3); const bool ok=c.boolean(); a0.uNot=(ok ? s : -s)*u; a1.uNot=s*v; c.note("kind ",kind,", U ",a0.uNot,", against ",s*v); c.nontrivial(); bool thrown=false;
  try {switch (kind) {case 0: ParticleOrthogonalToCavity(m.mode,p.ppart,a0); break; case 1: ParticleAlongCavity(m.mode,p.ppart,a0); break; case 2: ParticleAlongCavity(m.mode,p.part,a0,s*v); break; default: ParticleTwoModes(m.mode,b.mode,p.part,a0,a1,c.real(-1.,1.));}} catch (const std::domain_error&) {thrown=true;}
  c.check(thrown!=ok,ok ? "like signs refused" : "opposite signs accepted");
}
VP_PROP("identical-particles",100,1000,20)
{
  const F p=makePart(c,partPars(c,1,3),anyPicture(c)); const auto ia=std::make_shared<IdenticalParticles<3>>(p.part); c.note(p.name); c.nontrivial(); c.check(!std::dynamic_pointer_cast<const structure::Hamiltonian<3>>(structure::InteractionPtr<3>(ia)),"identical particles interact"); for (int i=0; i<3; ++i) c.check(ia->getFrees()[i].get()==p.p.get() && int(ia->getDimension(i))==p.dim,"particle ",i);
}
