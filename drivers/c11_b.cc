#include "multilevel.h"
#include "BichromaticMode.h"
using namespace sys;

VP_PROP("multilevel",1500,20000,20)
{
  anyML(c,[&](const auto& f) {
    const int n=f.dim; const QuantumSystemWrapper<1> w(f.p); c.note(f.name); c.nontrivial(f.J.size()>0); c.check(int(f.p->getDimension())==n,"dimension");
    same(c,contribution<1>(c,w,{n},c.real(0.,2.),c.real(0.,1.),true),f.G,1e-12,"H/i"); const size_t K=w.template nAvr<structure::LA_Li>(); c.check(K==f.J.size(),"number of jumps: ",K," instead of ",f.J.size());
    const MatrixXcd rho=densityMatrix(c,n); VectorXcd psi=data(c,n); psi/=psi.norm(); const auto D=makeDO<1>({n},rho); const auto P=makeSV<1>({n},psi); const double t=c.real(0.,2.); const auto rp=w.template average<structure::LA_Li>(t,P), rm=w.template average<structure::LA_Li>(t,D); c.check(size_t(rp.size())==K && size_t(rm.size())==K,"number of rates");
    MatrixXcd diff=MatrixXcd::Zero(n,n); const MatrixXcd r=gaussianM(c,n,n); MatrixXcd loss=f.G+f.G.adjoint();
    for (size_t k=0; k<K; ++k) {
      same(c,jumpMatrix<1>(w,{n},k,t),f.J[k],1e-12,"jump operator ",k); MatrixXcd b=gaussianM(c,n,n); auto d=makeDO<1>({n},b), in=makeDO<1>({n},r); w.actWithSuperoperator(t,in.getArray(),d.getArray(),k); const MatrixXcd got=mat<1>(d)-b, want=f.J[k]*r*f.J[k].adjoint();
      if (f.special[k]) {c.check(rp(k)<0 && rm(k)<0,"rate of phase noise"); diff+=got-want;} // only their sum is determined, up to the normalisation
      else {same(c,got,want,1e-12*std::max(1.,f.J[k].squaredNorm()),"superoperator ",k); c.near(rp(k),(f.J[k]*psi).squaredNorm(),1e-12,"rate ",k); c.near(rm(k),(f.J[k]*rho*f.J[k].adjoint()).trace().real(),1e-12,"rate ",k," of a mixed state"); loss+=f.J[k].adjoint()*f.J[k];}
    }
    same(c,loss,MatrixXcd(MatrixXcd::Zero(n,n)),1e-12,"norm loss");
    // phase noise: what the superoperators do differs from sandwiching by a multiple of the density operator only
    if (f.parV.size()) {const dcomp x=diff(0,0)/r(0,0); same(c,diff,MatrixXcd(x*r),1e-10*std::max(1.,std::abs(x)),"phase-noise superoperators, up to the normalisation");}
  });
}

// --- the beating of the two pumps of a bichromatic mode: the effective Hamiltonian at a given instant may not depend on when the last step started
static void bichromatic(Ctx& c, double t0, double tau, const ModePars& m, double deltaO, dcomp etaO)
{
  parameters::Table t; mode::ParsBichromatic p(t); p.cutoff=m.cutoff; p.delta=m.delta; p.omegaKerr=m.kerr; p.omegaKerrAlter=m.kerrA; p.kappa=m.kappa; p.nTh=m.nTh; p.eta=m.eta; p.deltaOther=deltaO; p.etaOther=etaO;
  F f=makeMode(c,m,QMP_IP,mode::make<mode::Averaged>(p,QMP_IP)); const MatrixXcd a=destroy(f.dim); const dcomp e=etaO*std::exp(dcomp(0,m.delta-deltaO)*(t0+tau)); f.G+=e*a.adjoint()-std::conj(e)*a; const QuantumSystemWrapper<1> w(f.p); c.note("bichromatic ",f.name,", other pump ",etaO," detuned by ",deltaO,", t0 ",t0,", tau ",tau); c.nontrivial(f.dim>1);
  same(c,traceless(generator<1>(c,w,{f.dim},tau,t0,1e-2/f.scale())),traceless(f.G),2e-9,"H/i of the bichromatic mode");
}
VP_PROP("bichromatic/within-step",800,10000,20) {const auto m=modePars(c,7); bichromatic(c,0,c.real(0.,1.)/std::max(1.,m.kappa*(2*m.nTh+1)*m.cutoff),m,c.real(-5.,5.),c.boolean(.2) ? dcomp(0) : c.cplx(3.));}
VP_KNOWN("bichromatic/later-step","C11-bichromatic-phase-reset",20) {bichromatic(c,1.,.1,ModePars{4,-1.,0,0,.5,0,dcomp(1,0)},-2.,dcomp(0,1));}
