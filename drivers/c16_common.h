#pragma once
#include "quantum.h"
#include "traj_common.h"
#include "Evolution.h"
using namespace sys;

// solution of the Lindblad equation by the exponential of the dense superoperator, normalised
struct Lindblad {
  long n; MatrixXcd L;
  template<int R> explicit Lindblad(const Whole<R>& w) : n(w.n())
  {
    const MatrixXcd I=MatrixXcd::Identity(n,n); L=kron(w.G,I)+kron(I,MatrixXcd(w.G.conjugate())); for (auto& j : w.J) L+=kron(j,MatrixXcd(j.conjugate()));
  }
  VectorXcd flat(const MatrixXcd& m) const {VectorXcd v(n*n); for (long i=0; i<n; ++i) for (long j=0; j<n; ++j) v(i*n+j)=m(i,j); return v;}
  MatrixXcd back(const VectorXcd& v) const {MatrixXcd m(n,n); for (long i=0; i<n; ++i) for (long j=0; j<n; ++j) m(i,j)=v(i*n+j); return m;}
  MatrixXcd operator()(const MatrixXcd& rho, double t) const {const MatrixXcd m=back(expm(L*t)*flat(rho)); return m/m.trace();}
};
inline bool unitaryExact(const QuantumSystemWrapper<1>& w, int d) {if (!w.getEx()) return true; const VectorXcd u=exactDiag<1>(w,{d},.37,0); for (long i=0; i<u.size(); ++i) if (std::abs(std::abs(u(i))-1)>1e-9) return false; return true;}
// the documented limitation: the exact part has to be unitary, and must not alter the effect of any jump, i.e. J_T rho J_T^dagger = J rho J^dagger
inline bool jumpsUnaltered(const F& f) {const QuantumSystemWrapper<1> w(f.p); if (!w.getEx()) return true; const VectorXcd u=exactDiag<1>(w,{f.dim},.37/f.scale(),0); for (auto& j : f.J) {dcomp ph=0; for (long a=0; a<f.dim; ++a) for (long b=0; b<f.dim; ++b) if (std::abs(j(a,b))>1e-12) {const dcomp x=std::conj(u(a))*u(b); if (ph==0.) ph=x; else if (std::abs(ph-x)>1e-9) return false;}} return true;}
template<int R> bool applicable(const Whole<R>& w) {for (auto& f : w.parts) if (!unitaryExact(QuantumSystemWrapper<1>(f.p),f.dim) || !jumpsUnaltered(f)) return false; return true;}

template<int R> bool clearlyApplicable(const Whole<R>& w) {for (auto& f : w.parts) if (isExact(f) && ((f.z && !(f.mode && f.pic==QMP_UIP)) || (f.kerrExact && !f.J.empty()))) return false; return true;}

// the density operator of a running master equation, through its state archive
template<int R, typename M> MatrixXcd rhoOf(M& m) {std::stringstream s; {cppqedutils::oarchive oa(s); m.stateIO(oa);} cppqedutils::iarchive ia(s); CArray<2*R> a; ia & a; return toMat<2*R>(a);}

inline VectorXd spectrum(const MatrixXcd& h) {return Eigen::SelfAdjointEigenSolver<MatrixXcd>((h+h.adjoint())/2.,Eigen::EigenvaluesOnly).eigenvalues();}
inline double entropyRef(const MatrixXcd& r) {double s=0; for (double e : spectrum(r)) if (e>1e-300) s-=e*std::log(e); return s;}
inline double negativityRef(const MatrixXcd& r, const std::vector<int>& d) {MatrixXcd t(r.rows(),r.cols()); for (long i=0; i<r.rows(); ++i) for (long j=0; j<r.cols(); ++j) {auto a=unflat(i,d), b=unflat(j,d); std::swap(a[0],b[0]); t(flat(a,d),flat(b,d))=r(i,j);} double s=0; for (double e : spectrum(t)) if (e<0) s-=e; return s;}

template<int R, typename V, template<int> class ME> auto makeMaster(const Whole<R>& w, const MatrixXcd& rho, double eps, std::bitset<3> ems={}, int logLevel=0)
{
  parameters::Table t; quantumtrajectory::master::Pars p(t); p.epsRel=p.epsAbs=eps; p.logLevel=logLevel; return quantumtrajectory::master::make<ME<R>,V>(w.p,makeDO<R>(w.d,rho),p,ems);
}
template<int R, template<int> class ME> void follow(Ctx& c, const std::vector<Whole<R>>& ww)
{
  using V=std::conditional_t<R==2,tmptools::Vector<0>,tmptools::V_Empty>; const auto& w=ww[0]; const long n=w.n(); const double eps=c.logReal(1e-10,1e-5); const bool pure=c.boolean(); const VectorXcd psi=initial(c,n); const MatrixXcd rho0=pure ? MatrixXcd(psi*psi.adjoint()) : densityMatrix(c,n); const std::bitset<3> ems(R==2 ? c.choice(8) : 0);
  c.note(w.name,", tolerance ",eps,pure ? ", pure state" : ", mixed state");
  if (!applicable(w)) {bool refused=false; try {makeMaster<R,V,ME>(w,rho0,eps);} catch (const quantumtrajectory::master::SystemNotApplicable&) {refused=true;} c.check(refused,"a system with an exact part not suited to the master equation is accepted"); c.label("refused"); return;}
  if (!clearlyApplicable(w)) {try {makeMaster<R,V,ME>(w,rho0,eps);} catch (const quantumtrajectory::master::SystemNotApplicable&) {return;}} // an exact part unsuited in form, not in effect, may be refused as well
  {auto wrong=w.d; ++wrong[c.range(0,R-1)]; bool refused=false; Whole<R> x=w; x.d=wrong; const long m=x.n(); try {makeMaster<R,V,ME>(x,MatrixXcd(MatrixXcd::Identity(m,m)/double(m)),eps);} catch (const std::exception&) {refused=true;} c.check(refused,"a density operator of other dimensions is accepted");}
  auto m=makeMaster<R,V,ME>(w,rho0,eps,ems); const Lindblad L(w); const int stops=c.range(1,3); MatrixXcd ref=rho0; double t=0, err=0; int steps=0; std::ostringstream lg; const double amp=2; bool lossless=w.J.empty();
  for (int s=0; s<stops; ++s) {
    const double T=c.logReal(.05,6.)/w.scale(); ref=L(ref,T); const double end=t+T;
    while (m.getTime()<end) {const double before=m.getTime(), Dt=end-before; m.step(Dt,lg); ++steps; c.check(m.getDtDid()>0 && m.getDtDid()<=Dt*(1+1e-12),"step ",m.getDtDid()," of at most ",Dt); c.near(m.getTime(),before+m.getDtDid(),1e-13,"time"); if (end-m.getTime()<1e-13*std::max(1.,end)) break; if (steps>20000) c.fail("too many steps");
      if (steps<40) {const MatrixXcd r=rhoOf<R>(m); c.check(r==MatrixXcd(r.adjoint()) || (r-r.adjoint()).cwiseAbs().maxCoeff()<1e-14,"not Hermitian after step ",steps); c.near(r.trace(),1.,1e-12,"trace after step ",steps);}}
    t=end; const MatrixXcd got=rhoOf<R>(m); const double tol=(30+5*steps)*eps*amp+1e-11; err=std::max(err,(got-ref).cwiseAbs().maxCoeff()/tol); c.margin(err);
    c.check(err<1,"at time ",t," after ",steps," steps the density operator differs from the solution of the Lindblad equation by ",(got-ref).cwiseAbs().maxCoeff(),", allowed ",tol); c.check(spectrum(got).minCoeff()>-tol*n,"negative population ",spectrum(got).minCoeff()); if (lossless) c.near((got*got).trace(),(rho0*rho0).trace(),tol*n,"purity of a lossless system");
    // what is streamed belongs to this density operator
    const int prec=c.range(3,10); std::ostringstream o,o2; const auto av=std::get<1>(m.stream(o,prec)); const QuantumSystemWrapper<R> q(w.p,true); const auto g=makeDO<R>(w.d,got); const auto rv=std::get<1>(q.stream(t,g,o2,prec)); std::vector<double> want; for (int i=0; i<rv.extent(0); ++i) want.push_back(rv(i));
    if (R==2) {if (ems[0]) want.push_back(negativityRef(got,w.d)); const MatrixXcd A=reduced(got,{0},w.d); if (ems[1]) want.push_back(entropyRef(A)+entropyRef(reduced(got,{R-1},w.d))-entropyRef(got)); if (ems[2]) want.push_back((A*A).trace().real());}
    const auto line=parseOutput(o.str()); c.check(want.empty() || (line.data.size()==1 && line.data[0].size()==want.size()),"number of columns: ",o.str(),", should be ",want.size()); c.check(size_t(av.size())==want.size(),"number of returned averages ",av.size());
    for (size_t i=0; i<want.size(); ++i) {c.near(av(int(i)),want[i],i<size_t(rv.size()) ? 1e-10 : 3e-6,"average ",i); printed(c,line.data[0][i],av(int(i)),prec,"streamed average");}
    std::ostringstream k; m.streamKey(k); std::istringstream ks(k.str()); std::string l; long last=2; while (std::getline(ks,l)) {std::istringstream x(l); long num; char dot; if (x>>num && x.get(dot) && dot=='.') {c.check(num==last+1,"legend: ",k.str()); last=num;}} if (R==1 || ems.any()) c.check(last-2==long(want.size()),"legend announces ",last-2," columns, there are ",want.size());
  }
  c.nontrivial(n>1 && w.G.cwiseAbs().maxCoeff()>0); if (!lossless) c.label("lossy");
  if (pure) { // the state vector itself as initial condition
    parameters::Table pt; quantumtrajectory::master::Pars p(pt); p.epsRel=p.epsAbs=eps; auto a=quantumtrajectory::master::make<ME<R>,V>(ww[1].p,makeSV<R>(w.d,psi),p,0); auto b=quantumtrajectory::master::make<ME<R>,V>(ww[2].p,DO<R>(makeSV<R>(w.d,psi)),p,0);
    for (int i=0; i<4; ++i) {a.step(1/w.scale(),lg); b.step(1/w.scale(),lg);} c.check(a.getTime()==b.getTime() && rhoOf<R>(a)==rhoOf<R>(b),"a state vector and its projector evolve differently");
  }
}

// the whole way: evolve with the master-equation method, averages at every streamed instant
template<int R> void evolveIt(Ctx& c, const Whole<R>& w)
{
  if (!applicable(w) || !clearlyApplicable(w)) c.discard(); const long n=w.n(); const VectorXcd psi=initial(c,n); const bool pure=c.boolean(); const MatrixXcd rho0=pure ? MatrixXcd(psi*psi.adjoint()) : densityMatrix(c,n); parameters::Table t; evolution::Pars<> p(t); p.evol=evolution::MASTER; p.epsRel=p.epsAbs=1e-9; p.T=c.logReal(.3,6.)/w.scale(); p.dc=0; p.Dt=p.T/c.range(1,6)*c.oneOf({1.,.77}); p.precision=c.range(4,9); c.note(w.name,", T ",p.T,", Dt ",p.Dt,pure ? ", pure" : ", mixed"); c.nontrivial(n>1);
  CoutCapture cc; evolution::TemporalStreamedArray res; if (pure) res=evolve(makeSV<R>(w.d,psi),w.p,p,true,true); else res=evolveMaster<cppqedutils::ODE_EngineBoost>(makeDO<R>(w.d,rho0),w.p,p,true,true); const auto out=parseOutput(cc.s.str()); c.check(out.data.size()==res.size(),"number of lines"); const Lindblad L(w); const QuantumSystemWrapper<R> q(w.p,true);
  size_t i=0; for (auto& [tt,dt,av] : res) {const MatrixXcd ref=L(rho0,tt); std::ostringstream o; const auto want=std::get<1>(q.stream(tt,makeDO<R>(w.d,(ref+ref.adjoint())/2.),o,5)); c.check(av.size()==want.size(),"number of averages"); for (int k=0; k<want.extent(0); ++k) if (std::isfinite(want(k)) && !(std::abs(want(k))<2e-3)) {c.near(av(k),want(k),2e-5,"average ",k," at time ",tt); printed(c,out.data[i][k+2],av(k),p.precision,"streamed average");} ++i;}
  c.check(!res.empty(),"nothing streamed");
}
