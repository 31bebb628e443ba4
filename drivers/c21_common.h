// the evolve front end: from a command line to the streamed output and the final state
#pragma once
#include "c18_common.h"
#include "Pars.h"
struct Args {
  std::vector<std::string> w{"program"}; std::vector<char*> v;
  template<typename T> Args& operator()(const std::string& n, const T& x) {std::ostringstream o; o.precision(17); o<<x; w.push_back("--"+n); w.push_back(o.str()); return *this;}
  Args& flag(const std::string& n) {w.push_back("--"+n); return *this;}
  int argc() const {return int(w.size());} char** argv() {v.clear(); for (auto& s : w) v.push_back(s.data()); v.push_back(nullptr); return v.data();}
  std::string text() const {std::string s; for (auto& x : w) s+=(s.empty() ? "" : " ")+x; return s;}
};
template<int R> std::vector<double> averages(const Whole<R>& w, double t, const MatrixXcd& rho, std::bitset<3> ems, int v)
{
  std::vector<double> r; std::ostringstream o; const QuantumSystemWrapper<R> q(w.p,true); const auto a=std::get<1>(q.stream(t,makeDO<R>(w.d,(rho+rho.adjoint())/2.),o,5)); for (int i=0; i<a.extent(0); ++i) r.push_back(a(i));
  if (R==2) {if (ems[0]) r.push_back(negativityRef(rho,w.d)); const MatrixXcd A=reduced(rho,{v},w.d), B=reduced(rho,{1-v},w.d); if (ems[1]) r.push_back(entropyRef(A)+entropyRef(B)-entropyRef(rho)); if (ems[2]) r.push_back((A*A).trace().real());} return r;
}
// ww: copies of the same system
template<int R> void front(Ctx& c, const std::vector<Whole<R>>& ww)
{
  const auto& w=ww[0]; const auto m=c.oneOf({evolution::SINGLE,evolution::ENSEMBLE,evolution::MASTER}); const long n=w.n(); if (m!=evolution::MASTER && w.heated) c.discard(); if (m==evolution::MASTER && (!applicable(w) || !clearlyApplicable(w))) c.discard();
  const VectorXcd psi0=initial(c,n); const std::bitset<3> ems(R==2 ? c.choice(8) : 0); const int v=R==2 ? c.range(0,1) : 0; const P18 q=ensemblePars(c,5); const double T=c.logReal(.3,6.)/w.scale(), Dt=T/c.logReal(.9,7.); const int dc=c.range(1,7), prec=c.range(3,10); const bool steps=m!=evolution::ENSEMBLE && c.boolean(.4), counted=!steps && c.boolean(.4), file=c.boolean(), info=c.boolean(.7); const int NDt=c.range(1,6); const std::string fn=vp::scratch()+"/out";
  Args a; std::vector<std::function<void()>> put{[&] {if (m!=evolution::SINGLE || c.boolean()) a("evol",m==evolution::SINGLE ? "single" : m==evolution::MASTER ? "master" : "ensemble");},[&] {a("eps",q.eps)("epsAbs",q.eps);},[&] {a("seed",q.seed)("prngStream",q.stream);},[&] {a("dpLimit",q.dp)("overshootTolerance",q.tol);},[&] {if (m==evolution::ENSEMBLE) a("nTraj",q.n);},[&] {if (counted) a("NDt",NDt)("Dt",Dt)("dc",0); else {a("T",T); if (steps) a("dc",dc); else a("dc",0)("Dt",Dt);}},[&] {a("precision",prec);},[&] {if (R==2) a("ems",ems.to_string());},[&] {if (file) a("o",fn);},[&] {if (!info) a.flag("no_streamInfo");}};
  for (size_t i=put.size(); i>1; --i) std::swap(put[i-1],put[c.choice(i)]); for (auto& f : put) f(); c.note(w.name,": ",a.text());
  parameters::Table t; evolution::Pars<> p(t); parameters::update(t,a.argc(),a.argv(),"--"); SV<R> psi(makeSV<R>(w.d,psi0)); evolution::TemporalStreamedArray res; std::string out; {CoutCapture cap; if constexpr (R==2) res=v ? evolve<1>(psi,ww[1].p,p,true,true) : evolve<0>(psi,ww[1].p,p,true,true); else res=evolve(psi,ww[1].p,p,true,true); out=cap.s.str();}
  if (file) out=slurp(fn); const auto text=parseOutput(out); c.check(text.data.size()==res.size() && !res.empty(),text.data.size()," lines streamed, ",res.size()," returned"); const double end=counted ? NDt*Dt : T;
  if (!steps) c.check(res.size()==size_t(counted ? NDt : std::ceil(T/Dt-1e-9))+1,res.size()," lines"); c.near(std::get<0>(res.back()),end,1e-9*end,"end of the run"); c.check(std::get<0>(res.front())==0,"start of the run");
  // the reference, following the streamed instants
  decltype(makeSingle<OB,R>(w,psi0,q,0))* dummy=nullptr; std::vector<std::decay_t<decltype(*dummy)>> y; const size_t N=m==evolution::SINGLE ? 1 : m==evolution::ENSEMBLE ? q.n : 0; y.reserve(N); for (size_t i=0; i<N; ++i) y.push_back(makeSingle<OB,R>(ww[2],psi0,q,i)); const bool exact=m==evolution::MASTER || w.J.empty(); std::unique_ptr<Lindblad> L; if (exact) L=std::make_unique<Lindblad>(w); std::ostringstream lg; size_t line=0; long done=0; MatrixXcd rho=psi0*psi0.adjoint(), ref=rho; size_t jumps=0;
  for (auto& [tt,dt,av] : res) {
    double mean=0; if (N) {rho.setZero(); for (auto& s : y) {if (steps) {if (line) for (int k=0; k<dc && s.getTime()<tt; ++k) {s.step(T-s.getTime(),lg); ++done;}} else cppqedutils::advance(s,tt-s.getTime(),lg); c.near(s.getTime(),tt,1e-9*std::max(1.,end),"instant of line ",line); const VectorXcd x=vec<R>(s.getStateVector()); rho+=x*x.adjoint()/double(N); mean+=s.getDtDid()/double(N);} c.near(dt,mean,1e-6,"last step at time ",tt);}
    if (exact) {ref=L->operator()(MatrixXcd(psi0*psi0.adjoint()),tt); if (!N) rho=ref;}
    auto compare=[&](const MatrixXcd& r, double tol, double tolEms, const char* what) {const auto want=averages<R>(w,tt,r,m==evolution::SINGLE ? std::bitset<3>() : ems,v); c.check(size_t(av.size())==want.size(),av.size()," quantities instead of ",want.size()); for (size_t k=0; k<want.size(); ++k) if (std::isfinite(want[k]) && (tol<1e-6 || std::abs(want[k])>2e-3)) {const double e=std::abs(av(int(k))-want[k])/((k<size_t(want.size())-(m==evolution::SINGLE ? 0 : ems.count()) ? tol : tolEms)*std::max(1.,std::abs(want[k]))); c.margin(e); c.check(e<1,"quantity ",k," at time ",tt,": ",av(int(k))," instead of ",want[k],what);}};
    if (N) compare(rho,3e-7,3e-5,", as given by the trajectories run one by one"); if (exact && q.eps<3e-6) compare(ref,2e-3,2e-2,", as given by the Lindblad equation");
    const auto& d=text.data[line]; c.check(d.size()==size_t(av.size())+2,"line ",line," has ",d.size()," columns"); printed(c,d[0],tt,prec,"time"); printed(c,d[1],dt,prec,"last step"); for (int k=0; k<av.extent(0); ++k) printed(c,d[k+2],av(k),prec,"streamed quantity"); ++line;
  }
  for (auto& s : y) jumps+=s.getLogger().getTrajectory().size();
  // the evolved state is accessible through the initial one, except for ensembles and the master equation from a state vector
  const VectorXcd now=vec<R>(psi); if (m==evolution::SINGLE) {const VectorXcd f=vec<R>(y[0].getStateVector()); c.check((now-f).norm()<1e-7,"the final state is not found in the initial state vector, distance ",(now-f).norm());} else c.check(now==psi0,"the initial condition is changed by the evolution");
  if (info) {std::string head; {std::istringstream in(out); std::string l; while (std::getline(in,l) && (l.empty() || l[0]=='#')) head+=l+"\n";} const long cols=legend(c,parseOutput(head)); c.check(cols==long(text.data[0].size()),"legend announces ",cols," columns, there are ",text.data[0].size());}
  c.label(m==evolution::SINGLE ? "single" : m==evolution::MASTER ? "master" : "ensemble"); if (jumps) c.label("jumps"); c.nontrivial(n>1 && res.size()>2);
}
// mixed initial condition
template<int R> void fromMixed(Ctx& c, const Whole<R>& w)
{
  if (!applicable(w) || !clearlyApplicable(w)) c.discard(); const long n=w.n(); const MatrixXcd rho0=densityMatrix(c,n); const double T=c.logReal(.3,6.)/w.scale(); Args a; a("T",T)("dc",0)("Dt",T/c.range(1,5))("eps",1e-9)("epsAbs",1e-10); const std::bitset<3> ems(R==2 ? c.choice(8) : 0); if (R==2) a("ems",ems.to_string()); parameters::Table t; evolution::Pars<> p(t); parameters::update(t,a.argc(),a.argv(),"--"); c.note(w.name,": ",a.text()); DO<R> rho(makeDO<R>(w.d,rho0)); evolution::TemporalStreamedArray res;
  {CoutCapture cap; if constexpr (R==2) res=evolveMaster<cppqedutils::ODE_EngineBoost,0>(rho,w.p,p,true,true); else res=evolveMaster<cppqedutils::ODE_EngineBoost>(rho,w.p,p,true,true);} const Lindblad L(w); for (auto& [tt,dt,av] : res) {const auto want=averages<R>(w,tt,L(rho0,tt),ems,0); c.check(size_t(av.size())==want.size(),"number of quantities"); for (size_t k=0; k<want.size(); ++k) if (std::isfinite(want[k]) && std::abs(want[k])>2e-3) {const double e=std::abs(av(int(k))-want[k])/(1e-4*std::max(1.,std::abs(want[k]))); c.margin(e); c.check(e<1,"quantity ",k," at time ",tt,": ",av(int(k))," instead of ",want[k]);}}
  const MatrixXcd f=L(rho0,T); c.check((mat<R>(rho)-f).cwiseAbs().maxCoeff()<1e-5,"the final state is not found in the initial density operator: differs by ",(mat<R>(rho)-f).cwiseAbs().maxCoeff()); c.nontrivial(n>1);
}
// a run continued by calling evolve again with the same output file: the final state is found in the given state, and is that of the uninterrupted evolution
template<int R> void resumed(Ctx& c, const std::vector<Whole<R>>& ww)
{
  const auto& w=ww[0]; const bool master=c.boolean(); const long n=w.n(); if (!master && w.heated) c.discard(); if (master && (!applicable(w) || !clearlyApplicable(w))) c.discard(); const VectorXcd psi0=initial(c,n); const MatrixXcd rho0=densityMatrix(c,n); P18 q=ensemblePars(c,1); q.tol=10; const double T=c.logReal(.5,6.)/w.scale(), Dt=T/c.range(2,8); const int segs=c.range(1,3); const std::string fn=vp::scratch()+"/out"; const bool initial=c.boolean(.3); double reached=0; c.note(w.name,master ? ", master" : ", single",", T ",T,", ",segs," segments",initial ? ", from initial files" : "");
  using A=std::conditional_t<R==2,tmptools::Vector<0>,tmptools::V_Empty>; auto live=makeSingle<OB,R>(ww[2],psi0,q,0); std::ostringstream lg; std::unique_ptr<Lindblad> L; if (master) L=std::make_unique<Lindblad>(w); std::string last;
  for (int s=0; s<segs; ++s) {
    const double to=s==segs-1 ? T : T*(s+1)/segs; Args a; a("T",to)("dc",0)("Dt",Dt)("eps",master ? 1e-9 : q.eps)("epsAbs",master ? 1e-9 : q.eps)("seed",q.seed+(s ? 5 : 0))("prngStream",q.stream)("dpLimit",q.dp)("overshootTolerance",q.tol); const std::string ofn=initial ? fn+std::to_string(s) : fn; a("o",ofn); if (initial && s) a("initialFileName",last+".state"); last=ofn; parameters::Table t; evolution::Pars<> p(t); parameters::update(t,a.argc(),a.argv(),"--");
    if (master) {DO<R> rho(makeDO<R>(w.d,s ? densityMatrix(c,n) : rho0)); evolveMaster<cppqedutils::ODE_EngineBoost,A>(rho,ww[1].p,p); const MatrixXcd f=L->operator()(rho0,to); c.check((mat<R>(rho)-f).cwiseAbs().maxCoeff()<2e-5,"segment ",s,": the final state is not found in the given density operator: differs by ",(mat<R>(rho)-f).cwiseAbs().maxCoeff());}
    else {SV<R> psi(makeSV<R>(w.d,s ? sys::initial(c,n) : psi0)); evolve<A>(psi,structure::QuantumSystemPtr<R>(ww[1].p),p); while (to-live.getTime()>0) cppqedutils::advance(live,std::min(Dt,to-live.getTime()),lg); const VectorXcd f=vec<R>(live.getStateVector()); c.check((vec<R>(psi)-f).norm()<1e-6,"segment ",s,": the final state is not found in the given state vector: distance ",(vec<R>(psi)-f).norm());}
    reached=to;
  }
  c.nontrivial(segs>1 && n>1); c.label(master ? "master" : "single"); (void)reached;
}
