#pragma once
#include "c16_common.h"
#include "StochasticTrajectory.h"

struct P18 {size_t n; double dp, tol, eps; unsigned long seed, stream; int logLevel; size_t nBins, perBin;};
inline P18 ensemblePars(Ctx& c, int maxN) {P18 q; q.n=size_t(c.range(1,maxN)); q.dp=c.logReal(1e-3,.2); q.tol=c.oneOf({10.,2.,1.}); q.eps=c.logReal(1e-9,1e-4); q.seed=c.choice(1u<<20); q.stream=c.choice(1000); q.logLevel=c.range(0,3); q.nBins=size_t(c.oneOf({0,1,3,10})); q.perBin=size_t(c.oneOf({50,1,2,5})); return q;}
inline void put(quantumtrajectory::mcwf::Pars<pcg64>& p, const P18& q) {p.nTraj=q.n; p.dpLimit=q.dp; p.overshootTolerance=q.tol; p.epsRel=p.epsAbs=q.eps; p.seed=q.seed; p.prngStream=q.stream; p.logLevel=q.logLevel; p.nBins=q.nBins; p.nJumpsPerBin=q.perBin;}
template<int R> using V18=std::conditional_t<R==2,tmptools::Vector<0>,tmptools::V_Empty>;
template<template<int> class OE, int R> auto makeEns(const Whole<R>& w, const VectorXcd& psi, const P18& q, std::bitset<3> ems={}) {parameters::Table t; quantumtrajectory::mcwf::Pars<pcg64> p(t); put(p,q); return quantumtrajectory::mcwf::makeEnsemble<OE<R>,pcg64,V18<R>>(w.p,makeSV<R>(w.d,psi),p,ems);}
template<template<int> class OE, int R> auto makeSingle(const Whole<R>& w, const VectorXcd& psi, P18 q, size_t i) {parameters::Table t; quantumtrajectory::mcwf::Pars<pcg64> p(t); q.stream+=i; q.logLevel=0; put(p,q); return quantumtrajectory::mcwf::make<OE<R>,pcg64>(w.p,makeSV<R>(w.d,psi),p);}
// the members of an ensemble, through its state archive
template<template<int> class OE, int R, typename E> auto members(const Whole<R>& w, E& e, const P18& q)
{
  std::stringstream s; {cppqedutils::oarchive oa(s); e.stateIO(oa);} cppqedutils::iarchive ia(s); using T=decltype(makeSingle<OE,R>(w,VectorXcd(),q,0)); std::vector<T> r; r.reserve(q.n);
  for (size_t i=0; i<q.n; ++i) {P18 z=q; z.seed=77; r.push_back(makeSingle<OE,R>(w,VectorXcd(VectorXcd::Unit(w.n(),0)),z,1000+i)); r.back().stateIO(ia);} return r;
}

// the ensemble is the mean of separately run single trajectories with successive streams, whatever the history of advances
template<template<int> class OE, int R> void ensemble(Ctx& c, const std::vector<Whole<R>>& ww, int maxN)
{
  const auto& w=ww[0]; if (w.heated) c.discard(); const P18 q=ensemblePars(c,maxN); const VectorXcd psi=initial(c,w.n()); const std::bitset<3> ems(R==2 ? c.choice(8) : 0); const int rounds=c.range(1,4); c.note(w.name,", ",q.n," members, seed ",q.seed," stream ",q.stream,", dpLimit ",q.dp,", tolerance ",q.eps);
  auto e=makeEns<OE,R>(w,psi,q,ems); decltype(makeSingle<OE,R>(w,psi,q,0))* dummy=nullptr; std::vector<std::decay_t<decltype(*dummy)>> y; y.reserve(q.n); for (size_t i=0; i<q.n; ++i) y.push_back(makeSingle<OE,R>(ww[1],psi,q,i));
  std::ostringstream lg; double t=0; c.check(e.getTime()==0,"time at start"); {const MatrixXcd r=mat<R>(e.averaged()); c.check((r-psi*psi.adjoint()).cwiseAbs().maxCoeff()<1e-13,"average at start");}
  for (int r=0; r<rounds; ++r) {
    const double T=c.logReal(.01,3.)/w.scale(); cppqedutils::advance(e,T,lg); t+=T; for (auto& s : y) cppqedutils::advance(s,T,lg); c.near(e.getTime(),t,1e-12,"time after advancing by ",T);
    auto x=members<OE,R>(ww[2],e,q); MatrixXcd mean=MatrixXcd::Zero(w.n(),w.n()); double dt=0;
    for (size_t i=0; i<q.n; ++i) {
      const VectorXcd a=vec<R>(x[i].getStateVector()), b=vec<R>(y[i].getStateVector()); mean+=b*b.adjoint()/double(q.n); dt+=y[i].getDtDid()/double(q.n); c.near(x[i].getTime(),t,1e-12,"time of member ",i);
      const auto &l=x[i].getLogger().getTrajectory(), &m=y[i].getLogger().getTrajectory(); c.check(l.size()==m.size(),"member ",i,": ",l.size()," jumps, the single trajectory with this stream has ",m.size()); for (auto p=l.begin(), o=m.begin(); p!=l.end(); ++p, ++o) {c.near(p->first,o->first,1e-7,"member ",i,": instant of a jump"); c.check(p->second==o->second,"member ",i,": channel of a jump");}
      c.near(b.norm(),1.,1e-6,"norm of member ",i); c.check((a-b).norm()<1e-7,"member ",i," differs from the single trajectory with this stream by ",(a-b).norm());
    }
    const MatrixXcd got=mat<R>(e.averaged()); c.check((got-mean).cwiseAbs().maxCoeff()<1e-7,"ensemble average differs from the mean of the members' projectors by ",(got-mean).cwiseAbs().maxCoeff()); {MatrixXcd m2=MatrixXcd::Zero(w.n(),w.n()); for (auto& z : x) {const VectorXcd a=vec<R>(z.getStateVector()); m2+=a*a.adjoint()/double(q.n);} c.check((got-m2).cwiseAbs().maxCoeff()<1e-13,"ensemble average is not the mean of its members"); mean=m2;} c.check(mat<R>(e.averaged())==got,"asking for the average again gives another one");
    c.near(e.getDtDid(),dt,1e-6,"mean of the last steps");
    const int prec=c.range(3,10); std::ostringstream o,o2; const auto av=std::get<1>(e.stream(o,prec)); const QuantumSystemWrapper<R> qs(w.p,true); const auto rv=std::get<1>(qs.stream(t,makeDO<R>(w.d,mean),o2,prec)); std::vector<double> want; for (int i=0; i<rv.extent(0); ++i) want.push_back(rv(i));
    if (R==2) {if (ems[0]) want.push_back(negativityRef(mean,w.d)); const MatrixXcd A=reduced(mean,{0},w.d); if (ems[1]) want.push_back(entropyRef(A)+entropyRef(reduced(mean,{R-1},w.d))-entropyRef(mean)); if (ems[2]) want.push_back((A*A).trace().real());}
    const auto line=parseOutput(o.str()); c.check(want.empty() || (line.data.size()==1 && line.data[0].size()==want.size()),"number of columns: ",o.str(),", should be ",want.size()); c.check(size_t(av.size())==want.size(),"number of returned averages ",av.size()); for (size_t i=0; i<want.size(); ++i) {c.near(av(int(i)),want[i],i<size_t(rv.size()) ? 1e-10 : 3e-6,"average ",i); printed(c,line.data[0][i],av(int(i)),prec,"streamed average");}
  }
  auto x=members<OE,R>(ww[2],e,q); size_t jumps=0; for (auto& z : x) jumps+=z.getLogger().getTrajectory().size(); if (jumps) c.label("jumps"); c.nontrivial(q.n>1 && w.n()>1);
  // the summary at the end
  std::ostringstream s; e.logOnEnd(s); const std::string txt=s.str(), key="Average number of total jumps: "; const auto at=txt.find(key); c.check(at!=std::string::npos,"no mean number of jumps in the summary: ",txt); std::istringstream in(txt.substr(at+key.size())); double mj=-1; in>>mj; c.near(mj,double(jumps)/double(q.n),1e-5,"mean number of jumps in the summary");
  if (const auto h=txt.find("Histogram of jumps. Number of bins="); h!=std::string::npos && jumps>0) {std::istringstream l(txt.substr(h)); std::string first; std::getline(l,first); double a,b,sum=0; int bins=0; while (l>>a>>b) {sum+=b; ++bins;} if (jumps>1) c.check(std::abs(sum-1)<1e-4*bins,"fractions in the histogram of jumps sum to ",sum," of ",jumps,": ",txt);}
  // random sequences of the members are mutually different
  std::vector<std::array<double,3>> u; for (auto& z : x) u.push_back({z.sampleRandom(),z.sampleRandom(),z.sampleRandom()}); std::sort(u.begin(),u.end()); c.check(std::adjacent_find(u.begin(),u.end())==u.end(),"two members use the same random sequence");
  if (c.boolean(.1)) {std::vector<std::array<double,3>> f; for (unsigned long i=0; i<3; ++i) for (unsigned long j=0; j<3; ++j) {P18 z=q; z.seed+=i; z.stream+=j; auto s=makeSingle<OE,R>(ww[1],psi,z,0); f.push_back({s.sampleRandom(),s.sampleRandom(),s.sampleRandom()});} std::sort(f.begin(),f.end()); c.check(std::adjacent_find(f.begin(),f.end())==f.end(),"trajectories of different seeds and streams use the same random sequence");}
}

// many members: the Lindblad equation, within an empirical-Bernstein bound (failure probability below 1e-11 per case)
template<int R> void converges(Ctx& c, const Whole<R>& w, size_t N)
{
  if (w.heated || w.J.empty()) c.discard(); const long n=w.n(); const VectorXcd psi=initial(c,n); P18 q{N,.01,10.,1e-6,c.choice(1u<<20),c.choice(1000),0,0,50}; double r=w.total(psi); for (auto& m : w.Rt) r=std::max(r,m.diagonal().cwiseAbs().maxCoeff()); if (!(r>0)) c.discard(); const double T=std::min(c.real(.2,2.5)/r,20/w.scale());
  MatrixXcd A=densityMatrix(c,n)-densityMatrix(c,n); {const VectorXd s=spectrum(A); const double b=s.cwiseAbs().maxCoeff(); if (b<1e-3) c.discard(); A/=b;} c.note(w.name,", ",N," members, T ",T,", seed ",q.seed," ",q.stream);
  auto e=makeEns<OB,R>(w,psi,q); std::ostringstream lg; e.advance(T,lg); const MatrixXcd rho=mat<R>(e.averaged()), ref=Lindblad(w)(psi*psi.adjoint(),T); auto x=members<OB,R>(w,e,q); size_t jumps=0; double m=0, m2=0; for (auto& z : x) {jumps+=z.getLogger().getTrajectory().size(); const VectorXcd v=vec<R>(z.getStateVector()); const double a=(v.adjoint()*A*v)(0,0).real(); m+=a; m2+=a*a;} m/=double(N); const double var=std::max(0.,m2/double(N)-m*m), L=std::log(3e11);
  const double bias=3*q.dp*(1+double(jumps)/double(N)), tol=std::sqrt(2*var*L/double(N))+3*2*L/double(N)+bias, d=std::abs(m-(A*ref).trace().real()); c.check(std::abs((A*rho).trace().real()-m)<1e-10,"average is not the mean: ",(A*rho).trace().real()," ",m," norm ",vec<R>(x[0].getStateVector()).norm()); c.margin(d/tol); c.check(d<=tol,"an expectation value in the ensemble differs from the one given by the master equation by ",d,", allowed ",tol," (variance ",var,")"); c.nontrivial(jumps>N/10); if (jumps>N/10) c.label("jumps"); 
}
