// quantum trajectories: reloading, resumed runs, foreign files
#include "c09_common.h"
static P18 robust(P18 q) {if (q.tol<2) q.tol=2; return q;}
static P18 otherPars(Ctx& c, const P18& q) {P18 o=q; o.seed=q.seed+1+c.choice(100); o.stream=q.stream+c.choice(50); return o;}
template<template<int> class OE, int R> void single(Ctx& c, const std::vector<Whole<R>>& w)
{
  P18 q=robust(ensemblePars(c,1)); const VectorXcd a=initial(c,w[0].n()), b=initial(c,w[0].n()); const int level=q.logLevel; c.note(w[0].name,", seed ",q.seed,", dpLimit ",q.dp); (void)level; if (w[0].heated) c.discard(); auto live=makeSingle<OE,R>(w[0],a,q,0), re=makeSingle<OE,R>(w[1],b,otherPars(c,q),0); reload<R>(c,live,re,w[0].scale()); if (!jumpsOf(live).empty()) c.label("jumps");
}
template<template<int> class OE, int R> void ensembles(Ctx& c, const std::vector<Whole<R>>& w, int maxN)
{
  P18 q=robust(ensemblePars(c,maxN)); const VectorXcd a=initial(c,w[0].n()), b=initial(c,w[0].n()); c.note(w[0].name,", ",q.n," members, seed ",q.seed); if (w[0].heated) c.discard(); auto live=makeEns<OE,R>(w[0],a,q), re=makeEns<OE,R>(w[1],b,otherPars(c,q)); reload<R>(c,live,re,w[0].scale());
}
template<template<int> class ME, int R> void masterEq(Ctx& c, const std::vector<Whole<R>>& w)
{
  if (!applicable(w[0]) || !clearlyApplicable(w[0])) c.discard(); const double eps=c.logReal(1e-9,1e-4); const MatrixXcd a=densityMatrix(c,w[0].n()), b=densityMatrix(c,w[0].n()); c.note(w[0].name,", tolerance ",eps); using V=tmptools::V_Empty; auto live=makeMaster<R,V,ME>(w[0],a,eps), re=makeMaster<R,V,ME>(w[1],b,eps); reload<R>(c,live,re,w[0].scale());
}
static Whole<1> one(Ctx& c) {return whole(c.boolean(.2) ? noHamiltonian(c,5) : sys::anyFree(c,5));}
static Whole<2> two(Ctx& c) {return anyWhole2(c,3,2);}
VP_PROP("reload/single-1",4000,30000,20) {const auto w=vp::again(c,2,one); if (c.boolean()) single<OB,1>(c,w); else single<OG,1>(c,w);}
VP_PROP("reload/single-2",1500,10000,20) {const auto w=vp::again(c,2,two); single<OB,2>(c,w);}
VP_PROP("reload/ensemble-1",1200,10000,20) {const auto w=vp::again(c,2,one); ensembles<OB,1>(c,w,6);}
VP_PROP("reload/master-1",2500,20000,20) {const auto w=vp::again(c,2,one); if (c.boolean()) masterEq<MB,1>(c,w); else masterEq<MG,1>(c,w);}
VP_PROP("reload/master-2",500,4000,30) {const auto w=vp::again(c,2,two); if (w[0].n()>9) c.discard(); masterEq<MB,2>(c,w);}

// ---- runs in segments, each continued from the files by a program knowing nothing but its parameters
template<typename TR> auto seg(TR& tr, const std::string& ofn, double T, int dc, double Dt, unsigned sdf)
{
  CoutCapture cap; parameters::Table p; tj::Pars<> q(p); q.T=T; q.dc=dc; q.Dt=Dt; q.sdf=sdf; q.ofn=ofn; q.streamInfo=false; q.precision=formdouble::Zero(15); return cppqedutils::run(tr,q,true,true);
}
template<typename Make> void segments(Ctx& c, double scale, Make make)
{
  const std::string ofn=vp::scratch()+"/out"; auto live=make(0); const int n=c.range(2,4); double T=0; size_t lines=0, total=0; std::vector<std::vector<double>> want;
  for (int s=0; s<n; ++s) {
    T=std::max(T,live.getTime())+c.logReal(.3,4.)/scale; const int dc=c.boolean() ? c.range(1,6) : 0; const double Dt=(T-live.getTime())/c.logReal(.9,5.); const unsigned sdf=unsigned(c.range(0,3)); c.note(", to ",T,dc ? ", dc " : ", Dt ",dc ? double(dc) : Dt);
    const auto L=seg(live,"",T,dc,Dt,0); size_t k=0; for (auto& [t,dt,av] : L) {if (s && !k++) continue; std::vector<double> v{t}; for (int i=0; i<av.extent(0); ++i) v.push_back(av(i)); want.push_back(v);}
    auto fresh=make(s+1); seg(fresh,ofn,T,dc,Dt,sdf); c.near(fresh.getTime(),live.getTime(),1e-6*std::max(1.,live.getTime()),"end of segment ",s); const double d=(content<1>(live)-content<1>(fresh)).cwiseAbs().maxCoeff(); c.check(d<1e-6,"segment ",s,": the resumed trajectory ends in a state differing by ",d," from the uninterrupted one"); c.check(jumpsOf(live).size()==jumpsOf(fresh).size(),"segment ",s,": the resumed trajectory has ",jumpsOf(fresh).size()," jumps, the uninterrupted one ",jumpsOf(live).size());
  }
  const Parsed p=parseOutput(slurp(ofn)); c.check(p.data.size()==want.size(),p.data.size()," lines in the file, ",want.size()," in the uninterrupted run"); for (size_t i=0; i<want.size(); ++i) {c.check(p.data[i].size()==want[i].size()+1,"columns of line ",i); for (size_t k=0; k<want[i].size(); ++k) {const double x=std::stod(p.data[i][k ? k+1 : 0]); if (std::isfinite(want[i][k])) c.check(std::abs(x-want[i][k])<=1e-4*std::max(1.,std::abs(want[i][k])),"line ",i,", column ",k,": ",x," instead of ",want[i][k]);}}
  c.nontrivial(want.size()>3); (void)lines; (void)total;
}
VP_PROP("segments/single",1500,12000,30)
{
  const auto w=vp::again(c,5,one); if (w[0].heated) c.discard(); P18 q=robust(ensemblePars(c,1)); q.eps=1e-9; const VectorXcd a=initial(c,w[0].n()); const P18 o=c.boolean() ? otherPars(c,q) : q; c.note(w[0].name,", seed ",q.seed); segments(c,w[0].scale(),[&](int i) {return makeSingle<OB,1>(w[i],i<2 ? a : VectorXcd(VectorXcd::Unit(w[0].n(),0)),i<2 ? q : o,0);});
}
VP_PROP("segments/master",800,8000,30)
{
  const auto w=vp::again(c,5,one); if (!applicable(w[0]) || !clearlyApplicable(w[0])) c.discard(); const MatrixXcd a=densityMatrix(c,w[0].n()); c.note(w[0].name); segments(c,w[0].scale(),[&](int i) {return makeMaster<1,tmptools::V_Empty,MB>(w[i],i<2 ? a : MatrixXcd(MatrixXcd::Identity(w[0].n(),w[0].n())/double(w[0].n())),1e-9);});
}
VP_PROP("segments/ensemble",400,4000,30)
{
  const auto w=vp::again(c,5,one); if (w[0].heated) c.discard(); P18 q=robust(ensemblePars(c,4)); q.eps=1e-9; const VectorXcd a=initial(c,w[0].n()); const P18 o=c.boolean() ? otherPars(c,q) : q; c.note(w[0].name,", ",q.n," members, seed ",q.seed); const std::string ofn=vp::scratch()+"/out"; segments(c,w[0].scale(),[&](int i) {return makeEns<OB,1>(w[i],i<2 ? a : VectorXcd(VectorXcd::Unit(w[0].n(),0)),i<2 ? q : o);});
}

// ---- foreign files
template<typename F> void withKind(int k, int extra, F&& f)
{
  ModePars m; m.cutoff=2+extra; m.delta=1; m.kerr=m.kerrA=m.nTh=0; m.kappa=1; m.eta=1; Ctx c; c.replaying=true; const F* dummy=nullptr; (void)dummy; const auto a=sys::makeMode(c,m,QMP_UIP), b=sys::makeMode(c,m,QMP_UIP); const auto w1=whole(a); P18 q{2,.1,10,1e-6,1,1,0,0,50};
  IA<2> ia; ia.f={a,b}; ia.p=coupledmodes::make<coupledmodes::CM_XX_RWA>(a.mode,b.mode,1.); ia.K=MatrixXcd::Zero(a.dim*b.dim,a.dim*b.dim); const auto w2=whole(ia); const VectorXcd p1=VectorXcd::Unit(w1.n(),0), p2=VectorXcd::Unit(w2.n(),0);
  switch (k) {
  case 0: {auto t=makeSingle<OB,1>(w1,p1,q,0); f(t); return;} case 1: {auto t=makeEns<OB,1>(w1,p1,q); f(t); return;} case 2: {auto t=makeMaster<1,tmptools::V_Empty,MB>(w1,MatrixXcd(p1*p1.adjoint()),1e-6); f(t); return;}
  case 3: {auto t=makeSingle<OB,2>(w2,p2,q,0); f(t); return;} case 4: {auto t=makeEns<OB,2>(w2,p2,q); f(t); return;} case 5: {auto t=makeMaster<2,tmptools::V_Empty,MB>(w2,MatrixXcd(p2*p2.adjoint()),1e-6); f(t); return;}
  default: {CArray<1> y(2+extra); y=1.; auto t=cppqedutils::simulated::makeBoost(std::move(y),[](const CArray<1>& y, CArray<1>& dy, double) {dy=-y;},{},.1,0,1e-6,1e-12); f(t);}
  }
}
VP_PROP("foreign-quantum",300,3000,20)
{
  const int a=c.range(0,6), b=c.range(0,6), extra=c.range(0,2); const std::string fn=vp::scratch()+"/s"; c.note("written by kind ",a,", read by kind ",b); c.nontrivial(a!=b); withKind(a,extra,[&](auto& t) {std::ostringstream lg; if (c.boolean()) cppqedutils::advance(t,.1,lg); save<std::decay_t<decltype(t)>>(fn,{&t},c.boolean());});
  withKind(b,extra,[&](auto& t) {bool thrown=false; std::string what; try {load(t,fn);} catch (const std::exception& e) {thrown=true; what=e.what();} c.check(thrown==(a!=b),a==b ? "own state file refused: "+what : "state file of another kind of trajectory accepted");});
}
// a state file of the same kind but of other dimensions
VP_PROP("other-dimensions",300,3000,20)
{
  const int a=c.oneOf({0,1,2,3,4,5}), x=c.range(0,3), y=c.range(0,3); const std::string fn=vp::scratch()+"/s"; c.note("kind ",a,", cutoff ",2+x,", read with cutoff ",2+y); c.nontrivial(x!=y); withKind(a,x,[&](auto& t) {save<std::decay_t<decltype(t)>>(fn,{&t},c.boolean());});
  withKind(a,y,[&](auto& t) {bool thrown=false; std::string what; try {load(t,fn);} catch (const std::exception& e) {thrown=true; what=e.what();} c.check(thrown==(x!=y),x==y ? "own state file refused: "+what : "state file of a system of other dimensions accepted");});
}
// files holding nothing but an array and time
template<int R> void writeArray(const std::string& fn, const CArray<R>& a, const char* type="CArray") {auto o=tj::openStateFileWriting(fn); std::ostringstream s; cppqedutils::oarchive oa(s); tj::SerializationMetadata sm{type,tj::SerializationMetadata::ARRAY_ONLY,R}; oa & sm; const CArray<R>& r=a; oa & r; double t=0; oa & t; const std::string b=s.str(); *o<<b.size(); o->write(&b[0],b.size());}
VP_PROP("array-only",1500,15000,20)
{
  const int kind=c.range(0,4), r=c.range(1,4), extra=c.range(0,2), n=2+extra; const int rank[]={1,2,2,4,1}; const int k=(const int[]){0,2,3,5,6}[kind]; const std::string fn=vp::scratch()+"/s"; const bool sameDim=c.boolean(.7); std::vector<int> d(r,sameDim ? n : n+1); const long N=prod(d); const VectorXcd v=normalised(data(c,N));
  switch (r) {case 1: {CArray<1> a(tiny<1>(d)); fromVec<1>(a,v); writeArray<1>(fn,a); break;} case 2: {CArray<2> a(tiny<2>(d)); fromVec<2>(a,v); writeArray<2>(fn,a); break;} case 3: {CArray<3> a(tiny<3>(d)); fromVec<3>(a,v); writeArray<3>(fn,a); break;} default: {CArray<4> a(tiny<4>(d)); fromVec<4>(a,v); writeArray<4>(fn,a);}}
  c.note("array of rank ",r,", extents ",d[0],", read by kind ",k,", cutoff ",n); c.nontrivial(); const bool good=r==rank[kind] && sameDim; if (kind==4 && !sameDim && r==1) c.discard();
  withKind(k,extra,[&](auto& t) {bool thrown=false; std::string what; try {load(t,fn);} catch (const std::exception& e) {thrown=true; what=e.what();} c.check(thrown==!good,good ? "array of the right rank and extents refused: "+what : "array of another rank, type or extents accepted"); if (!good) {c.label("refused"); return;}
    if constexpr (requires {t.getStateVector();}) {CArray<1> x; const auto& l=t.getStateVector().getArray(); VectorXcd g(l.size()); long i=0; for (auto z : l) g(i++)=z; c.check(g==v,"the state is not the stored one");} else if constexpr (requires {t.averaged();}) {} else {std::ostringstream s; {cppqedutils::oarchive oa(s); t.stateIO(oa);} std::istringstream is(s.str()); cppqedutils::iarchive ia(is); VectorXcd g; if (k==2) {CArray<2> x; ia & x; g=toVec<2>(x);} else if (k==5) {CArray<4> x; ia & x; g=toVec<4>(x);} else {CArray<1> x; ia & x; g=toVec<1>(x);} c.check(g==v,"the state is not the stored one");}
    c.check(t.getTime()==0,"time is not that of the start");});
}
