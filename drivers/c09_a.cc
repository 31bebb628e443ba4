#include "traj_common.h"
#include "ODE_GSL.h"
#include "Random.h"
using namespace dense; using namespace cppqedutils; using blitz::TinyVector;
namespace fs=std::filesystem;

template<typename TR> auto runSeg(TR& tr, const std::string& ofn, const std::string& init, double T, int dc, double Dt, long NDt, unsigned sdf, bool first, bool info=true)
{
  CoutCapture cap; parameters::Table p; trajectory::Pars<> q(p); q.T=T; q.dc=dc; q.Dt=Dt; q.NDt=NDt; q.sdf=sdf; q.ofn=ofn; q.initialFileName=init; q.streamInfo=info; q.firstStateStream=first; q.precision=formdouble::Zero(17);
  return run(tr,q,true,true);
}
static void writeRaw(const std::string& f, const std::string& s) {std::ofstream o(f,std::ios_base::binary); o<<s;}
template<typename TR> std::vector<TR> readAll(const std::string& f, TR proto) {std::vector<TR> r; auto in=trajectory::openStateFileReading(f); while ((in->peek(),!in->eof())) {trajectory::readViaSStream(proto,in); r.push_back(proto);} return r;}

// ---- histories of runs with the recording trajectory: interrupted = uninterrupted
VP_PROP("history/recorder",3000,60000,20)
{
  auto plan=makePlan(c,1.); const int n=c.range(1,5); const std::string ofn=vp::scratch()+"/out"; double T=0, dt=.1; mock::Adaptive live; live.plan=plan; const bool raw=c.boolean(.3), init=c.boolean(.3), info=c.boolean();
  std::string initial;
  if (init) {initial=vp::scratch()+"/initial.state"; mock::Adaptive a; a.plan=plan; const int m=c.range(1,3); auto o=c.boolean() ? trajectory::openStateFileWriting(initial) : std::shared_ptr<std::ostream>(std::make_shared<std::ofstream>(initial,std::ios_base::binary)); for (int i=0; i<m; ++i) {a.t=c.real(0.,.5); a.k=c.range(0,50); a.dtDid=c.real(0.,.1); trajectory::writeViaSStream(a,o);} live.t=a.t; live.k=a.k; live.dtDid=a.dtDid;}
  size_t total=0; std::vector<mock::Core::Line> lines; std::vector<long> want; const double t0=live.t; T=t0;
  for (int s=0; s<n; ++s) {
    T+=c.logReal(.02,1.); const int dc=c.boolean() ? c.range(1,9) : 0; dt=(T-live.t)/c.logReal(.7,9.); const long ndt=c.boolean(.3) ? c.range(1,8) : 0; const unsigned sdf=c.boolean(.6) ? unsigned(c.range(1,5)) : 0; const bool first=c.boolean();
    c.note("segment to T=",T,", dc=",dc,", Dt=",dt,", NDt=",ndt,", sdf=",sdf);
    // uninterrupted: the very same object goes on
    live.lines.clear(); runSeg(live,"","",T,dc,dt,ndt,0,true); T=std::max(T,live.t); auto L=live.lines;
    // interrupted: a new object each time, knowing nothing but the files
    mock::Adaptive fresh; fresh.plan=plan; const auto rec=runSeg(fresh,ofn,initial,T,dc,dt,ndt,sdf,first,info);
    for (size_t i=0; i<L.size(); ++i) {const bool outOfTurn=dc && i+1==L.size() && (L[i].k-L[0].k)%dc; if (sdf && i%sdf==0 && (i || (first && !s)) && !outOfTurn) want.push_back(L[i].k);} if (want.empty() || want.back()!=L.back().k) want.push_back(L.back().k);
    if (s) L.erase(L.begin()); // the instant of the interruption has already been streamed
    c.check(fresh.t==live.t && fresh.k==live.k && fresh.dtDid==live.dtDid,"segment ",s,": the resumed trajectory ends at time ",fresh.t," after step ",fresh.k,", the uninterrupted one at ",live.t," after ",live.k);
    c.check(fresh.lines.size()==L.size(),"segment ",s,": ",fresh.lines.size()," lines when resumed, ",L.size()," when not interrupted"); for (size_t i=0; i<L.size(); ++i) c.check(fresh.lines[i].k==L[i].k && fresh.lines[i].t==L[i].t,"segment ",s,", line ",i," differs");
    {c.check(rec.size()==L.size(),"segment ",s,": record of ",rec.size()," entries for ",L.size()," lines"); size_t i=0; for (auto& [t,d,a] : rec) {c.check(t==L[i].t && d==L[i].dtDid && a.size()==L[i].v.size(),"segment ",s,": record entry ",i," is not what was streamed"); ++i;}}
    total+=L.size(); lines.insert(lines.end(),L.begin(),L.end());
    if (raw && !s) { // a file written without compression is continued without compression
      mock::Adaptive p; p.plan=plan; std::string txt; {auto in=trajectory::openStateFileReading(ofn+".state"); std::ostringstream o; o<<in->rdbuf(); txt=o.str();} writeRaw(ofn+".state",txt);
    }
    // snapshots: never going back in time, the last one is the end of the segment
    mock::Adaptive proto; proto.plan=plan; auto sn=readAll(ofn+".state",proto); c.check(!sn.empty() && sn.back().k==live.k && sn.back().t==live.t && sn.back().dtDid==live.dtDid,"the last snapshot is not the end of the segment"); for (size_t i=1; i<sn.size(); ++i) c.check(sn[i].t>sn[i-1].t,"snapshots are not in order of time");
    {std::vector<long> got; for (auto& x : sn) got.push_back(x.k); auto str=[](auto& v) {std::ostringstream o; for (auto x : v) o<<x<<" "; return o.str();}; c.check(got==want,"snapshots after steps ",str(got),"instead of ",str(want));}
    for (auto& x : sn) {bool found=false; for (auto& l : lines) if (l.k==x.k && l.t==x.t && l.dtDid==x.dtDid) found=true; c.check(found,"snapshot at time ",x.t," belongs to no streamed line");}
  }
  c.nontrivial(n>1 && total>4); if (init) c.label("initial file"); if (raw) c.label("uncompressed");
  const Parsed p=parseOutput(slurp(ofn)); c.check(p.data.size()==lines.size(),p.data.size()," lines in the file instead of ",lines.size()); for (size_t i=0; i<lines.size(); ++i) c.check(std::stod(p.data[i][0])==lines[i].t && p.data[i][2]==std::to_string(lines[i].k),"line ",i," of the file is not that of the uninterrupted run");
}

// ---- ODE trajectories: reloading into an object that has another history
template<typename A> VectorXcd content(const A& a) {VectorXcd v(a.size()); long i=0; for (auto x : a) v(i++)=dcomp(x); return v;}
template<typename A, typename Eng, int R> void ode(Ctx& c)
{
  const auto d=dims(c,R,12,6); TinyVector<int,R> e=tiny<R>(d); auto fill=[&](Ctx& c) {A a(e); Rng r(c.choice(1ull<<32)); for (auto& x : a) if constexpr (std::is_same_v<typename A::T_numtype,dcomp>) x=r.cg(); else x=r.g(); return a;};
  const double w=c.real(.2,4.); auto f=[w](const A& y, A& dy, double t) {dy=w*std::cos(w*t)*y;}; const double eps=c.oneOf({1e-6,1e-9,1e-3}); const int level=c.range(0,2); auto init=fill(c), other=fill(c);
  auto live=simulated::make<Eng>(A(init.copy()),f,{},c.logReal(1e-3,1.),level,eps,1e-12), re=simulated::make<Eng>(A(other.copy()),f,{},c.logReal(1e-3,1.),level,eps,1e-12); std::ostringstream log;
  if (c.boolean()) advance(re,c.real(.1,2.),log); const int n=c.range(0,4); for (int i=0; i<n; ++i) if (c.boolean()) advance(live,c.real(.05,1.),log); else live.step(c.real(.05,1.),log);
  const std::string fn=vp::scratch()+"/s"; {auto o=trajectory::openStateFileWriting(fn); if (c.boolean()) trajectory::writeViaSStream(re,o); trajectory::writeViaSStream(live,o);} 
  {auto in=trajectory::openStateFileReading(fn); while ((in->peek(),!in->eof())) trajectory::readViaSStream(re,in);}
  auto eq=[&](const char* when) {std::ostringstream a,b,x,y; auto s=std::get<1>(live.stream(a,17)); auto r=std::get<1>(re.stream(b,17)); c.check(live.getTime()==re.getTime() && live.getDtDid()==re.getDtDid(),when,": time ",re.getTime()," and last step ",re.getDtDid()," instead of ",live.getTime()," and ",live.getDtDid()); c.check(content(s)==content(r),when,": state differs from that of the uninterrupted trajectory"); live.logOnEnd(x); re.logOnEnd(y); c.check(x.str()==y.str(),when,": log differs\n",x.str(),y.str());};
  c.note("rank ",R,", dims ",show(d),", ",n," advances before saving, eps ",eps); c.nontrivial(n>0); eq("after loading"); const int m=c.range(1,3); for (int i=0; i<m; ++i) {const double D=c.real(.05,1.); if (c.boolean()) {advance(live,D,log); advance(re,D,log);} else {live.step(D,log); re.step(D,log);} eq("after going on");}
}
VP_PROP("reload/ode",1500,20000,20)
{
  static void (*const f[])(Ctx&)={&ode<DArray<1>,ODE_EngineBoost<DArray<1>>,1>,&ode<CArray<1>,ODE_EngineBoost<CArray<1>>,1>,&ode<DArray<1>,ODE_EngineGSL<DArray<1>>,1>,&ode<CArray<1>,ODE_EngineGSL<CArray<1>>,1>}; f[c.choice(4)](c);
}

// ---- foreign files
template<int K> struct Maker; // kinds of trajectories
using Fd=void(*)(const DArray<1>&,DArray<1>&,double);
template<typename A> auto simple(int n) {auto f=[](const A& y, A& dy, double) {dy=-y;}; TinyVector<int,A::rank_> e; e=n; A a(e); a=1; return simulated::makeBoost(std::move(a),f,{},.1,0,1e-6,1e-12);}
template<typename F> void withKind(int k, F&& f)
{
  switch (k) {case 0: {auto t=simple<DArray<1>>(3); f(t); return;} case 1: {auto t=simple<CArray<1>>(3); f(t); return;} case 2: {auto t=simple<CArray<2>>(2); f(t); return;} case 3: {auto t=simple<DArray<2>>(2); f(t); return;} case 4: {mock::Adaptive t; f(t); return;} default: {mock::Fixed t; f(t); return;}}
}
VP_PROP("foreign",400,4000,20)
{
  const int a=c.range(0,5), b=c.range(0,5); const std::string fn=vp::scratch()+"/s"; withKind(a,[&](auto& t) {auto o=trajectory::openStateFileWriting(fn); trajectory::writeViaSStream(t,o);}); bool thrown=false; std::string what; c.note("written by kind ",a,", read by kind ",b); c.nontrivial(a!=b);
  withKind(b,[&](auto& t) {try {auto in=trajectory::openStateFileReading(fn); while ((in->peek(),!in->eof())) trajectory::readViaSStream(t,in);} catch (const std::exception& e) {thrown=true; what=e.what();}});
  c.check(thrown==(a!=b),a==b ? "own state file refused: "+what : "state file of another kind of trajectory accepted");
}
VP_PROP("missing",100,500,20) {bool thrown=false; const std::string fn=vp::scratch()+(c.boolean() ? "/none" : "/dir/none"); try {auto p=trajectory::openStateFileReading(fn); mock::Adaptive t; trajectory::readViaSStream(t,p);} catch (const std::exception&) {thrown=true;} c.check(thrown,"missing state file accepted"); c.nontrivial(true);
  // an existing output file without its state file
  mock::Adaptive t; t.plan=makePlan(c,1.); const std::string ofn=vp::scratch()+"/out"; writeRaw(ofn,"0 0 0\n"); thrown=false; try {runSeg(t,ofn,"",1.,0,.1,0,0,true);} catch (const std::exception&) {thrown=true;} c.check(thrown,"run continued although the state file is missing"); c.check(slurp(ofn)=="0 0 0\n","output touched by a refused continuation");
}

// ---- damaged files: after any truncation what is read is one of the saved states, or an error
struct St {long k; double t;};
VP_PROP("truncated",2500,40000,20)
{
  auto plan=makePlan(c,1.); const std::string fn=vp::scratch()+"/s"; const bool bz=c.boolean(); const int n=c.range(1,4); std::vector<mock::Adaptive> all; std::vector<size_t> bounds{0};
  {std::shared_ptr<std::ostream> o=bz ? trajectory::openStateFileWriting(fn) : std::make_shared<std::ofstream>(fn,std::ios_base::binary); for (int i=0; i<n; ++i) {mock::Adaptive a; a.plan=plan; a.t=c.real(-5.,5.); a.k=c.range(0,1000000); a.dtDid=c.unit(); trajectory::writeViaSStream(a,o); if (!bz) {o->flush(); bounds.push_back(fs::file_size(fn));} all.push_back(a);}}
  std::string s=slurp(fn); const size_t cut=c.choice(s.size()); s.resize(cut); writeRaw(fn,s); c.note(bz ? "compressed" : "uncompressed",", ",n," snapshots, ",s.size()," bytes left of file"); c.nontrivial(cut>0);
  mock::Adaptive rd; rd.plan=plan; size_t got=0; bool thrown=false; int guard=0;
  try {auto in=trajectory::openStateFileReading(fn); while ((in->peek(),!in->eof())) {if (++guard>100) c.fail("endless reading of a truncated state file"); trajectory::readViaSStream(rd,in); c.check(got<all.size() && rd.k==all[got].k && rd.t==all[got].t && rd.dtDid==all[got].dtDid,"truncated state file read as a state that was never saved: time ",rd.t,", step ",rd.k); ++got;}} catch (const vp::Fail&) {throw;} catch (const std::exception&) {thrown=true;}
  if (!thrown && !bz) c.check(std::find(bounds.begin(),bounds.end(),cut)!=bounds.end(),"file truncated in the middle of a snapshot accepted");
  if (!thrown && bz && cut) c.fail("truncated compressed file accepted, ",got," snapshots read");
}

// ---- random engines
template<typename E> void engine(Ctx& c, E a, E b)
{
  const int n=c.range(0,700), m=c.range(1,20); for (int i=0; i<n; ++i) a(); if (c.boolean()) for (int i=0; i<7; ++i) b(); std::stringstream s; {oarchive o(s); o & a;} std::vector<unsigned long> want; for (int i=0; i<m; ++i) want.push_back(a());
  {iarchive i(s); i & b;} for (int i=0; i<m; ++i) {const unsigned long x=b(); c.check(x==want[i],"draw ",i," after reloading differs from that of the saved engine");} c.note("saved after ",n," draws"); c.nontrivial(n>0);
}
VP_PROP("random-engine",400,4000,20)
{
  const unsigned long s=c.choice(1ull<<31)+1, t=c.choice(1ull<<31)+1; const int k=c.range(0,3); c.note("engine ",k,", seeds ",s," ",t);
  switch (k) {case 0: engine(c,std::mt19937_64(s),std::mt19937_64(t)); return; case 1: engine(c,randomutils::GSL_Engine(s),randomutils::GSL_Engine(t)); return; case 2: engine(c,pcg64(s,1001),pcg64(t,1002)); return; default: engine(c,XoshiroCpp::Xoshiro256PlusPlus(s),XoshiroCpp::Xoshiro256PlusPlus(t));}
}
