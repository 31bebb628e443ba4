#include "traj_common.h"
using namespace dense; using namespace cppqedutils;
namespace fs=std::filesystem;

struct Spec {
  double T; int dc; double Dt; long NDt; unsigned sdf; int precision; bool info, firstState, toFile, doStreaming, returned; std::string cmd;
  double epsRel, epsAbs; unsigned rep;
};
static Spec spec(Ctx& c, bool autostop)
{
  Spec s; s.T=c.oneOf({1.,.5,10.,3.7,.01}); if (c.boolean(.3)) s.T=c.logReal(.01,20.);
  s.dc=c.boolean(.45) ? c.range(1,12) : 0; s.Dt=s.T/(c.boolean() ? double(c.range(1,25)) : c.logReal(.6,40.)); s.NDt=c.boolean(.4) ? c.range(1,30) : 0;
  s.sdf=c.boolean() ? unsigned(c.range(1,6)) : 0; s.precision=c.oneOf({6,1,3,4,9,12,16}); s.info=c.boolean(.8); s.firstState=c.boolean(.7); s.toFile=c.boolean(.7); s.doStreaming=c.boolean(.8); s.returned=c.boolean(.7);
  s.cmd=c.boolean() ? "program --par 1 --another (1,2)" : ""; s.rep=0; s.epsRel=1e-6; s.epsAbs=1e-12;
  if (autostop) {s.rep=unsigned(c.range(1,8)); s.epsRel=c.logReal(1e-6,.3); s.epsAbs=c.logReal(1e-12,1e-2);}
  c.note("T=",s.T,", dc=",s.dc,", Dt=",s.Dt,", NDt=",s.NDt,", sdf=",s.sdf,", precision=",s.precision,", info=",s.info,", firstStateStream=",s.firstState,", file=",s.toFile,", streaming=",s.doStreaming,", returned=",s.returned); if (autostop) c.note("autostop eps=",s.epsRel,", epsAbs=",s.epsAbs,", repetition=",s.rep);
  return s;
}

template<typename TR> trajectory::TemporalStreamedArray<DArray<1>> go(TR& tr, const Spec& s, const std::string& ofn)
{
  parameters::Table p; trajectory::Pars<> q(p); q.T=s.T; q.dc=s.dc; q.Dt=s.Dt; q.NDt=s.NDt; q.sdf=s.sdf; q.ofn=ofn; q.streamInfo=s.info; q.firstStateStream=s.firstState; q.autoStopEpsilon=s.epsRel; q.autoStopEpsilonAbs=s.epsAbs; q.autoStopRepetition=s.rep;
  q.precision=formdouble::Zero(s.precision); *p.getParsedCommandLine()=s.cmd;
  return run(tr,q,s.doStreaming,s.returned);
}

// when should the run stop? index of the line that stops it, or -1; ambiguous cases are discarded
static long stopLine(Ctx& c, const std::vector<std::vector<double>>& raw, const Spec& s)
{
  if (!s.rep) return -1; std::vector<std::vector<double>> w;
  for (size_t l=0; l<raw.size(); ++l) {
    auto b=raw[l]; for (auto& v : b) if (std::abs(v)<s.epsAbs) v=s.epsAbs;
    if (l>s.rep) {double worst=0; for (size_t j=0; j<b.size(); ++j) {double m=0; for (size_t q=w.size()-s.rep; q<w.size(); ++q) m+=w[q][j]; m/=double(s.rep); worst=std::max(worst,std::abs(m-b[j])/(std::abs(m)+std::abs(b[j])));} if (std::abs(worst-s.epsRel)<1e-7*s.epsRel+1e-13) c.discard(); if (worst<s.epsRel) return long(l);}
    if (l) w.push_back(b);
  }
  return -1;
}

template<typename TR> void scenario(Ctx& c, bool adaptive, bool autostop)
{
  const Spec s=spec(c,autostop); TR tr; auto plan=makePlan(c,s.T); tr.plan=plan; if (autostop && plan->base.empty()) c.discard();
  if (autostop) {for (auto& r : plan->rate) r*=.3; plan->constantFirst=c.boolean(.8);}
  const double t0=c.boolean(.2) ? s.T*c.real(0.,.9) : 0.; tr.t=t0; c.note("start at ",t0,", steps ",plan->steps.size(),", first step ",plan->steps[0],", columns ",plan->base.size()+3,", logs every ",plan->logEvery);
  const std::string ofn=s.toFile ? vp::scratch()+"/out" : ""; trajectory::TemporalStreamedArray<DArray<1>> res; std::string cout;
  TR ref=tr; // for the model
  {CoutCapture cap; res=go(tr,s,ofn); cout=cap.s.str();}
  const bool dcMode=adaptive && s.dc, ndt=!dcMode && s.NDt; const double end=ndt ? t0+double(s.NDt)*s.Dt : s.T;

  // --- output goes where it should
  const std::string text=s.toFile ? slurp(ofn) : cout; if (s.toFile) c.check(cout.empty(),"output to standard output while a file was given: ",cout); else if (!s.doStreaming) c.check(cout.empty(),"streaming switched off, still there is output: ",cout);
  // --- promised instants. In autostop runs the first column is not part of the data
  const auto& L=tr.lines; c.check(!L.empty() && L[0].k==0 && L[0].t==t0,"the first streamed line is not the initial state"); const double ulp=4e-16*std::max(std::abs(end),std::abs(t0))*double(L.size()+tr.asked.size()+4);
  std::vector<std::vector<double>> raw; for (auto& l : L) raw.push_back(l.v); if (dcMode && L.back().k%s.dc) raw.pop_back(); // the stop rule looks at the regular lines
  const long stop=stopLine(c,raw,s); const bool stopped=stop>=0; c.label(dcMode ? "dc" : ndt ? "NDt" : "Dt"); if (autostop) c.label(stopped ? "stopped" : "not stopped");
  if (stopped) c.check(stop==long(L.size())-1,"stationarity was reached at line ",stop," but ",L.size()," lines were streamed");
  else c.check(std::abs(L.back().t-end)<=ulp,"the last line is at ",L.back().t," instead of the end time ",end,autostop ? " (and the stop condition does not hold)" : "");
  for (size_t i=1; i<L.size(); ++i) c.check(L[i].t>L[i-1].t,"two lines for time ",L[i].t);
  if (dcMode) {
    for (size_t i=0; i<L.size(); ++i) c.check(L[i].k==long(i)*s.dc || (i+1==L.size() && !stopped && L[i].k<long(i)*s.dc),"line ",i," streamed after step ",L[i].k," with dc=",s.dc);
    for (auto& a : tr.asked) c.check(a.second>0 && a.first+a.second<=end+ulp,"step of at most ",a.second," requested at time ",a.first,", end time ",end);
  }
  else {
    const double q=(end-t0)/s.Dt; const long lo=std::lround(std::ceil(q-1e-9)), hi=ndt ? lo : lo+1; // rounding may leave a last interval of an ulp or so
    if (!stopped) c.check(long(L.size())>=lo+1 && long(L.size())<=hi+1,L.size()," lines instead of ",lo+1," for interval ",s.Dt," up to ",end);
    for (size_t i=0; i<L.size(); ++i) c.check(std::abs(L[i].t-std::min(t0+double(i)*s.Dt,end))<=ulp,"line ",i," is at ",L[i].t," instead of ",std::min(t0+double(i)*s.Dt,end));
  }
  c.check(tr.k==L.back().k,"the trajectory was evolved beyond the last streamed line");
  c.nontrivial(L.size()>2);

  // --- text
  if (!s.toFile && !s.doStreaming) {}
  else {
    const Parsed p=parseOutput(text); c.check(p.data.size()==L.size(),p.data.size()," data lines in the output for ",L.size()," streamings");
    for (size_t i=0; i<L.size(); ++i) {
      const auto& w=p.data[i]; c.check(w.size()==3+plan->base.size(),"line ",i," has ",w.size()," columns instead of ",3+plan->base.size());
      printed(c,w[0],L[i].t,std::max(6,s.precision),"time"); printed(c,w[1],L[i].dtDid,std::max(6,s.precision),"last step"); c.check(w[2]==std::to_string(L[i].k),"line ",i," shows step ",w[2]," instead of ",L[i].k);
      for (size_t j=0; j<plan->base.size(); ++j) printed(c,w[3+j],L[i].v[1+j],s.precision,"value");
    }
    bool end=false, stopNote=false, cmd=false; int logs=0; for (auto& l : p.comments) {if (l.find("recorder finished")!=std::string::npos) end=true; if (l.find("Stopping criterion")!=std::string::npos) stopNote=true; if (!s.cmd.empty() && l.find(s.cmd)!=std::string::npos) cmd=true; if (l.find("log entry")!=std::string::npos) ++logs;}
    c.check(end,"no log on end"); c.check(stopNote==stopped,stopped ? "stop not announced" : "stop announced though the condition was not met"); if (plan->logEvery) c.check(logs==tr.k/plan->logEvery,logs," log entries instead of ",tr.k/plan->logEvery);
    if (s.info) {const long n=legend(c,p); c.check(n==long(3+plan->base.size()),"legend announces ",n," columns, ",3+plan->base.size()," are streamed"); if (!s.cmd.empty()) c.check(cmd,"command line not recorded in the header");}
    else for (auto& l : p.comments) c.check(l.find("Key to data")==std::string::npos && l.find("parameter ")==std::string::npos,"header printed though switched off");
  }
  // --- returned record
  if (!s.returned) c.check(res.empty(),"record returned though not requested");
  else {
    c.check(res.size()==L.size(),"record of ",res.size()," entries for ",L.size()," streamed lines"); size_t i=0;
    for (auto& [t,dt,a] : res) {c.check(t==L[i].t && dt==L[i].dtDid && a.size()==L[i].v.size(),"record entry ",i," is not what was streamed"); for (size_t j=0; j<L[i].v.size(); ++j) c.check(a(int(j))==L[i].v[j],"record entry ",i," differs in value ",j); ++i;}
  }
  // --- snapshots
  if (s.toFile) {
    std::vector<long> want, got; for (size_t i=0; i<L.size(); ++i) {const bool lastOutOfTurn=dcMode && i+1==L.size() && L[i].k%s.dc; if (s.sdf && i%s.sdf==0 && (i || s.firstState) && !lastOutOfTurn) want.push_back(L[i].k);} if (want.empty() || want.back()!=L.back().k) want.push_back(L.back().k);
    TR rd; rd.plan=plan; auto in=trajectory::openStateFileReading(ofn+".state"); while ((in->peek(),!in->eof())) {trajectory::readViaSStream(rd,in); got.push_back(rd.k); for (auto& l : L) if (l.k==rd.k) c.check(l.t==rd.t && l.dtDid==rd.dtDid,"snapshot after step ",rd.k," is not that of the streamed instant");}
    auto str=[](auto& v) {std::ostringstream o; for (auto x : v) o<<x<<" "; return o.str();};
    c.check(got==want,"snapshots after steps ",str(got),"instead of ",str(want),"(sdf=",s.sdf,")");
  }
  else c.check(!fs::exists(".state"),"state file written without an output file");
}

VP_PROP("run/adaptive",8000,100000,20) {scenario<mock::Adaptive>(c,true,false);}
VP_PROP("run/advance-only",4000,30000,20) {scenario<mock::Fixed>(c,false,false);}
VP_PROP("run/autostop",8000,60000,20) {scenario<mock::Adaptive>(c,true,true);}

VP_PROP("run/limits",600,6000,20)
{ // no interval at all is refused; nothing left to do does nothing; end time zero shows the initial state
  mock::Adaptive tr; tr.plan=makePlan(c,1.); Spec s=spec(c,false); s.toFile=c.boolean(); s.returned=true; s.doStreaming=true; const std::string ofn=s.toFile ? vp::scratch()+"/out" : ""; const int kind=c.range(0,2); c.nontrivial(true);
  CoutCapture cap;
  if (kind==0) {s.dc=0; s.Dt=0; bool thrown=false; try {go(tr,s,ofn);} catch (const std::exception&) {thrown=true;} c.check(thrown,"a run with neither steps nor interval between streamings is accepted"); c.check(tr.k==0,"evolved in a refused run");}
  else if (kind==1) {tr.t=s.T*c.real(1.,3.); s.NDt=0; auto r=go(tr,s,ofn); c.check(r.empty() && tr.k==0 && tr.lines.empty(),"a trajectory already past the end time is evolved or streamed");}
  else {s.T=0; s.NDt=0; if (!s.dc && !s.Dt) s.Dt=1; auto r=go(tr,s,ofn); c.check(tr.k==0,"evolved though the end time is zero"); c.check(tr.lines.size()==1,tr.lines.size()," lines streamed with zero end time"); c.check(r.size()==1,"record of ",r.size()," entries for one streamed line");}
}

// ---- Simulated with the ODE engines: columns, legend, precision and instants of a real trajectory
template<typename A> struct Fill;
template<typename A, typename Eng> void simTraj(Ctx& c)
{
  constexpr bool cplx=std::is_same_v<A,CArray<1>>; const int n=c.range(1,5), nl=c.range(0,5); const double T=c.logReal(.1,5.), g=c.real(.1,2.); Spec s=spec(c,false); s.T=T; s.Dt=T/c.logReal(.7,12.); s.toFile=c.boolean(); s.returned=true; s.doStreaming=true;
  if (s.NDt>12) s.NDt=12; A y(n); Rng r(c.choice(1ull<<32)); std::vector<dcomp> y0; for (int i=0; i<n; ++i) {const dcomp z=cplx ? r.cg() : dcomp(r.g(),0); y0.push_back(z*std::pow(10.,8*(r.u()-.5))); if constexpr (cplx) y(i)=y0[i]; else y(i)=y0[i].real();}
  std::initializer_list<std::string> all[]={{},{"a"},{"a","b"},{"a","b","c"},{"a","b","c","d"},{"a","b","c","d","e"}};
  auto f=[g](const A& y, A& dy, double) {dy=-g*y;}; c.note(cplx ? "complex" : "real"," dimension ",n,", ",nl," labels, rate ",g);
  if (nl>n) {bool thrown=false; try {auto tr=simulated::make<Eng>(y,f,all[nl],.01*T,0,1e-9,1e-15);} catch (const std::exception&) {thrown=true;} c.check(thrown,"more labels than columns accepted"); return;}
  auto tr=simulated::make<Eng>(A(y.copy()),f,all[nl],.01*T,0,1e-9,1e-15); const std::string ofn=s.toFile ? vp::scratch()+"/out" : ""; std::string cout; trajectory::TemporalStreamedArray<A> res;
  {CoutCapture cap; parameters::Table p; trajectory::Pars<> q(p); q.T=s.T; q.dc=s.dc; q.Dt=s.Dt; q.NDt=s.NDt; q.sdf=s.sdf; q.ofn=ofn; q.precision=formdouble::Zero(s.precision); res=run(tr,q,true,true); cout=cap.s.str();}
  const Parsed p=parseOutput(s.toFile ? slurp(ofn) : cout); c.check(p.data.size()==res.size(),p.data.size()," lines, record of ",res.size()); c.check(legend(c,p)==2+n,"legend announces ",legend(c,p)," columns instead of ",2+n); c.nontrivial(res.size()>1);
  for (int j=0; j<nl; ++j) {bool found=false; const std::string l=" "+std::to_string(3+j)+". "+(all[nl].begin())[j]; for (auto& x : p.comments) if ((" "+x.substr(1)).find(l)!=std::string::npos) found=true; c.check(found,"column ",3+j," is not announced as ",(all[nl].begin())[j]);}
  size_t i=0; double tl=0; for (auto& [t,dt,a] : res) {
    const auto& w=p.data[i]; c.check(int(w.size())==2+n,"line ",i," has ",w.size()," columns instead of ",2+n); printed(c,w[0],t,std::max(6,s.precision),"time"); printed(c,w[1],dt,std::max(6,s.precision),"last step");
    for (int j=0; j<n; ++j) {
      const dcomp v=dcomp(a(j)), want=y0[j]*std::exp(-g*t); c.check(std::abs(v-want)<=1e-6*std::abs(y0[j])*double(tl+2),"value ",j," at time ",t," is ",v,", should be ",want);
      if (cplx) {auto x=w[2+j]; const auto k=x.find(','); c.check(x.front()=='(' && x.back()==')' && k!=std::string::npos,"not a complex number: ",x); printed(c,x.substr(1,k-1),v.real(),s.precision,"real part"); printed(c,x.substr(k+1,x.size()-k-2),v.imag(),s.precision,"imaginary part");}
      else printed(c,w[2+j],v.real(),s.precision,"value");
    }
    ++i; tl+=1;
  }
}
VP_PROP("simulated",1500,8000,20)
{
  static void (*const f[])(Ctx&)={&simTraj<DArray<1>,ODE_EngineBoost<DArray<1>>>,&simTraj<CArray<1>,ODE_EngineBoost<CArray<1>>>}; f[c.choice(2)](c);
}

VP_PROP("number-format",10000,30000,5)
{ // numbers written one after the other stay separate and carry the requested number of digits
  const int p=c.range(1,17), n=c.range(1,12); const int which=c.range(0,1); std::ostringstream o; std::vector<double> v; std::string kind;
  for (int i=0; i<n; ++i) {double x=c.boolean(.2) ? c.real(-10,10) : c.gauss()*std::pow(10.,c.range(-307,307)); if (c.boolean(.1)) x=c.gauss()*std::pow(10.,c.range(-6,20)); if (which==1) x=std::abs(x); if (c.boolean(.05)) x=0; v.push_back(x);}
  for (double x : v) if (which==1) o<<formdouble::positive(p)(x); else o<<FormDouble(p)(x);
  c.note("precision ",p,which ? " positive" : "",", ",n," numbers, first ",v[0]); std::istringstream in(o.str()); std::vector<std::string> w; std::string x; while (in>>x) w.push_back(x); c.nontrivial(n>1);
  c.check(int(w.size())==n,"numbers run into each other: ",o.str()); for (int i=0; i<n; ++i) printed(c,w[i],v[i],which ? std::max(6,p) : p,"number");
}
