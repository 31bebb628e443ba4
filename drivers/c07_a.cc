#include "dense.h"
#include "ODE_GSL.h"
#include "Simulated.h"
#include "DrivenDampedHarmonicOscillator.h"
#include <sstream>
using namespace dense; using namespace cppqedutils;
using Fn=void(*)(Ctx&);

struct Problem {
  int n; std::string name; double rate;                                   // rate: the largest frequency
  std::function<VectorXcd(const VectorXcd&, double)> f;
  std::function<VectorXcd(const VectorXcd&, double, double)> exact;       // y(t) from y(t0)
  double amplification(double T) const {return std::exp(std::abs(growth*T));} double growth=0;
};
static Problem problem(Ctx& c, int n, bool real)
{
  const int kind=c.range(0,3); Problem p; p.n=n; const double w=c.logReal(.05,20.);
  if (kind==0) { // damped rotation (real: damped oscillation)
    MatrixXcd H=gaussianM(c,n,n), G=gaussianM(c,n,n); const double g=c.boolean() ? c.real(0,.3) : 0.; MatrixXcd A;
    if (real) {MatrixXcd R=H.real().cast<dcomp>(); A=R-R.transpose().eval(); MatrixXcd Q=G.real().cast<dcomp>(); A-=g*Q*Q.transpose().eval()/double(n);} else A=dcomp(0,-1)*(H+H.adjoint().eval())-g*G*G.adjoint().eval()/double(n);
    const double nn=std::max(A.norm(),1e-3); A*=w/nn; p.name="damped rotation"; p.rate=w; p.growth=g>0 ? Eigen::SelfAdjointEigenSolver<MatrixXcd>(MatrixXcd((A+A.adjoint())/2.)).eigenvalues().cwiseAbs().maxCoeff() : 0; p.f=[A](const VectorXcd& y, double) {return VectorXcd(A*y);}; p.exact=[A](const VectorXcd& y, double t0, double t) {return VectorXcd(expm(A*(t-t0))*y);};
  }
  else if (kind==1) {const double a=w*c.real(1.,2.); const dcomp i=real ? dcomp(1,0) : dcomp(0,1); p.name="periodic coefficient"; p.rate=2*a; p.growth=0; if (real) p.growth=2*a*0; const double amp=real ? std::min(1.,a/w) : a/w; p.f=[=](const VectorXcd& y, double t) {return VectorXcd(i*amp*w*std::cos(w*t)*y);}; p.exact=[=](const VectorXcd& y, double t0, double t) {return VectorXcd(std::exp(i*amp*(std::sin(w*t)-std::sin(w*t0)))*y);};}
  else if (kind==2 && !real) {p.name="nonlinear rotation"; p.rate=4*w; p.f=[w](const VectorXcd& y, double) {VectorXcd r(y.size()); for (long k=0; k<y.size(); ++k) r(k)=dcomp(0,-w)/(1+std::norm(y(k)))*std::norm(y(k))*y(k); return r;}; p.exact=[w](const VectorXcd& y, double t0, double t) {VectorXcd r(y.size()); for (long k=0; k<y.size(); ++k) r(k)=y(k)*std::exp(dcomp(0,-w)/(1+std::norm(y(k)))*std::norm(y(k))*(t-t0)); return r;};}
  else {p.name="driven relaxation"; p.rate=w; p.growth=w*.2; const VectorXcd b=real ? VectorXcd(gaussian(c,n).real().cast<dcomp>()) : gaussian(c,n); const dcomp l=real ? dcomp(-.2*w) : dcomp(-.2*w,w); p.f=[=](const VectorXcd& y, double) {return VectorXcd(l*y+w*b);}; p.exact=[=](const VectorXcd& y, double t0, double t) {VectorXcd s=-w*b/l; return VectorXcd(s+std::exp(l*(t-t0))*(y-s));};}
  return p;
}

// adapters of the state types
template<typename A> struct Ad;
template<> struct Ad<CArray<1>> {static const bool real=false; static CArray<1> make(const VectorXcd& v) {CArray<1> a(int(v.size())); put(a,v); return a;} static void put(CArray<1>& a, const VectorXcd& v) {for (int i=0; i<v.size(); ++i) a(i)=v(i);} static VectorXcd get(const CArray<1>& a) {return toVec<1>(a);}};
template<> struct Ad<CArray<2>> {static const bool real=false; static CArray<2> make(const VectorXcd& v) {CArray<2> a(int(v.size())/2,2); put(a,v); return a;} static void put(CArray<2>& a, const VectorXcd& v) {fromVec<2>(a,v);} static VectorXcd get(const CArray<2>& a) {return toVec<2>(a);}};
template<> struct Ad<DArray<1>> {static const bool real=true; static DArray<1> make(const VectorXcd& v) {DArray<1> a(int(v.size())); put(a,v); return a;} static void put(DArray<1>& a, const VectorXcd& v) {for (int i=0; i<v.size(); ++i) a(i)=v(i).real();} static VectorXcd get(const DArray<1>& a) {VectorXcd v(a.extent(0)); for (int i=0; i<v.size(); ++i) v(i)=a(i); return v;}};

struct Counts {size_t derivs=0, steps=0, failed=0;};
template<typename E> Counts reported(Ctx& c, const E& e)
{
  std::ostringstream s; e.logOnEnd(s); Counts r; std::string line; std::istringstream in(s.str()); int found=0;
  while (std::getline(in,line)) {const auto p=line.rfind(' '); if (p==std::string::npos) continue; const size_t v=std::stoul(line.substr(p+1)); if (line.find("Total number of ODE steps")==0) r.steps=v, ++found; else if (line.find("Number of failed ODE steps")==0) r.failed=v, ++found; else if (line.find("Number of calls to function")==0) r.derivs=v, ++found;}
  c.check(found==3,"log on end incomplete: ",s.str()); return r;
}

template<typename A> VectorXcd initial(Ctx& c, int n) {VectorXcd y=data(c,n); if (Ad<A>::real) y=y.real().cast<dcomp>().eval(); const double m=y.cwiseAbs().maxCoeff(); if (m>0) y/=m; return y*c.oneOf({1.,1e-3,30.});}

template<typename E, typename A> void follow(Ctx& c)
{
  const int n=std::is_same_v<A,CArray<2>> ? 2*c.range(1,3) : c.range(1,5); const Problem p=problem(c,n,Ad<A>::real); VectorXcd y0=initial<A>(c,n);
  const double epsRel=std::pow(10.,-c.range(3,10)), epsAbs=std::pow(10.,-c.range(3,14)), dtInit=c.logReal(1e-3,p.name=="periodic coefficient" || p.name=="nonlinear rotation" ? .5 : 3.)/p.rate; const bool back=c.boolean(.3), mixed=c.boolean(.3); const int legs=c.range(1,5);
  c.note(p.name,", dim ",n,", rate ",p.rate,", epsRel ",epsRel,", epsAbs ",epsAbs,", dtInit ",dtInit,back ? ", backward first" : "",mixed ? ", direction changes" : ""); c.label(p.name); if (back||mixed) c.label("backward"); E e(dtInit,1,epsRel,epsAbs); A y=Ad<A>::make(y0); double t=c.boolean() ? 0. : c.real(-5.,5.); const double tInit=t; double travelled=0, peak=y0.cwiseAbs().maxCoeff(); Counts own; double tBefore=t; size_t atStart=0; std::ostringstream log;
  {std::ostringstream os; e.streamParameters(os); std::ostringstream a,b; a<<epsRel; b<<epsAbs; c.check(os.str().find("epsRel="+a.str())!=std::string::npos && os.str().find("epsAbs="+b.str())!=std::string::npos,"streamed parameters: ",os.str());}
  auto sys=[&](const A& x, A& dx, double tt) {++own.derivs; if (tt==tBefore) ++atStart; Ad<A>::put(dx,p.f(Ad<A>::get(x),tt));};
  bool sawFailed=false; size_t legsDone=0;
  for (int l=0; l<legs; ++l) {
    const bool neg=mixed ? c.boolean() : back; double T=(c.boolean(.15) ? c.logReal(1e-6,1e-2) : c.real(.1,6.))/p.rate; if (travelled+T>8./p.rate) T=.5/p.rate; travelled+=T; const double tEnd=t+(neg ? -T : T); const bool abandon=c.boolean(.2); int guard=0; const int most=abandon ? c.range(1,3) : 1<<30; int did=0;
    while (t!=tEnd && did<most) {
      const double dT=tEnd-t, tryBefore=e.getDtTry(); tBefore=t; atStart=0; const VectorXcd before=Ad<A>::get(y); e.step(dT,log,sys,t,y); ++own.steps; ++did; c.check(++guard<200000,"no progress");
      c.check(std::abs(t-tBefore)<=std::abs(dT) && (t-tBefore)*dT>0,"step of ",t-tBefore," when ",dT," was requested"); c.check(e.getDtDid()==t-tBefore,"performed step is ",t-tBefore,", reported as ",e.getDtDid()); c.check(e.getDtTry()*dT>0,"proposed step ",e.getDtTry()," against the direction of ",dT);
      if (tryBefore*dT>0 && std::abs(dT)<.0999*std::abs(tryBefore)) c.check(e.getDtTry()==tryBefore,"after a very small last step the proposal changed from ",tryBefore," to ",e.getDtTry());
      c.check(atStart>=1,"derivative not evaluated at the start of the step"); if (std::abs(t-tBefore)>1e-9*(1+std::abs(t))) own.failed+=atStart-1, sawFailed|=atStart>1; /* a step of a few units in the last place cannot be told apart by its times, and is never refused */ peak=std::max(peak,Ad<A>::get(y).cwiseAbs().maxCoeff());
      if (c.thorough()) {const VectorXcd loc=p.exact(before,tBefore,t); const double b=100*(epsRel+epsAbs)*(1+2*peak)+1e-12*(1+peak); same(c,Ad<A>::get(y),loc,b,"single step from ",tBefore," to ",t);}
    }
    legsDone+=did;
  }
  c.nontrivial(own.steps>=3); if (sawFailed) c.label("failed steps"); const Counts r=reported(c,e); c.check(r.steps==own.steps,"steps: ",own.steps," taken, ",r.steps," reported"); c.check(r.derivs==own.derivs,"derivative calls: ",own.derivs," made, ",r.derivs," reported"); c.check(r.failed==own.failed,"failed steps: ",own.failed," happened, ",r.failed," reported");
  const double bound=(epsRel+epsAbs)*(1+2*peak)*10.*(5+own.steps)*p.amplification(travelled)+1e-12*(1+peak)*(1+own.steps); const VectorXcd want=p.exact(y0,tInit,t), got=Ad<A>::get(y); same(c,got,want,bound/std::max(1.,want.cwiseAbs().maxCoeff()),p.name," from ",tInit," to ",t," in ",own.steps," steps");
}
VP_PROP("boost-engine-follows-exact-solution",30000,400000,60) {static const std::vector<Fn> f{&follow<ODE_EngineBoost<CArray<1>>,CArray<1>>,&follow<ODE_EngineBoost<DArray<1>>,DArray<1>>,&follow<ODE_EngineBoost<CArray<2>>,CArray<2>>}; c.pick(f)(c);}
VP_PROP("gsl-engine-follows-exact-solution",30000,400000,60) {static const std::vector<Fn> f{&follow<ODE_EngineGSL<CArray<1>>,CArray<1>>,&follow<ODE_EngineGSL<DArray<1>>,DArray<1>>,&follow<ODE_EngineGSL<CArray<2>>,CArray<2>>}; c.pick(f)(c);}

// history of accepted times of a linear problem
template<typename E, typename A> std::vector<double> times(const Problem& p, const VectorXcd& y0, double dt, double epsRel, double epsAbs, double T, VectorXcd* end=nullptr)
{
  E e(dt,0,epsRel,epsAbs); A y=Ad<A>::make(y0); double t=0; std::ostringstream log; std::vector<double> r; auto sys=[&](const A& x, A& dx, double tt) {Ad<A>::put(dx,p.f(Ad<A>::get(x),tt));}; while (t!=T) {e.step(T-t,log,sys,t,y); r.push_back(t);} if (end) *end=Ad<A>::get(y); return r;
}
static Problem linear(Ctx& c, int n, double w) {MatrixXcd H=gaussianM(c,n,n); MatrixXcd A=dcomp(0,-1)*(H+H.adjoint().eval()); const double g=c.real(0,.2); A-=g*MatrixXcd::Identity(n,n)*A.norm(); A*=w/std::max(A.norm(),1e-3); Problem p; p.n=n; p.rate=w; p.f=[A](const VectorXcd& y, double) {return VectorXcd(A*y);}; return p;}

template<typename E> void scaling(Ctx& c)
{
  // multiplying a linear problem by a power of two together with the absolute tolerance changes nothing in the steps taken; which of the two tolerances is the absolute one is the subject of the known finding below
  typedef CArray<1> A; const int n=c.range(1,4); const Problem p=linear(c,n,1.); VectorXcd y0=initial<A>(c,n); const int k=c.range(1,12)*(c.boolean() ? 1 : -1); const double s=std::ldexp(1.,k), epsRel=std::pow(10.,-c.range(3,9)), epsAbs=std::pow(10.,-c.range(3,9)), T=c.real(.5,5.), dt=c.logReal(.01,1.); c.note("dim ",n,", factor 2^",k,", epsRel ",epsRel,", epsAbs ",epsAbs); c.nontrivial();
  VectorXcd e0,e1,e2,e3; const auto a=times<E,A>(p,y0,dt,epsRel,epsAbs,T,&e0), again=times<E,A>(p,y0,dt,epsRel,epsAbs,T,&e3); c.check(a==again && e0==e3,"repeated run differs"); const auto b=times<E,A>(p,VectorXcd(s*y0),dt,epsRel,s*epsAbs,T,&e1), d=times<E,A>(p,VectorXcd(s*y0),dt,s*epsRel,epsAbs,T,&e2);
  c.check((a==b && e1==VectorXcd(s*e0)) || (a==d && e2==VectorXcd(s*e0)),"the steps taken for a scaled problem with either tolerance scaled differ (",a.size()," steps originally, ",b.size()," with scaled epsAbs, ",d.size()," with scaled epsRel)");
  // more stringent tolerances cannot need much fewer steps
  const auto f=times<E,A>(p,y0,dt,epsRel*1e-3,epsAbs*1e-3,T); c.check(f.size()+2>=a.size(),"tolerances tightened by a thousand: ",f.size()," steps instead of ",a.size()); if (a.size()>8) c.check(f.size()>1.5*a.size(),"tolerances tightened by a thousand: ",f.size()," steps instead of ",a.size());
}
VP_PROP("scaling-and-determinism",10000,100000,60) {static const std::vector<Fn> f{&scaling<ODE_EngineBoost<CArray<1>>>,&scaling<ODE_EngineGSL<CArray<1>>>}; c.pick(f)(c);}

template<typename E> void role(Ctx& c)
{
  typedef CArray<1> A; Problem p; p.n=1; p.rate=1; p.f=[](const VectorXcd& y, double) {return VectorXcd(dcomp(0,-1)*y);}; VectorXcd y0(1); y0(0)=1.; c.nontrivial();
  const auto a=times<E,A>(p,y0,.1,1e-6,1e-30,10.), b=times<E,A>(p,VectorXcd(1024.*y0),.1,1e-6,1e-30,10.); c.check(a==b,"with a purely relative tolerance the number of steps depends on the unit of the amplitude: ",a.size()," vs ",b.size());
}
VP_KNOWN("known-tolerance-roles-boost","C07-tolerances-exchanged-boost",60) {role<ODE_EngineBoost<CArray<1>>>(c);}
VP_KNOWN("known-tolerance-roles-gsl","C07-tolerances-exchanged-gsl",60) {role<ODE_EngineGSL<CArray<1>>>(c);}

// trajectories advance by exactly the interval asked for
template<typename E> void advancing(Ctx& c)
{
  typedef CArray<1> A; const int n=c.range(1,4); const Problem p=problem(c,n,false); VectorXcd y0=initial<A>(c,n); const double eps=std::pow(10.,-c.range(4,9)), dt=c.logReal(.001,1.)/p.rate; c.note(p.name,", dim ",n,", eps ",eps); std::ostringstream log; double peak=std::max(1.,y0.cwiseAbs().maxCoeff());
  auto S=simulated::make<E>(Ad<A>::make(y0),[&](const A& x, A& dx, double tt) {Ad<A>::put(dx,p.f(Ad<A>::get(x),tt));},{},dt,0,eps,eps); const int legs=c.range(1,6); c.nontrivial(legs>1); double tot=0;
  for (int l=0; l<legs; ++l) {const double T=(c.boolean(.2) ? -1 : 1)*c.real(.01,2.)/p.rate, t0=S.getTime(); tot+=std::abs(T); if (c.boolean()) {advance(S,T,log); c.check(S.getTime()==t0+T,"time after advancing by ",T," from ",t0," is ",S.getTime());} else {const double to=t0+T; advanceTo(S,to,log); c.check(S.getTime()==t0+(to-t0),"time after advancing to ",to," is ",S.getTime()); c.near(S.getTime(),to,1e-15,"time after advancing");}
    std::ostringstream os; const VectorXcd got=Ad<A>::get(std::get<1>(S.stream(os,6))), want=p.exact(y0,0,S.getTime()); peak=std::max(peak,got.cwiseAbs().maxCoeff()); const double b=eps*(1+2*peak)*(200+50*tot*p.rate)*p.amplification(tot); same(c,got,want,b/std::max(1.,want.cwiseAbs().maxCoeff()),"state at ",S.getTime());}
}
VP_PROP("advance-by-exact-interval",10000,100000,60) {static const std::vector<Fn> f{&advancing<ODE_EngineBoost<CArray<1>>>,&advancing<ODE_EngineGSL<CArray<1>>>}; c.pick(f)(c);}

VP_PROP("closed-form-oscillator",20000,200000,10) {
  const double gamma=c.boolean(.25) ? 1. : c.oneOf({0.,.1,.5,.95,1.3,3.})*c.real(.9,1.1), omega=c.real(-4,4), tI=c.real(-2,2); const dcomp y0=c.cplx(5), v0=c.cplx(5); if (std::abs(1.+2.*dcomp(0,1)*gamma*omega-omega*omega)<.05 || std::abs(std::abs(gamma)-1)<1e-2 && gamma!=1.) c.discard(); const double t=tI+c.real(-2,4); c.note("gamma ",gamma,", omega ",omega,", initial time ",tI,", t ",t); c.nontrivial(t!=tI); c.label(gamma==1. ? "critical" : gamma<1 ? "underdamped" : "overdamped");
  const auto o=ddho::make(gamma,omega,y0,v0,tI); c.near(o->amp(tI),y0,1e-9,"initial amplitude"); c.near(o->ampDeriv(tI),v0,1e-9,"initial velocity");
  // exact solution through the exponential of the augmented first-order system (y, y', drive)
  MatrixXcd A=MatrixXcd::Zero(3,3); A(0,1)=1; A(1,0)=-1; A(1,1)=-2*gamma; A(1,2)=1; A(2,2)=dcomp(0,omega); VectorXcd s(3); s<<y0,v0,std::exp(dcomp(0,omega*tI)); const VectorXcd w=expm(A*(t-tI))*s; const double sc=1e-8*(1+std::exp(std::abs(t-tI)*2*gamma)); c.near(o->amp(t),w(0),sc,"amplitude"); c.near(o->ampDeriv(t),w(1),sc,"velocity");
}
