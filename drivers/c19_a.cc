// C19: initial states against their textbook amplitudes
#include "qdata.h"
#include "Mode.h"
#include "Qbit.h"
#include "Particle.h"
#include "Pars.h"
#include <cmath>
using namespace dense;

static VectorXcd coherentRef(dcomp a, long dim)
{
  VectorXcd v(dim); const long double l=std::abs(a)>0 ? std::log((long double)std::abs(a)) : 0, f=std::arg(a);
  for (long n=0; n<dim; ++n) v(n)=std::abs(a)>0 ? dcomp(std::polar(std::exp(n*l-std::lgamma((long double)(n)+1)/2-(long double)(std::norm(a))/2),n*f)) : dcomp(n==0);
  return v;
}
// the Stirling formula used for numbers of 170 and above is good to 1/(24 n)
static void coherentCheck(Ctx& c, const VectorXcd& got, dcomp a, const char* what)
{
  const VectorXcd want=coherentRef(a,got.size());
  for (long n=0; n<got.size(); ++n) {const double tol=n<170 ? 1e-12+1e-11*std::abs(want(n)) : 1e-12+std::abs(want(n))/(20.*n); c.check(std::abs(got(n)-want(n))<=tol,what,": amplitude of number ",n," is ",got(n)," instead of ",want(n));}
}
static dcomp amplitude(Ctx& c, double rMax) {switch (c.choice(4)) {case 0: return double(c.range(-2,2)); case 1: return {0.,double(c.range(-2,2))}; case 2: return c.cplx(2); default: return std::polar(c.real(0,rMax),c.real(-4,4));}}

VP_PROP("coherent",6000,60000,20) {
  const dcomp a=amplitude(c,6); const long dim=c.boolean(.5) ? long(std::norm(a)+10*std::abs(a)+12) : c.range(1,60); c.note("amplitude ",a,", dim ",dim); c.nontrivial(std::abs(a)>0 && dim>1);
  const VectorXcd v=vec<1>(mode::coherent(a,size_t(dim))); c.check(v.size()==dim,"dimension ",v.size()); coherentCheck(c,v,a,"coherent state");
  if (dim>=long(std::norm(a)+10*std::abs(a)+12)) {c.near(v.norm(),1.,1e-3,"norm of a coherent state far from the cutoff"); dcomp m=0; double n=0; for (long i=1; i<dim; ++i) {m+=std::sqrt(double(i))*std::conj(v(i-1))*v(i); n+=i*std::norm(v(i));} c.near(std::abs(m-a),0.,1e-2*(1+std::abs(a)),"field"); c.near(n,std::norm(a),1e-2*(1+std::norm(a)),"mean number");}
}
VP_PROP("coherent-large",60,600,30) { // large amplitudes: no overflow, no invalid numbers
  const dcomp a=std::polar(c.real(6,60),c.real(-4,4)); const long dim=long(std::norm(a)+c.real(-2,8)*std::abs(a)+12); c.note("amplitude ",a,", dim ",dim); c.nontrivial();
  const VectorXcd v=vec<1>(mode::coherent(a,size_t(dim))); for (long n=0; n<dim; ++n) c.check(std::isfinite(v(n).real()) && std::isfinite(v(n).imag()),"amplitude of number ",n," is ",v(n)); const VectorXcd w=coherentRef(a,dim);
  for (long n=0; n<dim; ++n) c.check(std::abs(v(n)-w(n))<=1e-9+std::abs(w(n))/(n<170 ? 1e4 : 20.*n),"amplitude of number ",n," is ",v(n)," instead of ",w(n)); c.near(v.norm(),w.norm(),1e-3,"norm");
}
VP_PROP("number",6000,60000,20) {
  const long dim=c.range(1,40), n=c.range(0,50); const double ph=c.boolean(.3) ? 0. : c.real(-7,7); const bool dflt=c.boolean(.3); c.note("number ",n,", dim ",dim,", phase ",dflt ? 0. : ph); c.nontrivial(dim>1);
  bool refused=false; VectorXcd v; try {v=vec<1>(dflt ? mode::fock(size_t(n),size_t(dim)) : mode::fock(size_t(n),size_t(dim),ph));} catch (const std::exception&) {refused=true;}
  if (n>=dim) {c.check(refused,"number state ",n," accepted for dimension ",dim); c.label("refused"); return;} c.check(!refused,"number state ",n," refused for dimension ",dim);
  c.check(v.size()==dim,"dimension ",v.size()); for (long i=0; i<dim; ++i) c.near(v(i),i==n ? std::polar(1.,dflt ? 0. : ph) : dcomp(0.),1e-14,"amplitude of number ",i);
}
VP_PROP("mode-init",4000,40000,20) {
  parameters::Table t; const std::string suf=c.boolean() ? "A" : ""; mode::ParsPumpedLossy p(t,suf); p.cutoff=size_t(c.range(2,40)); p.minitFock=c.boolean(.4) ? size_t(c.range(0,45)) : 0; p.minit=c.boolean(.4) ? dcomp(0) : amplitude(c,4); c.note("cutoff ",p.cutoff,", number ",p.minitFock,", field ",p.minit); c.nontrivial();
  bool refused=false; VectorXcd v; try {v=vec<1>(mode::init(p));} catch (const std::exception&) {refused=true;}
  if (p.minitFock>=p.cutoff) {c.check(refused,"number state ",p.minitFock," accepted for cutoff ",p.cutoff); c.label("refused"); return;} c.check(!refused,"initial state refused"); c.check(v.size()==long(p.cutoff),"dimension ",v.size());
  if (p.minitFock) for (long i=0; i<v.size(); ++i) c.near(v(i),i==long(p.minitFock) ? dcomp(1.) : dcomp(0.),1e-14,"amplitude of number ",i); else coherentCheck(c,v,p.minit,"initial field");
}
VP_PROP("qubit-init",8000,80000,20) {
  dcomp a; switch (c.choice(4)) {case 0: a=c.oneOf<dcomp>({0.,1.,-1.,{0,1},{0,-1},.5}); break; case 1: a=std::polar(1.,c.real(-4,4)); c.label("fully excited"); break; case 2: a=std::polar(std::sqrt(.5),c.real(-4,4)); break; default: a=std::polar(c.unit(),c.real(-4,4));} c.note("excited amplitude ",a); c.nontrivial(std::abs(a)>0);
  parameters::Table t; qbit::Pars p(t); p.qbitInit=a; for (const bool viaPars : {false,true}) {const VectorXcd v=vec<1>(viaPars ? qbit::init(p) : qbit::init(a)); c.check(v.size()==2,"dimension ",v.size()); c.near(v(1),a,1e-14,"excited amplitude"); c.check(std::isfinite(v(0).real()),"ground amplitude ",v(0)); c.near(v(0),dcomp(std::sqrt(std::max(0.,1-std::norm(a)))),1e-7,"ground amplitude"); c.near(v.norm(),1.,1e-12,"norm");}
  const VectorXcd s0=vec<1>(qbit::state0()), s1=vec<1>(qbit::state1()); c.check(s0.size()==2 && s0(0)==1. && s0(1)==0. && s1.size()==2 && s1(0)==0. && s1(1)==1.,"basis states of the qubit");
  const dcomp b=std::polar(c.real(1.01,4),c.real(-4,4)); bool refused=false; try {qbit::init(b);} catch (const std::exception&) {refused=true;} c.check(refused,"excited amplitude ",b," of modulus above one accepted");
}
struct Grid {VectorXd x, k; MatrixXcd toK;};
static Grid grid(int fin, double dk) {const int n=1<<fin; Grid g; g.x.resize(n); g.k.resize(n); for (int i=0; i<n; ++i) {g.x(i)=2*M_PI/dk*i/n-M_PI/dk; g.k(i)=dk*(i-n/2);} g.toK.resize(n,n); for (int i=0; i<n; ++i) for (int j=0; j<n; ++j) g.toK(i,j)=std::polar(1/std::sqrt(double(n)),-g.k(i)*g.x(j)); return g;}
static void sameRay(Ctx& c, const VectorXcd& got, VectorXcd want, const char* what)
{
  want/=want.norm(); c.check(got.size()==want.size(),what,": dimension ",got.size()); c.near(got.norm(),1.,1e-10,what,": norm"); const dcomp o=want.dot(got); c.check((got-o*want).norm()<1e-9 && std::abs(std::abs(o)-1)<1e-9,what,": overlap with the documented state is ",std::abs(o));
}
static void moments(Ctx& c, const Grid& g, const VectorXcd& k, double x0, double k0, double dx, double dkk, const char* what)
{
  const VectorXcd x=g.toK.adjoint()*k; const double mx=x.cwiseAbs2().dot(g.x), mk=k.cwiseAbs2().dot(g.k), vx=x.cwiseAbs2().dot((g.x.array()-mx).square().matrix()), vk=k.cwiseAbs2().dot((g.k.array()-mk).square().matrix());
  c.near(mx,x0,1e-4,what,": mean position"); c.near(mk,k0,1e-4,what,": mean momentum"); c.near(std::sqrt(vx),dx,1e-3*dx,what,": width in position"); c.near(std::sqrt(vk),dkk,1e-3*dkk,what,": width in momentum");
}
VP_PROP("wave-packet",5000,50000,20) {
  const int fin=c.range(2,7); const double dk=c.boolean(.7) ? 1. : c.oneOf({.5,2.}); const Grid g=grid(fin,dk); const int n=1<<fin; const bool inK=c.boolean(.4), kFlag=c.boolean(.7); const double step=inK ? dk : 2*M_PI/dk/n, span=n*step, sig=std::max(.3*step,c.logReal(.3*step,span/4)), x0=c.boolean(.2) ? 0. : c.real(-1,1)/dk, k0=c.boolean(.2) ? 0. : c.real(-1,1)*dk*n/2;
  c.note("finesse ",fin,", deltaK ",dk,", x0 ",x0,", k0 ",k0,", width ",sig,inK ? " in momentum" : " in position",kFlag ? ", momentum" : ", position"," representation"); c.nontrivial();
  const particle::Spatial space(size_t(fin),dk); c.check(long(space.getDimension())==n,"dimension of the space"); for (int i=0; i<n; ++i) {c.near(space.x(size_t(i)),g.x(i),1e-12*span+1e-12,"coordinate ",i); c.near(space.k(size_t(i)),g.k(i),1e-12*n,"wave number ",i);}
  VectorXcd x(n), k(n); for (int i=0; i<n; ++i) {x(i)=std::polar(std::exp(-std::pow(g.x(i)-M_PI*x0,2)/(4*sig*sig)),g.x(i)*k0); k(i)=std::polar(std::exp(-std::pow(g.k(i)-k0,2)/(4*sig*sig)),-g.k(i)*M_PI*x0);}
  if (inK) x=g.toK.adjoint()*k; else k=g.toK*x; const VectorXcd got=vec<1>(particle::wavePacket(particle::InitialCondition(x0,k0,sig,inK),space,kFlag)); sameRay(c,got,kFlag ? k : x,"wave packet");
  const double sx=inK ? 1/(2*sig) : sig, sk=inK ? sig : 1/(2*sig), X=M_PI/dk, K=dk*n/2; if (std::abs(M_PI*x0)+6*sx<X && std::abs(k0)+6*sk<K) {c.label("localised"); moments(c,g,kFlag ? got : VectorXcd(g.toK*got),M_PI*x0,k0,sx,sk,"wave packet");}
}
VP_PROP("oscillator-state",4000,40000,20) {
  const int fin=c.range(2,7), n=1<<fin, num=c.range(-1,10); const Grid g=grid(fin,1); const bool kFlag=c.boolean(.7); const double step=2*M_PI/n, sig=c.logReal(.5*step,1.5), x0=c.boolean(.3) ? 0. : c.real(-1,1); c.note("finesse ",fin,", number ",num,", x0 ",x0,", length ",sig); c.nontrivial();
  VectorXcd x(n); for (int i=0; i<n; ++i) {const double t=(g.x(i)-M_PI*x0)/sig; double h0=1, h1=2*t, h=num<=0 ? 1 : h1; for (int j=1; j<num; ++j) {h=2*t*h1-2*j*h0; h0=h1; h1=h;} x(i)=h*std::exp(-t*t/2);}
  if (!(x.norm()>1e-100)) return; const particle::Spatial space{size_t(fin)}; const VectorXcd got=vec<1>(particle::hoState(num,particle::InitialCondition(x0,c.real(-2,2),sig),space,kFlag)); sameRay(c,got,kFlag ? VectorXcd(g.toK*x) : x,"oscillator state");
  const double N=std::max(num,0)+.5, sx=sig*std::sqrt(N), sk=std::sqrt(N)/sig; if (std::abs(M_PI*x0)+6*sx<M_PI && 6*sk<n/2.) {c.label("localised"); moments(c,g,kFlag ? got : VectorXcd(g.toK*got),M_PI*x0,0,sx,sk,"oscillator state");}
}
VP_PROP("particle-init",3000,30000,20) { // the parameter bundles select the documented state
  parameters::Table t; particle::ParsPumped p(t); const int fin=c.range(3,6), n=1<<fin; p.fin=size_t(fin); p.omrec=c.logReal(.1,10); p.vClass=c.logReal(.5,50)*(c.boolean() ? 1 : -1); const Grid g=grid(fin,1); const bool inK=c.boolean(.3), zero=c.boolean(.3) && !inK; const double x0=c.real(-1,1), k0=c.range(-n/4,n/4), sig=zero ? 0. : inK ? c.logReal(.5,n/8.) : c.logReal(M_PI/n,1.); p.hoInitn=zero || inK ? -1 : c.range(-2,4);
  p.init.get()=particle::InitialCondition::Impl(x0,k0,sig,inK); c.note("finesse ",fin,", omrec ",p.omrec,", vClass ",p.vClass,", x0 ",x0,", k0 ",k0,", width ",sig,inK ? " in momentum" : "",", oscillator number ",p.hoInitn); c.nontrivial();
  const double s=zero ? std::pow(p.omrec/std::abs(p.vClass),.25)/std::sqrt(2.) : sig; VectorXcd x(n), k(n);
  if (p.hoInitn>=0) {for (int i=0; i<n; ++i) {const double u=(g.x(i)-M_PI*x0)/s; double h0=1, h1=2*u, h=p.hoInitn==0 ? 1 : h1; for (int j=1; j<p.hoInitn; ++j) {h=2*u*h1-2*j*h0; h0=h1; h1=h;} x(i)=h*std::exp(-u*u/2);} k=g.toK*x;}
  else if (inK) for (int i=0; i<n; ++i) k(i)=std::polar(std::exp(-std::pow(g.k(i)-k0,2)/(4*s*s)),-g.k(i)*M_PI*x0);
  else {for (int i=0; i<n; ++i) x(i)=std::polar(std::exp(-std::pow(g.x(i)-M_PI*x0,2)/(4*s*s)),g.x(i)*k0); k=g.toK*x;}
  if (!(k.norm()>1e-100)) return; sameRay(c,vec<1>(particle::init(p)),k,"initial state of a driven particle");
  if (!zero) {parameters::Table u; particle::Pars q(u); q.fin=p.fin; q.omrec=p.omrec; q.hoInitn=p.hoInitn; q.init.get()=p.init.get(); sameRay(c,vec<1>(particle::init(q)),k,"initial state of a particle"); sameRay(c,vec<1>(p.hoInitn<0 ? particle::wavePacket(q) : particle::hoState(q)),k,"initial state of a particle");}
}
