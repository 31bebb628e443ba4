// multi-level atoms (the header defines a non-inline function: include in a single translation unit per driver)
#pragma once
#include "systems.h"
#include "MultiLevel.h"

namespace sys {
template<int NL> struct ML : F {typename MultiLevelBase<NL>::Ptr ml; double par=0; std::vector<double> parV; bool offDiagonals=false;};
struct Edge {int i, j; dcomp v;};
template<typename V> std::vector<Edge> edges(const V& v) {std::vector<Edge> r; boost::fusion::for_each(v,[&](auto p) {r.push_back({decltype(p)::first,decltype(p)::second,dcomp(p.get())});}); return r;}
template<typename V> V drawPumps(Ctx& c) {V v; boost::fusion::for_each(v,[&](auto& p) {p=typename std::decay_t<decltype(p)>(c.boolean(.8) ? c.cplx(3.) : dcomp(0));}); return v;}
template<typename V> V drawDecays(Ctx& c, bool lossless) {V v; boost::fusion::for_each(v,[&](auto& p) {p=typename std::decay_t<decltype(p)>(!lossless && c.boolean(.8) ? c.real(0.,2.) : 0.);}); return v;}

template<int NL, typename VP, typename VL> ML<NL> makeML(Ctx& c, bool lossless=false, bool noise=true)
{
  ML<NL> f; f.dim=NL; multilevel::RealPerLevel<NL> deltas, gp; for (int i=0; i<NL; ++i) {deltas(i)=c.real(-6.,6.); gp(i)=0;} const VP etas=drawPumps<VP>(c); const VL gammas=drawDecays<VL>(c,lossless); const int mode=lossless || !noise ? 0 : c.range(0,2); double par=0; f.offDiagonals=c.boolean();
  if (mode==1) par=c.real(0.,2.); if (mode==2) for (int i=0; i<NL; ++i) gp(i)=c.real(0.,2.);
  f.G=MatrixXcd::Zero(NL,NL); for (int i=0; i<NL; ++i) f.G(i,i)=dcomp(0,deltas(i));
  for (auto& e : edges(etas)) {f.G(e.i,e.j)+=std::conj(e.v); f.G(e.j,e.i)-=e.v;}
  for (auto& e : edges(gammas)) {f.G(e.j,e.j)-=e.v; f.J.push_back(std::sqrt(2*e.v.real())*ketbra(NL,e.i,e.j)); f.R.push_back(2*e.v.real()*ketbra(NL,e.j,e.j)); f.special.push_back(0);}
  std::ostringstream o; o<<NL<<"-level atom(deltas "<<deltas; for (auto& e : edges(etas)) o<<", pump "<<e.i<<e.j<<" "<<e.v; for (auto& e : edges(gammas)) o<<", decay "<<e.j<<"->"<<e.i<<" "<<e.v.real(); o<<", phase noise "<<par<<" "<<gp<<")"; f.name=o.str();
  std::vector<double> g(NL,par); if (mode==2) for (int i=0; i<NL; ++i) g[i]=gp(i); bool any=false; for (double x : g) any=any || x; if (any) f.parV=g;
  if (mode==2) f.ml=multilevel::makePumpedLossySch(deltas,etas,gammas,gp,"PumpedLossyMultiLevelSch",f.offDiagonals); else f.ml=multilevel::makePumpedLossySch(deltas,etas,gammas,par,"PumpedLossyMultiLevelSch",f.offDiagonals);
  if (any) for (int i=0; i<NL; ++i) {f.J.push_back(std::sqrt(2*g[i])*(MatrixXcd::Identity(NL,NL)-2*ketbra(NL,i,i))); f.R.push_back(2*g[i]*MatrixXcd::Identity(NL,NL)); f.special.push_back(1);}
  f.p=f.ml; return f;
}
template<int I, int J> using Pu=multilevel::Pump<I,J>; template<int I, int J> using De=multilevel::Decay<I,J>; template<typename... T> using Ve=boost::fusion::vector<T...>;
// V, Lambda, ladder, closed loop and a four-level atom
template<typename F> void anyML(Ctx& c, F&& f, bool lossless=false, bool noise=true)
{
  switch (c.range(0,4)) {
  case 0: f(makeML<2,Ve<Pu<0,1>>,Ve<De<0,1>,De<1,0>>>(c,lossless,noise)); return;
  case 1: f(makeML<3,Ve<Pu<0,2>,Pu<1,2>>,Ve<De<0,2>,De<1,2>>>(c,lossless,noise)); return;
  case 2: f(makeML<3,Ve<Pu<0,1>,Pu<2,0>>,Ve<De<0,1>,De<0,2>>>(c,lossless,noise)); return;
  case 3: f(makeML<4,Ve<Pu<0,1>,Pu<3,2>,Pu<0,3>>,Ve<De<0,1>,De<1,2>,De<0,3>,De<2,3>>>(c,lossless,noise)); return;
  default: f(makeML<3,Ve<Pu<0,1>,Pu<1,2>,Pu<2,0>>,Ve<De<0,2>,De<2,1>>>(c,lossless,noise));
  }
}
} // sys
