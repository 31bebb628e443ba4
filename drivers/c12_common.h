// The same physical system, made in different pictures
#pragma once
#include "c17_common.h"
#include "Composite.tcc"

// three variants of the same system, each part in another picture; a variant whose documented generator differs (a tilted field is available in one picture only) is discarded
template<int R, typename G> std::vector<Whole<R>> variants(Ctx& c, G g)
{
  const auto r=vp::again(c,3,[&](Ctx& x) {struct Next {~Next() {pictureShift=(pictureShift+1)%3;}} n; return g(x);}); pictureShift=0; for (auto& w : r) if (w.G.rows()!=r[0].G.rows() || (w.G-r[0].G).cwiseAbs().maxCoeff()>1e-13 || w.J.size()!=r[0].J.size()) c.discard();
  std::string n; for (auto& w : r) n+=(n.empty() ? "" : " / ")+w.name; c.note(n); return r;
}
inline Whole<3> whole3(Ctx& c)
{
  const F q=anyQbitOrSpin(c,3), m=makeMode(c,modePars(c,3,false,c.boolean(.3)),anyPicture(c)), n=makeMode(c,modePars(c,3),anyPicture(c)); const auto a=jc(c,q,m); const auto b=coupled(c,m,n); const auto e=jc(c,q,n);
  Whole<3> w; w.name=a.name+" "+b.name+" "+e.name; w.d={m.dim,q.dim,n.dim}; w.p=composite::make(Act<1,0>(a.p),Act<0,2>(b.p),Act<1,2>(e.p)); w.parts={m,q,n}; w.G=embed(a.K,{1,0},w.d)+embed(b.K,{0,2},w.d)+embed(e.K,{1,2},w.d);
  for (int i=0; i<3; ++i) {const F& f=w.parts[i]; w.G+=embed(f.G,{i},w.d); for (size_t k=0; k<f.J.size(); ++k) {w.J.push_back(embed(f.J[k],{i},w.d)); w.Rt.push_back(embed(f.R[k],{i},w.d)); w.special.push_back(f.special[k]);} w.heated=w.heated || f.J.size()>1;}
  return w;
}

// the exact part: exponential of the generator that is missing from the rest, whatever has been asked of the same object before
template<int R> void exactPart(Ctx& c, const Whole<R>& w)
{
  const QuantumSystemWrapper<R> q(w.p,true); c.note(w.name); const long n=w.n(); if (!q.getEx()) {c.label("no exact part"); return;} const double s=w.scale(); c.nontrivial(n>1);
  const MatrixXcd rest=contribution<R>(c,q,w.d,0,0); const MatrixXcd missing=w.G-rest; MatrixXcd off=missing; off.diagonal().setZero(); c.check(off.cwiseAbs().maxCoeff()<=1e-10*s,"the part of the evolution outside of the Hamiltonian is not diagonal"); const VectorXcd E=missing.diagonal();
  const auto rel=[&](const VectorXcd& u, double dt, const char* what) {c.check(u.allFinite() && std::abs(u(0))>0,what,": invalid"); for (long i=0; i<n; ++i) {const dcomp want=std::exp((E(i)-E(0))*dt), got=u(i)/u(0); c.check(std::abs(got-want)<=2e-9*std::max(1.,std::abs(want)),what,": element ",i," over ",dt," relative to the first one is ",got," instead of ",want);}};
  const int k=c.range(2,7); double t=c.boolean() ? 0 : c.real(-2.,20.), last=0; VectorXcd psi=initial(c,n), ref=psi; auto st=makeSV<R>(w.d,psi); double norm=1; const double T0=t;
  for (int i=0; i<k; ++i) {
    const double dt=c.oneOf({1.,1.,1.,0.,-1.})*(c.boolean(.3) ? last : c.real(0.,1.))/s, t0=t; last=std::abs(dt)*s; 
    switch (c.range(0,4)) {
    case 0: rel(exactDiag<R>(q,w.d,t0+dt,t0),(t0+dt)-t0,"exact part"); break; // a question, not part of the history
    case 1: {const double u=c.real(-5.,5.); rel(exactDiag<R>(q,w.d,u+dt,u),(u+dt)-u,"exact part at another time");} break;
    case 2: {const VectorXcd one=exactDiag<R>(q,w.d,t0,t0); for (long j=0; j<n; ++j) c.check(std::abs(one(j)-1.)<1e-14,"not the identity over zero time: ",one(j));} break;
    default: q.actWithU(t0+dt,st.getArray(),t0); t=t0+dt;
    }
  }
  const VectorXcd got=vec<R>(st), once=[&]{auto x=makeSV<R>(w.d,psi); q.actWithU(t,x.getArray(),T0); return vec<R>(x);}(); const double scale=std::max(once.cwiseAbs().maxCoeff(),1e-300)*std::max(1.,std::abs(t)+std::abs(T0)); for (long j=0; j<n; ++j) c.check(std::abs(got(j)-once(j))<=1e-9*std::max(scale,1.),"evolving in several parts from ",T0," to ",t," and at once differ: ",got(j)," ",once(j)); (void)ref; (void)norm;
  bool anyReal=false; for (long i=0; i<n; ++i) anyReal=anyReal || std::abs((E(i)-E(0)).real())>1e-9; if (anyReal) c.label("non-unitary");
}

// the generators seen in the different pictures, at any time and after any history of questions
template<int R> void generators(Ctx& c, const std::vector<Whole<R>>& v)
{
  const double s=v[0].scale(); c.nontrivial(v[0].n()>1 && v[0].G.cwiseAbs().maxCoeff()>0);
  for (auto& w : v) {const QuantumSystemWrapper<R> q(w.p,true); const int k=c.range(1,3); for (int i=0; i<k; ++i) {const double t0=c.boolean() ? 0 : c.real(-3.,5.), ta=c.boolean(.2) ? 0 : c.real(-.5,1.)/s; const MatrixXcd g=generator<R>(c,q,w.d,ta,t0,1e-2/s); same(c,traceless(g),traceless(v[0].G),2e-9*s,"generator of the evolution");}}
}

// evolve the same state in the three pictures, with the same jumps at the same instants, if any
template<int R, template<int> class OE> void evolution3(Ctx& c, const std::vector<Whole<R>>& v)
{
  const auto& m=v[0]; const long n=m.n(); const VectorXcd psi0=initial(c,n); const double eps=1e-10, s=m.scale(); const int stops=c.range(1,4); const bool jumps=!m.J.empty() && c.boolean(); std::vector<double> T; for (int i=0; i<stops; ++i) T.push_back(c.logReal(.05,3.)/s); c.nontrivial(n>1 && m.G.cwiseAbs().maxCoeff()>0); if (jumps) c.label("with jumps");
  P17 q; q.dp=.4; q.tol=2; q.eps=eps; q.logLevel=0; q.seed=1; std::vector<VectorXcd> end, mid; std::vector<std::vector<double>> lines; std::vector<int> prec{c.range(6,9)};
  // the jump that follows the evolution to each stop, chosen from the model
  VectorXcd ref=psi0; std::vector<int> which; std::vector<double> u; std::vector<VectorXcd> states; const double last=1e-3/s;
  for (double t : T) {ref=normalised(expm(m.G*t)*ref); int k=-1; double x=1-1e-9; if (jumps) {ref=normalised(expm(m.G*last)*ref); double cum=0; std::vector<double> lo; for (size_t j=0; j<m.J.size(); ++j) {lo.push_back(cum); cum+=m.rate(j,ref)*last;} const int j=c.range(0,int(m.J.size())-1); const VectorXcd after=m.J[j]*ref; const double r=m.rate(j,ref); if (r*last>1e-6 && std::abs(after.squaredNorm()-r)<1e-10*r) {k=j; x=lo[j]+r*last/2; ref=normalised(after);}} which.push_back(k); u.push_back(x); states.push_back(ref);}
  std::ostringstream lg;
  for (size_t i=0; i<v.size(); ++i) {
    Scripted::script.clear(); auto tr=makeTraj<OE,R>(v[i],psi0,q); double t=0; const char* what[]={"first","second","third"};
    const auto go=[&](double to, double x) {int steps=0; while (to-tr.getTime()>1e-12/s) {const double rem=to-tr.getTime(); Scripted::script.assign(1,bits(1-1e-9)); if (x<1-1e-8 && rem<=last*(1+1e-9)) Scripted::script.assign(1,bits(x)); tr.step(rem,lg); if (++steps>20000) c.fail("too many steps");}};
    for (int k=0; k<stops; ++k) {
      t+=T[k]; go(t,1); if (jumps) {t+=last; const size_t before=tr.getLogger().getTrajectory().size(); const double t1=tr.getTime(); Scripted::script.assign(1,bits(u[k])); tr.step(t-t1,lg); if (std::abs(tr.getDtDid()-(t-t1))>1e-9*last) c.discard(); const auto& l=tr.getLogger().getTrajectory(); c.check(l.size()==before+(which[k]>=0) && (which[k]<0 || l.back().second==size_t(which[k])),what[i]," picture: the random number ",u[k]," leads to ",l.size()==before ? -1 : int(l.back().second)," instead of jump ",which[k]);}
      const VectorXcd got=vec<R>(tr.getStateVector()); const double d=rayDistance(normalised(got),states[k]); c.margin(d/2e-6); c.check(d<2e-6,v[i].name,": the state at time ",t," differs by ",d," from the physical one");
      std::ostringstream o; const auto av=std::get<1>(tr.stream(o,6)); std::vector<double> a; for (int j=0; j<av.extent(0); ++j) a.push_back(av(j)); if (i==0) lines.push_back(a); else {c.check(a.size()==lines[k].size(),"number of averages"); for (size_t j=0; j<a.size(); ++j) if (std::abs(a[j])>1e-2 || std::abs(lines[k][j])>1e-2) c.check(std::abs(a[j]-lines[k][j])<=1e-3*std::max(1.,std::abs(a[j])),"average ",j," at time ",t," is ",lines[k][j]," in one picture, ",a[j]," in another");}
    }
  }
}

// density operators, in the pictures the master equation accepts
template<int R> void masters(Ctx& c, const std::vector<Whole<R>>& v)
{
  using V=tmptools::V_Empty; const long n=v[0].n(); const MatrixXcd rho0=c.boolean() ? densityMatrix(c,n) : [&]{const VectorXcd p=initial(c,n); return MatrixXcd(p*p.adjoint());}(); const double T=c.logReal(.1,6.)/v[0].scale(); std::vector<MatrixXcd> r; std::ostringstream lg;
  for (auto& w : v) {
    parameters::Table t; quantumtrajectory::master::Pars p(t); p.epsRel=p.epsAbs=1e-9; try {auto m=quantumtrajectory::master::make<MB<R>,V>(w.p,makeDO<R>(w.d,rho0),p,0); while (T-m.getTime()>1e-12*T) m.step(T-m.getTime(),lg); std::stringstream s; {cppqedutils::oarchive oa(s); m.stateIO(oa);} cppqedutils::iarchive ia(s); CArray<2*R> a; ia & a; r.push_back(toMat<2*R>(a));}
    catch (const quantumtrajectory::master::SystemNotApplicable&) {c.check(w.parts.size()>1 || w.parts[0].pic!=QMP_SCH,"the Schroedinger picture is refused by the master equation");}
  }
  c.nontrivial(r.size()>1); for (size_t i=1; i<r.size(); ++i) c.check((r[i]-r[0]).cwiseAbs().maxCoeff()<3e-6,"density operators after ",T," differ by ",(r[i]-r[0]).cwiseAbs().maxCoeff()," in different pictures");
}
