#include "c13_common.h"
#include "interactions.h"
#include "QbitModeCorrelations.h"
#include "ModeCorrelations.h"
#include "BinarySystem.h"

static Quantities qm(const MatrixXcd& r, int n)
{
  const MatrixXcd s=destroy(2), a=destroy(n), z=(ketbra(2,1,1)-ketbra(2,0,0))/2.; const dcomp x=ev(kron(s,MatrixXcd(a.adjoint())),r), y=ev(kron(s,a),r), w=ev(kron(z,a),r); return {{"real(<sigma*adagger>",x.real()},{"imag(\")",x.imag()},{"real(<sigma*a>)",y.real()},{"imag(\")",y.imag()},{"real(<sigmaZ*a>)",w.real()},{"imag(\")",w.imag()}};
}
static Quantities mm(const MatrixXcd& r, int n, int m)
{
  Quantities A=ofMode(reduced(r,{0},{n,m}),true), B=ofMode(reduced(r,{1},{n,m}),true); const std::vector<std::string> la{"<a number operator>","VAR(a number operator)","real(<a>)","imag(\")","<X^2>-<X>^2","<Y^2>-<Y>^2","<(XY+YX)/2>-<X><Y>"}, lb{"<b number operator>","VAR(b number operator)","real(<b>)","imag(\")","<Q^2>-<Q>^2","<P^2>-<P>^2","<(QP+PQ)/2>-<Q><P>"};
  for (int i=0; i<7; ++i) {A[i].first=la[i]; B[i].first=lb[i];} Quantities q=A; q.insert(q.end(),B.begin(),B.end()); const double s2=std::sqrt(2.); const MatrixXcd a=destroy(n), b=destroy(m), X=(a+a.adjoint())/s2, Y=(a-a.adjoint())/dcomp(0,s2), Q=(b+b.adjoint())/s2, P=(b-b.adjoint())/dcomp(0,s2), I=MatrixXcd::Identity(n,n), J=MatrixXcd::Identity(m,m);
  auto cov=[&](const MatrixXcd& u, const MatrixXcd& v){return (ev(kron(u,v),r)-ev(kron(u,J),r)*ev(kron(I,v),r)).real();}; q.push_back({"<XQ>-<X><Q>",cov(X,Q)}); q.push_back({"<XP>-<X><P>",cov(X,P)}); q.push_back({"<YQ>-<Y><Q>",cov(Y,Q)}); q.push_back({"<YP>-<Y><P>",cov(Y,P)}); return q;
}
static Quantities freeAvr(const F& f, const MatrixXcd& r) {return f.qbit ? ofQbit(r) : ofMode(r);}
// the interaction's own averages, and those of the whole binary system
template<typename REF> static void both(Ctx& c, structure::InteractionPtr<2> ia, const F& f, const F& g, REF&& ref)
{
  const std::vector<int> d{f.dim,g.dim}; c.nontrivial();
  if (c.boolean()) averages<2>(c,std::dynamic_pointer_cast<const structure::Averaged<2>>(ia),d,ref);
  else averages<2>(c,binary::make(ia),d,[&](const MatrixXcd& r){Quantities q=freeAvr(f,reduced(r,{0},d)); for (auto& x : freeAvr(g,reduced(r,{1},d))) q.push_back(x); for (auto& x : ref(r)) q.push_back(x); return q;});
}
VP_PROP("qubit-mode",8000,60000,20)
{
  const F q=makeQbit(c,anyPicture(c)), m=makeMode(c,7); const dcomp g=strength(c); c.note(q.name,", ",m.name,", g ",g); both(c,jaynescummings::make<QbitModeCorrelations>(q.qbit,m.mode,g),q,m,[&](const MatrixXcd& r){return qm(r,m.dim);});
}
VP_PROP("mode-mode",8000,60000,20)
{
  const F a=makeMode(c,5), b=makeMode(c,5); const dcomp u=strength(c); c.note(a.name,", ",b.name,", u ",u); both(c,coupledmodes::make<coupledmodes::CM_XX,ModeCorrelations>(a.mode,b.mode,u),a,b,[&](const MatrixXcd& r){return mm(r,a.dim,b.dim);});
}
