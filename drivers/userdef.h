// Systems written against the framework's base classes, as a user would, at every time-dependence level, with an independent solution.
#pragma once
#include "quantum.h"
#include "ElementLiouvillean.h"
#include "ElementAveraged.h"
#include "FreeExact.h"
#include "Free.h"
namespace user {
using namespace sys; using structure::TimeDependence;

struct Law { // the physics, in Schrodinger picture
  int n=1; MatrixXcd H0,H1; double w=0, ph=0; VectorXcd D; double b=0, w2=1; std::vector<MatrixXcd> J; std::vector<double> jw,jp; std::vector<char> special, super; bool hasEx=false, two=false, hasHa=false, timeH=false, timeJ=false, inMaster=true; std::vector<MatrixXcd> O; double freq=1; double unit=1; // unit of time
  double s(double t) const {return timeH ? std::sin(w*t+ph) : 1.;}
  double f(size_t k, double t) const {return timeJ ? 1+.6*std::sin(jw[k]*t+jp[k]) : 1.;}
  double E(double t) const {return two ? t+b*(1-std::cos(w2*t))/w2 : t;} double Ed(double t) const {return two ? 1+b*std::sin(w2*t) : 1.;}
  MatrixXcd decay(double t) const {MatrixXcd m=MatrixXcd::Zero(n,n); for (size_t k=0; k<J.size(); ++k) m+=f(k,t)*f(k,t)*J[k].adjoint()*J[k]; return m/2.;}
  MatrixXcd A(double t) const {if (!hasHa) return MatrixXcd::Zero(n,n); return MatrixXcd(dcomp(0,-1)*(H0+s(t)*H1)-decay(timeH ? t : 0));}
  VectorXcd U(double t, double t0) const {VectorXcd u(n); for (int i=0; i<n; ++i) u(i)=hasEx ? std::exp(-D(i)*(E(t)-E(t0))) : dcomp(1); return u;}
  MatrixXcd G(double t) const {MatrixXcd g=A(t); if (hasEx) g-=MatrixXcd((D*Ed(t)).asDiagonal()); return g;}
  MatrixXcd jump(size_t k, double t) const {return f(k,t)*J[k];}
  double rate(size_t k, double t, const VectorXcd& v) const {return (jump(k,t)*v).squaredNorm();}
  double total(double t, const VectorXcd& v) const {double r=0; for (size_t k=0; k<J.size(); ++k) r+=rate(k,t,v); return r;}
  double rateScale() const {double x=1e-300; x=std::max(x,(H0.cwiseAbs()+H1.cwiseAbs()).maxCoeff()*n); x=std::max(x,2*D.cwiseAbs().maxCoeff()); for (auto& j : J) x=std::max(x,2.6*j.squaredNorm()); x=std::max({x,std::abs(w),std::abs(w2)}); for (double y : jw) x=std::max(x,std::abs(y)); return x;}
  // fourth-order Magnus steps, much shorter than any time scale
  template<typename Gen, typename V> static V propagate(const Gen& g, V v, double t, double dt, double scale)
  {
    const int N=2+int(std::ceil(std::abs(dt)*scale*60)); const double h=dt/N, c=std::sqrt(3.)/6; for (int i=0; i<N; ++i) {const double a=t+i*h; const MatrixXcd g1=g(a+(.5-c)*h), g2=g(a+(.5+c)*h); v=expm(MatrixXcd((g1+g2)*(h/2)+(g2*g1-g1*g2)*(h*h*std::sqrt(3.)/12)))*v;} return v;
  }
  VectorXcd pure(const VectorXcd& v, double t, double dt) const {return propagate([&](double x) {return G(x);},v,t,dt,rateScale());}
  MatrixXcd mixed(const MatrixXcd& r, double t, double dt) const
  {
    const MatrixXcd I=MatrixXcd::Identity(n,n); VectorXcd v(n*n); for (int i=0; i<n; ++i) for (int j=0; j<n; ++j) v(i*n+j)=r(i,j);
    v=propagate([&](double x) {const MatrixXcd g=G(x); MatrixXcd L=kron(g,I)+kron(I,MatrixXcd(g.conjugate())); for (size_t k=0; k<J.size(); ++k) {const MatrixXcd j=jump(k,x); L+=kron(j,MatrixXcd(j.conjugate()));} return L;},v,t,dt,rateScale());
    MatrixXcd m(n,n); for (int i=0; i<n; ++i) for (int j=0; j<n; ++j) m(i,j)=v(i*n+j); return m/m.trace();
  }
};
using LawPtr=std::shared_ptr<const Law>;

// --- the elements: each level of time dependence through the dispatched base classes
template<TimeDependence TD> class Ham : public structure::HamiltonianTimeDependenceDispatched<1,TD>
{
public: explicit Ham(LawPtr l) : l_(l) {}
private: LawPtr l_; using Time=typename structure::HamiltonianTimeDependenceDispatched<1,TD>::Time;
  void addContribution_v(Time t, const structure::StateVectorLow<1>& psi, structure::StateVectorLow<1>& d) const override
  {
    const Law& l=*l_; MatrixXcd M; if constexpr (TD==TimeDependence::TWO) {const VectorXcd u=l.U(t.getT(),t.getT0()); M=u.cwiseInverse().asDiagonal()*l.A(t.getT())*MatrixXcd(u.asDiagonal());} else if constexpr (TD==TimeDependence::ONE) {const double x=t; if (l.hasEx) {const VectorXcd u=l.U(x,0); M=u.cwiseInverse().asDiagonal()*l.A(0)*MatrixXcd(u.asDiagonal());} else M=l.A(x);} else M=l.A(0);
    const VectorXcd v=toVec<1>(d)+M*toVec<1>(psi); fromVec<1>(d,v);
  }
};
template<bool TWO> class Ex : public structure::FreeExact<TWO>
{
public: explicit Ex(LawPtr l) : structure::FreeExact<TWO>(size_t(l->n)), l_(l) {}
private: LawPtr l_; using Time=typename structure::FreeExact<TWO>::Time; bool applicableInMaster_v() const override {return l_->inMaster;}
  void updateU(Time t) const override {VectorXcd u; if constexpr (TWO) u=l_->U(t.getT(),t.getT0()); else u=l_->U(double(t),0); fromVec<1>(this->getDiagonal(),u);}
};
inline double expectation(const MatrixXcd& o, const LDO<1>& m) {return (o*lazyMat<1>(m)).trace().real();}
template<typename T> double at(T t) {if constexpr (std::is_same_v<T,structure::OneTime>) return t; else return 0;}
// one, two or three jumps known at compile time
template<bool TIME> class Jumps1 : public structure::ElementLiouvillean<1,1,TIME>
{
public: explicit Jumps1(LawPtr l) : structure::ElementLiouvillean<1,1,TIME>("jumps","jump 0"), l_(l) {}
private: LawPtr l_; using Time=typename structure::ElementLiouvillean<1,1,TIME>::Time; void doActWithJ(Time t, structure::StateVectorLow<1>& psi) const override {const VectorXcd v=l_->jump(0,at(t))*toVec<1>(psi); fromVec<1>(psi,v);}
  double rate(Time t, const LDO<1>& m) const override {if (l_->special[0]) return -1; const MatrixXcd j=l_->jump(0,at(t)); return expectation(j.adjoint()*j,m);}
  void doActWithSuperoperator(Time t, const structure::DensityOperatorLow<1>& r, structure::DensityOperatorLow<1>& d) const override {if (!l_->super[0]) throw structure::SuperoperatorNotImplementedException(0); const MatrixXcd j=l_->jump(0,at(t)), m=toMat<2>(d)+j*toMat<2>(r)*j.adjoint(); fromMat<2>(d,m);}
};
#define USER_JUMP(K) \
  void doActWithJ(Time t, structure::StateVectorLow<1>& psi, LindbladNo<K>) const override {const VectorXcd v=l_->jump(K,at(t))*toVec<1>(psi); fromVec<1>(psi,v);} \
  double rate(Time t, const LDO<1>& m, LindbladNo<K>) const override {if (l_->special[K]) return -1; const MatrixXcd j=l_->jump(K,at(t)); return expectation(j.adjoint()*j,m);} \
  void doActWithSuperoperator(Time t, const structure::DensityOperatorLow<1>& r, structure::DensityOperatorLow<1>& d, LindbladNo<K>) const override {if (!l_->super[K]) throw structure::SuperoperatorNotImplementedException(K); const MatrixXcd j=l_->jump(K,at(t)), m=toMat<2>(d)+j*toMat<2>(r)*j.adjoint(); fromMat<2>(d,m);}
template<bool TIME> class Jumps2 : public structure::ElementLiouvillean<1,2,TIME>
{
public: explicit Jumps2(LawPtr l) : structure::ElementLiouvillean<1,2,TIME>("jumps",{"jump 0","jump 1"}), l_(l) {}
private: LawPtr l_; using Time=typename structure::ElementLiouvillean<1,2,TIME>::Time; template<int K> using LindbladNo=typename structure::lindblad::Base<2>::template LindbladNo<K>; USER_JUMP(0) USER_JUMP(1)
};
template<bool TIME> class Jumps3 : public structure::ElementLiouvillean<1,3,TIME>
{
public: explicit Jumps3(LawPtr l) : structure::ElementLiouvillean<1,3,TIME>("jumps",{"jump 0","jump 1","jump 2"}), l_(l) {}
private: LawPtr l_; using Time=typename structure::ElementLiouvillean<1,3,TIME>::Time; template<int K> using LindbladNo=typename structure::lindblad::Base<3>::template LindbladNo<K>; USER_JUMP(0) USER_JUMP(1) USER_JUMP(2)
};
// jumps given as functions
template<int N, bool TIME> class JumpsS : public structure::ElementLiouvilleanStrategies<1,N,TIME>
{
  using B=structure::ElementLiouvilleanStrategies<1,N,TIME>;
  static typename B::JumpStrategies js(LawPtr l) {typename B::JumpStrategies r; for (int k=0; k<N; ++k) {if constexpr (TIME) r(k)=[=](double t, structure::StateVectorLow<1>& psi) {const VectorXcd v=l->jump(k,t)*toVec<1>(psi); fromVec<1>(psi,v);}; else r(k)=[=](structure::StateVectorLow<1>& psi) {const VectorXcd v=l->jump(k,0)*toVec<1>(psi); fromVec<1>(psi,v);};} return r;}
  static typename B::JumpRateStrategies rs(LawPtr l) {typename B::JumpRateStrategies r; for (int k=0; k<N; ++k) {if constexpr (TIME) r(k)=[=](double t, const LDO<1>& m) {if (l->special[k]) return -1.; const MatrixXcd j=l->jump(k,t); return expectation(j.adjoint()*j,m);}; else r(k)=[=](const LDO<1>& m) {if (l->special[k]) return -1.; const MatrixXcd j=l->jump(k,0); return expectation(j.adjoint()*j,m);};} return r;}
  static std::list<std::string> labels() {std::list<std::string> r; for (int k=0; k<N; ++k) r.push_back("jump "+std::to_string(k)); return r;}
public:
  explicit JumpsS(LawPtr l) : B(js(l),rs(l),"jumps",labels()) {for (int k=0; k<N; ++k) if (l->super[k]) {if constexpr (TIME) this->superoperatorStrategies_(k)=[=](double t, const structure::DensityOperatorLow<1>& r, structure::DensityOperatorLow<1>& d) {const MatrixXcd j=l->jump(k,t), m=toMat<2>(d)+j*toMat<2>(r)*j.adjoint(); fromMat<2>(d,m);}; else this->superoperatorStrategies_(k)=[=](const structure::DensityOperatorLow<1>& r, structure::DensityOperatorLow<1>& d) {const MatrixXcd j=l->jump(k,0), m=toMat<2>(d)+j*toMat<2>(r)*j.adjoint(); fromMat<2>(d,m);};}}
};
template<bool TIME> class Avr : public structure::ElementAveraged<1,TIME>
{
public: explicit Avr(LawPtr l) : structure::ElementAveraged<1,TIME>("averages",labels(*l)), l_(l) {}
private: LawPtr l_; using Time=typename structure::ElementAveraged<1,TIME>::Time; static std::list<std::string> labels(const Law& l) {std::list<std::string> r; for (size_t k=0; k<l.O.size(); ++k) r.push_back("observable "+std::to_string(k)); return r;}
  const structure::Averages average_v(Time t, const LDO<1>& m) const override {auto a(this->initializedAverages()); for (size_t k=0; k<l_->O.size(); ++k) a(int(k))=(1+.3*std::sin(at(t)))*expectation(l_->O[k],m); return a;}
};
template<int N> struct Nil {explicit Nil(LawPtr) {}};
template<typename H, typename X, typename L, typename A> class Element : public structure::Free, public H, public X, public L, public A
{
public: explicit Element(LawPtr l) : structure::Free(size_t(l->n),structure::DynamicsBase::RealFreqs{RF{"w",l->freq,1.}}), H(l), X(l), L(l), A(l) {}
};
using Ptr=std::shared_ptr<const structure::Free>;
template<typename H, typename X, typename L> Ptr make3(LawPtr l, bool avTime) {return avTime ? Ptr(std::make_shared<Element<H,X,L,Avr<true>>>(l)) : Ptr(std::make_shared<Element<H,X,L,Avr<false>>>(l));}
template<typename H, typename X, bool T> Ptr make2(LawPtr l, bool av, bool strategies) {switch (l->J.size()) {case 0: return make3<H,X,Nil<2>>(l,av); case 1: return strategies ? make3<H,X,JumpsS<1,T>>(l,av) : make3<H,X,Jumps1<T>>(l,av); case 2: return strategies ? make3<H,X,JumpsS<2,T>>(l,av) : make3<H,X,Jumps2<T>>(l,av); default: return strategies ? make3<H,X,JumpsS<3,T>>(l,av) : make3<H,X,Jumps3<T>>(l,av);}}
template<typename H, typename X> Ptr make1(LawPtr l, bool av, bool st) {return l->timeJ ? make2<H,X,true>(l,av,st) : make2<H,X,false>(l,av,st);}

struct System {LawPtr law; Ptr p; bool avTime=false; std::string name;};
inline Ptr build(LawPtr l, bool av, bool st, int level)
{
  using T=TimeDependence; switch (level) {
  case 0: return make1<Nil<0>,Nil<1>>(l,av,st); case 1: return make1<Ham<T::NO>,Nil<1>>(l,av,st); case 2: return make1<Ham<T::ONE>,Nil<1>>(l,av,st); case 3: return make1<Ham<T::ONE>,Ex<false>>(l,av,st);
  case 4: return make1<Ham<T::TWO>,Ex<true>>(l,av,st); case 5: return make1<Nil<0>,Ex<false>>(l,av,st); default: return make1<Nil<0>,Ex<true>>(l,av,st);}
}
// levels: 0 no Hamiltonian, 1 constant, 2 H(t), 3 H(t-t0) and U(t-t0), 4 H(t,t0) and U(t,t0), 5 U(t-t0) alone, 6 U(t,t0) alone
inline System any(Ctx& c, int maxDim, bool forMaster, bool scaled=true)
{
  auto l=std::make_shared<Law>(); l->n=c.range(2,maxDim); const int n=l->n, level=c.oneOf({2,4,3,1,0,5,6}), nJ=c.range(0,3); const double u=scaled ? c.oneOf({1.,1.,1e3,1e-3,30.}) : 1.; l->unit=u; l->hasHa=level>=1 && level<=4; l->hasEx=level>=3; l->two=level==4 || level==6; l->timeH=level==2 || level==4; l->timeJ=c.boolean(.6) && (l->timeH || !forMaster);
  const auto herm=[&] {const MatrixXcd g=gaussianM(c,n,n); return MatrixXcd((g+g.adjoint())/(2.*u));}; l->H0=herm(); l->H1=herm(); l->w=c.real(.3,4.)/u; l->ph=c.real(0.,6.); l->b=c.real(.1,.8); l->w2=c.real(.5,3.)/u; const bool ladder=forMaster && l->hasEx; l->D=VectorXcd::Zero(n);
  if (ladder) {const double d=c.real(-2.,2.)/u; for (int i=0; i<n; ++i) l->D(i)=dcomp(0,d*i);} else for (int i=0; i<n; ++i) l->D(i)=dcomp(forMaster ? 0 : c.real(0.,.6),c.real(-2.,2.))/u; l->inMaster=forMaster || c.boolean();
  const int jumps=forMaster && !l->hasHa ? 0 : nJ; for (int k=0; k<jumps; ++k) {MatrixXcd j=gaussianM(c,n,n)*(.5/std::sqrt(u)); if (ladder) {const int o=c.range(-(n-1),n-1); for (int a=0; a<n; ++a) for (int b=0; b<n; ++b) if (b-a!=o) j(a,b)=0;} l->J.push_back(j); l->jw.push_back(c.real(.3,4.)/u); l->jp.push_back(c.real(0.,6.)); l->special.push_back(c.boolean(.3)); l->super.push_back(c.boolean(.6));}
  for (int k=c.range(1,3); k; --k) {const MatrixXcd g=gaussianM(c,n,n); l->O.push_back((g+g.adjoint())/2.);} l->freq=l->rateScale()/3; System s; s.law=l; s.avTime=c.boolean(); const bool st=c.boolean(.4); s.p=build(l,s.avTime,st,level);
  static const char* names[]={"no Hamiltonian","constant Hamiltonian","H(t)","H(t-t0) with U(t-t0)","H(t,t0) with U(t,t0)","U(t-t0) alone","U(t,t0) alone"}; std::ostringstream o; o<<names[level]<<", dimension "<<n<<", "<<jumps<<(l->timeJ ? " time-dependent" : "")<<" jumps"<<(st ? " given as functions" : "")<<", unit of time "<<u; s.name=o.str(); c.label(names[level]); return s;
}
inline double average(const System& s, size_t k, double t, const MatrixXcd& rho) {return (s.avTime ? 1+.3*std::sin(t) : 1.)*(s.law->O[k]*rho).trace().real();}
} // user
