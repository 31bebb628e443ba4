// Composites compared with their constituents, whose behaviour is measured on the constituents themselves and embedded densely.
#pragma once
#include "interactions.h"
#include "BinarySystem.h"
#include "Composite.tcc"
using namespace sys;

struct Part { // one constituent, at the places pos of the whole
  std::vector<int> pos, d; std::string name, key, keyLi, params; bool ex=false, ha=false, li=false, av=false, inMaster=true, super=true; size_t nLi=0, nAv=0; double freq=0;
  std::function<MatrixXcd(double,double)> H; std::function<VectorXcd(double,double)> U; std::function<MatrixXcd(double,size_t)> J; std::function<std::vector<double>(double,const MatrixXcd&,bool)> avr; // bool: rates
  std::function<MatrixXcd(double,const MatrixXcd&,size_t)> S; std::function<std::vector<double>(std::vector<double>)> process; std::function<std::string(const std::vector<double>&,int)> stream;
};
inline structure::Averages toAvr(const std::vector<double>& v) {structure::Averages a(int(v.size())); for (size_t i=0; i<v.size(); ++i) a(int(i))=v[i]; return a;}
inline std::vector<double> fromAvr(const structure::Averages& a) {std::vector<double> v; for (int i=0; i<a.extent(0); ++i) v.push_back(a(i+a.lbound(0))); return v;}

template<int R> Part part(Ctx& c, const QuantumSystemWrapper<R>& w, std::shared_ptr<const structure::DynamicsBase> db, const std::vector<int>& d, const std::vector<int>& pos, bool super=true)
{
  Part p; p.d=d; p.pos=pos; p.ex=bool(w.getEx()); p.ha=bool(w.getHa()); p.li=bool(w.getLi()); p.av=bool(w.getAv()); p.inMaster=w.applicableInMaster(); p.nLi=w.template nAvr<structure::LA_Li>(); p.nAv=w.template nAvr<structure::LA_Av>(); p.freq=db->highestFrequency(); p.super=super;
  {std::ostringstream o; db->streamParameters(o); p.params=o.str();}
  p.H=[=,&c](double t, double t0) {return contribution<R>(c,w,d,t,t0);}; p.U=[=](double t, double t0) {return exactDiag<R>(w,d,t,t0);}; p.J=[=](double t, size_t k) {return jumpMatrix<R>(w,d,k,t);};
  p.avr=[=](double t, const MatrixXcd& rho, bool li) {const auto r=makeDO<R>(d,rho); return fromAvr(li ? w.template average<structure::LA_Li>(t,r) : w.template average<structure::LA_Av>(t,r));};
  p.S=[=](double t, const MatrixXcd& rho, size_t k) {auto in=makeDO<R>(d,rho), out=makeDO<R>(d,MatrixXcd(MatrixXcd::Zero(rho.rows(),rho.cols()))); w.actWithSuperoperator(t,in.getArray(),out.getArray(),k); return mat<R>(out);};
  p.process=[=](const std::vector<double>& v) {auto a=toAvr(v); w.process(a); return fromAvr(a);}; p.stream=[=](const std::vector<double>& v, int prec) {std::ostringstream o; if (const auto a=w.getAv()) a->stream(toAvr(v),o,prec); return o.str();};
  return p;
}
// keys depend on the ordinal at which they start
template<int R> void keys(Part& p, const QuantumSystemWrapper<R>& w, size_t& i, size_t& j) {std::ostringstream a,b; w.template streamKey<structure::LA_Av>(a,i); w.template streamKey<structure::LA_Li>(b,j); p.key=a.str(); p.keyLi=b.str();}

// superoperator of a part on the whole: block-wise application
inline MatrixXcd embedS(const Part& p, double t, size_t k, const MatrixXcd& rho, const std::vector<int>& d)
{
  const long n=prod(d), m=prod(p.d); MatrixXcd r=MatrixXcd::Zero(n,n); std::vector<int> rest; for (int i=0; i<int(d.size()); ++i) if (std::find(p.pos.begin(),p.pos.end(),i)==p.pos.end()) rest.push_back(i);
  std::vector<int> dr; for (int i : rest) dr.push_back(d[i]); const long q=rest.empty() ? 1 : prod(dr); MatrixXd at(q,m); std::vector<std::vector<long>> idx(q,std::vector<long>(m));
  for (long a=0; a<q; ++a) {const auto x=rest.empty() ? std::vector<int>() : unflat(a,dr); for (long b=0; b<m; ++b) {const auto y=unflat(b,p.d); std::vector<int> full(d.size()); for (size_t i=0; i<rest.size(); ++i) full[rest[i]]=x[i]; for (size_t i=0; i<p.pos.size(); ++i) full[p.pos[i]]=y[i]; idx[a][b]=flat(full,d);}}
  for (long a=0; a<q; ++a) for (long a2=0; a2<q; ++a2) {MatrixXcd s(m,m); for (long b=0; b<m; ++b) for (long b2=0; b2<m; ++b2) s(b,b2)=rho(idx[a][b],idx[a2][b2]); const MatrixXcd o=p.S(t,s,k); for (long b=0; b<m; ++b) for (long b2=0; b2<m; ++b2) r(idx[a][b],idx[a2][b2])+=o(b,b2);}
  return r;
}

template<int R> void compare(Ctx& c, std::shared_ptr<const structure::QuantumSystem<R>> s, const std::vector<Part>& parts, const std::vector<int>& d, const std::string& keyHead, const char* what)
{
  const QuantumSystemWrapper<R> w(s,true); const long n=prod(d); for (int i=0; i<R; ++i) c.check(int(s->getDimension(i))==d[i],what,": dimension ",i); c.check(long(s->getTotalDimension())==n,what,": total dimension");
  bool ex=false, ha=false, li=false, master=true; size_t nLi=0, nAv=0; double freq=0; for (auto& p : parts) {ex=ex || p.ex; ha=ha || p.ha; li=li || p.li; nLi+=p.nLi; nAv+=p.nAv; master=master && p.inMaster; freq=std::max(freq,p.freq);}
  c.check(bool(w.getEx())==ex && bool(w.getHa())==ha && bool(w.getLi())==li && bool(w.getAv()),what,": characteristics"); c.check(w.applicableInMaster()==master,what,": applicability in the master equation ",w.applicableInMaster()); c.check(w.template nAvr<structure::LA_Li>()==nLi,what,": number of jumps ",w.template nAvr<structure::LA_Li>()," instead of ",nLi); c.check(w.template nAvr<structure::LA_Av>()==nAv,what,": number of averages");
  c.check(s->highestFrequency()==freq,what,": highest frequency ",s->highestFrequency()," instead of ",freq);
  const double t=c.real(-1.,2.), t0=c.boolean() ? t : c.real(-1.,2.);
  if (ha) {MatrixXcd H=MatrixXcd::Zero(n,n); for (auto& p : parts) if (p.ha) H+=embed(p.H(t,t0),p.pos,d); double sc=std::max(1.,H.cwiseAbs().maxCoeff()); same(c,contribution<R>(c,w,d,t,t0,true),H,1e-11*sc,what,": Hamiltonian at ",t," ",t0);}
  if (ex) {VectorXcd U=VectorXcd::Ones(n); for (auto& p : parts) if (p.ex) {const VectorXcd u=p.U(t,t0); U=U.cwiseProduct(VectorXcd(embed(u.asDiagonal(),p.pos,d).diagonal()));} const VectorXcd x=gaussian(c,n); auto psi=makeSV<R>(d,x); w.actWithU(t,psi.getArray(),t0); const VectorXcd g=vec<R>(psi); for (long i=0; i<n; ++i) c.check(std::abs(g(i)-U(i)*x(i))<=1e-11*std::max(1.,std::abs(U(i)*x(i))),what,": exact propagation, element ",i," ",g(i)," instead of ",U(i)*x(i));}
  const VectorXcd x=data(c,n); const VectorXcd psi=x/x.norm(); const MatrixXcd pure=psi*psi.adjoint(), rho=densityMatrix(c,n);
  for (int k=0; k<2; ++k) { // rates, averages
    std::vector<double> wp,wm; for (auto& p : parts) for (int q=0; q<2; ++q) {const auto a=p.avr(t,reduced(q ? rho : pure,p.pos,d),k==0); auto& v=q ? wm : wp; v.insert(v.end(),a.begin(),a.end());}
    const auto P=makeSV<R>(d,psi); const auto D=makeDO<R>(d,rho); const auto gp=fromAvr(k ? w.template average<structure::LA_Av>(t,P) : w.template average<structure::LA_Li>(t,P)), gm=fromAvr(k ? w.template average<structure::LA_Av>(t,D) : w.template average<structure::LA_Li>(t,D));
    c.check(gp.size()==wp.size() && gm.size()==wm.size(),what,": number of ",k ? "averages" : "rates"," returned");
    for (size_t i=0; i<wp.size(); ++i) {if (!k && wp[i]<-1e-12) {c.check(gp[i]<0 && gm[i]<0,what,": special rate ",i); continue;} c.near(gp[i],wp[i],1e-10,what,": ",k ? "average " : "rate ",i," of a pure state"); c.near(gm[i],wm[i],1e-10,what,": ",k ? "average " : "rate ",i," of a mixed state");}
    if (k) {
      std::vector<double> in(nAv), want; for (auto& v : in) v=c.real(-3.,3.); size_t at=0; for (auto& p : parts) {const auto o=p.process(std::vector<double>(in.begin()+at,in.begin()+at+p.nAv)); want.insert(want.end(),o.begin(),o.end()); at+=p.nAv;}
      auto a=toAvr(in); w.process(a); const auto got=fromAvr(a); for (size_t i=0; i<nAv; ++i) c.check(got[i]==want[i] || (std::isnan(got[i]) && std::isnan(want[i])),what,": processed average ",i," ",got[i]," instead of ",want[i]);
      const int prec=c.range(3,10); std::ostringstream o; w.getAv()->stream(toAvr(in),o,prec); std::string ws; at=0; for (auto& p : parts) {if (p.nAv) ws+=p.stream(std::vector<double>(in.begin()+at,in.begin()+at+p.nAv),prec); at+=p.nAv;} c.check(o.str()==ws,what,": streamed '",o.str(),"' instead of '",ws,"'");
    }
  }
  {std::string wk=keyHead, wl=keyHead; for (auto& p : parts) {wk+=p.key; wl+=p.keyLi;} size_t i=3, j=5; std::ostringstream a,b; w.template streamKey<structure::LA_Av>(a,i); w.template streamKey<structure::LA_Li>(b,j); c.check(a.str()==wk,what,": key of averages '",a.str(),"' instead of '",wk,"'"); if (li) c.check(b.str()==wl,what,": key of jumps '",b.str(),"' instead of '",wl,"'");
    std::ostringstream o; s->streamParameters(o); const std::string ps=o.str(); size_t at=0; for (auto& p : parts) {const auto f=ps.find(p.params,at); c.check(f!=std::string::npos,what,": parameters of a part missing or out of order"); at=f+p.params.size();}}
  size_t k=0; for (auto& p : parts) for (size_t q=0; q<p.nLi; ++q,++k) {
    auto s1=makeSV<R>(d,psi); w.actWithJ(t,s1.getArray(),k); const MatrixXcd J=p.J(t,q); same(c,vec<R>(s1),VectorXcd(embed(J,p.pos,d)*psi),1e-10*std::max(1.,J.norm()),what,": jump ",k);
    if (p.super) {const MatrixXcd r=gaussianM(c,n,n), b=gaussianM(c,n,n); auto in=makeDO<R>(d,r), out=makeDO<R>(d,b); w.actWithSuperoperator(t,in.getArray(),out.getArray(),k); same(c,MatrixXcd(mat<R>(out)-b),embedS(p,t,q,r,d),1e-10*std::max(1.,J.squaredNorm()),what,": superoperator ",k); c.check(mat<R>(in)==r,what,": superoperator ",k," changes its argument");}
  }
}

// --- synthetic constituents with every combination of characteristics
struct Core {std::vector<int> d; VectorXcd D; MatrixXcd G1,G2,G3; std::vector<MatrixXcd> J,Q,A,B,O; bool master; int kind; double freq;};
inline Core core(Ctx& c, const std::vector<int>& d, int kind)
{
  Core k; k.d=d; const long n=prod(d); k.kind=kind; k.master=c.boolean(.7); k.freq=c.real(0.,9.); k.D=gaussian(c,n)*.3; k.G1=gaussianM(c,n,n); k.G2=gaussianM(c,n,n); k.G3=gaussianM(c,n,n);
  for (int i=c.range(0,3); i; --i) {k.J.push_back(gaussianM(c,n,n)); const MatrixXcd q=gaussianM(c,n,n); k.Q.push_back(q*q.adjoint()); k.A.push_back(gaussianM(c,n,n)); k.B.push_back(gaussianM(c,n,n));}
  for (int i=c.range(0,3); i; --i) {const MatrixXcd q=gaussianM(c,n,n); k.O.push_back(q+q.adjoint());} return k;
}
using CorePtr=std::shared_ptr<const Core>;
template<int R> std::vector<int> shapeOf(const CArray<R>& a) {std::vector<int> d; for (int i=0; i<R; ++i) d.push_back(a.extent(i)); return d;}
template<int R> void assign(CArray<R>& a, const VectorXcd& v) {fromVec<R>(a,v);}
inline structure::Averages traces(const std::vector<MatrixXcd>& o, const MatrixXcd& rho, double f) {structure::Averages a(int(o.size())); for (size_t i=0; i<o.size(); ++i) a(int(i))=f*(o[i]*rho).trace().real(); return a;}
template<int R> class TEx : public structure::Exact<R> {public: TEx(CorePtr k) : k_(k) {} private: CorePtr k_; bool applicableInMaster_v() const override {return k_->master;} void actWithU_v(double t, structure::StateVectorLow<R>& psi, double t0) const override {VectorXcd v=toVec<R>(psi); for (long i=0; i<v.size(); ++i) v(i)*=std::exp(-k_->D(i)*(t-t0)); assign<R>(psi,v);}};
template<int R> class THa : public structure::Hamiltonian<R> {public: THa(CorePtr k) : k_(k) {} private: CorePtr k_; void addContribution_v(double t, const structure::StateVectorLow<R>& psi, structure::StateVectorLow<R>& d, double t0) const override {assign<R>(d,VectorXcd(toVec<R>(d)+(k_->G1+t*k_->G2+t0*k_->G3)*toVec<R>(psi)));}};
template<int R> class TLi : public structure::Liouvillean<R> {public: TLi(CorePtr k) : k_(k) {} private: CorePtr k_;
  std::ostream& streamKey_v(std::ostream& o, size_t& i) const override {o<<"jumps of "<<k_->kind<<"\n"; for (size_t n=k_->J.size(); n; --n) o<<i++<<". jump\n"; return o;} size_t nAvr_v() const override {return k_->J.size();} const structure::Rates average_v(double t, const LDO<R>& m) const override {return traces(k_->Q,lazyMat<R>(m),1+.1*t);}
  void actWithJ_v(double t, structure::StateVectorLow<R>& psi, size_t i) const override {assign<R>(psi,VectorXcd((1+.2*t)*(k_->J.at(i)*toVec<R>(psi))));}
  void actWithSuperoperator_v(double t, const structure::DensityOperatorLow<R>& r, structure::DensityOperatorLow<R>& d, size_t i) const override {const MatrixXcd m=toMat<2*R>(d)+(1+.3*t)*(k_->A.at(i)*toMat<2*R>(r)*k_->B[i]); fromMat<2*R>(d,m);}};
template<int R> class TAv : public structure::Averaged<R> {public: TAv(CorePtr k) : k_(k) {} private: CorePtr k_;
  std::ostream& streamKey_v(std::ostream& o, size_t& i) const override {o<<"averages of "<<k_->kind<<"\n"; for (size_t n=k_->O.size(); n; --n) o<<i++<<". average\n"; return o;} size_t nAvr_v() const override {return k_->O.size();} const structure::Averages average_v(double t, const LDO<R>& m) const override {return traces(k_->O,lazyMat<R>(m),1-.1*t);}
  void process_v(structure::Averages& a) const override {for (int i=0; i<a.extent(0); ++i) a(i)=a(i)*a(i)+k_->kind+i;} std::ostream& stream_v(const structure::Averages& a, std::ostream& o, int p) const override {o<<"["<<k_->kind<<":"<<p; for (int i=0; i<a.extent(0); ++i) o<<" "<<a(i); return o<<"]";}};
// class composition with distinct empty bases
template<int N> struct NilN {NilN(CorePtr) {}};
template<typename H, int R, bool EX, bool HA, bool LI, bool AV> class TestEl : public H, public std::conditional_t<EX,TEx<R>,NilN<0>>, public std::conditional_t<HA,THa<R>,NilN<1>>, public std::conditional_t<LI,TLi<R>,NilN<2>>, public std::conditional_t<AV,TAv<R>,NilN<3>>
{
public:
  template<typename... A> TestEl(CorePtr k, A&&... a) : H(std::forward<A>(a)...), std::conditional_t<EX,TEx<R>,NilN<0>>(k), std::conditional_t<HA,THa<R>,NilN<1>>(k), std::conditional_t<LI,TLi<R>,NilN<2>>(k), std::conditional_t<AV,TAv<R>,NilN<3>>(k) {this->getParsStream()<<"element "<<k->kind<<"\n";}
};
template<typename H, int R, int... I, typename... A> std::shared_ptr<const H> makeEl(std::integer_sequence<int,I...>, int f, CorePtr k, A&&... a)
{std::shared_ptr<const H> r; (void)((f==I ? (r=std::make_shared<TestEl<H,R,(I&1)!=0,(I&2)!=0,(I&4)!=0,(I&8)!=0>>(k,std::forward<A>(a)...),true) : false) || ...); return r;}
inline std::shared_ptr<const structure::Free> testFree(Ctx& c, int dim, int kind) {const auto k=std::make_shared<const Core>(core(c,{dim},kind)); const structure::DynamicsBase::RealFreqs rf{structure::DynamicsBase::RF{"w",k->freq,1.}}; return makeEl<structure::Free,1>(std::make_integer_sequence<int,16>(),c.range(0,15),k,size_t(dim),rf);}
template<int R> structure::InteractionPtr<R> testIA(Ctx& c, const std::vector<std::shared_ptr<const structure::Free>>& f, const std::vector<int>& pos, int kind)
{
  typename structure::Interaction<R>::Frees fr; std::vector<int> d; for (int i=0; i<R; ++i) {fr[i]=f[pos[i]]; d.push_back(int(f[pos[i]]->getDimension()));} const auto k=std::make_shared<const Core>(core(c,d,kind)); const structure::DynamicsBase::RealFreqs rf{structure::DynamicsBase::RF{"g",k->freq,1.}}; return makeEl<structure::Interaction<R>,R>(std::make_integer_sequence<int,16>(),c.range(0,15),k,fr,rf);
}

template<typename> struct Places; template<int... V> struct Places<Act<V...>> {static std::vector<int> get() {return {V...};} static constexpr int size=sizeof...(V);};
template<typename A> auto wire(Ctx& c, const std::vector<std::shared_ptr<const structure::Free>>& f, int kind) {return A(testIA<Places<A>::size>(c,f,Places<A>::get(),kind));}

template<typename A> void addAct(Ctx& c, const A& a, std::vector<Part>& parts, const std::vector<int>& d, size_t& i, size_t& j, bool super=true)
{
  const auto pos=Places<A>::get(); std::vector<int> dd; for (int x : pos) dd.push_back(d[x]); const QuantumSystemWrapper<Places<A>::size> w(std::dynamic_pointer_cast<const structure::DynamicsBase>(a.get())); parts.push_back(part(c,w,a.get(),dd,pos,super)); keys(parts.back(),w,i,j);
}
template<typename... A> void wholeOf(Ctx& c, const std::vector<std::shared_ptr<const structure::Free>>& f, const A&... a)
{
  constexpr int R=composite::Base<typename boost::fusion::result_of::make_list<A...>::type>::RANK; std::vector<int> d; std::vector<Part> parts; size_t i=3, j=5; for (auto& x : f) d.push_back(int(x->getDimension()));
  for (int k=0; k<R; ++k) {const QuantumSystemWrapper<1> w(f[k]); parts.push_back(part(c,w,f[k],{d[k]},{k})); keys(parts.back(),w,i,j);} (addAct(c,a,parts,d,i,j),...);
  c.nontrivial(); const auto s=composite::make(a...); compare<R>(c,s,parts,d,"","composite");
  if constexpr (R==2 && sizeof...(A)==1) {const auto b=binary::make((a,...).get()); if (Places<std::decay_t<A>...>::get()==std::vector<int>{0,1}) compare<2>(c,b,parts,d,"Binary system\n","binary");}
}
template<typename... A> void synthetic(Ctx& c, int maxDim)
{
  constexpr int R=composite::Base<typename boost::fusion::result_of::make_list<A...>::type>::RANK; std::vector<std::shared_ptr<const structure::Free>> f; for (int i=0; i<R; ++i) f.push_back(testFree(c,c.range(1,maxDim),10*i+1)); c.note("dimensions"); for (auto& x : f) c.note(x->getDimension());
  int kind=100; wholeOf(c,f,wire<A>(c,f,kind+=10)...);
}
