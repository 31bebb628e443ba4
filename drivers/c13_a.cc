#include "c13_common.h"
#include "Mode.tcc"
#include "BichromaticMode.h"
#include "AveragingUtils.h"
#include "multilevel.h"

template<typename A, typename... P> static mode::Ptr modeWith(Ctx& c, const ModePars& m, QM_Picture pic, P&&... a) {parameters::Table t; mode::ParsPumpedLossy p(t); p.cutoff=m.cutoff; p.delta=m.delta; p.kappa=m.kappa; p.nTh=m.nTh; p.eta=m.eta; return mode::make<A>(p,pic,std::forward<P>(a)...);}
static std::shared_ptr<const structure::Averaged<1>> av(std::shared_ptr<const structure::Free> f) {return std::dynamic_pointer_cast<const structure::Averaged<1>>(f);}

VP_PROP("mode",12000,120000,20)
{
  const auto m=modePars(c,12); const auto pic=anyPicture(c); const int n=m.cutoff, kind=c.range(0,3); c.note("cutoff ",n,", averaging ",kind); c.nontrivial();
  mode::Ptr p; switch (kind) {case 0: p=modeWith<mode::Averaged>(c,m,pic); break; case 1: p=modeWith<mode::AveragedQuadratures>(c,m,pic); break; case 2: p=modeWith<mode::AveragedMonitorCutoff<>>(c,m,pic); break; default: p=modeWith<mode::AveragedMonitorCutoff<mode::AveragedQuadratures>>(c,m,pic);}
  averages<1>(c,av(p),{n},[&](const MatrixXcd& r){return ofMode(r,kind&1,kind&2);});
}
VP_PROP("elements",16000,150000,20)
{
  c.nontrivial();
  switch (c.range(0,2)) {
  case 0: {const F f=makeQbit(c,qbitPars(c,false,c.boolean(.3)),anyPicture(c)); c.note(f.name); averages<1>(c,av(f.p),{2},ofQbit); break;}
  case 1: {const F f=makeSpin(c,spinPars(c,8),anyPicture(c),c.boolean()); c.note(f.name); averages<1>(c,av(f.p),{f.dim},[&](const MatrixXcd& r){return ofSpin(r,f.twoS);}); break;}
  default: {const F f=makePart(c,partPars(c,1,5),anyPicture(c)); c.note(f.name); averages<1>(c,av(f.p),{f.dim},ofParticle,0,true);}
  }
}
VP_PROP("multi-level",6000,60000,20) {c.nontrivial(); anyML(c,[&](auto f) {c.note(f.name," off-diagonals ",f.offDiagonals); averages<1>(c,av(f.p),{f.dim},[&](const MatrixXcd& r){return ofMatrix(r,{f.dim},f.offDiagonals);});});}

// concatenation of other averages, with their own processing
struct Custom : structure::ClonableElementAveraged<1> { // one or two averages, processed: <n> -> -2<n>+1, (<n>,<n^2>) -> (<n>,VAR)
  const bool two; explicit Custom(bool w) : structure::ClonableElementAveraged<1>("Custom",w ? std::list<std::string>{"population","variance"} : std::list<std::string>{"inverted"}), two(w) {}
  const structure::Averages average_v(structure::NoTime, const quantumdata::LazyDensityOperator<1>& m) const override {auto a=initializedAverages(); for (size_t i=1; i<m.getDimension(); ++i) {a(0)+=double(i)*m(i); if (two) a(1)+=double(i*i)*m(i);} return a;}
  void process_v(structure::Averages& a) const override {if (two) a(1)-=a(0)*a(0); else a(0)=1-2*a(0);}
  ClonableElementAveraged<1>* const do_clone() const override {return new Custom(*this);}
};
typedef averagingUtils::Collecting<1> Coll;
VP_PROP("collecting",10000,90000,20)
{
  const int n=c.range(2,7), k=c.range(1,5); Coll::Collection coll; std::vector<std::function<Quantities(const MatrixXcd&)>> refs; c.note("dimension ",n); c.nontrivial(k>1);
  for (int i=0; i<k; ++i) switch (const int kind=c.range(0,5)) {
    case 0: coll.push_back(new mode::Averaged()); c.note("Averaged"); refs.push_back([](const MatrixXcd& r){return ofMode(r);}); break;
    case 1: coll.push_back(new mode::AveragedQuadratures()); c.note("AveragedQuadratures"); refs.push_back([](const MatrixXcd& r){return ofMode(r,true);}); break;
    case 2: case 3: {const bool off=kind==3; coll.push_back(new ReducedDensityOperator<1>("",n,off)); c.note("ReducedDensityOperator ",off); refs.push_back([=](const MatrixXcd& r){return ofMatrix(r,{n},off);}); break;}
    case 4: {const bool two=c.boolean(); coll.push_back(new Custom(two)); c.note("custom ",two); refs.push_back([=](const MatrixXcd& r) {const MatrixXcd N=number(int(r.rows())); const double m=ev(N,r).real(); return two ? Quantities{{"population",m},{"variance",ev(N*N,r).real()-m*m}} : Quantities{{"inverted",1-2*m}};}); break;}
    default: {Coll::Collection in; in.push_back(new mode::AveragedQuadratures()); in.push_back(new mode::Averaged()); coll.push_back(new Coll(in)); c.note("nested"); refs.push_back([](const MatrixXcd& r){auto q=ofMode(r,true); for (auto& x : ofMode(r)) q.push_back(x); return q;});}
  }
  auto all=[&](const MatrixXcd& r) {Quantities q; for (auto& f : refs) for (auto& x : f(r)) q.push_back(x); return q;};
  switch (c.range(0,2)) {
  case 0: averages<1>(c,std::make_shared<const Coll>(coll),{n},all); break;
  case 1: {const Coll a(coll); averages<1>(c,std::make_shared<const Coll>(a),{n},all); break;}
  default: {auto m=modePars(c,7); m.cutoff=n; averages<1>(c,av(modeWith<Coll>(c,m,anyPicture(c),coll)),{n},all);}
  }
}
// reduced density operators of several parts, negativity
template<int R> static void matrixElements(Ctx& c, const std::vector<int>& d) {const bool off=c.boolean(.7); c.note("dimensions ",show(d)," off-diagonals ",off); c.nontrivial(prod(d)>1); averages<R>(c,std::make_shared<const ReducedDensityOperator<R>>("label",ext<R>(d),off),d,[&](const MatrixXcd& r){return ofMatrix(r,d,off);});}
VP_PROP("matrix-elements",6000,60000,20) {switch (c.range(0,2)) {case 0: matrixElements<1>(c,{c.range(1,6)}); break; case 1: matrixElements<2>(c,dims(c,2,9,4)); break; default: matrixElements<3>(c,dims(c,3,12,3));}}
// sum of the moduli of the negative eigenvalues of the partial transpose
static double neg(const MatrixXcd& rho, const std::vector<int>& d, const std::vector<int>& v)
{
  const long n=prod(d); MatrixXcd t(n,n); for (long i=0; i<n; ++i) for (long j=0; j<n; ++j) {auto a=unflat(i,d), b=unflat(j,d); for (int k : v) std::swap(a[k],b[k]); t(flat(a,d),flat(b,d))=rho(i,j);} const VectorXd e=Eigen::SelfAdjointEigenSolver<MatrixXcd>(t,Eigen::EigenvaluesOnly).eigenvalues(); double s=0; for (long i=0; i<n; ++i) if (e(i)<0) s-=e(i); return s;
}
template<int R, int... V> static void negativity(Ctx& c, const std::vector<int>& d)
{
  typedef ReducedDensityOperatorNegativity<R,tmptools::Vector<V...>> A; c.note("dimensions ",show(d)," part ",show({V...})); c.nontrivial(); std::shared_ptr<const structure::Averaged<R>> p; int copies=1;
  if (c.boolean(.6)) p=std::make_shared<const A>("label",ext<R>(d)); else {typedef averagingUtils::Collecting<R> C; typename C::Collection coll; copies=c.range(1,2); for (int i=0; i<copies; ++i) coll.push_back(new A("label",ext<R>(d))); p=std::make_shared<const C>(coll); c.note("collected ",copies);}
  averages<R>(c,p,d,[&](const MatrixXcd& r){Quantities q; for (int i=0; i<copies; ++i) {for (auto& x : ofMatrix(r,d,true)) q.push_back(x); q.push_back({"negativity",neg(r,d,{V...})});} return q;});
}
VP_PROP("negativity",4800,45000,20) {switch (c.range(0,3)) {case 0: negativity<2,0>(c,dims(c,2,9,4,2)); break; case 1: negativity<2,1>(c,dims(c,2,9,4,2)); break; case 2: negativity<3,1>(c,dims(c,3,12,3,2)); break; default: negativity<3,0,2>(c,dims(c,3,12,3,2));}}

// averages computed through another object that refers to the same state
VP_PROP("transferring",1200,9000,20)
{
  const std::vector<int> d{2,c.range(1,4)}; const long n=prod(d); const MatrixXcd rho=densityMatrix(c,n); const auto D=makeDO<2>(d,rho); c.note("dimensions ",show(d)); c.nontrivial(n>2); const bool off=c.boolean(); const auto to=std::make_shared<const ReducedDensityOperator<2>>("l",ext<2>(d),off);
  std::shared_ptr<const structure::Averaged<1>> t=std::make_shared<const averagingUtils::Transferring<1,2>>(to,D); const auto E=makeDO<1>({int(n)},rho); std::ostringstream a,b; const auto [o1,x]=structure::stream<1>(t,0.,E,a,6); const auto [o2,y]=structure::stream<2>(to,0.,D,b,6); c.check(a.str()==b.str(),"streamed '",a.str(),"' instead of '",b.str(),"'"); c.check(fromAvr(x)==fromAvr(y),"transferred averages"); size_t i=4,j=4; std::ostringstream k,l; t->streamKey(k,i); to->streamKey(l,j); c.check(k.str()==l.str() && i==j,"legend");
}
// averages that depend on time: a mode in the interaction picture without exact propagation
VP_PROP("time-dependent",2400,18000,20)
{
  const auto m=modePars(c,8); parameters::Table t; mode::ParsPumpedLossy p(t); p.cutoff=m.cutoff; p.delta=m.delta; p.kappa=m.kappa; p.eta=m.eta; p.nTh=0; const int n=m.cutoff; const double tm=c.real(-.3,.3); const dcomp z(m.kappa,-m.delta); c.note("cutoff ",n,", kappa ",m.kappa,", delta ",m.delta,", t ",tm); c.nontrivial();
  averages<1>(c,std::make_shared<const PumpedLossyModeIP_NoExact>(p),{n},[&](const MatrixXcd& r){MatrixXcd s=r; for (int i=0; i<n; ++i) for (int j=0; j<n; ++j) s(i,j)*=std::exp(-z*double(i)*tm)*std::exp(-std::conj(z)*double(j)*tm); const dcomp a=ev(destroy(n),s); return Quantities{{"<number operator>",ev(number(n),s).real()},{"real(<ladder operator>)",a.real()},{"imag(\")",a.imag()}};},tm);
}
