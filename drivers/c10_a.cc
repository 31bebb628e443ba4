#include "systems.h"
#include "BichromaticMode.h"
#include "HomodynedMode.h"
#include "ParsParticleCavity.h"
#include "JaynesCummings.h"
#include "GeneralDicke.h"
#include "ParsMultiLevel.h"
#include "Evolution.h"
#include "QM_Picture.h"
#include "DistributionFunctions.h"
#include "traj_common.h"
#include <sys/resource.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <csignal>
#include <unistd.h>
#include <set>
using namespace sys; using parameters::Table;

// --- one generated value: the text given on the command line, and what it has to become
template<typename T> struct Val {T v; std::string text;};
static std::string realText(Ctx& c, double& v)
{
  switch (c.range(0,5)) {
  case 0: {const int i=c.range(-20,20); v=i; return std::to_string(i);}
  case 1: {const int i=c.range(0,99); v=i/10.; std::ostringstream o; o<<i/10<<'.'<<i%10; return o.str();}
  case 2: {const int i=c.range(1,9), e=c.range(-12,12); std::ostringstream o; o<<i<<"e"<<e; v=std::strtod(o.str().c_str(),nullptr); return o.str();}
  case 3: {const int i=c.range(1,9); v=i/10.; return "."+std::to_string(i);}
  case 4: {const int i=c.range(0,9); v=i; return "+"+std::to_string(i)+".";}
  default: {v=c.real(-100.,100.); std::ostringstream o; o.precision(17); o<<v; return o.str();}
  }
}
static Val<double> gen(Ctx& c, double*) {Val<double> r; r.text=realText(c,r.v); return r;}
static Val<int> gen(Ctx& c, int*) {const int i=c.boolean(.9) ? c.range(-1000,1000) : c.oneOf({2147483647,-2147483647}); return {i,std::to_string(i)};}
static Val<long> gen(Ctx& c, long*) {const long i=c.boolean(.9) ? c.range(-1000,1000) : 4000000000L; return {i,std::to_string(i)};}
static Val<unsigned> gen(Ctx& c, unsigned*) {const unsigned i=unsigned(c.range(0,1000)); return {i,std::to_string(i)};}
static Val<size_t> gen(Ctx& c, size_t*) {const size_t i=c.boolean(.9) ? size_t(c.range(0,1000)) : 5000000000ul; return {i,std::to_string(i)};}
static Val<dcomp> gen(Ctx& c, dcomp*) {double a,b=0; const std::string s=realText(c,a); switch (c.range(0,3)) {case 0: return {a,s}; case 1: return {a,"("+s+")"}; case 2: {const auto t=realText(c,b); return {dcomp(a,b),"("+s+","+t+")"};} default: {const auto t=realText(c,b); return {dcomp(a,b),"( "+s+" , "+t+" )"};}}}
static Val<std::string> gen(Ctx& c, std::string*) {static const std::string A="abcXYZ019_./-+=(),"; std::string s; const int n=c.range(1,12); for (int i=0; i<n; ++i) s+=A[c.choice(A.size())]; return {s,s};}
static Val<QM_Picture> gen(Ctx& c, QM_Picture*) {const auto p=anyPicture(c); return {p,picName(p)};}
static const char* methodName(evolution::Method m) {return m==evolution::SINGLE ? "single" : m==evolution::ENSEMBLE ? "ensemble" : "master";}
static const char* mfName(ModeFunctionType m) {return m==MFT_SIN ? "Sin" : m==MFT_COS ? "Cos" : m==MFT_PLUS ? "Plus" : "Minus";}
static Val<evolution::Method> gen(Ctx& c, evolution::Method*) {const auto p=c.oneOf({evolution::SINGLE,evolution::ENSEMBLE,evolution::MASTER}); return {p,methodName(p)};}
static Val<ModeFunctionType> gen(Ctx& c, ModeFunctionType*) {const auto p=c.oneOf({MFT_SIN,MFT_COS,MFT_PLUS,MFT_MINUS}); return {p,mfName(p)};}
static Val<formdouble::Zero> gen(Ctx& c, formdouble::Zero*) {const int i=c.range(1,20); return {formdouble::Zero(i),std::to_string(i)};}
using V3=blitz::TinyVector<double,3>;
static Val<V3> gen(Ctx& c, V3*) {V3 v; std::string s="["; for (int i=0; i<3; ++i) {double x; s+=(i ? "," : "")+realText(c,x); v(i)=x;} return {v,s+"]"};}
using IC=std::tuple<double,double,double,bool>;
static Val<IC> gen(Ctx& c, particle::InitialCondition*) {double x[3]; std::string s="("; const std::string sep=c.boolean() ? "," : ", "; for (int i=0; i<3; ++i) s+=realText(c,x[i])+sep; const bool b=c.boolean(); return {IC(x[0],x[1],x[2],b),s+(b ? "1)" : "0)")};}

static std::string show(double x) {char b[64]; std::snprintf(b,64,"%g",x); return b;}
static std::string show(dcomp x) {return "("+show(x.real())+","+show(x.imag())+")";}
static std::string show(const std::string& s) {return s;}
static std::string show(QM_Picture p) {return picName(p);} static std::string show(evolution::Method p) {return methodName(p);} static std::string show(ModeFunctionType p) {return mfName(p);}
static std::string show(const V3& v) {return "["+show(v(0))+","+show(v(1))+","+show(v(2))+"]";}
static std::string show(const IC& v) {return "("+show(std::get<0>(v))+", "+show(std::get<1>(v))+", "+show(std::get<2>(v))+", "+(std::get<3>(v) ? "1)" : "0)");}
static std::string show(const formdouble::Zero& z) {return std::to_string(z.getPrecision());}
template<typename T> std::enable_if_t<std::is_integral_v<T>,std::string> show(T x) {return std::to_string(x);}
static bool eq(const V3& a, const V3& b) {return a(0)==b(0) && a(1)==b(1) && a(2)==b(2);} static bool eq(const formdouble::Zero& a, const formdouble::Zero& b) {return a.getPrecision()==b.getPrecision();} template<typename T> bool eq(const T& a, const T& b) {return a==b;}
static const particle::InitialCondition* icp=nullptr;

// --- a parameter with its expected value
struct Item {
  std::string name; bool isSwitch=false, isString=false; bool touched=false; virtual ~Item() {} virtual std::string draw(Ctx&) =0; virtual bool ok(std::string&) const =0; virtual std::string printed() const =0; virtual std::string bad(Ctx&) const =0; virtual void negate() {}
};
using P=std::shared_ptr<Item>;
static std::string badNumber(Ctx& c) {return c.oneOf<std::string>({"abc","1.5x","x1","--","1,5","..5","1.2.3","e5"});}
template<typename T> std::string badText(Ctx& c, T*) {return badNumber(c);}
static std::string badText(Ctx& c, int*) {return c.oneOf<std::string>({"abc","1.5","2x","99999999999","1e3"});} static std::string badText(Ctx& c, unsigned*) {return c.oneOf<std::string>({"abc","1.5","2x","99999999999"});}
static std::string badText(Ctx& c, long*) {return c.oneOf<std::string>({"abc","1.5","2x","99999999999999999999"});} static std::string badText(Ctx& c, size_t*) {return c.oneOf<std::string>({"abc","1.5","2x","99999999999999999999"});}
static std::string badText(Ctx& c, dcomp*) {return c.oneOf<std::string>({"abc","(1,2","(1;2)","1,2","(1,2))","[1,2]","(,)"});}
static std::string badText(Ctx& c, V3*) {return c.oneOf<std::string>({"abc","[1,2]","[1,2,3,4]","1","[1,x,3]","(1,2,3)","[1;2;3]","[1,2,3)"});}
static std::string badText(Ctx& c, particle::InitialCondition*) {return c.oneOf<std::string>({"abc","(1,2,3)","(1,2,3,0,5)","1","[1,2,3,0]","(1;2;3;0)","(1,x,3,0)","(1,2,3,7)"});}
static std::string badText(Ctx& c, QM_Picture*) {return c.oneOf<std::string>({"ip","Schroedinger","SCH","0","UI"});} static std::string badText(Ctx& c, evolution::Method*) {return c.oneOf<std::string>({"Master","masterr","0","ens"});} static std::string badText(Ctx& c, ModeFunctionType*) {return c.oneOf<std::string>({"sin","Tan","0","Pluss"});}
template<typename T> struct Par : Item {
  T* p; T e; Par(const std::string& n, T& r) : p(&r), e(r) {name=n; isString=std::is_same_v<T,std::string>;}
  std::string draw(Ctx& c) override {const auto v=gen(c,p); e=v.v; touched=true; return v.text;}
  bool ok(std::string& s) const override {s=show(*p)+" instead of "+show(e); return eq(*p,e);} std::string printed() const override {return show(e);} std::string bad(Ctx& c) const override {return badText(c,p);}
};
template<> struct Par<particle::InitialCondition> : Item {
  particle::InitialCondition* p; IC e; Par(const std::string& n, particle::InitialCondition& r) : p(&r), e(r.getX0(),r.getK0(),r.getSig(),r.isInK()) {name=n;}
  std::string draw(Ctx& c) override {const auto v=gen(c,p); e=v.v; touched=true; return v.text;}
  bool ok(std::string& s) const override {const IC g(p->getX0(),p->getK0(),p->getSig(),p->isInK()); s=show(g)+" instead of "+show(e); return g==e;} std::string printed() const override {return show(e);} std::string bad(Ctx& c) const override {return badText(c,p);}
};
// the precision is stored by value conversion: look at it through the table
struct ParPrecision : Item {
  Table* t; int e; ParPrecision(const std::string& n, Table& t, int d) : t(&t), e(d) {name=n;} int now() const {return dynamic_cast<const parameters::Typed<int>&>((*t)[name]).get();}
  std::string draw(Ctx& c) override {e=c.range(1,20); touched=true; return std::to_string(e);} bool ok(std::string& s) const override {s=std::to_string(now())+" instead of "+std::to_string(e); return now()==e && (!touched || FormDouble::overallPrecision==e);} std::string printed() const override {return std::to_string(e);} std::string bad(Ctx& c) const override {return badText(c,static_cast<int*>(nullptr));}
};
struct Switch : Item {
  bool *p, e; Switch(const std::string& n, bool& r) : p(&r), e(r) {name=n; isSwitch=true;} std::string draw(Ctx&) override {e=true; touched=true; return "";} void negate() override {e=false; touched=true;}
  bool ok(std::string& s) const override {s=std::string(*p ? "on" : "off")+" instead of "+(e ? "on" : "off"); return *p==e;} std::string printed() const override {return e ? "1" : "0";} std::string bad(Ctx& c) const override {return c.oneOf<std::string>({"true","0","1"});}
};
template<typename T> P par(const std::string& n, T& r) {return std::make_shared<Par<T>>(n,r);}
static P par(const std::string& n, bool& r) {return std::make_shared<Switch>(n,r);}

// --- a generated table
struct Gen {
  Table t; std::vector<P> items; std::vector<std::string> titles; std::set<std::string> names; std::vector<std::shared_ptr<void>> keep; std::string prefix="--";
  P find(const std::string& n) const {for (auto& i : items) if (i->name==n) return i; return {};}
};
template<typename T, typename D> P addPar(Gen& g, const std::string& n, const std::string& mod, const D& d, const std::string& desc) {T& r=mod.empty() ? g.t.add(n,desc,T(d)) : g.t.add(n,mod,desc,T(d)); return par(n+mod,r);}
static void randomTable(Ctx& c, Gen& g)
{
  static const std::vector<std::string> pool={"a","ab","abc","A","T","eps","epsAbs","kappa","no_x","x","y","omega","omega0","o","-dash","no_","h","hel","helpme","versions","aParameterWithQuiteALongName","aParameterWithQuiteALongNameIndeed","aParameterWithQuiteALongNames"}; const int n=c.range(1,8); g.prefix=c.oneOf<std::string>({"--","--","-","+","par:"});
  for (int i=0; i<n; ++i) {
    const std::string name=c.pick(pool), mod=c.boolean(.3) ? c.oneOf<std::string>({"0","1","_s"}) : "", full=name+mod, desc=c.oneOf<std::string>({"","a description","long description of this very parameter"}); const int type=c.range(0,10);
    const bool clash=g.names.count(full) || (type==7 && !g.names.count(full) && g.names.count("no_"+full));
    try {
      P p; bool title=false;
      switch (type) {
      case 0: p=addPar<int>(g,name,mod,c.range(-5,5),desc); break;
      case 1: p=addPar<double>(g,name,mod,c.real(-5.,5.),desc); break;
      case 2: p=addPar<dcomp>(g,name,mod,c.cplx(3.),desc); break;
      case 3: p=addPar<std::string>(g,name,mod,std::string(c.boolean() ? "" : "text"),desc); break;
      case 4: p=addPar<size_t>(g,name,mod,c.range(0,9),desc); break;
      case 5: p=addPar<long>(g,name,mod,c.range(-9,9),desc); break;
      case 6: p=addPar<V3>(g,name,mod,V3(1.,2.,3.),desc); break;
      case 7: p=par(full,mod.empty() ? g.t.add(name,desc,c.boolean()) : g.t.add(name,mod,desc,c.boolean())); break;
      case 8: p=addPar<QM_Picture>(g,name,mod,QMP_IP,desc); break;
      case 9: p=addPar<unsigned>(g,name,mod,c.range(0,9),desc); break;
      default: title=true; g.t.addTitle(name,mod);
      }
      c.check(!clash,"the name ",full," was registered twice without complaint"); g.names.insert(full); if (title) g.titles.push_back(full); else {g.items.push_back(p); if (p->isSwitch) g.names.insert("no_"+full);}
    } catch (const parameters::AttemptedRecreationOfParameterException&) {c.check(clash,"registering the new name ",full," was refused"); if (type==7 && !g.names.count(full)) c.discard(); c.label("refused duplicate");}
  }
}
// --- the parameter bundles of the framework, with the names a user gives on the command line
template<typename B, typename... A> B& bundle(Gen& g, A&&... a) {auto p=std::make_shared<B>(g.t,std::forward<A>(a)...); g.keep.push_back(p); return *p;}
static void realTable(Ctx& c, Gen& g)
{
  auto add=[&](const std::string& n, auto& r) {g.items.push_back(par(n,r));}; int n=0;
  auto modeBase=[&](auto& b, const std::string& m) {add("cutoff"+m,b.cutoff); add("minitFock"+m,b.minitFock); add("minit"+m,b.minit); add("modeStreamLevel"+m,b.streamLevel); add("deltaC"+m,b.delta); add("omegaKerr"+m,b.omegaKerr); add("omegaKerrAlter"+m,b.omegaKerrAlter);};
  if (c.boolean(.5)) {++n; auto& b=bundle<evolution::Pars<>>(g); add("eps",b.epsRel); add("epsAbs",b.epsAbs); add("logLevel",b.logLevel); add("seed",b.seed); add("prngStream",b.prngStream); add("noise",b.noise); add("nTraj",b.nTraj); add("dpLimit",b.dpLimit); add("overshootTolerance",b.overshootTolerance); add("nBins",b.nBins); add("nJumpsPerBin",b.nJumpsPerBin); add("evol",b.evol);
    add("T",b.T); add("dc",b.dc); add("Dt",b.Dt); add("NDt",b.NDt); add("o",b.ofn); add("initialFileName",b.initialFileName); g.items.push_back(std::make_shared<ParPrecision>("precision",g.t,6)); add("streamInfo",b.streamInfo); add("firstStateStream",b.firstStateStream); add("sdf",b.sdf); add("autoStopEpsilon",b.autoStopEpsilon); add("autoStopEpsilonAbs",b.autoStopEpsilonAbs); add("autoStopRepetition",b.autoStopRepetition);}
  if (c.boolean(.4)) {++n; auto& b=bundle<mode::ParsPumpedLossy>(g,std::string("0")); modeBase(b,"0"); add("eta0",b.eta); add("kappa0",b.kappa); add("nTh0",b.nTh);}
  if (c.boolean(.4)) {++n; auto& b=bundle<mode::ParsPumped>(g,std::string("1")); modeBase(b,"1"); add("eta1",b.eta);}
  if (c.boolean(.3)) {++n; auto& b=bundle<mode::ParsBichromatic>(g,std::string("B")); modeBase(b,"B"); add("etaB",b.eta); add("kappaB",b.kappa); add("nThB",b.nTh); add("deltaC_OtherB",b.deltaOther); add("etaOtherB",b.etaOther);}
  if (c.boolean(.4)) {++n; auto& b=bundle<qbit::ParsPumpedLossyPhaseNoise>(g,std::string("q")); add("qbitInitq",b.qbitInit); add("deltaAq",b.delta); add("etatq",b.eta); add("gammaq",b.gamma); add("gamma_parallelq",b.gamma_parallel);}
  if (c.boolean(.4)) {++n; auto& b=bundle<qbit::ParsPumpedLossy>(g); add("qbitInit",b.qbitInit); add("deltaA",b.delta); add("etat",b.eta); add("gamma",b.gamma);}
  if (c.boolean(.3)) {++n; auto& b=bundle<spin::Pars>(g,std::string("S")); add("twoSS",b.twoS); add("spinDimS",b.dim); add("thetaS",b.theta); add("phiS",b.phi); add("omegaS",b.omega); add("gammaS",b.gamma);}
  if (c.boolean(.4)) {++n; auto& b=bundle<particle::ParsPumped>(g); add("omrec",b.omrec); add("fin",b.fin); add("pinit",const_cast<particle::InitialCondition&>(b.init)); add("HOinitn",b.hoInitn); add("vClass",b.vClass); add("kPart",b.kPart); add("modePart",b.modePart);}
  if (c.boolean(.3)) {++n; auto& b=bundle<particlecavity::ParsAlong>(g); add("Unot",b.uNot); add("kCav",b.kCav); add("modeCav",b.modeCav);}
  if (c.boolean(.3)) {++n; auto& b=bundle<jaynescummings::Pars>(g); add("g",b.g);}
  if (c.boolean(.3)) {++n; using namespace multilevel; auto& b=bundle<ParsPumpedLossy<3,boost::fusion::vector<>,boost::fusion::vector<>>>(g,std::string("M")); add("deltasM",b.deltas); add("gamma_parallelM",b.gamma_parallel); add("gamma_parallel_vectorM",b.gamma_parallel_vector);}
  if (!n) c.discard();
}

// --- a command line
struct Line {std::vector<std::string> words; std::vector<char*> argv; std::string joined; int argc() const {return int(words.size());} char** get() {argv.clear(); for (auto& w : words) argv.push_back(w.data()); argv.push_back(nullptr); return argv.data();}};
static void put(Ctx& c, Line& l, const std::string& value) {if (value.find(' ')!=std::string::npos && c.boolean()) {std::istringstream s(value); std::string w; while (s>>w) l.words.push_back(w);} else l.words.push_back(value);}
static void assign(Ctx& c, Gen& g, Line& l, const P& i) {if (i->isSwitch && c.boolean()) {l.words.push_back(g.prefix+"no_"+i->name); i->negate(); return;} l.words.push_back(g.prefix+i->name); const auto v=i->draw(c); if (!i->isSwitch) put(c,l,v);}
static void assignments(Ctx& c, Gen& g, Line& l, int n) {for (int k=0; k<n; ++k) assign(c,g,l,c.pick(g.items));}
static void verify(Ctx& c, Gen& g) {for (auto& i : g.items) {std::string s; c.check(i->ok(s),"parameter ",i->name,i->touched ? "" : " (not given)"," is ",s);}}
static void build(Ctx& c, Gen& g) {if (c.boolean(.6)) randomTable(c,g); else realTable(c,g); if (g.items.empty()) c.discard();}
static std::string joined(const Line& l) {std::string s; for (auto& w : l.words) s+=(s.empty() ? "" : " ")+w; return s;}

static void verifyList(Ctx& c, const Gen& g, const std::string& text)
{
  std::istringstream s(text); std::map<std::string,std::vector<std::string>> lines; std::string line; while (std::getline(s,line)) {std::istringstream w(line); std::string n; if (w>>n) lines[n].push_back(line);}
  for (auto& i : g.items) {const auto& v=lines[i->name]; const std::string e=i->printed(); bool ok=false; for (auto& l : v) ok=ok || (l.compare(0,i->name.size()+1,i->name+" ")==0 && l.size()>=e.size() && l.compare(l.size()-e.size(),e.size(),e)==0 && (e.empty() || l.size()==e.size() || isspace(l[l.size()-e.size()-1]))); c.check(ok,"the list does not show the value ",e," of ",i->name,": ",v.empty() ? "no such line" : v[0]);
    if (i->isSwitch) {const auto& w=lines["no_"+i->name]; bool o2=false; const char want=e=="1" ? '0' : '1'; for (auto& l : w) o2=o2 || l.back()==want; c.check(o2,"the list does not show the opposite of the switch ",i->name);}}
}

VP_PROP("values",5000,60000,20)
{
  const int old=FormDouble::overallPrecision; struct Back {int o; ~Back() {FormDouble::overallPrecision=o;}} back{old};
  Gen g; build(c,g); Line l; l.words.push_back(c.boolean() ? "program" : "/some/where/program"); const int n=c.range(0,10); assignments(c,g,l,n); c.note(joined(l)); c.nontrivial(n>1);
  if (c.boolean() && n) {parameters::update(g.t,l.argc(),l.get(),g.prefix);} else if (g.prefix=="--" && c.boolean()) parameters::update(g.t,l.argc(),l.get()); else parameters::update(g.t,l.argc(),l.get(),g.prefix);
  verify(c,g); c.check(*g.t.getParsedCommandLine()==joined(l),"recorded command line: ",*g.t.getParsedCommandLine());
  for (auto& i : g.items) c.check(g.t[i->name].getS()==i->name,"subscripting finds another parameter"); bool thrown=false; try {g.t["unregistered name"];} catch (const parameters::UnrecognisedParameterException&) {thrown=true;} c.check(thrown,"subscripting with an unknown name is accepted");
  std::string text; {CoutCapture cap; g.t.printList(); text=cap.s.str();} verifyList(c,g,text);
  // a second update builds on the first
  if (c.boolean(.3)) {Line m; m.words.push_back("program"); assignments(c,g,m,c.range(0,4)); c.note("then ",joined(m)); parameters::update(g.t,m.argc(),m.get(),g.prefix); verify(c,g); c.check(*g.t.getParsedCommandLine()==joined(m),"recorded second command line");}
}

// --- refusals happen in a child process, as the parser may end the program
struct Outcome {bool returned=false; int status=0; std::string out;};
template<typename F> Outcome inChild(F&& f)
{
  int fd[2]; if (pipe(fd)) throw std::runtime_error("pipe"); const pid_t pid=fork(); if (pid<0) throw std::runtime_error("fork");
  if (!pid) {struct rlimit r{0,0}; setrlimit(RLIMIT_CORE,&r); signal(SIGABRT,SIG_DFL); close(fd[0]); dup2(fd[1],1); int dn=open("/dev/null",1); dup2(dn,2); try {f(); std::cout.flush(); _exit(77);} catch (...) {_exit(78);}}
  close(fd[1]); Outcome o; char b[4096]; ssize_t k; while ((k=read(fd[0],b,sizeof b))>0) o.out.append(b,size_t(k)); close(fd[0]); int st=0; waitpid(pid,&st,0); o.status=st; o.returned=WIFEXITED(st) && WEXITSTATUS(st)==77; return o;
}
VP_PROP("refusals",2500,30000,20)
{
  Gen g; build(c,g); Line l; l.words.push_back("program"); assignments(c,g,l,c.range(0,4)); bool more=true; std::string what;
  switch (c.range(0,5)) {
  case 0: {what="unknown name"; const P i=c.pick(g.items); std::string s; switch (c.range(0,4)) {case 0: s=i->name+"x"; break; case 1: s=i->name.substr(0,i->name.size()-1); break; case 2: s="no_"+i->name; break; case 3: s=i->name; for (auto& ch : s) ch=char(isupper(ch) ? tolower(ch) : toupper(ch)); break; default: s="unheardOf";}
    if (g.names.empty()) {for (auto& j : g.items) {g.names.insert(j->name); if (j->isSwitch) g.names.insert("no_"+j->name);}} if (g.names.count(s) || s=="help" || s=="version") c.discard(); l.words.push_back(g.prefix+s); if (c.boolean()) l.words.push_back(i->isSwitch ? "1" : i->draw(c)); break;}
  case 1: {what="missing value"; const P i=c.pick(g.items); if (i->isSwitch) c.discard(); l.words.push_back(g.prefix+i->name); if (i->isString || c.boolean()) more=false; else {Line m; assignments(c,g,m,1); for (auto& w : m.words) l.words.push_back(w);} break;}
  case 2: {what="malformed value"; const P i=c.pick(g.items); if (i->isString) c.discard(); const auto b=i->bad(c); if (b.substr(0,g.prefix.size())==g.prefix) c.discard(); l.words.push_back(g.prefix+i->name); l.words.push_back(b); break;}
  case 3: {what="missing prefix"; const P i=c.pick(g.items); std::string q; if (g.prefix.size()>1 && c.boolean()) {what="wrong prefix"; q=g.prefix; q[c.choice(q.size())]='/';} const std::string w=q+i->name; if (w.substr(0,g.prefix.size())==g.prefix) c.discard(); l.words.push_back(w); if (!i->isSwitch) l.words.push_back(i->draw(c)); break;}
  case 4: {what="two values"; const P i=c.pick(g.items); if (i->isSwitch) c.discard(); l.words.push_back(g.prefix+i->name); const auto a=i->draw(c), b=i->draw(c); if (b.substr(0,g.prefix.size())==g.prefix) c.discard(); l.words.push_back(a); l.words.push_back(b); break;}
  default: {what="title as parameter"; if (g.titles.empty()) c.discard(); l.words.push_back(g.prefix+c.pick(g.titles)); if (c.boolean()) l.words.push_back("1");}
  }
  if (more) assignments(c,g,l,c.range(0,2)); c.note(what,": ",joined(l),", prefix ",g.prefix); c.label(what); c.nontrivial();
  const auto o=inChild([&] {parameters::update(g.t,l.argc(),l.get(),g.prefix);}); c.check(!o.returned,"the command line with ",what," was accepted"); c.check(!(WIFEXITED(o.status) && WEXITSTATUS(o.status)==0),"the program ended without reporting an error");
}
VP_PROP("help",250,2500,20)
{
  Gen g; build(c,g); Line l; l.words.push_back("program"); assignments(c,g,l,c.range(0,6)); l.words.push_back(g.prefix+"help"); c.note(joined(l)); c.nontrivial(l.words.size()>2);
  const auto o=inChild([&] {parameters::update(g.t,l.argc(),l.get(),g.prefix);}); c.check(!o.returned,"the program goes on after displaying help"); c.check(WIFEXITED(o.status) && WEXITSTATUS(o.status)==0,"help ends in an error"); verifyList(c,g,o.out);
}
VP_PROP("picture",2000,10000,20)
{
  Table t; evolution::Pars<> p(t); const bool e=c.boolean(.8), q=c.boolean(.8); const auto m=c.oneOf({evolution::SINGLE,evolution::ENSEMBLE,evolution::MASTER}); const auto pic=anyPicture(c); Line l; l.words.push_back("program"); auto E=[&] {if (e) {l.words.push_back("--evol"); l.words.push_back(methodName(m));}}; if (c.boolean()) E(); if (q) {l.words.push_back("--picture"); l.words.push_back(picName(pic));} if (l.words.size()<2 || l.words[1]!="--evol") E(); c.note(joined(l)); c.nontrivial(e && q);
  QM_Picture& r=picture::updateWithPicture(t,l.argc(),l.get()); const auto M=e ? m : evolution::SINGLE; const auto Q=q ? pic : QMP_IP; c.check(p.evol==M,"evolution method"); const auto want=M==evolution::MASTER && Q==QMP_IP ? QMP_UIP : Q; c.check(r==want,"picture ",picName(r)," instead of ",picName(want)); c.check(dynamic_cast<const parameters::Typed<QM_Picture>&>(t["picture"]).get()==want,"picture stored in the table");
}
VP_PROP("proxy",1000,5000,20)
{
  bool v=c.boolean(), w=c.boolean(); cppqedutils::BooleanNegatedProxy a(v), b(w); bool mv=v, mw=w; const int n=c.range(1,8); std::string s;
  for (int k=0; k<n; ++k) {switch (c.range(0,3)) {case 0: {const bool x=c.boolean(); a=x; mv=!x; s+="a="+std::to_string(x)+" "; break;} case 1: b=a; mw=mv; s+="b=a "; break; case 2: {const bool x=c.boolean(); std::istringstream i(x ? "1" : "0"); i>>b; mw=!x; s+="b<-"+std::to_string(x)+" "; break;} default: {cppqedutils::BooleanNegatedProxy d(a); const bool x=c.boolean(); d=x; mv=!x; s+="copy of a="+std::to_string(x)+" ";}} c.check(v==mv && w==mw && bool(a)==!mv && bool(b)==!mw,"after ",s);}
  c.note(s); c.nontrivial(n>2);
}
