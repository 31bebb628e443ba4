#include "vpbt.h"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <unordered_set>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

std::string versionHelper() {return "verification harness";} // Version.cc cannot be compiled offline

namespace vp {

std::vector<Prop>& registry() {static std::vector<Prop> r; return r;}

static std::string scratchDir_;
std::string scratch() {return scratchDir_;}

static std::uint64_t mix(std::uint64_t z) {z+=0x9e3779b97f4a7c15ull; z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31);}
static std::uint64_t hashStr(const std::string& s) {std::uint64_t h=1469598103934665603ull; for (unsigned char c : s) {h^=c; h*=1099511628211ull;} return h;}

std::uint64_t Ctx::raw() {rng+=0x9e3779b97f4a7c15ull; return mix(rng);}

std::uint64_t Ctx::choice(std::uint64_t n)
{
  if (n==0) throw std::logic_error("vp::choice(0)");
  std::uint64_t v;
  if (replaying) v = pos<replay.size() ? std::min(replay[pos],n-1) : 0;
  else { unsigned __int128 m=(unsigned __int128)raw()*n; v=std::uint64_t(m>>64); }
  ++pos; if (rec) rec->push_back(v);
  if (shTape && pos<=shCap) {shTape[pos-1]=v; *shLen=pos;}
  return v;
}

double Ctx::unit() {return double(choice(1ull<<40))/double(1ull<<40);}

double Ctx::real(double lo, double hi)
{
  if (choice(4)==0) { // nice values
    const std::uint64_t k=choice(9); // 0 .. 8
    if (lo<0 && hi>0) { const int o[]={0,1,-1,2,-2,3,-3,4,-4}; return o[k]<0 ? -lo*o[k]/4. : hi*o[k]/4.; }
    return lo+(hi-lo)*double(k)/8.;
  }
  const double u=unit();
  if (lo<0 && hi>0) return u<.5 ? hi*2*u : lo*2*(u-.5);
  return lo+(hi-lo)*u;
}

double Ctx::gauss() {const double u=1.-unit(), v=unit(); return std::sqrt(-2*std::log(u))*std::cos(2*M_PI*v);}

std::vector<int> Ctx::permutation(int n)
{
  std::vector<int> r(n); for (int i=0; i<n; ++i) r[i]=i;
  for (int i=0; i<n-1; ++i) std::swap(r[i],r[i+int(choice(n-i))]);
  return r;
}

namespace {

constexpr std::size_t tapeCap=1<<20, txtCap=1<<14, maxSamples=3;

struct Slot { // shared between a worker and the parent
  std::uint64_t len; std::uint64_t index; int status; // 0 running, 1 failed, 2 done
  char msg[txtCap]; char desc[txtCap]; std::uint64_t tape[tapeCap];
};

struct Shared {
  std::uint64_t evals, discards;
  std::uint64_t nHash; // followed by hashes
};

template<typename T> T* shalloc(std::size_t bytes) {
  void* p=mmap(nullptr,bytes,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  if (p==MAP_FAILED) {perror("mmap"); exit(3);} return static_cast<T*>(p);
}

void setText(char* dst, const std::string& s) {std::size_t n=std::min(s.size(),txtCap-1); memcpy(dst,s.data(),n); dst[n]=0;}

void cpuTimer(double s) {
  itimerval it{}; it.it_value.tv_sec=long(s); it.it_value.tv_usec=long((s-long(s))*1e6); setitimer(ITIMER_PROF,&it,nullptr);
}

void wipe(const std::string& d)
{
  if (DIR* dir=opendir(d.c_str())) {
    while (dirent* e=readdir(dir)) if (strcmp(e->d_name,".") && strcmp(e->d_name,"..")) unlink((d+"/"+e->d_name).c_str());
    closedir(dir);
  }
}

void quiet() { const char* v=getenv("VP_VERBOSE"); if (v && *v=='1') return; int fd=open("/dev/null",O_WRONLY); dup2(fd,1); dup2(fd,2); }

// runs one case; returns 0 ok, 1 failed, 2 discarded
int runCase(const Prop& p, Ctx& c, std::string& msg, double limit=1e9)
{
  wipe(scratchDir_);
  cpuTimer(std::min(limit,p.cpuLimit));
  int r=0;
  try { p.body(c); }
  catch (const Fail& f) {msg=f.msg; r=1;}
  catch (const Discard&) {r=2;}
  catch (const std::exception& e) {msg=std::string("unexpected exception: ")+e.what(); r=1;}
  catch (...) {msg="unexpected exception (not a std::exception)"; r=1;}
  cpuTimer(0);
  return r;
}

std::string jstr(const std::string& s)
{
  std::string o="\"";
  for (unsigned char ch : s) {
    if (ch=='"' || ch=='\\') {o+='\\'; o+=ch;} else if (ch=='\n') o+="\\n"; else if (ch=='\t') o+="\\t";
    else if (ch<0x20 || ch>=0x7f) {char b[8]; snprintf(b,8,"\\u%04x",ch); o+=b;} else o+=ch;
  }
  return o+"\"";
}

struct Verdict { int r=0; bool hang=false; std::string msg, desc; std::vector<std::uint64_t> tape; };

// runs a tape in a forked child; r=3: stopped at a limit below that of the sub-property
Verdict tryTape(const Prop& p, const std::vector<std::uint64_t>& tape, Slot* s, int tier, double limit=1e9)
{
  s->len=0; s->status=0; s->msg[0]=0; s->desc[0]=0;
  pid_t pid=fork();
  if (!pid) {
    quiet();
    Ctx c; c.replaying=true; c.replay=tape; c.shTape=s->tape; c.shLen=&s->len; c.shCap=tapeCap; c.tier=tier;
    std::string msg; int r=runCase(p,c,msg,limit);
    setText(s->msg,msg); setText(s->desc,c.desc.str());
    _exit(r);
  }
  int st; waitpid(pid,&st,0);
  Verdict v;
  if (WIFEXITED(st) && WEXITSTATUS(st)<3) v.r=WEXITSTATUS(st), v.msg=s->msg;
  else if (WIFSIGNALED(st)) {v.r=WTERMSIG(st)==SIGPROF && limit<p.cpuLimit ? 3 : 1; v.hang=WTERMSIG(st)==SIGPROF; v.msg= WTERMSIG(st)==SIGPROF ? "no result within "+std::to_string(p.cpuLimit)+" s of CPU time" : std::string("crashed with signal ")+strsignal(WTERMSIG(st));}
  else {v.r=1; v.msg="process exited in the middle of the case with status "+std::to_string(WEXITSTATUS(st));}
  v.desc=s->desc; v.tape.assign(s->tape,s->tape+std::min<std::uint64_t>(s->len,tapeCap));
  return v;
}

Verdict shrink(const Prop& p, Verdict best, Slot* s, int tier, double budget)
{
  auto t0=std::chrono::steady_clock::now();
  auto over=[&] {return std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()>budget;};
  auto attempt=[&](const std::vector<std::uint64_t>& t) {
    Verdict v=tryTape(p,t,s,tier,8.);
    if (v.r!=1) return false;
    auto& a=v.tape; auto& b=best.tape; // shortlex
    if (a.size()<b.size() || (a.size()==b.size() && a<b)) {best=v; return true;}
    return false;
  };
  bool progress=true;
  while (progress && !over()) {
    progress=false;
    for (std::size_t k=std::max<std::size_t>(1,best.tape.size()/2); k>=1 && !over(); k/=2) { // delete blocks
      for (std::size_t i=0; i+k<=best.tape.size() && !over();) {
        auto t=best.tape; t.erase(t.begin()+i,t.begin()+i+k);
        if (attempt(t)) progress=true; else i+=k;
      }
    }
    for (std::size_t k=std::max<std::size_t>(1,best.tape.size()/2); k>=1 && !over(); k/=2) // zero blocks
      for (std::size_t i=0; i+k<=best.tape.size() && !over(); i+=k) {
        auto t=best.tape; if (std::all_of(t.begin()+i,t.begin()+i+k,[](auto x){return x==0;})) continue;
        std::fill(t.begin()+i,t.begin()+i+k,0); if (attempt(t)) progress=true;
      }
    for (std::size_t i=0; i<best.tape.size() && !over(); ++i) { // lower single choices by bisection
      std::uint64_t lo=0, hi= i<best.tape.size() ? best.tape[i] : 0;
      while (lo<hi && i<best.tape.size() && !over()) {
        auto t=best.tape; std::uint64_t mid=lo+(hi-lo)/2; t[i]=mid;
        if (attempt(t)) {progress=true; hi= i<best.tape.size() ? best.tape[i] : 0;} else lo=mid+1;
      }
    }
  }
  return best;
}

} } // vp::<anon>

using namespace vp;

int main(int argc, char** argv)
{
  // run:    driver run SEED TIER WORKERS SCRATCH REPLAYDIR OUT [SUBPROP-PREFIX]
  // replay: driver replay FILE SCRATCH
  // list:   driver list
  std::string mode=argc>1 ? argv[1] : "";
  if (mode=="list") {for (auto& p : registry()) std::cout<<p.name<<" "<<p.nQuick<<" "<<p.nThorough<<"\n"; return 0;}
  Slot* slotShrink=shalloc<Slot>(sizeof(Slot));
  if (mode=="replay" && argc>=4) {
    scratchDir_=argv[3]; mkdir(scratchDir_.c_str(),0700);
    std::ifstream f(argv[2]); std::string line, name; std::vector<std::uint64_t> tape; int tier=0;
    while (std::getline(f,line)) {
      if (line.rfind("subproperty: ",0)==0) name=line.substr(13);
      if (line.rfind("tier: ",0)==0) tier=std::stoi(line.substr(6));
      if (line.rfind("tape:",0)==0) {std::istringstream is(line.substr(5)); std::uint64_t x; while (is>>x) tape.push_back(x);}
    }
    for (auto& p : registry()) if (p.name==name) {
      Verdict v=tryTape(p,tape,slotShrink,tier);
      std::cout<<(v.r==1 ? "FAILS: " : v.r==2 ? "DISCARDED " : "HOLDS ")<<v.msg<<"\ncase: "<<v.desc<<std::endl;
      return v.r==1;
    }
    std::cerr<<"no such sub-property: "<<name<<std::endl; return 3;
  }
  if (mode!="run" || argc<8) {std::cerr<<"usage: run SEED TIER WORKERS SCRATCH REPLAYDIR OUT [PREFIX]"<<std::endl; return 3;}
  const std::uint64_t seed=std::strtoull(argv[2],nullptr,10);
  const int tier=std::string(argv[3])=="thorough";
  const int workers=std::atoi(argv[4]);
  const std::string scratchRoot=argv[5], replayDir=argv[6], out=argv[7], prefix=argc>8 ? argv[8] : "";
  const double scale=getenv("VP_SCALE") ? std::atof(getenv("VP_SCALE")) : 1.;
  const auto begin=std::chrono::steady_clock::now(); const auto elapsed=[&] {return std::chrono::duration<double>(std::chrono::steady_clock::now()-begin).count();};
  double propCap=getenv("VP_PROP_SECONDS") ? std::atof(getenv("VP_PROP_SECONDS")) : (tier ? 1200. : 120.);
  const double shrinkBudget=tier ? 120. : 40.;

  std::vector<Slot*> slots; for (int w=0; w<workers; ++w) slots.push_back(shalloc<Slot>(sizeof(Slot)));
  char* sampleMem=shalloc<char>(maxSamples*txtCap);
  std::ofstream js(out); js<<"{\"subproperties\":["; bool first=true; bool anyFail=false;

  for (auto& p : registry()) {
    if (p.name.rfind(prefix,0)!=0) continue;
    // the quick tier stays within its time also on a slow machine, and does not go on for long after a failure
    if (!tier) {if (elapsed()>550 || (anyFail && elapsed()>240)) break; if (elapsed()>300) propCap=std::min(propCap,15.);}
    const auto t0=std::chrono::steady_clock::now();
    const std::uint64_t N= p.known.size() ? 1 : std::max<std::uint64_t>(1,std::uint64_t(scale*(tier ? p.nThorough : p.nQuick)));
    struct Global {std::atomic<std::uint64_t> next, evals, discards, failed, samples; std::atomic<double> worst;};
    Global* g=shalloc<Global>(sizeof(Global)); g->next=0; g->evals=0; g->discards=0; g->failed=0; g->samples=0; g->worst=0;
    std::uint64_t* hashes=shalloc<std::uint64_t>(N*8);
    std::vector<int> pipes; std::vector<pid_t> pids;
    const std::uint64_t base=mix(seed*1000003ull+hashStr(p.name));
    for (int w=0; w<std::min<int>(workers,N); ++w) {
      int fd[2]; if (pipe(fd)) {perror("pipe"); return 3;}
      slots[w]->status=0; slots[w]->len=0; slots[w]->msg[0]=0; slots[w]->desc[0]=0;
      pid_t pid=fork();
      if (!pid) {
        close(fd[0]); quiet();
        scratchDir_=scratchRoot+"/w"+std::to_string(w); mkdir(scratchDir_.c_str(),0700);
        Slot* s=slots[w]; std::map<std::string,std::uint64_t> labels;
        while (!g->failed) {
          const std::uint64_t i=g->next++; if (i>=N) break;
          if (std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()>propCap) break;
          s->len=0; s->index=i;
          Ctx c; c.rng=mix(base+i*0x2545F4914F6CDD1Dull); c.shTape=s->tape; c.shLen=&s->len; c.shCap=tapeCap; c.tier=tier;
          std::string msg; int r=runCase(p,c,msg);
          if (r==1) {setText(s->msg,msg); setText(s->desc,c.desc.str()); s->status=1; g->failed++; break;}
          g->evals++; if (r==2) {g->discards++; continue;}
          if (c.nontrivial_) {
            std::uint64_t h=1; for (std::uint64_t k=0; k<std::min<std::uint64_t>(s->len,tapeCap); ++k) h=mix(h^s->tape[k]);
            hashes[i]= h ? h : 1;
            if (g->samples<maxSamples) {auto k=g->samples++; if (k<maxSamples) setText(sampleMem+k*txtCap,c.desc.str().substr(0,600));}
          }
          double cur=g->worst; while (c.worst>cur && !g->worst.compare_exchange_weak(cur,c.worst));
          for (auto& l : c.labels) ++labels[l];
        }
        std::string o; for (auto& [k,v] : labels) o+=k+"\t"+std::to_string(v)+"\n";
        [[maybe_unused]] auto n=write(fd[1],o.data(),o.size()); close(fd[1]); if (!s->status) s->status=2; _exit(0);
      }
      close(fd[1]); pipes.push_back(fd[0]); pids.push_back(pid);
    }
    std::map<std::string,std::uint64_t> labels; int failing=-1; std::string failMsg; std::vector<std::uint64_t> failTape;
    for (std::size_t w=0; w<pids.size(); ++w) {
      std::string all; char buf[4096]; ssize_t n; while ((n=read(pipes[w],buf,sizeof buf))>0) all.append(buf,n); close(pipes[w]);
      std::istringstream is(all); std::string line; while (std::getline(is,line)) {auto t=line.find('\t'); if (t!=std::string::npos) labels[line.substr(0,t)]+=std::stoull(line.substr(t+1));}
      int st; waitpid(pids[w],&st,0);
      Slot* s=slots[w]; bool bad=false; std::string m;
      if (s->status==1) {bad=true; m=s->msg;}
      else if (WIFSIGNALED(st)) {bad=true; m= WTERMSIG(st)==SIGPROF ? "no result within the CPU-time limit" : std::string("crashed with signal ")+strsignal(WTERMSIG(st)); g->failed++;}
      else if (s->status!=2) {bad=true; m="process exited in the middle of a case"; g->failed++;}
      if (bad && failing<0) {failing=w; failMsg=m; failTape.assign(s->tape,s->tape+std::min<std::uint64_t>(s->len,tapeCap));}
    }
    std::unordered_set<std::uint64_t> distinct; for (std::uint64_t i=0; i<N; ++i) if (hashes[i]) distinct.insert(hashes[i]);
    std::string replayFile; Verdict v;
    bool confirmed=false;
    if (failing>=0) {
      scratchDir_=scratchRoot+"/shrink"; mkdir(scratchDir_.c_str(),0700);
      int again=0; bool hang=false; for (int k=0; k<(hang ? 2 : 3); ++k) {v=tryTape(p,failTape,slotShrink,tier); again+= v.r==1; hang=v.hang;} if (hang && again==2) again=3; // with the search itself, a hang has been seen three times
      if (again==3) {
        confirmed=true;
        Verdict orig=v; if (p.known.empty() && !hang) v=shrink(p,v,slotShrink,tier,shrinkBudget);
        int ok=hang ? 3 : 0; if (!hang) for (int k=0; k<3; ++k) ok+= tryTape(p,v.tape,slotShrink,tier).r==1;
        if (ok<3) v=orig;
      }
      std::string fn=p.name; for (auto& ch : fn) if (!isalnum((unsigned char)ch)) ch='_';
      replayFile=replayDir+"/"+fn+".replay";
      std::ofstream rf(replayFile);
      rf<<"subproperty: "<<p.name<<"\nseed: "<<seed<<"\ntier: "<<tier<<"\nconfirmed: "<<again<<"/3\nfailure: "<<(confirmed ? v.msg : failMsg)<<"\ncase: "<<v.desc<<"\ntape:";
      for (auto x : (confirmed ? v.tape : failTape)) rf<<" "<<x; rf<<"\n";
      if (p.known.empty()) anyFail=true;
    }
    const double wall=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
    js<<(first ? "" : ",")<<"\n{\"name\":"<<jstr(p.name)<<",\"planned\":"<<N<<",\"evaluations\":"<<g->evals.load()<<",\"discarded\":"<<g->discards.load()
      <<",\"distinct_nontrivial\":"<<distinct.size()<<",\"worst_margin\":"<<g->worst.load()<<",\"wall_s\":"<<wall<<",\"known\":"<<jstr(p.known)<<",\"labels\":{";
    bool f2=true; for (auto& [k,n] : labels) {js<<(f2 ? "" : ",")<<jstr(k)<<":"<<n; f2=false;}
    js<<"},\"samples\":["; f2=true;
    for (std::uint64_t k=0; k<std::min<std::uint64_t>(g->samples,maxSamples); ++k) {js<<(f2 ? "" : ",")<<jstr(sampleMem+k*txtCap); f2=false;}
    js<<"]";
    if (failing>=0) js<<",\"failure\":{\"message\":"<<jstr(confirmed ? v.msg : failMsg)<<",\"case\":"<<jstr(v.desc)<<",\"replay\":"<<jstr(replayFile)<<",\"confirmed\":"<<(confirmed ? "true" : "false")<<"}";
    js<<"}"; js.flush(); first=false;
    munmap(hashes,N*8); munmap(g,sizeof(Global));
  }
  js<<"\n]}\n"; js.close();
  return anyFail ? 1 : 0;
}
