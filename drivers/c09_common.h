// quantum trajectories: reloading
#pragma once
#include "c18_common.h"
#include "Random.h"
namespace tj=cppqedutils::trajectory;
template<typename T> std::string bytes(T& t) {std::ostringstream s; {cppqedutils::oarchive oa(s); t.stateIO(oa);} return s.str();}
template<typename T> void save(const std::string& f, std::vector<T*> all, bool plain) {std::shared_ptr<std::ostream> o=plain ? std::make_shared<std::ofstream>(f,std::ios_base::binary) : tj::openStateFileWriting(f); for (auto p : all) tj::writeViaSStream(*p,o);}
template<typename T> void load(T& t, const std::string& f) {auto in=tj::openStateFileReading(f); while ((in->peek(),!in->eof())) tj::readViaSStream(t,in);}
template<int R, typename T> MatrixXcd content(T& t)
{
  if constexpr (requires {t.getStateVector();}) {const VectorXcd v=vec<R>(t.getStateVector()); return v;} else if constexpr (requires {t.averaged();}) return mat<R>(t.averaged()); else return rhoOf<R>(t);
}
template<typename T> std::vector<std::pair<double,size_t>> jumpsOf(T& t) {std::vector<std::pair<double,size_t>> r; if constexpr (requires {t.getLogger();}) for (auto& [x,k] : t.getLogger().getTrajectory()) r.push_back({x,k}); return r;}

// live: goes on; re: of another history, loaded from the file
template<int R, typename T> void reload(Ctx& c, T& live, T& re, double scale)
{
  std::ostringstream lg; const int n=c.range(0,3), before=c.range(0,2); for (int i=0; i<before; ++i) cppqedutils::advance(re,c.logReal(.05,2.)/scale,lg);
  const auto go=[&](T& t, double D, bool step) {if (step) {if constexpr (requires {t.step(D,lg);}) {t.step(D,lg); return;}} cppqedutils::advance(t,D,lg);};
  for (int i=0; i<n; ++i) go(live,c.logReal(.05,3.)/scale,c.boolean(.3)); c.note(", ",n," advances before saving, ",before," of the other"); c.nontrivial(n>0);
  const std::string fn=vp::scratch()+"/s"; if (c.boolean()) save<T>(fn,{&re,&live},c.boolean()); else save<T>(fn,{&live},c.boolean()); const std::string saved=bytes(live); load(re,fn);
  c.check(bytes(re)==saved,"what is loaded is not what was saved"); c.check(re.getTime()==live.getTime() && re.getDtDid()==live.getDtDid(),"time ",re.getTime()," and last step ",re.getDtDid()," after loading instead of ",live.getTime()," and ",live.getDtDid()); c.check(content<R>(re)==content<R>(live) && jumpsOf(re)==jumpsOf(live),"state or jumps after loading");
  {std::ostringstream a,b,k,l; const auto x=std::get<1>(live.stream(a,9)), y=std::get<1>(re.stream(b,9)); c.check(a.str()==b.str(),"streamed line after loading: ",b.str()," instead of ",a.str()); live.logOnEnd(k); re.logOnEnd(l); c.check(k.str()==l.str(),"summary after loading: ",l.str()," instead of ",k.str());}
  const int m=c.range(1,3); for (int i=0; i<m; ++i) {
    const double D=c.logReal(.05,3.)/scale; const bool st=c.boolean(.3); go(live,D,st); go(re,D,st); const auto a=jumpsOf(live), b=jumpsOf(re); c.check(a.size()==b.size(),"jumps after going on: ",b.size()," instead of ",a.size()); for (size_t k=0; k<a.size(); ++k) c.check(a[k].second==b[k].second && std::abs(a[k].first-b[k].first)<1e-7*std::max(1.,a[k].first),"jump ",k," after going on");
    c.near(re.getTime(),live.getTime(),1e-7*std::max(1.,live.getTime()),"time after going on"); const double d=(content<R>(live)-content<R>(re)).cwiseAbs().maxCoeff(); c.margin(d/1e-6); c.check(d<=1e-6,"after going on, the state differs by ",d," from that of the uninterrupted trajectory");
  }
}
