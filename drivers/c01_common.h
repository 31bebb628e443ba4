#pragma once
#include "dense.h"
#include "BlitzArray.h"
#include "SliceIterator.tcc"
#include "VectorFromMatrixSliceIterator.h"
#include <boost/range/algorithm_ext/for_each.hpp>

namespace c01 {
using namespace dense;

// an array with an arbitrary memory layout: base offset, storage order, strided window of a larger parent, permuted view
template<typename T, int R> struct Laid { blitz::Array<T,R> parent, view; std::string how; };

template<typename T, int R>
Laid<T,R> layout(Ctx& c, const std::vector<int>& d)
{
  Laid<T,R> l; const int kind=int(c.choice(5));
  if (kind==0 || R>11) {l.parent.resize(tiny<R>(d)); l.view.reference(l.parent); l.how="plain";}
  else if (kind==1) { // Fortran storage order
    blitz::GeneralArrayStorage<R> st; for (int i=0; i<R; ++i) st.ordering()(i)=i; blitz::Array<T,R> a(tiny<R>(d),st); l.parent.reference(a); l.view.reference(a); l.how="column-major";
  }
  else if (kind==2) { // window of a larger array
    std::vector<int> D, lo, st; for (int x : d) {int s=c.range(1,2), o=c.range(0,1); D.push_back(o+s*x+c.range(0,1)); lo.push_back(o); st.push_back(s);}
    l.parent.resize(tiny<R>(D)); blitz::TinyVector<int,R> a,b,s; for (int i=0; i<R; ++i) {a(i)=lo[i]; s(i)=st[i]; b(i)=lo[i]+st[i]*(d[i]-1);}
    l.view.reference(l.parent(blitz::StridedDomain<R>(a,b,s))); l.how="strided window";
  }
  else if (kind==3) { // bases other than zero
    l.parent.resize(tiny<R>(d)); blitz::TinyVector<int,R> b; for (int i=0; i<R; ++i) b(i)=c.range(0,5)-2; l.view.reference(l.parent); l.view.reindexSelf(b); l.how="shifted bases";
  }
  else { // arbitrary storage ordering
    auto p=c.permutation(R); blitz::GeneralArrayStorage<R> st; for (int i=0; i<R; ++i) st.ordering()(i)=p[i]; blitz::Array<T,R> a(tiny<R>(d),st); l.parent.reference(a); l.view.reference(a); l.how="permuted storage";
  }
  return l;
}

template<typename A> auto ids(const A& a) {std::vector<typename A::T_numtype> r; for (auto i=a.begin(); i!=a.end(); ++i) r.push_back(*i); return r;}

template<template<int> class ARRAY, typename T, int R, int... V>
void slices(Ctx& c)
{
  constexpr int K=sizeof...(V); const std::vector<int> v{V...}; using Vec=tmptools::Vector<V...>;
  auto d=dims(c,R,R>5 ? 128 : 240,R>5 ? 3 : 5); auto l=layout<T,R>(c,d); auto& a=l.view;
  c.note("rank ",R,", dims ",show(d),", retained ",show(v),", ",l.how);
  l.parent=T(-7); const long n=prod(d);
  auto at=[&](const std::vector<int>& idx) -> T& {blitz::TinyVector<int,R> t; for (int i=0; i<R; ++i) t(i)=idx[i]+a.lbound(i); return a(t);};
  for (long f=0; f<n; ++f) at(unflat(f,d))=T(double(f));
  std::vector<int> dummy; for (int i=0; i<R; ++i) if (std::find(v.begin(),v.end(),i)==v.end()) dummy.push_back(i);
  std::vector<int> dd, dv; for (int i : dummy) dd.push_back(d[i]); for (int i : v) dv.push_back(d[i]);
  const long nd=prod(dd), nv=prod(dv); c.nontrivial(nd>1 && nv>1); c.label("rank "+std::to_string(R)); c.label(l.how);

  namespace si=cppqedutils::sliceiterator;
  auto beg=si::begin<Vec,ARRAY>(a), end=si::end<Vec,ARRAY>(a);
  long k=0;
  for (auto i=beg; i!=end; ++i, ++k) {
    c.check(k<nd,"more slices than combinations of the remaining indices");
    auto& s=*i; auto fix=unflat(k,dd);
    for (int m=0; m<K; ++m) {c.check(s.extent(m)==dv[m],"slice ",k," has extent ",s.extent(m)," along axis ",m); c.check(s.lbound(m)==a.lbound(v[m]),"slice ",k," has base ",s.lbound(m)," along axis ",m);}
    for (long f=0; f<nv; ++f) {
      auto r=unflat(f,dv); std::vector<int> full(R); for (int m=0; m<K; ++m) full[v[m]]=r[m]; for (size_t m=0; m<dummy.size(); ++m) full[dummy[m]]=fix[m];
      blitz::TinyVector<int,K> t; for (int m=0; m<K; ++m) t(m)=r[m]+s.lbound(m);
      c.check(s(t)==at(full),"slice ",k," element ",f," is ",s(t)," instead of ",at(full));
    }
  }
  c.check(k==nd,"number of slices is ",k," instead of ",nd);
  // writing through: through one chosen slice, only its elements change
  const long which=long(c.choice(nd)); {
    long q=0; for (auto& s : si::fullRange<Vec,ARRAY>(a)) {if (q++==which) s+=T(1000000.);}
    c.check(q==nd,"fullRange has ",q," slices instead of ",nd);
    auto fix=unflat(which,dd);
    for (long f=0; f<n; ++f) {auto idx=unflat(f,d); bool in=true; for (size_t m=0; m<dummy.size(); ++m) in=in && idx[dummy[m]]==fix[m];
      c.check(at(idx)==T(double(f)+(in ? 1000000. : 0.)),"after writing through slice ",which," element ",f," is ",at(idx));}
    long out=0; for (auto x : ids(l.parent)) out+= x==T(-7); c.check(out==long(l.parent.size())-n,"writing through a slice changed ",long(l.parent.size())-n-out," elements outside the array");
  }
  // parallel iteration over two arrays of the same shape, different layouts
  auto l2=layout<T,R>(c,d); auto& b=l2.view; l2.parent=T(0); bool sameBases=true; for (int i=0; i<R; ++i) if (a.lbound(i)!=b.lbound(i)) sameBases=false;
  if (sameBases) {
    boost::range::for_each(si::fullRange<Vec,ARRAY>(a),si::fullRange<Vec,ARRAY>(b),[](const auto& x, auto& y) {y+=x;});
    for (long f=0; f<n; ++f) {auto idx=unflat(f,d); blitz::TinyVector<int,R> t; for (int i=0; i<R; ++i) t(i)=idx[i]+b.lbound(i); c.check(b(t)==at(idx),"parallel iteration: element ",f," copied as ",b(t)," instead of ",at(idx));}
  }
  // comparison of positions
  const long p1=long(c.choice(nd+1)), p2=long(c.choice(nd+1)); auto i1=si::begin<Vec,ARRAY>(a), i2=si::begin<Vec,ARRAY>(a); for (long x=0; x<p1; ++x) ++i1; for (long x=0; x<p2; ++x) ++i2;
  c.check((i1==i2)==(p1==p2),"positions ",p1," and ",p2," compare ",i1==i2); c.check((i1!=i2)!=(p1==p2),"positions ",p1," and ",p2," compare unequal: ",i1!=i2); c.check((i1==end)==(p1==nd) && (end==i1)==(p1==nd) && (i1!=end)==(p1!=nd),"position ",p1," of ",nd," and the end compare ",i1==end," ",end==i1);
}

using Fn=void(*)(Ctx&);
template<int... I> struct Seq {};

} // c01
