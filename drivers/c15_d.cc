#include "c15_common.h"

static std::vector<Part> realParts(Ctx& c, const std::vector<F>& f, const std::vector<int>& at, const std::vector<int>& d, size_t& i, size_t& j)
{
  std::vector<Part> r; for (size_t k=0; k<d.size(); ++k) {const F& x=f[at[k]]; const QuantumSystemWrapper<1> w(x.p); r.push_back(part(c,w,x.p,{x.dim},{int(k)},x.super)); keys(r.back(),w,i,j);} return r;
}
// the same two systems and interaction: as binary, as composite, as composite with the places exchanged
VP_PROP("real-2",6000,20000,20)
{
  const auto ia=anyBinary(c,4,3); c.note(ia.name); c.nontrivial(); size_t i=3, j=5;
  switch (c.range(0,2)) {
  case 0: {auto p=realParts(c,ia.f,{0,1},ia.dims(),i,j); const Act<0,1> a(ia.p); addAct(c,a,p,ia.dims(),i,j); compare<2>(c,binary::make(ia.p),p,ia.dims(),"Binary system\n","binary"); break;}
  case 1: {auto p=realParts(c,ia.f,{0,1},ia.dims(),i,j); const Act<0,1> a(ia.p); addAct(c,a,p,ia.dims(),i,j); compare<2>(c,composite::make(a),p,ia.dims(),"","composite"); break;}
  default: {const std::vector<int> d{ia.f[1].dim,ia.f[0].dim}; auto p=realParts(c,ia.f,{1,0},d,i,j); const Act<1,0> a(ia.p); addAct(c,a,p,d,i,j); compare<2>(c,composite::make(a),p,d,"","exchanged composite");}
  }
}
// qubit or spin, two modes; two modes and a particle
VP_PROP("real-3",1500,6000,20)
{
  c.nontrivial(); size_t i=3, j=5;
  if (c.boolean()) {
    const F q=anyQbitOrSpin(c,3), m=makeMode(c,3), n=makeMode(c,3); const auto a=jc(c,q,m); const auto b=coupled(c,m,n); const auto e=jc(c,q,n); c.note(a.name," ",b.name); const std::vector<F> f{m,q,n}; const std::vector<int> d{m.dim,q.dim,n.dim}; auto p=realParts(c,f,{0,1,2},d,i,j);
    const Act<1,0> x(a.p); const Act<0,2> y(b.p); const Act<1,2> z(e.p); addAct(c,x,p,d,i,j); addAct(c,y,p,d,i,j); addAct(c,z,p,d,i,j); compare<3>(c,composite::make(x,y,z),p,d,"","atom and two modes");
  } else {
    const F m=makeMode(c,2), n=makeMode(c,2), pt=makePart(c,resolvable(c,2,3,c.boolean()),anyPicture(c)); const auto a=twoModes(c,m,n,pt); const auto b=along(c,m,pt), e=along(c,n,pt); c.note(a.name," ",b.name," ",e.name); const std::vector<F> f{pt,m,n}; const std::vector<int> d{pt.dim,m.dim,n.dim}; auto p=realParts(c,f,{0,1,2},d,i,j);
    const Act<1,0> x(b.p); const Act<2,0> y(e.p); const Act<1,2,0> z(a.p); addAct(c,x,p,d,i,j); addAct(c,y,p,d,i,j); addAct(c,z,p,d,i,j); compare<3>(c,composite::make(x,y,z),p,d,"","particle and two modes");
  }
}
VP_PROP("inconsistent-wiring",600,6000,20)
{
  c.nontrivial(); const F m=makeMode(c,3), n=makeMode(c,3), o=makeMode(c,3); const int bad=c.range(0,3); // 0: consistent
  auto clone=[&](const F& f){ModePars q; q.cutoff=f.dim; q.delta=1; q.kerr=q.kerrA=q.kappa=q.nTh=0; q.eta=0; return makeMode(c,q,QMP_SCH);}; const F n2=bad==1 ? clone(n) : n, m2=bad==2 ? clone(m) : m, o2=bad==3 ? clone(o) : o; c.note("defect ",bad);
  const Act<0,1> x(coupled(c,m,n).p); const Act<1,2> y(coupled(c,n2,o).p); const Act<2,0> z(coupled(c,o2,m2).p); bool thrown=false; try {composite::make(x,y,z);} catch (const CompositeConsistencyException& e) {thrown=true; c.check(e.idx==(bad==1 ? 1 : bad==2 ? 0 : 2),"index reported: ",e.idx);}
  c.check(thrown==(bad!=0),bad ? "inconsistent wiring accepted" : "consistent wiring refused");
}
