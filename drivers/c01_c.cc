#include "c01_common.h"
using namespace c01;
#define S(R,...) &slices<CArray,dcomp,R,__VA_ARGS__>
#define D(R,...) &slices<DArray,double,R,__VA_ARGS__>
VP_PROP("slices-high-rank",30000,50000,20) {
  static const std::vector<Fn> f{S(5,2),S(5,4,1),S(5,3,0,2),S(5,1,4,0,2),S(5,4,2,0,3,1),S(6,5,0),S(6,3,1,4),S(6,0,2,4,5),S(7,6,1,3),S(7,2,0,5,4),S(8,1,3,5,7),S(9,8,0,4,2),S(11,3,6,1,9,7)};
  c.pick(f)(c);
}
VP_PROP("slices-real-arrays",20000,30000,20) {
  static const std::vector<Fn> f{D(2,1),D(2,1,0),D(3,2,0),D(3,1),D(4,3,1),D(4,0,2,1),D(5,3,1)};
  c.pick(f)(c);
}
