#include "c01_common.h"
using namespace c01;
#define S(R,...) &slices<CArray,dcomp,R,__VA_ARGS__>
VP_PROP("slices-rank-1-2",40000,60000,20) {
  static const std::vector<Fn> f{S(1,0),S(2,0),S(2,1),S(2,0,1),S(2,1,0)}; c.pick(f)(c);
}
VP_PROP("slices-rank-3",60000,100000,20) {
  static const std::vector<Fn> f{S(3,0),S(3,1),S(3,2),S(3,0,1),S(3,1,0),S(3,0,2),S(3,2,0),S(3,1,2),S(3,2,1),S(3,0,1,2),S(3,0,2,1),S(3,1,0,2),S(3,1,2,0),S(3,2,0,1),S(3,2,1,0)};
  c.pick(f)(c);
}
