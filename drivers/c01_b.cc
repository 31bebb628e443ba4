#include "c01_common.h"
using namespace c01;
#define S(R,...) &slices<CArray,dcomp,R,__VA_ARGS__>
VP_PROP("slices-rank-4",60000,100000,20) {
  static const std::vector<Fn> f{S(4,0),S(4,1),S(4,2),S(4,3),S(4,0,1),S(4,1,0),S(4,0,2),S(4,2,0),S(4,0,3),S(4,3,0),S(4,1,2),S(4,2,1),S(4,1,3),S(4,3,1),S(4,2,3),S(4,3,2),
    S(4,2,0,1),S(4,1,3,2),S(4,3,0,2),S(4,0,1,3),S(4,3,2,1),S(4,2,3,0,1),S(4,1,2,3,0)};
  c.pick(f)(c);
}
