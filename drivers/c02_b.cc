#include "c02_common.h"
using namespace c02;
#define T(R,...) &trace<R,__VA_ARGS__>
VP_PROP("partial-trace-rank-3",20000,200000,20) {static const std::vector<Fn> f{T(3,0),T(3,1),T(3,2),T(3,0,1),T(3,1,0),T(3,0,2),T(3,2,0),T(3,2,1),T(3,1,2),T(3,2,0,1),T(3,1,2,0)}; c.pick(f)(c);}
