#include "c02_common.h"
using namespace c02;
#define T(R,...) &trace<R,__VA_ARGS__>
VP_PROP("partial-trace-rank-4",10000,100000,20) {static const std::vector<Fn> f{T(4,0),T(4,1),T(4,2),T(4,3),T(4,0,2),T(4,3,1),T(4,2,0),T(4,1,2),T(4,3,0),T(4,2,0,3),T(4,3,1,0)}; c.pick(f)(c);}
