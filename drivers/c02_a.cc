#include "c02_common.h"
using namespace c02;
#define T(R,...) &trace<R,__VA_ARGS__>
VP_PROP("partial-trace-rank-1-2",20000,200000,20) {static const std::vector<Fn> f{T(1,0),T(2,0),T(2,1),T(2,0,1),T(2,1,0)}; c.pick(f)(c);}
