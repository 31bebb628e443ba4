#include "c18_common.h"
VP_PROP("members-2",2500,4000,30) {const auto w=vp::again(c,3,[](Ctx& c) {return anyWhole2(c,3,2);}); if (c.boolean()) ensemble<OB,2>(c,w,6); else ensemble<OG,2>(c,w,6);}
VP_PROP("converges-2",100,400,300) {converges<2>(c,anyWhole2(c,3,2),c.thorough() ? 3000 : 1000);}
