#include "c18_common.h"
VP_PROP("members-1",6000,8000,30) {const auto w=vp::again(c,3,[](Ctx& c) {return whole(c.boolean(.15) ? noHamiltonian(c,5) : anyFree(c,6));}); if (c.boolean()) ensemble<OB,1>(c,w,8); else ensemble<OG,1>(c,w,8);}
VP_PROP("converges-1",400,1500,200) {converges<1>(c,whole(anyFree(c,4)),c.thorough() ? 4000 : 1500);}
