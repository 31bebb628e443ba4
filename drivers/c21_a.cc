#include "c21_common.h"
#include "multilevel.h"
VP_PROP("front-1",6000,30000,40) {front<1>(c,vp::again(c,3,[](Ctx& c) {return whole(c.boolean(.2) ? noHamiltonian(c,5) : anyFree(c,6));}));}
VP_PROP("mixed-1",1500,8000,40) {fromMixed<1>(c,whole(anyFree(c,5)));}
VP_PROP("resumed-1",800,6000,40) {resumed<1>(c,vp::again(c,3,[](Ctx& c) {return whole(c.boolean(.2) ? noHamiltonian(c,5) : anyFree(c,5));}));}
