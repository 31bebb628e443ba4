#include "c16_common.h"
#include "multilevel.h"
VP_PROP("lindblad-1",12000,20000,40) {const auto w=vp::again(c,3,[](Ctx& c) {return whole(anyFree(c,6));}); if (c.boolean()) follow<1,MB>(c,w); else follow<1,MG>(c,w);}
VP_PROP("lindblad-multilevel",3000,4000,40) {anyML(c,[&](const auto& f) {const auto w=whole(f); follow<1,MB>(c,{w,w,w});});}
VP_PROP("evolve-1",2500,4000,40) {evolveIt<1>(c,whole(anyFree(c,6)));}
