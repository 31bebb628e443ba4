#include "c16_common.h"
VP_PROP("lindblad-2",3000,4000,60) {const auto w=vp::again(c,3,[](Ctx& c) {return anyWhole2(c,3,2);}); if (w[0].n()>9) c.discard(); if (c.boolean()) follow<2,MB>(c,w); else follow<2,MG>(c,w);}
VP_PROP("evolve-2",500,1000,60) {const auto w=anyWhole2(c,3,2); if (w.n()>9) c.discard(); evolveIt<2>(c,w);}
