#include "c12_common.h"
static Whole<2> some(Ctx& c) {return anyWhole2(c,3,2);}
VP_PROP("exact-2",4000,40000,20) {exactPart<2>(c,anyWhole2(c,4,3));}
VP_PROP("generators-2",2000,20000,20) {generators<2>(c,variants<2>(c,some));}
VP_PROP("evolution-2",4000,10000,60) {const auto v=variants<2>(c,some); if (v[0].n()>16) c.discard(); if (c.boolean()) evolution3<2,OB>(c,v); else evolution3<2,OG>(c,v);}
VP_PROP("masters-2",1500,4000,60) {const auto v=variants<2>(c,some); if (v[0].n()>12) c.discard(); masters<2>(c,v);}
VP_PROP("exact-3",1000,10000,20) {exactPart<3>(c,whole3(c));}
VP_PROP("evolution-3",800,1500,60) {evolution3<3,OB>(c,variants<3>(c,whole3));}
