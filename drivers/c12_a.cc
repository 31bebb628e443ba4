#include "c12_common.h"
static Whole<1> some(Ctx& c) {return whole(sys::anyFree(c,6));}
VP_PROP("exact-1",12000,120000,20) {exactPart<1>(c,whole(c.boolean(.2) ? noHamiltonian(c,8) : sys::anyFree(c,8)));}
VP_PROP("generators-1",8000,80000,20) {generators<1>(c,variants<1>(c,some));}
VP_PROP("evolution-1",12000,20000,40) {const auto v=variants<1>(c,some); if (c.boolean()) evolution3<1,OB>(c,v); else evolution3<1,OG>(c,v);}
VP_PROP("masters-1",8000,20000,40) {masters<1>(c,variants<1>(c,[](Ctx& c) {return whole(sys::anyFree(c,5,false));}));}
