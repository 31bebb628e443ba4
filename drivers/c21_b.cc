#include "c21_common.h"
VP_PROP("front-2",2000,15000,40) {front<2>(c,vp::again(c,3,[](Ctx& c) {return anyWhole2(c,3,2);}));}
VP_PROP("mixed-2",400,3000,40) {const auto w=anyWhole2(c,3,2); if (w.n()>9) c.discard(); fromMixed<2>(c,w);}
VP_PROP("resumed-2",300,2000,40) {resumed<2>(c,vp::again(c,3,[](Ctx& c) {return anyWhole2(c,3,2);}));}
