#include "c17_common.h"
VP_PROP("steps-2",5000,15000,20) {const auto w=anyWhole2(c); if (c.boolean()) follow<OB,2>(c,w); else follow<OG,2>(c,w);}
VP_PROP("probability-2",100,1000,60) {probability<OB,2>(c,anyWhole2(c,3,2));}
VP_PROP("reproducible-2",1500,4000,20) {const auto w=vp::again(c,3,[](Ctx& c) {return anyWhole2(c,3,2);}); if (c.boolean()) reproducible<OB,2>(c,w); else reproducible<OG,2>(c,w);}
VP_PROP("advancing-2",2000,10000,20) {const auto w=anyWhole2(c,3,2); if (c.boolean()) advancing<OB,2>(c,w); else advancing<OG,2>(c,w);}
