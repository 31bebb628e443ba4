#include "c17_common.h"
#include "multilevel.h"

VP_PROP("steps-1",12000,40000,20) {const auto w=whole(c.boolean(.2) ? noHamiltonian(c,6) : anyFree(c,6)); if (c.boolean()) follow<OB,1>(c,w); else follow<OG,1>(c,w);}
VP_PROP("steps-multilevel",4000,10000,20) {anyML(c,[&](const auto& f) {const auto w=whole(f); if (c.boolean()) follow<OB,1>(c,w); else follow<OG,1>(c,w);});}
VP_PROP("probability-1",800,4000,40) {const auto w=whole(c.boolean(.4) ? noHamiltonian(c,6) : anyFree(c,6)); if (c.boolean()) probability<OB,1>(c,w); else probability<OG,1>(c,w);}
VP_PROP("probability-multilevel",200,1500,40) {anyML(c,[&](const auto& f) {probability<OB,1>(c,whole(f));});}
VP_PROP("reproducible-1",5000,15000,20) {const auto w=vp::again(c,3,[](Ctx& c) {return whole(c.boolean(.2) ? noHamiltonian(c,6) : anyFree(c,6));}); if (c.boolean()) reproducible<OB,1>(c,w); else reproducible<OG,1>(c,w);}
VP_PROP("advancing-1",8000,40000,20) {const auto w=whole(c.boolean(.15) ? noHamiltonian(c,5) : anyFree(c,6)); if (c.boolean()) advancing<OB,1>(c,w); else advancing<OG,1>(c,w);}
