#include "c15_common.h"
VP_PROP("synthetic-4",1500,4000,20) {if (c.boolean()) synthetic<Act<0,1>,Act<3,2>,Act<1,3>>(c,2); else synthetic<Act<3,0,2>,Act<2,1>>(c,2);}
