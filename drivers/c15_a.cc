#include "c15_common.h"
VP_PROP("synthetic-2",6000,20000,20) {if (c.boolean(.7)) synthetic<Act<0,1>>(c,4); else synthetic<Act<1,0>>(c,4);}
VP_PROP("synthetic-2-multiple",2000,10000,20) {synthetic<Act<0,1>,Act<1,0>>(c,4);}
