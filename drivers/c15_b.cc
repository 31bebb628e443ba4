#include "c15_common.h"
VP_PROP("synthetic-3",3000,10000,20) {switch (c.range(0,2)) {case 0: synthetic<Act<0,1>,Act<1,2>>(c,3); break; case 1: synthetic<Act<2,0,1>>(c,3); break; default: synthetic<Act<0,2>,Act<2,1>,Act<1,2,0>>(c,3);}}
