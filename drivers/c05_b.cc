#include "c05_common.h"
VP_PROP("expressions-ternary",15000,150000,20) {tree<3>(c);}
VP_PROP("expressions-quaternary",6000,60000,30) {tree<4>(c);}
