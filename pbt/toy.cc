// toy properties for the self-test of the engine
#include "vpbt.h"
#include <cstdlib>
VP_PROP("holds",200,200,5) {c.check(c.range(0,10)<=10,"range"); c.nontrivial();}
VP_PROP("wrong",2000,2000,5) {int a=c.range(0,1000), b=c.range(0,1000); c.note("a=",a,", b=",b); c.check(a<100,"a too large");}
VP_PROP("crashes",2000,2000,5) {if (c.range(0,100)==77) abort();}
VP_PROP("hangs",200,200,0.2) {if (c.range(0,100)==42) for (volatile int i=0; ; ++i);}
