#include "h.h"
void tu_symbol(void); void hNativeCases(void);
void hCases(void){
	CASE("smoke/add"){ lVal a=lValInt(sym_int("x",64)); lVal r=hCall("add/int",2,a,lValInt(1)); sym_assert(r.vInt==a.vInt+1,"inc"); }
	tu_symbol();
	hNativeCases();
}
