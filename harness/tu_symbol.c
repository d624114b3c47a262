/* The symbol table (lib/symbol.c) rebuilt with 8 slots and a hash function that may return anything: every pattern of collisions and of deleted slots becomes
 * reachable within a few operations. Everything this file defines except tu_symbol stays private to it (see bin/vbuild.py). */
#include "h.h"
#include "../third-party/fasthash/fasthash.h"
#define NN 12
static const char *names[NN]={"a","bb","c","dd","e","ff","g","hh","i","jj","k","ll"};
static uint32_t hashOf[NN], hashEmpty;
static uint32_t tuHash(const void *buf, size_t len, uint64_t seed){ const char *s=buf; (void)seed; if(!len) return hashEmpty; return hashOf[(s[0]-'a')%NN]; }
#define fasthash32 tuHash
#undef SYM_MAX
#define SYM_MAX 8
#define lSymbolList tuSymbolList
#define lSymbolMarkMap tuMarkMap
static u8 tuMarkMap[SYM_MAX];
#include "../lib/symbol.c"
static lSymbol *live[NN];
static void look(int n){
	for(int i=0;i<n;i++){ if(!live[i]) continue;
		sym_assert(lSymS(names[i])==live[i],"the same name gives the same symbol");
		sym_assert(!strcmp(live[i]->c,names[i]),"a symbol keeps its name");
		for(int j=0;j<i;j++) sym_assert(live[j]!=live[i],"different names give different symbols"); }
	lSymbol *e=lSymS(""); sym_assert(e==symNull,"the root symbol stays");
}
static void toggle(int k){ if(live[k]){ lSymbolFree(live[k]); live[k]=NULL; } else { live[k]=lSymS(names[k]); sym_assert(!strcmp(live[k]->c,names[k]),"a new symbol has its name"); } }
static void start(int n){ /* slots 6, 7 and, around the end of the table, 0 */
	for(int i=0;i<n;i++){ char b[16]; snprintf(b,16,"hash.%s",names[i]); uint64_t h=sym_int(b,2); sym_assume(h<3); hashOf[i]=6+h; }
	hashEmpty=7; lRootsSymbolPush(symNull=lSymS("")); }
lSymbol *lRootsSymbolPush(lSymbol *v){ lSymbolMarkMap[v-lSymbolList]=2; return v; }
void tu_symbol(void){
	CASE("C15/table-history"){ int n=(int)hBound(3,4), steps=(int)hBound(5,6); start(n); char b[16];
		for(int s=0;s<steps;s++){ snprintf(b,16,"op.%d",s); toggle(s==0?0:sym_choose(b,s<n?s+1:n)); } look(n); }
	CASE("C15/table-reuse"){ /* far more names over time than slots, two alive at any time */
		int n=3; start(n); for(int i=n;i<NN;i++) hashOf[i]=hashOf[i%n]+i/n;
		int last=(int)hBound(NN+2,2*NN); for(int s=0;s<last;s++){ toggle(s%NN); if(s>=2&&live[(s+NN-2)%NN]) toggle((s+NN-2)%NN); if(s>7) look(NN); } }
	CASE("C15/table-full"){ /* all seven free slots in use, then one released and another name added */
		int n=8; start(2); for(int i=2;i<n;i++) hashOf[i]=hashOf[i%2]+i;
		for(int i=0;i<7;i++) toggle(i);
		look(7); int k=sym_choose("released",7); toggle(k); look(7); toggle(7); look(8); toggle(7); toggle(k); look(8); }
}
