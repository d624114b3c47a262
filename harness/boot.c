#include "h.h"
lClosure *hRoot; static lVal hKeep;
void initBin(void);
lVal hGet(const char *name){ lVal v = lGetClosureSym(hRoot, lSymS(name)); if(v.type==ltException){ sym_note(name); sym_note("harness: this name is not bound"); } return v; }
lVal hApply(lVal fun, lVal args){
	if(fun.type==ltLambda) return lApply(fun,args);
	if(fun.type!=ltNativeFunc) return lValException(lSymTypeError,"harness: not a function",fun);
	lVal v[8]; int n=0; lVal a=args; for(;n<8;n++,a=lCdr(a)) v[n]=lCar(a);
	lNFunc *f=fun.vNFunc;
	switch(f->argCount){
	case 0: return f->fp(); case 1: return f->fpC(hRoot); case 2: return f->fpV(v[0]); case 3: return f->fpCV(hRoot,v[0]); case 4: return f->fpVV(v[0],v[1]); case 5: return f->fpCVV(hRoot,v[0],v[1]);
	case 6: return f->fpVVV(v[0],v[1],v[2]); case 7: return f->fpCVVV(hRoot,v[0],v[1],v[2]); case 8: return f->fpVVVV(v[0],v[1],v[2],v[3]); case 9: return f->fpCVVVV(hRoot,v[0],v[1],v[2],v[3]);
	case 16: return f->fpR(args); case 17: return f->fpCR(hRoot,args);
	default: return lValException(lSymTypeError,"harness: arity",fun); }
}
lVal hListA(int n, const lVal *a){ lVal r=NIL; for(int i=n;i-->0;) r=lCons(a[i],r); return r; }
lVal hCallA(const char *name, int n, const lVal *a){ return hApply(hGet(name),hListA(n,a)); }
lVal hMethodA(const char *name, int n, const lVal *a){ lVal m=lMethodLookup(lSymS(name),a[0]); if(m.type==ltException) return m; return hApply(m,hListA(n,a)); }
lVal hStr(const char *p, size_t n){ lBuffer *b=lBufferAlloc(0,true); char *d=malloc(n+1); memcpy(d,p,n); d[n]=0; b->buf=d; b->length=(i32)n; return lValAlloc(ltString,b); }
lVal hBuf(size_t n, const char *name, int symbolic){ lBuffer *b=lBufferAlloc(n,false); if(symbolic && n) sym_bytes(b->buf,n,name); return lValAlloc(ltBuffer,b); }
lVal hArr(size_t n){ return lValAlloc(ltArray,lArrayAlloc(n)); }
lVal hKw(const char *s){ return lValKeywordS(lSymS(s)); }
lVal hSymv(const char *s){ return lValSymS(lSymS(s)); }
double hBits2D(uint64_t b){ double d; memcpy(&d,&b,8); return d; }
uint64_t hD2Bits(double d){ uint64_t b; memcpy(&b,&d,8); return b; }
double hFloat(const char *name){ uint64_t b=sym_int(name,64); sym_assume(((b>>52)&0x7ff)!=0x7ff); return hBits2D(b); }
/* a finite double with n significant mantissa bits */
static double hFloatN(const char *name, int n){ if(n>=52) return hFloat(name); uint64_t b=sym_int(name,12+n)<<(52-n); sym_assume(((b>>52)&0x7ff)!=0x7ff); return hBits2D(b); }
int hThrew(lVal v, const char *kind){
	if(v.type!=ltException) return 0;
	if(!kind) return 1;
	if(!v.vList) return 0;
	lVal k=v.vList->car; return (k.type==ltKeyword||k.type==ltSymbol) && k.vSymbol==lSymS(kind);
}
static uint64_t treeSame(lTree *a, lTree *b){ /* in-order comparison, shapes may differ */
	lTree *sa[64], *sb[64]; int na=0,nb=0; uint64_t r=1;
	for(;;){
		while(a && na<64){ sa[na++]=a; a=a->left; } while(b && nb<64){ sb[nb++]=b; b=b->left; }
		if(!na || !nb) return r & (na==nb);
		a=sa[--na]; b=sb[--nb];
		if(a->key!=b->key) return 0;
		r &= hSame(a->value,b->value);
		a=a->right; b=b->right;
	}
}
static uint64_t same_(lVal a, lVal b, int depth){
	if(a.type!=b.type) return 0;
	if(depth>200) return 1;
	switch(a.type){
	case ltNil: return 1;
	case ltBool: return a.vBool==b.vBool;
	case ltInt: return a.vInt==b.vInt;
	case ltFloat: return hD2Bits(a.vFloat)==hD2Bits(b.vFloat);
	case ltString: case ltBuffer: {
		if(a.vBuffer->length!=b.vBuffer->length) return 0;
		uint64_t d=0; const u8 *x=a.vBuffer->buf,*y=b.vBuffer->buf; for(int i=0;i<a.vBuffer->length;i++) d|=x[i]^y[i];
		return d==0; }
	case ltPair: { uint64_t r=1; for(; a.type==ltPair && b.type==ltPair; a=a.vList->cdr,b=b.vList->cdr) r&=same_(a.vList->car,b.vList->car,depth+1); if(a.type==ltPair||b.type==ltPair) return 0; return r & same_(a,b,depth+1); }
	case ltArray: { if(a.vArray->length!=b.vArray->length) return 0; uint64_t r=1; for(int i=0;i<a.vArray->length;i++) r&=same_(a.vArray->data[i],b.vArray->data[i],depth+1); return r; }
	case ltTree: return treeSame(a.vTree->root,b.vTree->root);
	case ltBytecodeArr: { long n=a.vBytecodeArr->dataEnd-a.vBytecodeArr->data; if(n!=b.vBytecodeArr->dataEnd-b.vBytecodeArr->data) return 0; uint64_t d=0; for(long i=0;i<n;i++) d|=a.vBytecodeArr->data[i]^b.vBytecodeArr->data[i]; if(d) return 0;
		lArray *p=a.vBytecodeArr->literals,*q=b.vBytecodeArr->literals; if(p->length!=q->length) return 0; uint64_t r=1; for(int i=0;i<p->length;i++) r&=same_(p->data[i],q->data[i],depth+1); return r; }
	case ltBufferView: return a.vBufferView->buf==b.vBufferView->buf && a.vBufferView->offset==b.vBufferView->offset && a.vBufferView->length==b.vBufferView->length && a.vBufferView->type==b.vBufferView->type;
	default: return a.vPointer==b.vPointer;
	}
}
uint64_t hSame(lVal a, lVal b){ return same_(a,b,0); }
static uint64_t hash_(lVal v, int depth){
	uint64_t h=v.type*1000003ull; if(depth>40) return h;
	switch(v.type){
	case ltBool: return h+v.vBool; case ltInt: return h^(uint64_t)v.vInt; case ltFloat: return h^hD2Bits(v.vFloat);
	case ltString: case ltBuffer: h+=v.vBuffer->length; for(int i=0;i<v.vBuffer->length;i++) h=h*31+((u8*)v.vBuffer->buf)[i]; return h;
	case ltPair: for(; v.type==ltPair; v=v.vList->cdr) h=h*33+hash_(v.vList->car,depth+1); return h*33+hash_(v,depth+1);
	case ltArray: for(int i=0;i<v.vArray->length;i++) h=h*33+hash_(v.vArray->data[i],depth+1); return h;
	case ltSymbol: case ltKeyword: for(int i=0;i<93 && v.vSymbol->c[i];i++) h=h*31+(u8)v.vSymbol->c[i]; return h;
	default: return h; }
}
uint64_t hHash(lVal v){ return hash_(v,0); }
void hLogVal(const char *n, lVal v){ sym_log(n,hHash(v)); }

/* natives for property files */
static char *cname(lVal v, char *b, size_t n){ size_t k=0; if(v.type==ltString) for(;k+1<n && k<(size_t)v.vString->length;k++) b[k]=v.vString->data[k]; else if(v.type==ltSymbol||v.type==ltKeyword) for(;k+1<n && v.vSymbol->c[k];k++) b[k]=v.vSymbol->c[k]; b[k]=0; return b; }
static uint64_t truthy(lVal v){ return v.type==ltBool ? v.vBool : v.type!=ltNil; }
static lVal nAssume(lVal c){ sym_assume(truthy(c)); return NIL; }
static lVal nAssert(lVal c, lVal id){ char b[100]; sym_assert(truthy(c),cname(id,b,100)); return NIL; }
static lVal nKnown(lVal id, lVal c){ char b[100]; sym_known(cname(id,b,100),truthy(c)); return NIL; }
static lVal nReach(lVal id){ char b[100]; sym_reach(cname(id,b,100)); return NIL; }
static lVal nSame(lVal a, lVal b){ hLogVal("a",a); hLogVal("b",b); return lValBool(hSame(a,b)); }
static lVal nLog(lVal a, lVal b){ char n[100]; hLogVal(cname(a,n,100),b); return b; }
static lVal nConc(lVal a){ if(a.type==ltInt) a.vInt=(i64)sym_concretize(a.vInt); else if(a.type==ltString||a.type==ltBuffer){ for(int i=0;i<a.vBuffer->length;i++) ((u8*)a.vBuffer->buf)[i]=(u8)sym_concretize(((u8*)a.vBuffer->buf)[i]); } return a; }
static lVal nDebug(lVal a){ char b[200]; sym_debug(cname(a,b,200)); return NIL; }
static lVal nBitsF(lVal a){ return a.type==ltInt ? (lVal){ltFloat,.vFloat=hBits2D(a.vInt)} : NIL; }
static lVal nBitsI(lVal a){ return a.type==ltFloat ? lValInt((i64)hD2Bits(a.vFloat)) : NIL; }
static lVal nPtrEq(lVal a, lVal b){ return lValBool(a.type==b.type && a.vPointer==b.vPointer); }
/* the reference operations property files may use: no code of the system under test is involved */
static lVal nAnd(lVal a, lVal b){ return lValBool(truthy(a)&truthy(b)); }
static lVal nOr(lVal a, lVal b){ return lValBool(truthy(a)|truthy(b)); }
static lVal nNot(lVal a){ return lValBool(!truthy(a)); }
static lVal nILt(lVal a, lVal b){ return lValBool(a.vInt<b.vInt); }
static lVal nILe(lVal a, lVal b){ return lValBool(a.vInt<=b.vInt); }
static lVal nIEq(lVal a, lVal b){ return lValBool(a.type==ltInt && b.type==ltInt && a.vInt==b.vInt); }
static lVal nIAdd(lVal a, lVal b){ return lValInt((i64)((u64)a.vInt+(u64)b.vInt)); }
static lVal nISub(lVal a, lVal b){ return lValInt((i64)((u64)a.vInt-(u64)b.vInt)); }
static lVal nIMul(lVal a, lVal b){ return lValInt((i64)((u64)a.vInt*(u64)b.vInt)); }
static lVal nLen(lVal a){ switch(a.type){ case ltString: case ltBuffer: return lValInt(a.vBuffer->length); case ltArray: return lValInt(a.vArray->length); case ltPair: { i64 n=0; for(;a.type==ltPair;a=a.vList->cdr) n++; return lValInt(n); } case ltNil: return lValInt(0); default: return lValInt(-1);} }
static lVal nByte(lVal a, lVal i){ if(a.type!=ltString && a.type!=ltBuffer) return NIL; if(i.type!=ltInt||i.vInt<0||i.vInt>=a.vBuffer->length) return NIL; return lValInt(((u8*)a.vBuffer->buf)[i.vInt]); }
static lVal nNth(lVal a, lVal i){ if(i.type!=ltInt||i.vInt<0) return NIL; if(a.type==ltArray) return i.vInt<a.vArray->length?a.vArray->data[i.vInt]:NIL; for(i64 k=0;k<i.vInt;k++) a=lCdr(a); return lCar(a); }
static lVal nIf(lVal c, lVal a, lVal b){ /* branch-free choice between two ints or two bools */
	if(a.type==ltInt&&b.type==ltInt){ u64 m=0-(u64)(truthy(c)&1); return lValInt((i64)(((u64)a.vInt&m)|((u64)b.vInt&~m))); } if(a.type==ltBool&&b.type==ltBool){ u64 t=truthy(c)&1; return lValBool((t&a.vBool)|((t^1)&b.vBool)); } return truthy(c)?a:b; }
/* reference semantics of numbers and text, written independently of lib/ */
static double d_(lVal a){ return a.type==ltInt ? (double)a.vInt : a.vFloat; }
static int cmpif(i64 i, double f){ if(f>=9223372036854775808.0) return -1; if(f<-9223372036854775808.0) return 1; i64 t=(i64)f; if(i<t) return -1; if(i>t) return 1; double r=f-(double)t; return r>0?-1:r<0?1:0; }
static int numcmp(lVal a, lVal b){
	if(a.type==ltInt&&b.type==ltInt) return (int)(a.vInt>b.vInt)-(int)(a.vInt<b.vInt);
	if(a.type==ltFloat&&b.type==ltFloat) return (int)(a.vFloat>b.vFloat)-(int)(a.vFloat<b.vFloat);
	return a.type==ltInt ? cmpif(a.vInt,b.vFloat) : -cmpif(b.vInt,a.vFloat); }
static int textcmp(lVal a, lVal b){
	const u8 *x,*y; int n,m;
	if(a.type==ltString){ x=a.vBuffer->buf; n=a.vBuffer->length; } else { x=(u8*)a.vSymbol->c; for(n=0;n<93&&x[n];n++){} }
	if(b.type==ltString){ y=b.vBuffer->buf; m=b.vBuffer->length; } else { y=(u8*)b.vSymbol->c; for(m=0;m<93&&y[m];m++){} }
	int r=(n>m)-(n<m); /* branch-free over the common prefix: the first difference decides */
	for(int i=(n<m?n:m);i-->0;){ int d=(int)(x[i]>y[i])-(int)(x[i]<y[i]); int z=-(d!=0); r=(d&z)|(r&~z); }
	return r; }
static lVal nCmp(lVal a, lVal b){ if((a.type==ltInt||a.type==ltFloat)&&(b.type==ltInt||b.type==ltFloat)) return lValInt(numcmp(a,b)); return lValInt(textcmp(a,b)); }
static lVal rawF(double v){ return (lVal){ltFloat,.vFloat=v}; }
static lVal nFAdd(lVal a, lVal b){ return rawF(d_(a)+d_(b)); }
static lVal nFSub(lVal a, lVal b){ return rawF(d_(a)-d_(b)); }
static lVal nFMul(lVal a, lVal b){ return rawF(d_(a)*d_(b)); }
static lVal nFDiv(lVal a, lVal b){ return rawF(d_(a)/d_(b)); }
static lVal nToF(lVal a){ return rawF(d_(a)); }
static lVal nFinite(lVal a){ return lValBool(a.type==ltFloat && ((hD2Bits(a.vFloat)>>52)&0x7ff)!=0x7ff); }
static lVal nShl(lVal a, lVal b){ u64 s=(u64)b.vInt; return lValInt(s>63?0:(i64)((u64)a.vInt<<s)); }
static lVal nShr(lVal a, lVal b){ u64 s=(u64)b.vInt; return lValInt(s>63?0:(i64)((u64)a.vInt>>s)); }
static lVal nIAnd(lVal a, lVal b){ return lValInt(a.vInt&b.vInt); }
static lVal nIOr(lVal a, lVal b){ return lValInt(a.vInt|b.vInt); }
static lVal nIXor(lVal a, lVal b){ return lValInt(a.vInt^b.vInt); }
static lVal nDivT(lVal a, lVal b){ return b.vInt==0?NIL: b.vInt==-1? lValInt((i64)(0-(u64)a.vInt)) : lValInt(a.vInt/b.vInt); }
static lVal nRemT(lVal a, lVal b){ return b.vInt==0?NIL: b.vInt==-1? lValInt(0) : lValInt(a.vInt%b.vInt); }
static lVal nPop(lVal a){ int n=0; for(int i=0;i<64;i++) n+=((u64)a.vInt>>i)&1; return lValInt(n); }
static lVal nType(lVal a){ return lValInt(a.type); }
static lVal nThrows(lVal fun, lVal args){ /* kind keyword of the exception apply raises, nil if it returns */
	lVal r=hApply(fun,args); if(r.type!=ltException) return NIL; return r.vList?r.vList->car:lValBool(true); }
static lVal nFSqrt(lVal a){ return rawF(sqrt(d_(a))); }
static lVal nFRnd(lVal a, lVal m){ double d=a.vFloat; return rawF(m.vInt==0?floor(d):m.vInt==1?ceil(d):m.vInt==2?trunc(d):round(d)); }
static lVal nFtoI(lVal a){ return lValInt((i64)a.vFloat); }
/* Names made of symbolic characters do not go through the symbol table (which C15 checks): within a path they are interned in a list of their own, so two of
 * them are the same symbol exactly when their characters are; a name that exists elsewhere in the image is not among the values covered. */
lSymbol *lSymSReal(const char *);
lSymbol *lSymS(const char *str){
	static lSymbol *own[64]; static int n=0; int symbolic=0; const char *p;
	for(p=str; p-str<200; p++){ if(sym_is_symbolic((u8)*p)) symbolic=1; if(!*p) break; }
	if(!symbolic) return lSymSReal(str);
	for(int i=0;i<n;i++) if(!strcmp(own[i]->c,str)) return own[i];
	lSymbol *s=calloc(1,sizeof(lSymbol)); strncpy(s->c,str,sizeof(s->c)-1); if(n<64) own[n++]=s;
	return s;
}
/* 1 if v consists of nothing but proper values (no exception or comment anywhere inside) */
static int clean_(lVal v, int d){
	if(d>60) return 1;
	switch(v.type){ case ltException: case ltComment: return 0;
	case ltPair: for(; v.type==ltPair; v=v.vList->cdr) if(!clean_(v.vList->car,d+1)) return 0; return clean_(v,d+1);
	case ltArray: for(int i=0;i<v.vArray->length;i++) if(!clean_(v.vArray->data[i],d+1)) return 0; return 1;
	case ltTree: { lTree *st[64]; int n=0; if(v.vTree->root) st[n++]=v.vTree->root; while(n){ lTree *t=st[--n]; if(!clean_(t->value,d+1)) return 0; if(t->left&&n<62) st[n++]=t->left; if(t->right&&n<62) st[n++]=t->right; } return 1; }
	default: return (unsigned)v.type<=ltException; } }
static lVal nClean(lVal a){ return lValBool(clean_(a,0)); }
static lVal nLimit(lVal a){ sym_limit((uint64_t)a.vInt,1); return NIL; }
/* does the name of a symbol or keyword consist of these bytes? */
static lVal nName(lVal a, lVal s){ if(a.type!=ltSymbol&&a.type!=ltKeyword) return lValBool(false); u64 r=1; int n=s.vBuffer->length; for(int i=0;i<n;i++) r&=a.vSymbol->c[i]==s.vBuffer->data[i]; return lValBool(r&(a.vSymbol->c[n]==0)); }
/* Garbage collection schedules. lib/garbage-collection.c is compiled with lGarbageCollect renamed to lGarbageCollectReal, so every safe point of the VM that would
 * collect comes here first: a schedule says which of the coming safe points really collect. Right after a collection the free slots are filled with other values,
 * so whatever was freed although it is still reachable is seen to have changed. */
void lGarbageCollectReal(lThread *);
static i64 gcLeft=-1, gcEvery=0, gcDone=0, gcTick=0, gcMax=0; static int gcPlanned=0; /* planned: 1 at a given safe point, 2 at any one of the next gcMax */
static void churn(int n){
	static uint64_t serial=0; lVal keep=NIL;
	for(int i=0;i<n;i++){
		lVal x=lValInt((i64)(0x5eed0000+serial++)); char nm[24]; snprintf(nm,24,"churn%d",(int)serial);
		lVal b=hStr("poison",6); keep=lCons(x,lCons(x,NIL)); lArray *a=lArrayAlloc(2); a->data[0]=x; a->data[1]=x;
		if(i<40){ lSymbol *s=lSymS(nm); lVal t=lValTree(NULL); t.vTree->root=lTreeInsert(NULL,s,x); t.vTree->root=lTreeInsert(t.vTree->root,s,b); lClosure *c=lClosureNew(NULL,closureDefault); lDefineClosureSym(c,s,x);
			lBufferView *v=lBufferViewAlloc(b.vBuffer,lbvtU8,0,6,true); (void)v; (void)c; lBytecodeArray *bc=lBytecodeArrayAlloc(4); bc->literals=lArrayAlloc(0); }
	}
	(void)keep;
}
void lGarbageCollect(lThread *ctx){
	if(!gcPlanned){ lGarbageCollectReal(ctx); return; }
	lGCShouldRunSoon=true;
	if(gcPlanned==2){ char nb[30]; if(gcTick>=gcMax){ gcPlanned=0; return; } snprintf(nb,30,"collect.%d",(int)gcTick++); if(!sym_choose(nb,2)) return; gcPlanned=1; } else if(gcLeft--) return;
	lGarbageCollectReal(ctx); gcDone++; churn(100);
	if(gcEvery>0){ gcLeft=gcEvery-1; lGCShouldRunSoon=true; } else gcPlanned=0;
}
static lVal nGcAt(lVal k, lVal e){ gcPlanned=1; gcLeft=k.vInt; gcEvery= e.type==ltInt ? e.vInt : 0; lGCShouldRunSoon=true; return NIL; }
static lVal nGcAny(lVal n, lVal e){ gcPlanned=2; gcTick=0; gcMax=n.vInt; gcEvery=e.vInt; lGCShouldRunSoon=true; return NIL; }
static lVal nGcOff(void){ gcPlanned=0; gcEvery=0; lGCShouldRunSoon=false; return lValInt(gcDone); }
/* natives taking k>>1 values (and the closure when k is odd), 16/17 take the rest: they return what they got as a list */
static lVal hl(int n, const lVal *v){ lVal r = NIL; while(n-- > 0){ r = lCons(v[n], r); } return r; }
#define HL(...) lVal v[] = {__VA_ARGS__}; return hl(sizeof(v)/sizeof(v[0]), v)
static lVal hn0(){ return NIL; }
static lVal hn1(lClosure *c){ return c ? NIL : lValInt(-1); }
static lVal hn2(lVal a){ HL(a); }
static lVal hn3(lClosure *c, lVal a){ (void)c; HL(a); }
static lVal hn4(lVal a, lVal b){ HL(a,b); }
static lVal hn5(lClosure *c, lVal a, lVal b){ (void)c; HL(a,b); }
static lVal hn6(lVal a, lVal b, lVal d){ HL(a,b,d); }
static lVal hn7(lClosure *c, lVal a, lVal b, lVal d){ (void)c; HL(a,b,d); }
static lVal hn8(lVal a, lVal b, lVal d, lVal e){ HL(a,b,d,e); }
static lVal hn9(lClosure *c, lVal a, lVal b, lVal d, lVal e){ (void)c; HL(a,b,d,e); }
static lVal hn10(lVal a, lVal b, lVal d, lVal e, lVal f){ HL(a,b,d,e,f); }
static lVal hn11(lClosure *c, lVal a, lVal b, lVal d, lVal e, lVal f){ (void)c; HL(a,b,d,e,f); }
static lVal hn12(lVal a, lVal b, lVal d, lVal e, lVal f, lVal g){ HL(a,b,d,e,f,g); }
static lVal hn13(lClosure *c, lVal a, lVal b, lVal d, lVal e, lVal f, lVal g){ (void)c; HL(a,b,d,e,f,g); }
static lVal hnR(lVal a){ return lCons(a, NIL); }
static lVal hnCR(lClosure *c, lVal a){ (void)c; return lCons(a, NIL); }
static int tier; /* 0 quick, 1 thorough */
static lVal nTier(lVal a, lVal b){ return tier ? b : a; }
static lVal nNativeK(lVal k){
	static void *const fs[] = {hn0,hn1,hn2,hn3,hn4,hn5,hn6,hn7,hn8,hn9,hn10,hn11,hn12,hn13,hnR,hnCR};
	const int i = k.vInt;
	lVal v = lValAlloc(ltNativeFunc, lNFuncAlloc());
	v.vNFunc->fp = (lVal (*)())fs[i];
	v.vNFunc->argCount = i < 14 ? i : i + 2;
	return v;
}

extern void sym_fs_fault(long n);
static lVal nFault(lVal n){ sym_fs_fault(n.type==ltInt ? n.vInt : -1); return NIL; }
lVal hAny(const char *nm, int k); uint64_t hWellFormed(lVal v); uint64_t hShape(lVal v);
static lVal nWf(lVal v){ return lValBool(hWellFormed(v)); }
static lVal nShape(lVal v){ return lValInt((i64)hShape(v)); }
static lVal nAnyV(lVal n, lVal k){ char b[60]; return hAny(cname(n,b,60),(int)k.vInt); }
static void natives(void){
	lAddNativeFuncV("sym/wf?","(v)","",nWf,0); lAddNativeFuncV("sym/shape","(v)","",nShape,0); lAddNativeFuncVV("sym/any","(name kind)","",nAnyV,0);
	lAddNativeFuncV("sym/fs-fault","(n)","",nFault,0);
	lAddNativeFuncVV("sym/tier","(quick thorough)","",nTier,0); lAddNativeFuncV("sym/native","(k)","",nNativeK,0); lAddNativeFuncV("sym/clean?","(v)","",nClean,0); lAddNativeFuncV("sym/limit","(n)","",nLimit,0); lAddNativeFuncVV("sym/name?","(v s)","",nName,0);
	lAddNativeFuncVV("sym/gc-any","(n every)","",nGcAny,0);
	lAddNativeFuncVV("sym/gc-at","(k every)","",nGcAt,0); lAddNativeFunc("sym/gc-off","()","",nGcOff,0);
	lAddNativeFuncV("sym/fsqrt","(a)","",nFSqrt,0); lAddNativeFuncVV("sym/frnd","(a m)","",nFRnd,0); lAddNativeFuncV("sym/f->i","(a)","",nFtoI,0);
	lAddNativeFuncVV("sym/cmp","(a b)","",nCmp,0); lAddNativeFuncVV("sym/fadd","(a b)","",nFAdd,0); lAddNativeFuncVV("sym/fsub","(a b)","",nFSub,0); lAddNativeFuncVV("sym/fmul","(a b)","",nFMul,0); lAddNativeFuncVV("sym/fdiv","(a b)","",nFDiv,0);
	lAddNativeFuncV("sym/->float","(a)","",nToF,0); lAddNativeFuncV("sym/finite?","(a)","",nFinite,0); lAddNativeFuncVV("sym/shl","(a b)","",nShl,0); lAddNativeFuncVV("sym/shr","(a b)","",nShr,0);
	lAddNativeFuncVV("sym/bit-and","(a b)","",nIAnd,0); lAddNativeFuncVV("sym/bit-or","(a b)","",nIOr,0); lAddNativeFuncVV("sym/bit-xor","(a b)","",nIXor,0); lAddNativeFuncVV("sym/div","(a b)","",nDivT,0); lAddNativeFuncVV("sym/rem","(a b)","",nRemT,0); lAddNativeFuncV("sym/popcount","(a)","",nPop,0); lAddNativeFuncV("sym/type","(a)","",nType,0);
	lAddNativeFuncVV("sym/throws","(f args)","",nThrows,0);
	lAddNativeFuncV ("sym/assume","(c)","",nAssume,0); lAddNativeFuncVV("sym/assert","(c id)","",nAssert,0); lAddNativeFuncV("sym/reach","(t)","",nReach,0);
	lAddNativeFuncVV("sym/known","(id c)","",nKnown,0); lAddNativeFuncVV("sym/same?","(a b)","",nSame,0); lAddNativeFuncVV("sym/log","(n v)","",nLog,0); lAddNativeFuncV("sym/concretize","(v)","",nConc,0); lAddNativeFuncV("sym/debug","(v)","",nDebug,0);
	lAddNativeFuncV("sym/bits->float","(v)","",nBitsF,0); lAddNativeFuncV("sym/float->bits","(v)","",nBitsI,0); lAddNativeFuncVV("sym/eq?","(a b)","",nPtrEq,0);
	lAddNativeFuncVV("sym/and","(a b)","",nAnd,0); lAddNativeFuncVV("sym/or","(a b)","",nOr,0); lAddNativeFuncV("sym/not","(a)","",nNot,0);
	lAddNativeFuncVV("sym/<","(a b)","",nILt,0); lAddNativeFuncVV("sym/<=","(a b)","",nILe,0); lAddNativeFuncVV("sym/=","(a b)","",nIEq,0); lAddNativeFuncVV("sym/+","(a b)","",nIAdd,0); lAddNativeFuncVV("sym/-","(a b)","",nISub,0); lAddNativeFuncVV("sym/*","(a b)","",nIMul,0);
	lAddNativeFuncV("sym/len","(a)","",nLen,0); lAddNativeFuncVV("sym/byte","(a i)","",nByte,0); lAddNativeFuncVV("sym/nth","(a i)","",nNth,0); lAddNativeFuncVVV("sym/if","(c a b)","",nIf,0);
}
void hBoot(void){
	lInit();
	lOperationsIO(); lOperationsPort(); lOperationsNet();
	setIOSymbols();
	natives();
	hRoot=lNewRoot();
	lRedefineFileHandles(hRoot);
	lRedefineEnvironment(hRoot);
}
static lVal evalForm(lVal form){ return lApply(hGet("eval-in"), hList(2, lValEnvironment(hRoot), form)); }
static void printExc(lVal v){ char b[200]; if(v.type==ltException && v.vList){ sym_debug(cname(v.vList->car,b,200)); if(v.vList->cdr.type==ltPair) sym_debug(cname(lCar(v.vList->cdr),b,200)); } }
lVal hEval(const char *src){ lVal f=lRead(src,strlen(src)); if(f.type==ltException) return f; lVal r=evalForm(lCar(f)); return r; }

/* ------------------------------------------------------------------ property files
 * (prop name ((param spec...)...) body...)   the body has to yield a true value for every admissible argument
 * Other top-level forms are evaluated in the root environment when the file is loaded. */
static int tier; /* 0 quick, 1 thorough */
int hTier(void){ return tier; }
i64 hBound(i64 q, i64 t){ return tier ? t : q; }
static i64 arg(lVal l, int k, i64 dflt){ for(;k;k--) l=lCdr(l); lVal v=lCar(l); if(v.type==ltPair) v = tier ? lCadr(v) : lCar(v); return v.type==ltInt ? v.vInt : dflt; } /* (quick thorough) picks by tier */
static lVal symScalar(const char *nm, int bits){ return lValInt(sym_sint(nm,bits)); }
static lVal makeArg(const char *nm, lVal spec){
	char kind[40], nb[120]; cname(lCar(spec),kind,40); lVal a=lCdr(spec);
	if(!strcmp(kind,"int")) return symScalar(nm,(int)arg(a,0,64));
	if(!strcmp(kind,"uint")) return lValInt((i64)sym_int(nm,(int)arg(a,0,63)));
	if(!strcmp(kind,"range")){ i64 lo=arg(a,0,0),hi=arg(a,1,0); i64 v=sym_sint(nm,64); sym_assume(v>=lo); sym_assume(v<=hi); return lValInt(v); }
	if(!strcmp(kind,"each")){ i64 lo=arg(a,0,0),hi=arg(a,1,0); return lValInt(lo+sym_choose(nm,(int)(hi-lo+1))); }
	if(!strcmp(kind,"float")) return (lVal){ltFloat,.vFloat=hFloatN(nm,(int)arg(a,0,52))};
	if(!strcmp(kind,"num")){ snprintf(nb,120,"%s.float",nm); return sym_choose(nb,2) ? (lVal){ltFloat,.vFloat=hFloatN(nm,(int)arg(a,0,52))} : symScalar(nm,(int)arg(a,0,64)); }
	if(!strcmp(kind,"bool")) return lValBool(sym_int(nm,1));
	if(!strcmp(kind,"str")||!strcmp(kind,"buf")||!strcmp(kind,"ascii")){ i64 lo=arg(a,0,1),hi=arg(a,1,lo); snprintf(nb,120,"%s.len",nm); i64 n=lo+(hi>lo?sym_choose(nb,(int)(hi-lo+1)):0);
		if(kind[0]=='b') return hBuf(n,nm,1);
		char t[64]; if(n>60) n=60; sym_bytes(t,n,nm); if(kind[0]=='a') for(int i=0;i<n;i++) sym_assume((u8)t[i]<128); for(int i=0;i<n;i++) sym_assume(t[i]!=0); return hStr(t,n); }
	if(!strcmp(kind,"kw")||!strcmp(kind,"symbol")){ /* a name of symbolic characters; it is not interned, so it is only fit for operations that look at the name */
		i64 lo=arg(a,0,1),hi=arg(a,1,lo); snprintf(nb,120,"%s.len",nm); i64 n=lo+(hi>lo?sym_choose(nb,(int)(hi-lo+1)):0); lSymbol *s_=calloc(1,sizeof(lSymbol)); sym_bytes(s_->c,n,nm); for(int i=0;i<n;i++) sym_assume(s_->c[i]!=0);
		lVal r=kind[0]=='k'?lValKeywordS(s_):lValSymS(s_); return r; }
	if(!strcmp(kind,"bytes")){ /* a string that may contain NUL */ i64 lo=arg(a,0,1),hi=arg(a,1,lo); snprintf(nb,120,"%s.len",nm); i64 n=lo+(hi>lo?sym_choose(nb,(int)(hi-lo+1)):0); char t[64]; if(n>60) n=60; sym_bytes(t,n,nm); return hStr(t,n); }
	if(!strcmp(kind,"over")){ /* (s :over "alphabet" lo hi) */ char al[64]; cname(lCar(a),al,64); i64 lo=arg(a,1,1),hi=arg(a,2,lo); snprintf(nb,120,"%s.len",nm); i64 n=lo+(hi>lo?sym_choose(nb,(int)(hi-lo+1)):0); char t[64]; sym_bytes(t,n,nm);
		for(int i=0;i<n;i++){ uint64_t ok=0; for(char *p=al;*p;p++) ok|=(t[i]==*p); sym_assume(ok); } return hStr(t,n); }
	if(!strcmp(kind,"ints")||!strcmp(kind,"arr")){ i64 lo=arg(a,0,0),hi=arg(a,1,lo),bits=arg(a,2,64); snprintf(nb,120,"%s.len",nm); i64 n=lo+(hi>lo?sym_choose(nb,(int)(hi-lo+1)):0);
		if(kind[0]=='a'){ lVal r=hArr(n); for(int i=0;i<n;i++){ snprintf(nb,120,"%s.%d",nm,i); r.vArray->data[i]=symScalar(nb,(int)bits); } return r; }
		lVal t[40]; for(int i=0;i<n;i++){ snprintf(nb,120,"%s.%d",nm,i); t[i]=symScalar(nb,(int)bits); } lVal r=NIL; for(int i=(int)n;i-->0;) r=lCons(t[i],r); return r; }
	if(!strcmp(kind,"oneof")){ int n=0; for(lVal l=a;l.type==ltPair;l=lCdr(l)) n++; int k=sym_choose(nm,n); for(;k;k--) a=lCdr(a); return evalForm(lCar(a)); }
	if(!strcmp(kind,"key")){ /* one of n keywords, as one symbolic value: the comparisons made by trees decide which paths exist. The names live in a pool of their own
		(laid out so that comparing two of them is cheap for the solver), not in the symbol arena: fit for operations that compare names by identity */
		static char pool[16*128] __attribute__((aligned(4096))); int n=(int)arg(a,0,4); u64 k=sym_int(nm,4); if(n<16) sym_assume(k<(u64)n);
		for(int i=0;i<16;i++) snprintf(((lSymbol*)&pool[i*128])->c,8,"zk%d",i);
		lVal r={ltKeyword,.vSymbol=(lSymbol*)((u64)(uintptr_t)pool|(k<<7))}; return r; }
	if(!strcmp(kind,"val")){ /* a value of any basic type */
		snprintf(nb,120,"%s.type",nm); int n=(int)arg(a,0,9);
		switch(sym_choose(nb,n)){
		case 0: return lValInt(sym_sint(nm,64)); case 1: return (lVal){ltFloat,.vFloat=hFloat(nm)}; case 2: return NIL; case 3: return lValBool(sym_int(nm,1));
		case 4: { char t[2]; sym_bytes(t,2,nm); return hStr(t,2); } case 5: return hSymv("some-symbol"); case 6: return hKw("some-keyword"); case 7: return lCons(lValInt(sym_sint(nm,64)),lCons(lValInt(2),NIL));
		case 8: { lVal r=hArr(2); r.vArray->data[0]=lValInt(sym_sint(nm,64)); r.vArray->data[1]=NIL; return r; }
		case 9: return hBuf(2,nm,1); case 10: { lVal r=lValTree(NULL); r.vTree->root=lTreeInsert(NULL,lSymS("k"),lValInt(sym_sint(nm,64))); return r; } default: return lValEnvironment(hRoot); } }
	if(!strcmp(kind,"any")){ /* a value of any type: the first n kinds of harness/natives.c */
		snprintf(nb,120,"%s.kind",nm); return hAny(nm,sym_choose(nb,(int)arg(a,0,28))); }
	sym_debug("unknown parameter kind"); sym_debug(kind); return NIL;
}
void hNujelProps(const char *path){
	size_t len; char *src=sym_host_read(path,&len); if(!src){ sym_debug("cannot read property file"); sym_debug(path); return; }
	lVal forms=lRead(src,len);
	if(forms.type==ltException){ sym_debug("property file does not parse"); sym_debug(path); printExc(forms); return; }
	lDefineVal(hRoot,"sym/forms",forms);
	for(lVal l=forms; l.type==ltPair; l=lCdr(l)){
		lVal f=lCar(l); char b[40];
		if(f.type==ltComment) continue;
		b[0]=0; if(f.type==ltPair && !strcmp(cname(lCar(f),b,40),"prop-thorough")){ if(!tier) continue; strcpy(b,"prop"); }
		if(f.type!=ltPair || strcmp(b,"prop")){ lVal r=evalForm(f); if(r.type==ltException){ sym_debug("top-level form failed"); sym_debug(path); printExc(r); } continue; }
		char name[90]; cname(lCadr(f),name,90);
		if(!sym_case(name)) continue;
		lVal params=lCaddr(f), body=lCdr(lCddr(f));
		lVal names=NIL, vals=NIL; lVal pn[16]; int n=0;
		for(lVal p=params; p.type==ltPair && n<16; p=lCdr(p)) if(lCar(p).type==ltPair) pn[n++]=lCar(p);
		for(int i=n;i-->0;) names=lCons(lCar(pn[i]),names);
		if(!n) names=lCons(NIL,NIL);
		lVal fun=evalForm(lCons(hSymv("fn"),lCons(names,body)));
		if(fun.type!=ltLambda){ sym_note("property body does not compile"); sym_assert(0,"property body does not compile"); sym_end(); }
		lVal vs[16]; char vn[80]; for(int i=0;i<n;i++) vs[i]=makeArg(cname(lCar(pn[i]),vn,80),lCdr(pn[i]));
		for(int i=n;i-->0;) vals=lCons(vs[i],vals);
		lDefineVal(hRoot,"sym/args",vals);
		lVal r=lApply(fun,vals);
		sym_reach("end");
		if(r.type==ltException){ char e[120]; sym_note("uncaught exception"); if(r.vList){ sym_note(cname(r.vList->car,e,120)); sym_note(cname(lCadr(lValAlloc(ltPair,r.vList)),e,120)); } sym_assert(0,"no uncaught exception"); sym_end(); }
		hLogVal("result",r);
		sym_assert(truthy(r),"property holds");
		sym_end();
	}
}
void hNativeInit(void);
void nsym_main(void){
	hBoot();
	hNativeInit();
	static char arg_[4096]; sym_host_arg(arg_,4096);
	for(char *p=arg_; *p;){ char *q=p; while(*q && *q!=';') q++; int last=!*q; *q=0; if(!strcmp(p,"thorough")) tier=1; else if(*p) hNujelProps(p); p=last?q:q+1; }
	hCases();
	(void)hKeep;
}
