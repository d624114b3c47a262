/* Every native function and method, called with arguments of any type. */
#include "h.h"
#include <string.h>
#include <stdio.h>
#define NOSELF 63
static const char *skip[] = { /* what acts on the operating system, or is checked elsewhere with a model of it */
	"exit","popen","rm","rmdir","mkdir","cd","ls","cwd","file/stat","file/open-output*","file/open-input*","file/close*","file/raw*","file/bytes-available*",
	"image/deserialize","socket/connect", /* images are trusted: see C19 */
	"time","time/milliseconds","time/seconds", NULL };
static const char *alloc[] = { "length!","alloc","buffer/allocate","array/allocate",NULL };
static const char *libm[] = { "sin","cos","tan","atan2","pow","rem","/","*","cbrt","sqrt","div/int","mod/int","floor","ceil","round","vec/magnitude","float","string",NULL }; /* computed by the C library: a few values only */
static int in(const char **l, const char *s){ for(;*l;l++) if(!strcmp(*l,s)) return 1; return 0; }
typedef struct { const lSymbol *name; lNFunc *f; lType self; int isStatic; } nat;
static nat nats[400]; static int nNats;
static void collect(const lTree *t, lType self, int st){
	if(!t) return; collect(t->left,self,st);
	if(t->value.type==ltNativeFunc && strncmp(t->key->c,"sym/",4) && strncmp(t->key->c,"net/",4) && !in(skip,t->key->c) && nNats<400) nats[nNats++]=(nat){t->key,t->value.vNFunc,self,st};
	collect(t->right,self,st);
}
static lVal lam; static int few;
static lVal theInt(const char *nm){
	static const i64 is[]={0,1,-1,2,63,INT64_MIN,INT64_MAX}; char nb[60]; snprintf(nb,60,"%s.int",nm);
	return lValInt(few ? is[sym_choose(nb,7)] : sym_sint(nm,64)); }
static lVal theFloat(const char *nm){
	static const double fs[]={0.0,-0.0,1.5,-2.5,1e300,5e-324,710.0}; char nb[60]; snprintf(nb,60,"%s.float",nm);
	return (lVal){ltFloat,.vFloat = few ? fs[sym_choose(nb,7)] : hFloat(nm)}; }
lVal hAny(const char *nm, int k){
	char nb[100];
	switch(k){
	case 0: return theInt(nm);
	case 1: return theFloat(nm);
	case 2: return NIL;
	case 3: return lValBool(sym_int(nm,1));
	case 4: { char t[2]; sym_bytes(t,2,nm); sym_assume((t[0]!=0)&(t[1]!=0)); return hStr(t,2); }
	case 5: return hSymv("some-symbol");
	case 6: return hKw("k");
	case 7: return lCons(lValInt(sym_sint(nm,64)),lCons(hStr("ab",2),NIL));
	case 8: { lVal r=hArr(2); r.vArray->data[0]=lValInt(sym_sint(nm,64)); r.vArray->data[1]=NIL; return r; }
	case 9: return hBuf(9,nm,1);
	case 10: { lVal r=lValTree(NULL); r.vTree->root=lTreeInsert(NULL,lSymS("k"),lValInt(sym_sint(nm,64))); return r; }
	case 11: { lClosure *c=lClosureNew(NULL,closureLet); lDefineClosureSym(c,lSymS("k"),lValInt(sym_sint(nm,64))); return lValAlloc(ltEnvironment,c); }
	case 12: { lVal b=hBuf(9,nm,1); return lValAlloc(ltBufferView,lBufferViewAlloc(b.vBuffer,lbvtS16,0,4,false)); }
	case 13: { lVal f=lam; (void)f; lClosure *c=lClosureNew(NULL,closureDefault); c->text=lam.vClosure->text; c->ip=c->text->data; c->args=lam.vClosure->args; return lValAlloc(ltLambda,c); }
	case 14: return hGet("+");
	case 15: return lValType(&lClassList[ltInt]);
	case 16: { lVal f=hAny(nm,13); f.type=ltMacro; return f; }
	case 17: return lValAlloc(ltBytecodeArr,lam.vClosure->text);
	case 18: { lVal r=hAny(nm,8); r.vArray->flags|=ARRAY_IMMUTABLE; return r; }
	case 19: { lVal r=hBuf(8,nm,1); r.vBuffer->flags|=BUFFER_IMMUTABLE; return r; }
	case 20: return hStr("",0);
	case 21: return lValTree(NULL);
	case 22: return hArr(0);
	case 23: { lVal b=hAny(nm,19); return lValAlloc(ltBufferView,lBufferViewAlloc(b.vBuffer,lbvtF64,0,1,true)); }
	case 24: return lCons(lValInt(1),lValInt(sym_sint(nm,64)));
	case 25: return hBuf(0,nm,0);
	case 26: { lVal r=hAny(nm,10); r.vTree->root->flags|=TREE_IMMUTABLE; return r; }
	default: snprintf(nb,100,"%s",nm); return hStr("1.5e3",5);
	}
}
/* well formed: everything the value says about memory is true */
static uint64_t wf(lVal v, int d){
	if(d>20) return 1;
	switch(v.type){
	case ltNil: case ltInt: case ltBool: case ltSymbol: case ltKeyword: return 1;
	case ltFloat: return ((hD2Bits(v.vFloat)>>52)&0x7ff)!=0x7ff;
	case ltPair: { uint64_t r=1; for(int i=0; v.type==ltPair && i<100; i++, v=v.vList->cdr) r&=wf(v.vList->car,d+1); return r & wf(v,d+1); }
	case ltArray: { if(v.vArray->length<0) return 0; uint64_t r=1; for(int i=0;i<v.vArray->length;i++) r&=wf(v.vArray->data[i],d+1); return r; }
	case ltString: { if(v.vBuffer->length<0 || v.vBuffer->data[v.vBuffer->length]!=0) return 0; }
	case ltBuffer: { if(v.vBuffer->length<0) return 0; uint64_t x=0; for(int i=0;i<v.vBuffer->length;i++) x|=((volatile u8*)v.vBuffer->buf)[i]; return (x|1)!=0; }
	case ltBufferView: { static const int sz[]={1,1,2,2,4,4,8,4,8}; lBufferView *w=v.vBufferView; int s = w->type==lbvtU8||w->type==lbvtS8?1:w->type==lbvtU16||w->type==lbvtS16?2:w->type==lbvtU32||w->type==lbvtS32||w->type==lbvtF32?4:8; (void)sz;
		return (w->offset+w->length)*s <= (size_t)w->buf->length && ((w->flags&BUFFER_VIEW_IMMUTABLE) || !(w->buf->flags&BUFFER_IMMUTABLE)); }
	case ltTree: { const lTree *t=v.vTree->root; if(!t) return 1; const lTree *st[64]; int n=0; st[n++]=t; uint64_t r=1; while(n){ t=st[--n]; r&=wf(t->value,d+1); if(t->left && t->left->key>=t->key) return 0; if(t->right && t->right->key<=t->key) return 0; if(t->left&&n<62) st[n++]=t->left; if(t->right&&n<62) st[n++]=t->right; } return r; }
	case ltBytecodeArr: return v.vBytecodeArr->dataEnd>=v.vBytecodeArr->data && v.vBytecodeArr->literals!=NULL;
	case ltLambda: case ltMacro: case ltEnvironment: case ltNativeFunc: case ltType: case ltFileHandle: return v.vPointer!=NULL;
	default: return 0;
	}
}
static uint64_t shape(lVal v, int d){ /* a hash of everything reachable that an operation could change */
	uint64_t h=v.type*1000003ull; if(d>6) return h;
	switch(v.type){
	case ltPair: for(int i=0; v.type==ltPair && i<50; i++, v=v.vList->cdr) h=h*33+shape(v.vList->car,d+1); return h*33+shape(v,d+1);
	case ltArray: h+=v.vArray->length+v.vArray->flags*77; for(int i=0;i<v.vArray->length;i++) h=h*33+shape(v.vArray->data[i],d+1); return h;
	case ltBufferView: h+=v.vBufferView->offset*3+v.vBufferView->length*5+v.vBufferView->flags*7+v.vBufferView->type*11; return h*33+shape(lValAlloc(ltBuffer,v.vBufferView->buf),d+1);
	case ltString: case ltBuffer: h+=v.vBuffer->length+v.vBuffer->flags*77; for(int i=0;i<v.vBuffer->length;i++) h=h*31+((u8*)v.vBuffer->buf)[i]; return h;
	case ltTree: { const lTree *t=v.vTree->root, *st[64]; int n=0; while(t||n){ while(t&&n<64){ st[n++]=t; t=t->left; } t=st[--n]; h=h*37+(uint64_t)(uintptr_t)t->key+shape(t->value,d+1); t=t->right; } return h; }
	case ltLambda: case ltMacro: case ltEnvironment: { if(v.vClosure==hRoot || v.vClosure==lam.vClosure) return h; const lTree *t=v.vClosure->data; return h*41+(uint64_t)(uintptr_t)v.vClosure->parent+(t?shape(t->value,d+1):0)+(uint64_t)(uintptr_t)v.vClosure->meta; }
	case ltInt: return h^(uint64_t)v.vInt; case ltFloat: return h^hD2Bits(v.vFloat); case ltBool: return h+v.vBool; case ltNil: return h;
	default: return h^(uint64_t)(uintptr_t)v.vPointer; }
}
uint64_t hWellFormed(lVal v){ return v.type!=ltException && wf(v,0); }
uint64_t hShape(lVal v){ return shape(v,0); }
static int immutable(int k){ return k==4||k==18||k==19||k==20||k==23; }
static lVal call(lNFunc *f, const lVal *v){
	switch(f->argCount){
	case 0: return f->fp(); case 1: return f->fpC(hRoot); case 2: return f->fpV(v[0]); case 3: return f->fpCV(hRoot,v[0]); case 4: return f->fpVV(v[0],v[1]); case 5: return f->fpCVV(hRoot,v[0],v[1]);
	case 6: return f->fpVVV(v[0],v[1],v[2]); case 7: return f->fpCVVV(hRoot,v[0],v[1],v[2]); case 8: return f->fpVVVV(v[0],v[1],v[2],v[3]); case 9: return f->fpCVVVV(hRoot,v[0],v[1],v[2],v[3]);
	case 16: return f->fpR(hListA(3,v)); case 17: return f->fpCR(hRoot,hListA(3,v));
	default: return NIL; }
}
static int kinds2[]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,15,17,18,19,23,26}, kinds3[]={0,1,2,4,6,7,8,9,18,19}, kinds4[]={0,2,4};
static int selfKind(lType t, int i){ /* the receiver of a method has its type: i-th kind of value of that type, -1 if there is none */
	static const struct { lType t; int k; } m[]={{ltInt,0},{ltFloat,1},{ltNil,2},{ltBool,3},{ltString,4},{ltString,20},{ltSymbol,5},{ltKeyword,6},{ltPair,7},{ltPair,24},{ltArray,8},{ltArray,18},{ltArray,22},{ltBuffer,9},{ltBuffer,19},{ltBuffer,25},{ltBuffer,4},{ltTree,10},{ltTree,21},{ltTree,26},
		{ltEnvironment,11},{ltBufferView,12},{ltBufferView,23},{ltLambda,13},{ltLambda,11},{ltLambda,16},{ltNativeFunc,14},{ltType,15},{ltMacro,16},{ltBytecodeArr,17}};
	for(unsigned q=0;q<sizeof(m)/sizeof(m[0]);q++) if(m[q].t==t && !i--) return m[q].k;
	return -1; }
static void run(const nat *n, const char *note){
	int argc = n->f->argCount>=16 ? 3 : n->f->argCount>>1; int k[4]={2,2,2,2}; lVal v[4]={NIL,NIL,NIL,NIL}; uint64_t before[4]; char nb[40];
	(void)note; int rest = n->f->argCount>=16; few=in(libm,n->name->c);
	for(int i=0;i<argc;i++){
		snprintf(nb,40,"kind%d",i);
		if(i==0 && n->self!=NOSELF){ int c=0; if(n->self==ltAny) k[0]=sym_choose(nb,28); else { while(selfKind(n->self,c)>=0) c++; if(!c) return; k[0]=selfKind(n->self,sym_choose(nb,c)); } }
		else if(i==0) k[0]=sym_choose(nb,28);
		else if(i==1 && argc<3) k[1]=kinds2[sym_choose(nb,sizeof(kinds2)/sizeof(int))];
		else if(i==1 || (i==2 && argc==3 && !rest)) k[i]=kinds3[sym_choose(nb,sizeof(kinds3)/sizeof(int))];
		else k[i]=kinds4[sym_choose(nb,sizeof(kinds4)/sizeof(int))];
		snprintf(nb,40,"arg%d",i); v[i]=hAny(nb,k[i]);
		if(k[i]==0 && in(alloc,n->name->c)){ snprintf(nb,40,"size%d",i); int s=sym_choose(nb,12); if(s<10) v[i]=lValInt(s-1); else sym_assume(s==10 ? v[i].vInt<0 : v[i].vInt>INT32_MAX); }
	}
	for(int i=0;i<argc;i++) before[i]=shape(v[i],0);
	sym_limit(3000000,1);
	lVal r=call(n->f,v);
	sym_limit(0,0);
	int pure=0; { lVal p=lTreeRef(n->f->meta,lSymS("pure")); pure = p.type==ltBool && p.vBool; }
	sym_note(n->name->c);
	if(r.type==ltException){ sym_assert(r.vList!=NULL && wf(lValAlloc(ltPair,r.vList),0),"the exception is well-formed"); }
	else sym_assert(wf(r,0),"the result is well-formed");
	for(int i=0;i<argc;i++) sym_assert(wf(v[i],0),"arguments stay well-formed");
	for(int i=0;i<argc;i++) if(immutable(k[i]) || pure || r.type==ltException) sym_assert(shape(v[i],0)==before[i], pure ? "a pure function changes no argument" : r.type==ltException ? "a failing function changes no argument" : "what is immutable stays as it is");
	if(pure){
		lVal r2=call(n->f,v);
		if(r.type==ltException) sym_assert(r2.type==ltException && r2.vList->car.vSymbol==r.vList->car.vSymbol,"a pure function fails the same way again");
		else if(r.type!=ltBufferView) sym_assert(hSame(r,r2),"a pure function returns the same again");
	}
}
void hNativeInit(void){
	if(!lam.vPointer){ lam=hEval("(fn (a b) (+ a b))"); lDefineVal(hRoot,"sym/lam",lam); }
}
void hNativeCases(void){
	hNativeInit(); // hEval("(fn (a b) (+ a b))");
	char nm[40];
	for(int part=0;part<16;part++){
		snprintf(nm,40,"C30/%s-%d", part<8?"functions":"methods", part%8);
		if(!sym_case(nm)) continue;
		nNats=0;
		if(part<8) collect(hRoot->data,NOSELF,0);
		else for(int t=0;t<64;t++){ if(t!=ltFileHandle) collect(lClassList[t].methods,t,0); collect(lClassList[t].staticMethods,ltType,1); }
		int cnt=0; for(int i=part%8;i<nNats;i+=8) cnt++;
		int c=sym_choose("function",cnt);
		run(&nats[part%8+8*c],nm);
		sym_reach("end"); sym_end();
	}
}
