// Guest memory, interpreter, path forking (by process fork), built-ins and reporting.
#include "nsym.h"
#include "shared.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <errno.h>
#include <cmath>
#include <algorithm>
#include <functional>
#include <csignal>

Shared *gShared;
u8 *gValid, *gSym;
struct SymG { EP e[8]; u8 idx[8]; };
static std::unordered_map<u64, SymG> symMap;
static std::vector<Obj> objs;           // globals + heap, ascending by base
static std::vector<Obj> stackObjs;
static u64 bump, stackLo, stackTop;
static const u64 STACKSZ = 512ull<<20;
static int outFd = 2;
static int curCase = -1; static u64 caseDeadline = 0, pathInstrs = 0, caseInstrLimit = 0, defaultInstrLimit = 3000000000ull; static bool limitIsViolation = true;
static int sampleN = 4, maxViolPerCase = 3; static double caseSec = 300; static u64 globalDeadline = 0; static const u64 stopAfter = getenv("NSYM_STOP") ? strtoull(getenv("NSYM_STOP"),0,10) : 0; // for mutation campaigns
static std::string caseFilter; static bool allowExit = false; static int allowedExit = 0; static bool tracing = false; static u64 countedInstrs = 0;
static std::vector<std::pair<std::string,V>> symLog; static std::unordered_map<std::string,int> nameCount;
static std::vector<std::string> notes; static std::string knownTag;
static std::string hostArgs;
unsigned forkedConcurrent = 0;
extern unsigned gRlimit;

static u64 nowNs(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec*1000000000ull+t.tv_nsec; }
struct Frame { Func *f; const Ins *pc; V *R; i32 retd; u64 sp; size_t nso; std::vector<V> *va; };
static std::vector<Frame> frames; static V *regTop;

// ------------------------------------------------------------------ reporting
static std::string jesc(const std::string &s){ std::string o; char b[8]; for(unsigned char c: s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c<32||c>126){ snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o; }
static void emitLine(std::string s){ s += "\n"; (void)!write(outFd,s.data(),s.size()); }
static std::string backtrace_(){
	std::string s; int n=0;
	for(size_t i=frames.size(); i-->0 && n<10; n++){ char b[32]; u32 line = frames[i].pc ? frames[i].pc->line : 0; snprintf(b,32,":%u",line); if(n) s += " <- "; s += frames[i].f->name + b; }
	return s;
}
static std::string modelJson(const std::vector<u64> &m){
	std::string s="{"; char b[32];
	for(size_t i=0;i<gVars.size();i++){ snprintf(b,32,"%llu",(unsigned long long)(m[i]&maskw(gVars[i].w))); if(i) s+=","; s += "\""+jesc(gVars[i].name)+"\":\""+b+"\""; }
	return s+"}";
}
static std::string logJson(const std::vector<u64> &m){
	std::vector<u64> save=gModel; gModel=m; gEpoch++;
	std::string s="["; char b[32]; bool first=true;
	for(auto &p: symLog){ u64 v = p.second.e ? evalE(p.second.e) : p.second.c; snprintf(b,32,"%llu",(unsigned long long)v); if(!first) s+=","; first=false; s += "[\""+jesc(p.first)+"\",\""+b+"\"]"; }
	gModel=save; gEpoch++;
	return s+"]";
}
static bool tagOnce(const std::string &s);
static const char *caseName(){ return curCase>=0 ? gShared->cases[curCase].name : "init"; }
static void report(const char *kind, const std::string &msg, const std::vector<u64> &m){
	if(curCase>=0){ gShared->violations++; if(knownTag.empty()){ u64 k = gShared->cases[curCase].violations++; if(k >= (u64)maxViolPerCase) return; } else if(!tagOnce("known:"+std::string(caseName())+knownTag)) return; }
	std::string nt; for(auto &n: notes){ if(!nt.empty()) nt+="; "; nt+=n; }
	emitLine(std::string("{\"t\":\"viol\",\"case\":\"")+jesc(caseName())+"\",\"kind\":\""+kind+"\",\"msg\":\""+jesc(msg)+"\",\"loc\":\""+jesc(backtrace_())+"\",\"known\":\""+jesc(knownTag)+"\",\"notes\":\""+jesc(nt)+"\",\"model\":"+modelJson(m)+",\"log\":"+logJson(m)+"}");
}
[[noreturn]] static void finish(){ gShared->instrs += pathInstrs-countedInstrs; gShared->active--; _exit(0); }
static bool isSequentialChild = false;
[[noreturn]] static void die(){ gShared->instrs += pathInstrs-countedInstrs; if(!isSequentialChild) gShared->active--; _exit(0); }
[[noreturn]] static void endPath(const char *why){
	if(curCase<0){ fprintf(stderr,"nsym: path ended during initialisation: %s at %s\n",why,backtrace_().c_str()); gShared->engineErrors++; die(); }
	CaseStat &cs = gShared->cases[curCase];
	if(!strcmp(why,"done")){ cs.paths++; gShared->paths++;
		if((i64)cs.sampled.load() < sampleN && cs.sampled.fetch_add(1) < (u64)sampleN)
			emitLine(std::string("{\"t\":\"path\",\"case\":\"")+jesc(caseName())+"\",\"model\":"+modelJson(gModel)+",\"log\":"+logJson(gModel)+"}");
	} else if(!strcmp(why,"assume")) cs.assumeKills++;
	else if(!strcmp(why,"violation")){ cs.paths++; gShared->paths++; }
	else { cs.incomplete++; gShared->truncations++; 
		u64 h = std::hash<std::string>()(std::string(caseName())+why); for(unsigned i=0;i<64;i++){ auto &t = gShared->tags[(h+i)%8192]; u64 z=0; if(t==h) break; if(t.compare_exchange_strong(z,h)){ emitLine(std::string("{\"t\":\"incomplete\",\"case\":\"")+jesc(caseName())+"\",\"why\":\""+jesc(why)+"\",\"loc\":\""+jesc(backtrace_())+"\"}"); break; } } }
	if(curCase>=0) cs.endNs = nowNs();
	die();
}
[[noreturn]] static void violation(const char *kind, const std::string &msg){ report(kind,msg,gModel); if(curCase<0){ fprintf(stderr,"nsym: %s during initialisation: %s at %s\n",kind,msg.c_str(),backtrace_().c_str()); gShared->engineErrors++; die(); } endPath("violation"); }

// ------------------------------------------------------------------ forking
static void onAlarm(int){ if(curCase>=0) gShared->cases[curCase].incomplete++; gShared->truncations++; if(!isSequentialChild) gShared->active--; _exit(0); }
static void armAlarm(){
	u64 d = caseDeadline ? caseDeadline : globalDeadline; if(globalDeadline && globalDeadline<d) d=globalDeadline; if(!d) return;
	u64 n = nowNs(); u64 left = d>n ? d-n : 1000000; itimerval it{}; it.it_value.tv_sec = left/1000000000ull; it.it_value.tv_usec = (left%1000000000ull)/1000+1; setitimer(ITIMER_REAL,&it,nullptr);
}
// returns 0 in the child
static int forkState(){
	gShared->instrs += pathInstrs-countedInstrs; countedInstrs=pathInstrs;
	gShared->forks++;
	bool conc=false; i64 a = gShared->active.load();
	while(a < gShared->maxActive){ if(gShared->active.compare_exchange_weak(a,a+1)){ conc=true; break; } }
	pid_t p; int tries=0;
	while((p=fork())<0){ usleep(2000); if(++tries>5000){ gShared->engineErrors++; if(conc) gShared->active--; endPath("fork failed"); } }
	if(p==0){ isSequentialChild = !conc; armAlarm(); return 0; }
	if(!conc){ int st; itimerval z{}; setitimer(ITIMER_REAL,&z,nullptr); while(waitpid(p,&st,0)<0 && errno==EINTR){} if(!WIFEXITED(st) || WEXITSTATUS(st)!=0){ gShared->engineErrors++; if(curCase>=0) gShared->cases[curCase].incomplete++; } armAlarm(); }
	return p;
}
static void checkStop(){
	if(gShared->stop) endPath("stopped");
	u64 n=nowNs(); if((caseDeadline && n>caseDeadline) || (globalDeadline && n>globalDeadline)) endPath("time budget");
	if(curCase>=0 && (gShared->cases[curCase].violations >= (u64)maxViolPerCase || (stopAfter && gShared->violations >= stopAfter))) endPath("enough violations");
}
static void addPC(EP c){ if(c->op!=E_CONST) { for(EP p: gPC) if(p==c) return; gPC.push_back(c); } }
static u64 instrBase=0;
static bool branch(EP c){
	if(c->op==E_CONST) return c->c;
	if(c->w!=1){ fprintf(stderr,"engine: branch on a %u-bit value %s at %s\n",c->w,eStr(c).c_str(),backtrace_().c_str()); abort(); }
	gShared->symBranches++;
	bool b = evalE(c);
	EP mine = b ? c : eNot(c), other = b ? eNot(c) : c;
	std::vector<u64> m;
	SatRes r = solve(other, m);
	if(r==SAT_UNKNOWN){ if(curCase>=0) gShared->cases[curCase].unknown++; addPC(mine); return b; }
	if(r==SAT_NO){ return b; }
	checkStop();
	if(forkState()==0){ addPC(mine); instrBase=0; return b; }
	addPC(other); gModel = m; gEpoch++;
	return !b;
}
static u64 concretize(EP e, int cap, const char *what){
	if(e->op==E_CONST) return e->c;
	for(int n=0;;n++){
		u64 v = evalE(e);
		if(n>=cap){ endPath(what); }
		if(branch(eBin(E_EQ,e,eConst(v,e->w)))) return v;
	}
}
static void assumeE(EP c){
	if(c->op==E_CONST){ if(!c->c) endPath("assume"); return; }
	if(!evalE(c)){ std::vector<u64> m; SatRes r=solve(c,m); if(r==SAT_NO) endPath("assume"); if(r==SAT_UNKNOWN){ if(curCase>=0) gShared->cases[curCase].unknown++; endPath("assume unknown"); } gModel=m; gEpoch++; }
	addPC(c);
}

// ------------------------------------------------------------------ memory
void memInit(){
	void *p = mmap((void*)GBASE, GSIZE, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
	if(p==MAP_FAILED){ perror("mmap arena"); exit(2); }
	madvise(p,GSIZE,MADV_NOHUGEPAGE);
	gValid = (u8*)mmap(nullptr, GSIZE/8, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	gSym = (u8*)mmap(nullptr, GSIZE/8, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	stackLo = GBASE + 4096; stackTop = stackLo; bump = stackLo + STACKSZ + 4096;
}
static void setValid(u64 a, u64 n){ u64 g=(a-GBASE)>>3; memset(gValid+g,8,n/8); if(n%8) gValid[g+n/8]=n%8; }
static void clrValid(u64 a, u64 n){ u64 g=(a-GBASE)>>3; memset(gValid+g,0,(n+7)/8); }
static void clrSymRange(u64 a, u64 n){ // make bytes concrete
	if(!n) return; u64 g0=(a-GBASE)>>3, g1=(a+n-1-GBASE)>>3;
	for(u64 g=g0; g<=g1; g++){ if(!gSym[g]) continue; u8 m=0; for(int b=0;b<8;b++){ u64 ad=GBASE+g*8+b; if(ad>=a && ad<a+n) m|=1<<b; } gSym[g]&=~m; if(!gSym[g]) symMap.erase(g); }
}
u64 gAlloc(u64 size, u64 align, char kind, const std::string &name){
	if(align<16) align=16;
	u64 a = (bump + align-1) & ~(align-1);
	bump = ((a + size + 15) & ~15ull) + 32;
	if(bump >= GBASE+GSIZE-(1<<20)){ if(curCase>=0) endPath("guest memory exhausted"); fprintf(stderr,"guest memory exhausted\n"); exit(2); }
	setValid(a,size);
	objs.push_back(Obj{a,size,(u8)kind,true,name});
	return a;
}
static Obj *findObj(u64 a){
	if(a>=stackLo && a<stackLo+STACKSZ){ for(size_t i=stackObjs.size(); i-->0;) if(a>=stackObjs[i].base && a<stackObjs[i].base+stackObjs[i].size) return &stackObjs[i]; return nullptr; }
	size_t lo=0, hi=objs.size();
	while(lo<hi){ size_t m=(lo+hi)/2; if(objs[m].base<=a) lo=m+1; else hi=m; }
	if(!lo) return nullptr; Obj &o=objs[lo-1]; if(a<o.base+o.size && o.live) return &o; return nullptr;
}
u64 externVarAddr(const std::string &name, u64 size){ return gAlloc(size<8?8:size,16,'g',name); }
static std::string ptrDesc(u64 a){
	char b[200]; if(a<4096){ snprintf(b,200,"null+%llu",(unsigned long long)a); return b; }
	if(a>=stackLo && a<stackLo+STACKSZ) return "stack address outside any live variable";
	size_t lo=0, hi=objs.size(); while(lo<hi){ size_t m=(lo+hi)/2; if(objs[m].base<=a) lo=m+1; else hi=m; }
	if(!lo || a>=GBASE+GSIZE) { snprintf(b,200,"wild address 0x%llx",(unsigned long long)a); return b; }
	Obj &o=objs[lo-1]; i64 off=a-o.base;
	snprintf(b,200,"%s object of %llu bytes%s%s%s, offset %lld", o.kind=='g'?"global":"heap",(unsigned long long)o.size, o.name.empty()?"":" ",o.name.c_str(), o.live?"":" (freed)", (long long)off);
	if(lo<objs.size() && objs[lo].base - a < 64) { char c[100]; snprintf(c,100," (%llu before next object %s)",(unsigned long long)(objs[lo].base-a),objs[lo].name.c_str()); return std::string(b)+c; }
	return b;
}
static inline bool validRange(u64 a, u64 n){ // concrete range check
	if(a-GBASE >= GSIZE || n>GSIZE || a+n-GBASE > GSIZE) return false;
	while(n){ u64 g=(a-GBASE)>>3; unsigned b=a&7; unsigned k=8-b; if(k>n) k=n; if(b+k>gValid[g]) return false; a+=k; n-=k; }
	return true;
}
static void memErr(u64 a, u64 n, bool w){ char b[64]; snprintf(b,64,"invalid %s of %llu bytes: ",w?"write":"read",(unsigned long long)n); violation(w?"memory-write":"memory-read", std::string(b)+ptrDesc(a)); }
static inline void byteAt(u64 a, EP &e, u8 &idx, u8 &conc){
	u64 g=(a-GBASE)>>3; unsigned b=a&7;
	if(gSym[g]>>b&1){ SymG &s=symMap[g]; e=s.e[b]; idx=s.idx[b]; } else { e=nullptr; conc=*(u8*)a; }
}
static inline void putByte(u64 a, EP e, u8 idx){ u64 g=(a-GBASE)>>3; unsigned b=a&7; SymG &s=symMap[g]; s.e[b]=e; s.idx[b]=idx; gSym[g]|=1<<b; }
static inline void putConc(u64 a, u8 v){ u64 g=(a-GBASE)>>3; unsigned b=a&7; *(u8*)a=v; if(gSym[g]>>b&1){ gSym[g]&=~(1<<b); if(!gSym[g]) symMap.erase(g); } }
static V loadSlow(u64 a, unsigned n, unsigned w){
	if(!validRange(a,n)) memErr(a,n,false);
	bool any=false; for(unsigned i=0;i<n;i++){ u64 x=a+i; if(gSym[(x-GBASE)>>3]>>(x&7)&1){ any=true; break; } }
	if(!any){ u64 v=0; memcpy(&v,(void*)a,n); return V{v&maskw(w),nullptr}; }
	EP e0; u8 i0,c0; byteAt(a,e0,i0,c0);
	if(e0 && i0==0 && e0->w==8*n){ bool all=true; for(unsigned i=1;i<n;i++){ EP e; u8 ix,c; byteAt(a+i,e,ix,c); if(e!=e0||ix!=i){all=false;break;} } if(all){ EP r = w<e0->w ? eExtract(e0,0,w) : e0; return V{0,r}; } }
	EP r=nullptr;
	for(unsigned i=0;i<n;i++){ EP e; u8 ix,c=0; byteAt(a+i,e,ix,c); EP be = e ? eExtract(e,ix*8,8) : eConst(c,8); r = r ? eConcat(be,r) : be; }
	if(w<r->w) r=eExtract(r,0,w);
	if(r->op==E_CONST) return V{r->c,nullptr};
	return V{0,r};
}
static inline V loadC(u64 a, unsigned n, unsigned w){
	u64 o=a-GBASE;
	if(__builtin_expect(o<GSIZE,1)){ u64 g=o>>3; unsigned b=a&7; if(b+n<=gValid[g] && !gSym[g]){ u64 v; switch(n){case 8:v=*(u64*)a;break;case 4:v=*(u32*)a;break;case 2:v=*(u16*)a;break;case 1:v=*(u8*)a;break;default: v=0; memcpy(&v,(void*)a,n);} return V{n==1?v&maskw(w):v,nullptr}; } }
	return loadSlow(a,n,w);
}
static void storeC(u64 a, unsigned n, unsigned w, V v){
	u64 o=a-GBASE;
	if(__builtin_expect(a>=gRoLo && a<gRoHi,0)) violation("memory-write", "write to read-only data: "+ptrDesc(a));
	if(__builtin_expect(o<GSIZE && !v.e,1)){ u64 g=o>>3; unsigned b=a&7; if(b+n<=gValid[g] && !gSym[g]){ switch(n){case 8:*(u64*)a=v.c;break;case 4:*(u32*)a=v.c;break;case 2:*(u16*)a=v.c;break;case 1:*(u8*)a=v.c;break;default: memcpy((void*)a,&v.c,n);} return; } }
	if(!validRange(a,n)) memErr(a,n,true);
	if(!v.e){ for(unsigned i=0;i<n;i++) putConc(a+i,(u8)(v.c>>(8*i))); return; }
	EP e=v.e; if(e->w<8*n) e=eZext(e,8*n);
	if(e->op==E_CONST){ for(unsigned i=0;i<n;i++) putConc(a+i,(u8)(e->c>>(8*i))); return; }
	for(unsigned i=0;i<n;i++){ EP be=eExtract(e,8*i,8); if(be->op==E_CONST) putConc(a+i,be->c); else if(n==1) putByte(a,e,0); else putByte(a+i,e,i); }
}
// Constrain a symbolic address to one object (forking over the objects it may denote); reports a violation
// for any feasible value outside every live object.
static Obj resolve(EP addr, u64 n, bool wr){
	for(int round=0; round<64; round++){
		u64 a=evalE(addr); Obj *po=findObj(a);
		if(!po || a+n>po->base+po->size) { 
			// this very value is invalid: report, then continue with the other values, if any
			report(wr?"memory-write":"memory-read", (wr?std::string("invalid write"):std::string("invalid read"))+" at symbolic address: "+ptrDesc(a), gModel);
			if(!po) endPath("violation");
			Obj o=*po; EP in = o.size>=n ? eBin(E_ULE, eBin(E_SUB,addr,eConst(o.base,64)), eConst(o.size-n,64)) : eConst(0,1);
			assumeE(in); return o;
		}
		Obj o=*po;
		EP in = eBin(E_ULE, eBin(E_SUB,addr,eConst(o.base,64)), eConst(o.size-n,64));
		if(in->op==E_CONST && in->c) return o;
		std::vector<u64> m; SatRes r=solve(eNot(in),m);
		if(r==SAT_UNKNOWN){ if(curCase>=0) gShared->cases[curCase].unknown++; addPC(in); return o; }
		if(r==SAT_NO) return o;
		checkStop();
		if(forkState()==0){ addPC(in); return o; }
		addPC(eNot(in)); gModel=m; gEpoch++;
	}
	endPath("too many objects behind one symbolic pointer");
}
static V loadS(EP addr, unsigned n, unsigned w){
	Obj o=resolve(addr,n,false);
	EP off=eBin(E_SUB,addr,eConst(o.base,64));
	if(off->op==E_CONST) return loadC(o.base+off->c,n,w);
	u64 kz=knownZero(off); unsigned tz = ~kz ? __builtin_ctzll(~kz) : 0; if(tz>6) tz=6;
	u64 stride=1ull<<tz;
	std::vector<u64> cand;
	if(o.size/stride<=72){ for(u64 x=0;x+n<=o.size;x+=stride) cand.push_back(x); }
	else { // enumerate feasible offsets
		std::vector<u64> save=gModel; EP ne=eConst(1,1); std::vector<u64> m=gModel; bool full=false;
		size_t lim = 40;
		for(;;){ std::vector<u64> s2=gModel; gModel=m; gEpoch++; u64 v=evalE(off); gModel=s2; gEpoch++; cand.push_back(v); ne=eBin(E_AND,ne,eNot(eBin(E_EQ,off,eConst(v,64)))); if(cand.size()>=lim) break; SatRes r=solve(ne,m); if(r!=SAT_YES){ full=(r==SAT_NO); break; } }
		if(!full){ cand.clear(); if(o.size/stride<=8192){ for(u64 x=0;x+n<=o.size;x+=stride) cand.push_back(x); } else { u64 c=concretize(off,128,"symbolic read offset"); return loadC(o.base+c,n,w); } }
	}
	// group equal values
	std::map<std::pair<u64,EP>, std::vector<u64>> groups;
	for(u64 x: cand){ V v=loadC(o.base+x,n,w); groups[{v.e?0:v.c,v.e}].push_back(x); }
	// biggest group is the default
	auto best=groups.begin(); for(auto it=groups.begin();it!=groups.end();++it) if(it->second.size()>best->second.size()) best=it;
	EP r = best->first.second ? best->first.second : eConst(best->first.first,w);
	for(auto it=groups.begin();it!=groups.end();++it){ if(it==best) continue;
		EP val = it->first.second ? it->first.second : eConst(it->first.first,w); EP c=eConst(0,1);
		// contiguous runs become range tests
		auto &xs=it->second; for(size_t i=0;i<xs.size();){ size_t j=i; while(j+1<xs.size() && xs[j+1]==xs[j]+stride) j++; 
			if(j==i) c=eBin(E_OR,c,eBin(E_EQ,off,eConst(xs[i],64))); else c=eBin(E_OR,c,eBin(E_AND,eBin(E_ULE,eConst(xs[i],64),off),eBin(E_ULE,off,eConst(xs[j],64)))); i=j+1; }
		r=eIte(c,val,r); }
	if(r->op==E_CONST) return V{r->c,nullptr};
	return V{0,r};
}
static void storeS(EP addr, unsigned n, unsigned w, V v){
	resolve(addr,n,true);
	u64 a=concretize(addr,300,"symbolic write offset"); storeC(a,n,w,v);
}
static void memCopy(u64 d, u64 s, u64 n){
	if(!n) return;
	if(!validRange(s,n)) memErr(s,n,false);
	if(!validRange(d,n)) memErr(d,n,true);
	if(d>=gRoLo && d<gRoHi) violation("memory-write","write to read-only data: "+ptrDesc(d));
	bool any=false; for(u64 g=(s-GBASE)>>3, e=(s+n-1-GBASE)>>3; g<=e; g++) if(gSym[g]){any=true;break;}
	if(!any){ clrSymRange(d,n); memmove((void*)d,(void*)s,n); return; }
	std::vector<EP> es(n); std::vector<u8> ix(n),cc(n); for(u64 i=0;i<n;i++) byteAt(s+i,es[i],ix[i],cc[i]);
	for(u64 i=0;i<n;i++) if(es[i]) putByte(d+i,es[i],ix[i]); else putConc(d+i,cc[i]);
}
static void memSet(u64 d, V v, u64 n){
	if(!n) return; if(!validRange(d,n)) memErr(d,n,true); if(d>=gRoLo && d<gRoHi) violation("memory-write","write to read-only data");
	if(!v.e){ clrSymRange(d,n); memset((void*)d,(u8)v.c,n); } else for(u64 i=0;i<n;i++) putByte(d+i,eExtract(v.e,0,8),0);
}
static void gFree(u64 a){
	if(!a) return; Obj *o=findObj(a);
	if(!o || o->kind!='h' || o->base!=a) violation("bad-free","free of an invalid pointer: "+ptrDesc(a));
	clrSymRange(a,o->size); clrValid(a,o->size); o->live=false;
}
static u64 gMalloc(u64 n, bool zero){
	if(n > (1ull<<31)) return 0;    // like a failing malloc
	u64 a=gAlloc(n?n:1,16,'h',""); if(!n){ clrValid(a,1); objs.back().size=0; }
	// zero-size blocks keep their base for free()
	if(!n){ objs.back().size=1; }
	if(!zero && n && n<=65536) memset((void*)a,0xCD,n);
	return a;
}
static std::string cstr(u64 a, size_t max=4096){ std::string s; for(size_t i=0;i<max;i++){ V c=loadC(a+i,1,8); if(c.e){ s+='?'; continue; } if(!c.c) break; s+=(char)c.c; } return s; }

// ------------------------------------------------------------------ built-ins
typedef V (*BI)(std::vector<V>&a);
static inline EP ex(V v, unsigned w){ return v.e ? (v.e->w==w ? v.e : v.e->w<w ? eZext(v.e,w) : eExtract(v.e,0,w)) : eConst(v.c,w); }
static inline V mk(EP e){ return e->op==E_CONST ? V{e->c,nullptr} : V{0,e}; }
static u64 conc(V v, const char *what="concretised value"){ return v.e ? concretize(v.e,64,what) : v.c; }
static V newVar(const std::string &base, unsigned w){
	int k=nameCount[base]++; std::string nm = k ? base+"#"+std::to_string(k) : base;
	gVars.push_back(VarInfo{nm,(u8)w}); gModel.push_back(0); gEpoch++;
	return V{0,eVar(gVars.size()-1,w)};
}
static EP truth(V v){ if(!v.e) return eConst(v.c!=0,1); return eNot(eBin(E_EQ,v.e,eConst(0,v.e->w))); }
static double toD(u64 v){ double d; memcpy(&d,&v,8); return d; } static u64 frD(double d){ u64 v; memcpy(&v,&d,8); return v; }
static V math1(V v, double(*f)(double)){ u64 x=conc(v,"libm call on a symbolic value"); return V{frD(f(toD(x))),nullptr}; }
static bool tagOnce(const std::string &s){ u64 h=std::hash<std::string>()(s)|1; for(unsigned i=0;i<256;i++){ auto &t=gShared->tags[(h+i)%8192]; u64 z=0; if(t==h) return false; if(t.compare_exchange_strong(z,h)) return true; } return false; }
static std::unordered_map<std::string,BI> builtins;
static std::vector<BI> biTable; static std::vector<std::string> biName;

static V b_case(std::vector<V>&a){
	std::string n=cstr(a[0].c);
	if(!caseFilter.empty()){ // comma separated prefixes, a leading = asks for an exact match
		bool ok=false; size_t p=0; while(p<=caseFilter.size()){ size_t q=caseFilter.find(',',p); if(q==std::string::npos) q=caseFilter.size(); std::string f=caseFilter.substr(p,q-p); if(!f.empty()){ if(f[0]=='=') ok|=(n==f.substr(1)); else ok|=(n.compare(0,f.size(),f)==0); } p=q+1; }
		if(!ok) return V{0,nullptr}; }
	if(curCase>=0){ fprintf(stderr,"nested case\n"); gShared->engineErrors++; die(); }
	u32 idx=gShared->ncases++; if(idx>=1024){ gShared->engineErrors++; die(); } strncpy(gShared->cases[idx].name,n.c_str(),95); gShared->cases[idx].started=nowNs();
	if(forkState()==0){ curCase=idx; gShared->cases[idx].started=nowNs(); caseDeadline=nowNs()+(u64)(caseSec*1e9); pathInstrs=0; countedInstrs=0; caseInstrLimit=defaultInstrLimit; armAlarm(); return V{1,nullptr}; }
	return V{0,nullptr};
}
static V b_end(std::vector<V>&){ endPath("done"); }
static V b_int(std::vector<V>&a){ unsigned w=(unsigned)a[1].c; V v=newVar(cstr(a[0].c),w); return mk(eZext(v.e,64)); }
static V b_sint(std::vector<V>&a){ unsigned w=(unsigned)a[1].c; V v=newVar(cstr(a[0].c),w); return mk(eSext(v.e,64)); }
static V b_bytes(std::vector<V>&a){ std::string n=cstr(a[2].c); u64 k=conc(a[1]); if(!validRange(a[0].c,k)) memErr(a[0].c,k,true); for(u64 i=0;i<k;i++){ V v=newVar(n+"["+std::to_string(i)+"]",8); storeC(a[0].c+i,1,8,v); } return V{0,nullptr}; }
static V b_choose(std::vector<V>&a){ u64 k=conc(a[1]); V v=newVar(cstr(a[0].c),32); EP c=eBin(E_ULT,v.e,eConst(k,32)); assumeE(c); u64 r=concretize(v.e,(int)k+1,"choose"); gModel[gVars.size()-1]=r; gEpoch++; return V{r,nullptr}; }
static V b_assume(std::vector<V>&a){ assumeE(truth(a[0])); return V{0,nullptr}; }
static V b_assert(std::vector<V>&a){
	std::string id=cstr(a[1].c); gShared->asserts++; if(curCase>=0) gShared->cases[curCase].asserts++;
	EP c=truth(a[0]);
	if(c->op==E_CONST){ if(!c->c){ report("assert",id,gModel); endPath("violation"); } return V{0,nullptr}; }
	gShared->assertQueries++;
	if(!evalE(c)){ report("assert",id,gModel); std::vector<u64> m; if(solve(c,m)==SAT_YES){ gModel=m; gEpoch++; addPC(c); return V{0,nullptr}; } endPath("violation"); }
	std::vector<u64> m; SatRes r=solve(eNot(c),m);
	if(r==SAT_YES) report("assert",id,m);
	else if(r==SAT_UNKNOWN){ if(curCase>=0) gShared->cases[curCase].unknown++; if(tagOnce(std::string("unk")+caseName()+id)) emitLine(std::string("{\"t\":\"unknown\",\"case\":\"")+jesc(caseName())+"\",\"msg\":\""+jesc(id)+"\"}"); }
	if(r!=SAT_NO) addPC(c);
	return V{0,nullptr};
}
static V b_reach(std::vector<V>&a){ std::string t=cstr(a[0].c); if(tagOnce(std::string("reach:")+caseName()+":"+t)) emitLine(std::string("{\"t\":\"reach\",\"case\":\"")+jesc(caseName())+"\",\"tag\":\""+jesc(t)+"\"}"); return V{0,nullptr}; }
static V b_log(std::vector<V>&a){ symLog.push_back({cstr(a[0].c),a[1]}); return V{0,nullptr}; }
static V b_note(std::vector<V>&a){ notes.push_back(cstr(a[0].c)); return V{0,nullptr}; }
static V b_known(std::vector<V>&a){ std::string t=cstr(a[0].c); EP c=truth(a[1]); if(branch(c)) knownTag=t; return V{0,nullptr}; }
static V b_concretize(std::vector<V>&a){ return V{a[0].e?concretize(a[0].e,256,"sym_concretize"):a[0].c,nullptr}; }
static V b_hostread(std::vector<V>&a){ std::string p=cstr(a[0].c); int fd=open(p.c_str(),O_RDONLY); if(fd<0) return V{0,nullptr}; struct stat st; fstat(fd,&st); u64 g=gMalloc(st.st_size+1,true); ssize_t k=read(fd,(void*)g,st.st_size); close(fd); storeC(a[1].c,8,64,V{(u64)k,nullptr}); return V{g,nullptr}; }
static V b_limit(std::vector<V>&a){ caseInstrLimit=pathInstrs+(a[0].c?a[0].c:defaultInstrLimit); limitIsViolation=a[0].c?a[1].c:true; return V{0,nullptr}; }
static V b_allowexit(std::vector<V>&a){ allowExit=a[0].c; return V{0,nullptr}; }
static V b_zero(std::vector<V>&){ return V{0,nullptr}; }
static V b_exit(std::vector<V>&a){ if(allowExit && curCase>=0) endPath("done"); char b[64]; snprintf(b,64,"exit(%d) called",(int)conc(a[0])); if(curCase<0) fprintf(stderr,"%s\n",b); violation("exit",b); }
static V b_abort(std::vector<V>&){ violation("abort","abort() called"); }
static V b_malloc(std::vector<V>&a){ return V{gMalloc(conc(a[0],"symbolic allocation size"),false),nullptr}; }
static V b_calloc(std::vector<V>&a){ u64 x=conc(a[0],"symbolic allocation size"),y=conc(a[1],"symbolic allocation size"); unsigned __int128 t=(unsigned __int128)x*y; if(t>(1ull<<31)) return V{0,nullptr}; return V{gMalloc((u64)t,true),nullptr}; }
static V b_realloc(std::vector<V>&a){ u64 p=conc(a[0]),n=conc(a[1],"symbolic allocation size"); if(!p) return V{gMalloc(n,false),nullptr}; Obj *o=findObj(p); if(!o||o->base!=p||o->kind!='h') violation("bad-free","realloc of an invalid pointer: "+ptrDesc(p)); if(!n){ gFree(p); return V{0,nullptr}; } u64 os=o->size; u64 q=gMalloc(n,false); if(!q) return V{0,nullptr}; if(validRange(p,1)) memCopy(q,p,std::min(os,n)); gFree(p); return V{q,nullptr}; }
static V b_free(std::vector<V>&a){ gFree(conc(a[0])); return V{0,nullptr}; }
static void chkOverlap(u64 d, u64 s, u64 n){ if(n && d!=s && (d<s ? s-d<n : d-s<n)) violation("memcpy-overlap","memcpy between overlapping ranges of "+std::to_string(n)+" bytes: "+ptrDesc(d)); }
static V b_memmove(std::vector<V>&a){ u64 n=conc(a[2],"symbolic copy length"); memCopy(conc(a[0]),conc(a[1]),n); return a[0]; }
static V b_memcpy(std::vector<V>&a){ u64 n=conc(a[2],"symbolic copy length"); u64 d=conc(a[0]), s=conc(a[1]); chkOverlap(d,s,n); memCopy(d,s,n); return a[0]; }
static V b_memset(std::vector<V>&a){ u64 n=conc(a[2],"symbolic length"); memSet(conc(a[0]),a[1],n); return a[0]; }
static V b_clock(std::vector<V>&a){ if(a[1].c){ storeC(a[1].c,8,64,V{1000,nullptr}); storeC(a[1].c+8,8,64,V{0,nullptr}); } return V{0,nullptr}; }
static V b_time(std::vector<V>&a){ return V{1700000000,nullptr}; }
static V b_pow(std::vector<V>&a){ return V{frD(pow(toD(conc(a[0],"pow on a symbolic value")),toD(conc(a[1],"pow on a symbolic value")))),nullptr}; }
static V b_fmod(std::vector<V>&a){ return V{frD(fmod(toD(conc(a[0],"fmod on a symbolic value")),toD(conc(a[1],"fmod on a symbolic value")))),nullptr}; }
static V b_atan2(std::vector<V>&a){ return V{frD(atan2(toD(conc(a[0])),toD(conc(a[1])))),nullptr}; }
static V b_fmtd(std::vector<V>&a){ // nsym_fmt_double(buf,n,fmt,double): concrete host formatting, returns the untruncated length
	std::string f=cstr(a[2].c); double d=toD(conc(a[3],"printing a symbolic double")); u64 n=a[1].c; std::vector<char> b(n+1); int r=snprintf(b.data(),n,f.c_str(),d); u64 w = n ? std::min<u64>(n,(u64)r+1) : 0; for(u64 i=0;i<w;i++) storeC(a[0].c+i,1,8,V{(u8)b[i],nullptr}); return V{(u64)(i64)r,nullptr}; }
static V b_strtod(std::vector<V>&a){ std::string s=cstr(conc(a[0])); char *e; double d=strtod(s.c_str(),&e); if(a[1].c) storeC(a[1].c,8,64,V{a[0].c+(e-s.c_str()),nullptr}); return V{frD(d),nullptr}; }
static V b_sqrt(std::vector<V>&a){ if(!a[0].e) return V{frD(sqrt(toD(a[0].c))),nullptr}; return mk(eUn(E_FSQRT,a[0].e,64)); }
static V b_rnd(V v,int k,unsigned w=64){ if(w==32) return mk(eUn(E_FTRUNC,eUn(E_FRND,eUn(E_FEXT,ex(v,32),64),64,k),32)); return mk(eUn(E_FRND,ex(v,64),64,k)); }
static V b_putdbg(std::vector<V>&a){ std::string s=cstr(a[0].c); fprintf(stderr,"[guest] %s\n",s.c_str()); return V{0,nullptr}; }
static V b_issym(std::vector<V>&a){ return V{a[0].e!=nullptr,nullptr}; }
static V b_bindsym(std::vector<V>&a){ return V{0,nullptr}; }
static V b_hostarg(std::vector<V>&a){ u64 n=std::min<u64>(a[1].c,hostArgs.size()+1); for(u64 i=0;i<n;i++) storeC(a[0].c+i,1,8,V{(u8)hostArgs.c_str()[i],nullptr}); return V{hostArgs.size(),nullptr}; }
static void initBuiltins(){
	auto &B=builtins;
	B["sym_case"]=b_case; B["sym_end"]=b_end; B["sym_int"]=b_int; B["sym_sint"]=b_sint; B["sym_bytes"]=b_bytes; B["sym_choose"]=b_choose; B["sym_assume"]=b_assume; B["sym_assert"]=b_assert; B["sym_reach"]=b_reach; B["sym_log"]=b_log; B["sym_note"]=b_note; B["sym_known"]=b_known; B["sym_concretize"]=b_concretize; B["sym_host_read"]=b_hostread; B["sym_limit"]=b_limit; B["sym_allow_exit"]=b_allowexit; B["sym_debug"]=b_putdbg; B["sym_is_symbolic"]=b_issym; B["sym_host_arg"]=b_hostarg;
	B["sym_is_native"]=b_zero;
	B["exit"]=b_exit; B["_exit"]=b_exit; B["abort"]=b_abort; B["__assert_fail"]=b_abort; B["malloc"]=b_malloc; B["calloc"]=b_calloc; B["realloc"]=b_realloc; B["free"]=b_free; B["memcpy"]=b_memcpy; B["memmove"]=b_memmove; B["memset"]=b_memset;
	B["atexit"]=b_zero; B["clock_gettime"]=b_clock; B["time"]=b_time; B["setvbuf"]=b_zero;
	B["pow"]=b_pow; B["fmod"]=b_fmod; B["atan2"]=b_atan2; B["sqrt"]=b_sqrt; B["nsym_fmt_double"]=b_fmtd; B["strtod"]=b_strtod;
	B["sin"]=[](std::vector<V>&a){return math1(a[0],sin);}; B["cos"]=[](std::vector<V>&a){return math1(a[0],cos);}; B["tan"]=[](std::vector<V>&a){return math1(a[0],tan);}; B["cbrt"]=[](std::vector<V>&a){return math1(a[0],cbrt);}; B["log10"]=[](std::vector<V>&a){return math1(a[0],log10);}; B["log"]=[](std::vector<V>&a){return math1(a[0],log);}; B["exp"]=[](std::vector<V>&a){return math1(a[0],exp);};
	B["floor"]=[](std::vector<V>&a){return b_rnd(a[0],0);}; B["ceil"]=[](std::vector<V>&a){return b_rnd(a[0],1);}; B["trunc"]=[](std::vector<V>&a){return b_rnd(a[0],2);}; B["rint"]=[](std::vector<V>&a){return b_rnd(a[0],3);}; B["round"]=[](std::vector<V>&a){return b_rnd(a[0],4);};
}

// ------------------------------------------------------------------ interpreter
static inline void setR(V *R, i32 d, V v){ R[d]=v; }
static V symICmp(const Ins *i, V x, V y){
	EP a=ex(x,i->w), b=ex(y,i->w);
	switch(i->op){
	case I_EQ: return mk(eBin(E_EQ,a,b)); case I_NE: return mk(eNot(eBin(E_EQ,a,b)));
	case I_ULT: return mk(eBin(E_ULT,a,b)); case I_ULE: return mk(eBin(E_ULE,a,b)); case I_UGT: return mk(eBin(E_ULT,b,a)); case I_UGE: return mk(eBin(E_ULE,b,a));
	case I_SLT: return mk(eBin(E_SLT,a,b)); case I_SLE: return mk(eBin(E_SLE,a,b)); case I_SGT: return mk(eBin(E_SLT,b,a)); default: return mk(eBin(E_SLE,b,a));
	}
}
static V fcmp(unsigned pred, unsigned w, V x, V y){
	EP a=ex(x,w), b=ex(y,w); EP uno=nullptr; auto U=[&]{ return eBin(E_FUNO,a,b); };
	switch(pred){ // LLVM numbering
	case 0: return V{0,nullptr}; case 15: return V{1,nullptr};
	case 1: return mk(eBin(E_FEQ,a,b)); case 2: return mk(eBin(E_FLT,b,a)); case 3: return mk(eBin(E_FLE,b,a)); case 4: return mk(eBin(E_FLT,a,b)); case 5: return mk(eBin(E_FLE,a,b));
	case 6: return mk(eBin(E_AND,eNot(eBin(E_FEQ,a,b)),eNot(U()))); case 7: return mk(eNot(U())); case 8: return mk(U());
	case 9: return mk(eBin(E_OR,U(),eBin(E_FEQ,a,b))); case 10: return mk(eNot(eBin(E_FLE,a,b))); case 11: return mk(eNot(eBin(E_FLT,a,b))); case 12: return mk(eNot(eBin(E_FLE,b,a))); case 13: return mk(eNot(eBin(E_FLT,b,a)));
	case 14: return mk(eNot(eBin(E_FEQ,a,b))); }
	(void)uno; abort();
}
static void enter(Func *f, const std::vector<V> &args, i32 retd, std::vector<V>*va);
static u64 allocaMem(u64 sz, u64 al){
	u64 a=(stackTop+al-1)&~(al-1); stackTop=((a+sz+15)&~15ull)+16; if(stackTop>stackLo+STACKSZ-4096) violation("stack-overflow","guest stack exhausted");
	setValid(a,sz); stackObjs.push_back(Obj{a,sz,'s',true,frames.empty()?"":frames.back().f->name}); return a;
}
static void enter(Func *f, const std::vector<V> &args, i32 retd, std::vector<V>*va){
	Frame fr; fr.f=f; fr.R=regTop; fr.retd=retd; fr.sp=stackTop; fr.nso=stackObjs.size(); fr.pc=nullptr; fr.va=va;
	if(frames.size()>60000) violation("stack-overflow","call depth over 60000");
	regTop += f->nregs;
	if(f->id<8192 && !gShared->fnSeen[f->id] && curCase>=0) gShared->fnSeen[f->id]=1;
	frames.push_back(fr);
	size_t k=0;
	for(auto &p: f->params){ 
		if(p.byval){ u64 src = k<args.size()? args[k].c : 0; u64 m=allocaMem(p.size,16); memCopy(m,src,p.size); fr.R[p.op]=V{m,nullptr}; k++; continue; }
		for(unsigned q=0;q<p.n;q++){ fr.R[p.op+q] = k<args.size() ? args[k] : V{0,nullptr}; k++; } }
	frames.back().pc=f->code.data();
}
static void run(size_t depth){
	std::vector<V> args; args.reserve(32);
	Frame *fr=&frames.back(); V *R=fr->R; const V *K=fr->f->consts.data(); const Ins *pc=fr->pc; u64 n=0;
	#define OP(x) ((x)>=0 ? R[x] : K[-(x)-1])
	#define SYNC() (fr->pc=pc)
	#define TAKE(edge) do{ const Edge &E_=(edge); if(!E_.copies.empty()){ if(E_.copies.size()==1){ R[E_.copies[0].second]=OP(E_.copies[0].first); } else { V tmp[64]; size_t nc=E_.copies.size(); if(nc>64) abort(); for(size_t q=0;q<nc;q++) tmp[q]=OP(E_.copies[q].first); for(size_t q=0;q<nc;q++) R[E_.copies[q].second]=tmp[q]; } } pc=E_.target; }while(0)
	#define BINOP(OPI,EXPRC,EOPC) case OPI: { V x=OP(pc->a), y=OP(pc->b); if(!x.e && !y.e) R[pc->d]=V{(EXPRC)&pc->imm,nullptr}; else { SYNC(); R[pc->d]=mk(eBin(EOPC,ex(x,pc->w),ex(y,pc->w))); } pc++; break; }
	#define CMP(OPI,EXPRC) case OPI: { V x=OP(pc->a), y=OP(pc->b); if(!x.e && !y.e) R[pc->d]=V{(u64)(EXPRC),nullptr}; else R[pc->d]=symICmp(pc,x,y); pc++; break; }
	for(;;){
		n++;
		if(__builtin_expect((n&0xfffff)==0,0)){ pathInstrs+=n; n=0; SYNC(); if(caseInstrLimit && pathInstrs>caseInstrLimit){ if(limitIsViolation) violation("nontermination","instruction limit exceeded"); endPath("instruction limit"); } if(curCase>=0) { u64 t=nowNs(); if((caseDeadline&&t>caseDeadline)||(globalDeadline&&t>globalDeadline)) endPath("time budget"); } }
		switch(pc->op){
		case I_NOP: pc++; break;
		BINOP(I_ADD, x.c+y.c, E_ADD) BINOP(I_SUB, x.c-y.c, E_SUB) BINOP(I_MUL, x.c*y.c, E_MUL)
		BINOP(I_AND, x.c&y.c, E_AND) BINOP(I_OR, x.c|y.c, E_OR) BINOP(I_XOR, x.c^y.c, E_XOR)
		case I_SHL: case I_LSHR: case I_ASHR: {
			V x=OP(pc->a), y=OP(pc->b); SYNC(); EOp o = pc->op==I_SHL?E_SHL:pc->op==I_LSHR?E_LSHR:E_ASHR;
			// x86 masks the shift amount; a larger amount is undefined behaviour in C, and this is what the shipped build does
			unsigned mb = pc->w==64?63:pc->w==32?31:(pc->w-1);
			if(!x.e && !y.e) R[pc->d]=V{foldBin(o,x.c,(pc->w==64||pc->w==32)?(y.c&mb):y.c,pc->w),nullptr};
			else { EP ye=ex(y,pc->w); if(pc->w==64||pc->w==32) ye=eBin(E_AND,ye,eConst(mb,pc->w)); R[pc->d]=mk(eBin(o,ex(x,pc->w),ye)); }
			pc++; break; }
		case I_BIN: { // divisions
			V x=OP(pc->a), y=OP(pc->b); SYNC(); EOp o=(EOp)pc->imm; unsigned w=pc->w;
			EP ye=ex(y,w), xe=ex(x,w);
			EP z=eBin(E_EQ,ye,eConst(0,w));
			if(z->op==E_CONST ? z->c : branch(z)) violation("div-by-zero","integer division by zero");
			if((o==E_SDIV||o==E_SREM) && w>=32){ EP ov=eBin(E_AND,eBin(E_EQ,ye,eConst(~0ull,w)),eBin(E_EQ,xe,eConst(1ull<<(w-1),w))); if(ov->op==E_CONST ? ov->c : branch(ov)) violation("div-overflow","signed division overflow (INT_MIN / -1)"); }
			R[pc->d]=mk(eBin(o,xe,ye)); pc++; break; }
		CMP(I_EQ,x.c==y.c) CMP(I_NE,x.c!=y.c) CMP(I_ULT,x.c<y.c) CMP(I_ULE,x.c<=y.c) CMP(I_UGT,x.c>y.c) CMP(I_UGE,x.c>=y.c)
		CMP(I_SLT,sextw(x.c,pc->w)<sextw(y.c,pc->w)) CMP(I_SLE,sextw(x.c,pc->w)<=sextw(y.c,pc->w)) CMP(I_SGT,sextw(x.c,pc->w)>sextw(y.c,pc->w)) CMP(I_SGE,sextw(x.c,pc->w)>=sextw(y.c,pc->w))
		case I_FBIN: { V x=OP(pc->a), y=OP(pc->b); R[pc->d]=mk(eBin((EOp)pc->imm,ex(x,pc->w),ex(y,pc->w))); if(!x.e&&!y.e) R[pc->d]=V{foldBin((EOp)pc->imm,x.c,y.c,pc->w),nullptr}; pc++; break; }
		case I_FCMP: { R[pc->d]=fcmp(pc->imm,pc->w,OP(pc->a),OP(pc->b)); pc++; break; }
		case I_FNEG: { V x=OP(pc->a); u64 m=1ull<<(pc->w-1); R[pc->d]= x.e ? mk(eBin(E_XOR,x.e,eConst(m,pc->w))) : V{x.c^m,nullptr}; pc++; break; }
		case I_FREM: { SYNC(); V x=OP(pc->a),y=OP(pc->b); u64 p=conc(x),q=conc(y); R[pc->d]= pc->w==64 ? V{frD(fmod(toD(p),toD(q))),nullptr} : V{0,nullptr}; pc++; break; }
		case I_ZEXT: { V x=OP(pc->a); R[pc->d]= x.e ? mk(eZext(x.e,pc->w)) : V{x.c,nullptr}; pc++; break; }
		case I_SEXT: { V x=OP(pc->a); R[pc->d]= x.e ? mk(eSext(x.e,pc->w)) : V{(u64)sextw(x.c,pc->w2)&maskw(pc->w),nullptr}; pc++; break; }
		case I_TRUNC: { V x=OP(pc->a); R[pc->d]= x.e ? mk(eExtract(x.e,0,pc->w)) : V{x.c&maskw(pc->w),nullptr}; pc++; break; }
		case I_COPY: R[pc->d]=OP(pc->a); pc++; break;
		case I_FTOSI: { V x=OP(pc->a); R[pc->d]=mk(eUn(E_FTOSI,ex(x,pc->w2),pc->w)); pc++; break; }
		case I_FTOUI: { V x=OP(pc->a); R[pc->d]=mk(eUn(E_FTOUI,ex(x,pc->w2),pc->w)); pc++; break; }
		case I_SITOF: { V x=OP(pc->a); R[pc->d]=mk(eUn(E_SITOF,ex(x,pc->w2),pc->w)); pc++; break; }
		case I_UITOF: { V x=OP(pc->a); R[pc->d]=mk(eUn(E_UITOF,ex(x,pc->w2),pc->w)); pc++; break; }
		case I_FEXT: { V x=OP(pc->a); R[pc->d]=mk(eUn(E_FEXT,ex(x,pc->w2),pc->w)); pc++; break; }
		case I_FTRUNC: { V x=OP(pc->a); R[pc->d]=mk(eUn(E_FTRUNC,ex(x,pc->w2),pc->w)); pc++; break; }
		case I_LOAD: { V p=OP(pc->a); SYNC(); if(!p.e) R[pc->d]=loadC(p.c+pc->imm,pc->w2,pc->w); else R[pc->d]=loadS(eBin(E_ADD,p.e,eConst(pc->imm,64)),pc->w2,pc->w); pc++; break; }
		case I_STORE: { V p=OP(pc->a), v=OP(pc->b); SYNC(); if(!p.e) storeC(p.c+pc->imm,pc->w2,pc->w,v); else storeS(eBin(E_ADD,p.e,eConst(pc->imm,64)),pc->w2,pc->w,v); pc++; break; }
		case I_GEP: { V p=OP(pc->a); R[pc->d]= p.e ? mk(eBin(E_ADD,p.e,eConst(pc->imm,64))) : V{p.c+pc->imm,nullptr}; pc++; break; }
		case I_GEPI: { V p=OP(pc->a), x=OP(pc->b); if(!p.e && !x.e) R[pc->d]=V{p.c+(u64)sextw(x.c,pc->w2)*pc->imm,nullptr}; else R[pc->d]=mk(eBin(E_ADD,ex(p,64),eBin(E_MUL,eSext(ex(x,pc->w2),64),eConst(pc->imm,64)))); pc++; break; }
		case I_SELECT: { V c=OP(pc->c); if(!c.e) R[pc->d]=c.c?OP(pc->a):OP(pc->b); else R[pc->d]=mk(eIte(c.e,ex(OP(pc->a),pc->w),ex(OP(pc->b),pc->w))); pc++; break; }
		case I_ALLOCA: { SYNC(); u64 cnt=conc(OP(pc->a)); R[pc->d]=V{allocaMem(pc->imm*cnt,pc->w2),nullptr}; pc++; break; }
		case I_BR: TAKE(*(Edge*)pc->p); break;
		case I_CBR: { V c=OP(pc->a); CbrI *ci=(CbrI*)pc->p; bool b; if(!c.e) b=c.c&1; else { SYNC(); b=branch(c.e); } if(b) TAKE(ci->t); else TAKE(ci->f); break; }
		case I_SWITCH: { V c=OP(pc->a); SwI *si=(SwI*)pc->p; const Edge *e=&si->def;
			if(!c.e){ for(auto &k: si->cases) if(k.first==c.c){ e=&k.second; break; } }
			else { SYNC(); // follow the model's choice first
				bool done=false; 
				for(size_t guard=0; !done; guard++){
					u64 v=evalE(c.e); const Edge *t=nullptr; u64 kv=0; for(auto &k: si->cases) if(k.first==v){ t=&k.second; kv=k.first; break; }
					EP cond;
					if(t) cond=eBin(E_EQ,c.e,eConst(kv,pc->w));
					else { cond=eConst(1,1); for(auto &k: si->cases) cond=eBin(E_AND,cond,eNot(eBin(E_EQ,c.e,eConst(k.first,pc->w)))); t=&si->def; }
					if(branch(cond)){ e=t; done=true; }
				} }
			TAKE(*e); break; }
		case I_INDBR: { V a=OP(pc->a); SYNC(); u64 v = a.e ? concretize(a.e,512,"indirect branch") : a.c; IndI *ii=(IndI*)pc->p; const Edge *e=nullptr;
			size_t lo=0,hi=ii->targets.size(); while(lo<hi){ size_t m=(lo+hi)/2; if(ii->targets[m].first<v) lo=m+1; else hi=m; } if(lo<ii->targets.size() && ii->targets[lo].first==v) e=&ii->targets[lo].second;
			if(!e) violation("bad-jump","indirect jump to an address that is no label"); TAKE(*e); break; }
		case I_RET: {
			std::vector<i32> *v=(std::vector<i32>*)pc->p; V tmp[8]; unsigned ns=pc->w2; for(unsigned q=0;q<ns;q++) tmp[q]=OP((*v)[q]);
			i32 rd=fr->retd; if(stackTop!=fr->sp){ clrSymRange(fr->sp,stackTop-fr->sp); clrValid(fr->sp,stackTop-fr->sp); stackTop=fr->sp; stackObjs.resize(fr->nso); }
			regTop=fr->R; frames.pop_back();
			if(frames.size()==depth) { pathInstrs+=n; return; }
			fr=&frames.back(); R=fr->R; K=fr->f->consts.data(); pc=fr->pc;
			CallI *ci=(CallI*)pc->p; unsigned nr = ci->nret<ns?ci->nret:ns; for(unsigned q=0;q<nr;q++) R[rd+q]=tmp[q];
			pc++; break; }
		case I_CALLI: case I_CALL: {
			CallI *ci=(CallI*)pc->p; SYNC(); Func *f=ci->f;
			if(!f){ V t=OP(pc->a); u64 a = t.e ? concretize(t.e,64,"indirect call") : t.c; auto it=gFuncByAddr.find(a); if(it==gFuncByAddr.end()) violation("bad-call","call through an invalid function pointer: "+ptrDesc(a)); f=it->second; }
			args.clear();
			for(auto &a: ci->args) for(unsigned q=0;q<a.n;q++) args.push_back(OP(a.op>=0?a.op+(i32)q:a.op));
			if(f->defined){
				std::vector<V> *va=nullptr; 
				enter(f,args,pc->d,va); fr=&frames.back(); R=fr->R; K=f->consts.data(); pc=fr->pc; break; }
			if(f->builtin==-1){ 
				auto it=builtins.find(f->name); if(it!=builtins.end()){ biTable.push_back(it->second); f->builtin=biTable.size()-1; }
				else if(f->name=="snprintf"||f->name=="fprintf"||f->name=="printf"||f->name=="sprintf") f->builtin=-3; else f->builtin=-2; }
			if(f->builtin>=0){ pathInstrs+=n; n=0; V r=biTable[f->builtin](args); if(ci->nret){ if(r.e && r.e->w!=ci->retw) r=mk(r.e->w>ci->retw?eExtract(r.e,0,ci->retw):eZext(r.e,ci->retw)); else if(!r.e) r.c&=maskw(ci->retw); R[pc->d]=r; } pc++; break; }
			if(f->builtin==-3){ // route to the guest implementation with packed variadic arguments
				Func *g=gFuncByName[std::string("nsym_")+f->name]; if(!g || !g->defined){ violation("unsupported","no model of "+f->name); }
				u64 va=allocaMem(8*(args.size()-ci->nfixed)+8,16); for(size_t q=ci->nfixed;q<args.size();q++){ V x=args[q]; storeC(va+8*(q-ci->nfixed),8,64,x.e?V{0,ex(x,64)}:x); }
				args.resize(ci->nfixed); args.push_back(V{va,nullptr}); enter(g,args,pc->d,nullptr); fr=&frames.back(); R=fr->R; K=g->consts.data(); pc=fr->pc; break; }
			if(tagOnce("unsup:"+f->name)) emitLine("{\"t\":\"unsupported\",\"case\":\""+jesc(caseName())+"\",\"fn\":\""+f->name+"\",\"loc\":\""+jesc(backtrace_())+"\"}");
			gShared->unsupported++; endPath(("call to unmodelled function "+f->name).c_str()); }
		case I_UNREACHABLE: SYNC(); violation("unreachable","reached code the compiler proved unreachable (undefined behaviour)");
		case I_UNSUPPORTED: SYNC(); gShared->unsupported++; endPath((std::string("unsupported instruction ")+(const char*)pc->p).c_str());
		case I_INTRIN: {
			SYNC(); V x=OP(pc->a), y=OP(pc->b), z=OP(pc->c); unsigned w=pc->w; V r{0,nullptr};
			switch(pc->imm){
			case IN_MEMCPY: case IN_MEMMOVE: { u64 k=conc(z,"symbolic copy length"); if(k){ u64 d=conc(x), s=conc(y); if(pc->imm==IN_MEMCPY) chkOverlap(d,s,k); memCopy(d,s,k); } break; }
			case IN_MEMSET: { u64 k=conc(z,"symbolic set length"); if(k) memSet(conc(x),y,k); break; }
			case IN_FABS: r=mk(eBin(E_AND,ex(x,w),eConst(maskw(w)>>1,w))); R[pc->d]=r; break;
			case IN_FLOOR: R[pc->d]=b_rnd(x,0,w); break; case IN_CEIL: R[pc->d]=b_rnd(x,1,w); break; case IN_TRUNC: R[pc->d]=b_rnd(x,2,w); break; case IN_RINT: R[pc->d]=b_rnd(x,3,w); break; case IN_ROUND: R[pc->d]=b_rnd(x,4,w); break;
			case IN_SQRT: R[pc->d]=mk(eUn(E_FSQRT,ex(x,w),w)); break;
			case IN_FMULADD: R[pc->d]=mk(eBin(E_FADD,eBin(E_FMUL,ex(x,w),ex(y,w)),ex(z,w))); break;
			case IN_CTPOP: { if(!x.e) r.c=__builtin_popcountll(x.c); else { EP s=eConst(0,w); for(unsigned q=0;q<w;q++) s=eBin(E_ADD,s,eZext(eExtract(x.e,q,1),w)); r=mk(s); } R[pc->d]=r; break; }
			case IN_CTLZ: { if(!x.e) r.c = x.c ? __builtin_clzll(x.c)-(64-w) : w; else { EP s=eConst(w,w); for(unsigned q=0;q<w;q++) s=eIte(eExtract(x.e,q,1),eConst(w-1-q,w),s); r=mk(s); } R[pc->d]=r; break; }
			case IN_CTTZ: { if(!x.e) r.c = x.c ? __builtin_ctzll(x.c) : w; else { EP s=eConst(w,w); for(unsigned q=w;q-->0;) s=eIte(eExtract(x.e,q,1),eConst(q,w),s); r=mk(s); } R[pc->d]=r; break; }
			case IN_BSWAP: { EP e=ex(x,w), s=nullptr; for(unsigned q=0;q<w;q+=8){ EP b=eExtract(e,q,8); s = s ? eConcat(s,b) : b; } R[pc->d]=mk(s); break; }
			case IN_BITREV: { EP e=ex(x,w), s=nullptr; for(unsigned q=0;q<w;q++){ EP b=eExtract(e,q,1); s = s ? eConcat(s,b) : b; } R[pc->d]=mk(s); break; }
			case IN_SMIN: R[pc->d]=mk(eIte(eBin(E_SLT,ex(x,w),ex(y,w)),ex(x,w),ex(y,w))); break;
			case IN_SMAX: R[pc->d]=mk(eIte(eBin(E_SLT,ex(y,w),ex(x,w)),ex(x,w),ex(y,w))); break;
			case IN_UMIN: R[pc->d]=mk(eIte(eBin(E_ULT,ex(x,w),ex(y,w)),ex(x,w),ex(y,w))); break;
			case IN_UMAX: R[pc->d]=mk(eIte(eBin(E_ULT,ex(y,w),ex(x,w)),ex(x,w),ex(y,w))); break;
			case IN_ABS: { EP e=ex(x,w); R[pc->d]=mk(eIte(eBin(E_SLT,e,eConst(0,w)),eBin(E_SUB,eConst(0,w),e),e)); break; }
			case IN_FSHL: case IN_FSHR: { EP a=ex(x,w), b=ex(y,w), s=eBin(E_UREM,ex(z,w),eConst(w,w)); EP inv=eBin(E_SUB,eConst(w,w),s);
				EP rr = pc->imm==IN_FSHL ? eBin(E_OR,eBin(E_SHL,a,s),eBin(E_LSHR,b,inv)) : eBin(E_OR,eBin(E_SHL,a,inv),eBin(E_LSHR,b,s)); R[pc->d]=mk(rr); break; }
			case IN_UADDO: { EP a=ex(x,w),b=ex(y,w),s=eBin(E_ADD,a,b); R[pc->d]=mk(s); R[pc->d+1]=mk(eBin(E_ULT,s,a)); break; }
			case IN_USUBO: { EP a=ex(x,w),b=ex(y,w); R[pc->d]=mk(eBin(E_SUB,a,b)); R[pc->d+1]=mk(eBin(E_ULT,a,b)); break; }
			case IN_SADDO: { EP a=ex(x,w),b=ex(y,w),s=eBin(E_ADD,a,b); EP na=eBin(E_SLT,a,eConst(0,w)),nb=eBin(E_SLT,b,eConst(0,w)),nsn=eBin(E_SLT,s,eConst(0,w)); R[pc->d]=mk(s); R[pc->d+1]=mk(eBin(E_AND,eBin(E_EQ,na,nb),eNot(eBin(E_EQ,na,nsn)))); break; }
			case IN_SSUBO: { EP a=ex(x,w),b=ex(y,w),s=eBin(E_SUB,a,b); EP na=eBin(E_SLT,a,eConst(0,w)),nb=eBin(E_SLT,b,eConst(0,w)),nsn=eBin(E_SLT,s,eConst(0,w)); R[pc->d]=mk(s); R[pc->d+1]=mk(eBin(E_AND,eNot(eBin(E_EQ,na,nb)),eNot(eBin(E_EQ,na,nsn)))); break; }
			case IN_UMULO: { EP a=ex(x,w),b=ex(y,w); EP s=eBin(E_MUL,a,b); R[pc->d]=mk(s); EP z0=eBin(E_EQ,a,eConst(0,w)); EP safe=eIte(z0,eConst(1,w),a); R[pc->d+1]=mk(eBin(E_AND,eNot(z0),eNot(eBin(E_EQ,eBin(E_UDIV,s,safe),b)))); break; }
			case IN_SMULO: { EP a=ex(x,w),b=ex(y,w); EP s=eBin(E_MUL,a,b); R[pc->d]=mk(s); EP z0=eBin(E_EQ,a,eConst(0,w)); EP safe=eIte(z0,eConst(1,w),a); EP ov=eBin(E_OR,eNot(eBin(E_EQ,eBin(E_SDIV,s,safe),b)), eBin(E_AND,eBin(E_EQ,a,eConst(~0ull,w)),eBin(E_EQ,b,eConst(1ull<<(w-1),w)))); R[pc->d+1]=mk(eBin(E_AND,eNot(z0),ov)); break; }
			case IN_TRAP: violation("abort","trap");
			case IN_COPYSIGN: { u64 sm=1ull<<(w-1); R[pc->d]=mk(eBin(E_OR,eBin(E_AND,ex(x,w),eConst(~sm,w)),eBin(E_AND,ex(y,w),eConst(sm,w)))); break; }
			case IN_USUBSAT: { EP a=ex(x,w),b=ex(y,w); R[pc->d]=mk(eIte(eBin(E_ULT,a,b),eConst(0,w),eBin(E_SUB,a,b))); break; }
			case IN_UADDSAT: { EP a=ex(x,w),b=ex(y,w),s=eBin(E_ADD,a,b); R[pc->d]=mk(eIte(eBin(E_ULT,s,a),eConst(~0ull,w),s)); break; }
			case IN_FMIN: case IN_FMAX: { EP a=ex(x,w),b=ex(y,w); EP l = pc->imm==IN_FMIN ? eBin(E_FLT,a,b) : eBin(E_FLT,b,a); EP g = pc->imm==IN_FMIN ? eBin(E_FLT,b,a) : eBin(E_FLT,a,b); EP sg=eBin(E_SLT,a,eConst(0,w)); if(pc->imm==IN_FMAX) sg=eNot(sg);
				R[pc->d]=mk(eIte(eBin(E_FUNO,a,a),b,eIte(eBin(E_FUNO,b,b),a,eIte(l,a,eIte(g,b,eIte(sg,a,b)))))); break; }
			case IN_SSUBSAT: case IN_SADDSAT: { bool sub=pc->imm==IN_SSUBSAT; EP a=ex(x,w),b=ex(y,w),s=eBin(sub?E_SUB:E_ADD,a,b); EP na=eBin(E_SLT,a,eConst(0,w)),nb=eBin(E_SLT,b,eConst(0,w)),nsn=eBin(E_SLT,s,eConst(0,w)); EP ov=eBin(E_AND, sub?eNot(eBin(E_EQ,na,nb)):eBin(E_EQ,na,nb), eNot(eBin(E_EQ,na,nsn)));
				R[pc->d]=mk(eIte(ov,eIte(na,eConst(1ull<<(w-1),w),eConst(maskw(w)>>1,w)),s)); break; }
			case IN_OBJSIZE: R[pc->d]=V{maskw(w),nullptr}; break;
			case IN_STACKSAVE: R[pc->d]=V{stackTop,nullptr}; break; case IN_STACKRESTORE: break;
			default: endPath("unsupported intrinsic"); }
			pc++; break; }
		default: fprintf(stderr,"bad op %d\n",pc->op); abort();
		}
	}
}
static void finalizeCode(){ for(Func *f: gFuncs) for(auto &i: f->code) switch(i.op){ case I_ADD: case I_SUB: case I_MUL: case I_AND: case I_OR: case I_XOR: i.imm=maskw(i.w); } }

int main(int argc, char **argv){
	struct rlimit rl; getrlimit(RLIMIT_STACK,&rl);
	if(rl.rlim_cur!=RLIM_INFINITY && rl.rlim_cur<(1ull<<30) && !getenv("NSYM_STACK")){ rl.rlim_cur = (rl.rlim_max==RLIM_INFINITY||rl.rlim_max>(1ull<<30)) ? (1ull<<30) : rl.rlim_max; setrlimit(RLIMIT_STACK,&rl); setenv("NSYM_STACK","1",1); execv("/proc/self/exe",argv); }
	const char *bc=nullptr; int jobs=sysconf(_SC_NPROCESSORS_ONLN); double total=600; const char *out=nullptr; const char *stats=nullptr;
	for(int i=1;i<argc;i++){ std::string a=argv[i];
		if(a=="-j") jobs=atoi(argv[++i]); else if(a=="-case") caseFilter=argv[++i]; else if(a=="-t") total=atof(argv[++i]); else if(a=="-tc") caseSec=atof(argv[++i]); else if(a=="-o") out=argv[++i]; else if(a=="-stats") stats=argv[++i];
		else if(a=="-samples") sampleN=atoi(argv[++i]); else if(a=="-rlimit") gRlimit=atoi(argv[++i]); else if(a=="-maxviol") maxViolPerCase=atoi(argv[++i]); else if(a=="-arg") hostArgs=argv[++i]; else if(a=="-ilimit") defaultInstrLimit=strtoull(argv[++i],0,10); else bc=argv[i]; }
	if(!bc){ fprintf(stderr,"usage: nsym [-j N] [-case a,b] [-t total] [-tc percase] [-o out] [-stats f] x.bc\n"); return 2; }
	if(out){ outFd=open(out,O_WRONLY|O_CREAT|O_TRUNC|O_APPEND,0644); if(outFd<0){ perror(out); return 2; } }
	gShared=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
	gShared->maxActive=jobs; gShared->active=0;
	memInit(); initBuiltins();
	u64 t0=nowNs();
	if(!loadModule(bc)) return 2;
	finalizeCode();
	regTop=(V*)mmap(nullptr,64ull<<20,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
	globalDeadline=t0+(u64)(total*1e9);
	prctl(PR_SET_CHILD_SUBREAPER,1); signal(SIGALRM,onAlarm);
	u64 t1=nowNs();
	fflush(stdout); fflush(stderr);
	gShared->active=1;
	pid_t p=fork();
	if(p==0){
		solverInit();
		auto it=gFuncByName.find("nsym_main"); if(it==gFuncByName.end()||!it->second->defined){ fprintf(stderr,"no nsym_main\n"); gShared->engineErrors++; _exit(2); }
		frames.reserve(70000);
		std::vector<V> a; enter(it->second,a,0,nullptr); run(0);
		if(curCase>=0) endPath("done");
		die();
	}
	int st, bad=0; for(;;){ pid_t w=wait(&st); if(w<0){ if(errno==EINTR) continue; break; } if(!WIFEXITED(st)||WEXITSTATUS(st)!=0){ bad++; gShared->engineErrors++; if(WIFSIGNALED(st)) fprintf(stderr,"nsym: a worker died with signal %d\n",WTERMSIG(st)); } }
	u64 t2=nowNs();
	std::string s; char b[512];
	auto L=[&](const char *k,u64 v){ snprintf(b,512,"%s\"%s\":%llu",s.empty()?"{":",",k,(unsigned long long)v); s+=b; };
	L("paths",gShared->paths); L("forks",gShared->forks); L("queries",gShared->queries); L("q_sat",gShared->qSat); L("q_unsat",gShared->qUnsat); L("q_unknown",gShared->qUnknown); L("cache_hits",gShared->cacheHits); L("solver_ms",gShared->solverNs/1000000); L("max_query_ms",gShared->maxQueryNs/1000000); L("instrs",gShared->instrs); L("sym_branches",gShared->symBranches); L("engine_errors",gShared->engineErrors); L("model_mismatch",gShared->modelMismatch); L("violations",gShared->violations); L("asserts",gShared->asserts); L("assert_queries",gShared->assertQueries); L("truncations",gShared->truncations); L("unsupported",gShared->unsupported); L("load_ms",(t1-t0)/1000000); L("run_ms",(t2-t1)/1000000);
	s+=",\"cases\":{"; for(u32 i=0;i<gShared->ncases && i<1024;i++){ CaseStat &c=gShared->cases[i]; snprintf(b,512,"%s\"%s\":{\"paths\":%llu,\"unknown\":%llu,\"incomplete\":%llu,\"violations\":%llu,\"asserts\":%llu,\"assume_kills\":%llu,\"ms\":%llu}",i?",":"",jesc(c.name).c_str(),(unsigned long long)c.paths,(unsigned long long)c.unknown,(unsigned long long)c.incomplete,(unsigned long long)c.violations,(unsigned long long)c.asserts,(unsigned long long)c.assumeKills,(unsigned long long)(c.endNs>c.started?(c.endNs-c.started)/1000000:0)); s+=b; } s+="}";
	s+=",\"functions\":["; bool first=true; for(Func *f: gFuncs) if(f->id<8192 && gShared->fnSeen[f->id]){ if(!first) s+=","; first=false; s+="\""+jesc(f->name)+"\""; } s+="]}";
	if(stats){ FILE *f=fopen(stats,"w"); fprintf(f,"%s\n",s.c_str()); fclose(f); } else printf("%s\n",s.c_str());
	return gShared->engineErrors ? 3 : 0;
}
