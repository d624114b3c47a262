/* Native replay runtime: the symbolic values come from a model found by the solver.
 * Environment: SYM_CASE (exact case name), SYM_MODEL (file of name=value lines), SYM_ARG. */
#define _GNU_SOURCE
#include "sym.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
static struct { char name[120]; uint64_t v; } model[4096]; static int nmodel;
static struct { char name[120]; int n; } seen[4096]; static int nseen;
static int exitAllowed, inCase;
extern void nsym_main(void);
static uint64_t lookup(const char *base){
	char nm[160]; int i;
	for(i=0;i<nseen && strcmp(seen[i].name,base);i++){}
	if(i==nseen){ strncpy(seen[nseen].name,base,119); seen[nseen++].n=0; }
	int k = seen[i].n++;
	if(k) snprintf(nm,160,"%s#%d",base,k); else snprintf(nm,160,"%s",base);
	for(i=0;i<nmodel;i++) if(!strcmp(model[i].name,nm)) return model[i].v;
	return 0;
}
static void done(const char *what, int code){ fflush(NULL); fprintf(stderr,"\nSYM-%s\n",what); fflush(NULL); _exit(code); }
static void onExit(void){ if(inCase){ if(exitAllowed) done("DONE exit",0); fflush(NULL); fprintf(stderr,"\nSYM-EXIT\n"); fflush(NULL); _exit(79); } }
int sym_case(const char *n){ const char *c=getenv("SYM_CASE"); if(inCase || !c || strcmp(c,n)) return 0; inCase=1; return 1; }
void sym_end(void){ done("DONE",0); __builtin_unreachable(); }
uint64_t sym_int(const char *n, int bits){ uint64_t v=lookup(n); return bits>=64 ? v : v & ((1ull<<bits)-1); }
int64_t sym_sint(const char *n, int bits){ uint64_t v=lookup(n); return bits>=64 ? (int64_t)v : (int64_t)(v<<(64-bits))>>(64-bits); }
void sym_bytes(void *p, size_t n, const char *name){ for(size_t i=0;i<n;i++){ char b[140]; snprintf(b,140,"%s[%zu]",name,i); ((uint8_t*)p)[i]=(uint8_t)lookup(b); } }
int sym_choose(const char *n, int k){ uint64_t v=lookup(n)&0xffffffff; if(v>=(uint64_t)k) done("ASSUME choose",78); return (int)v; }
void sym_assume(uint64_t c){ if(!c) done("ASSUME",78); }
void sym_assert(uint64_t c, const char *id){ if(!c){ fflush(NULL); fprintf(stderr,"\nSYM-ASSERT %s\n",id); if(!getenv("SYM_KEEPGOING")) done("FAIL",77); } }
void sym_known(const char *i, uint64_t c){ (void)i; (void)c; }
void sym_reach(const char *t){ (void)t; }
void sym_log(const char *n, uint64_t v){ fprintf(stderr,"\nSYM-LOG %s=%llu\n",n,(unsigned long long)v); }
void sym_note(const char *s){ (void)s; }
uint64_t sym_concretize(uint64_t v){ return v; }
void *sym_host_read(const char *path, size_t *len){ FILE *f=fopen(path,"rb"); *len=0; if(!f) return NULL; struct stat st; fstat(fileno(f),&st); char *p=calloc(1,st.st_size+1); *len=fread(p,1,st.st_size,f); fclose(f); return p; }
void sym_limit(uint64_t n, int v){ (void)n; if(v) alarm(10); }
void sym_allow_exit(int on){ exitAllowed=on; }
void sym_debug(const char *s){ fprintf(stderr,"[native] %s\n",s); }
int sym_is_symbolic(uint64_t v){ (void)v; return 0; }
size_t sym_host_arg(char *buf, size_t n){ const char *a=getenv("SYM_ARG"); if(!a) a=""; snprintf(buf,n,"%s",a); return strlen(a); }
int sym_is_native(void){ return 1; }
/* I/O errors: only n more bytes can be read or written (see guestlibc.c) */
static long faultIn=-1; static FILE *failed[64]; static int nfailed;
void sym_fs_fault(long n){ faultIn=n; }
static void fail(FILE *h){ if(nfailed<64) failed[nfailed++]=h; }
extern size_t __real_fread(void*,size_t,size_t,FILE*); extern size_t __real_fwrite(const void*,size_t,size_t,FILE*); extern int __real_ferror(FILE*); extern int __real_fclose(FILE*);
size_t __wrap_fread(void *p, size_t sz, size_t n, FILE *h){
	if(faultIn<0) return __real_fread(p,sz,n,h);
	size_t want=sz*n; char *b=malloc(want+1); size_t k=__real_fread(b,1,want,h);
	if((long)k>faultIn){ fseek(h,faultIn-(long)k,SEEK_CUR); k=faultIn; fail(h); }
	faultIn-=k; memcpy(p,b,k); free(b); return sz ? k/sz : 0; }
size_t __wrap_fwrite(const void *p, size_t sz, size_t n, FILE *h){
	if(faultIn<0 || h==stdout || h==stderr) return __real_fwrite(p,sz,n,h);
	size_t want=sz*n; if((long)want>faultIn){ want=faultIn; fail(h); }
	faultIn-=want; size_t k=__real_fwrite(p,1,want,h); return sz ? k/sz : 0; }
int __wrap_ferror(FILE *h){ for(int i=0;i<nfailed;i++) if(failed[i]==h) return 1; return __real_ferror(h); }
int __wrap_fclose(FILE *h){ for(int i=0;i<nfailed;i++) if(failed[i]==h) failed[i]=NULL; return __real_fclose(h); }
/* Fresh memory holds 0xCD bytes, as in the symbolic executor (the sanitizer build does the same through ASAN_OPTIONS). */
#include <malloc.h>
extern void *__real_malloc(size_t) __attribute__((weak));
void *__wrap_malloc(size_t n){ void *p=__real_malloc(n); if(p && malloc_usable_size(p)<=65536+64) memset(p,0xCD,malloc_usable_size(p)); return p; }
void *__wrap_realloc(void *o, size_t n){ if(!o) return __wrap_malloc(n); if(!n){ free(o); return NULL; } void *p=__wrap_malloc(n); if(!p) return NULL; size_t u=malloc_usable_size(o); memcpy(p,o,u<n?u:n); free(o); return p; }
int main(void){
	const char *m=getenv("SYM_MODEL");
	if(m){ FILE *f=fopen(m,"r"); char line[256]; while(f && fgets(line,256,f)){ char *e=strrchr(line,'='); if(!e) continue; *e=0; strncpy(model[nmodel].name,line,119); model[nmodel++].v=strtoull(e+1,NULL,10); } if(f) fclose(f); }
	setvbuf(stdout,NULL,_IONBF,0); setvbuf(stderr,NULL,_IONBF,0);
	atexit(onExit);
	nsym_main();
	if(inCase) done("DONE",0);
	fprintf(stderr,"no such case\n"); inCase=0; return 80;
}
