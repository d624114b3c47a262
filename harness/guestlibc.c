/* The C library as seen by the code under symbolic execution: string routines, number formatting and an in-memory
 * file system. Everything else the program may call is either built into the engine (memory, libm) or ends the path. */
typedef unsigned long size_t; typedef long ssize_t; typedef unsigned long u64; typedef long i64; typedef unsigned char u8;
#define NULL ((void*)0)
void *malloc(size_t); void free(void*); void *realloc(void*,size_t); void *memcpy(void*,const void*,size_t); void *memset(void*,int,size_t);
int nsym_fmt_double(char *buf, size_t n, const char *fmt, double d);
void sym_debug(const char*);

size_t strlen(const char *s){ size_t n=0; while(s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m){ size_t n=0; while(n<m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b){ for(;; a++,b++){ if(*a!=*b) return (u8)*a<(u8)*b?-1:1; if(!*a) return 0; } }
int strncmp(const char *a, const char *b, size_t n){ for(; n; n--,a++,b++){ if(*a!=*b) return (u8)*a<(u8)*b?-1:1; if(!*a) return 0; } return 0; }
int memcmp(const void *a, const void *b, size_t n){ const u8 *x=a,*y=b; for(size_t i=0;i<n;i++) if(x[i]!=y[i]) return x[i]<y[i]?-1:1; return 0; }
int bcmp(const void *a, const void *b, size_t n){ const u8 *x=a,*y=b; u8 d=0; for(size_t i=0;i<n;i++) d|=x[i]^y[i]; return d; }
void *memchr(const void *s, int c, size_t n){ const u8 *p=s; for(size_t i=0;i<n;i++) if(p[i]==(u8)c) return (void*)(p+i); return NULL; }
char *strchr(const char *s, int c){ for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return NULL; } }
char *strrchr(const char *s, int c){ const char *r=NULL; for(;;s++){ if(*s==(char)c) r=s; if(!*s) return (char*)r; } }
char *strcpy(char *d, const char *s){ char *r=d; while((*d++=*s++)){} return r; }
char *strncpy(char *d, const char *s, size_t n){ size_t i=0; for(;i<n&&s[i];i++) d[i]=s[i]; for(;i<n;i++) d[i]=0; return d; }
char *strstr(const char *h, const char *n){ size_t l=strlen(n); for(;;h++){ if(!strncmp(h,n,l)) return (char*)h; if(!*h) return NULL; } }
char *strdup(const char *s){ size_t n=strlen(s)+1; char *r=malloc(n); memcpy(r,s,n); return r; }
int isspace(int c){ return c==' '||(c>=9&&c<=13); }
int isdigit(int c){ return c>='0'&&c<='9'; }
int isalpha(int c){ return (c>='a'&&c<='z')||(c>='A'&&c<='Z'); }
int isalnum(int c){ return isdigit(c)||isalpha(c); }
int isupper(int c){ return c>='A'&&c<='Z'; }
int islower(int c){ return c>='a'&&c<='z'; }
int isxdigit(int c){ return isdigit(c)||(c>='a'&&c<='f')||(c>='A'&&c<='F'); }
int isprint(int c){ return c>=32&&c<127; }
int tolower(int c){ return isupper(c)?c+32:c; }
int toupper(int c){ return islower(c)?c-32:c; }
size_t strspn(const char *s, const char *a){ size_t n=0; while(s[n] && strchr(a,s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a){ size_t n=0; while(s[n] && !strchr(a,s[n])) n++; return n; }
char *strpbrk(const char *s, const char *a){ s+=strcspn(s,a); return *s ? (char*)s : NULL; }
char *strchrnul(const char *s, int c){ while(*s && *s!=(char)c) s++; return (char*)s; }
void *rawmemchr(const void *s, int c){ const u8 *p=s; while(*p!=(u8)c) p++; return (void*)p; }
void *memrchr(const void *s, int c, size_t n){ const u8 *p=s; while(n--) if(p[n]==(u8)c) return (void*)(p+n); return NULL; }
void *memmem(const void *h, size_t hn, const void *x, size_t n){ const u8 *p=h; for(size_t i=0;i+n<=hn;i++) if(!memcmp(p+i,x,n)) return (void*)(p+i); return NULL; }
void *mempcpy(void *d, const void *s, size_t n){ memcpy(d,s,n); return (u8*)d+n; }
char *stpcpy(char *d, const char *s){ while((*d=*s)){ d++; s++; } return d; }
char *stpncpy(char *d, const char *s, size_t n){ size_t l=strnlen(s,n); strncpy(d,s,n); return d+l; }
char *strcat(char *d, const char *s){ strcpy(d+strlen(d),s); return d; }
char *strncat(char *d, const char *s, size_t n){ char *e=d+strlen(d); size_t l=strnlen(s,n); memcpy(e,s,l); e[l]=0; return d; }
char *strndup(const char *s, size_t n){ size_t l=strnlen(s,n); char *r=malloc(l+1); memcpy(r,s,l); r[l]=0; return r; }
void *reallocarray(void *p, size_t a, size_t b){ return realloc(p,a*b); }
void bzero(void *p, size_t n){ memset(p,0,n); }
void explicit_bzero(void *p, size_t n){ memset(p,0,n); }
static int lc_(int c){ return (c>='A'&&c<='Z')?c+32:c; }
int strcasecmp(const char *a, const char *b){ for(;; a++,b++){ int x=lc_((u8)*a), y=lc_((u8)*b); if(x!=y) return x-y; if(!x) return 0; } }
int strncasecmp(const char *a, const char *b, size_t n){ for(; n; n--,a++,b++){ int x=lc_((u8)*a), y=lc_((u8)*b); if(x!=y) return x-y; if(!x) return 0; } return 0; }
int strcoll(const char *a, const char *b){ return strcmp(a,b); }
char *strtok_r(char *s, const char *d, char **sv){ if(!s) s=*sv; s+=strspn(s,d); if(!*s){ *sv=s; return NULL; } char *r=s; s+=strcspn(s,d); if(*s) *s++=0; *sv=s; return r; }
static u64 mag_(const char *s, char **e, int base, int *neg, int *ovf){ // the magnitude of a number in the format of strtol
	const char *o=s; *neg=0; *ovf=0; while(*s==' '||(*s>=9&&*s<=13)) s++;
	if(*s=='+'||*s=='-') *neg=*s++=='-';
	#define DIG_(c) ((c)>='0'&&(c)<='9' ? (c)-'0' : (c)>='a'&&(c)<='z' ? (c)-'a'+10 : (c)>='A'&&(c)<='Z' ? (c)-'A'+10 : 99)
	if((base==0||base==16) && s[0]=='0' && (s[1]|32)=='x' && DIG_(s[2])<16){ s+=2; base=16; }
	if(base==0) base=*s=='0'?8:10;
	u64 v=0; int any=0; for(;;s++){ int d=DIG_(*s); if(d>=base) break; any=1; u64 t; if(__builtin_mul_overflow(v,(u64)base,&t)||__builtin_add_overflow(t,(u64)d,&t)) *ovf=1; else v=t; }
	if(e) *e=(char*)(any?s:o); return any?v:0; }
extern int *__errno_location(void);
unsigned long strtoul(const char *s, char **e, int b){ int n,o; u64 v=mag_(s,e,b,&n,&o); if(o){ *__errno_location()=34; return ~0ul; } return n?-v:v; }
long strtol(const char *s, char **e, int b){ int n,o; u64 v=mag_(s,e,b,&n,&o); u64 m=n?1ul<<63:(1ul<<63)-1; if(o||v>m){ *__errno_location()=34; v=m; } return (long)(n?-v:v); }
unsigned long long strtoull(const char *s, char **e, int b){ return strtoul(s,e,b); }
long long strtoll(const char *s, char **e, int b){ return strtol(s,e,b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b){ return strtoul(s,e,b); }
long __isoc23_strtol(const char *s, char **e, int b){ return strtol(s,e,b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b){ return strtoul(s,e,b); }
long long __isoc23_strtoll(const char *s, char **e, int b){ return strtol(s,e,b); }
int atoi(const char *s){ return (int)strtol(s,0,10); }
long atol(const char *s){ return strtol(s,0,10); }
long long atoll(const char *s){ return strtol(s,0,10); }
double strtod(const char*,char**);
double atof(const char *s){ return strtod(s,0); }
int ispunct(int c){ return c>32&&c<127&&!((c>='0'&&c<='9')||(c>='a'&&c<='z')||(c>='A'&&c<='Z')); }
int iscntrl(int c){ return (c>=0&&c<32)||c==127; }
int isgraph(int c){ return c>32&&c<127; }
int isblank(int c){ return c==' '||c==9; }
long long llabs(long long x){ return x<0?-x:x; }
void qsort(void *b, size_t n, size_t sz, int (*cmp)(const void*,const void*)){ u8 *p=b; for(size_t i=1;i<n;i++) for(size_t j=i;j>0 && cmp(p+(j-1)*sz,p+j*sz)>0;j--) for(size_t k=0;k<sz;k++){ u8 t=p[(j-1)*sz+k]; p[(j-1)*sz+k]=p[j*sz+k]; p[j*sz+k]=t; } }
void *bsearch(const void *key, const void *b, size_t n, size_t sz, int (*cmp)(const void*,const void*)){ const u8 *p=b; while(n){ size_t m=n/2; int c=cmp(key,p+m*sz); if(!c) return (void*)(p+m*sz); if(c>0){ p+=(m+1)*sz; n-=m+1; } else n=m; } return NULL; }
double sqrt(double), floor(double), ceil(double), trunc(double), rint(double), round(double), fmod(double,double), pow(double,double);
static u64 db_(double d){ union{double d;u64 u;} x={d}; return x.u; }
static double bd_(u64 u){ union{double d;u64 u;} x; x.u=u; return x.d; }
double fabs(double x){ return bd_(db_(x)&~(1ul<<63)); }
double copysign(double x, double y){ return bd_((db_(x)&~(1ul<<63))|(db_(y)&(1ul<<63))); }
double fmin(double a, double b){ return a!=a ? b : b!=b ? a : a<b ? a : b<a ? b : (db_(a)>>63) ? a : b; }
double fmax(double a, double b){ return a!=a ? b : b!=b ? a : a>b ? a : b>a ? b : (db_(a)>>63) ? b : a; }
double fdim(double a, double b){ return a!=a ? a : b!=b ? b : a>b ? a-b : 0; }
double nearbyint(double x){ return rint(x); }
long lround(double x){ return (long)round(x); }
long long llround(double x){ return (long long)round(x); }
long lrint(double x){ return (long)rint(x); }
long long llrint(double x){ return (long long)rint(x); }
double modf(double x, double *i){ double t=trunc(x); *i=t; return copysign(x-t!=x-t ? 0.0 : x-t,x); }
float sqrtf(float x){ return (float)sqrt((double)x); }
float floorf(float x){ return (float)floor((double)x); }
float ceilf(float x){ return (float)ceil((double)x); }
float truncf(float x){ return (float)trunc((double)x); }
float rintf(float x){ return (float)rint((double)x); }
float nearbyintf(float x){ return (float)rint((double)x); }
float roundf(float x){ return (float)round((double)x); }
float fmodf(float x, float y){ return (float)fmod((double)x,(double)y); }
float fabsf(float x){ return (float)fabs((double)x); }
float fminf(float x, float y){ return (float)fmin((double)x,(double)y); }
float fmaxf(float x, float y){ return (float)fmax((double)x,(double)y); }
long lroundf(float x){ return (long)round((double)x); }
long lrintf(float x){ return (long)rint((double)x); }
int abs(int x){ return x<0?-x:x; }
long labs(long x){ return x<0?-x:x; }
static int err_; int *__errno_location(void){ return &err_; }
static char *noenv[2]={ (char*)"HOME=/root", 0 }; char **environ=noenv; char **__environ=noenv;
char *getenv(const char *n){ (void)n; return NULL; }
char *strerror(int e){ (void)e; return (char*)"error"; }

/* ------------------------------------------------------------ formatting */
struct out { char *b; size_t n, len; };
static void oc(struct out *o, char c){ if(o->len+1<o->n) o->b[o->len]=c; o->len++; }
static int fmt_(struct out *o, const char *f, const u64 *va){
	for(; *f; f++){
		if(*f!='%'){ oc(o,*f); continue; }
		const char *st=f; f++;
		int left=0,zero=0,width=0,prec=-1,lng=0,plus=0,alt=0;
		for(;;f++){ if(*f=='-') left=1; else if(*f=='0') zero=1; else if(*f=='+') plus=1; else if(*f==' '){} else if(*f=='#') alt=1; else break; }
		if(*f=='*'){ width=(int)*va++; f++; } else while(isdigit(*f)) width=width*10+*f++-'0';
		if(*f=='.'){ f++; prec=0; if(*f=='*'){ prec=(int)*va++; f++; } else while(isdigit(*f)) prec=prec*10+*f++-'0'; }
		while(*f=='l'||*f=='z'||*f=='j'||*f=='h'){ if(*f!='h') lng=1; f++; }
		char tmp[400]; const char *s=tmp; int n=0;
		switch(*f){
		case '%': oc(o,'%'); continue;
		case 'c': tmp[0]=(char)*va++; n=1; break;
		case 's': s=(const char*)*va++; if(!s) s="(null)"; n = prec>=0 ? (int)strnlen(s,prec) : (int)strlen(s); break;
		case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
			u64 v=*va++; if(*f=='p') lng=1; int neg=0; if(!lng) v = (*f=='d'||*f=='i') ? (u64)(i64)(int)v : (u64)(unsigned)v;
			if((*f=='d'||*f=='i') && (i64)v<0){ neg=1; v=0-v; }
			unsigned base = (*f=='x'||*f=='X'||*f=='p')?16:*f=='o'?8:10; char d[80]; int k=0;
			do { unsigned q=v%base; v/=base; d[k++] = q<10?'0'+q:(*f=='X'?'A':'a')+q-10; } while(v);
			while(k<prec && k<70) d[k++]='0';
			if(*f=='p'||(alt&&base==16)){ tmp[n++]='0'; tmp[n++]='x'; } if(neg) tmp[n++]='-'; else if(plus) tmp[n++]='+';
			if(zero && !left && prec<0) while(k+n<width && k<70) d[k++]='0';
			while(k) tmp[n++]=d[--k]; break; }
		case 'f': case 'g': case 'e': case 'G': case 'E': case 'F': { char spec[40]; int q=0; for(const char *p=st; p<=f && q<38; p++) spec[q++]=*p; spec[q]=0; double dv; memcpy(&dv,va++,8); n=nsym_fmt_double(tmp,400,spec,dv); if(n>399) n=399; width=0; break; }
		default: sym_debug("unsupported printf conversion"); return -1;
		}
		int pad = width>n ? width-n : 0;
		if(!left) while(pad-->0) oc(o,' ');
		for(int i=0;i<n;i++) oc(o,s[i]);
		if(left) while(pad-->0) oc(o,' ');
	}
	if(o->n) o->b[o->len<o->n?o->len:o->n-1]=0;
	return (int)o->len;
}
int nsym_snprintf(char *b, size_t n, const char *f, const u64 *va){ struct out o={b,n,0}; return fmt_(&o,f,va); }
int nsym_sprintf(char *b, const char *f, const u64 *va){ struct out o={b,1ul<<30,0}; return fmt_(&o,f,va); }

/* ------------------------------------------------------------ files */
#define NFILES 8
#define NHANDLES 16
struct file { int used; char path[128]; u8 *data; long size, cap; };
typedef struct _IO_FILE { int open, rd, wr, app, eof, err, std; long pos; struct file *f; } FILE;
static struct file files[NFILES]; static FILE handles[NHANDLES+3];
static FILE in_={1,1,0,0,0,0,1,0,0}, out_={1,0,1,0,0,0,2,0,0}, serr_={1,0,1,0,0,0,3,0,0};
FILE *stdin=&in_, *stdout=&out_, *stderr=&serr_;
static long faultIn=-1;
void sym_fs_fault(long n){ faultIn=n; }
static struct file *find(const char *p){ for(int i=0;i<NFILES;i++) if(files[i].used && !strcmp(files[i].path,p)) return &files[i]; return NULL; }
int access(const char *p, int m){ (void)m; if(find(p)) return 0; err_=2; return -1; }
FILE *fopen(const char *p, const char *m){
	struct file *f=find(p); int wr=*m!='r';
	if(!f){ if(!wr){ err_=2; return NULL; } for(int i=0;i<NFILES && !f;i++) if(!files[i].used) f=&files[i]; if(!f){ err_=28; return NULL; } f->used=1; size_t l=strnlen(p,127); memcpy(f->path,p,l); f->path[l]=0; f->size=0; }
	if(*m=='w') f->size=0;
	FILE *h=NULL; for(int i=0;i<NHANDLES && !h;i++) if(!handles[i].open) h=&handles[i];
	if(!h){ err_=24; return NULL; }
	h->open=1; h->rd=!wr; h->wr=wr; h->app=*m=='a'; h->eof=h->err=0; h->pos=h->app?f->size:0; h->f=f; return h;
}
void abort(void);
static void chk(FILE *h){ if(!h || !h->open){ sym_debug("use of a closed or invalid stream"); *(volatile int*)8=1; } }
static size_t budget(size_t n){ if(faultIn<0) return n; if((long)n>faultIn){ n=faultIn; } faultIn-=n; return n; }
size_t fread(void *p, size_t sz, size_t n, FILE *h){ chk(h); size_t want=sz*n; if(!want) return 0; if(!h->rd||!h->f){ if(h->std){h->eof=1;} else h->err=1; return 0; }
	long left=h->f->size-h->pos; if(left<0) left=0; size_t k=want; if((long)k>left) k=left;
	size_t b=budget(k); if(b<k){ if(b) memcpy(p,h->f->data+h->pos,b); h->pos+=b; h->err=1; return b/sz; }
	if(k) memcpy(p,h->f->data+h->pos,k); h->pos+=k; if(k<want) h->eof=1; return k/sz; }
size_t fwrite(const void *p, size_t sz, size_t n, FILE *h){ chk(h); size_t want=sz*n; if(!want) return 0; if(h->std>1){ volatile u8 s=0; for(size_t i=0;i<want;i++) s=((const u8*)p)[i]; (void)s; return n; } if(!h->wr||!h->f){ h->err=1; return 0; }
	size_t b=budget(want); if(b<want) h->err=1;
	if(h->app) h->pos=h->f->size; long end=h->pos+b;
	if(end>h->f->cap){ long c=end*2+64; u8 *d=malloc(c); memset(d,0,c); if(h->f->size) memcpy(d,h->f->data,h->f->size); if(h->f->data) free(h->f->data); h->f->data=d; h->f->cap=c; }
	if(b){ if(h->pos>h->f->size) memset(h->f->data+h->f->size,0,h->pos-h->f->size); memcpy(h->f->data+h->pos,p,b); if(end>h->f->size) h->f->size=end; }
	h->pos=end; return b/sz; }
int fseek(FILE *h, long o, int w){ chk(h); if(h->std) return -1; long base = w==0?0:w==1?h->pos:h->f->size; long r; if(__builtin_add_overflow(base,o,&r) || r<0){ err_=22; return -1; } h->pos=r; h->eof=0; return 0; }
long ftell(FILE *h){ chk(h); if(h->std) return -1; return h->pos; }
int fclose(FILE *h){ chk(h); h->open=0; return 0; }
int feof(FILE *h){ chk(h); return h->eof; }
int ferror(FILE *h){ chk(h); return h->err; }
int fflush(FILE *h){ if(h) chk(h); return 0; }
int fileno(FILE *h){ chk(h); return h->std ? h->std-1 : 3+(int)(h-handles); }
int fputs(const char *s, FILE *h){ fwrite(s,1,strlen(s),h); return 0; }
int fputc(int c, FILE *h){ char b=c; fwrite(&b,1,1,h); return c; }
int putchar(int c){ return c; }
int puts(const char *s){ return (int)strlen(s); }
int unlink(const char *p){ struct file *f=find(p); if(!f){ err_=2; return -1; } f->used=0; return 0; }
int nsym_fprintf(FILE *h, const char *f, const u64 *va){ char b[512]; struct out o={b,512,0}; int r=fmt_(&o,f,va); if(h==stderr || h==stdout) sym_debug(b); else fwrite(b,1,r<512?r:511,h); return r; }
int nsym_printf(const char *f, const u64 *va){ return nsym_fprintf(stdout,f,va); }
char *getcwd(char *b, size_t n){ const char *s="/w"; if(n<3) return NULL; memcpy(b,s,3); return b; }
void clearerr(FILE *h){ chk(h); h->eof=0; h->err=0; }
void rewind(FILE *h){ fseek(h,0,0); clearerr(h); }
int fseeko(FILE *h, long o, int w){ return fseek(h,o,w); }
long ftello(FILE *h){ return ftell(h); }
int fgetc(FILE *h){ u8 c; return fread(&c,1,1,h)==1 ? c : -1; }
int getc(FILE *h){ return fgetc(h); }
int _IO_getc(FILE *h){ return fgetc(h); }
int putc(int c, FILE *h){ return fputc(c,h); }
int _IO_putc(int c, FILE *h){ return fputc(c,h); }
char *fgets(char *b, int n, FILE *h){ int i=0; while(i+1<n){ int c=fgetc(h); if(c<0) break; b[i++]=(char)c; if(c=='\n') break; } if(!i) return NULL; b[i]=0; return b; }
int remove(const char *p){ return unlink(p); }
