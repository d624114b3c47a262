/* Shared by the harnesses: the project's own headers, and helpers that do not depend on the code under test. */
#ifndef H_H
#define H_H
#include "../lib/nujel-private.h"
#include "private.h"
#undef assert
#include "sym.h"
extern lClosure *hRoot;               /* root environment of the booted system */
void hBoot(void);
void hNujelProps(const char *path);   /* explore every property of a .nuj property file */
lVal hGet(const char *name);          /* value bound in the root environment */
lVal hCallA(const char *name, int n, const lVal *a);
lVal hMethodA(const char *name, int n, const lVal *a);
lVal hListA(int n, const lVal *a);
#define hCall(name,n,...) hCallA(name,n,(const lVal[]){__VA_ARGS__})      /* apply a native or a lambda bound in the root environment */
#define hMethod(name,n,...) hMethodA(name,n,(const lVal[]){__VA_ARGS__})  /* call method NAME of the first argument */
#define hList(n,...) hListA(n,(const lVal[]){__VA_ARGS__})
lVal hApply(lVal fun, lVal args);
lVal hEval(const char *src);          /* read and evaluate the first form of src */
uint64_t hSame(lVal a, lVal b);       /* structural identity, decided by the harness */
uint64_t hHash(lVal v);
void hLogVal(const char *name, lVal v);
lVal hStr(const char *p, size_t n);
lVal hBuf(size_t n, const char *name, int symbolic);
lVal hArr(size_t n);
lVal hKw(const char *s);
lVal hSymv(const char *s);
int  hThrew(lVal v, const char *kind); /* v is an exception (of that kind, if given) */
double hFloat(const char *name);      /* any finite double */
double hBits2D(uint64_t b); uint64_t hD2Bits(double d);
int hTier(void); i64 hBound(i64 quick, i64 thorough);
#define CASE(n) for(int hc_ = sym_case(n); hc_; hc_ = (sym_reach("end"), sym_end(), 0))
/* one entry point per harness file */
void hCases(void);
#endif
