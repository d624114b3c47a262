/* Interface between harnesses and the symbolic executor (engine/) or the native replay runtime (symrt.c). */
#ifndef SYM_H
#define SYM_H
#include <stddef.h>
#include <stdint.h>
int      sym_case(const char *name);                 /* 1 in a forked copy that explores this case, 0 in the parent */
void     sym_end(void) __attribute__((noreturn));    /* end of a path of the current case */
uint64_t sym_int(const char *name, int bits);        /* fresh value, zero-extended */
int64_t  sym_sint(const char *name, int bits);       /* fresh value, sign-extended */
void     sym_bytes(void *p, size_t n, const char *name);
int      sym_choose(const char *name, int n);        /* forks: one path per value in 0..n-1 */
void     sym_assume(uint64_t c);
void     sym_assert(uint64_t c, const char *id);
void     sym_known(const char *id, uint64_t c);       /* failures on paths where c holds belong to the listed finding id */
void     sym_reach(const char *tag);
void     sym_log(const char *name, uint64_t v);
void     sym_note(const char *s);
uint64_t sym_concretize(uint64_t v);
void    *sym_host_read(const char *path, size_t *len);
void     sym_limit(uint64_t instructions, int isViolation);
void     sym_allow_exit(int on);
void     sym_debug(const char *s);
int      sym_is_symbolic(uint64_t v);
size_t   sym_host_arg(char *buf, size_t n);
int      sym_is_native(void);
/* file faults: after n more bytes of stream I/O the next transfer fails with an error (n<0: never) */
void     sym_fs_fault(long n);
void     nsym_main(void);
#endif
