/* Shadow of every mapping the allocator makes. The allocator's calls to mmap & co resolve to the
 * definitions in shadow.c, which perform the real system call and record it. */
#ifndef SHADOW_H
#define SHADOW_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>

#define PG 4096UL
#define MAXREG 60000
#define P_GONE 0
#define P_RW 1
#define P_NONE 2
#define P_RO 3

typedef struct {
    int id;            /* sequence number of the mmap call: identity of the region */
    uintptr_t start, hint;   /* hint: the address asked for */
    size_t np;         /* pages */
    size_t present;    /* pages still mapped */
    uint8_t *pp;       /* per page: P_* */
    int op;            /* operation in which it was mapped */
    int chg;           /* changed (mapped/protected/unmapped) in this operation */
    int dn;            /* told the system its content is not needed, in this operation */
} reg_t;

extern reg_t *regs;      /* regs[i].id == i+1 */
extern int nregs;
extern int first_live;
extern int cur_op;
extern int wild;         /* pages the allocator unmapped/protected that it had not mapped */
extern int live_regions;
extern long mm_gen;         /* counts changes */
extern int sys_calls;    /* injectable calls in this operation */

reg_t *reg_find(uintptr_t a);
int page_prot(uintptr_t a);
void mm_reset(void);
/* the run of equally protected pages containing address a; returns its 1-based number */
int reg_run(reg_t *r, uintptr_t a, uintptr_t *s, uintptr_t *e, int *prot);
/* fault injection: the k-th call from now (counted over mmap/mprotect/getrandom) fails; 0 = off */
extern int fi_k, fi_hit, fi_kind;
extern int place_mode;
extern uint64_t rnd_state;
#endif
