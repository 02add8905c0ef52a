#ifndef CONC_H
#define CONC_H
#include "shadow.h"
#include <pthread.h>
void on_access(void *a, unsigned long n, int w, void *pc);
void at_before(void *a);
void at_load(void *a, uint64_t v);
void at_store(void *a, uint64_t v);
void at_xchg(void *a, uint64_t old, uint64_t v);
void at_rmw(void *a);
void at_fail(void *a);
#endif
