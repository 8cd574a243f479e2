#ifndef ALIAS_H
#define ALIAS_H
#include "subj.h"
#define P char *M, char *b, char *s, long p, int c
#define NI static __attribute__((noinline))
typedef int (*al_call_t)(P);
typedef void (*al_fill_t)(P, struct sargs *a);
struct alias_ent { const char *name; int kind, mode; al_call_t call; al_fill_t fill; };
#ifdef __cplusplus
extern "C" {
#endif
extern long al_after[5];
extern intptr_t al_in[3], al_mem[3], al_out[3];
#ifdef __cplusplus
}
#endif
#define AFTER al_after[0] = (long) M; al_after[1] = (long) b; al_after[2] = (long) s; al_after[3] = p; al_after[4] = c;
#endif
