/* Prints the litmus tests: kind, name. */
#include <stdio.h>
#include "litmus.h"
#include <stddef.h>
ptrdiff_t rseq_offset; unsigned int rseq_size, rseq_flags;
extern struct litmus L[]; extern int nL; void litmus_list(void);
int main(void) { litmus_list(); for (int i = 0; i < nL; i++) printf("%d %s\n", L[i].kind, L[i].name); return 0; }
