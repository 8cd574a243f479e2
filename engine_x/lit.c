/* The litmus threads of engine_l for another architecture. */
#include <rseq/rseq.h>
ptrdiff_t rseq_offset = 64;
unsigned int rseq_size = 32, rseq_flags;
int32_t rseq_fallback_current_cpu(void) { return 0; }
FILE *stderr;
int fprintf(FILE *f, const char *s, ...) { (void) f; (void) s; return 0; }
void abort(void) { for (;;) __asm__ __volatile__ ("" ::: "memory"); }
intptr_t A[64];
const uint32_t subj_sig = RSEQ_SIG;
const uint32_t subj_offs[] = { sizeof(intptr_t), __builtin_offsetof(struct rseq_abi, cpu_id), __builtin_offsetof(struct rseq_abi, rseq_cs), __builtin_offsetof(struct rseq_abi, mm_cid), sizeof(struct rseq_abi) };
#define LIT_X
#include "../engine_l/litmus.c"
