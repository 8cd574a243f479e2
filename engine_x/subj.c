/*
 * The public helpers, compiled for another architecture: every wrapper takes its operands from A and
 * keeps NCAN further values live across the call.  Freestanding: the libc headers are those of stub/.
 */
#include <rseq/rseq.h>
#ifndef NCAN
# define NCAN 0
#endif
/* What librseq.so and the application provide. */
ptrdiff_t rseq_offset = 64;
unsigned int rseq_size = 32, rseq_flags;
int32_t rseq_fallback_current_cpu(void) { return 0; }
FILE *stderr;
int fprintf(FILE *f, const char *s, ...) { (void) f; (void) s; return 0; }
void abort(void) { for (;;) __asm__ __volatile__ ("" ::: "memory"); }

struct args {
	intptr_t *v, expect, newv, *v2, x2; void *dst, *src; size_t len; long off; intptr_t inc, *load; long cpu;
	intptr_t can_in[8], can_out[8];
} A;
#define NI __attribute__((noinline, used))
#define LC(n) intptr_t c##n = 0; if (NCAN > n) { c##n = A.can_in[n]; }
#define SC(n) if (NCAN > n) { A.can_out[n] = c##n; }
#define PRE LC(0) LC(1) LC(2) LC(3) LC(4) LC(5) LC(6) LC(7)
#define POST SC(0) SC(1) SC(2) SC(3) SC(4) SC(5) SC(6) SC(7)
#define F(name, expr) NI int name(void) { PRE int r = (expr); POST return r; }
#define RLX RSEQ_MO_RELAXED
#define REL RSEQ_MO_RELEASE
#define CPU RSEQ_PERCPU_CPU_ID
#define CID RSEQ_PERCPU_MM_CID
#ifdef CONST_OPS
# define OFF CONST_OPS
# define INC CONST_OPS
#else
# define OFF A.off
# define INC A.inc
#endif
#ifdef FIXED_TARGETS	/* few registers: the addressed words are globals */
intptr_t gv[4];
# define AV (&gv[0])
# define AV2 (&gv[1])
# define ALOAD (&gv[2])
#else
# define AV A.v
# define AV2 A.v2
# define ALOAD A.load
#endif
#define BOTH(K, mo, ...) F(w_##K##_##mo##_CPU, __VA_ARGS__(mo, CPU)) F(w_##K##_##mo##_CID, __VA_ARGS__(mo, CID))
#define C_CBNE_ST(mo,mode)	rseq_load_cbne_store__ptr(mo,mode,AV,A.expect,A.newv,(int)A.cpu)
#define C_POP(mo,mode)		rseq_load_cbeq_store_add_load_store__ptr(mo,mode,AV,A.expect,OFF,ALOAD,(int)A.cpu)
#define C_ADD(mo,mode)		rseq_load_add_store__ptr(mo,mode,AV,INC,(int)A.cpu)
#define C_OFFADD(mo,mode)	rseq_load_add_load_load_add_store__ptr(mo,mode,AV,OFF,INC,(int)A.cpu)
#define C_CBNE_ST_ST(mo,mode)	rseq_load_cbne_store_store__ptr(mo,mode,AV,A.expect,AV2,A.x2,A.newv,(int)A.cpu)
#define C_CBNE_CBNE_ST(mo,mode)	rseq_load_cbne_load_cbne_store__ptr(mo,mode,AV,A.expect,AV2,A.x2,A.newv,(int)A.cpu)
#define C_CBNE_MEMCPY_ST(mo,mode) rseq_load_cbne_memcpy_store__ptr(mo,mode,AV,A.expect,A.dst,A.src,A.len,A.newv,(int)A.cpu)
#ifndef ALIAS_FILE
BOTH(CBNE_ST, RLX, C_CBNE_ST)
BOTH(POP, RLX, C_POP)
BOTH(ADD, RLX, C_ADD)
#ifdef rseq_arch_has_load_add_load_load_add_store
BOTH(OFFADD, RLX, C_OFFADD)
#endif
BOTH(CBNE_ST_ST, RLX, C_CBNE_ST_ST) BOTH(CBNE_ST_ST, REL, C_CBNE_ST_ST)
BOTH(CBNE_CBNE_ST, RLX, C_CBNE_CBNE_ST)
BOTH(CBNE_MEMCPY_ST, RLX, C_CBNE_MEMCPY_ST) BOTH(CBNE_MEMCPY_ST, REL, C_CBNE_MEMCPY_ST)
#else
# include ALIAS_FILE
#endif
NI int w_UNLOAD(void) { rseq_prepare_unload(); return 0; }
NI int w_CLEAR(void) { rseq_clear_rseq_cs(); return 0; }
const uint32_t subj_sig = RSEQ_SIG;
const uint32_t subj_offs[] = { sizeof(intptr_t), __builtin_offsetof(struct rseq_abi, cpu_id), __builtin_offsetof(struct rseq_abi, rseq_cs), __builtin_offsetof(struct rseq_abi, mm_cid), sizeof(struct rseq_abi) };
