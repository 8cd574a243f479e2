/* Shared between the subject wrappers (compiled against /repo's headers) and the explorer. */
#ifndef SUBJ_H
#define SUBJ_H
#include <stdint.h>
#include <stddef.h>
#define NCAN_MAX 12
enum kind { K_CBNE_ST, K_POP, K_ADD, K_OFFADD, K_CBNE_ST_ST, K_CBNE_CBNE_ST, K_CBNE_MEMCPY_ST, K_UNLOAD, K_CLEAR, K_NR };
struct sargs {
	/* inputs */
	intptr_t *v;		/* v, or ptr for OFFADD */
	intptr_t expect;	/* expect / expectnot */
	intptr_t newv;
	intptr_t *v2;
	intptr_t x2;		/* newv2 / expect2 */
	void *dst, *src;
	size_t len;
	long off;		/* voffp / off */
	intptr_t inc;		/* count / inc */
	intptr_t *load;
	long cpu;
	intptr_t can_in[NCAN_MAX];
	/* outputs */
	intptr_t after[12];
	intptr_t can_out[NCAN_MAX];
};
struct subj_ent {
	const char *name;
	int kind, mo, mode;	/* mo: 0 relaxed 1 release; mode: 0 cpu_id 1 mm_cid */
	int flags;		/* 1: off is constant (koff), 2: inc is constant (kinc), 4: len is constant */
	long koff, kinc, klen;
	int (*fn)(struct sargs *a);
};
#ifdef __cplusplus
extern "C" {
#endif
extern const struct subj_ent subj_table[];
extern const int subj_nr, subj_ncan;
extern int subj_generic(int kind, int mo, int mode, struct sargs *a);
extern const uint32_t subj_sig;
#ifdef __cplusplus
}
#endif
#endif
