/* The litmus threads, compiled from the public headers by every compiler and optimisation level of the check. */
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
#include <type_traits>
#endif
#include <rseq/rseq.h>
#include "litmus.h"
#ifdef LIT_X	/* for another architecture: parameterless entry points, one byte copied by the copy helpers */
struct sh SH; long RES[4]; struct sh *volatile SHP = &SH; long *volatile RESP = RES;
# define T(name) static __attribute__((noinline)) void name(struct sh *s, long *r); __attribute__((noinline, used)) void t_##name(void) { name(SHP, RESP); } static __attribute__((noinline)) void name(struct sh *s, long *r)
typedef unsigned char src_t;
#else
# define T(name) static __attribute__((noinline)) void name(struct sh *s, long *r)
typedef intptr_t src_t;
#endif
#define REL(v, n) rseq_smp_store_release(&s->v, n)
#define ACQ(v) rseq_smp_load_acquire(&s->v)
#define W1(v, n) RSEQ_WRITE_ONCE(s->v, n)
#define R1(v) RSEQ_READ_ONCE(s->v)

/* ---- message passing, writers: the data is in place before the flag ---- */
T(w_rel) { s->x = 1; REL(y, 1); } T(w_rel_d) { s->x = 1; REL(y, 1); s->x = 2; } T(w_rel_z) { s->z = 5; s->x = 1; REL(y, 1); s->x = 3; s->z = 6; }
T(w_wmb) { s->x = 1; rseq_smp_wmb(); W1(y, 1); } T(w_wmb_d) { s->x = 1; rseq_smp_wmb(); W1(y, 1); s->x = 2; } T(w_wmb_p) { s->x = 1; rseq_smp_wmb(); s->y = 1; s->x = 2; }
T(w_mb) { s->x = 1; rseq_smp_mb(); W1(y, 1); } T(w_mb_d) { s->x = 1; rseq_smp_mb(); W1(y, 1); s->x = 2; } T(w_mb_p) { s->x = 1; rseq_smp_mb(); s->y = 1; s->x = 2; }
T(w_once) { W1(x, 1); W1(y, 1); W1(x, 2); }	/* volatile accesses of one thread stay in order on x86 */
T(w_loop) { for (int k = 1; k <= 2; k++) { s->x = k; REL(y, k); } } T(w_loop_m) { for (int k = 1; k <= 2; k++) { s->x = k; rseq_smp_wmb(); W1(y, k); } }
T(w_i) { s->x = 1; REL(i, 1); s->x = 2; } T(w_h) { s->x = 1; REL(h, 1); s->x = 2; } T(w_b) { s->x = 1; REL(b, 1); s->x = 2; } T(w_p) { s->x = 1; REL(p, (void *) s); s->x = 2; }
T(w_copy) { s->x = s->w + 1; REL(y, 1); s->x = s->w + 2; }
#define HELP(sfx, mode) \
T(w_ss##sfx) { s->x = 1; r[3] = rseq_load_cbne_store_store__ptr(RSEQ_MO_RELEASE, mode, (intptr_t *) &s->y, 0, (intptr_t *) &s->z, 5, 1, 0); s->x = 2; } \
T(w_mc##sfx) { s->x = 1; src_t src = 5; r[3] = rseq_load_cbne_memcpy_store__ptr(RSEQ_MO_RELEASE, mode, (intptr_t *) &s->y, 0, &s->z, &src, sizeof(src), 1, 0); s->x = 2; } \
T(w_mcx##sfx) { src_t src = 1; s->z = 5; r[3] = rseq_load_cbne_memcpy_store__ptr(RSEQ_MO_RELEASE, mode, (intptr_t *) &s->y, 0, &s->x, &src, sizeof(src), 1, 0); s->z = 6; }
#ifndef RSEQ_ARCH_HAS_LOAD_ADD_LOAD_LOAD_ADD_STORE
# define rseq_load_add_load_load_add_store__ptr(mo, mode, p, off, inc, cpu) rseq_load_add_store__ptr(mo, mode, *(intptr_t **) (*(p) + (off)), inc, cpu)
#endif
#define RLX(sfx, mode) \
T(l_cs##sfx) { s->x = 1; r[3] = rseq_load_cbne_store__ptr(RSEQ_MO_RELAXED, mode, (intptr_t *) &s->y, 0, 1, 0); s->x = 2; } \
T(l_add##sfx) { s->x = 1; r[3] = rseq_load_add_store__ptr(RSEQ_MO_RELAXED, mode, (intptr_t *) &s->y, 1, 0); s->x = 2; } \
T(l_cbeq##sfx) { intptr_t one = 1, old; s->x = 1; r[3] = rseq_load_cbeq_store_add_load_store__ptr(RSEQ_MO_RELAXED, mode, (intptr_t *) &s->y, 99, (long) &one, &old, 0); s->x = 2; } \
T(l_off##sfx) { intptr_t to = (intptr_t) &s->y, zero = 0; s->x = 1; r[3] = rseq_load_add_load_load_add_store__ptr(RSEQ_MO_RELAXED, mode, &zero, (long) &to, 1, 0); s->x = 2; } \
T(l_cc##sfx) { s->x = 1; r[3] = rseq_load_cbne_load_cbne_store__ptr(RSEQ_MO_RELAXED, mode, (intptr_t *) &s->y, 0, (intptr_t *) &s->z, 0, 1, 0); s->x = 2; } \
T(l_ss##sfx) { s->x = 1; r[3] = rseq_load_cbne_store_store__ptr(RSEQ_MO_RELAXED, mode, (intptr_t *) &s->y, 0, (intptr_t *) &s->z, 5, 1, 0); s->x = 2; } \
T(l_mc##sfx) { s->x = 1; src_t src = 5; r[3] = rseq_load_cbne_memcpy_store__ptr(RSEQ_MO_RELAXED, mode, (intptr_t *) &s->y, 0, &s->z, &src, sizeof(src), 1, 0); s->x = 2; } \
T(l_mcx##sfx) { src_t src = 1; s->z = 5; r[3] = rseq_load_cbne_memcpy_store__ptr(RSEQ_MO_RELAXED, mode, (intptr_t *) &s->y, 0, &s->x, &src, sizeof(src), 1, 0); s->z = 6; } \
T(l_ssx##sfx) { s->z = 5; r[3] = rseq_load_cbne_store_store__ptr(RSEQ_MO_RELAXED, mode, (intptr_t *) &s->y, 0, (intptr_t *) &s->x, 1, 1, 0); s->z = 6; } \
T(k_cs##sfx) { long a = s->x; int e = rseq_load_cbne_store__ptr(RSEQ_MO_RELAXED, mode, (intptr_t *) &s->y, 1, 2, 0); long b = s->x; r[2] = a; r[1] = b; r[0] = e == 0; } \
T(k_cc##sfx) { long a = s->x; int e = rseq_load_cbne_load_cbne_store__ptr(RSEQ_MO_RELAXED, mode, (intptr_t *) &s->w, 0, (intptr_t *) &s->y, 1, 7, 0); long b = s->x; r[2] = a; r[1] = b; r[0] = e == 0; } \
T(k_ss##sfx) { long a = s->x; int e = rseq_load_cbne_store_store__ptr(RSEQ_MO_RELAXED, mode, (intptr_t *) &s->y, 1, (intptr_t *) &s->w, 5, 2, 0); long b = s->x; r[2] = a; r[1] = b; r[0] = e == 0; } \
T(k_mc##sfx) { src_t src = 5; long a = s->x; int e = rseq_load_cbne_memcpy_store__ptr(RSEQ_MO_RELAXED, mode, (intptr_t *) &s->y, 1, &s->w, &src, sizeof(src), 2, 0); long b = s->x; r[2] = a; r[1] = b; r[0] = e == 0; } \
T(k_cbeq##sfx) { intptr_t one = 1, old = 0; long a = s->x; int e = rseq_load_cbeq_store_add_load_store__ptr(RSEQ_MO_RELAXED, mode, (intptr_t *) &s->y, 0, (long) &one - 1, &old, 0); long b = s->x; r[2] = a; r[1] = b; r[0] = e == 0; }
HELP(_cpu, RSEQ_PERCPU_CPU_ID)
RLX(_cpu, RSEQ_PERCPU_CPU_ID)
RLX(_cid, RSEQ_PERCPU_MM_CID)
HELP(_cid, RSEQ_PERCPU_MM_CID)

/* ---- message passing, readers: r[0] the flag was seen, r[1] the data read after that ---- */
T(r_acq) { if (ACQ(y)) { r[0] = 1; r[1] = s->x; } } T(r_acq_c) { r[2] = s->x; if (ACQ(y)) { r[0] = 1; r[1] = s->x; } } T(r_acq_n) { r[2] = s->x; long f = ACQ(y); r[1] = s->x; r[0] = f != 0; }
T(r_rmb) { long f = R1(y); rseq_smp_rmb(); r[1] = s->x; r[0] = f != 0; } T(r_rmb_c) { r[2] = s->x; long f = R1(y); rseq_smp_rmb(); r[1] = s->x; r[0] = f != 0; } T(r_rmb_p) { r[2] = s->x; long f = s->y; rseq_smp_rmb(); r[1] = s->x; r[0] = f != 0; }
T(r_mb) { long f = R1(y); rseq_smp_mb(); r[1] = s->x; r[0] = f != 0; } T(r_mb_c) { r[2] = s->x; long f = s->y; rseq_smp_mb(); r[1] = s->x; r[0] = f != 0; }
T(r_ctl) { if (R1(y)) { rseq_smp_acquire__after_ctrl_dep(); r[0] = 1; r[1] = s->x; } } T(r_ctl_c) { r[2] = s->x; if (R1(y)) { rseq_smp_acquire__after_ctrl_dep(); r[0] = 1; r[1] = s->x; } }
T(r_wait) { r[2] = s->x; while (!ACQ(y)) ; r[0] = 1; r[1] = s->x; } T(r_wait_o) { r[2] = s->x; while (!R1(y)) ; rseq_smp_acquire__after_ctrl_dep(); r[0] = 1; r[1] = s->x; } T(r_wait_m) { r[2] = s->x; do { rseq_smp_mb(); } while (!s->y); rseq_smp_rmb(); r[0] = 1; r[1] = s->x; }
T(r_two) { r[2] = s->x; for (int k = 0; k < 2; k++) { if (ACQ(y)) { r[0] = 1; r[1] = s->x; return; } } }
T(r_once) { r[2] = R1(x); long f = R1(y); r[1] = R1(x); r[0] = f != 0; }
T(r_i) { r[2] = s->x; if (ACQ(i)) { r[0] = 1; r[1] = s->x; } } T(r_h) { r[2] = s->x; if (ACQ(h)) { r[0] = 1; r[1] = s->x; } } T(r_b) { r[2] = s->x; if (ACQ(b)) { r[0] = 1; r[1] = s->x; } } T(r_p) { r[2] = s->x; if (ACQ(p)) { r[0] = 1; r[1] = s->x; } }
T(r_z) { r[2] = s->z; if (ACQ(y)) { r[0] = 1; r[1] = s->z; } }

/* ---- store buffering ---- */
T(sb_a) { W1(x, 1); rseq_smp_mb(); r[0] = R1(y); } T(sb_b) { W1(y, 1); rseq_smp_mb(); r[0] = R1(x); }
T(sb_ap) { s->x = 1; rseq_smp_mb(); r[0] = s->y; } T(sb_bp) { s->y = 1; rseq_smp_mb(); r[0] = s->x; }
T(sb_ac) { r[1] = s->y; s->x = 1; rseq_smp_mb(); r[0] = s->y; s->x = 2; } T(sb_bc) { r[1] = s->x; s->y = 1; rseq_smp_mb(); r[0] = s->x; s->y = 2; }
T(sb_ar) { REL(x, 1); rseq_smp_mb(); r[0] = ACQ(y); } T(sb_br) { REL(y, 1); rseq_smp_mb(); r[0] = ACQ(x); }
/* control without the library: shows that store buffering is explored */
T(sb_an) { *(volatile long *) &s->x = 1; r[0] = *(volatile long *) &s->y; } T(sb_bn) { *(volatile long *) &s->y = 1; r[0] = *(volatile long *) &s->x; }
T(r_ra) { s->x = 1; rseq_smp_mb(); W1(y, 1); } T(r_rb) { s->y = 2; rseq_smp_mb(); r[0] = s->x; }
T(s_a) { s->x = 2; REL(y, 1); } T(s_b) { if (ACQ(y)) { r[0] = 1; s->x = 1; } } T(s_am) { s->x = 2; rseq_smp_wmb(); W1(y, 1); } T(s_bm) { long f = R1(y); rseq_smp_mb(); if (f) { r[0] = 1; s->x = 1; } }
T(ww_a) { s->x = 1; rseq_smp_wmb(); s->y = 2; } T(ww_b) { s->y = 1; rseq_smp_wmb(); s->x = 2; } T(ww_am) { s->x = 1; rseq_smp_mb(); s->y = 2; } T(ww_bm) { s->y = 1; rseq_smp_mb(); s->x = 2; } T(ww_ar) { s->x = 1; REL(y, 2); } T(ww_br) { s->y = 1; REL(x, 2); }
/* ---- load buffering: what was read before a release or after an acquire ---- */
T(lb_a) { r[0] = s->x; REL(y, 1); r[1] = s->x; } T(lb_am) { r[0] = s->x; rseq_smp_mb(); s->y = 1; r[1] = s->x; } T(lb_b) { long f = ACQ(y); s->x = 1; r[0] = f; } T(lb_bm) { long f = s->y; rseq_smp_mb(); s->x = 1; r[0] = f; } T(lb_bc) { s->z = s->y; long f = ACQ(y); s->x = 1; r[0] = f; }
/* ---- coherence and single copies ---- */
T(co_w) { W1(x, 1); W1(x, 2); } T(co_r) { r[0] = R1(x); r[1] = R1(x); } T(co_ra) { r[0] = ACQ(x); r[1] = ACQ(x); } T(co_wr) { REL(x, 1); REL(x, 2); }
T(te_w) { W1(x, 0x1111222233334444L); } T(te_wr) { REL(x, 0x1111222233334444L); } T(te_wv) { long v = s->w; REL(x, v + 0x1111222233334444L); } T(te_r) { r[0] = R1(x); } T(te_ra) { r[0] = ACQ(x); }
/* ---- chains over three threads ---- */
T(ch_m) { if (ACQ(y)) REL(z, 1); } T(ch_mb) { long f = R1(y); rseq_smp_mb(); if (f) W1(z, 1); } T(ch_r) { r[2] = s->x; if (ACQ(z)) { r[0] = 1; r[1] = s->x; } } T(ch_rm) { r[2] = s->x; long f = R1(z); rseq_smp_rmb(); r[1] = s->x; r[0] = f != 0; }

#ifndef LIT_X
#define N(a) { #a, a }
static const struct { const char *n; thr_t f; } WR[] = { N(w_rel), N(w_rel_d), N(w_rel_z), N(w_wmb), N(w_wmb_d), N(w_wmb_p), N(w_mb), N(w_mb_d), N(w_mb_p), N(w_once), N(w_loop), N(w_loop_m), N(w_copy), N(w_ss_cpu), N(w_mc_cpu), N(w_mcx_cpu), N(w_ss_cid), N(w_mc_cid), N(w_mcx_cid) },
	RD[] = { N(r_acq), N(r_acq_c), N(r_acq_n), N(r_rmb), N(r_rmb_c), N(r_rmb_p), N(r_mb), N(r_mb_c), N(r_ctl), N(r_ctl_c), N(r_wait), N(r_wait_o), N(r_wait_m), N(r_two), N(r_once) },
	ZW[] = { N(w_rel_z), N(w_ss_cpu), N(w_mc_cpu), N(w_mcx_cpu), N(w_ss_cid), N(w_mc_cid), N(w_mcx_cid) },
	SA[] = { N(sb_a), N(sb_ap), N(sb_ac), N(sb_ar) }, SB[] = { N(sb_b), N(sb_bp), N(sb_bc), N(sb_br) }, LA[] = { N(lb_a), N(lb_am) }, LB[] = { N(lb_b), N(lb_bm), N(lb_bc) }, WA[] = { N(ww_a), N(ww_am), N(ww_ar) }, WB[] = { N(ww_b), N(ww_bm), N(ww_br) },
	CW[] = { N(co_w), N(co_wr) }, CR[] = { N(co_r), N(co_ra) }, TW[] = { N(te_w), N(te_wr), N(te_wv) }, TR[] = { N(te_r), N(te_ra) }, CM[] = { N(ch_m), N(ch_mb) }, CX[] = { N(ch_r), N(ch_rm) }, Sa[] = { N(s_a), N(s_am) }, Sb[] = { N(s_b), N(s_bm) };
static const struct { const char *n; thr_t f; } LW[] = {
#define LWS(x) N(l_cs##x), N(l_add##x), N(l_cbeq##x), N(l_off##x), N(l_cc##x), N(l_ss##x), N(l_mc##x), N(l_mcx##x), N(l_ssx##x)
	LWS(_cpu), LWS(_cid), N(w_once), N(w_rel), N(w_mb_p) },
	LR[] = {
#define LRS(x) N(k_cs##x), N(k_cc##x), N(k_ss##x), N(k_mc##x), N(k_cbeq##x)
	LRS(_cpu), LRS(_cid), N(r_acq_c), N(r_rmb_p), N(r_once), N(r_wait) };
#define LEN(a) ((int) (sizeof(a) / sizeof((a)[0])))
#ifdef __cplusplus
extern "C" {
#endif
struct litmus L[2000]; int nL; static char names[2000][64];
static void add(int kind, int nt, const char *a, thr_t f, const char *b, thr_t g, const char *d, thr_t h, int flag)
{
	char *o = names[nL]; for (int i = 0; i < 3; i++) { const char *q = i == 0 ? a : i == 1 ? b : d; if (!q) break; if (i) *o++ = '+'; while (*q) *o++ = *q++; }
	struct litmus *l = &L[nL]; l->name = names[nL]; l->kind = kind; l->nt = nt; l->t[0] = f; l->t[1] = g; l->t[2] = h; l->flag = flag; nL++;
}
void litmus_list(void)
{
	for (int i = 0; i < LEN(WR); i++) for (int j = 0; j < LEN(RD); j++) { if (!(WR[i].f == w_once || RD[j].f == r_once) || (WR[i].f == w_once && RD[j].f == r_once)) add(K_MP, 2, WR[i].n, WR[i].f, RD[j].n, RD[j].f, 0, 0, 0); }
	for (int i = 0; i < LEN(ZW); i++) add(K_MP, 2, ZW[i].n, ZW[i].f, "r_z", r_z, 0, 0, 0);
	add(K_MP, 2, "w_i", w_i, "r_i", r_i, 0, 0, 0); add(K_MP, 2, "w_h", w_h, "r_h", r_h, 0, 0, 0); add(K_MP, 2, "w_b", w_b, "r_b", r_b, 0, 0, 0); add(K_MP, 2, "w_p", w_p, "r_p", r_p, 0, 0, 0);
	for (int i = 0; i < LEN(SA); i++) for (int j = 0; j < LEN(SB); j++) add(K_SB, 2, SA[i].n, SA[i].f, SB[j].n, SB[j].f, 0, 0, 0);
	add(K_CTRL_SB, 2, "sb_an", sb_an, "sb_bn", sb_bn, 0, 0, 0);
	add(K_R, 2, "r_ra", r_ra, "r_rb", r_rb, 0, 0, 0);
	for (int i = 0; i < LEN(Sa); i++) for (int j = 0; j < LEN(Sb); j++) add(K_S, 2, Sa[i].n, Sa[i].f, Sb[j].n, Sb[j].f, 0, 0, 0);
	for (int i = 0; i < LEN(LA); i++) for (int j = 0; j < LEN(LB); j++) add(K_LB, 2, LA[i].n, LA[i].f, LB[j].n, LB[j].f, 0, 0, 0);
	for (int i = 0; i < LEN(WA); i++) for (int j = 0; j < LEN(WB); j++) add(K_22W, 2, WA[i].n, WA[i].f, WB[j].n, WB[j].f, 0, 0, 0);
	for (int i = 0; i < LEN(LW); i++) for (int j = 0; j < LEN(LR); j++) if (i < LEN(LW) - 3 || j < LEN(LR) - 4) add(K_SAME, 2, LW[i].n, LW[i].f, LR[j].n, LR[j].f, 0, 0, 0);
	for (int i = 0; i < LEN(CW); i++) for (int j = 0; j < LEN(CR); j++) add(K_CORR, 2, CW[i].n, CW[i].f, CR[j].n, CR[j].f, 0, 0, 0);
	for (int i = 0; i < LEN(TW); i++) for (int j = 0; j < LEN(TR); j++) add(K_TEAR, 2, TW[i].n, TW[i].f, TR[j].n, TR[j].f, 0, 0, 0);
	for (int i = 0; i < LEN(WR); i++) if (WR[i].f != w_once) for (int j = 0; j < LEN(CM); j++) for (int k = 0; k < LEN(CX); k++) { int h = i >= 13; if (h && WR[i].f != w_mcx_cpu && WR[i].f != w_mcx_cid) continue; if (WR[i].f == w_rel_z || h) continue; add(K_CHAIN, 3, WR[i].n, WR[i].f, CM[j].n, CM[j].f, CX[k].n, CX[k].f, 0); }
}
#ifdef __cplusplus
}
#endif
#endif
