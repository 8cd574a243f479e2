/* Wrappers around the public helpers: every operand and NCAN further values are live across the call. */
#include <stdlib.h>
#include <string.h>
#include <rseq/rseq.h>
#include "subj.h"
#ifndef NCAN
# define NCAN 5
#endif
#define NI __attribute__((noinline, used)) static
#define LOADCAN intptr_t c0=a->can_in[0],c1=a->can_in[1],c2=a->can_in[2],c3=a->can_in[3],c4=a->can_in[4],c5=a->can_in[5],c6=a->can_in[6],c7=a->can_in[7],c8=a->can_in[8],c9=a->can_in[9]; \
	(void)c0;(void)c1;(void)c2;(void)c3;(void)c4;(void)c5;(void)c6;(void)c7;(void)c8;(void)c9;
#define SC(n) if (NCAN > n) a->can_out[n] = c##n;
#define SAVECAN SC(0) SC(1) SC(2) SC(3) SC(4) SC(5) SC(6) SC(7) SC(8) SC(9)
#define SAVEOPS a->after[0]=(intptr_t)v; a->after[1]=expect; a->after[2]=newv; a->after[3]=(intptr_t)v2; a->after[4]=x2; \
	a->after[5]=(intptr_t)dst; a->after[6]=(intptr_t)src; a->after[7]=(intptr_t)len; a->after[8]=off; a->after[9]=inc; a->after[10]=(intptr_t)load; a->after[11]=cpu;
#define LOADOPS intptr_t *v=a->v, expect=a->expect, newv=a->newv, *v2=a->v2, x2=a->x2; void *dst=a->dst,*src=a->src; size_t len=a->len; \
	long off=a->off; intptr_t inc=a->inc, *load=a->load; int cpu=(int)a->cpu; \
	(void)v;(void)expect;(void)newv;(void)v2;(void)x2;(void)dst;(void)src;(void)len;(void)off;(void)inc;(void)load;(void)cpu;
#define W(name, expr) NI int name(struct sargs *a) { LOADOPS LOADCAN int r = (expr); SAVECAN SAVEOPS_##__LINE__ return r; }
#undef W
/* Save only the operands the call used: keeps the live set at what a caller would have. */
#define S1(n, val) a->after[n] = (intptr_t)(val);
#define CALL_CBNE_ST(mo,mode)	rseq_load_cbne_store__ptr(mo,mode,v,expect,newv,cpu)
#define SAVE_CBNE_ST		S1(0,v) S1(1,expect) S1(2,newv) S1(11,cpu)
#define CALL_POP(mo,mode)	rseq_load_cbeq_store_add_load_store__ptr(mo,mode,v,expect,off,load,cpu)
#define SAVE_POP		S1(0,v) S1(1,expect) S1(8,off) S1(10,load) S1(11,cpu)
#define CALL_ADD(mo,mode)	rseq_load_add_store__ptr(mo,mode,v,inc,cpu)
#define SAVE_ADD		S1(0,v) S1(9,inc) S1(11,cpu)
#define CALL_OFFADD(mo,mode)	rseq_load_add_load_load_add_store__ptr(mo,mode,v,off,inc,cpu)
#define SAVE_OFFADD		S1(0,v) S1(8,off) S1(9,inc) S1(11,cpu)
#define CALL_CBNE_ST_ST(mo,mode) rseq_load_cbne_store_store__ptr(mo,mode,v,expect,v2,x2,newv,cpu)
#define SAVE_CBNE_ST_ST		S1(0,v) S1(1,expect) S1(2,newv) S1(3,v2) S1(4,x2) S1(11,cpu)
#define CALL_CBNE_CBNE_ST(mo,mode) rseq_load_cbne_load_cbne_store__ptr(mo,mode,v,expect,v2,x2,newv,cpu)
#define SAVE_CBNE_CBNE_ST	S1(0,v) S1(1,expect) S1(2,newv) S1(3,v2) S1(4,x2) S1(11,cpu)
#define CALL_CBNE_MEMCPY_ST(mo,mode) rseq_load_cbne_memcpy_store__ptr(mo,mode,v,expect,dst,src,len,newv,cpu)
#define SAVE_CBNE_MEMCPY_ST	S1(0,v) S1(1,expect) S1(2,newv) S1(5,dst) S1(6,src) S1(7,len) S1(11,cpu)
#define RLX RSEQ_MO_RELAXED
#define REL RSEQ_MO_RELEASE
#define CPU RSEQ_PERCPU_CPU_ID
#define CID RSEQ_PERCPU_MM_CID
#define F(K,mo,mode) NI int w_##K##_##mo##_##mode(struct sargs *a) { LOADOPS LOADCAN int r = CALL_##K(mo,mode); SAVECAN SAVE_##K return r; }
#define BOTH(K,mo) F(K,mo,CPU) F(K,mo,CID)
BOTH(CBNE_ST,RLX) BOTH(POP,RLX) BOTH(ADD,RLX)
#ifdef rseq_arch_has_load_add_load_load_add_store
BOTH(OFFADD,RLX)
#endif
BOTH(CBNE_ST_ST,RLX) BOTH(CBNE_ST_ST,REL) BOTH(CBNE_CBNE_ST,RLX) BOTH(CBNE_MEMCPY_ST,RLX) BOTH(CBNE_MEMCPY_ST,REL)
NI int w_unload(struct sargs *a) { (void)a; rseq_prepare_unload(); return 0; }
NI int w_clear(struct sargs *a) { (void)a; rseq_clear_rseq_cs(); return 0; }

#ifdef WITH_CONST
/* Compile-time constant operands. */
#define KI(n,K,mode,c) NI int k_##K##_inc##n##_##mode(struct sargs *a) { LOADOPS LOADCAN (void)inc; enum { dummy##n }; { const intptr_t inc = (intptr_t)(c); int r = CALL_##K(RLX,mode); SAVECAN SAVE_##K return r; } }
#define KO(n,K,mode,c) NI int k_##K##_off##n##_##mode(struct sargs *a) { LOADOPS LOADCAN (void)off; { const long off = (long)(c); int r = CALL_##K(RLX,mode); SAVECAN SAVE_##K return r; } }
#define KL(n,K,mo,mode,c) NI int k_##K##_len##n##_##mo##_##mode(struct sargs *a) { LOADOPS LOADCAN (void)len; { const size_t len = (c); int r = CALL_##K(mo,mode); SAVECAN SAVE_##K return r; } }
#define CONSTS(X,...) X(0,__VA_ARGS__,1) X(1,__VA_ARGS__,-1) X(2,__VA_ARGS__,127) X(3,__VA_ARGS__,128) X(4,__VA_ARGS__,-129) X(5,__VA_ARGS__,0x7fffffffL) \
	X(6,__VA_ARGS__,-0x80000000L) X(7,__VA_ARGS__,0x80000000L) X(8,__VA_ARGS__,0xffffffffL) X(9,__VA_ARGS__,0x123456789abcdefL) X(10,__VA_ARGS__,0) X(11,__VA_ARGS__,8) X(12,__VA_ARGS__,-16) X(13,__VA_ARGS__,(-0x7fffffffffffffffL-1))
CONSTS(KI,ADD,CPU) CONSTS(KI,ADD,CID) CONSTS(KO,POP,CPU) CONSTS(KO,POP,CID)
#ifdef rseq_arch_has_load_add_load_load_add_store
CONSTS(KI,OFFADD,CPU) CONSTS(KI,OFFADD,CID) CONSTS(KO,OFFADD,CPU) CONSTS(KO,OFFADD,CID)
#endif
#define LENS(X,...) X(0,__VA_ARGS__,0) X(1,__VA_ARGS__,1) X(2,__VA_ARGS__,7) X(3,__VA_ARGS__,8) X(4,__VA_ARGS__,17)
LENS(KL,CBNE_MEMCPY_ST,RLX,CPU) LENS(KL,CBNE_MEMCPY_ST,RLX,CID) LENS(KL,CBNE_MEMCPY_ST,REL,CPU) LENS(KL,CBNE_MEMCPY_ST,REL,CID)
#endif

#ifdef __cplusplus
extern "C" {
#endif
int subj_generic(int kind, int mo, int mode, struct sargs *a)
{
	LOADOPS
	enum rseq_mo m = (enum rseq_mo) mo; enum rseq_percpu_mode pm = (enum rseq_percpu_mode) mode;
	switch (kind) {
	case K_CBNE_ST: return CALL_CBNE_ST(m, pm);
	case K_POP: return CALL_POP(m, pm);
	case K_ADD: return CALL_ADD(m, pm);
#ifdef rseq_arch_has_load_add_load_load_add_store
	case K_OFFADD: return CALL_OFFADD(m, pm);
#endif
	case K_CBNE_ST_ST: return CALL_CBNE_ST_ST(m, pm);
	case K_CBNE_CBNE_ST: return CALL_CBNE_CBNE_ST(m, pm);
	case K_CBNE_MEMCPY_ST: return CALL_CBNE_MEMCPY_ST(m, pm);
	}
	return -1;
}
#define E(K,mo,mode,imo,imode) { #K "." #mo "." #mode, K_##K, imo, imode, 0,0,0,0, w_##K##_##mo##_##mode },
#define EB(K,mo,imo) E(K,mo,CPU,imo,0) E(K,mo,CID,imo,1)
#define EKI(n,K,mode,c) { "K" #K ".inc=" #c "." #mode, K_##K, 0, mode==CID, 2,0,(long)(c),0, k_##K##_inc##n##_##mode },
#define EKO(n,K,mode,c) { "K" #K ".off=" #c "." #mode, K_##K, 0, mode==CID, 1,(long)(c),0,0, k_##K##_off##n##_##mode },
#define EKL(n,K,mo,mode,c) { "K" #K ".len=" #c "." #mo "." #mode, K_##K, mo==REL, mode==CID, 4,0,0,(c), k_##K##_len##n##_##mo##_##mode },
extern const struct subj_ent subj_table[];
const struct subj_ent subj_table[] = {
EB(CBNE_ST,RLX,0) EB(POP,RLX,0) EB(ADD,RLX,0)
#ifdef rseq_arch_has_load_add_load_load_add_store
EB(OFFADD,RLX,0)
#endif
EB(CBNE_ST_ST,RLX,0) EB(CBNE_ST_ST,REL,1) EB(CBNE_CBNE_ST,RLX,0) EB(CBNE_MEMCPY_ST,RLX,0) EB(CBNE_MEMCPY_ST,REL,1)
{ "UNLOAD", K_UNLOAD, 0, 0, 0,0,0,0, w_unload },
{ "CLEAR", K_CLEAR, 0, 0, 0,0,0,0, w_clear },
#ifdef WITH_CONST
CONSTS(EKI,ADD,CPU) CONSTS(EKI,ADD,CID) CONSTS(EKO,POP,CPU) CONSTS(EKO,POP,CID)
#ifdef rseq_arch_has_load_add_load_load_add_store
CONSTS(EKI,OFFADD,CPU) CONSTS(EKI,OFFADD,CID) CONSTS(EKO,OFFADD,CPU) CONSTS(EKO,OFFADD,CID)
#endif
LENS(EKL,CBNE_MEMCPY_ST,RLX,CPU) LENS(EKL,CBNE_MEMCPY_ST,RLX,CID) LENS(EKL,CBNE_MEMCPY_ST,REL,CPU) LENS(EKL,CBNE_MEMCPY_ST,REL,CID)
#endif
};
extern const int subj_nr, subj_ncan;
const int subj_nr = sizeof(subj_table) / sizeof(subj_table[0]), subj_ncan = NCAN;
extern const uint32_t subj_sig;
const uint32_t subj_sig = RSEQ_SIG;
#ifdef __cplusplus
}
#endif
