/* Runs every aliasing instantiation for every outcome and compares memory and live values with the pseudo-code. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <signal.h>
#include <ucontext.h>
#include "alias.h"
#ifndef NPART
# define NPART 16
#endif
#define EACH(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15)
#define DECL(n) extern const struct alias_ent alias_##n[];
#define REF(n) alias_##n,
EACH(DECL)
static const struct alias_ent *const parts[NPART] = { EACH(REF) };
ptrdiff_t rseq_offset; unsigned int rseq_size = 28, rseq_flags; long al_after[5]; intptr_t al_in[3], al_mem[3], al_out[3];
static struct { uint32_t cpu_id_start, cpu_id; uint64_t cs; uint32_t flags, node_id, mm_cid, pad; } area __attribute__((aligned(64)));
#define NW 512
static long *W, ref[NW], before[NW];	/* words: M 0.., b 128.., s 256.., chain 384.. */
#define RG(addr) (*(intptr_t *) ((char *) ref + ((uint64_t) (addr) - (uint64_t) W)))
static int ref_op(int kind, const struct sargs *a)
{
	intptr_t r1;
	switch (kind) {
	case K_CBNE_ST: if (RG(a->v) != a->expect) return 1; RG(a->v) = a->newv; return 0;
	case K_POP: r1 = RG(a->v); if (r1 == a->expect) return 1; RG(a->load) = r1; RG(a->v) = RG(r1 + a->off); return 0;
	case K_ADD: RG(a->v) = (intptr_t) ((uint64_t) RG(a->v) + (uint64_t) a->inc); return 0;
	case K_OFFADD: r1 = RG(RG(a->v) + a->off); RG(r1) = (intptr_t) ((uint64_t) RG(r1) + (uint64_t) a->inc); return 0;
	case K_CBNE_ST_ST: if (RG(a->v) != a->expect) return 1; RG(a->v2) = a->x2; RG(a->v) = a->newv; return 0;
	case K_CBNE_CBNE_ST: if (RG(a->v) != a->expect || RG(a->v2) != a->x2) return 1; RG(a->v) = a->newv; return 0;
	case K_CBNE_MEMCPY_ST: if (RG(a->v) != a->expect) return 1; memcpy(&RG(a->dst), &RG(a->src), a->len); RG(a->v) = a->newv; return 0;
	}
	return -1;
}
static sigjmp_buf jb; static volatile int active;
static void on_sig(int sig) { if (active) siglongjmp(jb, sig); signal(sig, SIG_DFL); }
int main(int argc, char **argv)
{
	const char *out = "/tmp/alias.txt"; int shard = 0, nshard = 1; unsigned long fns = 0, cases = 0, rets[3] = { 0, 0, 0 };
	for (int i = 1; i < argc; i++) { if (!strncmp(argv[i], "out=", 4)) out = argv[i] + 4; else if (!strncmp(argv[i], "shard=", 6)) sscanf(argv[i] + 6, "%d/%d", &shard, &nshard); }
	struct sigaction sa = { .sa_handler = on_sig, .sa_flags = SA_NODEFER }; sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGILL, &sa, NULL); sigaction(SIGTRAP, &sa, NULL); sigaction(SIGABRT, &sa, NULL);
	/* room around the areas, so that a stray write is seen rather than fatal */
	W = (long *) calloc(1, NW * sizeof(long) + 8192); W = (long *) (((uintptr_t) W + 4096 + 63) & ~63UL);
	rseq_offset = (char *) &area - (char *) __builtin_thread_pointer();
	for (int q = 0; q < NPART; q++) if (q % nshard == shard) for (const struct alias_ent *e = parts[q]; e->name; e++) {
		fns++;
		for (int same = 0; same < 2; same++) for (int pi = 0; pi < 3; pi++) for (int ci = 0; ci < 2; ci++) for (int hit = 0; hit < 2; hit++) for (int eq = 0; eq < 3; eq++) {
			char *M = (char *) W, *b = same ? M : (char *) (W + 128), *s = (char *) (W + 256); long p = (long[]) { 8, 3, 0 }[pi]; int c = ci ? 3 : 8; struct sargs a; memset(&a, 0, sizeof(a));
			for (int i = 0; i < NW; i++) W[i] = 0x7700000000000000L + i * 0x0101;
			e->fill(M, b, s, p, c, &a);
			intptr_t cell = (intptr_t) (W + 400);
			if (e->kind == K_POP) *a.v = eq ? a.expect : cell - a.off;
			else if (e->kind == K_OFFADD) { *a.v = cell - a.off; W[400] = (intptr_t) (W + 420); }
			else if (e->kind == K_CBNE_CBNE_ST) { *a.v2 = eq == 1 ? a.x2 : a.x2 + 1; *a.v = eq ? a.expect : a.expect + 1; if (eq == 1 && a.v2 != a.v) *a.v2 = a.x2; }
			else if (e->kind != K_ADD) *a.v = eq ? a.expect : a.expect + 1;
			memset(&area, 0, sizeof(area)); area.node_id = 5; uint32_t on = hit ? (uint32_t) a.cpu : (uint32_t) a.cpu ^ 1, off = (uint32_t) a.cpu ^ (hit ? 1 : 0);
			area.cpu_id_start = area.cpu_id = e->mode ? off : on; area.mm_cid = e->mode ? on : off;
			memcpy(ref, W, sizeof(ref)); memcpy(before, W, sizeof(before)); int want = hit ? ref_op(e->kind, &a) : -1, got, sig; char msg[400]; msg[0] = 0; cases++; memset(al_after, 0, sizeof(al_after));
#ifdef AL_MEM
			intptr_t *cell_[3]; int nc = 0; cell_[nc++] = a.v; if (e->kind == K_POP) { cell_[nc++] = a.load; cell_[nc++] = (intptr_t *) W + 400; } else if (e->kind == K_OFFADD) { cell_[nc++] = (intptr_t *) W + 400; cell_[nc++] = (intptr_t *) W + 420; }
			else if (e->kind == K_CBNE_ST_ST || e->kind == K_CBNE_CBNE_ST) cell_[nc++] = a.v2; else if (e->kind == K_CBNE_MEMCPY_ST) { cell_[nc++] = (intptr_t *) a.dst; cell_[nc++] = (intptr_t *) a.src; }
			intptr_t end_[3]; for (int i = 0; i < nc; i++) { al_in[i] = *cell_[i]; al_mem[i] = 0x0bad; al_out[i] = 0x5151 + i; end_[i] = *(intptr_t *) ((char *) ref + ((char *) cell_[i] - (char *) W)); }
			for (int i = 0; i < nc; i++) { *cell_[i] = 0x1234567; *(intptr_t *) ((char *) ref + ((char *) cell_[i] - (char *) W)) = al_out[i]; }
#endif
			if (!(sig = sigsetjmp(jb, 1))) { active = 1; got = e->call(M, b, s, p, c); active = 0; } else { active = 0; got = 99; snprintf(msg, sizeof(msg), "crashed with signal %d", sig); }
			if (!msg[0] && got != want) snprintf(msg, sizeof(msg), "returned %d, the specification says %d", got, want);
			for (int i = 0; !msg[0] && i < NW; i++) if (W[i] != ref[i]) snprintf(msg, sizeof(msg), "memory word %d is %#lx, the specification says %#lx (return %d)", i, W[i], ref[i], got);
#ifdef AL_MEM
			for (int i = 0; !msg[0] && i < nc; i++) if (al_mem[i] != end_[i]) snprintf(msg, sizeof(msg), "the caller reads %#lx from memory word %ld right after the call, the specification says %#lx (return %d)", (long) al_mem[i], (long) (cell_[i] - (intptr_t *) W), (long) end_[i], got);
#endif
			if (!msg[0] && (al_after[0] != (long) M || al_after[1] != (long) b || al_after[2] != (long) s || al_after[3] != p || al_after[4] != c)) snprintf(msg, sizeof(msg), "the caller's variables changed: p=%ld c=%ld (return %d)", al_after[3], al_after[4], got);
			if (msg[0]) {
				FILE *f = fopen(out, "w"); if (f) { fprintf(f, "%s\n%s\nM=%p b=%p s=%p p=%ld c=%d; id %s; v=%p *v=%#lx expect=%#lx newv=%#lx v2=%p x2=%#lx dst=%p src=%p len=%zu off=%#lx inc=%#lx load=%p\n", e->name, msg, (void *) M, (void *) b, (void *) s, p, c, hit ? "current" : "other", (void *) a.v, a.v ? before[a.v - W] : 0, a.expect, a.newv, (void *) a.v2, a.x2, a.dst, a.src, a.len, a.off, a.inc, (void *) a.load); fclose(f); }
				printf("{\"violation\": \"%s with p=%ld: %s\"}\n", e->name, p, msg); return 1;
			}
			rets[got == 0 ? 0 : got == 1 ? 1 : 2]++;
		}
	}
	printf("{\"functions\": %lu, \"cases\": %lu, \"ret0\": %lu, \"ret1\": %lu, \"retm1\": %lu}\n", fns, cases, rets[0], rets[1], rets[2]);
	return 0;
}
