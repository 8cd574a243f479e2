/*
 * Explicit-state exploration of the compiled litmus threads under x86-TSO.  Every instruction is executed by the processor
 * itself (trap flag); loads see the thread's own store buffer first, stores go to the buffer and are flushed one at a time,
 * locked instructions and mfence need an empty buffer.  All interleavings of accesses and flushes are explored.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stddef.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <rseq/rseq.h>
#include "litmus.h"
extern struct litmus L[]; extern int nL; void litmus_list(void);
ptrdiff_t rseq_offset; unsigned int rseq_size = 28, rseq_flags;
static __thread struct { _Alignas(1024) char b[1024]; } area __attribute__((tls_model("initial-exec")));
#define AREA 64
#define SH_ADDR ((struct sh *) 0x200000000000UL)
#define STK ((char *) 0x210000000000UL)
#define STKSZ 16384
#define TOP (STK + STKSZ - 256)
#define RES ((long *) (TOP + 64))
enum { ACCESS, LOCKED, DONE, BAD };
struct node { greg_t g[17]; int kind; uint16_t slen; char ar[AREA]; long res[4]; char *stk; uint64_t hash; };
static struct node *N; static int nN, capN;
static void done_stub(void) { for (;;) ; }
static struct sh *S = SH_ADDR;
static struct node work; static int mode_step, ran; static ucontext_t mainctx; static volatile int stop_kind; static uint64_t n_instr;
static const int GR[17] = { REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15, REG_RDI, REG_RSI, REG_RBP, REG_RBX, REG_RDX, REG_RAX, REG_RCX, REG_RSP, REG_RIP };
static greg_t w_eflags;
static int is_locked(const uint8_t *p)
{
	for (;; p++) { uint8_t b = *p; if (b == 0xf0) return 1; if (b == 0x66 || b == 0x67 || b == 0xf2 || b == 0xf3 || b == 0x2e || b == 0x36 || b == 0x3e || b == 0x26 || b == 0x64 || b == 0x65) continue; break; }
	if ((*p & 0xf0) == 0x40) p++;
	if ((*p == 0x86 || *p == 0x87) && (p[1] >> 6) != 3) return 1;
	return p[0] == 0x0f && p[1] == 0xae && p[2] == 0xf0;
}
static void save(ucontext_t *u) { for (int i = 0; i < 17; i++) work.g[i] = u->uc_mcontext.gregs[GR[i]]; w_eflags = u->uc_mcontext.gregs[REG_EFL]; }
static void back(ucontext_t *u, int kind) { save(u); stop_kind = kind; memcpy(u->uc_mcontext.gregs, mainctx.uc_mcontext.gregs, sizeof(u->uc_mcontext.gregs)); u->uc_mcontext.gregs[REG_EFL] &= ~0x100L; }
static volatile int in_thread; static char crash[200];
static void on_sig(int sig, siginfo_t *si, void *uc)
{
	ucontext_t *u = uc; greg_t ip = u->uc_mcontext.gregs[REG_RIP];
	if (!in_thread) {
		if (sig != SIGTRAP) { signal(sig, SIG_DFL); return; }
		memcpy(&mainctx.uc_mcontext.gregs, u->uc_mcontext.gregs, sizeof(mainctx.uc_mcontext.gregs)); in_thread = 1; ran = 0;
		for (int i = 0; i < 17; i++) u->uc_mcontext.gregs[GR[i]] = work.g[i];
		u->uc_mcontext.gregs[REG_EFL] = (w_eflags & ~0x100L) | 0x100; return;
	}
	if (sig == SIGTRAP) {
		n_instr++; ran++;
		if (ip == (greg_t) done_stub) { in_thread = 0; back(u, DONE); return; }
		if (mode_step) { in_thread = 0; back(u, -1); return; }
		if (is_locked((uint8_t *) ip)) { in_thread = 0; back(u, LOCKED); return; }
		if (ran > 20000) { in_thread = 0; snprintf(crash, sizeof(crash), "a thread runs on without looking at shared memory again"); back(u, BAD); return; }
		u->uc_mcontext.gregs[REG_EFL] |= 0x100; return;
	}
	if (sig == SIGSEGV && (char *) si->si_addr >= (char *) S && (char *) si->si_addr < (char *) S + 4096 && !mode_step) { in_thread = 0; back(u, ACCESS); return; }
	in_thread = 0; snprintf(crash, sizeof(crash), "a thread crashed with signal %d at %p", sig, (void *) ip); back(u, BAD);
}
static __attribute__((noinline)) void enter(void) { __asm__ __volatile__ ("int3" ::: "memory"); }
/* Loads a node's private state, runs, and leaves the result in `work`. */
static void load_node(const struct node *n) { work = *n; w_eflags = n->g[16] ? (greg_t) n->res[3] * 0 + 0x202 : 0x202; memcpy(STK + STKSZ - n->slen, n->stk, n->slen); memcpy(area.b, n->ar, AREA); }
static uint64_t hmem(uint64_t h, const void *p, size_t n) { const uint8_t *b = p; while (n--) { h ^= *b++; h *= 0x100000001b3UL; } return h; }
static greg_t node_fl[1 << 20];
#define NHB (1 << 16)
static int nhash[NHB];
static int intern(int kind)
{
	struct node n = work; n.kind = kind; char *sp = (char *) n.g[15] - 128; if (sp < STK) sp = STK; if (kind == DONE) sp = TOP; n.slen = STK + STKSZ - sp; memcpy(n.ar, area.b, AREA); memcpy(n.res, RES, sizeof(n.res)); n.stk = sp;
	if (kind == DONE) { memset(n.g, 0, sizeof(n.g)); memset(n.ar, 0, AREA); w_eflags = 0; }
	greg_t fl = w_eflags & 0xcd5;
	uint64_t h = hmem(hmem(hmem(hmem(kind, n.g, sizeof(n.g)), sp, n.slen), n.ar, AREA), &fl, 8); n.hash = h;
	for (int k = h % NHB; ; k = (k + 1) % NHB) {
		if (!nhash[k]) { if (nN == capN) { capN = capN ? capN * 2 : 1024; N = realloc(N, capN * sizeof(*N)); } if (nN >= NHB / 2) { printf("{\"error\": \"too many thread states\"}\n"); exit(2); } n.stk = malloc(n.slen); memcpy(n.stk, sp, n.slen); N[nN] = n; node_fl[nN] = fl; nhash[k] = ++nN; return nN - 1; }
		struct node *o = &N[nhash[k] - 1]; if (o->hash == h && o->kind == kind && o->slen == n.slen && !memcmp(o->g, n.g, sizeof(n.g)) && !memcmp(o->stk, sp, n.slen) && !memcmp(o->ar, n.ar, AREA) && node_fl[nhash[k] - 1] == fl) return nhash[k] - 1;
	}
}
static void protect(int open) { mprotect(S, 4096, open ? PROT_READ | PROT_WRITE : PROT_NONE); }
static int run_on(void)	/* to the next access, locked instruction or the end */
{
	if ((greg_t) done_stub == work.g[16]) return intern(DONE);
	if (is_locked((uint8_t *) work.g[16])) return intern(LOCKED);
	mode_step = 0; enter(); return intern(stop_kind);
}
static int start(thr_t f)
{
	memset(STK, 0, STKSZ); memset(area.b, 0, sizeof(area.b)); memset(&work, 0, sizeof(work)); w_eflags = 0x202;
	long *sp = (long *) (TOP - 8); *sp = (long) done_stub; memset(RES, 0, 4 * sizeof(long));
	work.g[15] = (greg_t) sp; work.g[16] = (greg_t) f; work.g[8] = (greg_t) S; work.g[9] = (greg_t) RES; return run_on();
}
/* ---- one step of a thread: memoised on its state and what it can see ---- */
struct stp { int node; long view[NV]; int next, nst; uint8_t sv[4]; long sval[4]; int used; };
#define SHB (1 << 18)
static struct stp *steps; static int nsteps;
static volatile long *slot(int v) { return (volatile long *) ((char *) S + 64 * v); }
static struct stp *step(int node, const long *view)
{
	uint64_t h = hmem(hmem(0xcbf29ce484222325UL, &node, 4), view, sizeof(long) * NV); int k = h % SHB;
	for (; steps[k].used; k = (k + 1) % SHB) if (steps[k].node == node && !memcmp(steps[k].view, view, sizeof(long) * NV)) return &steps[k];
	if (++nsteps > SHB / 2) { printf("{\"error\": \"too many steps\"}\n"); exit(2); }
	struct stp *s = &steps[k]; s->used = 1; s->node = node; memcpy(s->view, view, sizeof(long) * NV); s->nst = 0;
	load_node(&N[node]); w_eflags = node_fl[node] | 0x202; protect(1); for (int v = 0; v < NV; v++) *slot(v) = view[v];
	mode_step = 1; enter();
	for (int v = 0; v < NV; v++) if (*slot(v) != view[v]) { if (s->nst == 4) { printf("{\"error\": \"too many stores\"}\n"); exit(2); } s->sv[s->nst] = v; s->sval[s->nst++] = *slot(v); }
	protect(0);
	s->next = stop_kind == BAD ? intern(BAD) : stop_kind == DONE ? intern(DONE) : run_on(); return s;
}
/* ---- the exploration ---- */
#define MAXB 6
struct st { int n[MAXTH]; uint8_t nb[MAXTH], bv[MAXTH][MAXB]; long bx[MAXTH][MAXB], m[NV]; };
static struct st *Q; static int nQ, capQ, *parent; static int *qh; static int qhn = 1 << 20;
static int add_st(const struct st *s, int par)
{
	uint64_t h = hmem(0xcbf29ce484222325UL, s, sizeof(*s)); int k = h & (qhn - 1);
	for (; qh[k]; k = (k + 1) & (qhn - 1)) if (!memcmp(&Q[qh[k] - 1], s, sizeof(*s))) return 0;
	if (nQ >= qhn / 2) { printf("{\"error\": \"too many states\"}\n"); exit(2); }
	if (nQ == capQ) { capQ = capQ ? capQ * 2 : 4096; Q = realloc(Q, capQ * sizeof(*Q)); parent = realloc(parent, capQ * sizeof(int)); }
	Q[nQ] = *s; parent[nQ] = par; qh[k] = ++nQ; return 1;
}
static char what[600];
static int judge(const struct litmus *l, const struct st *s, int *must)
{
	const long *r[MAXTH]; for (int t = 0; t < l->nt; t++) r[t] = N[s->n[t]].res; const long *m = s->m; const long *q = r[l->nt - 1];
	switch (l->kind) {
	case K_MP: case K_SAME: case K_CHAIN: if (q[0] && !q[1]) { snprintf(what, sizeof(what), "the flag was seen but the data published before it was not"); return 1; } if (r[0][3]) { snprintf(what, sizeof(what), "the release helper returned %ld", r[0][3]); return 1; } *must |= q[0] && q[1] ? 3 : 1; break;
	case K_SB: if (!r[0][0] && !r[1][0]) { snprintf(what, sizeof(what), "both threads missed the other's store across full barriers"); return 1; } *must |= 2 | !!(r[0][0] && r[1][0]); break;
	case K_CTRL_SB: if (!r[0][0] && !r[1][0]) *must |= 3; break;
	case K_R: if (m[1] == 2 && !r[1][0]) { snprintf(what, sizeof(what), "the later store did not come with the earlier one"); return 1; } *must = 3; break;
	case K_S: if (r[1][0] && m[0] == 2) { snprintf(what, sizeof(what), "a store after the barrier was overtaken by one published before the flag"); return 1; } if (r[1][0]) *must |= 3; break;
	case K_22W: if (m[0] == 1 && m[1] == 1) { snprintf(what, sizeof(what), "write barriers did not keep the stores in order"); return 1; } *must = 3; break;
	case K_LB: if (r[0][0] && r[1][0]) { snprintf(what, sizeof(what), "both threads read the other's later store"); return 1; } *must = 3; break;
	case K_CORR: if (r[1][0] > r[1][1]) { snprintf(what, sizeof(what), "a variable went back to an older value"); return 1; } if (r[1][0] != r[1][1]) *must |= 2; if (r[1][1] == 2) *must |= 1; break;
	case K_TEAR: if (r[1][0] && r[1][0] != 0x1111222233334444L) { snprintf(what, sizeof(what), "half a value was seen: %#lx", r[1][0]); return 1; } if (r[1][0]) *must |= 3; break;
	}
	return 0;
}
static const char *rp = "/tmp/l.txt"; static uint64_t tot_states, tot_trans, tot_out; static char sample[1500];
static void describe(FILE *f, const struct litmus *l, int i) { if (parent[i] >= 0) describe(f, l, parent[i]); const struct st *s = &Q[i]; for (int t = 0; t < l->nt; t++) fprintf(f, " T%d:%s buffer %d", t, N[s->n[t]].kind == DONE ? "done" : "at", s->nb[t]); fprintf(f, " | x=%ld y=%ld z=%ld\n", s->m[0], s->m[1], s->m[2]); }
static int explore(const struct litmus *l)
{
	nQ = 0; memset(qh, 0, qhn * sizeof(int)); for (int i = 0; i < nN; i++) free(N[i].stk); nN = 0; memset(nhash, 0, sizeof(nhash)); memset(steps, 0, SHB * sizeof(*steps)); nsteps = 0;
	struct st s; memset(&s, 0, sizeof(s)); crash[0] = 0; int must = 0, outs = 0;
	protect(1); memset(S, 0, 4096); protect(0);
	for (int t = 0; t < l->nt; t++) s.n[t] = start(l->t[t]);
	add_st(&s, -1);
	for (int i = 0; i < nQ; i++) {
		s = Q[i]; int fin = 1;
		for (int t = 0; t < l->nt; t++) {
			int k = N[s.n[t]].kind;
			if (k == BAD) { snprintf(what, sizeof(what), "%s", crash); goto bad; }
			if (k != DONE || s.nb[t]) fin = 0;
			if (s.nb[t]) { struct st n = s; n.m[n.bv[t][0]] = n.bx[t][0]; memmove(n.bv[t], n.bv[t] + 1, MAXB - 1); memmove(n.bx[t], n.bx[t] + 1, (MAXB - 1) * sizeof(long)); n.nb[t]--; n.bv[t][n.nb[t]] = 0; n.bx[t][n.nb[t]] = 0; n.bv[t][MAXB - 1] = 0; n.bx[t][MAXB - 1] = 0; tot_trans++; add_st(&n, i); }
			if (k == DONE || (k == LOCKED && s.nb[t]) || s.nb[t] >= MAXB - 1) continue;
			long view[NV]; memcpy(view, s.m, sizeof(view)); for (int b = 0; b < s.nb[t]; b++) view[s.bv[t][b]] = s.bx[t][b];
			struct stp *p = step(s.n[t], view); struct st n = s; n.n[t] = p->next;
			for (int j = 0; j < p->nst; j++) { if (k == LOCKED) n.m[p->sv[j]] = p->sval[j]; else { if (n.nb[t] == MAXB) { printf("{\"error\": \"store buffer\"}\n"); exit(2); } n.bv[t][n.nb[t]] = p->sv[j]; n.bx[t][n.nb[t]++] = p->sval[j]; } }
			tot_trans++; add_st(&n, i);
		}
		if (fin) { outs++; if (judge(l, &s, &must)) goto bad; }
		continue;
bad:
		{ FILE *f = fopen(rp, "w"); if (f) { fprintf(f, "violation: litmus %s: %s\n", l->name, what); describe(f, l, i); fclose(f); } printf("{\"violation\": \"litmus %s: %s\"}\n", l->name, what); return 1; }
	}
	tot_states += nQ; tot_out += outs;
	if (!outs) { printf("{\"violation\": \"litmus %s never ends\"}\n", l->name); return 1; }
	if (must != 3) {
		if (l->kind == K_CTRL_SB) { printf("{\"error\": \"the control test does not show store buffering\"}\n"); return 2; }
		printf("{\"violation\": \"litmus %s: a store or load that the program makes never happens (outcomes %d)\"}\n", l->name, must); return 1;
	}
	if (!sample[0]) snprintf(sample, sizeof(sample), "litmus %s: %d states, %d final states", l->name, nQ, outs);
	return 0;
}
int main(int argc, char **argv)
{
	int shard = 0, nshard = 1, verbose = 0, n = 0; for (int i = 1; i < argc; i++) { if (!strncmp(argv[i], "shard=", 6)) sscanf(argv[i] + 6, "%d/%d", &shard, &nshard); else if (!strncmp(argv[i], "out=", 4)) rp = argv[i] + 4; else if (!strcmp(argv[i], "-v")) verbose = 1; }
	qh = calloc(qhn, sizeof(int)); steps = calloc(SHB, sizeof(*steps));
	if (mmap(S, 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != S || mmap(STK, STKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != STK) { printf("{\"error\": \"mmap\"}\n"); return 2; }
	static char alt[65536]; stack_t ss = { .ss_sp = alt, .ss_size = sizeof(alt) }; sigaltstack(&ss, NULL);
	struct sigaction sa = { .sa_sigaction = on_sig, .sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER }; sigaction(SIGTRAP, &sa, NULL); sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGILL, &sa, NULL); sigaction(SIGFPE, &sa, NULL);
	rseq_offset = (char *) area.b - (char *) rseq_thread_pointer();
	litmus_list();
	for (int i = 0; i < nL; i++) { if (i % nshard != shard) continue; n++; int r = explore(&L[i]); if (verbose) fprintf(stderr, "%s: %d states, %d nodes\n", L[i].name, nQ, nN); if (r) { fflush(stdout); return r; } }
	printf("{\"litmus\": %d, \"states\": %lu, \"transitions\": %lu, \"outcomes\": %lu, \"instructions\": %lu, \"sample\": \"%s\"}\n", n, tot_states, tot_trans, tot_out, n_instr, sample);
	return 0;
}
