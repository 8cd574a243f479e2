/*
 * Explicit-state explorer for librseq's per-CPU critical sections (x86-64).
 *
 * The subject's compiled machine code is executed for real, one instruction at a time (trap flag), on
 * virtual threads that live in a memory image ("world") at a fixed address.  After every instruction the
 * complete state (registers, stacks, rseq areas, user memory, scheduling state) is captured, checked,
 * hashed and queued; kernel events (preemption, switch, migration, signal delivery) are further
 * transitions, applied exactly as the kernel's rseq abort rule prescribes.
 * The search runs inside the SIGTRAP handler, one signal delivery per executed instruction.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <ucontext.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <errno.h>
#include <time.h>
#include <stdarg.h>
#include <sys/wait.h>
#include "subj.h"

/* Symbols the headers expect (normally provided by librseq.so). */
ptrdiff_t rseq_offset;
unsigned int rseq_size = 32, rseq_flags;
int32_t rseq_fallback_current_cpu(void) { return 0; }
__attribute__((noreturn)) void subj_abort(void) { for (;;) __asm__ volatile("hlt"); }
int subj_fprintf(void *f, const char *fmt, ...) { (void)f; (void)fmt; return 0; }

#define SIG_EXPECT 0x53053053u
#define CPU_A 5
#define CPU_B 9
#define CID_A 3
#define CID_B 2
static const int cpu_no[2] = { CPU_A, CPU_B }, cid_no[2] = { CID_A, CID_B };

struct cs { uint32_t version, flags; uint64_t start, len, abort; };
struct rseqa { uint32_t cpu_id_start, cpu_id; uint64_t rseq_cs; uint32_t flags, node_id, mm_cid, pad; uint64_t tail[4]; } __attribute__((aligned(64)));

#ifndef NT
# define NT 2
#endif
#define STK 1280
#define NSH 192
/* First page: memory shared between threads or with the kernel.  From the second page on: private memory. */
struct priv { struct sargs a; uint8_t stack[STK] __attribute__((aligned(64))); };
struct world { uint64_t sh[NSH]; struct rseqa rs[NT] __attribute__((aligned(64))); uint8_t pad[4096 - NSH * 8 - NT * 64]; struct priv p[NT]; };
_Static_assert(sizeof(struct rseqa) == 64, "rseqa");
_Static_assert(offsetof(struct world, p) == 4096, "layout");
#define WBASE ((struct world *) 0x20000000000UL)
#define W WBASE

enum { TH_IDLE, TH_RUN, TH_DONE };
struct tctx {
	uint64_t r[18];		/* rax rbx rcx rdx rsi rdi rbp rsp r8..r15 rip eflags */
	int8_t status, cpu, nest /* host thread +1 if a signal handler */, ent;
	int8_t op;		/* index in this thread's program */
	uint8_t committed, wrote, condfalse, hit, mismatch, sigdone, evs;
};
enum { RAX, RBX, RCX, RDX, RSI, RDI, RBP, RSP, R8, R9, R10, R11, R12, R13, R14, R15, RIP, EFL };
static const int gidx[18] = { REG_RAX, REG_RBX, REG_RCX, REG_RDX, REG_RSI, REG_RDI, REG_RBP, REG_RSP, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15, REG_RIP, REG_EFL };

struct state {
	struct world w;
	struct tctx t[NT];
	int8_t cur[2];		/* current thread of each CPU, -1 none */
	uint8_t events, chaos;
} __attribute__((aligned(64)));

/* ---------- scenario ---------- */
struct opspec { int ent; struct sargs a; };
#define MAXOPS 3
static struct scen {
	char name[200];
	int nthreads, nops[NT];
	struct opspec op[NT][MAXOPS];
	uint64_t sh[NSH];
	int nest[NT];		/* thread is a signal handler of thread nest-1 */
	int unregistered;	/* 1: cpu_id=-1 2: cpu_id=-2 */
	int events_on, max_events, chaos_on, fixed_cpu;
} S;

static unsigned props;		/* bit n: property C0n monitored */
#define PR(n) (props & (1u << (n)))

/* ---------- search bookkeeping ---------- */
struct node { uint32_t parent; uint16_t act; };
static struct node *nodes; static uint32_t nnodes, capnodes;
struct hent { uint64_t a, b; };
static struct hent *htab; static uint64_t hcap, hcnt;
static struct qent { struct state *s; uint32_t node; } *queue; static uint64_t qh, qt, qcap;
static uint64_t n_states, n_trans, n_steps, n_kev, n_commit, n_abort, n_ret[3], max_states = 20000000;
static int violation; static char vmsg[600]; static uint32_t vnode; static uint16_t vact;
static int replaying; static uint16_t *rp_act; static int rp_n, rp_i; static FILE *rp_out;

enum { A_STEP = 0, A_SWITCH = 16, A_RESCHED = 32, A_MIGRATE = 48, A_SIGNAL = 64, A_CHAOS = 80 };

static void mix(uint64_t *h, uint64_t v) { *h ^= v; *h *= 0x9E3779B97F4A7C15ULL; *h ^= *h >> 29; }
static void hash_state(const struct state *s, uint64_t *pa, uint64_t *pb)
{
	const uint64_t *p = (const uint64_t *) s; size_t n = sizeof(*s) / 8, i = 0;
	uint64_t a = 0x1234567, b = 0xfeedface12345ULL, c = 7, d = 99;
	_Static_assert(sizeof(struct state) % 32 == 0, "state size");
	for (i = 0; i < n; i += 4) {
		if (i * 8 == offsetof(struct world, pad)) i = offsetof(struct world, p) / 8;
		a = (a ^ p[i]) * 0x9E3779B97F4A7C15ULL; a = (a << 31) | (a >> 33);
		b = (b ^ p[i+1]) * 0xC2B2AE3D27D4EB4FULL; b = (b << 29) | (b >> 35);
		c = (c ^ p[i+2]) * 0x165667B19E3779F9ULL; c = (c << 27) | (c >> 37);
		d = (d ^ p[i+3]) * 0xD6E8FEB86659FD93ULL; d = (d << 33) | (d >> 31);
	}
	uint64_t h = 0, g = 1; mix(&h, a); mix(&h, b); mix(&h, c); mix(&h, d);
	mix(&g, d); mix(&g, b ^ 0x55); mix(&g, a + 3); mix(&g, c);
	*pa = h; *pb = g | 1;
}
static int visit(const struct state *s)	/* 1 if new */
{
	uint64_t a, b; hash_state(s, &a, &b);
	if (hcnt * 2 >= hcap) {
		uint64_t nc = hcap ? hcap * 2 : 1 << 16; struct hent *n = calloc(nc, sizeof(*n));
		for (uint64_t i = 0; i < hcap; i++) if (htab[i].b) { uint64_t k = htab[i].a & (nc - 1); while (n[k].b) k = (k + 1) & (nc - 1); n[k] = htab[i]; }
		free(htab); htab = n; hcap = nc;
	}
	uint64_t k = a & (hcap - 1);
	while (htab[k].b) { if (htab[k].a == a && htab[k].b == b) return 0; k = (k + 1) & (hcap - 1); }
	htab[k].a = a; htab[k].b = b; hcnt++; return 1;
}
static void viol(const char *fmt, ...)
{
	va_list ap; if (violation) return;
	violation = 1; va_start(ap, fmt); vsnprintf(vmsg, sizeof(vmsg), fmt, ap); va_end(ap);
}

/* ---------- metadata of the subject ---------- */
extern struct cs __start___rseq_cs[] __attribute__((weak)), __stop___rseq_cs[] __attribute__((weak));
extern uint64_t __start___rseq_cs_ptr_array[] __attribute__((weak)), __stop___rseq_cs_ptr_array[] __attribute__((weak));
extern uint64_t __start___rseq_exit_point_array[] __attribute__((weak)), __stop___rseq_exit_point_array[] __attribute__((weak));
static int in_ptr_array(uint64_t d) { for (uint64_t *p = __start___rseq_cs_ptr_array; p < __stop___rseq_cs_ptr_array; p++) if (*p == d) return 1; return 0; }
static int is_exit_point(uint64_t start, uint64_t ip) { for (uint64_t *p = __start___rseq_exit_point_array; p + 1 < __stop___rseq_exit_point_array; p += 2) if (p[0] == start && p[1] == ip) return 1; return 0; }

extern char __executable_start[], _end[];
static int readable_image(uint64_t p, size_t n) { return p >= (uint64_t) __executable_start && p + n <= (uint64_t) _end; }
static const char *cs_invalid(uint64_t d)
{
	if (!readable_image(d, sizeof(struct cs))) return "descriptor pointer outside the program image";
	const struct cs *c = (const struct cs *) d;
	if (d & 31) return "descriptor not aligned on 32 bytes";
	if (c->version) return "descriptor version is not 0";
	if (c->flags) return "descriptor flags are not 0";
	if (!readable_image(c->start, 1) || c->start + c->len < c->start || !readable_image(c->start + c->len, 1)) return "section range outside the program";
	if (c->len == 0) return "section is empty";
	if (!readable_image(c->abort - 4, 5)) return "abort address outside the program";
	if (c->abort - c->start < c->len) return "abort address inside the section";
	uint32_t sig; memcpy(&sig, (void *) (c->abort - 4), 4);
	if (sig != SIG_EXPECT) return "no signature in front of the abort address";
	return NULL;
}

/* ---------- kernel model ---------- */
static int rs_of(const struct state *s, int i) { return s->t[i].nest ? s->t[i].nest - 1 : i; }
static void set_cpu_fields(struct state *s, int i)
{
	struct rseqa *r = &s->w.rs[rs_of(s, i)]; int c = s->t[i].cpu;
	if (S.unregistered || c < 0) return;
	r->cpu_id_start = r->cpu_id = cpu_no[c]; r->mm_cid = cid_no[c]; r->node_id = 7;
}
/* What the kernel does on return to user space after a preemption, migration or before a signal. */
static void fixup(struct state *s, int i)
{
	struct rseqa *r = &s->w.rs[rs_of(s, i)]; struct tctx *t = &s->t[i];
	t->hit = 1;
	if (S.unregistered || !r->rseq_cs) return;
	const char *e = cs_invalid(r->rseq_cs);
	if (e) { viol("interrupted at ip=%lx: the kernel rejects the critical-section descriptor (%s)", t->r[RIP], e); return; }
	const struct cs *c = (const struct cs *) r->rseq_cs;
	if (t->r[RIP] - c->start < c->len) { t->r[RIP] = c->abort; n_abort++; }
	r->rseq_cs = 0;
}

/* ---------- operations ---------- */
static char ret_sentinel[16];
static const intptr_t CANV(int i) { return (intptr_t) (0x5ca1ab1e00000000ULL + 0x1111 * (i + 1)); }
static void start_op(struct state *s, int i)
{
	struct tctx *t = &s->t[i]; struct opspec *o = &S.op[i][t->op]; struct priv *p = &s->w.p[i];
	memset(t->r, 0, sizeof(t->r)); memset(p->stack, 0, sizeof(p->stack));
	p->a = o->a; for (int k = 0; k < NCAN_MAX; k++) p->a.can_in[k] = CANV(k);
	t->ent = o->ent; t->committed = t->wrote = t->condfalse = t->hit = t->mismatch = 0;
	uint64_t sp = (uint64_t) &W->p[i].stack[STK - 128]; sp &= ~63UL; sp -= 8;
	*(uint64_t *) &p->stack[sp - (uint64_t) &W->p[i].stack[0]] = (uint64_t) ret_sentinel;
	t->r[RSP] = sp; t->r[RDI] = (uint64_t) &W->p[i].a; t->r[RIP] = (uint64_t) subj_table[o->ent].fn;
	t->r[RBX] = 0xb0b0; t->r[RBP] = 0xb1b1; t->r[R12] = 0xb2b2; t->r[R13] = 0xb3b3; t->r[R14] = 0xb4b4; t->r[R15] = 0xb5b5;
	t->r[EFL] = 0x202; t->status = TH_RUN;
}
#define G(s, addr) (*(intptr_t *) ((char *) &(s)->w + ((uint64_t) (addr) - (uint64_t) W)))
static int in_world_sh(uint64_t a, size_t n) { return a >= (uint64_t) W && a + n <= (uint64_t) (W + 1); }
static int op_kind(const struct state *s, int i) { return subj_table[s->t[i].ent].kind; }
static int cond(const struct state *s, int i)
{
	const struct sargs *a = &S.op[i][s->t[i].op].a;
	switch (op_kind(s, i)) {
	case K_CBNE_ST: case K_CBNE_ST_ST: case K_CBNE_MEMCPY_ST: return G(s, a->v) == a->expect;
	case K_POP: return G(s, a->v) != a->expect;
	case K_CBNE_CBNE_ST: return G(s, a->v) == a->expect && G(s, a->v2) == a->x2;
	default: return 1;
	}
}
/* address of the word the op would commit to in state s (0 if none/invalid) and the value */
static uint64_t commit_target(const struct state *s, int i, intptr_t *val)
{
	const struct sargs *a = &S.op[i][s->t[i].op].a; uint64_t p;
	switch (op_kind(s, i)) {
	case K_CBNE_ST: case K_CBNE_ST_ST: case K_CBNE_CBNE_ST: case K_CBNE_MEMCPY_ST: *val = a->newv; return (uint64_t) a->v;
	case K_POP: p = (uint64_t) G(s, a->v) + a->off; if (!in_world_sh(p, 8)) { *val = 0; return (uint64_t) a->v; } *val = G(s, p); return (uint64_t) a->v;
	case K_ADD: *val = G(s, a->v) + a->inc; return (uint64_t) a->v;
	case K_OFFADD: p = (uint64_t) G(s, a->v) + a->off; if (!in_world_sh(p, 8)) return 0; p = G(s, p); if (!in_world_sh(p, 8)) return 0; *val = G(s, p) + a->inc; return p;
	}
	return 0;
}
static int on_cpu(const struct state *s, int i)
{
	const struct sargs *a = &S.op[i][s->t[i].op].a; int c = s->t[i].cpu;
	if (S.unregistered || c < 0) return 0;
	return (int) a->cpu == (subj_table[s->t[i].ent].mode ? cid_no[c] : cpu_no[c]);
}
static void observe(struct state *s)
{
	for (int i = 0; i < S.nthreads; i++) {
		struct tctx *t = &s->t[i];
		if (t->status != TH_RUN || op_kind(s, i) >= K_UNLOAD) continue;
		if (!cond(s, i)) t->condfalse = 1;
		if (!on_cpu(s, i)) t->mismatch = 1;
	}
}
static int attempt_byte(const struct state *pre, int i, uint64_t addr, uint8_t nv)	/* 1 ok, 0 not an attempt location, -1 wrong value */
{
	const struct sargs *a = &S.op[i][pre->t[i].op].a; uint64_t o; intptr_t cur;
	switch (op_kind(pre, i)) {
	case K_POP: o = addr - (uint64_t) a->load; if (o >= 8) return 0; cur = G(pre, a->v); return ((uint8_t *) &cur)[o] == nv ? 1 : -1;
	case K_CBNE_ST_ST: o = addr - (uint64_t) a->v2; if (o >= 8) return 0; return ((uint8_t *) &a->x2)[o] == nv ? 1 : -1;
	case K_CBNE_MEMCPY_ST: o = addr - (uint64_t) a->dst; if (o >= a->len) return 0; return *(uint8_t *) &G(pre, (uint64_t) a->src + o) == nv ? 1 : -1;
	}
	return 0;
}
static int covered(const struct state *pre, int i)
{
	uint64_t d = pre->w.rs[rs_of(pre, i)].rseq_cs; if (!d || cs_invalid(d)) return 0;
	const struct cs *c = (const struct cs *) d; return pre->t[i].r[RIP] - c->start < c->len;
}
/* monitors on one executed instruction of thread i */
static void check_step(const struct state *pre, struct state *post, int i)
{
	struct tctx *t = &post->t[i]; const char *nm = subj_table[t->ent].name; int kind = op_kind(pre, i);
	/* foreign private memory */
	for (int j = 0; j < S.nthreads; j++) {
		if (memcmp(&pre->w.rs[j], &post->w.rs[j], sizeof(struct rseqa))) {
			struct rseqa tmp = post->w.rs[j]; tmp.rseq_cs = pre->w.rs[j].rseq_cs;
			if (j != rs_of(pre, i) || memcmp(&tmp, &pre->w.rs[j], sizeof(tmp))) viol("%s: instruction at ip=%lx wrote rseq-area fields other than its own critical-section pointer", nm, pre->t[i].r[RIP]);
		}
		if (j != i && (memcmp(&pre->w.p[j].a, &post->w.p[j].a, sizeof(struct sargs)) || memcmp(pre->w.p[j].stack, post->w.p[j].stack, STK))) viol("%s: wrote another thread's private memory", nm);
	}
	if (memcmp(&pre->w.p[i].a, &post->w.p[i].a, offsetof(struct sargs, after))) viol("%s: wrote its caller's memory", nm);
	/* shared memory */
	if (memcmp(pre->w.sh, post->w.sh, sizeof(pre->w.sh))) {
		intptr_t val = 0; uint64_t tgt = kind < K_UNLOAD ? commit_target(pre, i, &val) : 0; int did_commit = 0;
		const uint8_t *pb = (const uint8_t *) pre->w.sh, *qb = (const uint8_t *) post->w.sh;
		if (PR(4) && kind < K_UNLOAD && !covered(pre, i)) viol("%s: store to user memory at ip=%lx is not covered by the armed critical section", nm, pre->t[i].r[RIP]);
		for (unsigned k = 0; k < sizeof(pre->w.sh); k++) {
			if (pb[k] == qb[k]) continue;
			uint64_t addr = (uint64_t) W->sh + k;
			if (tgt && addr - tgt < 8) { did_commit = 1; continue; }
			int at = kind < K_UNLOAD ? attempt_byte(pre, i, addr, qb[k]) : 0;
			if (!PR(1)) continue;
			if (at == 0) viol("%s: wrote memory it was not given (word %u)", nm, k / 8);
			else if (at < 0) viol("%s: speculative store of a wrong value (word %u)", nm, k / 8);
			else if (t->committed) viol("%s: store to word %u after the commit", nm, k / 8);
			else if (!on_cpu(pre, i)) viol("%s: speculative store to word %u while not on the requested CPU", nm, k / 8);
			else if (!cond(pre, i)) viol("%s: speculative store to word %u although the comparison fails", nm, k / 8);
		}
		t->wrote = 1;
		if (did_commit) {
			const struct sargs *a = &S.op[i][t->op].a; n_commit++;
			if (PR(1)) {
				if (t->committed) viol("%s: second commit", nm);
				else if (!on_cpu(pre, i)) viol("%s: final store executed while the thread is not on the requested CPU", nm);
				else if (!cond(pre, i)) viol("%s: final store executed although the comparison does not hold at that moment", nm);
				else if (G(post, tgt) != val) viol("%s: final store wrote %lx, an atomic execution would write %lx", nm, (long) G(post, tgt), (long) val);
				else if (kind == K_POP && G(pre, a->load) != G(pre, a->v)) viol("%s: commit without the loaded value being stored", nm);
				else if (kind == K_CBNE_ST_ST && G(pre, a->v2) != a->x2) viol("%s: commit while the second word does not hold its new value", nm);
				else if (kind == K_CBNE_MEMCPY_ST && memcmp(&G(pre, a->dst), &G(pre, a->src), a->len)) viol("%s: commit while the copy is not in place", nm);
			}
			t->committed = 1;
		}
	}
	/* descriptor */
	uint64_t d = post->w.rs[rs_of(post, i)].rseq_cs;
	if (PR(4) && d) { const char *e = cs_invalid(d); if (e) viol("%s: after ip=%lx: %s", nm, pre->t[i].r[RIP], e); }
	if (PR(5)) {
		if (d && !in_ptr_array(d)) viol("%s: executed section (descriptor %lx) is not listed in the critical-section table", nm, d);
		uint64_t dd = pre->w.rs[rs_of(pre, i)].rseq_cs;
		if (dd && !cs_invalid(dd)) {
			const struct cs *c = (const struct cs *) dd; uint64_t a = pre->t[i].r[RIP], b = post->t[i].r[RIP];
			if (a - c->start < c->len && b - c->start >= c->len && b != c->start + c->len && b != c->abort && !is_exit_point(c->start, b))
				viol("%s: section left to ip=%lx (offset %ld from section start), which is not a listed exit point", nm, b, (long) (b - c->start));
		}
	}
}
static void check_return(const struct state *s, int i)
{
	const struct tctx *t = &s->t[i]; int kind = op_kind(s, i), ret = (int) t->r[RAX]; const char *nm = subj_table[t->ent].name;
	const struct sargs *a = &s->w.p[i].a, *o = &S.op[i][t->op].a;
	n_ret[ret == 0 ? 0 : ret == 1 ? 1 : 2]++;
	if (kind >= K_UNLOAD) {
		if (PR(5) && s->w.rs[rs_of(s, i)].rseq_cs) viol("%s: rseq area still refers to a section after the call returned", nm);
		return;
	}
	if (PR(1)) {
		if (ret == 0 && !t->committed) viol("%s: returned success without a commit", nm);
		else if (ret != 0 && t->committed) viol("%s: returned %d although the final store was made", nm, ret);
		else if (ret == 1 && (kind == K_ADD || kind == K_OFFADD)) viol("%s: returned 1", nm);
		else if (ret == 1 && t->wrote) viol("%s: returned 1 after writing user memory", nm);
		else if (ret == 1 && !t->condfalse) viol("%s: returned 1 although the comparison held throughout the call", nm);
		else if (ret == -1 && !t->hit && !t->mismatch) viol("%s: returned -1 without any interruption on the requested CPU", nm);
		else if (ret < -1 || ret > 1) viol("%s: returned %d", nm, ret);
	}
	if (PR(2)) {
		const intptr_t want[12] = { (intptr_t) o->v, o->expect, o->newv, (intptr_t) o->v2, o->x2, (intptr_t) o->dst, (intptr_t) o->src, (intptr_t) o->len, o->off, o->inc, (intptr_t) o->load, (int) o->cpu };
		for (int k = 0; k < subj_ncan; k++) if (a->can_out[k] != CANV(k)) viol("%s: live value %d of the caller altered (%lx instead of %lx), return %d", nm, k, a->can_out[k], CANV(k), ret);
		for (int k = 0; k < 12; k++) if (a->after[k] && a->after[k] != want[k]) viol("%s: operand %d of the caller altered (%lx instead of %lx), return %d", nm, k, a->after[k], want[k], ret);
		if (t->r[RBX] != 0xb0b0 || t->r[RBP] != 0xb1b1 || t->r[R12] != 0xb2b2 || t->r[R13] != 0xb3b3 || t->r[R14] != 0xb4b4 || t->r[R15] != 0xb5b5) viol("%s: callee-saved register altered, return %d", nm, ret);
		if (t->r[RSP] != ((((uint64_t) &W->p[i].stack[STK - 128]) & ~63UL))) viol("%s: stack pointer altered", nm);
	}
}

/* ---------- local instructions ----------
 * In a preliminary pass every instruction is executed with the shared page (user memory, rseq areas) inaccessible.
 * One that never faults there only touches its thread's private state: outside an armed section it commutes with
 * every action of other threads and with kernel events, so it is executed without branching (ample set). */
struct ripent { uint64_t rip; uint8_t touch; };
static struct ripent *rips; static unsigned nrips; static int classify; static int probe_touch;
static struct ripent *rip_find(uint64_t rip) { for (unsigned k = 0; k < nrips; k++) if (rips[k].rip == rip) return &rips[k]; return NULL; }
static uint8_t *rip_local; static uint64_t rip_lo, rip_hi;	/* dense table over the image */
static int is_local(uint64_t rip) { return rip_local && rip >= rip_lo && rip < rip_hi && rip_local[rip - rip_lo]; }

/* ---------- scheduling ---------- */
static void dispatch_idle(struct state *s)
{
	for (int c = 0; c < 2; c++) {
		if (s->cur[c] >= 0) continue;
		for (int i = 0; i < S.nthreads; i++) if (!s->t[i].nest && s->t[i].status == TH_RUN && s->t[i].cpu == c) { s->cur[c] = i; break; }
	}
}
static int handler_of(const struct state *s, int i) { for (int j = 0; j < S.nthreads; j++) if (s->t[j].nest == i + 1 && s->t[j].status == TH_RUN) return j; return -1; }
static int active(const struct state *s, int i) { int h = handler_of(s, i); return h >= 0 ? h : i; }	/* the context of thread i that executes */
static void finish(struct state *s, int i)
{
	struct tctx *t = &s->t[i];
	check_return(s, i);
	t->op++;
	if (t->op < S.nops[i]) { start_op(s, i); return; }
	t->status = TH_DONE; if (t->nest) t->cpu = -1; memset(t->r, 0, sizeof(t->r)); memset(s->w.p[i].stack, 0, STK); memset(&s->w.p[i].a, 0, sizeof(struct sargs));
	t->committed = t->wrote = t->condfalse = t->hit = t->mismatch = 0;
	if (!t->nest) { if (s->cur[t->cpu] == i) s->cur[t->cpu] = -1; t->cpu = -1; dispatch_idle(s); }
}
static void canon(struct state *s)
{
	for (int i = 0; i < S.nthreads; i++) if (s->t[i].status == TH_RUN) {
		uint64_t sp = s->t[i].r[RSP] - (uint64_t) &W->p[i].stack[0];
		if (sp > 128 && sp <= STK) memset(s->w.p[i].stack, 0, sp - 128);
		s->t[i].r[EFL] &= 0xcd5 | 0x202;
	}
}

static struct state cur_pre; static uint32_t cur_node; static int cur_step_mask, stepping; static struct state *post_buf;
static gregset_t main_regs; static int in_search;
static void push(struct state *s, uint16_t act)
{
	n_trans++;
	observe(s);
	if (violation) { vnode = cur_node; vact = act; return; }
	canon(s);
	if (!visit(s)) { return; }
	n_states++;
	if (nnodes == capnodes) { capnodes = capnodes ? capnodes * 2 : 1 << 16; nodes = realloc(nodes, capnodes * sizeof(*nodes)); }
	nodes[nnodes].parent = cur_node; nodes[nnodes].act = act;
	if (qt - qh == qcap) {
		uint64_t nc = qcap ? qcap * 2 : 1 << 12; struct qent *n = malloc(nc * sizeof(*n));
		for (uint64_t k = qh; k < qt; k++) n[k - qh] = queue[k % qcap];
		qt -= qh; qh = 0; free(queue); queue = n; qcap = nc;
	}
	struct state *c = malloc(sizeof(*c)); *c = *s;
	queue[qt % qcap].s = c; queue[qt % qcap].node = nnodes++; qt++;
}
static int gen_event(const struct state *s, uint16_t act, struct state *n)	/* 0 if not enabled */
{
	int kind = act & ~15, i = act & 15, c, j;
	if (i >= S.nthreads && kind != A_CHAOS) return 0;
	if (kind != A_CHAOS) { if (!S.events_on || s->t[i].status != TH_RUN || (S.max_events && s->events >= S.max_events)) return 0; }
	switch (kind) {
	case A_SWITCH:	/* i is current and another thread waits on the same CPU */
		c = s->t[i].cpu; if (s->t[i].nest || c < 0 || s->cur[c] != i) return 0;
		for (j = 0; j < S.nthreads; j++) if (j != i && !s->t[j].nest && s->t[j].status == TH_RUN && s->t[j].cpu == c) break;
		if (j == S.nthreads) return 0;
		*n = *s; fixup(n, active(n, i)); n->cur[c] = j; break;
	case A_RESCHED:
		c = s->t[i].cpu; if (s->t[i].nest || c < 0 || s->cur[c] != i) return 0;
		*n = *s; fixup(n, active(n, i)); break;
	case A_MIGRATE:
		if (S.fixed_cpu || s->t[i].nest || s->t[i].cpu < 0) return 0;
		*n = *s; c = s->t[i].cpu;
		fixup(n, active(n, i)); n->t[i].cpu = !c;
		for (j = 0; j < S.nthreads; j++) if (n->t[j].nest == i + 1) n->t[j].cpu = !c;
		set_cpu_fields(n, i);
		if (n->cur[c] == i) n->cur[c] = -1;
		dispatch_idle(n); break;
	case A_SIGNAL:	/* deliver the handler of thread i */
		if (s->t[i].nest || s->t[i].cpu < 0 || s->cur[(int) s->t[i].cpu] != i || s->t[i].sigdone) return 0;
		for (j = 0; j < S.nthreads; j++) if (s->t[j].nest == i + 1 && s->t[j].status == TH_IDLE) break;
		if (j == S.nthreads) return 0;
		*n = *s; fixup(n, i); n->t[i].sigdone = 1; n->t[j].cpu = n->t[i].cpu; n->t[j].op = 0; start_op(n, j); break;
	case A_CHAOS: { /* arbitrary change of what comparisons look at (C05 only) */
		if (!S.chaos_on || s->t[0].status != TH_RUN || s->chaos >= S.chaos_on || i > 2) return 0;
		const struct sargs *a = &S.op[0][s->t[0].op].a; *n = *s; n->chaos++;
		if (i == 0 && a->v && (op_kind(s, 0) == K_OFFADD || op_kind(s, 0) == K_ADD)) return 0;
		else if (i == 0 && a->v) G(n, a->v) = G(n, a->v) == a->expect ? (intptr_t) &W->sh[24] : a->expect;
		else if (i == 1 && a->v2) G(n, a->v2) ^= 1;
		else if (i == 2) { n->w.rs[0].cpu_id ^= 64; n->w.rs[0].mm_cid ^= 64; }
		else return 0;
		break; }
	default: return 0;
	}
	if (kind != A_CHAOS) { n_kev++; if (S.max_events) n->events++; }
	return 1;
}
static int runnable(const struct state *s, int i)	/* context i may execute an instruction */
{
	int h = s->t[i].nest ? s->t[i].nest - 1 : i;
	if (s->t[i].status != TH_RUN || s->t[h].cpu < 0 || s->cur[(int) s->t[h].cpu] != h) return 0;
	return active(s, h) == i;
}
static void describe(uint16_t act, const struct state *s, char *buf, size_t n)
{
	int i = act & 15;
	switch (act & ~15) {
	case A_STEP: snprintf(buf, n, "step    thread %d  %s  ip=fn%+ld", i, subj_table[s->t[i].ent].name, (long) (s->t[i].r[RIP] - (uint64_t) subj_table[s->t[i].ent].fn)); break;
	case A_SWITCH: snprintf(buf, n, "preempt thread %d, other thread runs", i); break;
	case A_RESCHED: snprintf(buf, n, "preempt thread %d and resume it on the same CPU", i); break;
	case A_MIGRATE: snprintf(buf, n, "migrate thread %d to the other CPU", i); break;
	case A_SIGNAL: snprintf(buf, n, "deliver signal to thread %d", i); break;
	default: snprintf(buf, n, "change compared memory %d", i);
	}
}
static int no_reduction;
static int ample(const struct state *s)	/* a context whose next instruction is local and outside its armed section */
{
	if (no_reduction || S.chaos_on) return -1;
	for (int i = 0; i < S.nthreads; i++) {
		if (!runnable(s, i) || !is_local(s->t[i].r[RIP])) continue;
		uint64_t d = s->w.rs[rs_of(s, i)].rseq_cs;
		if (d) { if (cs_invalid(d)) continue; const struct cs *c = (const struct cs *) d; if (s->t[i].r[RIP] - c->start < c->len) continue; }
		return i;
	}
	return -1;
}
static void load_for_step(ucontext_t *uc, const struct state *s, int i)
{
	memcpy(W, &s->w, sizeof(struct world));
	rseq_offset = (char *) &W->rs[rs_of(s, i)] - (char *) __builtin_thread_pointer();
	for (int k = 0; k < 18; k++) uc->uc_mcontext.gregs[gidx[k]] = s->t[i].r[k];
	uc->uc_mcontext.gregs[REG_EFL] |= 0x100;
	stepping = i + 1; n_steps++;
	if (classify && !replaying) { probe_touch = 0; mprotect(W, 4096, PROT_NONE); }
}
static void init_state(struct state *s)
{
	memset(s, 0, sizeof(*s));
	memcpy(s->w.sh, S.sh, sizeof(S.sh)); s->cur[0] = s->cur[1] = -1;
	for (int i = 0; i < S.nthreads; i++) {
		struct rseqa *r = &s->w.rs[i]; r->cpu_id_start = 0; r->cpu_id = S.unregistered == 2 ? -2 : -1; r->node_id = 0; r->mm_cid = 0;
		s->t[i].nest = S.nest[i]; s->t[i].cpu = -1;
		if (S.nest[i]) continue;
		s->t[i].cpu = 0; set_cpu_fields(s, i); start_op(s, i); if (s->cur[0] < 0) s->cur[0] = i;
	}
}
/* Advance the search until an instruction has to be executed; returns 0 when finished. */
static int pump(ucontext_t *uc)
{
	static struct state n;
	if (replaying) {
		for (;;) {
			char b[200];
			if (violation || rp_i >= rp_n) return 0;
			uint16_t act = rp_act[rp_i++];
			describe(act, &cur_pre, b, sizeof(b)); if (rp_out) fprintf(rp_out, "%4d %s\n", rp_i, b);
			if ((act & ~15) == A_STEP) { load_for_step(uc, &cur_pre, act & 15); return 1; }
			if (!gen_event(&cur_pre, act, &n)) { violation = 2; snprintf(vmsg, sizeof(vmsg), "replay diverged"); return 0; }
			observe(&n); canon(&n); cur_pre = n;
		}
	}
	for (;;) {
		if (violation) return 0;
		while (cur_step_mask) {
			int i = __builtin_ctz(cur_step_mask); cur_step_mask &= ~(1 << i);
			if (runnable(&cur_pre, i)) { load_for_step(uc, &cur_pre, i); return 1; }
		}
		if (qh == qt || n_states > max_states) return 0;
		struct qent *q = &queue[qh % qcap]; cur_pre = *q->s; cur_node = q->node; free(q->s); qh++;
		int am = ample(&cur_pre);
		if (am >= 0) { cur_step_mask = 1 << am; continue; }
		cur_step_mask = (1 << S.nthreads) - 1;
		for (int k = A_SWITCH; k <= A_CHAOS; k += 16) for (int i = 0; i < 3; i++) if (gen_event(&cur_pre, k | i, &n)) push(&n, k | i); else if (violation) { vnode = cur_node; vact = k | i; return 0; }
	}
}
static int conform_trap(ucontext_t *uc);
static int native_fault(int sig, ucontext_t *uc);
static void on_trap(int sig, siginfo_t *si, void *ucv)
{
	ucontext_t *uc = ucv; (void) si;
	if (!in_search && sig == SIGTRAP && conform_trap(uc)) return;
	if (!in_search && native_fault(sig, uc)) return;
	if (!in_search) { if (sig != SIGTRAP) { signal(sig, SIG_DFL); return; } in_search = 1; memcpy(main_regs, uc->uc_mcontext.gregs, sizeof(gregset_t)); }
	if (stepping && classify && !replaying) {
		mprotect(W, 4096, PROT_READ | PROT_WRITE);
		uint64_t rip = cur_pre.t[stepping - 1].r[RIP];
		struct ripent *e = rip_find(rip);
		if (!e) { rips = realloc(rips, (nrips + 1) * sizeof(*rips)); e = &rips[nrips++]; e->rip = rip; e->touch = 0; }
		if (sig == SIGSEGV && (uint64_t) si->si_addr - (uint64_t) W < 4096 && !probe_touch) { e->touch = 1; probe_touch = 1; return; /* execute it again, accessible */ }
	}
	if (stepping && classify && !replaying && sig == SIGTRAP) {	/* entering a section does not commute with kernel events */
		uint64_t a = cur_pre.t[stepping - 1].r[RIP], b = uc->uc_mcontext.gregs[REG_RIP];
		for (struct cs *c = __start___rseq_cs; c < __stop___rseq_cs; c++) if (a - c->start >= c->len && b - c->start < c->len) rip_find(a)->touch = 1;
	}
	if (stepping) {
		int i = stepping - 1; struct state *n = post_buf; stepping = 0;
		memcpy(n, &cur_pre, sizeof(*n)); memcpy(&n->w, W, sizeof(struct world));
		for (int k = 0; k < 18; k++) n->t[i].r[k] = uc->uc_mcontext.gregs[gidx[k]];
		n->t[i].r[EFL] &= ~0x10100UL; /* TF, RF */
		if (sig == SIGTRAP) {
			check_step(&cur_pre, n, i);
			if (n->t[i].r[RIP] == (uint64_t) subj_abort) { if (PR(1) || PR(2)) viol("%s: internal consistency check failed (abort called)", subj_table[n->t[i].ent].name); else { n->t[i].status = TH_DONE; n->cur[(int) n->t[i].cpu] = -1; n->t[i].cpu = -1; } }
			else if (n->t[i].r[RIP] == (uint64_t) subj_fprintf) { /* emulate: return 0 */ uint64_t sp = n->t[i].r[RSP]; n->t[i].r[RIP] = *(uint64_t *) ((char *) &n->w + (sp - (uint64_t) W)); n->t[i].r[RSP] += 8; n->t[i].r[RAX] = 0; }
			else if (n->t[i].r[RIP] == (uint64_t) ret_sentinel) finish(n, i);
		} else viol("%s: signal %d at ip=%llx", subj_table[n->t[i].ent].name, sig, uc->uc_mcontext.gregs[REG_RIP]);
		if (replaying) { observe(n); canon(n); cur_pre = *n; }
		else push(n, A_STEP | i);
	}
	if (!pump(uc)) { memcpy(uc->uc_mcontext.gregs, main_regs, sizeof(gregset_t)); uc->uc_mcontext.gregs[REG_EFL] &= ~0x100L; in_search = 0; }
}
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void reset_search(void)
{
	while (qh < qt) { free(queue[qh % qcap].s); qh++; }
	free(htab); htab = NULL; hcap = hcnt = 0; nnodes = 0; qh = qt = 0; violation = 0; stepping = 0; cur_step_mask = 0;
	n_states = n_trans = n_steps = n_kev = n_commit = n_abort = n_ret[0] = n_ret[1] = n_ret[2] = 0;
}
/* a real call: the compiler must assume the handler changes our variables */
void enter_search(void);
__asm__(".text\n.globl enter_search\nenter_search:\nint3\nret\n");
static void run_search(void)
{
	struct state *s = malloc(sizeof(*s));
	reset_search(); init_state(s); replaying = 0; cur_node = 0;
	push(s, 0xfff); free(s);
	enter_search();
}
static int run_replay(uint16_t *acts, int n, FILE *out)
{
	struct state *s = malloc(sizeof(*s));
	violation = 0; stepping = 0; init_state(s); observe(s); canon(s); cur_pre = *s; free(s);
	replaying = 1; rp_act = acts; rp_n = n; rp_i = 0; rp_out = out;
	enter_search();
	replaying = 0; return violation;
}
#include "scen.h"

int main(int argc, char **argv)
{
	stack_t ss = { .ss_sp = mmap(NULL, 1 << 20, 3, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0), .ss_size = 1 << 20 };
	sigaltstack(&ss, NULL);
	struct sigaction sa = { .sa_sigaction = on_trap, .sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER };
	sigaction(SIGTRAP, &sa, NULL); sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGILL, &sa, NULL); sigaction(SIGFPE, &sa, NULL);
	if (mmap(W, (sizeof(struct world) + 4095) & ~4095UL, 3, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != W) { perror("mmap"); return 2; }
	post_buf = malloc(sizeof(struct state));
	return scen_main(argc, argv);
}
