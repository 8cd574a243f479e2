/* Exhaustive value domains executed natively (no stepping), CPU gating matrix, and kernel conformance. */
#include <setjmp.h>
#include <sched.h>
#include <limits.h>
static sigjmp_buf nat_jmp; static int nat_active, nat_sig; static uint64_t nat_ip;
static uint64_t nat_saved[8];
int call_checked(int (*fn)(struct sargs *), struct sargs *a, uint64_t *out);
__asm__(".text\n.globl call_checked\ncall_checked:\n"
	"push %rbx\npush %rbp\npush %r12\npush %r13\npush %r14\npush %r15\npush %rdx\n"
	"mov %rdi,%rax\nmov %rsi,%rdi\n"
	"mov $0xb0b0,%ebx\nmov $0xb1b1,%ebp\nmov $0xb2b2,%r12d\nmov $0xb3b3,%r13d\nmov $0xb4b4,%r14d\nmov $0xb5b5,%r15d\n"
	"call *%rax\n"
	"pop %rdx\nmov %rbx,(%rdx)\nmov %rbp,8(%rdx)\nmov %r12,16(%rdx)\nmov %r13,24(%rdx)\nmov %r14,32(%rdx)\nmov %r15,40(%rdx)\n"
	"pop %r15\npop %r14\npop %r13\npop %r12\npop %rbp\npop %rbx\nret\n");

static int native_fault(int sig, ucontext_t *uc)
{
	if (!nat_active) return 0;
	nat_sig = sig; nat_ip = uc->uc_mcontext.gregs[REG_RIP]; siglongjmp(nat_jmp, 1);
}
/* Reference semantics: the published pseudo-code, executed on an image of the user memory. */
static struct world *ref;
#define RG(addr) (*(intptr_t *) ((char *) ref + ((uint64_t) (addr) - (uint64_t) W)))
static int ref_op(int kind, const struct sargs *a)
{
	intptr_t r1;
	switch (kind) {
	case K_CBNE_ST: if (RG(a->v) != a->expect) return 1; RG(a->v) = a->newv; return 0;
	case K_POP: r1 = RG(a->v); if (r1 == a->expect) return 1; RG(a->load) = r1; RG(a->v) = RG(r1 + a->off); return 0;
	case K_ADD: RG(a->v) = (intptr_t) ((uint64_t) RG(a->v) + (uint64_t) a->inc); return 0;
	case K_OFFADD: r1 = RG(RG(a->v) + a->off); RG(r1) = (intptr_t) ((uint64_t) RG(r1) + (uint64_t) a->inc); return 0;
	case K_CBNE_ST_ST: if (RG(a->v) != a->expect) return 1; RG(a->v2) = a->x2; RG(a->v) = a->newv; return 0;
	case K_CBNE_CBNE_ST: if (RG(a->v) != a->expect || RG(a->v2) != a->x2) return 1; RG(a->v) = a->newv; return 0;
	case K_CBNE_MEMCPY_ST: if (RG(a->v) != a->expect) return 1; memcpy(&RG(a->dst), &RG(a->src), a->len); RG(a->v) = a->newv; return 0;
	}
	return -1;
}
static char nat_msg[700];
static void dump_case(const char *out, const char *what, const struct sargs *a, int mo, int mode)
{
	FILE *f = fopen(out, "w"); if (!f) return;
	fprintf(f, "native call: %s mo=%d mode=%d\n%s\n", what, mo, mode, nat_msg);
	fprintf(f, "v=%p expect=%#lx newv=%#lx v2=%p x2=%#lx dst=%p src=%p len=%zu off=%#lx inc=%#lx load=%p cpu=%ld\n", (void *) a->v, a->expect, a->newv, (void *) a->v2, a->x2, a->dst, a->src, a->len, a->off, a->inc, (void *) a->load, a->cpu);
	fprintf(f, "rseq area: cpu_id_start=%u cpu_id=%d node_id=%u mm_cid=%u\nuser memory before (word: value):\n", W->rs[0].cpu_id_start, (int) W->rs[0].cpu_id, W->rs[0].node_id, W->rs[0].mm_cid);
	for (int i = 0; i < NSH; i++) if (S.sh[i] != 0x7700000000000000ULL + i) fprintf(f, "  %d: %#lx\n", i, S.sh[i]);
	fclose(f);
}
static uint64_t nat_cases, nat_rets[3];
/* Runs one call on memory image S.sh and compares everything.  want_skip: helper must return -1 without effect. */
static int nat_case(int e, int gk, int mo, int mode, struct sargs *in, int want_skip)
{
	struct sargs *a = &W->p[0].a; int ret, want; volatile int crashed = 0;
	memcpy(W->sh, S.sh, sizeof(S.sh)); *a = *in; for (int k = 0; k < NCAN_MAX; k++) a->can_in[k] = CANV(k);
	struct rseqa before = W->rs[0];
	memcpy(ref, W, sizeof(struct world));
	int kind = e >= 0 ? subj_table[e].kind : gk;
	want = want_skip ? -1 : ref_op(kind, in);
	nat_cases++;
	if (sigsetjmp(nat_jmp, 1) == 0) {
		nat_active = 1;
		if (e >= 0) ret = call_checked(subj_table[e].fn, a, nat_saved); else ret = subj_generic(gk, mo, mode, a);
		nat_active = 0;
	} else { nat_active = 0; crashed = 1; ret = 99; }
	if (crashed) { snprintf(nat_msg, sizeof(nat_msg), "crashed with signal %d at ip=%lx", nat_sig, nat_ip); return 1; }
	nat_rets[ret == 0 ? 0 : ret == 1 ? 1 : 2]++;
	if (ret != want) { snprintf(nat_msg, sizeof(nat_msg), "returned %d, specification says %d", ret, want); return 1; }
	for (int k = 0; k < NSH; k++) if (W->sh[k] != ref->sh[k]) { snprintf(nat_msg, sizeof(nat_msg), "user memory word %d is %#lx, specification says %#lx (return %d)", k, W->sh[k], ref->sh[k], ret); return 1; }
	struct rseqa after = W->rs[0]; after.rseq_cs = before.rseq_cs = 0;
	if (memcmp(&after, &before, sizeof(after))) { snprintf(nat_msg, sizeof(nat_msg), "rseq area fields altered"); return 1; }
	if (memcmp(a, in, offsetof(struct sargs, can_in))) { snprintf(nat_msg, sizeof(nat_msg), "caller's argument memory altered"); return 1; }
	if (e >= 0) {
		const intptr_t w[12] = { (intptr_t) in->v, in->expect, in->newv, (intptr_t) in->v2, in->x2, (intptr_t) in->dst, (intptr_t) in->src, (intptr_t) in->len, in->off, in->inc, (intptr_t) in->load, (int) in->cpu };
		for (int k = 0; k < subj_ncan; k++) if (a->can_out[k] != CANV(k)) { snprintf(nat_msg, sizeof(nat_msg), "live value %d of the caller altered: %#lx instead of %#lx (return %d)", k, a->can_out[k], CANV(k), ret); return 1; }
		for (int k = 0; k < 12; k++) if (a->after[k] && a->after[k] != w[k]) { snprintf(nat_msg, sizeof(nat_msg), "operand %d of the caller altered: %#lx instead of %#lx (return %d)", k, a->after[k], w[k], ret); return 1; }
		static const uint64_t cs6[6] = { 0xb0b0, 0xb1b1, 0xb2b2, 0xb3b3, 0xb4b4, 0xb5b5 };
		if (memcmp(nat_saved, cs6, sizeof(cs6))) { snprintf(nat_msg, sizeof(nat_msg), "callee-saved register altered (return %d)", ret); return 1; }
	}
	return 0;
}
static void nat_init(void)
{
	ref = calloc(1, sizeof(*ref)); memset(W, 0, sizeof(*W));
	rseq_offset = (char *) &W->rs[0] - (char *) __builtin_thread_pointer();
}
static const intptr_t D[] = { 0, 1, -1, 0x7fffffff, -0x80000000L, 0x80000000L, 0xffffffffL, INT64_MIN, INT64_MAX, 0x100000000L, 0x12345678L, 0x1234567800000000L, 0x1234567812345678L };
#define ND ((int) (sizeof(D) / sizeof(D[0])))
static const intptr_t D4[] = { 0, -1, 0x1234567887654321L, INT64_MIN };
static const long DO[] = { 0, 8, -8, 16, 0x7fffffffL, -0x80000000L, 0x80000000L, 0x123456789abcde8L, -0x7ffffffffffffff8L };
#define NDO ((int) (sizeof(DO) / sizeof(DO[0])))
static int native_values(int shard, int nshard, const char *out)
{
	static const int cpus[] = { 5, 0, 1, 127, 128, 255, 256, 65535, 65536, 0x7fffffff };
	struct sargs a; int e; nat_init();
#define RUN() do { for (int miss = 0; miss < 2; miss++) { long c0 = a.cpu; if (miss) a.cpu ^= 0x10000; int bad = nat_case(e, 0, 0, 0, &a, miss); \
	if (bad) { dump_case(out, T->name, &a, T->mo, T->mode); printf("{\"violation\": \"%s: %s\"}\n", T->name, nat_msg); return 1; } a.cpu = c0; } } while (0)
	for (e = 0; e < subj_nr; e++) {
		const struct subj_ent *T = &subj_table[e]; if (e % nshard != shard) continue;
		if (T->kind >= K_UNLOAD) continue;
		for (unsigned ci = 0; ci < sizeof(cpus) / sizeof(cpus[0]); ci++) {
			int cpu = cpus[ci], full = ci == 0;
			struct rseqa *r = &W->rs[0]; memset(r, 0, sizeof(*r)); r->node_id = 7;
			/* keep the field that must not be looked at different from the requested number */
			if (T->mode == 0) { r->cpu_id_start = r->cpu_id = cpu; r->mm_cid = cpu ^ 0x55; } else { r->cpu_id_start = r->cpu_id = cpu ^ 0x55; r->mm_cid = cpu; }
			base_sh(); memset(&a, 0, sizeof(a)); a.cpu = cpu;
			for (int i = 0; i < (full ? ND : 2); i++) for (int j = 0; j < (full ? ND : 2); j++) switch (T->kind) {
			case K_CBNE_ST: for (int k = 0; k < ND; k++) { a.v = (intptr_t *) WD(V); S.sh[V] = D[i]; a.expect = D[j]; a.newv = D[k]; RUN(); } break;
			case K_ADD: a.v = (intptr_t *) WD(V); S.sh[V] = D[i]; a.inc = T->flags & 2 ? T->kinc : D[j]; RUN(); break;
			case K_POP: for (int k = 0; k < (T->flags & 1 ? 1 : NDO); k++) {
				intptr_t cell = WD(N2 + 1), x; a.off = T->flags & 1 ? T->koff : DO[k]; a.v = (intptr_t *) WD(V); a.load = (intptr_t *) WD(LD); x = (intptr_t) ((uint64_t) cell - (uint64_t) a.off);
				S.sh[V] = x; S.sh[N2 + 1] = D[i]; S.sh[LD] = 0x77; a.expect = x ^ D[j]; /* D[0]==0: equal */ RUN(); } break;
			case K_OFFADD: for (int k = 0; k < (T->flags & 1 ? 1 : NDO); k++) {
				a.off = T->flags & 1 ? T->koff : DO[k]; a.v = (intptr_t *) WD(PP); S.sh[PP] = WD(BB + 2) - (uint64_t) a.off; S.sh[BB + 2] = WD(CTR); S.sh[CTR] = D[i]; a.inc = T->flags & 2 ? T->kinc : D[j]; RUN(); } break;
			case K_CBNE_ST_ST: for (int k = 0; k < ND; k++) for (int l = 0; l < 4; l++) { a.v = (intptr_t *) WD(V); a.v2 = (intptr_t *) WD(V2); S.sh[V] = D[i]; a.expect = D[j]; a.x2 = D[k]; S.sh[V2] = D4[(l + 1) & 3]; a.newv = D4[l]; RUN(); } break;
			case K_CBNE_CBNE_ST: for (int k = 0; k < ND; k++) for (int l = 0; l < ND; l++) for (int m = 0; m < 2; m++) { a.v = (intptr_t *) WD(V); a.v2 = (intptr_t *) WD(V2); S.sh[V] = D[i]; a.expect = D[j]; S.sh[V2] = D[k]; a.x2 = D[l]; a.newv = D4[m + 1]; RUN(); } break;
			case K_CBNE_MEMCPY_ST:
				a.v = (intptr_t *) WD(V); S.sh[V] = D[i]; a.expect = D[j]; a.newv = D4[(i + j) & 3]; if (a.newv == D[i]) a.newv ^= 0x5500550055L;
				for (size_t len = T->flags & 4 ? T->klen : 0; len <= (T->flags & 4 ? (size_t) T->klen : 41); len++) {
					for (int so = 0; so < (i == j ? 8 : 1); so++) for (int d = 0; d < (i == j && full ? 8 : 2); d++) {
						unsigned char *p = (unsigned char *) &S.sh[100]; for (int k = 0; k < 64; k++) { p[k] = 0x80 + k; ((unsigned char *) &S.sh[120])[k] = k + 1; }
						a.src = (void *) (WD(100) + so); a.dst = (void *) (WD(121) + d); a.len = len; RUN();
					}
					if (T->flags & 4) break;
				}
				break;
			}
		}
	}
	printf("{\"cases\": %lu, \"ret0\": %lu, \"ret1\": %lu, \"retm1\": %lu}\n", nat_cases, nat_rets[0], nat_rets[1], nat_rets[2]);
	return 0;
}
/* Copies of every power-of-two neighbourhood length, with guard pages right before and after both buffers, and one
 * beyond 2^32 (the buffers repeat one 2 MiB file, except for a page of their own at the end). */
static int big_call(int e, int cpu, int hit, unsigned char *dst, const unsigned char *src, size_t len)
{
	struct sargs *a = &W->p[0].a, in; int ret; base_sh(); memcpy(W->sh, S.sh, sizeof(S.sh));
	memset(&in, 0, sizeof(in)); in.v = (intptr_t *) WD(V); in.expect = hit ? W->sh[V] : W->sh[V] + 1; in.newv = 0x5511; in.dst = dst; in.src = (void *) src; in.len = len; in.cpu = cpu;
	intptr_t old = W->sh[V]; *a = in; for (int k = 0; k < NCAN_MAX; k++) a->can_in[k] = CANV(k);
	struct rseqa *r = &W->rs[0]; memset(r, 0, sizeof(*r)); r->cpu_id_start = r->cpu_id = r->mm_cid = 5;
	nat_cases++;
	if (sigsetjmp(nat_jmp, 1)) { nat_active = 0; snprintf(nat_msg, sizeof(nat_msg), "copy of %zu bytes crashed with signal %d at ip=%lx", len, nat_sig, nat_ip); return 1; }
	nat_active = 1; ret = call_checked(subj_table[e].fn, a, nat_saved); nat_active = 0;
	nat_rets[ret == 0 ? 0 : ret == 1 ? 1 : 2]++;
	int want = cpu != 5 ? -1 : !hit;
	if (ret != want) { snprintf(nat_msg, sizeof(nat_msg), "copy of %zu bytes returned %d, specification says %d", len, ret, want); return 1; }
	if (*(intptr_t *) WD(V) != (want ? old : 0x5511)) { snprintf(nat_msg, sizeof(nat_msg), "copy of %zu bytes: final word is %#lx (return %d)", len, *(intptr_t *) WD(V), ret); return 1; }
	for (int k = 0; k < subj_ncan; k++) if (a->can_out[k] != CANV(k)) { snprintf(nat_msg, sizeof(nat_msg), "copy of %zu bytes: live value %d of the caller altered", len, k); return 1; }
	return 0;
}
static int native_biglen(int huge, const char *out)
{
	struct sargs z; memset(&z, 0, sizeof(z)); nat_init();
#define BAD() do { FILE *f = fopen(out, "w"); if (f) { fprintf(f, "native call: %s\n%s\n", subj_table[e].name, nat_msg); fclose(f); } printf("{\"violation\": \"%s: %s\"}\n", subj_table[e].name, nat_msg); return 1; } while (0)
	const size_t MAXL = (1UL << 20) + 4096;
	unsigned char *g[2]; for (int k = 0; k < 2; k++) { g[k] = mmap(NULL, MAXL + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (g[k] == MAP_FAILED || mprotect(g[k] + 4096, MAXL, 3)) return 2; g[k] += 4096; }
	unsigned char *want = malloc(MAXL);
	for (size_t i = 0; i < MAXL; i++) g[0][i] = (unsigned char) (i * 167 + (i >> 8) * 13 + 1);
	for (int e = 0; e < subj_nr; e++) {
		const struct subj_ent *T = &subj_table[e]; if (T->kind != K_CBNE_MEMCPY_ST || T->flags & 4) continue;
		for (int p = 0; p <= 20; p++) for (int d = -1; d <= 1; d++) {
			size_t len = (1UL << p) + d;
			/* the buffers touch the guard page after them, then the one before them */
			for (int at = 0; at < 4; at++) for (int out_ = 0; out_ < (p < 13 ? 3 : 1); out_++) {
				unsigned char *src = at & 1 ? g[0] : g[0] + MAXL - len, *dst = at & 2 ? g[1] : g[1] + MAXL - len;
				memset(g[1], 0xd7, MAXL); memset(want, 0xd7, MAXL);
				if (!out_) memcpy(want + (dst - g[1]), src, len);
				if (big_call(e, out_ == 2 ? 4 : 5, out_ != 1, dst, src, len)) BAD();
				if (memcmp(g[1], want, MAXL)) { snprintf(nat_msg, sizeof(nat_msg), "copy of %zu bytes: destination differs from the specified copy", len); BAD(); }
				for (size_t i = 0; i < (p > 16 ? 0 : MAXL); i += 4096) if (g[0][i] != (unsigned char) (i * 167 + (i >> 8) * 13 + 1)) { snprintf(nat_msg, sizeof(nat_msg), "copy of %zu bytes: source altered", len); BAD(); }
			}
		}
	}
	if (huge) {
		const size_t C = 2UL << 20, L = 1UL << 32; int fd = memfd_create("biglen", 0); unsigned char *b[2];
		if (fd < 0 || ftruncate(fd, 2 * C)) return 2;
		for (int k = 0; k < 2; k++) {
			b[k] = mmap(NULL, L + C, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (b[k] == MAP_FAILED) return 2;
			for (size_t o = 0; o < L; o += C) if (mmap(b[k] + o, C, 3, MAP_SHARED | MAP_FIXED, fd, k * C) == MAP_FAILED) return 2;
			if (mprotect(b[k] + L, 4096, 3)) return 2;
		}
		memset(b[0] + L, 0x3c, 4096);
		for (int e = 0; e < subj_nr; e++) {
			const struct subj_ent *T = &subj_table[e]; if (T->kind != K_CBNE_MEMCPY_ST || T->flags || T->mode) continue;
			memset(b[1] + L, 0xd7, 4096); memset(b[0], 0x11, 4096); memset(b[1], 0, 4096);
			if (big_call(e, 5, 1, b[1], b[0], L + 24)) BAD();
			for (int i = 0; i < 4096; i++) if (b[1][L + i] != (i < 24 ? 0x3c : 0xd7)) { snprintf(nat_msg, sizeof(nat_msg), "copy of 2^32+24 bytes: byte 2^32+%d of the destination is %#x", i, b[1][L + i]); BAD(); }
		}
		close(fd);
	}
	printf("{\"cases\": %lu, \"ret0\": %lu, \"ret1\": %lu, \"retm1\": %lu}\n", nat_cases, nat_rets[0], nat_rets[1], nat_rets[2]);
	return 0;
#undef BAD
}
static int native_gating(const char *out)
{
	static const int st[][4] = { /* cpu_id_start, cpu_id, node, mm_cid */
		{ 5, 5, 7, 3 }, { 9, 9, 7, 2 }, { 0, 0, 1, 1 }, { 1, 1, 0, 0 }, { 3, 3, 5, 5 }, { 2, 2, 3, 9 },
		{ 0, -1, 0, 0 }, { 0, -2, 0, 0 } /* unregistered / failed */, { 65541, 65541, 5, 65539 } };
	static const int req[] = { 0, 1, 2, 3, 5, 7, 9, 6, 65541, 65539, 0x7fffffff };
	struct sargs a; uint64_t known = 0; nat_init();
	for (int kind = 0; kind < K_UNLOAD; kind++) for (unsigned s = 0; s < sizeof(st) / sizeof(st[0]); s++)
	for (int mo = -1; mo <= 7; mo++) for (int mode = -1; mode <= 3; mode++) for (unsigned q = 0; q < sizeof(req) / sizeof(req[0]); q++) for (int cf = 0; cf < 3; cf++) {
		struct rseqa *r = &W->rs[0]; memset(r, 0, sizeof(*r)); r->cpu_id_start = st[s][0]; r->cpu_id = st[s][1]; r->node_id = st[s][2]; r->mm_cid = st[s][3];
		base_sh(); x_args(&a, kind, 0, 0); a.cpu = req[q];
		if (cf) { S.sh[V] = kind == K_POP ? a.expect : WD(N3); } if (cf == 2) { S.sh[V] = WD(N1); S.sh[V2] = WD(N3); }
		int supported = (mode == 0 || mode == 1) && (mo == 0 || ((kind == K_CBNE_ST_ST || kind == K_CBNE_MEMCPY_ST) && mo == 3));
		int unreg = st[s][1] < 0, match = req[q] == (mode == 1 ? st[s][3] : st[s][1]) && !unreg;
		/* Known finding: the ABI leaves mm_cid at 0 for unregistered threads, so id 0 is accepted in concurrency-id mode. */
		if (unreg && supported && mode == 1 && req[q] == 0) {
			if (nat_case(-1, kind, mo, mode, &a, 1)) known++;
			continue;
		}
		if (nat_case(-1, kind, mo, mode, &a, !(supported && match))) {
			dump_case(out, "generic", &a, mo, mode); char nm[16]; snprintf(nm, sizeof(nm), "kind %d", kind);
			printf("{\"violation\": \"helper %s mo=%d mode=%d requested=%d current cpu_id=%d mm_cid=%d: %s\"}\n", nm, mo, mode, req[q], st[s][1], st[s][3], nat_msg); return 1;
		}
	}
	printf("{\"cases\": %lu, \"ret0\": %lu, \"ret1\": %lu, \"retm1\": %lu, \"known\": %lu}\n", nat_cases, nat_rets[0], nat_rets[1], nat_rets[2], known);
	return 0;
}

/* ---------- conformance of the kernel model with the running kernel ---------- */
extern const ptrdiff_t __rseq_offset __attribute__((weak)); extern const unsigned int __rseq_size __attribute__((weak));
static volatile uint64_t cf_addr, cf_rip; static volatile uint8_t cf_byte; static volatile int cf_hit, cf_on; static volatile uint64_t cf_cs;
static int conform_trap(ucontext_t *uc)
{
	if (!cf_on) return 0;
	cf_hit = 1; cf_rip = uc->uc_mcontext.gregs[REG_RIP]; cf_cs = ((struct rseqa *) ((char *) __builtin_thread_pointer() + __rseq_offset))->rseq_cs;
	*(volatile uint8_t *) cf_addr = cf_byte;
	if (cf_rip == cf_addr + 1) uc->uc_mcontext.gregs[REG_RIP] = cf_addr;
	return 1;
}
static int native_conform(const char *out)
{
	if (!&__rseq_size || !__rseq_size) { printf("{\"validated\": 0, \"reason\": \"rseq not registered by libc\"}\n"); return 0; }
	struct rseqa *real = (struct rseqa *) ((char *) __builtin_thread_pointer() + __rseq_offset);
	cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(sched_getcpu(), &cs); sched_setaffinity(0, sizeof(cs), &cs);
	uint64_t lo = (uint64_t) __executable_start & ~4095UL; mprotect((void *) lo, ((uint64_t) _end - lo + 4095) & ~4095UL, PROT_READ | PROT_WRITE | PROT_EXEC);
	nat_init(); int validated = 0, cases = 0;
	for (int e = 0; e < subj_nr; e++) {
		if (subj_table[e].kind >= K_UNLOAD || subj_table[e].flags) continue;
		if (subj_table[e].mode && __rseq_size < 28) continue;
		/* model run without events: instruction addresses inside the section and the one after it */
		struct sc c = { T_ALONE, e, e, 0, 0, 0 }; setup(&c);
		struct state *st = calloc(1, sizeof(*st)); init_state(st); canon(st);
		uint64_t ips[400]; int nips = 0, nsteps = 0, first = -1; struct cs *d = NULL; uint16_t acts[2000];
		memset(acts, 0, sizeof(acts)); free(st);
		for (int n = 1; n < 400; n++) {	/* replay n steps, look where we are */
			S.events_on = 1; if (run_replay(acts, n, NULL)) break;
			if (cur_pre.t[0].status == TH_DONE) break;
			if (!d && cur_pre.w.rs[0].rseq_cs) { d = (struct cs *) cur_pre.w.rs[0].rseq_cs; }
			if (d) { uint64_t ip = cur_pre.t[0].r[RIP]; if (ip - d->start < d->len) { if (first < 0) first = n; ips[nips++] = ip; nsteps = n; } else if (ip == d->start + d->len) { ips[nips++] = ip; break; } }
		}
		if (!d) continue;
		for (int k = 0; k < nips; k++) {
			int dup = 0; for (int q = 0; q < k; q++) if (ips[q] == ips[k]) dup = 1; if (dup) continue;
			/* model prediction: interruption at this ip */
			uint16_t pa[2000]; int np = 0; for (int q = 0; q < first + k; q++) pa[np++] = A_STEP; pa[np++] = A_RESCHED;
			setup(&c); S.events_on = 1; S.fixed_cpu = 1;
			for (int q = 0; q < 600; q++) pa[np + q] = A_STEP;
			int fin = 0, mret = 99; struct world mw;
			n_ret[0] = n_ret[1] = n_ret[2] = 0;
			for (int q = 0; q < 600 && !fin; q++) { if (run_replay(pa, np + q, NULL)) break; if (cur_pre.t[0].status == TH_DONE) { fin = 1; mret = n_ret[0] ? 0 : n_ret[1] ? 1 : -1; mw = cur_pre.w; } n_ret[0] = n_ret[1] = n_ret[2] = 0; }
			if (!fin) continue;
			/* real run */
			int tries, ret = 99;
			for (tries = 0; tries < 1000; tries++) {
				memset(W, 0, sizeof(*W)); memcpy(W->sh, S.sh, sizeof(S.sh)); W->p[0].a = S.op[0][0].a;
				rseq_offset = __rseq_offset; W->p[0].a.cpu = subj_table[e].mode ? real->mm_cid : real->cpu_id;
				cf_addr = ips[k]; cf_byte = *(uint8_t *) cf_addr; cf_hit = 0; cf_on = 1;
				*(volatile uint8_t *) cf_addr = 0xcc;
				ret = call_checked(subj_table[e].fn, &W->p[0].a, nat_saved);
				cf_on = 0; *(volatile uint8_t *) cf_addr = cf_byte;
				if (cf_hit) break;
			}
			cases++;
			if (!cf_hit) continue;
			int insec = ips[k] - d->start < d->len;
			const char *bad = NULL;
			if (insec && cf_rip != d->abort) bad = "kernel did not branch to the abort handler";
			else if (!insec && cf_rip != ips[k] + 1) bad = "kernel moved the instruction pointer after the section";
			else if (cf_cs) bad = "kernel left the critical-section pointer set";
			else if (ret != mret) bad = "return value differs from the model";
			else if (memcmp(W->sh, mw.sh, sizeof(mw.sh))) bad = "memory differs from the model";
			if (bad) {
				FILE *f = fopen(out, "w"); if (f) { fprintf(f, "conformance: %s, interrupted at section offset %ld: %s (real ret %d, model ret %d)\n", subj_table[e].name, (long) (ips[k] - d->start), bad, ret, mret); fclose(f); }
				printf("{\"violation\": \"%s interrupted at section offset %ld on the real kernel: %s (returned %d, model %d)\"}\n", subj_table[e].name, (long) (ips[k] - d->start), bad, ret, mret); return 1;
			}
			validated++;
		}
	}
	printf("{\"validated\": %d, \"cases\": %d}\n", validated, cases);
	return 0;
}
