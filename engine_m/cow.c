/*
 * Lazy population (M14): every sequence of allocations (plain, zeroed, initialised), frees and stores by the application up
 * to a depth; after every operation each page of each CPU's memory, of whose items the application stored to none on that CPU, must still be the
 * shared one (the kernel's page table is asked: /proc/self/pagemap), and the library must not have stored to it (the pages
 * are write-protected until first written).
 */
#include "explore.h"
#include <sys/prctl.h>
struct conf { size_t item, stride; int nc, global, policy, robust, ps; uintptr_t poison; unsigned long ranges; int preread; int pre, cap; };	/* pre: plain allocations first; cap: limit of the depth */
static struct conf CF[256]; static int ncf;
static struct conf *C; static int use_pm, pmfd = -1;

/* ---- what the application may have written ---- */
struct pg { uintptr_t a; int app; };
static struct pg pgs[4096]; static int npgs;
static struct pg *page(uintptr_t a) { a &= ~(uintptr_t) 4095; for (int i = 0; i < npgs; i++) if (pgs[i].a == a) return &pgs[i]; if (npgs == 4096) { printf("{\"error\": \"too many pages\"}\n"); _exit(2); } pgs[npgs] = (struct pg) { a, 0 }; return &pgs[npgs++]; }
static void app_pages(char *p, size_t len, int cpu) { for (uintptr_t a = (uintptr_t) p & ~4095UL; a < (uintptr_t) p + len; a += 4096) page(a)->app = 1; (void) cpu; }

/* ---- write watch ---- */
static uintptr_t wr[4096]; static int nwr; static int in_lib;
static void watch_map(void *p, size_t len, int prot, int flags)
{
	if (!(prot & PROT_WRITE) || !in_lib) return;
	for (int i = 0; i < nwr; i++) if (wr[i] >= (uintptr_t) p && wr[i] < (uintptr_t) p + len) wr[i--] = wr[--nwr];
	mprotect(p, len, prot & ~PROT_WRITE); (void) flags;
}
static int watch_fault(void *addr)
{
	uintptr_t a = (uintptr_t) addr & ~(uintptr_t) 4095; if (!map_owned((char *) a, 4096)) return 0;
	for (int i = 0; i < nwr; i++) if (wr[i] == a) return 0;		/* already writable: a real fault */
	if (nwr == 4096 || mprotect((void *) a, 4096, PROT_READ | PROT_WRITE)) return 0;
	wr[nwr++] = a; return 1;
}
static int watched(uintptr_t a) { for (int i = 0; i < nwr; i++) if (wr[i] == a) return 1; return 0; }
/* 1: the page is a private copy of this process, 0: shared, zero or absent */
static int populated(uintptr_t a)
{
	if (use_pm) { uint64_t e; if (pread(pmfd, &e, 8, a / 4096 * 8) == 8) { if (e >> 62 & 1 && !(e >> 61 & 1)) return 1; if (e >> 63) return !(e >> 61 & 1) && (e >> 56 & 1); return 0; } }
	return watched(a);
}
static int pagemap_works(void)
{
	pmfd = open("/proc/self/pagemap", O_RDONLY | O_CLOEXEC); if (pmfd < 0) return 0;
	volatile char *z = mmap(NULL, 12288, 3, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); int fd = memfd_create("t", MFD_CLOEXEC); volatile char *s, *q; int ok = 1;
	if (fd < 0 || ftruncate(fd, 12288)) return 0;
	s = mmap(NULL, 12288, 3, MAP_SHARED, fd, 0); q = mmap(NULL, 12288, 3, MAP_PRIVATE, fd, 0); s[0] = s[4096] = s[8192] = 1;
	z[0] = 1; (void) z[4096]; q[0] = 2; (void) q[4096]; use_pm = 1;
	const int want[3] = { 1, 0, 0 };
	for (int i = 0; i < 3; i++) if (populated((uintptr_t) z + i * 4096) != want[i] || populated((uintptr_t) q + i * 4096) != want[i]) ok = 0;
	munmap((void *) z, 12288); munmap((void *) s, 12288); munmap((void *) q, 12288); close(fd); use_pm = 0; return ok;
}

static struct rseq_mempool *P; static char *known[600]; static int nknown; static struct { char *a; int st; } it[24]; static int nit, step; static int cpus[3], ncp;
static void learn(char *a) { for (int i = 0; i < nknown; i++) if (known[i] == a) return; if (nknown < 600) known[nknown++] = a; }
static void check_pages(const char *when)
{
	size_t il = round_len(C->item);
	for (int i = 0; i < nknown && !v_set; i++) for (int c = 0; c < C->nc; c++) for (uintptr_t a = (uintptr_t) (known[i] + c * C->stride) & ~4095UL; a < (uintptr_t) (known[i] + c * C->stride) + il; a += 4096) {
		n_checks++;
		if (page(a)->app) continue;
		if (watched(a)) { fail_("%s: the library stored to a page of cpu %d's memory that nobody wrote", when, c); return; }
		if (populated(a)) { fail_("%s: a page of cpu %d's memory that nobody wrote has been populated", when, c); return; }
	}
}
static void op_alloc(int how)
{
	static uint64_t buf[1 << 15]; char *a = NULL; size_t il = round_len(C->item), len = how == 3 ? (il > 8 ? il / 2 : 8) : il;
	for (size_t i = 0; i < il / 8; i++) buf[i] = how == 4 ? 0 : 0x1111111111111111ULL * (step % 14 + 1) + i;
	in_lib = 1; int g = GUARD(a = how == 0 ? rseq_mempool_percpu_malloc(P) : how == 1 ? rseq_mempool_percpu_zmalloc(P) : rseq_mempool_percpu_malloc_init(P, buf, len)); in_lib = 0; n_ops++;
	tr(" %d: %s -> %p\n", step, how == 0 ? "malloc" : how == 1 ? "zmalloc" : how == 2 ? "malloc_init(non-zero)" : how == 3 ? "malloc_init(non-zero, half)" : "malloc_init(zeroes)", (void *) a);
	if (g) { fail_("allocation: %s", guard_name[g]); return; }
	if (!a) return;
	learn(a); it[nit].a = a; it[nit++].st = 1;
	if (C->policy && (how == 2 || how == 3)) for (int c = 0; c < C->nc; c++) app_pages(a + c * C->stride, il, c);	/* documented: populates */
}
static void op_free(int k)
{
	char *a = it[k].a; tr(" %d: free %p\n", step, (void *) a);
	/* the free list of a non-robust COW_ZERO pool lives in the first CPU's memory of the free items */
	if (C->policy && !C->robust) app_pages(a, round_len(C->item), 0);
	in_lib = 1; int g = GUARD(rseq_mempool_percpu_free(a, C->stride)); in_lib = 0; n_ops++; if (g) fail_("free: %s", guard_name[g]);
	it[k] = it[--nit];
}
static void op_store(int k, int c)	/* a store to any part of the item counts for the whole item */
{ size_t il = round_len(C->item); char *p = it[k].a + c * C->stride; tr(" %d: cpu %d stores to %p\n", step, c, (void *) it[k].a); app_pages(p, il, c); for (size_t i = step & 1 ? 0 : il - 8; i < il; i += step & 1 ? il : 8) *(uint64_t *) (p + i) = 0xabcdef0011223344ULL + i + c; n_ops++; }
static void run(int dep)
{
	v_set = 0; tlen = 0; trace[0] = 0; npgs = nwr = nknown = nit = 0; pos = 0; reclaim(); n_runs++;
	struct rseq_mempool_attr *a = rseq_mempool_attr_create();
	if (C->global) rseq_mempool_attr_set_global(a, C->stride); else rseq_mempool_attr_set_percpu(a, C->stride, C->nc);
	rseq_mempool_attr_set_populate_policy(a, C->policy ? RSEQ_MEMPOOL_POPULATE_COW_ZERO : RSEQ_MEMPOOL_POPULATE_COW_INIT);
	if (C->robust) rseq_mempool_attr_set_robust(a);
	if (C->ps) rseq_mempool_attr_set_poison(a, C->poison);
	rseq_mempool_attr_set_max_nr_ranges(a, C->ranges);
	in_lib = 1; P = rseq_mempool_create("p", C->item, a); in_lib = 0; rseq_mempool_attr_destroy(a); if (!P) { fail_("creation failed"); return; }
	ncp = 0; for (int c = 0; c < C->nc; c++) if (c < 2 || c == C->nc - 1) cpus[ncp++] = c;
	for (step = 0; step < C->pre && !v_set; step++) { op_alloc(0); check_pages("after an allocation"); }
	if (C->cap && dep > C->cap) dep = C->cap;
	for (step = 0; step < dep && !v_set; step++) {
		int nal = nit < 3 + C->pre ? 5 : 0, c = choose(nal + nit + nit * ncp);
		if (c < nal) op_alloc(c); else if (c < nal + nit) op_free(c - nal); else op_store((c - nal - nit) / ncp, cpus[(c - nal - nit) % ncp]);
		if (C->preread) for (int i = 0; i < nknown; i++) for (int q = 0; q < C->nc; q++) (void) *(volatile char *) (known[i] + q * C->stride);
		if (!v_set) check_pages("after an operation");
	}
	if (!v_set) {	/* learn all the items there are */
		while (nknown < 600) { char *p = NULL; in_lib = 1; int g = GUARD(p = rseq_mempool_percpu_malloc(P)); in_lib = 0; if (g || !p) break; learn(p); if (nit < 20) { it[nit].a = p; nit++; } else if (C->robust) { in_lib = 1; rseq_mempool_percpu_free(p, C->stride); in_lib = 0; break; } }
		check_pages("over all items of the pool");
	}
	if (tlen > (int) strlen(sample) && tlen < 3000) strcpy(sample, trace);
	if (!C->robust || v_set == 0) { for (int i = 0; i < nit && C->robust; i++) (void) GUARD(rseq_mempool_percpu_free(it[i].a, C->stride)); if (!v_set) (void) GUARD(rseq_mempool_destroy(P)); }
}
static void add(struct conf c) { CF[ncf++] = c; }
int main(int argc, char **argv)
{
	parse_args(argc, argv); prctl(PR_SET_THP_DISABLE, 1, 0, 0, 0);
	static const struct { size_t item, stride; } sz[] = { { 1024, 4096 }, { 4096, 4096 }, { 4096, 8192 }, { 8192, 8192 }, { 100, 4096 } };
	for (unsigned s = 0; s < 5; s++) for (int policy = 0; policy < 2; policy++) for (int robust = 0; robust < 2; robust++) for (int ps = 0; ps < 3; ps++) {
		if (policy && ps == 2) continue;	/* a non-zero poison populates COW_ZERO pools, as documented */
		if (!thorough && (s == 2 || s == 4) && ps) continue;
		add((struct conf) { sz[s].item, sz[s].stride, 2, 0, policy, robust, ps > 0, ps == 2 ? 0x7777777777777777ULL : 0, s == 1 ? 2 : 1, s & 1 });
		if (thorough) add((struct conf) { sz[s].item, sz[s].stride, 3, 0, policy, robust, ps > 0, ps == 2 ? 0x7777777777777777ULL : 0, s == 1 ? 2 : 1, !(s & 1) });
		if (policy && s < 2 && ps < 1) add((struct conf) { sz[s].item, sz[s].stride, 1, 1, policy, robust, ps > 0, 0, s == 1 ? 2 : 1, 0 });
	}
	for (int policy = 0; policy < 2; policy++) for (int robust = 0; robust < 2; robust++) for (int ps = 0; ps < 2 - policy; ps++) {
		add((struct conf) { 4096, 4096, 66, 0, policy, robust, ps, ps ? 0x6666 : 0, 2, 0, 0, 3 });	/* many CPUs */
		add((struct conf) { 4096, 4096, 2, 0, policy, robust, ps, ps ? 0x6666 : 0, 11, 0, 9, 2 });	/* many ranges */
		add((struct conf) { 1 << 18, 1 << 18, 2, 0, policy, robust, ps, ps ? 0x6666 : 0, 2, 0, 0, 3 });	/* large items */
	}
	if (list_only) { printf("%d\n", ncf); return 0; }
	catch_crashes(); int can = pagemap_works(); watchdog(800 * (thorough ? 30 : 1));
	on_fault = watch_fault;
	for (int i = 0; i < ncf; i++) {
		if (only >= 0 ? i != only : i % nshard != shard) continue;
		C = &CF[i]; static char nm[200]; snprintf(nm, sizeof(nm), "%s%d %s%s%s item=%zu stride=%zu ranges=%lu", C->global ? "global" : "percpu", C->nc, C->policy ? "COW_ZERO" : "COW_INIT", C->robust ? " robust" : "", C->ps ? C->poison ? " poison" : " poison=0" : "", C->item, C->stride, C->ranges); cur_name = nm; n_cases++;
		for (use_pm = can; use_pm >= 0; use_pm--) {	/* with the kernel's page table and the write watch, then the write watch alone (shallower) */
			on_map = use_pm ? NULL : watch_map;
			plen = 0; int d = can && !use_pm ? depth - 1 : depth;
			do { run(d); if (v_set) return report(); } while (backtrack());
		}
	}
	return summary();
}
