/*
 * Fork (M09): after every history of pool operations up to a depth the process forks; parent and child then continue in
 * every order of a small set of scripts, and each must see exactly its own view.
 */
#include "explore.h"
#include <sys/syscall.h>
struct cfg { const char *name; int global, nc, policy, robust; size_t item, stride; unsigned long ranges; int ps; uintptr_t poison; int cb; int pre, cap; };	/* pre: items allocated first; cap: limit of the depth */
static struct cfg CF[] = {
	{ "percpu2 COW_ZERO", 0, 2, 1, 0, 2048, 4096, 0, 0, 0, 0 }, { "percpu2 COW_ZERO robust", 0, 2, 1, 1, 2048, 4096, 0, 0, 0, 0 }, { "percpu3 COW_ZERO poison", 0, 3, 1, 0, 1024, 4096, 2, 1, 0x77, 0 },
	{ "global robust", 1, 1, 1, 1, 2048, 4096, 0, 0, 0, 0 }, { "global (policy COW_INIT requested)", 1, 1, 0, 0, 4096, 4096, 0, 0, 0, 0 },
	{ "percpu2 COW_INIT", 0, 2, 0, 0, 2048, 4096, 0, 0, 0, 0 }, { "percpu2 COW_INIT robust", 0, 2, 0, 1, 2048, 4096, 0, 0, 0, 0 }, { "percpu3 COW_INIT poison", 0, 3, 0, 0, 1024, 4096, 2, 1, 0x5151515151515151UL, 0 }, { "percpu2 COW_INIT one item per range", 0, 2, 0, 0, 4096, 4096, 0, 0, 0, 0 }, { "percpu2 COW_INIT callback", 0, 2, 0, 0, 2048, 4096, 0, 0, 0, 1 },
	{ "percpu2 COW_INIT, nine ranges", 0, 2, 0, 0, 4096, 4096, 0, 0, 0, 0, 9, 2 }, { "percpu2 COW_INIT robust, nine ranges", 0, 2, 0, 1, 4096, 4096, 0, 0, 0, 0, 9, 2 }, { "percpu2 COW_ZERO, nine ranges", 0, 2, 1, 0, 4096, 4096, 0, 0, 0, 0, 9, 2 },
	{ "percpu2 COW_INIT, large stride", 0, 2, 0, 0, 2048, 1 << 22, 0, 0, 0, 0, 0, 2 }, { "percpu2 COW_ZERO, large stride", 0, 2, 1, 0, 2048, 1 << 22, 0, 0, 0, 0, 0, 2 }, { "percpu3 COW_INIT poison, large stride", 0, 3, 0, 0, 4096, 1 << 20, 0, 1, 0x77, 0, 0, 2 },
	{ "percpu70 COW_INIT", 0, 70, 0, 0, 2048, 4096, 0, 0, 0, 0, 0, 2 }, { "percpu70 COW_INIT robust", 0, 70, 0, 1, 2048, 4096, 0, 0, 0, 0, 0, 2 }, { "percpu70 COW_ZERO", 0, 70, 1, 0, 2048, 4096, 0, 0, 0, 0, 0, 2 },
};
static struct cfg *C; static struct rseq_mempool *P; static int is_init;	/* COW_INIT semantics */
#define MAXLEN 4096
struct item { char *a; uint8_t val[70][MAXLEN]; } IT[24]; static int nit, idc;
static struct shared { volatile int stage, fail, done; char msg[600]; } *SH;
static int cb(void *p, void *a, size_t l, int c) { (void) p; (void) c; memset(a, 0x21, l); return 0; }
static size_t ilen(void) { return round_len(C->item); }
static void writeit(struct item *it, int x) { int id = ++idc; for (size_t k = 0; k < ilen(); k++) it->a[x * C->stride + k] = it->val[x][k] = pat(id, x, k); }
static void learn(struct item *it) { for (int x = 0; x < C->nc; x++) memcpy(it->val[x], it->a + x * C->stride, ilen()); }
static void verify(const char *who) { n_checks++; for (int i = 0; i < nit; i++) for (int x = 0; x < C->nc; x++) if (memcmp(IT[i].a + x * C->stride, IT[i].val[x], ilen())) { size_t k = 0; while ((uint8_t) IT[i].a[x * C->stride + k] == IT[i].val[x][k]) k++; fail_("%s: item %d on cpu %d byte %zu reads %#x, expected %#x", who, i, x, k, (uint8_t) IT[i].a[x * C->stride + k], IT[i].val[x][k]); return; } }
static int vf(const char *who) { int g = GUARD(verify(who)); if (g) fail_("%s: reading live items: %s", who, guard_name[g]); return v_set; }
static uint8_t ib[MAXLEN];
static int op_alloc(const char *who, int how)
{
	char *a = NULL; int id = ++idc; for (size_t k = 0; k < ilen(); k++) ib[k] = pat(id, 5, k);
	int g = GUARD(a = how == 0 ? rseq_mempool_percpu_malloc(P) : how == 1 ? rseq_mempool_percpu_zmalloc(P) : rseq_mempool_percpu_malloc_init(P, ib, ilen())); n_ops++;
	if (g || !a) { fail_("%s: allocation: %s, %p", who, guard_name[g], a); return 1; }
	for (int i = 0; i < nit; i++) if (IT[i].a == a) { fail_("%s: item handed out twice", who); return 1; }
	struct item *it = &IT[nit]; it->a = a;
	g = GUARD(for (int x = 0; x < C->nc && how; x++) for (size_t k = 0; k < ilen(); k++) { uint8_t v = a[x * C->stride + k]; if (v != (how == 1 ? 0 : ib[k])) { fail_("%s: allocated item reads %#x on cpu %d byte %zu", who, v, x, k); break; } } learn(it)); if (g) { fail_("%s: using an item: %s", who, guard_name[g]); return 1; }
	nit++; return v_set;
}
static int op_free(const char *who, int i) { int g = GUARD(rseq_mempool_percpu_free(IT[i].a, C->stride)); n_ops++; if (g) { fail_("%s: free: %s", who, guard_name[g]); return 1; } memmove(&IT[i], &IT[i + 1], (nit - i - 1) * sizeof(IT[0])); nit--; return 0; }
static int room(void) { return !C->ranges || nit < (int) (C->ranges * (C->stride / ilen())); }
/* A complete workout of a pool this process may use. */
static int workout(const char *who)
{
	if (vf(who)) return 1;
	for (int i = 0; i < nit; i++) { int g = GUARD(writeit(&IT[i], (i + 1) % C->nc)); if (g) { fail_("%s: write: %s", who, guard_name[g]); return 1; } }
	for (int h = 0; h < 3; h++) if (room()) { if (op_alloc(who, h) || vf(who)) return 1; }
	if (nit > 1) { if (op_free(who, 0) || vf(who)) return 1; }
	for (int h = 2; h >= 1; h--) if (room()) { if (op_alloc(who, h) || vf(who)) return 1; }
	if (nit && room()) { if (op_free(who, nit - 1) || op_alloc(who, 0) || vf(who)) return 1; }
	return 0;
}
static int finish(const char *who)
{
	int ret = -1, g; if (C->robust) while (nit) if (op_free(who, nit - 1)) return 1;
	g = GUARD(ret = rseq_mempool_destroy(P)); if (g || ret) { fail_("%s: destroy: %s, %d", who, guard_name[g], ret); return 1; }
	nothing_left(who); sane(); return v_set;
}
static int still_mapped(struct mapping *m, int n) { for (int i = 0; i < n; i++) for (char *p = m[i].a; p < m[i].a + m[i].len; p += 4096) { unsigned char v; if (mincore(p, 4096, &v) == 0) return 1; } return 0; }
/* In a child the data area of a copy-on-write-init pool is gone: account for what is really mapped. */
static void resync(void) { struct mapping old[64]; int n = nmaps > 64 ? 64 : nmaps; memcpy(old, maps, n * sizeof(old[0])); for (int i = 0; i < n; i++) for (char *p = old[i].a; p < old[i].a + old[i].len; p += 4096) { unsigned char v; if (mincore(p, 4096, &v)) map_del(p, 4096); } }
static int child_destroy(const char *who)
{
	struct mapping old[64]; int n = nmaps > 64 ? 64 : nmaps, ret = -1; memcpy(old, maps, n * sizeof(old[0]));
	int g = GUARD(ret = rseq_mempool_destroy(P)); if (g || ret) { fail_("%s: destroying the pool: %s, returned %d", who, guard_name[g], ret); return 1; }
	if (still_mapped(old, n)) { fail_("%s: destroying the pool left mappings behind", who); return 1; }
	if (nblocks) { fail_("%s: destroying the pool left %zu heap blocks behind", who, nblocks); return 1; }
	return v_set;
}
static int own_pool(const char *who)	/* a pool created after the fork */
{
	struct rseq_mempool_attr *a = rseq_mempool_attr_create(); rseq_mempool_attr_set_percpu(a, 4096, 2); struct rseq_mempool *q = NULL; char *x = NULL; int ret = 0;
	int g = GUARD(q = rseq_mempool_create("c", 512, a); if (q) { x = rseq_mempool_percpu_zmalloc(q); if (x) { x[0] = 1; x[4096] = 2; if (x[0] != 1 || x[4096] != 2) x = NULL; } ret = rseq_mempool_destroy(q); } rseq_mempool_attr_destroy(a));
	if (g || !q || !x || ret) { fail_("%s: a new pool does not work: %s", who, guard_name[g]); return 1; }
	return 0;
}
static void wait_stage(int s) { for (int i = 0; SH->stage < s && !SH->fail && i < 2000000; i++) usleep(5); }
static void child_exit(void) { if (v_set) { snprintf(SH->msg, sizeof(SH->msg), "%s", v_msg); SH->fail = 1; } SH->done = 1; _exit(0); }
static void reap(pid_t p) { int st; waitpid(p, &st, 0); if (!SH->done) { fail_("the child process died (status %#x)", st); return; } if (SH->fail) fail_("%s", SH->msg); }
/* Everything a misguided child might do with an inherited copy-on-write-init pool; faults in the child are its own business. */
static void misuse(int which)
{
	for (int i = 0; i < (which & 1 ? 2 : nit); i++) {
		pid_t p = fork();	/* one process per action: a fault may leave the inherited lock held */
		if (!p) {
			int g; signal(SIGSEGV, SIG_DFL); signal(SIGBUS, SIG_DFL); (void) g;
			if (which & 1) { if (i == 0) rseq_mempool_percpu_zmalloc(P); else { memset(ib, 0xee, MAXLEN); rseq_mempool_percpu_malloc_init(P, ib, ilen()); } }
			if (which & 2) rseq_mempool_percpu_free(IT[i].a, C->stride);
			if (which & 4) for (int x = 0; x <= C->nc + 1; x++) if (map_owned(IT[i].a + x * C->stride, ilen())) memset(IT[i].a + x * C->stride, 0xdd, ilen());
			_exit(0);
		}
		int st; waitpid(p, &st, 0);
	}
}
static int run(void)
{
	pos = 0; v_set = 0; tlen = 0; trace[0] = 0; reclaim(); bad_unmap = bad_fixed = bad_free = heap_smashed = 0; nit = 0; idc = 0; P = NULL; watchdog(60);
	memset(SH, 0, sizeof(*SH)); tr("%s\n", C->name);
	struct rseq_mempool_attr *a = rseq_mempool_attr_create();
	if (C->cb) rseq_mempool_attr_set_init(a, cb, NULL);
	if (C->global) rseq_mempool_attr_set_global(a, C->stride); else rseq_mempool_attr_set_percpu(a, C->stride, C->nc);
	rseq_mempool_attr_set_populate_policy(a, C->policy ? RSEQ_MEMPOOL_POPULATE_COW_ZERO : RSEQ_MEMPOOL_POPULATE_COW_INIT);
	if (C->robust) rseq_mempool_attr_set_robust(a);
	if (C->ranges) rseq_mempool_attr_set_max_nr_ranges(a, C->ranges);
	if (C->ps) rseq_mempool_attr_set_poison(a, C->poison);
	P = rseq_mempool_create("p", C->item, a); rseq_mempool_attr_destroy(a); if (!P) { fail_("pool creation failed"); return 1; }
	for (int i = 0; i < C->pre; i++) { if (op_alloc("before fork", i % 3)) return 1; int g = GUARD(writeit(&IT[i], i % C->nc)); if (g) { fail_("write: %s", guard_name[g]); return 1; } }
	int len = choose((C->cap && C->cap < depth ? C->cap : depth) + 1);
	for (int d = 0; d < len; d++) {
		int o[32][3], n = 0;
		if (room() && nit < 4 + C->pre) for (int h = 0; h < 3; h++) o[n][0] = 0, o[n++][1] = h;
		for (int i = 0; i < nit; i++) { if (i > 1 && i < C->pre - 1) continue; o[n][0] = 1, o[n++][1] = i; for (int x = 0; x < C->nc; x++) if (x < 2 || x == C->nc - 1) o[n][0] = 2, o[n][1] = i, o[n++][2] = x; }
		int k = choose(n);
		if (o[k][0] == 0) { tr(" %d: allocate (%d)\n", d, o[k][1]); if (op_alloc("before fork", o[k][1])) return 1; }
		else if (o[k][0] == 1) { tr(" %d: free %d\n", d, o[k][1]); if (op_free("before fork", o[k][1])) return 1; }
		else { tr(" %d: write item %d cpu %d\n", d, o[k][1], o[k][2]); int g = GUARD(writeit(&IT[o[k][1]], o[k][2])); if (g) { fail_("write: %s", guard_name[g]); return 1; } n_ops++; }
	}
	int sc = is_init ? choose(C->robust && nit ? 3 : 5) : choose(3); pid_t pid;
	tr(" fork, scenario %d\n", sc); n_forks++;
	if (!is_init) {
		pid = fork();
		if (!pid) {
			abort_armed = 0; watchdog(60);	/* signal handlers and their stack are inherited */
			if (sc == 1) wait_stage(1);
			if (sc == 2) { pid_t p2 = fork(); if (!p2) { if (!workout("grandchild")) finish("grandchild"); child_exit(); } int st; waitpid(p2, &st, 0); if (!SH->done) fail_("the grandchild died (%#x)", st); SH->done = 0; if (SH->fail) { SH->done = 1; _exit(0); } }
			if (!v_set && !workout("child") && !own_pool("child")) { SH->stage = 2; finish("child"); }
			child_exit();
		}
		if (sc == 1) { if (workout("parent")) return 1; SH->stage = 1; }
		reap(pid); if (v_set) return 1;
		if (vf("parent, after the child ended")) return 1;
		if (workout("parent") || own_pool("parent")) return 1;
		if (finish("parent")) return 1;
	} else {
		pid = fork();
		if (!pid) {
			abort_armed = 0; watchdog(60);	/* signal handlers and their stack are inherited */
			resync();
			if (sc == 0 || sc == 3) { if (!(C->robust && nit)) child_destroy("child"); if (!v_set && sc == 3) own_pool("child"); }
			else if (sc == 1) { misuse(1); misuse(2); misuse(4); }
			else if (sc == 2) { pid_t p2 = fork(); if (!p2) { resync(); if (!(C->robust && nit)) child_destroy("grandchild"); child_exit(); } int st; waitpid(p2, &st, 0); if (!SH->done) fail_("the grandchild died (%#x)", st); SH->done = 0; if (!SH->fail && !v_set && !(C->robust && nit)) child_destroy("child"); if (SH->fail) { SH->done = 1; _exit(0); } }
			else if (sc == 4) { if (own_pool("child") == 0) { misuse(4); child_destroy("child"); } }
			child_exit();
		}
		reap(pid); if (v_set) return 1;
		if (vf("parent, after the child ended") || workout("parent") || finish("parent")) return 1;
	}
	n_runs++; if (!sample[0] || n_runs % 997 == 0) snprintf(sample, sizeof(sample), "%s", trace);
	return v_set;
}
int main(int argc, char **argv)
{
	parse_args(argc, argv); catch_crashes(); int ncf = sizeof(CF) / sizeof(CF[0]);
	SH = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (list_only) { printf("%d\n", ncf); return 0; }
	for (int c = 0; c < ncf; c++) {
		if (only >= 0 ? c != only : c % nshard != shard) continue;
		C = &CF[c]; cur_name = C->name; is_init = !C->policy && !C->global; plen = 0;
		do { if (run()) return report(); } while (backtrack());
	}
	return summary();
}
