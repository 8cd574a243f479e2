/*
 * Fault enumeration (M08): every history of pool and set operations up to a depth, with every single and every pair of
 * resource requests (mapping, file, advice, heap, callback, unmapping at destroy) refused; the affected call must fail as
 * documented, hold nothing, leave everything else intact, and succeed when repeated.
 */
#include "explore.h"
struct cfg { const char *name; int global, nc, policy, robust, cb; size_t item, stride; unsigned long ranges; int set, named; };
static struct cfg CF[] = {
	{ "percpu2 COW_INIT", 0, 2, 0, 0, 0, 2048, 4096, 0, 0, 1 },
	{ "percpu2 COW_INIT robust callback", 0, 2, 0, 1, 1, 2048, 4096, 0, 0, 1 },
	{ "percpu2 COW_ZERO", 0, 2, 1, 0, 0, 2048, 4096, 3, 0, 0 },
	{ "percpu2 COW_ZERO robust callback", 0, 2, 1, 1, 1, 4096, 4096, 0, 0, 1 },
	{ "global robust", 1, 1, 1, 1, 0, 4096, 4096, 0, 0, 1 },
	{ "global callback", 1, 1, 0, 0, 1, 4096, 8192, 0, 0, 1 },
	{ "percpu3 COW_INIT robust, set", 0, 3, 0, 1, 0, 4096, 4096, 0, 1, 0 },
	{ "percpu2 COW_INIT callback, set", 0, 2, 0, 0, 1, 4096, 4096, 4, 1, 1 },
	{ "percpu2 COW_ZERO robust, set", 0, 2, 1, 1, 0, 2048, 4096, 0, 1, 1 },
	{ "percpu1 COW_INIT one item per range", 0, 1, 0, 0, 0, 8192, 8192, 0, 0, 1 },
};
static struct cfg *C; struct rseq_mempool *P; struct rseq_mempool_set *S;
static int cb_priv; static int cb(void *p, void *a, size_t l, int c) { (void) p; (void) c; if (inject(F_CB)) { errno = EIO; return -1; } memset(a, 0x3c, l < 64 ? l : 64); return 0; }
struct item { char *a; int id; } IT[32]; static int nit, idc;
static void fillit(struct item *it) { for (int x = 0; x < C->nc; x++) for (size_t k = 0; k < round_len(C->item); k += 97) it->a[x * C->stride + k] = pat(it->id, x, k); }
static void verify(void) { n_checks++; for (int i = 0; i < nit; i++) for (int x = 0; x < C->nc; x++) for (size_t k = 0; k < round_len(C->item); k += 97) if ((uint8_t) IT[i].a[x * C->stride + k] != pat(IT[i].id, x, k)) { fail_("content of item %d on cpu %d changed", i, x); return; } }
static int do_verify(const char *when) { int g = GUARD(verify()); if (g) fail_("%s: reading live items: %s", when, guard_name[g]); return v_set; }
#define SNAP size_t s_m = map_total, s_b = nblocks; int s_n = nmaps, s_f = nfds, s_h = faults_hit; (void) s_n
#define SAME (map_total == s_m && nblocks == s_b && nfds == s_f)
/* Repeats a constructor until it succeeds; a refusal must be reported and hold nothing. */
#define TRY(what_, lhs, call, want_errno) do { for (int t_ = 0;; t_++) { SNAP; errno = 0; int g_ = GUARD(lhs = (call)); int e_ = errno; n_ops++; \
	if (g_) { fail_("%s: %s%s", what_, guard_name[g_], faults_hit != s_h ? " after a refused request" : ""); return 1; } \
	if (faults_hit != s_h) { tr("  (%s refused)\n", fk_name[fault_kind_hit[(faults_hit - 1) & 1]]); \
		if (lhs) { fail_("%s succeeded although the %s request was refused", what_, fk_name[fault_kind_hit[(faults_hit - 1) & 1]]); return 1; } \
		if (want_errno && e_ != want_errno) { fail_("%s: errno %d after a refused %s, expected %d", what_, e_, fk_name[fault_kind_hit[(faults_hit - 1) & 1]], want_errno); return 1; } \
		if (!SAME) { fail_("%s failed after a refused %s and holds resources (%zd bytes mapped, %zd heap blocks, %d descriptors)", what_, fk_name[fault_kind_hit[(faults_hit - 1) & 1]], (ssize_t) (map_total - s_m), (ssize_t) (nblocks - s_b), nfds - s_f); return 1; } \
		if (do_verify(what_)) return 1; continue; } \
	if (!lhs) { fail_("%s failed (errno %d) %s", what_, e_, t_ ? "when repeated without a refusal" : "without any refused request"); return 1; } break; } } while (0)
static char *al(int how)
{
	static uint8_t b[16384]; size_t il = round_len(C->item); for (size_t k = 0; k < il; k++) b[k] = pat(77, 3, k);
	if (C->set) return how == 0 ? rseq_mempool_set_percpu_malloc(S, il) : how == 1 ? rseq_mempool_set_percpu_zmalloc(S, il - 5) : rseq_mempool_set_percpu_malloc_init(S, b, il);
	return how == 0 ? rseq_mempool_percpu_malloc(P) : how == 1 ? rseq_mempool_percpu_zmalloc(P) : rseq_mempool_percpu_malloc_init(P, b, il);
}
static void content(char *a, int how)
{
	for (int x = 0; x < C->nc; x++) for (size_t k = 0; k < round_len(C->item); k++) { uint8_t v = a[x * C->stride + k]; if (how == 1 ? v && (!C->set || k < round_len(C->item) - 5) : how == 2 ? v != pat(77, 3, k) : 0) { fail_("allocation delivers wrong content (byte %zu on cpu %d reads %#x)", k, x, v); return; } }
}
static int run(void)
{
	pos = 0; v_set = 0; tlen = 0; trace[0] = 0; reclaim(); bad_unmap = bad_fixed = bad_free = heap_smashed = 0; nit = 0; idc = 0; P = NULL; S = NULL; fault_n = faults_hit = 0; watchdog(30);
	unsigned fk = (1 << F_MMAP) | (1 << F_MEMFD) | (1 << F_FTRUNC) | (1 << F_MADVISE) | (1 << F_CALLOC) | (1 << F_MALLOC) | (1 << F_STRDUP) | (1 << F_CB);
	tr("%s, requests %d and %d refused\n", C->name, fault_at[0], fault_at[1]);
	fault_kinds = !strcmp(what, "unmap") ? 0 : fk;
	struct rseq_mempool_attr *a = NULL; TRY("rseq_mempool_attr_create", a, rseq_mempool_attr_create(), 0);
	if (C->cb) rseq_mempool_attr_set_init(a, cb, &cb_priv);
	if (C->global) rseq_mempool_attr_set_global(a, C->stride); else rseq_mempool_attr_set_percpu(a, C->stride, C->nc);
	rseq_mempool_attr_set_populate_policy(a, C->policy ? RSEQ_MEMPOOL_POPULATE_COW_ZERO : RSEQ_MEMPOOL_POPULATE_COW_INIT);
	if (C->robust) rseq_mempool_attr_set_robust(a);
	if (C->ranges) rseq_mempool_attr_set_max_nr_ranges(a, C->ranges);
	TRY("rseq_mempool_create", P, rseq_mempool_create(C->named ? "pool" : NULL, C->item, a), ENOMEM);
	rseq_mempool_attr_destroy(a);
	if (C->set) { TRY("rseq_mempool_set_create", S, rseq_mempool_set_create(), 0); if (rseq_mempool_set_add_pool(S, P)) { fail_("add_pool failed"); return 1; } }
	size_t cap = C->ranges ? C->ranges * (C->stride / round_len(C->item)) : 99;
	for (int d = 0; d < depth; d++) {
		int n = 3 + (nit > 0) + (nit > 1), k = choose(n); if ((size_t) nit >= cap && k < 3) continue;
		if (k < 3) {
			char *x = NULL; tr(" %d: %s\n", d, k == 0 ? "malloc" : k == 1 ? "zmalloc" : "malloc_init");
			TRY("allocation", x, al(k), ENOMEM);
			for (int i = 0; i < nit; i++) if (IT[i].a == x) { fail_("item handed out twice"); return 1; }
			int g = GUARD(content(x, k); if (!v_set) { IT[nit].a = x; IT[nit].id = ++idc; fillit(&IT[nit]); nit++; }); if (g) fail_("using an item: %s", guard_name[g]);
		} else {
			int i = k == 3 ? nit - 1 : 0; tr(" %d: free %s\n", d, k == 3 ? "newest" : "oldest");
			int g = GUARD(rseq_mempool_percpu_free(IT[i].a, C->stride)); n_ops++; if (g) { fail_("free: %s", guard_name[g]); return 1; }
			memmove(&IT[i], &IT[i + 1], (nit - i - 1) * sizeof(IT[0])); nit--;
		}
		if (v_set || do_verify("after the operation")) return 1;
	}
	if (C->robust) while (nit) { int g = GUARD(rseq_mempool_percpu_free(IT[--nit].a, C->stride)); if (g) { fail_("free: %s", guard_name[g]); return 1; } }
	/* destroy, with unmapping refused */
	int inj = !strcmp(what, "unmap"), ret = 0, tries = 0, g;
	fault_kinds = inj ? 1 << F_MUNMAP : 0; if (inj) fault_n = 0;
	for (;;) {
		SNAP; errno = 0;
		g = GUARD(ret = C->set && !inj ? rseq_mempool_set_destroy(S) : rseq_mempool_destroy(P)); n_ops++;
		if (g) { fail_("destroy%s: %s", tries ? " (repeated after a refused unmapping)" : "", guard_name[g]); return 1; }
		if (faults_hit != s_h) { tr("  (munmap refused)\n"); if (ret != -1) { fail_("destroy returned %d although its memory could not be unmapped", ret); return 1; } tries++; continue; }
		if (ret) { fail_("destroy returned %d%s", ret, tries ? " when repeated" : ""); return 1; }
		break;
	}
	if (C->set && inj) { fault_kinds = 0; reclaim(); } else nothing_left("after destroy");
	sane(); n_runs++; if (faults_hit) n_faults++;
	if (faults_hit && (!sample[0] || n_runs % 9973 == 0)) snprintf(sample, sizeof(sample), "%s", trace);
	return v_set;
}
int main(int argc, char **argv)
{
	parse_args(argc, argv); catch_crashes(); int pairs = strstr(what, "pair") != NULL, unm = !strcmp(what, "unmap"), ncf = sizeof(CF) / sizeof(CF[0]);
	for (int c = 0; c < ncf; c++) {
		C = &CF[c]; cur_name = C->name; if (unm && C->set) continue;
		for (int k1 = 0; k1 < 60; k1++) {
			int any1 = 0; if ((c * 61 + k1) % nshard != shard) continue;
			for (int k2 = pairs || unm ? k1 + 1 : 99; k2 < 100; k2++) {
				int any2 = 0; fault_at[0] = k1; fault_at[1] = k2 == 99 ? -1 : k2; plen = 0;
				do { if (run()) return report(); any1 |= faults_hit >= 1; any2 |= faults_hit >= 2; } while (backtrack());
				if (!any2 && k2 != 99) k2 = 98;	/* no second request that late: finish with the single refusal */
			}
			if (!any1) break;
		}
	}
	fault_at[0] = fault_at[1] = -1;
	return summary();
}
