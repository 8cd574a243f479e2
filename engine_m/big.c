/*
 * Large address ranges (M04): rseq_percpu_ptr() for every combination of a boundary domain of pointers, CPU numbers, strides
 * and argument types, and pools whose stride, CPU count or range exceed 2^31 and 2^32 bytes, filled completely, with the items
 * around every power-of-two offset used on the first, middle and last CPUs.
 */
#include "explore.h"
struct conf { size_t item, stride; int nc, global, policy, robust; };
static const struct conf CF[] = {
	{ 1UL << 21, 1UL << 32, 2, 0, 0, 0 }, { 1UL << 21, 1UL << 32, 2, 0, 1, 0 }, { 1UL << 20, 1UL << 31, 3, 0, 0, 0 }, { 1UL << 20, 1UL << 31, 3, 0, 1, 0 },
	{ 1UL << 22, 1UL << 26, 65, 0, 0, 0 }, { 1UL << 22, 1UL << 26, 65, 0, 1, 0 }, { 1UL << 20, 1UL << 24, 257, 0, 0, 1 }, { 1UL << 15, 1UL << 17, 32769, 0, 0, 0 }, { 1UL << 15, 1UL << 17, 32769, 0, 1, 0 },
	{ 1UL << 22, 1UL << 33, 1, 1, 1, 0 }, { 1UL << 21, 1UL << 32, 1, 1, 1, 0 }, { 64, 1UL << 22, 1025, 0, 0, 0 },
};
#define NCF ((int) (sizeof(CF) / sizeof(CF[0])))
static const struct conf *C;
#define EQ(expr, want) do { n_checks++; if ((uintptr_t) (expr) != (uintptr_t) (want)) fail_("%s is %#lx instead of %#lx (cpu %ld, stride %#lx)", #expr, (unsigned long) (uintptr_t) (expr), (unsigned long) (uintptr_t) (want), cp, (unsigned long) st); } while (0)
static void macro(void)
{
	static const long cpus[] = { 0, 1, 2, 3, 63, 64, 65, 127, 128, 255, 256, 4095, 32767, 32768, 65535, 65536, 1 << 20 };
	uint64_t x = 0x100000000000ULL;
	for (unsigned i = 0; i < sizeof(cpus) / sizeof(cpus[0]); i++) for (int o = 12; o <= 44; o++) for (int b = 0; b < 4; b++) {
		long cp = cpus[i]; size_t st = (size_t) 1 << o; uintptr_t base = b == 0 ? 0x10000 : b == 1 ? 0x7ffff000 : b == 2 ? 0xfffff000UL : x; uintptr_t want = base + (uintptr_t) cp * st;
		int __rseq_percpu *pi = (int *) base; char *pc = (char *) base; struct { long a[5]; } *ps = (void *) base; double **pd = (void *) base; const volatile short *pk = (void *) base;
		EQ(rseq_percpu_ptr(pi, cp, st), want); EQ(rseq_percpu_ptr(pc, (int) cp, st), want); EQ(rseq_percpu_ptr(ps, (unsigned) cp, st), want); EQ(rseq_percpu_ptr(pd, (unsigned long) cp, st), want); EQ(rseq_percpu_ptr(pk, cp, st), want);
		if (cp < 32768) EQ(rseq_percpu_ptr(pi, (short) cp, st), want);
		if (cp < 128) EQ(rseq_percpu_ptr(pi, (signed char) cp, st), want);
		if (o < 31) EQ(rseq_percpu_ptr(pi, (int) cp, (int) st), want);
		if (o < 32) EQ(rseq_percpu_ptr(pi, (int) cp, (unsigned) st), want);
		EQ(rseq_percpu_ptr(pi, cp - 1 + 1, st / 2 + st / 2), want); EQ(rseq_percpu_ptr(pi + 0, cp ? cp : 0, st ? st : 1), want); EQ(rseq_percpu_ptr(&pi[3], cp, st), want + 12); EQ(rseq_percpu_ptr(pi + 3, cp | 0, st | 0), want + 12);
		EQ(&rseq_percpu_ptr(ps, cp, st)->a[2], want + 16); EQ(rseq_percpu_ptr(ps, cp, st) + 1, want + 40); EQ(rseq_percpu_ptr(ps, cp, st) + 0, want); EQ(&rseq_percpu_ptr(pk, cp, st)[1], want + 2);
		if (o == 16) { EQ(rseq_percpu_ptr(pi, cp), want); EQ(rseq_percpu_ptr(ps + 1, cp ^ 0), want + 40); EQ(rseq_percpu_ptr(pi, (int) cp) + 1, want + 4); }
		_Static_assert(__builtin_types_compatible_p(__typeof__(rseq_percpu_ptr(pi, 1, 4096)), int *), "type"); _Static_assert(__builtin_types_compatible_p(__typeof__(rseq_percpu_ptr(pd, 1)), double **), "type");
		n_ops++;
	}
}
static char **all; static size_t nall;
static size_t il;
static uint64_t val(size_t i, long c, int w) { return 0x9e3779b97f4a7c15ULL * (i * 70001 + c * 3 + w + 1) | 1; }
static char *at(size_t i, long c) { return all[i] + (size_t) c * C->stride; }
static int cmp(const void *a, const void *b) { char *x = *(char **) a, *y = *(char **) b; return x < y ? -1 : x > y; }
static void pools(void)
{
	struct rseq_mempool_attr *a = rseq_mempool_attr_create(); struct rseq_mempool *P = NULL; il = round_len(C->item); size_t cap = C->stride / il;
	if (C->global) rseq_mempool_attr_set_global(a, C->stride); else rseq_mempool_attr_set_percpu(a, C->stride, C->nc);
	rseq_mempool_attr_set_populate_policy(a, C->policy ? RSEQ_MEMPOOL_POPULATE_COW_ZERO : RSEQ_MEMPOOL_POPULATE_COW_INIT); rseq_mempool_attr_set_max_nr_ranges(a, 1); if (C->robust) rseq_mempool_attr_set_robust(a);
	int g = GUARD(P = rseq_mempool_create("big", C->item, a)); rseq_mempool_attr_destroy(a); n_ops++;
	if (g) { fail_("creation: %s", guard_name[g]); return; }
	if (!P) { snprintf(sample, sizeof(sample), "creation refused (errno %d)", errno); return; }	/* not enough address space here: not decided */
	all = calloc(cap + 1, sizeof(*all)); nall = 0;
	g = GUARD(while (nall <= cap && (all[nall] = rseq_mempool_percpu_malloc(P))) nall++); n_ops += nall; if (g) { fail_("allocation: %s", guard_name[g]); return; }
	if (nall != cap) { fail_("%zu items handed out of %zu", nall, cap); return; }
	qsort(all, nall, sizeof(*all), cmp);
	for (size_t i = 0; i < nall; i++) {
		if ((uintptr_t) all[i] & (il - 1 < 4095 ? il - 1 : 4095)) { fail_("item %zu misaligned", i); return; }
		if (i && all[i] != all[i - 1] + il) { fail_("items %zu and %zu are %#lx bytes apart", i - 1, i, (unsigned long) (all[i] - all[i - 1])); return; }
		if (!map_owned(all[i], il) || !map_owned(at(i, C->nc - 1), il)) { fail_("item %zu lies outside the pool's mapping", i); return; }
	}
	/* items at both ends and around every power-of-two offset; first, second, middle, last CPUs and those around 2^31, 2^32 */
	static size_t sel[300]; int ns = 0; for (int o = 0; ((size_t) 1 << o) <= nall; o++) for (int d = -1; d <= 1; d++) { size_t i = ((size_t) 1 << o) + d; int dup = i >= nall; for (int k = 0; k < ns; k++) if (sel[k] == i) dup = 1; if (!dup) sel[ns++] = i; }
	long cs[24]; int nc = 0; long cand[12] = { 0, 1, C->nc / 2, C->nc - 2, C->nc - 1, (1L << 31) / C->stride - 1, (1L << 31) / C->stride, (1L << 31) / C->stride + 1, (1L << 32) / C->stride - 1, (1L << 32) / C->stride, (1L << 32) / C->stride + 1, 3 };
	for (int k = 0; k < 12; k++) { int dup = cand[k] < 0 || cand[k] >= C->nc; for (int q = 0; q < nc; q++) if (cs[q] == cand[k]) dup = 1; if (!dup) cs[nc++] = cand[k]; }
	size_t w[3] = { 0, il / 2 & ~7UL, il - 8 };
	g = GUARD(
	for (int s = 0; s < ns; s++) for (int k = 0; k < nc; k++) for (int q = 0; q < 3; q++) *(uint64_t *) (at(sel[s], cs[k]) + w[q]) = val(sel[s], cs[k], il > 16 ? q : 0);
	for (int s = 0; s < ns && !v_set; s++) for (int k = 0; k < nc; k++) for (int q = 0; q < 3; q++) { n_checks++; if (*(uint64_t *) (at(sel[s], cs[k]) + w[q]) != val(sel[s], cs[k], il > 16 ? q : 0)) { fail_("item %zu on cpu %ld does not hold what was stored there", sel[s], cs[k]); break; } }
	/* give every second one back, get them again zeroed and initialised: the others keep their content */
	uint64_t *buf = malloc(il); for (size_t i = 0; i < il / 8; i++) buf[i] = i * 0x10001 + 7;
	for (int s = 0; s < ns && !v_set; s += 2) { rseq_mempool_percpu_free(all[sel[s]], C->stride); n_ops++; char *p = s & 2 ? rseq_mempool_percpu_zmalloc(P) : rseq_mempool_percpu_malloc_init(P, buf, il); n_ops++;
		if (p != all[sel[s]]) { fail_("the only free item is not handed out again"); break; }
		for (int k = 0; k < nc && !v_set; k++) { n_checks++; uint64_t *u = (uint64_t *) at(sel[s], cs[k]); for (size_t i = 0; i < il / 8; i++) if (u[i] != (s & 2 ? 0 : buf[i])) { fail_("item %zu on cpu %ld, word %zu: %#lx", sel[s], cs[k], i, u[i]); break; } } }
	for (int s = 1; s < ns && !v_set; s += 2) for (int k = 0; k < nc; k++) for (int q = 0; q < 3; q++) { n_checks++; if (*(uint64_t *) (at(sel[s], cs[k]) + w[q]) != val(sel[s], cs[k], il > 16 ? q : 0)) { fail_("live item %zu on cpu %ld changed", sel[s], cs[k]); break; } }
	free(buf);
	for (size_t i = 0; i < nall && !v_set; i++) rseq_mempool_percpu_free(all[i], C->stride);
	if (!v_set && rseq_mempool_destroy(P)) fail_("destroy failed"));
	if (g && !v_set) fail_("using the pool: %s", guard_name[g]);
	if (!v_set) { nothing_left("after destroy"); }
	snprintf(sample, sizeof(sample), "%zu items of %zu bytes, %d of them used on %d of %d CPUs", nall, il, ns, nc, C->nc); free(all);
}
int main(int argc, char **argv)
{
	parse_args(argc, argv); if (list_only) { printf("%d\n", NCF + 1); return 0; }
	catch_crashes(); watchdog(600); map_limit = (size_t) 1 << 37;
	if (only == NCF) { cur_name = "rseq_percpu_ptr"; n_runs++; macro(); return v_set ? report() : summary(); }
	C = &CF[only]; static char nm[200]; snprintf(nm, sizeof(nm), "%s%d %s%s item=%#zx stride=%#zx", C->global ? "global" : "percpu", C->nc, C->policy ? "COW_ZERO" : "COW_INIT", C->robust ? " robust" : "", C->item, C->stride); cur_name = nm;
	n_runs++; pools(); if (!v_set) sane(); return v_set ? report() : summary();
}
