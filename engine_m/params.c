/*
 * Pool parameters (M11): the full grid of item length x stride x CPU count x policy x type x robust x name, and every
 * sequence of attribute calls up to a depth; creation must succeed exactly for valid parameters and the pool must honour them.
 */
#include "explore.h"
#define PAGE ((size_t) page_len)
#include <limits.h>
static char longname[600];
static int cbcount[2], cbbad; static size_t cblen; static int cbglobal;
static int cb0(void *p, void *a, size_t l, int c) { cbcount[0]++; if (p != &cbcount[0] || l != cblen || (c == -1) != cbglobal) cbbad = 1; (void) a; return 0; }
static int cb1(void *p, void *a, size_t l, int c) { cbcount[1]++; if (p != &cbcount[1] || l != cblen || (c == -1) != cbglobal) cbbad = 1; (void) a; return 0; }
struct want { int type /* 0 percpu 1 global */; size_t item, stride; long ncpus; int policy; int robust, ps; uintptr_t poison; unsigned long ranges; int cb; int policy_known; };
static void fresh(void) { v_set = 0; tlen = 0; trace[0] = 0; reclaim(); bad_unmap = bad_fixed = bad_free = heap_smashed = 0; cbcount[0] = cbcount[1] = cbbad = 0; }
/* Expected outcome of creation: 0 success, 1 EINVAL, 2 either ENOMEM or success, 3 must fail */
static int expect(const struct want *w, __uint128_t *total)
{
	size_t st = w->stride ? w->stride : RSEQ_MEMPOOL_STRIDE, il = 8; long nc = w->type ? 1 : w->ncpus ? w->ncpus : rseq_get_max_nr_cpus();
	*total = 0;
	if (w->item > ((size_t) 1 << 63)) return 1;
	while (il < w->item) il <<= 1;
	if (w->policy != 0 && w->policy != 1) return 1;
	if (!w->type && w->ncpus < 0) return 1;
	if (st < PAGE || (st & (st - 1)) || il > st) return 1;
	*total = (__uint128_t) st * (nc + 2);
	if (*total >> 47) return 3;
	if (*total > ((__uint128_t) 1 << 30)) return 2;
	return 0;
}
static void use_pool(struct rseq_mempool *p, const struct want *w)
{
	size_t st = w->stride ? w->stride : RSEQ_MEMPOOL_STRIDE, il = round_len(w->item); long nc = w->type ? 1 : w->ncpus ? w->ncpus : rseq_get_max_nr_cpus();
	errno = 0; int m = rseq_mempool_get_max_nr_cpus(p), e = errno;
	if (w->type ? m != -1 || e != EINVAL : m != nc) { fail_("reported CPU count %d (errno %d), created with %ld", m, e, w->type ? -1 : nc); return; }
	size_t cap = st / il, lim = w->ranges ? w->ranges * cap : 0; char *a = rseq_mempool_percpu_malloc(p), *b = NULL;
	if (!a) { fail_("the first allocation failed, errno %d", errno); return; }
	if ((uintptr_t) a & (il - 1)) fail_("item not aligned on its size");
	long cs[4] = { 0, 1, nc / 2, nc - 1 };
	for (int k = 0; k < 4; k++) {
		long c = cs[k]; if (c >= nc) continue;
		char *q = a + (size_t) c * st;
		if (!w->type && st == RSEQ_MEMPOOL_STRIDE && (char *) rseq_percpu_ptr(a, c) != q) fail_("rseq_percpu_ptr differs");
		if (!w->type && (char *) rseq_percpu_ptr(a, c, st) != q) fail_("rseq_percpu_ptr differs");
		if (!map_owned(q, il)) { fail_("memory of cpu %ld is not part of the pool's mapping", c); return; }
		q[0] = 3 + c; q[il - 1] = 7 + c;
	}
	for (int k = 0; k < 4; k++) if (cs[k] < nc && il > 1 && (a[cs[k] * st] != (char) (3 + cs[k]) || a[cs[k] * st + il - 1] != (char) (7 + cs[k]))) fail_("cpu %ld does not read back what was written", cs[k]);
	if (lim && lim <= 2048) {	/* exact capacity */
		static char *all[4096]; size_t n = 0; all[n++] = a;
		while (n <= lim && (b = rseq_mempool_percpu_malloc(p))) { all[n++] = b; if (n > 4000) break; }
		if (n != lim) fail_("%s%zu items handed out, expected exactly %zu", n > lim ? "at least " : "", n, lim);
		for (size_t k = 0; k < n; k++) for (size_t j = 0; j < k && n <= 64; j++) { ptrdiff_t d = all[k] - all[j]; if (d < 0) d = -d; if ((size_t) d < il) fail_("items overlap"); }
		for (size_t k = 1; k < n; k++) rseq_mempool_percpu_free(all[k], st);
	} else if (cap > 1) { b = rseq_mempool_percpu_malloc(p); if (!b) fail_("second allocation failed"); else { ptrdiff_t d = b - a; if (d < 0) d = -d; if ((size_t) d < il) fail_("items overlap"); rseq_mempool_percpu_free(b, st); } }
	rseq_mempool_percpu_free(a, st);
	int ps = w->ps; uintptr_t po = w->poison; if (w->robust && !ps) { if (w->policy_known) ps = 1; po = (w->policy || w->type) ? 0 : (uintptr_t) 0x5555555555555555ULL; }
	if (ps) for (int k = 0; k < 4; k++) if (cs[k] < nc) { volatile uintptr_t *q = (volatile uintptr_t *) (a + cs[k] * st); for (size_t i = w->robust ? 0 : 1; i < il / sizeof(*q) && i < 4096; i++) if (q[i] != po) { fail_("freed memory holds %#lx instead of the poison value %#lx", (unsigned long) q[i], (unsigned long) po); break; } }
}
static int live_cb(const struct want *w, int calls0, int calls1)
{
	if (!w->cb) { if (calls0 || calls1) fail_("callback called although not set"); return 0; }
	int mine = w->cb == 1 ? calls0 : calls1, other = w->cb == 1 ? calls1 : calls0;
	long nc = w->type ? 1 : w->ncpus ? w->ncpus : rseq_get_max_nr_cpus();
	if (other) fail_("the replaced callback was called");
	if (mine != nc) fail_("callback called %d times at creation, expected %ld", mine, nc);
	if (cbbad) fail_("callback called with wrong arguments");
	return 0;
}
static void check_create(const char *name, struct rseq_mempool_attr *a, const struct want *w, int mutate)
{
	struct rseq_mempool *p = NULL; __uint128_t total; int ex = expect(w, &total), ret = -1, g; size_t b0 = nblocks;
	cbcount[0] = cbcount[1] = cbbad = 0; cblen = w->stride ? w->stride : RSEQ_MEMPOOL_STRIDE; cbglobal = w->type;
	errno = 0; g = GUARD(p = rseq_mempool_create(name, w->item, a)); int e = errno; n_ops++;
	if (g) { fail_("creation: %s", guard_name[g]); return; }
	tr(" create -> %s, errno %d\n", p ? "pool" : "NULL", p ? 0 : e);
	if (!p) {
		if (ex == 0) fail_("creation with valid parameters failed, errno %d", e);
		else if (ex == 1 && e != EINVAL) fail_("invalid parameters reported with errno %d instead of EINVAL", e);
		else if (ex >= 2 && e != ENOMEM && e != EINVAL) fail_("creation failed with errno %d", e);
		if (nmaps || nfds || nblocks != b0) fail_("failed creation holds resources (%d mappings, %d descriptors, %zd heap blocks)", nmaps, nfds, (ssize_t) (nblocks - b0));
		return;
	}
	if (ex == 1) { fail_("creation succeeded for invalid parameters"); return; }
	if (ex == 3) { fail_("creation succeeded although %g bytes of address space are needed", (double) total); return; }
	live_cb(w, cbcount[0], cbcount[1]); if (v_set) return;
	if (a && mutate) {	/* changing or destroying the attributes must not matter any more */
		rseq_mempool_attr_set_percpu(a, 3, -5); rseq_mempool_attr_set_poison(a, 0x1234); rseq_mempool_attr_set_max_nr_ranges(a, 77); rseq_mempool_attr_set_robust(a); rseq_mempool_attr_set_init(a, NULL, NULL);
		if (mutate == 2) { rseq_mempool_attr_destroy(a); }
	}
	g = GUARD(use_pool(p, w)); if (g && !v_set) fail_("using the pool: %s", guard_name[g]);
	if (v_set) return;
	if (w->robust) {	/* the robust attribute is in force: double free is caught */
		size_t st = w->stride ? w->stride : RSEQ_MEMPOOL_STRIDE; g = GUARD(void *x = rseq_mempool_percpu_malloc(p); rseq_mempool_percpu_free(x, st); rseq_mempool_percpu_free(x, st));
		if (g != 1) fail_("robust attribute not in force (double free not detected)");
		reclaim(); return;
	}
	g = GUARD(ret = rseq_mempool_destroy(p)); if (g || ret) fail_("destroy: %s, %d", guard_name[g], ret);
	if (!v_set && (nmaps || nfds)) fail_("pool left %d mappings behind", nmaps);
	if (!v_set && nblocks != b0 - (a && mutate == 2)) fail_("pool left heap blocks behind");
}
static const size_t items[] = { 0, 1, 7, 8, 9, 16, 17, 31, 255, 256, 1025, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 1UL << 20, (1UL << 20) + 1, 1UL << 32, (1UL << 62) + 1, 1UL << 63, (1UL << 63) + 1, ~0UL };
static const size_t strides[] = { 0, 1, 8, 2048, 4095, 4096, 4097, 6144, 8192, 12288, 16384, 65536, 65536 + 4096, 1UL << 20, 1UL << 21, (1UL << 32) + 4096, 1UL << 34, 1UL << 46, 1UL << 62, 1UL << 63, (1UL << 63) + 4096, ~0UL };
static const long cpus[] = { INT_MIN, -4096, -1, 0, 1, 2, 3, 7, 64, 1000, (1L << 30) + 1, INT_MAX - 1, INT_MAX };
static const int pols[] = { 0, 1, 2, -1, 1 << 30 };
static int grid(void)
{
	memset(longname, 'n', 599); int idx = 0;
	for (unsigned i = 0; i < sizeof(items) / sizeof(items[0]); i++) for (unsigned s = 0; s < sizeof(strides) / sizeof(strides[0]); s++) for (unsigned c = 0; c < sizeof(cpus) / sizeof(cpus[0]); c++)
	for (unsigned p = 0; p < sizeof(pols) / sizeof(pols[0]); p++) for (int type = 0; type < 2; type++) for (int rob = 0; rob < 2; rob++) {
		if (type && c != 4) continue;
		if (idx++ % nshard != shard) continue;
		int nm = thorough ? 4 : 1;
		for (int nn = 0; nn < nm; nn++) {
			int n = thorough ? nn : idx / nshard % 4; const char *name = n == 0 ? NULL : n == 1 ? "" : n == 2 ? "pool" : longname;
			fresh(); watchdog(60); n_cases++; n_runs++;
			struct want w = { type, items[i], strides[s], cpus[c], pols[p], rob, 0, 0, 1, 0, 1 }; 
			tr("item_len %zu stride %zu max_nr_cpus %ld policy %d %s%s name %d\n", w.item, w.stride, w.ncpus, w.policy, type ? "global" : "percpu", rob ? " robust" : "", n);
			struct rseq_mempool_attr *a = rseq_mempool_attr_create(); int e = 0;
			e |= type ? rseq_mempool_attr_set_global(a, w.stride) : rseq_mempool_attr_set_percpu(a, w.stride, (int) w.ncpus);
			e |= rseq_mempool_attr_set_populate_policy(a, pols[p]) | rseq_mempool_attr_set_max_nr_ranges(a, 1); if (rob) e |= rseq_mempool_attr_set_robust(a);
			if (e) fail_("an attribute setter failed");
			int mutate = idx % 3;
			if (!v_set) check_create(name, a, &w, mutate);
			if (v_set) return 1;
			sane(); if (v_set) return 1;
			if (n_cases % 10007 == 1) snprintf(sample, sizeof(sample), "%s", trace);
		}
	}
	return 0;
}
/* every sequence of attribute calls */
#define NOPS 15
static int seqs(void)
{
	struct want w = { 0, 1024, 0, 0, 0, 0, 0, 0, 0, 0, 1 }; pos = 0; fresh(); watchdog(30);
	struct rseq_mempool_attr *a = rseq_mempool_attr_create(); int polset = 0;
	int n = choose(depth + 1);
	for (int d = 0; d < n; d++) {
		int o = choose(NOPS), e = 0;
		switch (o) {
		case 0: e = rseq_mempool_attr_set_percpu(a, 4096, 2); w.type = 0; w.stride = 4096; w.ncpus = 2; tr(" set_percpu(4096, 2)\n"); break;
		case 1: e = rseq_mempool_attr_set_percpu(a, 8192, 3); w.type = 0; w.stride = 8192; w.ncpus = 3; tr(" set_percpu(8192, 3)\n"); break;
		case 2: e = rseq_mempool_attr_set_percpu(a, 0, 1); w.type = 0; w.stride = 0; w.ncpus = 1; tr(" set_percpu(0, 1)\n"); break;
		case 3: e = rseq_mempool_attr_set_percpu(a, 512, 2); w.type = 0; w.stride = 512; w.ncpus = 2; tr(" set_percpu(512, 2)\n"); break;
		case 4: e = rseq_mempool_attr_set_global(a, 4096); w.type = 1; w.stride = 4096; tr(" set_global(4096)\n"); break;
		case 5: e = rseq_mempool_attr_set_global(a, 0); w.type = 1; w.stride = 0; tr(" set_global(0)\n"); break;
		case 6: e = rseq_mempool_attr_set_max_nr_ranges(a, 1); w.ranges = 1; tr(" set_max_nr_ranges(1)\n"); break;
		case 7: e = rseq_mempool_attr_set_max_nr_ranges(a, 2); w.ranges = 2; tr(" set_max_nr_ranges(2)\n"); break;
		case 8: e = rseq_mempool_attr_set_poison(a, 0); w.ps = 1; w.poison = 0; tr(" set_poison(0)\n"); break;
		case 9: e = rseq_mempool_attr_set_poison(a, 0xdeadbeefcafef00dUL); w.ps = 1; w.poison = 0xdeadbeefcafef00dUL; tr(" set_poison(x)\n"); break;
		case 10: e = rseq_mempool_attr_set_populate_policy(a, RSEQ_MEMPOOL_POPULATE_COW_INIT); w.policy = 0; polset = 1; tr(" set_populate_policy(COW_INIT)\n"); break;
		case 11: e = rseq_mempool_attr_set_populate_policy(a, RSEQ_MEMPOOL_POPULATE_COW_ZERO); w.policy = 1; polset = 1; tr(" set_populate_policy(COW_ZERO)\n"); break;
		case 12: e = rseq_mempool_attr_set_robust(a); w.robust = 1; tr(" set_robust\n"); break;
		case 13: e = rseq_mempool_attr_set_init(a, cb0, &cbcount[0]); w.cb = 1; if (polset) w.policy_known = 0; tr(" set_init(cb0)\n"); break;
		case 14: e = rseq_mempool_attr_set_init(a, cb1, &cbcount[1]); w.cb = 2; if (polset) w.policy_known = 0; tr(" set_init(cb1)\n"); break;
		}
		if (w.cb && polset) w.policy_known = 0;
		if (e) fail_("an attribute setter failed");
	}
	if (!w.policy_known && w.robust && !w.ps) { /* default poison depends on an unspecified combination */ }
	n_runs++; n_cases++;
	if (!v_set) check_create("x", a, &w, 2);
	if (!v_set) sane();
	return v_set;
}
static int nulls(void)
{
	fresh(); int r[8], k = 0, e; tr("setters with a null attribute object\n");
#define T(call) do { errno = 0; int g = GUARD(r[k] = (call)); e = errno; n_ops++; if (g || r[k] != -1 || e != EINVAL) fail_("%s with a null object: %s, returned %d, errno %d", #call, guard_name[g], r[k], e); k++; } while (0)
	T(rseq_mempool_attr_set_init(NULL, cb0, NULL)); T(rseq_mempool_attr_set_robust(NULL)); T(rseq_mempool_attr_set_percpu(NULL, 4096, 2)); T(rseq_mempool_attr_set_global(NULL, 4096)); T(rseq_mempool_attr_set_max_nr_ranges(NULL, 1)); T(rseq_mempool_attr_set_poison(NULL, 1)); T(rseq_mempool_attr_set_populate_policy(NULL, RSEQ_MEMPOOL_POPULATE_COW_ZERO));
	T(rseq_mempool_get_max_nr_cpus(NULL));
	int g = GUARD(rseq_mempool_attr_destroy(NULL)); if (g) fail_("destroying a null attribute object: %s", guard_name[g]);
	int z = 5; g = GUARD(z = rseq_mempool_destroy(NULL)); if (g || z) fail_("destroying a null pool: %s, %d", guard_name[g], z);
	/* default attributes, initial content longer than the item */
	static const size_t its[] = { 1, 8, 9, 64, 65536 }; static const size_t extra[] = { 1, 7, 1UL << 32, ~0UL / 2 };
	for (unsigned i = 0; i < 5 && !v_set; i++) {
		fresh(); struct want w = { 0, its[i], 0, 0, 0, 0, 0, 0, 0, 0, 1 }; tr("default attributes, item_len %zu\n", its[i]); check_create("d", NULL, &w, 0); n_cases++; n_runs++;
		if (v_set) break;
		struct rseq_mempool *p = rseq_mempool_create(NULL, its[i], NULL); char b[16] = { 0 }; void *x = p;
		for (unsigned j = 0; j < 4 && !v_set; j++) { errno = 0; g = GUARD(x = rseq_mempool_percpu_malloc_init(p, b, round_len(its[i]) + extra[j])); n_ops++; if (g || x || errno != EINVAL) fail_("initial content of %zu bytes for item size %zu: %s, %s, errno %d", round_len(its[i]) + extra[j], round_len(its[i]), guard_name[g], x ? "item" : "NULL", errno); }
		if (!v_set) { rseq_mempool_destroy(p); nothing_left("after destroy"); }
	}
	return v_set;
}
/* a pool of any name can grow */
static int names(void)
{
	static const int ln[] = { 0, 1, 2, 100, 200, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 300, 4095, 4096, 70000 };
	static char nm[70001];
	for (unsigned i = 0; i < sizeof(ln) / sizeof(ln[0]) && !v_set; i++) for (int pol = 0; pol < 2 && !v_set; pol++) for (int rob = 0; rob < 2 && !v_set; rob++) {
		fresh(); watchdog(30); n_runs++; n_cases++; memset(nm, 'n', ln[i]); nm[ln[i]] = 0; tr("pool name of %d characters, policy %d\n", ln[i], pol);
		struct rseq_mempool_attr *a = rseq_mempool_attr_create(); rseq_mempool_attr_set_percpu(a, PAGE, 2); rseq_mempool_attr_set_populate_policy(a, pol); rseq_mempool_attr_set_max_nr_ranges(a, 3); if (rob) rseq_mempool_attr_set_robust(a);
		struct rseq_mempool *p = NULL; void *x[4] = { 0 }; int ret = -1, g = GUARD(p = rseq_mempool_create(nm, PAGE, a)); rseq_mempool_attr_destroy(a);
		if (g || !p) { fail_("creation with a name of %d characters: %s, errno %d", ln[i], guard_name[g], errno); break; }
		memset(nm, 'z', ln[i]);
		for (int k = 0; k < 4 && !v_set; k++) { errno = 0; g = GUARD(x[k] = rseq_mempool_percpu_malloc(p)); n_ops++; if (g || !x[k] != (k == 3)) fail_("pool with a name of %d characters: allocation %d of 3: %s, errno %d", ln[i], k + 1, guard_name[g], errno); }
		for (int k = 0; k < 3 && !v_set; k++) { g = GUARD(rseq_mempool_percpu_free(x[k], PAGE)); if (g) fail_("free: %s", guard_name[g]); }
		if (!v_set) { g = GUARD(ret = rseq_mempool_destroy(p)); if (g || ret) fail_("destroy: %s, %d", guard_name[g], ret); else nothing_left("after destroy"); }
		sane();
	}
	snprintf(sample, sizeof(sample), "%s", trace); return v_set;
}
int main(int argc, char **argv)
{
	parse_args(argc, argv); catch_crashes(); 
	if (!strcmp(what, "grid")) { cur_name = "parameter grid"; if (grid()) return report(); }
	else if (!strcmp(what, "names")) { cur_name = "pool names"; if (names()) return report(); }
	else if (!strcmp(what, "seqs")) {
		cur_name = "attribute call sequence"; int k = 0;
		do { if (seqs()) { return report(); } if (++k % 4096 == 1) snprintf(sample, sizeof(sample), "%s", trace); } while (backtrack());
	} else { cur_name = "null objects and defaults"; if (nulls()) return report(); }
	return summary();
}
