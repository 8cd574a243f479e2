/*
 * Scale: the guarantees do not depend on how many ranges a pool has grown to (what=ranges), how many items a range holds
 * (what=items), nor on where in a large item a difference lies (what=pos), nor on which addresses the kernel chooses for the pool's
 * mappings (what=place). Every case of the grids below is executed.
 */
#include "explore.h"
static int stop, case_no;
/* a disagreement that belongs to property n: a violation when that property is being decided, otherwise the case ends without verdict */
#define BAD(n, ...) do { stop = 1; if (PR(n)) fail_(__VA_ARGS__); } while (0)
#define MINE() (case_no++ % nshard == shard && !v_set)
struct cf { size_t req, stride; int nc, global, policy, robust, cb; int pset; uintptr_t poison; unsigned long max; };
static struct cf K; static struct rseq_mempool *P; static size_t il; static char nm[300];
#define NCX (K.global ? 1 : K.nc)
static struct { char *base; unsigned seen; } CBR[600]; static int ncb, cb_bad; static char cb_msg[200]; static int cb_priv;
static uint64_t cbv(int cpu, size_t off) { return 0xc0ffee0000000000ULL ^ (uint64_t) (cpu + 2) << 40 ^ off; }
static int cb_func(void *priv, void *addr, size_t len, int cpu)
{
	int cc = K.global ? 0 : cpu; char *base = (char *) addr - (size_t) cc * K.stride; int k;
	if (priv != &cb_priv || len != K.stride || (K.global ? cpu != -1 : cpu < 0 || cpu >= K.nc)) { cb_bad = 1; snprintf(cb_msg, sizeof(cb_msg), "callback called with wrong arguments (length %zu, cpu %d)", len, cpu); return 0; }
	for (k = 0; k < ncb && CBR[k].base != base; k++) ;
	if (k == ncb) { if (ncb == 600) return 0; CBR[ncb].base = base; CBR[ncb++].seen = 0; }
	if (CBR[k].seen & 1u << cc) { cb_bad = 1; snprintf(cb_msg, sizeof(cb_msg), "callback called twice for cpu %d of a range", cpu); }
	CBR[k].seen |= 1u << cc;
	for (size_t i = 0; i < len; i += 8) *(uint64_t *) ((char *) addr + i) = cbv(cc, i);
	return 0;
}
static void name_it(const char *w) { snprintf(nm, sizeof(nm), "%s: %s%d %s%s%s item=%zu stride=%#zx max_ranges=%lu", w, K.global ? "global" : "percpu", NCX, K.policy ? "COW_ZERO" : "COW_INIT", K.robust ? " robust" : "", K.cb ? " callback" : "", K.req, K.stride, K.max); cur_name = nm; }
static int make(void)
{
	reclaim(); stop = 0; ncb = 0; cb_bad = 0; bad_unmap = bad_fixed = bad_free = heap_smashed = 0; n_cases++; P = NULL; il = round_len(K.req); tlen = 0;
	struct rseq_mempool_attr *a = rseq_mempool_attr_create();
	if (K.cb) rseq_mempool_attr_set_init(a, cb_func, &cb_priv);
	if (K.global) rseq_mempool_attr_set_global(a, K.stride); else rseq_mempool_attr_set_percpu(a, K.stride, K.nc);
	rseq_mempool_attr_set_populate_policy(a, K.policy ? RSEQ_MEMPOOL_POPULATE_COW_ZERO : RSEQ_MEMPOOL_POPULATE_COW_INIT);
	rseq_mempool_attr_set_max_nr_ranges(a, K.max); if (K.robust) rseq_mempool_attr_set_robust(a); if (K.pset) rseq_mempool_attr_set_poison(a, K.poison);
	int g = GUARD(P = rseq_mempool_create("scale", K.req, a)); rseq_mempool_attr_destroy(a); n_ops++;
	if (g || !P) { stop = 1; fail_("creation: %s", g ? guard_name[g] : "failed"); return 0; }
	return 1;
}
static uintptr_t poison_of(void) { return K.pset ? K.poison : K.policy || K.global ? 0 : (uintptr_t) 0x5555555555555555ULL; }
static char *at(char *p, int c) { return p + (size_t) c * K.stride; }
static char *alloc(int kind, void *buf, size_t len) { char *p = NULL; n_ops++; int g = GUARD(p = kind == 0 ? rseq_mempool_percpu_malloc(P) : kind == 1 ? rseq_mempool_percpu_zmalloc(P) : rseq_mempool_percpu_malloc_init(P, buf, len)); if (g) { BAD(5, "allocation by a correct program: %s", guard_name[g]); if (!PR(5) && g != 1) fail_("allocation: %s", guard_name[g]); return NULL; } return p; }
static int release(char *p) { n_ops++; int g = GUARD(rseq_mempool_percpu_free(p, K.stride)); if (g) { BAD(5, "free by a correct program: %s", guard_name[g]); if (!PR(5) && g != 1) fail_("free: %s", guard_name[g]); } return g; }
static int destroy(void) { int r = -1; n_ops++; int g = GUARD(r = rseq_mempool_destroy(P)); if (g) { BAD(5, "destroy by a correct program: %s", guard_name[g]); if (!PR(5) && g != 1) fail_("destroy: %s", guard_name[g]); } else if (r) BAD(8, "destroy failed"); else if (PR(8)) nothing_left("after destroy"); P = NULL; return g || r; }
/* the offending statement must abort the process (M05) */
#define OFFENCE(stmt, ...) do { n_ops++; n_faults++; int g_ = GUARD(stmt); if (g_ == 2 || g_ == 3) BAD(5, __VA_ARGS__); else if (!g_) BAD(5, __VA_ARGS__); } while (0)

/* ---- many ranges ---- */
static char *it[70000]; static size_t nit; static char *sorted[70000];
static int cmp(const void *a, const void *b) { char *x = *(char **) a, *y = *(char **) b; return x < y ? -1 : x > y; }
static uint64_t val(size_t i, int c, size_t w) { return (i * 1000003 + c * 7919 + w) * 0x9e3779b97f4a7c15ULL | 1; }
static void put(size_t i) { for (int c = 0; c < NCX; c++) { uint64_t *u = (uint64_t *) at(it[i], c); for (size_t w = 0; w < il / 8; w++) u[w] = val(i, c, w); } }
static void kept(size_t i, const char *when) { for (int c = 0; c < NCX; c++) { uint64_t *u = (uint64_t *) at(it[i], c); n_checks++; for (size_t w = 0; w < il / 8; w++) if (u[w] != val(i, c, w)) { BAD(1, "item %zu on cpu %d, word %zu changed %s", i, c, w, when); return; } } }
static uint64_t ini[1 << 21];
static void expect(size_t i, int kind, int fresh)
{
	char *base = (char *) ((uintptr_t) it[i] & ~(K.stride - 1));
	if (K.cb) { int k; for (k = 0; k < ncb && CBR[k].base != base; k++) ; if (k == ncb) { BAD(12, "item %zu lies in memory the callback never saw", i); return; } if (CBR[k].seen != (1u << NCX) - 1) { BAD(12, "item %zu handed out before the callback ran for every CPU", i); return; } if (cb_bad) { BAD(12, "%s", cb_msg); return; } }
	for (int c = 0; c < NCX; c++) { uint64_t *u = (uint64_t *) at(it[i], c); n_checks++;
		if (kind == 1) { for (size_t w = 0; w < il / 8; w++) if (u[w]) { BAD(2, "zeroed item %zu on cpu %d: word %zu is %#lx", i, c, w, (unsigned long) u[w]); return; } }
		else if (kind == 2) { for (size_t w = 0; w < il / 8; w++) if (u[w] != ini[w]) { BAD(2, "initialised item %zu on cpu %d: word %zu differs", i, c, w); return; } }
		else if (fresh && K.cb) for (size_t w = 0; w < il / 8; w++) if (u[w] != cbv(c, it[i] - base + w * 8)) { BAD(12, "item %zu on cpu %d does not hold what the callback wrote", i, c); return; }
	}
}
static void disjoint(void)
{
	memcpy(sorted, it, nit * sizeof(*it)); qsort(sorted, nit, sizeof(*it), cmp);
	for (size_t i = 0; i < nit; i++) { if ((uintptr_t) sorted[i] & (il - 1)) { BAD(1, "item misaligned"); return; }
		char *b = (char *) ((uintptr_t) sorted[i] & ~(K.stride - 1));
		for (int c = 0; c < NCX; c++) if (!map_owned(at(sorted[i], c), il)) { BAD(1, "item outside the pool's memory"); return; }
		if (i) { char *pb = (char *) ((uintptr_t) sorted[i - 1] & ~(K.stride - 1)); if (sorted[i] < sorted[i - 1] + il || (b != pb && b < pb + (size_t) NCX * K.stride)) { BAD(1, "two live items overlap"); return; } } }
}
static size_t perm(size_t i, int order, size_t n) { return order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i * 7 + 3) % n : i % 2 ? n - 1 - i / 2 : i / 2; }
static int coprime7(size_t n) { return n % 7 != 0; }
static void grow(int nr, int order, int live_destroy)
{
	if (!make()) return;
	size_t cap = (K.stride / il) * nr; if (order == 2 && !coprime7(cap)) order = 3;
	for (nit = 0; nit < cap; ) { int kind = nit % 3; it[nit] = alloc(kind, ini, il); if (stop) return; if (!it[nit]) { BAD(3, "allocation %zu of %zu fails", nit + 1, cap); return; } nit++; expect(nit - 1, kind, 1); if (stop) return; put(nit - 1); }
	disjoint(); if (stop) return;
	if (K.max) for (int k = 0; k < 2; k++) { errno = 0; char *p = alloc(k, ini, il); if (stop) return; if (p) { BAD(3, "more than %zu items handed out", cap); return; } if (errno != ENOMEM) { BAD(3, "a full pool answers with errno %d", errno); return; } }
	for (size_t i = 0; i < nit; i++) { kept(i, "while the pool grew"); if (stop) return; }
	size_t before = map_total; int cbs = ncb;
	for (size_t i = 0; i < nit; i++) { if (release(it[perm(i, order, nit)])) return; }
	for (size_t i = 0; i < nit; i++) { int kind = 1 + i % 2; it[i] = alloc(kind, ini, il); if (stop) return; if (!it[i]) { BAD(3, "allocation %zu of %zu fails although all were freed", i + 1, cap); return; } expect(i, kind, 0); if (stop) return; put(i); }
	if (map_total != before) { BAD(3, "the pool grew although items were free"); return; }
	if (ncb != cbs) { BAD(12, "callback called without new memory"); return; }
	disjoint(); if (stop) return;
	if (K.max) { char *p = alloc(0, NULL, 0); if (stop) return; if (p) { BAD(3, "more than %zu items handed out after reuse", cap); return; } }
	for (size_t i = 0; i < nit; i++) { kept(i, "while others were allocated"); if (stop) return; }
	if (!live_destroy) for (size_t i = 0; i < nit; i++) if (release(it[perm(nit - 1 - i, order, nit)])) return;
	if (destroy()) return;
	sane();
}
/* misuse concerning the item of the r-th range */
static void offend(int nr, int r, int how)
{
	if (!make()) return;
	size_t per = K.stride / il, cap = per * nr, x = per * r + (how & 1 ? per - 1 : 0);
	for (nit = 0; nit < cap; nit++) { it[nit] = alloc(0, NULL, 0); if (stop || !it[nit]) return; }
	if (how < 2) { if (release(it[x])) return; OFFENCE(rseq_mempool_percpu_free(it[x], K.stride), "double free in range %d of %d is not detected", r + 1, nr); return; }
	if (how == 2) { for (size_t i = 0; i < nit; i++) if (i != x && release(it[i])) return; OFFENCE(rseq_mempool_destroy(P), "destroy with a live item in range %d of %d is not detected", r + 1, nr); return; }
	for (size_t i = 0; i < nit; i++) if (release(it[i])) return;
	if (how == 3) { at(it[x], NCX - 1)[il - 1] ^= 0x40; OFFENCE(rseq_mempool_destroy(P), "write after free in range %d of %d is not detected at destroy", r + 1, nr); return; }
	at(it[x], 0)[0] ^= 1; OFFENCE(for (size_t i = 0; i < cap; i++) rseq_mempool_percpu_malloc(P), "write after free in range %d of %d is not detected at allocation", r + 1, nr);
}
static void ranges(void)
{
	static const int NR[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257 };
	int nnr = thorough ? 27 : 24;
	for (int n = 0; n < nnr; n++) for (int req = 0; req < (NR[n] < 70 ? 3 : 1); req++) for (int type = 0; type < 3; type++) for (int robust = 0; robust < 2; robust++) for (int lim = 0; lim < 2; lim++) for (int cb = 0; cb < 2; cb++) {
		K = (struct cf) { .req = req == 0 ? 4096 : req == 1 ? 1500 : 300, .stride = 4096, .nc = 1 + (n + req) % 3, .global = type == 2, .policy = type, .robust = robust, .cb = cb, .max = lim ? NR[n] : 0 };
		if (K.global) K.policy = 1;
		if (K.cb && K.policy && !K.global) continue;	/* setting a callback selects the COW_INIT policy */
		for (int order = 0; order < 4; order++) for (int ld = 0; ld < (robust ? 1 : 2); ld++) { if (!MINE()) continue; name_it("many ranges"); n_runs++; grow(NR[n], order, ld); }
		if (PR(5) && robust) for (int r = 0; r < NR[n]; r++) { if (r > 9 && r < NR[n] - 2 && (r & (r - 1)) && ((r + 1) & r)) continue; for (int how = 0; how < 5; how++) { if (!MINE()) continue; name_it("many ranges"); n_runs++; offend(NR[n], r, how); } }
	}
}
/* ---- many items per range ---- */
static void items_one(size_t cap, size_t s, int how)
{
	if (!make()) return;
	static char *v[1 << 18]; size_t n = 0;
	if (how == 5) { while (n < s) { v[n] = alloc(0, NULL, 0); if (stop || !v[n]) return; n++; } char *never = n ? v[0] + s * il : NULL; if (!never || (uintptr_t) never / K.stride != (uintptr_t) v[0] / K.stride) return; OFFENCE(rseq_mempool_percpu_free(never, K.stride), "free of slot %zu of %zu, never allocated, is not detected", s, cap); return; }
	while (n < cap) { v[n] = alloc(0, NULL, 0); if (stop) return; if (!v[n]) { BAD(3, "allocation %zu of %zu fails", n + 1, cap); return; } n++; }
	char *p = alloc(0, NULL, 0); if (stop) return; if (p) { BAD(3, "more than %zu items handed out", cap); return; }
	if (how == 0) {	/* a correct program */
		for (size_t i = 0; i < cap; i++) for (int c = 0; c < NCX; c++) *(uint64_t *) at(v[i], c) = val(i, c, 0);
		for (size_t i = 0; i < cap; i++) for (int c = 0; c < NCX; c++) { n_checks++; if (*(uint64_t *) at(v[i], c) != val(i, c, 0)) { BAD(1, "item %zu of %zu does not hold what was stored", i, cap); return; } }
		for (size_t i = 0; i < cap; i++) { size_t x = (i * 0x9e37 + s) % cap; if (!(0x9e37 % cap)) x = i; if (release(v[cap & 1 ? i : (i * 0x9e37 + s) & (cap - 1)])) return; }
		for (size_t i = 0; i < cap; i++) { v[i] = alloc(1, NULL, 0); if (stop) return; if (!v[i]) { BAD(3, "allocation %zu of %zu fails although all were freed", i + 1, cap); return; } for (int c = 0; c < NCX; c++) { n_checks++; if (*(uint64_t *) at(v[i], c)) { BAD(2, "zeroed item %zu on cpu %d is not zero", i, c); return; } } }
		for (size_t i = 0; i < cap; i++) if (release(v[i])) return;
		destroy(); if (!stop) sane(); return;
	}
	if (how == 1) { if (release(v[s])) return; OFFENCE(rseq_mempool_percpu_free(v[s], K.stride), "double free of slot %zu of %zu is not detected", s, cap); return; }
	if (how == 2) { for (size_t i = 0; i < cap; i++) if (i != s && release(v[i])) return; OFFENCE(rseq_mempool_destroy(P), "destroy with slot %zu of %zu live is not detected", s, cap); return; }
	for (size_t i = 0; i < cap; i++) if (release(v[i])) return;
	if (how == 3) { at(v[s], NCX - 1)[il - 1] ^= 0x40; OFFENCE(rseq_mempool_destroy(P), "write to slot %zu of %zu after its free is not detected at destroy", s, cap); return; }
	at(v[s], 0)[0] ^= 1; OFFENCE(for (size_t i = 0; i < cap; i++) rseq_mempool_percpu_malloc(P), "write to slot %zu of %zu after its free is not detected at allocation", s, cap);
}
static void items(void)
{
	for (int o = 9; o <= (thorough ? 17 : 16); o++) for (int type = 0; type < 2; type++) for (int robust = PR(5) ? 1 : 0; robust < 2; robust++) {
		size_t cap = (size_t) 1 << o;
		K = (struct cf) { .req = 8, .stride = cap * 8, .nc = 1 + (o + type) % 2, .policy = type, .robust = robust, .max = 1 };
		for (int b = 0; b <= o; b++) for (int d = -1; d <= 1; d++) for (int how = 0; how < (robust && PR(5) ? 6 : 1); how++) {
			if (!MINE()) continue;
			size_t s = ((size_t) 1 << b) + d; if (s >= cap || (d && b < 2) || (how == 0 && (d || b % 5))) continue; name_it("many items"); n_runs++; items_one(cap, s, how);
		}
	}
}
/* ---- one difference somewhere in an item ---- */
static void pos_zero(size_t b, int c, int kind, size_t len, int robust)
{
	char *p = alloc(0, NULL, 0), *q; if (stop || !p) return;
	if (!robust) {
		for (int k = 0; k < NCX; k++) { memset(at(p, k), 0, il); if (kind == 2) memcpy(at(p, k), ini, len); }
		at(p, c)[b] ^= 0x10;
	}
	if (release(p)) return;
	q = alloc(kind, ini, len); if (stop || q != p) return;
	for (int k = 0; k < NCX; k++) { n_checks++; char *z = at(q, k); if (kind == 1) { for (size_t i = 0; i < il; i += 8) if (*(uint64_t *) (z + i)) { BAD(2, "zeroed item of %zu bytes on cpu %d is not zero at byte %zu (only byte %zu on cpu %d differed before)", il, k, i, b, c); return; } }
		else if (memcmp(z, ini, len)) { BAD(2, "initialised item on cpu %d differs from the given %zu bytes (only byte %zu on cpu %d differed before)", k, len, b, c); return; } }
	release(q);
}
static void pos_poison(size_t b, int c)
{
	uintptr_t po = poison_of(); char *p = alloc(0, NULL, 0); if (stop || !p) return;
	for (int k = 0; k < NCX; k++) for (size_t i = 0; i < il; i += 8) *(uintptr_t *) (at(p, k) + i) = po;
	at(p, c)[b] ^= 0x20; if (release(p)) return;
	for (int k = 0; k < NCX; k++) { n_checks++; for (size_t i = 0; i < il; i += 8) if (*(uintptr_t *) (at(p, k) + i) != po && !(k == 0 && i == 0 && !K.robust)) { BAD(6, "after the free, byte %zu on cpu %d does not hold the poison value (item of %zu bytes that differed from it only at byte %zu on cpu %d)", i, k, il, b, c); return; } }
	if (!alloc(0, NULL, 0) || stop) return; release(p);
}
static void positions(void)
{
	for (int o = 3; o <= (thorough ? 24 : 22); o++) for (int type = 0; type < 3; type++) {
		size_t sz = (size_t) 1 << o;
		for (int b = 0; b <= o; b++) for (int d = -1; d <= 1; d++) {
			size_t at_ = ((size_t) 1 << b) + d; if (at_ >= sz || (d < 0 && b < 2)) continue;
			if (!MINE()) continue;
			n_runs++;
			K = (struct cf) { .req = sz, .stride = sz < 4096 ? 4096 : sz, .nc = 3, .global = type == 2, .policy = type > 0, .max = 1 };
			if (PR(2)) { name_it("one difference"); if (!make()) return; for (int c = 0; c < NCX && !stop; c++) { pos_zero(at_, c, 1, 0, 0); if (!stop) pos_zero(at_, c, 2, sz, 0); if (!stop && at_ + 1 < sz) pos_zero(at_, c, 2, at_ + 1, 0); if (!stop && sz - 1 > at_) pos_zero(at_, c, 2, sz - 1, 0); } if (!stop) { destroy(); sane(); } if (v_set) return; }
			if (PR(6)) for (int v = 0; v < 3; v++) { K.robust = v & 1; K.pset = v != 1; K.poison = v == 2 ? 0 : (uintptr_t) 0xa5a55a5a12345678ULL; name_it("one difference"); if (!make()) return; for (int c = 0; c < NCX && !stop; c++) pos_poison(at_, c); if (!stop) { destroy(); sane(); } if (v_set) return; }
			if (PR(5)) for (int c = 0; c < NCX; c++) for (int how = 0; how < 2; how++) {
				K.robust = 1; K.pset = type == 1; K.poison = (uintptr_t) 0x1122334455667788ULL; name_it("one difference"); if (!make()) return;
				char *p = alloc(0, NULL, 0); if (stop || !p) break; memset(p, 0x3c, il); if (release(p)) break;
				at(p, c)[at_] ^= 0x80;
				if (how) OFFENCE(rseq_mempool_destroy(P), "byte %zu of a freed item of %zu bytes changed on cpu %d: not detected at destroy", at_, il, c);
				else OFFENCE(rseq_mempool_percpu_malloc(P), "byte %zu of a freed item of %zu bytes changed on cpu %d: not detected at allocation", at_, il, c);
				if (v_set) return;
			}
		}
	}
}
/* ---- every page offset the kernel may choose for the mappings of two ranges ---- */
static void placement(void)
{
	for (int S = 1; S <= (thorough ? 32 : 16); S *= 2) for (int a = 0; a < S; a++) for (int b = 0; b < S; b++) for (int type = 0; type < 3; type++) for (int v = 0; v < 8; v++) {
		if (!MINE()) continue;
		K = (struct cf) { .req = v & 1 ? 3000 : (size_t) S * 2048, .stride = (size_t) S * 4096, .nc = v & 2 ? 3 : 1, .global = type == 2, .policy = type > 0, .robust = !!(v & 4), .max = 2, .cb = (v & 1) && type != 1 };
		place[0] = a; place[1] = b; nplace = 2; place_i = 0; place_mod = K.stride < 8192 ? 8192 : K.stride; char w[80]; snprintf(w, sizeof(w), "mappings placed %d and %d pages after a multiple of the stride", a, b); name_it(w); n_runs++;
		grow(2, v & 3, !K.robust && (a + b) & 1); nplace = 0;
	}
}
int main(int argc, char **argv)
{
	parse_args(argc, argv); catch_crashes(); watchdog(thorough ? 7200 : 800);
	for (size_t i = 0; i < sizeof(ini) / 8; i++) ini[i] = i * 0x9e3779b97f4a7c15ULL; 	/* first word zero, as the tail of a free list */
	if (!strcmp(what, "ranges")) ranges(); else if (!strcmp(what, "items")) items(); else if (!strcmp(what, "place")) placement(); else positions();
	snprintf(sample, sizeof(sample), "%s", nm);
	return v_set ? report() : summary();
}
