/*
 * Pool sets (M10): every sequence of additions, allocations and frees up to a depth, over every subset of pools of the
 * configuration and every amount of room left in them, compared with the documented selection policy.
 */
#include "explore.h"
#define NP 4
#define MAXLEN 131072
struct pc { size_t req, stride; int global, nc, policy, robust; unsigned long ranges; int cb; };
struct conf { const char *name; int n; struct pc p[NP]; size_t lens[16]; int nl; int vmask; };
#define BIG ((size_t) 1 << 63)
static struct conf CF[] = {
	{ "percpu 1024/2048/4096 limited", 3, { { 1024, 4096, 0, 2, 0, 0, 1, 0 }, { 2048, 4096, 0, 2, 0, 0, 1, 0 }, { 4096, 4096, 0, 2, 0, 0, 1, 0 } }, { 0, 1, 1024, 1025, 2048, 4096, 4097, BIG, ~(size_t) 0 }, 9, 7 },
	{ "percpu robust zero 1024/2048/4096 limited", 3, { { 1000, 4096, 0, 2, 1, 1, 1, 1 }, { 2048, 4096, 0, 2, 1, 1, 1, 1 }, { 4096, 4096, 0, 2, 1, 1, 1, 1 } }, { 0, 1000, 1024, 1025, 2049, 4097 }, 6, 7 },
	{ "gap 8/64/4096", 3, { { 1, 4096, 0, 2, 0, 0, 1, 0 }, { 64, 4096, 0, 2, 0, 0, 1, 0 }, { 4096, 8192, 0, 2, 0, 0, 1, 0 } }, { 0, 7, 8, 9, 63, 64, 65, 4095, 4097, BIG + 1 }, 10, 7 },
	{ "mixed robust/zero, growing", 3, { { 2048, 4096, 0, 2, 0, 1, 2, 1 }, { 4096, 4096, 0, 2, 1, 0, 0, 1 }, { 8192, 8192, 0, 2, 0, 0, 2, 1 } }, { 8, 2047, 2049, 4096, 8191, 8193 }, 6, 7 },
	{ "global", 3, { { 8, 4096, 1, 1, 1, 0, 1, 0 }, { 16, 4096, 1, 1, 1, 0, 1, 0 }, { 2048, 4096, 1, 1, 1, 1, 1, 0 } }, { 0, 8, 9, 16, 17, 2048, 2049 }, 7, 7 },
	{ "default stride and CPU count", 2, { { 65536, 65536, 0, 3, 0, 0, 1, 0 }, { 32768, 65536, 0, 3, 1, 0, 1, 0 } }, { 1, 32768, 32769, 65536, 65537 }, 5, 7 },
	{ "duplicates", 4, { { 64, 4096, 0, 2, 0, 0, 1, 0 }, { 33, 4096, 0, 2, 1, 0, 1, 0 }, { 5, 4096, 0, 2, 0, 1, 1, 0 }, { 8, 4096, 0, 2, 0, 0, 1, 0 } }, { 8, 33, 65 }, 3, 1 },
};
struct pool { struct rseq_mempool *p; size_t ilen, cap; int live, inset, up; char *base[16]; int nb; } P[NP];
struct item { int st, pool, how; char *a; size_t len; } IT[2048]; static int nit, step_no;
static struct conf *C; static uint8_t buf[MAXLEN + 8];
static int cb(void *priv, void *addr, size_t len, int cpu) { struct pool *q = priv; struct pc *c = &C->p[q - P]; if (cpu <= 0 && q->nb < 16) q->base[q->nb++] = addr; (void) len; (void) c; return 0; }
static int mk(int i)
{
	struct pool *q = &P[i]; struct pc *c = &C->p[i]; memset(q, 0, sizeof(*q)); struct rseq_mempool_attr *a = rseq_mempool_attr_create(); int nm = nmaps;
	if (c->cb) rseq_mempool_attr_set_init(a, cb, q);
	if (c->global) rseq_mempool_attr_set_global(a, c->stride); else rseq_mempool_attr_set_percpu(a, c->stride, c->nc);
	rseq_mempool_attr_set_populate_policy(a, c->policy ? RSEQ_MEMPOOL_POPULATE_COW_ZERO : RSEQ_MEMPOOL_POPULATE_COW_INIT);
	if (c->robust) rseq_mempool_attr_set_robust(a);
	rseq_mempool_attr_set_max_nr_ranges(a, c->ranges);
	q->p = rseq_mempool_create("p", c->req, a); rseq_mempool_attr_destroy(a); if (!q->p) { fail_("pool creation failed"); return 0; }
	if (!c->cb) { for (int m = nm; m < nmaps; m++) q->base[q->nb++] = maps[m].a; }	/* whole mapping: lookup uses ranges */
	q->ilen = round_len(c->req); q->cap = c->ranges ? c->ranges * (c->stride / q->ilen) : (size_t) -1; q->up = 1; return 1;
}
static int owner(char *a)
{
	for (int i = 0; i < C->n; i++) for (int k = 0; k < P[i].nb; k++) {
		char *lo = P[i].base[k], *hi = lo + C->p[i].stride * C->p[i].nc;
		if (!C->p[i].cb) { for (int m = 0; m < nmaps; m++) if (maps[m].a == lo) hi = lo + maps[m].len; }
		if (a >= lo && a < hi) return i;
	}
	return -1;
}
static void filler(int i, size_t room)	/* leave the given room in pool i */
{
	struct pool *q = &P[i]; static char *f[70000]; (void) f;
	while (q->cap != (size_t) -1 && (size_t) q->live + room < q->cap) { char *a = rseq_mempool_percpu_malloc(q->p); if (!a) { fail_("prefill failed"); return; } q->live++; if (C->p[i].robust) { if (nit >= 2047) { fail_("internal: item table"); return; } IT[nit++] = (struct item) { 3, i, 0, a, 0 }; } }
}
static void wr(struct item *it, int id) { struct pool *q = &P[it->pool]; for (int x = 0; x < C->p[it->pool].nc; x++) { char *p = it->a + x * C->p[it->pool].stride; p[0] = pat(id, x, 0); p[q->ilen - 1] = pat(id, x, q->ilen - 1); } }
static void chk(struct item *it, int id) { struct pool *q = &P[it->pool]; for (int x = 0; x < C->p[it->pool].nc; x++) { char *p = it->a + x * C->p[it->pool].stride; if ((uint8_t) p[0] != pat(id, x, 0) && q->ilen > 1) fail_("a live item's content changed"); if ((uint8_t) p[q->ilen - 1] != pat(id, x, q->ilen - 1)) fail_("a live item's content changed"); } }
static struct rseq_mempool_set *S; static int few;
static void alloc(size_t len, int how)
{
	int want = -1; size_t need = len < 8 ? 8 : len;
	for (int i = 0; i < C->n; i++) if (P[i].inset && P[i].ilen >= need && (size_t) P[i].live < P[i].cap && (want < 0 || P[i].ilen < P[want].ilen)) want = i;
	size_t bl = len < MAXLEN ? len : MAXLEN; for (size_t k = 0; k < bl; k++) buf[k] = pat(step_no + 3, 9, k) | 1;
	char *a = NULL; errno = 0;
	int g = GUARD(a = how == 0 ? rseq_mempool_set_percpu_malloc(S, len) : how == 1 ? rseq_mempool_set_percpu_zmalloc(S, len) : how == 2 ? rseq_mempool_set_percpu_malloc_init(S, buf, len) : how == 3 ? rseq_mempool_set_malloc(S, len) : how == 4 ? rseq_mempool_set_zmalloc(S, len) : rseq_mempool_set_malloc_init(S, buf, len));
	int e = errno; tr(" %d: set %s len %zu -> ", step_no, how % 3 == 0 ? "malloc" : how % 3 == 1 ? "zmalloc" : "malloc_init", len);
	if (g) { fail_("allocation: %s", guard_name[g]); return; }
	if (!a) { tr("NULL errno %d\n", e); if (want >= 0) fail_("allocation of %zu bytes failed (errno %d) although the pool with item size %zu has room", len, e, P[want].ilen); else if (e != ENOMEM) fail_("errno %d instead of ENOMEM", e); return; }
	int o = owner(a); tr("pool %d\n", o);
	if (want < 0) { fail_("allocation of %zu bytes succeeded although no pool fits or has room (served by item size %zu)", len, o >= 0 ? P[o].ilen : 0); return; }
	if (o != want) { fail_("allocation of %zu bytes served by %s item size %zu instead of the smallest fitting pool with room, %zu", len, o < 0 ? "unknown memory," : "", o < 0 ? 0 : P[o].ilen, P[want].ilen); return; }
	for (int i = 0; i < nit; i++) if (IT[i].st && IT[i].a == a) { fail_("item handed out twice"); return; }
	P[o].live++;
	for (int x = 0; x < C->p[o].nc && !v_set; x++) {
		uint8_t *p = (uint8_t *) a + x * C->p[o].stride;
		g = GUARD(
			if (how % 3 == 1) { for (size_t k = 0; k < P[o].ilen; k++) if (p[k]) { fail_("zeroed allocation: byte %zu on cpu %d reads %#x", k, x, p[k]); break; } }
			else if (how % 3 == 2) for (size_t k = 0; k < len; k++) if (p[k] != buf[k]) { fail_("initialised allocation of %zu bytes: byte %zu on cpu %d reads %#x instead of %#x", len, k, x, p[k], buf[k]); break; });
		if (g) fail_("reading the item on cpu %d: %s", x, guard_name[g]);
	}
	struct item *it = &IT[nit]; if (nit == 2047) { fail_("internal: items"); return; } *it = (struct item) { 1, o, how, a, len }; if (!v_set) { int gg = GUARD(wr(it, nit)); if (gg) fail_("writing the item: %s", guard_name[gg]); } nit++;
}
static void freeit(int i) { struct item *it = &IT[i]; int g = GUARD(rseq_mempool_percpu_free(it->a, C->p[it->pool].stride)); if (g) { fail_("free: %s", guard_name[g]); return; } P[it->pool].live--; it->st = 0; }
static void add_op(int i)
{
	int g, ret = 0, busy = 0; for (int j = 0; j < C->n; j++) if (P[j].inset && P[j].ilen == P[i].ilen) busy = 1;
	errno = 0; g = GUARD(ret = rseq_mempool_set_add_pool(S, P[i].p)); int e = errno; tr(" %d: add pool %d (item %zu) -> %d\n", step_no, i, P[i].ilen, ret);
	if (g) fail_("add_pool: %s", guard_name[g]);
	else if (busy ? ret != -1 || e != EBUSY : ret != 0) fail_("adding a pool of item size %zu returned %d (errno %d)%s", P[i].ilen, ret, e, busy ? " although that size is taken" : "");
	else if (!busy) P[i].inset = 1;
}
static int run(int roomsel)
{
	pos = 0; v_set = 0; tlen = 0; trace[0] = 0; nit = 0; step_no = 0; reclaim(); bad_unmap = bad_fixed = bad_free = heap_smashed = 0; watchdog(30);
	memset(P, 0, sizeof(P));
	tr("%s, room selection %d\n", C->name, roomsel);
	int g = GUARD(S = rseq_mempool_set_create()); if (g || !S) { fail_("set creation failed"); return 1; }
	int nv = C->p[0].global ? 6 : 3, vs = C->p[0].global ? 3 : 0;
	for (int i = 0; i < C->n; i++) {
		if (!mk(i)) return 1;
		int r = roomsel; for (int k = 0; k < i; k++) r /= 3; r %= 3;
		g = GUARD(filler(i, r)); if (g) { fail_("prefill: %s", guard_name[g]); return 1; }
	}
	if (v_set) return 1;
	int sub = choose(1 << C->n);	/* pools in the set from the beginning, added in either order */
	int rev = few ? 0 : choose(2);
	for (int z = 0; z < C->n && !v_set; z++) { int i = rev ? C->n - 1 - z : z; if (sub >> i & 1) add_op(i); }
	for (int d = 0; d < depth && !v_set; d++) {
		int o[128][3], n = 0;
		for (int i = 0; i < C->n; i++) if (!P[i].inset) o[n][0] = 0, o[n++][1] = i;
		int anyset = 0; for (int i = 0; i < C->n; i++) anyset |= P[i].inset;
		if (anyset || d == 0) for (int l = 0; l < C->nl; l++) for (int v = 0; v < nv - vs; v++) if ((C->vmask & (1 << v)) && (!few || v == (l + d) % (nv - vs))) o[n][0] = 1, o[n][1] = l, o[n++][2] = v + (step_no & 1 ? vs : 0);
		for (int i = 0; i < nit; i++) if (IT[i].st == 1) o[n][0] = 2, o[n++][1] = i;
		int k = choose(n); step_no++; n_ops++;
		if (o[k][0] == 0) {
			add_op(o[k][1]);
		} else if (o[k][0] == 1) alloc(C->lens[o[k][1]], o[k][2]);
		else { tr(" %d: free item %d\n", step_no, o[k][1]); freeit(o[k][1]); }
		for (int i = 0; i < nit && !v_set; i++) if (IT[i].st == 1) { g = GUARD(chk(&IT[i], i)); if (g) fail_("reading a live item: %s", guard_name[g]); }
		n_checks++;
	}
	if (v_set) return 1;
	for (int i = 0; i < nit && !v_set; i++) if (IT[i].st && C->p[IT[i].pool].robust) freeit(i);
	int ret = -1; g = GUARD(ret = rseq_mempool_set_destroy(S)); if (g || ret) fail_("set destroy: %s, %d", guard_name[g], ret);
	for (int i = 0; i < C->n && !v_set; i++) if (!P[i].inset) {	/* still the caller's: usable and destroyable */
		char *a = NULL; int room = (size_t) P[i].live < P[i].cap; g = GUARD(a = rseq_mempool_percpu_malloc(P[i].p); if (a) { *a = 1; rseq_mempool_percpu_free(a, C->p[i].stride); } ret = rseq_mempool_destroy(P[i].p));
		if (g || ret || (room && !a)) fail_("a pool that was not taken by the set is unusable after the set was destroyed (%s)", guard_name[g]);
	}
	if (!v_set) nothing_left("after destroying the set");
	sane(); n_runs++; return v_set;
}
/* One pool of every item size from 8 bytes to 2 GiB in the set (and each subset of one or two of them): selection, duplicates, destruction. */
#define OMIN 3
#define OMAX 31
static struct { struct rseq_mempool *p; struct mapping m[4]; int nm; } O[OMAX + 1];
static int mko(int o, int pct)
{
	struct rseq_mempool_attr *a = rseq_mempool_attr_create(); size_t st = (size_t) 1 << o; if (st < 4096) st = 4096; int nm = nmaps;
	if (pct) { rseq_mempool_attr_set_percpu(a, st, 1); rseq_mempool_attr_set_populate_policy(a, RSEQ_MEMPOOL_POPULATE_COW_ZERO); } else rseq_mempool_attr_set_global(a, st);
	rseq_mempool_attr_set_max_nr_ranges(a, 1); O[o].p = rseq_mempool_create("o", ((size_t) 1 << o) - (o > 3), a); rseq_mempool_attr_destroy(a); O[o].nm = 0;
	if (!O[o].p) { fail_("creation of a pool of item size %zu failed, errno %d", (size_t) 1 << o, errno); return 0; }
	for (int m = nm; m < nmaps && O[o].nm < 4; m++) O[o].m[O[o].nm++] = maps[m];
	return 1;
}
static int oown(char *a) { for (int o = OMIN; o <= OMAX; o++) for (int k = 0; O[o].p && k < O[o].nm; k++) if (a >= O[o].m[k].a && a < O[o].m[k].a + O[o].m[k].len) return o; return -1; }
static int orders_run(uint64_t mask, int desc)
{
	v_set = 0; tlen = 0; trace[0] = 0; reclaim(); bad_unmap = bad_fixed = bad_free = heap_smashed = 0; watchdog(30); memset(O, 0, sizeof(O)); int g, ret = -1; n_runs++;
	tr("set of pools with item sizes (bit n: 2^n) %#lx, added in %s order\n", mask, desc ? "descending" : "ascending");
	g = GUARD(S = rseq_mempool_set_create()); if (g || !S) { fail_("set creation failed"); return 1; }
	for (int z = OMIN; z <= OMAX; z++) {
		int o = desc ? OMIN + OMAX - z : z; if (!(mask >> o & 1)) continue;
		g = GUARD(ret = mko(o, o & 1)); if (g) fail_("pool creation: %s", guard_name[g]); if (v_set) return 1;
		g = GUARD(ret = rseq_mempool_set_add_pool(S, O[o].p)); if (g || ret) { fail_("adding a pool of item size %zu: %s, returned %d", (size_t) 1 << o, guard_name[g], ret); return 1; }
	}
	for (int o = 0; o <= OMAX + 1 && !v_set; o++) for (int dl = -1; dl <= 1 && !v_set; dl++) {
		size_t len = ((size_t) 1 << o) + dl; int want = -1; for (int k = OMAX; k >= OMIN; k--) if ((mask >> k & 1) && ((size_t) 1 << k) >= len) want = k;
		char *a = NULL; errno = 0; g = GUARD(a = rseq_mempool_set_percpu_malloc(S, len)); int e = errno, got; n_ops++;
		if (g) fail_("allocation of %zu bytes: %s", len, guard_name[g]);
		else if (!a) { if (want >= 0) fail_("allocation of %zu bytes failed (errno %d) although the pool with item size %zu has room", len, e, (size_t) 1 << want); else if (e != ENOMEM) fail_("errno %d instead of ENOMEM", e); }
		else if ((got = oown(a)) != want) fail_("allocation of %zu bytes served by item size %zu instead of the smallest fitting pool with room, %zu", len, got < 0 ? 0 : (size_t) 1 << got, want < 0 ? 0 : (size_t) 1 << want);
		else { size_t st = (size_t) 1 << want; if (st < 4096) st = 4096; g = GUARD(a[0] = 1; a[len ? len - 1 : 0] = 1; rseq_mempool_percpu_free(a, st)); if (g) fail_("using an item of %zu bytes: %s", len, guard_name[g]); }
	}
	for (int o = OMIN; o <= OMAX && !v_set; o++) if (mask >> o & 1) {
		struct rseq_mempool *keep = O[o].p; if (!mko(o, 0)) break;
		errno = 0; g = GUARD(ret = rseq_mempool_set_add_pool(S, O[o].p)); n_ops++;
		if (g || ret != -1 || errno != EBUSY) fail_("adding a second pool of item size %zu: %s, returned %d, errno %d", (size_t) 1 << o, guard_name[g], ret, errno);
		else { g = GUARD(ret = rseq_mempool_destroy(O[o].p)); if (g || ret) fail_("destroying the refused pool: %s, %d", guard_name[g], ret); }
		O[o].p = keep;
	}
	if (!v_set) { g = GUARD(ret = rseq_mempool_set_destroy(S)); if (g || ret) fail_("set destroy: %s, %d", guard_name[g], ret); else nothing_left("after destroying the set"); }
	sane(); return v_set;
}
static int orders(void)
{
	uint64_t all = 0; int idx = 0; for (int o = OMIN; o <= OMAX; o++) all |= 1ULL << o; cur_name = "pools of every item size";
	for (int i = OMIN; i <= OMAX; i++) for (int j = i; j <= OMAX; j++) for (int d = 0; d < 2; d++) { if (idx++ % nshard != shard) continue; if (orders_run(1ULL << i | 1ULL << j, d) || orders_run(all & ~(1ULL << i | 1ULL << j), d)) return 1; }
	if (orders_run(all, 0) || orders_run(all, 1)) return 1;
	snprintf(sample, sizeof(sample), "%s", trace); return 0;
}
int main(int argc, char **argv)
{
	parse_args(argc, argv); few = !strcmp(what, "few"); catch_crashes(); if (!strcmp(what, "orders")) return orders() ? report() : summary();
	int idx = 0, ncf = sizeof(CF) / sizeof(CF[0]);
	for (int c = 0; c < ncf; c++) {
		C = &CF[c]; int rooms = 1; for (int i = 0; i < C->n; i++) rooms *= 3;
		for (int r = 0; r < rooms; r++) {
			if (idx++ % nshard != shard) continue;
			cur_name = C->name; plen = 0;
			do { if (run(r)) return report(); } while (backtrack());
			if (!sample[0]) snprintf(sample, sizeof(sample), "%s", trace);
		}
	}
	return summary();
}
