/*
 * Exhaustive exploration of operation sequences on rseq memory pools.
 * Every sequence of enabled operations up to the given depth is executed on the real library (stateless depth-first
 * search with re-execution) and compared with a reference model after every operation.
 */
#include "interpose.h"
#define NC 260
#define MAXLEN 16384
#define MAXI 40
#define PAGE 4096UL

struct pcfg { const char *name; int global, ncpus, policy, robust, poison_set; uintptr_t poison; size_t req, stride; unsigned long max_ranges; int cb, attr_order; };
struct mpool { struct pcfg *c; struct rseq_mempool *p; int up; size_t ilen, per_range, cap_now; int live; int cb_calls; } P[2];
/* src bits of known bytes */
enum { K_W = 1, K_INIT = 2, K_POIS = 4, K_CB = 8 };
struct item { int st /* 0 none 1 live 2 freed */, pool, fresh; char *a; uint8_t val[NC][MAXLEN], src[NC][MAXLEN]; };
static struct item IT[MAXI]; static int nit;
static int depth = 5, maxlive = 3, skip_checks;
static int prefill; static char *pre[600]; static int npre;	/* items allocated before the explored part, so that it plays in the upper part of the range */
static uint64_t n_runs, n_ops, n_checks, n_hist[64], n_misuse, n_detect;

/* ---- choices ---- */
static int path[64], nalt[64], plen, pos;
static int choose(int n)
{
	if (pos == plen) { path[plen] = 0; nalt[plen] = n; plen++; }
	if (nalt[pos] != n) { printf("{\"error\": \"nondeterministic exploration\"}\n"); exit(2); }
	return path[pos++];
}
static int backtrack(void) { while (plen > 0 && path[plen - 1] + 1 >= nalt[plen - 1]) plen--; if (!plen) return 0; path[plen - 1]++; return 1; }

/* ---- trace ---- */
static char trace[8192]; static int tlen;
static void tr(const char *fmt, ...) { va_list ap; if (tlen > (int) sizeof(trace) - 200) return; va_start(ap, fmt); tlen += vsnprintf(trace + tlen, sizeof(trace) - tlen, fmt, ap); va_end(ap); }

static uint8_t pat(int step, int cpu, size_t k) { return (uint8_t) (step * 37 + cpu * 91 + k * 7 + (k >> 8) * 13 + 11); }
static uint8_t cbpat(int cpu, size_t k) { return (uint8_t) (0xc0 + cpu * 5 + k * 3 + (k >> 8)); }
static size_t round_len(size_t n) { size_t r = 8; while (r < n) r <<= 1; return r; }
static uintptr_t eff_poison(const struct pcfg *c, int *set)
{
	*set = c->poison_set || c->robust; if (c->poison_set) return c->poison;
	return c->policy == 0 && !c->global ? 0x5555555555555555UL : 0;
}
/* ---- init callback ---- */
struct cbrange { char *base; int pool; uint8_t mask[NC]; int calls; }; static struct cbrange CB[64]; static int ncb; static int cb_priv[2]; static int cb_bad; static char cb_msg[200];
static int cb_func(void *priv, void *addr, size_t len, int cpu)
{
	int pi = (int *) priv - cb_priv; if (pi < 0 || pi > 1) { cb_bad = 1; snprintf(cb_msg, sizeof(cb_msg), "callback called with a wrong private pointer"); return 0; }
	struct mpool *m = &P[pi]; const struct pcfg *c = m->c;
	if (len != c->stride) { cb_bad = 1; snprintf(cb_msg, sizeof(cb_msg), "callback called with length %zu instead of the stride %zu", len, c->stride); }
	if (c->global ? cpu != -1 : cpu < 0 || cpu >= c->ncpus) { cb_bad = 1; snprintf(cb_msg, sizeof(cb_msg), "callback called with cpu %d", cpu); return 0; }
	m->cb_calls++;
	int cc = c->global ? 0 : cpu; char *base = (char *) addr - (size_t) cc * c->stride; int k;
	if (inject(F_CB)) { for (k = 0; k < ncb; k++) if (CB[k].base == base) CB[k].base = NULL; return -1; }
	if ((uintptr_t) base & (c->stride - 1)) { cb_bad = 1; snprintf(cb_msg, sizeof(cb_msg), "callback called with an address off the CPU's range"); return 0; }
	for (k = 0; k < ncb; k++) if (CB[k].base == base) break;
	if (k == ncb) { if (ncb == 64) { ncb = 0; k = 0; } ncb = k + 1; CB[k].base = base; CB[k].pool = pi; memset(CB[k].mask, 0, NC); CB[k].calls = 0; }
	if (CB[k].mask[cc]) { cb_bad = 1; snprintf(cb_msg, sizeof(cb_msg), "callback called twice for cpu %d", cpu); }
	CB[k].mask[cc] = 1; CB[k].calls++;
	for (size_t i = 0; i < len && i < c->stride; i++) ((uint8_t *) addr)[i] = cbpat(cpu, i);
	return 0;
}
/* ---- pools ---- */
static struct rseq_mempool_attr *mkattr(int pi, struct pcfg *c)
{
	struct rseq_mempool_attr *a = rseq_mempool_attr_create(); if (!a) return NULL;
	if (c->cb) rseq_mempool_attr_set_init(a, cb_func, &cb_priv[pi]);
	if (c->global) rseq_mempool_attr_set_global(a, c->stride); else rseq_mempool_attr_set_percpu(a, c->stride, c->ncpus);
	rseq_mempool_attr_set_populate_policy(a, c->policy ? RSEQ_MEMPOOL_POPULATE_COW_ZERO : RSEQ_MEMPOOL_POPULATE_COW_INIT);
	if (c->robust) rseq_mempool_attr_set_robust(a);
	if (c->poison_set) rseq_mempool_attr_set_poison(a, c->poison);
	if (c->max_ranges) rseq_mempool_attr_set_max_nr_ranges(a, c->max_ranges);
	return a;
}
static int ncpu(const struct pcfg *c) { return c->global ? 1 : c->ncpus; }
static int up_pool(int pi, struct pcfg *c)
{
	struct mpool *m = &P[pi]; memset(m, 0, sizeof(*m)); m->c = c; m->ilen = round_len(c->req); m->per_range = c->stride / m->ilen; m->cap_now = m->per_range;
	int g; struct rseq_mempool_attr *a;
	g = GUARD(a = mkattr(pi, c); m->p = rseq_mempool_create("pool", c->req, a); rseq_mempool_attr_destroy(a));
	if (g) { fail_("creating the pool: %s", guard_name[g]); return 0; }
	if (!m->p) return 0;
	m->up = 1; npre = pi ? npre : 0;
	if (!pi) for (; npre < prefill; npre++) {
		g = GUARD(pre[npre] = rseq_mempool_percpu_malloc(m->p)); if (g || !pre[npre]) { fail_("allocation %d: %s", npre, g ? guard_name[g] : "failed"); return 0; }
		for (int x = 0; x < (c->global ? 1 : c->ncpus); x++) memset(pre[npre] + x * c->stride, pat(npre, x, 3), m->ilen);
		m->live++; if (m->live > (int) m->cap_now) m->cap_now += m->per_range;
	}
	return 1;
}
static void drop_pre(int check)
{
	struct mpool *m = &P[0];
	for (int i = 0; i < npre && !v_set; i++) {
		if (check) for (int x = 0; x < (m->c->global ? 1 : m->c->ncpus); x++) for (size_t k = 0; k < m->ilen; k++)
			if ((uint8_t) (pre[i] + x * m->c->stride)[k] != pat(i, x, 3)) { if (PR(1) || PR(4)) fail_("content of long-lived item %d changed on cpu %d", i, x); k = m->ilen; }
		rseq_mempool_percpu_free(pre[i], m->c->stride); m->live--;
	}
	npre = 0;
}
static void drop_items(int pi) { for (int i = 0; i < nit; i++) if (IT[i].pool == pi) IT[i].st = 0; P[pi].live = 0; if (!pi) npre = 0; }
static int down_pool(int pi)
{
	struct mpool *m = &P[pi]; int ret = -1;
	int g = GUARD(ret = rseq_mempool_destroy(m->p));
	if (g) { fail_("destroying the pool: %s", guard_name[g]); return 0; }
	if (ret) { fail_("destroying the pool returned %d", ret); return 0; }
	m->up = 0; drop_items(pi); return 1;
}
static struct item *new_item(char *a)
{
	for (int i = 0; i < nit; i++) if (IT[i].st != 1 && IT[i].a == a) return &IT[i];
	for (int i = 0; i < nit; i++) if (IT[i].st == 0) { IT[i].a = NULL; return &IT[i]; }
	if (nit == MAXI) { printf("{\"error\": \"item table full\"}\n"); exit(2); }
	IT[nit].st = 0; IT[nit].a = NULL; return &IT[nit++];
}
enum { AL_M, AL_Z, AL_IF, AL_I5, AL_IP, AL_NR };
static const char *const al_name[] = { "malloc", "zmalloc", "malloc_init(full)", "malloc_init(5 bytes)", "malloc_init(poison value)" };
static uint8_t initbuf[MAXLEN];
static int step_no;
static int op_alloc(int pi, int how)
{
	struct mpool *m = &P[pi]; struct pcfg *c = m->c; char *a = NULL; size_t il = 0, before = map_total; int g, set; uintptr_t po = eff_poison(c, &set);
	size_t limit = c->max_ranges ? c->max_ranges * m->per_range : (size_t) -1; int want = (size_t) m->live < limit, grow = (size_t) m->live >= m->cap_now;
	int fh = faults_hit, cbc = m->cb_calls;
	if (how == AL_IF) il = m->ilen; else if (how == AL_I5) il = 5; else if (how == AL_IP) il = m->ilen;
	for (size_t k = 0; k < il; k++) initbuf[k] = how == AL_IP ? ((uint8_t *) &po)[k & 7] : pat(step_no, 7, k);
	tr(" %d: %s pool %d", step_no, al_name[how], pi);
	errno = 0;
	g = GUARD(a = how == AL_M ? rseq_mempool_percpu_malloc(m->p) : how == AL_Z ? rseq_mempool_percpu_zmalloc(m->p) : rseq_mempool_percpu_malloc_init(m->p, initbuf, il));
	int e = errno;
	if (g) { fail_("%s: %s", al_name[how], guard_name[g]); return 0; }
	tr(" -> %s\n", a ? "item" : "NULL");
	if (faults_hit != fh) {	/* a resource request was refused */
		if (a) fail_("allocation succeeded although the %s failed", fk_name[fault_kind_hit[(faults_hit - 1) & 1]]);
		else if (e != ENOMEM) fail_("failed allocation reports errno %d", e);
		else if (map_total != before) fail_("failed allocation left memory mapped");
		return 1;
	}
	if (!a) {
		if (want) { fail_("%s failed (errno %d) with %d items live, capacity is %zd", al_name[how], e, m->live, (ssize_t) limit); return 0; }
		if (e != ENOMEM && PR(3)) fail_("failed allocation reports errno %d instead of ENOMEM", e);
		if (map_total != before && (PR(3) || PR(8))) fail_("failed allocation changed the mapped memory");
		return 1;
	}
	if (!want) { if (PR(3) || PR(1)) fail_("%s succeeded although the capacity of %zu items is in use", al_name[how], limit); return 0; }
	if (PR(3) && !grow && map_total != before) fail_("memory consumption grew by %zd bytes although free items are available", (ssize_t) (map_total - before));
	if (map_total != before) m->cap_now += m->per_range;
	if (PR(1)) {
		if ((uintptr_t) a & (m->ilen - 1)) fail_("item %p is not aligned on its size %zu", a, m->ilen);
		for (int i = 0; i < nit; i++) if (IT[i].st == 1) {
			struct mpool *q = &P[IT[i].pool];
			for (int x = 0; x < ncpu(c); x++) for (int y = 0; y < ncpu(q->c); y++) {
				char *l1 = a + x * c->stride, *l2 = IT[i].a + y * q->c->stride;
				if (l1 < l2 + q->ilen && l2 < l1 + m->ilen) fail_("new item (cpu %d) overlaps a live item (cpu %d)", x, y);
			}
		}
		for (int x = 0; x < ncpu(c); x++) if (!map_owned(a + x * c->stride, m->ilen)) fail_("item memory of cpu %d is not mapped by the pool", x);
	} else for (int i = 0; i < nit; i++) if (IT[i].st == 1 && IT[i].a == a) { fail_("an item was handed out twice"); return 0; }
	if (v_set) return 0;
	struct item *it = new_item(a); int reused = it->a == a && it->st == 2; it->a = a; it->pool = pi; it->st = 1; it->fresh = 1; m->live++;
	char *rb = (char *) ((uintptr_t) a & ~(c->stride - 1)); size_t off = a - rb;
	if (c->cb) {
		int k; for (k = 0; k < ncb; k++) if (CB[k].base == rb) break;
		if (PR(12)) { if (k == ncb) fail_("item handed out from memory the callback never saw"); else { for (int x = 0; x < ncpu(c); x++) if (!CB[k].mask[x]) fail_("item handed out although the callback was not called for CPU %d", x); } if (k < ncb && CB[k].pool != pi) fail_("callback had another pool's private pointer"); }
		if (PR(12) && map_total == before && m->cb_calls != cbc) fail_("callback called without new memory being set up");
	}
	for (int x = 0; x < ncpu(c); x++) {
		memset(it->src[x], 0, m->ilen);
		if (reused && set) { for (size_t k = c->robust ? 0 : 8; k < m->ilen; k++) { it->val[x][k] = ((uint8_t *) &po)[k & 7]; it->src[x][k] = K_POIS; } }
		else if (!reused && c->cb) for (size_t k = 0; k < m->ilen; k++) { it->val[x][k] = cbpat(c->global ? -1 : x, off + k); it->src[x][k] = K_CB; }
		if (how == AL_Z) { memset(it->val[x], 0, m->ilen); memset(it->src[x], K_INIT, m->ilen); }
		else if (il) { memcpy(it->val[x], initbuf, il); memset(it->src[x], K_INIT, il); }
	}
	return 1;
}
static void op_write(int i, int cpu, int last, int poisonval)
{
	if (cpu < 0) { tr(" %d: write item %d on every cpu:\n", step_no, i); for (int x = 0; x < ncpu(P[IT[i].pool].c) && !v_set; x++) { int t = tlen; op_write(i, x, last, poisonval); if (!v_set) trace[tlen = t] = 0; } return; }
	struct item *it = &IT[i]; struct mpool *m = &P[it->pool]; char *p = it->a + cpu * m->c->stride; int set; uintptr_t po = eff_poison(m->c, &set);
	if (!m->c->global) p = (char *) rseq_percpu_ptr((char *) it->a, cpu, m->c->stride);
	tr(" %d: write %s of item %d on cpu %d\n", step_no, last ? "last byte" : poisonval ? "poison value over all" : "all", i, cpu);
	int g = GUARD(
		if (last) { p[m->ilen - 1] = it->val[cpu][m->ilen - 1] = pat(step_no, cpu, m->ilen - 1); it->src[cpu][m->ilen - 1] = K_W; }
		else for (size_t k = 0; k < m->ilen; k++) { p[k] = it->val[cpu][k] = poisonval ? ((uint8_t *) &po)[k & 7] : pat(step_no, cpu, k); it->src[cpu][k] = K_W; });
	if (g) fail_("writing a live item: %s", guard_name[g]);
}
static int op_free(int i)
{
	struct item *it = &IT[i]; struct mpool *m = &P[it->pool]; size_t before = map_total; int set; uintptr_t po = eff_poison(m->c, &set);
	tr(" %d: free item %d\n", step_no, i);
	int g = GUARD(if (m->c->stride == RSEQ_MEMPOOL_STRIDE && (step_no & 1)) rseq_mempool_percpu_free(it->a); else rseq_mempool_percpu_free(it->a, m->c->stride));
	if (g) { fail_("free: %s", guard_name[g]); return 0; }
	it->st = 2; m->live--;
	if (PR(3) && map_total > before) fail_("free grew the mapped memory");
	for (int x = 0; x < ncpu(m->c); x++) {
		memset(it->src[x], 0, m->ilen);
		if (set) for (size_t k = m->c->robust ? 0 : 8; k < m->ilen; k++) { it->val[x][k] = ((uint8_t *) &po)[k & 7]; it->src[x][k] = K_POIS; }
	}
	return 1;
}
static unsigned src_mask(struct item *it)
{
	unsigned m = 0;
	if (PR(1) && !it->fresh && it->st == 1) m |= K_W | K_INIT;
	if (PR(2) && it->fresh && it->st == 1) m |= K_INIT;
	if (PR(4) && it->st == 1) m |= K_W;
	if (PR(6)) { if (it->st == 2 || it->fresh) m |= K_POIS; }
	if (PR(12) && it->fresh && it->st == 1) m |= K_CB;
	return m;
}
static void check_contents(void)
{
	n_checks++;
	for (int i = 0; i < nit; i++) {
		struct item *it = &IT[i]; if (!it->st) continue;
		struct mpool *m = &P[it->pool]; unsigned mask = src_mask(it); if (!mask) { it->fresh = 0; continue; }
		uint64_t mm = mask * 0x0101010101010101ULL;
		for (int x = 0; x < ncpu(m->c); x++) {
			volatile uint64_t *p = (volatile uint64_t *) (it->a + x * m->c->stride); const uint64_t *v = (const uint64_t *) it->val[x], *s = (const uint64_t *) it->src[x];
			for (size_t k = 0; k < m->ilen / 8; k++) {
				uint64_t d = p[k] ^ v[k]; if (!d) continue;
				uint64_t sm = s[k] & mm; if (!sm) continue;
				for (int b = 0; b < 8; b++) if (((d >> (8 * b)) & 0xff) && ((sm >> (8 * b)) & 0xff)) {
					uint8_t why = (sm >> (8 * b)) & 0xff;
					fail_("item %d (%s) cpu %d byte %zu reads %#x, expected %#x (%s)", i, it->st == 1 ? "live" : "freed", x, k * 8 + b, (unsigned) ((p[k] >> (8 * b)) & 0xff), (unsigned) ((v[k] >> (8 * b)) & 0xff),
						why & K_W ? "written by its owner" : why & K_INIT ? "requested initial content" : why & K_POIS ? "poison value" : "content written by the init callback");
					return;
				}
			}
		}
		it->fresh = 0;
	}
}
static void check_state(void)
{
	if (v_set) return;
	int g = GUARD(check_contents()); if (g) fail_("reading item memory: %s", guard_name[g]);
	if (cb_bad && (PR(12) || PR(2))) fail_("%s", cb_msg);
	if (bad_unmap) fail_("the library unmapped memory it does not own");
	if (bad_fixed) fail_("the library mapped over memory it does not own");
	if (bad_free) fail_("the library freed a block that is not allocated");
	check_heap(); if (heap_smashed) fail_("the library wrote beyond a heap block");
}

/* ---- alphabets ---- */
static unsigned al_mask = (1 << AL_M) | (1 << AL_Z) | (1 << AL_IF); static int w_full = 1, w_last = 0, w_pois = 0, do_free = 1, two_pools = 0, max_writes = 99;
static struct pcfg *cfg2; static int cb_fault = -1;
struct op { int k, a, b, c; };
static struct op last_op;
static int enabled(struct op *o, int left)
{
	int n = 0, nl = 0, nw = 0; (void) left; (void) nw;
	for (int i = 0; i < nit; i++) if (IT[i].st == 1) nl++;
	for (int pi = 0; pi < 1 + two_pools; pi++) if (P[pi].up && nl < maxlive) for (int h = 0; h < AL_NR; h++) if (al_mask & (1u << h)) o[n++] = (struct op) { 0, pi, h, 0 };
	for (int i = 0; i < nit; i++) if (IT[i].st == 1) {
		if (do_free) o[n++] = (struct op) { 1, i, 0, 0 };
		int nc = ncpu(P[IT[i].pool].c);
		for (int x = nc > 4 ? -1 : 0; x < nc; x++) {
			if (nc > 4 && x > 1 && x != nc / 2 && x != nc - 1) continue;	/* wide pools: every CPU at once, the first two, the middle one and the last */
			if (w_full && !(last_op.k == 2 && last_op.a == i && last_op.b == x)) o[n++] = (struct op) { 2, i, x, 0 };
			if (w_last && !(last_op.k == 2 && last_op.a == i && last_op.b == x)) o[n++] = (struct op) { 2, i, x, 1 };
			if (w_pois && !(last_op.k == 2 && last_op.a == i && last_op.b == x)) o[n++] = (struct op) { 2, i, x, 2 };
		}
	}
	if (two_pools) { if (P[1].up) { if (!P[1].live || !P[1].c->robust) o[n++] = (struct op) { 4, 0, 0, 0 }; } else o[n++] = (struct op) { 3, 0, 0, 0 }; }
	return n;
}
static void exec_op(struct op *o)
{
	n_ops++; last_op = *o;
	switch (o->k) {
	case 0: op_alloc(o->a, o->b); break;
	case 1: op_free(o->a); break;
	case 2: op_write(o->a, o->b, o->c == 1, o->c == 2); break;
	case 3: tr(" %d: create pool 1 (%s)\n", step_no, cfg2->name); if (!up_pool(1, cfg2) && !v_set) fail_("creating the second pool failed"); break;
	case 4: tr(" %d: destroy pool 1\n", step_no); down_pool(1); break;
	}
}
static void begin(struct pcfg *c)
{
	reclaim(); nit = 0; memset(P, 0, sizeof(P)); ncb = 0; cb_bad = 0; bad_unmap = bad_fixed = bad_free = 0; heap_smashed = 0; pos = 0; step_no = 0; tlen = 0; trace[0] = 0; v_set = 0;
	fault_n = 0; faults_hit = 0; last_op.k = -1;
	tr("pool 0: %s\n", c->name);
}
static void wrap_up(void)
{
	for (int pi = 1; pi >= 0; pi--) {
		if (v_set || !P[pi].up) continue;
		if (P[pi].c->robust) for (int i = 0; i < nit && !v_set; i++) if (IT[i].st == 1 && IT[i].pool == pi) op_free(i);
		if (v_set) return;
		if (!pi && npre) { int g = GUARD(drop_pre(1)); if (g) { fail_("freeing a long-lived item: %s", guard_name[g]); return; } }
		if (v_set) return;
		tr(" destroy pool %d\n", pi); down_pool(pi);
	}
	if (v_set) return;
	if (nmaps) fail_("%d mappings (%zu bytes) left behind after destroying the pools", nmaps, map_total);
	else if (nblocks) fail_("%zu heap blocks left behind after destroying the pools", nblocks);
	else if (nfds) fail_("%d file descriptors left behind", nfds);
}
static int run_seq(struct pcfg *c)
{
	int fresh_from = plen - 1;	/* choices before this one were verified by an earlier run */
	begin(c);
	if (!up_pool(0, c)) {
		if (faults_hit) { if (nmaps || nblocks || nfds) fail_("failed creation left resources behind (%d mappings, %zu heap blocks, %d descriptors)", nmaps, nblocks, nfds); n_runs++; return v_set; }
		if (!v_set) fail_("creating the pool failed, errno %d", errno);
		return 1;
	}
	if (faults_hit) { fail_("creation succeeded although the %s failed", fk_name[fault_kind_hit[0]]); return 1; }
	for (int d = 0; d < depth && !v_set; d++) {
		struct op o[128]; int n = enabled(o, depth - d); if (!n) break;
		int k = choose(n); step_no++;
		exec_op(&o[k]);
		if (pos > fresh_from) check_state(); else for (int i = 0; i < nit; i++) IT[i].fresh = 0;
	}
	if (!v_set) { wrap_up(); if (!v_set && pos > fresh_from) { if (cb_bad && PR(12)) fail_("%s", cb_msg); check_heap(); if (heap_smashed) fail_("the library wrote beyond a heap block"); } }
	n_runs++;
	return v_set;
}
/* ---- misuse of robust pools: a valid history followed by one misuse, which must be detected ---- */
static int expect_abort(int g, const char *what) { n_misuse++; if (g == 1) { n_detect++; return 1; } if (g) fail_("%s: %s instead of being detected", what, guard_name[g]); return 0; }
static void free_all(void) { drop_pre(0); for (int i = 0; i < nit; i++) if (IT[i].st == 1) { rseq_mempool_percpu_free(IT[i].a, P[0].c->stride); IT[i].st = 2; P[0].live--; } }
static void run_misuse_here(struct pcfg *c)
{
	struct mpool *m = &P[0]; char *ranges[16]; int nr = 0, list[64][4], n = 0;
	int set; uintptr_t po = eff_poison(c, &set);
	for (int i = 0; i < nit; i++) if (IT[i].st) { char *rb = (char *) ((uintptr_t) IT[i].a & ~(c->stride - 1)); int k; for (k = 0; k < nr; k++) if (ranges[k] == rb) break; if (k == nr && nr < 16) ranges[nr++] = rb; }
	int freed[MAXI], nf = 0, live = 0; for (int i = 0; i < nit; i++) { if (IT[i].st == 2) freed[nf++] = i; if (IT[i].st == 1) live++; }
	int words[3] = { 0, (int) (m->ilen / 8 / 2), (int) (m->ilen / 8 - 1) };
	for (int k = 0; k < nf && n < 40; k++) list[n][0] = 0, list[n][1] = k, n++;					/* double free */
	for (int k = 0; k < nr && n < 44; k++) list[n][0] = 1, list[n][1] = k, n++;					/* free of a never allocated slot */
	if (live) list[n][0] = 2, n++;										/* destroy with live items */
	if (nf) { list[n][0] = 3, n++; list[n][0] = 4, n++; }							/* write after free, then destroy / reallocate */
	list[n][0] = 5, n++;											/* corrupt the free list, then destroy */
	int sel = choose(n), k = list[sel][1], g;
	switch (list[sel][0]) {
	case 0: tr(" misuse: free item %d a second time\n", freed[k]);
		g = GUARD(rseq_mempool_percpu_free(IT[freed[k]].a, c->stride)); if (!expect_abort(g, "double free")) fail_("double free is not detected"); return;
	case 1: { int slot = choose((int) m->per_range > 4 ? 4 : (int) m->per_range); if ((int) m->per_range > 4 && slot == 3) slot = (int) m->per_range - 1;
		char *a = ranges[k] + slot * m->ilen;
		if (prefill && slot < 3) a += (prefill % m->per_range) * m->ilen;
		if (a >= ranges[k] + c->stride) return;
		for (int i = 0; i < npre; i++) if (pre[i] == a) return;
		for (int i = 0; i < nit; i++) if (IT[i].st && IT[i].a == a) return;
		tr(" misuse: free never allocated slot %d\n", slot);
		g = GUARD(rseq_mempool_percpu_free(a, c->stride)); if (!expect_abort(g, "free of an item that is not allocated")) fail_("free of an item that was never allocated is not detected"); return; }
	case 2: { tr(" misuse: destroy with %d live items\n", live); int keep = choose(live), q = 0;
		drop_pre(0);
		for (int i = 0; i < nit; i++) if (IT[i].st == 1 && q++ != keep) { g = GUARD(rseq_mempool_percpu_free(IT[i].a, c->stride)); if (g) { fail_("free: %s", guard_name[g]); return; } }
		g = GUARD(rseq_mempool_destroy(m->p)); if (!expect_abort(g, "destroy with a live item")) fail_("destroying the pool with a live item is not detected"); return; }
	case 3: case 4: {
		int fi = choose(nf), cpu = ncpu(c) > 4 ? (int[]) { 0, 1, ncpu(c) / 2, ncpu(c) - 1 }[choose(4)] : choose(ncpu(c)), w = words[choose(3)], bit = choose(4); uint64_t flip = bit == 0 ? 1 : bit == 1 ? 1ULL << 63 : bit == 2 ? 1ULL << 32 : ~0ULL;
		uint64_t *p = (uint64_t *) (IT[freed[fi]].a + cpu * c->stride) + w;
		tr(" misuse: write freed item %d, cpu %d, word %d (value %#lx), then %s\n", freed[fi], cpu, w, po ^ flip, list[sel][0] == 3 ? "destroy" : "reallocate");
		g = GUARD(*p = po ^ flip); if (g) { fail_("writing freed memory: %s", guard_name[g]); return; }
		if (list[sel][0] == 3) { g = GUARD(free_all(); rseq_mempool_destroy(m->p)); if (!expect_abort(g, "write after free")) fail_("write after free is not detected at pool destruction"); return; }
		for (int q = 0; q < nf + 1; q++) {
			char *a = NULL; g = GUARD(a = rseq_mempool_percpu_malloc(m->p));
			if (g) { expect_abort(g, "write after free"); return; }
			if (a == IT[freed[fi]].a) { n_misuse++; fail_("write after free is not detected when the item is allocated again"); return; }
		}
		n_misuse++; g = GUARD(for (int i = 0; i < nit; i++) if (IT[i].st == 1) rseq_mempool_percpu_free(IT[i].a, c->stride)); reclaim(); return; }
	case 5: {	/* words outside the user-visible memory that point into the pool's mapping are the free list */
		uint64_t *w[64]; int nw = 0;
		for (int r = 0; r < nr; r++) for (int q = 0; q < nmaps; q++) {
			if (ranges[r] < maps[q].a || ranges[r] >= maps[q].a + maps[q].len) continue;
			uint64_t *b = (uint64_t *) (ranges[r] + ncpu(c) * c->stride), *e = (uint64_t *) (maps[q].a + maps[q].len);
			for (; b < e; b++) for (int z = 0; z < nmaps; z++) if (*b >= (uint64_t) maps[z].a && *b < (uint64_t) maps[z].a + maps[z].len) { if (nw < 64) w[nw++] = b; break; }
		}
		if (!nw) return;
		int which = choose(nw), how = choose(6); uint64_t v = how == 0 ? 0 : how == 1 ? (uint64_t) w[which] : how == 2 ? (uint64_t) maps[0].a + 64 : (uint64_t) ranges[0] + (ncpu(c) - 1) * c->stride + c->stride - 8;
		tr(" misuse: overwrite a free-list link with %s, then free everything and destroy\n", how == 0 ? "NULL" : how == 1 ? "itself" : how == 2 ? "an address in the header" : how == 3 ? "an address in user memory" : "a slot that was never allocated");
		if (how >= 4) {	/* to a slot that was never allocated (the first or the last one), linked so that the list keeps its length */
			uint64_t fl = *w[which], base = fl & ~(uint64_t) (c->stride - 1); char *rb = NULL; size_t off = how == 4 ? 0 : c->stride - m->ilen; int used;
			for (int r = 0; r < nr; r++) if (base >= (uint64_t) ranges[r] && (!rb || ranges[r] > rb)) rb = ranges[r];
			if (!rb) return;
			do { used = 0; for (int i = 0; i < npre; i++) used |= pre[i] == rb + off; for (int i = 0; i < nit; i++) used |= IT[i].st && IT[i].a == rb + off; if (!used) break; off += m->ilen; } while (how == 4 && off < c->stride);
			if (used || off >= c->stride) return;
			v = base + off; *(uint64_t *) v = *(uint64_t *) fl;
		}
		*w[which] = v;
		g = GUARD(free_all(); rseq_mempool_destroy(m->p)); if (!expect_abort(g, "free-list corruption")) fail_("free-list corruption (%s) is not detected at pool destruction", how == 0 ? "truncated" : how == 1 ? "loop" : how >= 4 ? "never allocated slot" : "out of range"); return; }
	}
}
static int run_misuse(struct pcfg *c)
{
	begin(c); watchdog(60);
	if (!up_pool(0, c)) { if (!v_set) fail_("creating the pool failed, errno %d", errno); return 1; }
	for (int d = 0; d < depth && !v_set; d++) {
		struct op o[128]; int n = enabled(o, depth - d);
		int k = choose(n + 1); step_no++;
		if (k == n) break;	/* stop the valid part here */
		exec_op(&o[k]);
	}
	if (!v_set) run_misuse_here(c);
	n_runs++; return v_set;
}
/* ---- every slot of full robust ranges: each kind of misuse of each slot must be noticed, and freeing everything in any rotation must not ---- */
static int slot_pool(struct pcfg *c, char **a, int *n)
{
	begin(c); watchdog(60); if (!up_pool(0, c)) { if (!v_set) fail_("creating the pool failed, errno %d", errno); return 0; }
	struct mpool *m = &P[0]; *n = (int) (c->max_ranges * m->per_range); int g;
	for (int k = 0; k < *n; k++) { char *x = NULL; g = GUARD(x = rseq_mempool_percpu_malloc(m->p)); if (g || !x) { fail_("allocation %d: %s", k, g ? guard_name[g] : "failed"); return 0; } for (int z = 0; z < ncpu(c); z++) *(uint64_t *) (x + z * c->stride) = k; a[k] = x; n_ops++; }
	return 1;
}
static int run_slots(struct pcfg *c)
{
	static char *a[2048]; int n, g, lastcpu = ncpu(c) - 1; struct mpool *m = &P[0];
	size_t nslots = c->max_ranges * (c->stride / round_len(c->req)); int set; uintptr_t po = eff_poison(c, &set);
	for (size_t k = 0; k < nslots && !v_set; k++) for (int what = 0; what < 5 && !v_set; what++) {
		if (!slot_pool(c, a, &n)) return 1;
		static const char *const nm[] = { "slot left allocated at destroy", "slot freed twice", "slot written after free, then destroy", "slot written after free, then allocated again", "everything freed, starting with this slot" };
		tr(" slot %zu: %s\n", k, nm[what]); n_runs++;
		g = GUARD(switch (what) {
			case 0: for (int i = 0; i < n; i++) if (i != (int) k) rseq_mempool_percpu_free(a[i], c->stride); rseq_mempool_destroy(m->p); break;
			case 1: for (int i = 0; i < n; i++) if ((i ^ (int) k) & 1 || i == (int) k) rseq_mempool_percpu_free(a[i], c->stride); rseq_mempool_percpu_free(a[k], c->stride); break;
			case 2: for (int i = 0; i < n; i++) rseq_mempool_percpu_free(a[i], c->stride); *((uint64_t *) (a[k] + (k % (lastcpu + 1)) * c->stride) + (k * 7) % (m->ilen / 8)) = po ^ (1UL << (k % 64)); rseq_mempool_destroy(m->p); break;
			case 3: rseq_mempool_percpu_free(a[k], c->stride); *((uint64_t *) (a[k] + ((k + 1) % (lastcpu + 1)) * c->stride) + (k * 5) % (m->ilen / 8)) = po ^ (1UL << ((k + 13) % 64)); rseq_mempool_percpu_malloc(m->p); break;
			case 4: for (int i = 0; i < n; i++) rseq_mempool_percpu_free(a[(i * 3 + k) % n], c->stride); if (n % 3 == 0) break; if (rseq_mempool_destroy(m->p)) fail_("destroy failed"); else { m->up = 0; if (nmaps || nblocks || nfds) fail_("resources left behind"); } break;
		});
		if (what == 4) { if (g && n % 3) fail_("correct use: %s", guard_name[g]); }
		else if (!expect_abort(g, nm[what])) fail_("%s is not detected (slot %zu of %d)", nm[what], k, n);
	}
	reclaim(); return v_set;
}
/* ---- filling pools completely: exact capacity for every size ---- */
static int run_fill(struct pcfg *c, int order)
{
	static char *a[70000]; size_t n = 0, total; begin(c); watchdog(60);
	if (!up_pool(0, c)) { if (!v_set) fail_("creating the pool failed, errno %d", errno); return 1; }
	struct mpool *m = &P[0]; size_t cap = c->max_ranges * m->per_range; int g;
	for (int round = 0; round < 3 && !v_set; round++) {
		tr(" round %d: allocate until failure, free order %d\n", round, order);
		for (;;) {
			char *x = NULL; size_t before = map_total; errno = 0; g = GUARD(x = order & 4 ? rseq_mempool_percpu_zmalloc(m->p) : rseq_mempool_percpu_malloc(m->p)); n_ops++;
			if (g) { fail_("allocation %zu: %s", n, guard_name[g]); return 1; }
			if (!x) { if (errno != ENOMEM) fail_("errno %d instead of ENOMEM when the pool is full", errno); break; }
			if (n >= cap) { fail_("more than %zu items handed out", cap); return 1; }
			if ((uintptr_t) x & (m->ilen - 1)) fail_("item not aligned on its size");
			if (map_total != before && n < m->cap_now) fail_("memory consumption grew although free items are available (%zu of %zu in use)", n, m->cap_now);
			if (map_total != before) m->cap_now += m->per_range;
			a[n++] = x;
			for (int z = 0; z < ncpu(c); z++) { g = GUARD(*(volatile uint64_t *) (x + z * c->stride + m->ilen - 8) = (uint64_t) x * 3 + z); if (g) { fail_("writing item %zu on cpu %d: %s", n - 1, z, guard_name[g]); return 1; } }
		}
		if (v_set) return 1;
		if (n != cap) { fail_("only %zu items of %zu handed out before ENOMEM (round %d)", n, cap, round); return 1; }
		for (size_t k = 0; k < n; k++) for (int z = 0; z < ncpu(c); z++) if (*(volatile uint64_t *) (a[k] + z * c->stride + m->ilen - 8) != (uint64_t) a[k] * 3 + z) { fail_("content of item %zu on cpu %d changed while others were allocated", k, z); return 1; }
		total = n; size_t nfree = round == 2 ? n : order & 2 ? n / 2 : n;	/* free all or half, in order or reversed */
		for (size_t k = 0; k < nfree; k++) {
			size_t j = order & 1 ? total - 1 - k : k; if (round == 2) j = k; if (a[j] == NULL) continue;
			g = GUARD(rseq_mempool_percpu_free(a[j], c->stride)); n_ops++; if (g) { fail_("free %zu: %s", k, guard_name[g]); return 1; } a[j] = NULL;
		}
		size_t q = 0; for (size_t k = 0; k < total; k++) if (a[k]) a[q++] = a[k]; n = q;
	}
	n_runs++; if (!v_set) { if (n && c->robust) fail_("internal"); else { down_pool(0); if (!v_set && (nmaps || nblocks || nfds)) fail_("resources left behind"); } }
	return v_set;
}

/* ---- configurations ---- */
static struct pcfg CF[4096]; static int ncf; static char cfname[4096][160];
static void addc(int global, int nc, int policy, int robust, int ps, uintptr_t po, size_t req, size_t stride, unsigned long mr, int cb)
{
	struct pcfg c = { cfname[ncf], global, nc, policy, robust, ps, po, req, stride, mr, cb, 0 };
	snprintf(cfname[ncf], 160, "%s%d %s%s poison=%s%#lx item=%zu stride=%zu max_ranges=%lu%s", global ? "global" : "percpu", global ? 1 : nc, policy ? "COW_ZERO" : "COW_INIT", robust ? " robust" : "", ps ? "" : "default ", (unsigned long) po, req, stride, mr, cb ? " callback" : "");
	if (ncf == 4096) exit(2);
	CF[ncf++] = c;
}
static void configs(const char *set)
{
	int thorough = strstr(set, "+") != NULL;
#define EACH(set, n) for (unsigned _i_##n = 0; _i_##n < sizeof(set) / sizeof(set[0]); _i_##n++)
	if (!strncmp(set, "main", 4)) {
		static const size_t req[] = { 1000, 4096, 8192 }; 
		for (int pol = 0; pol < 2; pol++) for (int rob = 0; rob < 2; rob++) for (int ps = 0; ps < 3; ps++) EACH(req, r) {
			if (!thorough && rob && ps == 2) continue;
			size_t st = req[_i_r] > 4096 ? 8192 : 4096;
			addc(0, 2, pol, rob, ps > 0, ps == 1 ? 0 : 0xabadcafe12345678UL, req[_i_r], st, _i_r == 1 ? 3 : 2, 0);
			if (thorough) addc(0, 3, pol, rob, ps > 0, ps == 1 ? 0 : 0xabadcafe12345678UL, req[_i_r], st, 0, 0);
		}
		for (int rob = 0; rob < 2; rob++) addc(1, 0, 1, rob, 1, 0x11, 2048, 4096, 2, 0);
		addc(1, 0, 0, 0, 0, 0, 2048, 4096, 2, 0); addc(0, 1, 0, 0, 0, 0, 2048, 4096, 2, 0); addc(0, 1, 1, 1, 0, 0, 2048, 4096, 2, 0); addc(0, 3, 0, 0, 0, 0, 2048, 4096, 2, 0);
	} else if (!strncmp(set, "cap", 3)) {
		for (int pol = 0; pol < 2; pol++) for (int rob = 0; rob < 2; rob++) for (unsigned long mr = 0; mr <= 3; mr++) for (size_t rq = 1024; rq <= 4096; rq *= 2) addc(0, 2, pol, rob, 0, 0, rq, 4096, mr, 0);
		addc(1, 0, 1, 0, 0, 0, 2048, 4096, 2, 0); addc(1, 0, 1, 1, 0, 0, 2048, 4096, 2, 0);
	} else if (!strncmp(set, "fill", 4)) {
		for (int glob = 0; glob < 2; glob++) for (int pol = glob; pol < 2; pol++) for (int rob = 0; rob < 2; rob++) for (size_t st = 4096; st <= 65536; st *= 4) for (size_t rq = 1; rq <= st; rq = rq < 8 ? rq + 7 : rq * 2)
			for (unsigned long mr = 1; mr <= 3; mr += 1) { if ((!thorough && st / rq > 2048 && mr > 1) || (st / round_len(rq)) * mr > 60000) continue; addc(glob, 2, pol, rob, 0, 0, rq, st, mr, 0); if (rq > 8 && rq < st) addc(glob, 2, pol, rob, 0, 0, rq + 1, st, mr, 0); }
	} else if (!strncmp(set, "poison", 6)) {
		static const uintptr_t po[] = { 0, 0x5555555555555555UL, ~0UL, 0x8000000000000000UL, 0xabadcafe12345678UL };
		for (int pol = 0; pol < 2; pol++) for (int rob = 0; rob < 2; rob++) EACH(po, p) { addc(0, 2, pol, rob, 1, po[_i_p], 2048, 4096, 2, 0); if (_i_p == 4 || thorough) { addc(0, 2, pol, rob, 1, po[_i_p], 16, 4096, 2, 0); addc(0, 2, pol, rob, 1, po[_i_p], 8192, 8192, 2, 0); } }
		addc(0, 2, 0, 1, 0, 0, 2048, 4096, 2, 0); addc(0, 2, 1, 1, 0, 0, 2048, 4096, 2, 0); addc(1, 0, 1, 1, 0, 0, 2048, 4096, 2, 0); addc(1, 0, 1, 0, 1, 0x77, 2048, 4096, 2, 0); addc(0, 3, 0, 0, 1, 0x77, 4096, 4096, 0, 0);
	} else if (!strncmp(set, "robust", 6)) {
		static const uintptr_t po[] = { 0, ~0UL, 0xabadcafe12345678UL };
		for (int pol = 0; pol < 2; pol++) { addc(0, 2, pol, 1, 0, 0, 2048, 4096, 2, 0); addc(0, 2, pol, 1, 0, 0, 4096, 4096, 0, 0); addc(0, 3, pol, 1, 0, 0, 16, 4096, 2, 0); EACH(po, p) addc(0, 2, pol, 1, 1, po[_i_p], 1024, 4096, 1, 0); }
		addc(1, 0, 1, 1, 0, 0, 2048, 4096, 2, 0); addc(1, 0, 0, 1, 1, 0x55, 2048, 4096, 2, 0); addc(0, 1, 0, 1, 0, 0, 8192, 8192, 0, 0);
	} else if (!strncmp(set, "cb", 2)) {
		for (int pol = 0; pol < 2; pol++) for (int rob = 0; rob < 2; rob++) { addc(0, 2, pol, rob, 0, 0, 2048, 4096, 3, 1); addc(0, 3, pol, rob, 0, 0, 4096, 4096, 0, 1); addc(0, 1, pol, rob, 1, 0x33, 1024, 4096, 2, 1); }
		addc(1, 0, 1, 0, 0, 0, 2048, 4096, 2, 1); addc(1, 0, 0, 1, 0, 0, 4096, 4096, 3, 1);
	} else if (!strncmp(set, "small", 5)) {	/* several items per cache line, many per range */
		static const size_t req[] = { 1, 16, 32, 100 };
		for (int pol = 0; pol < 2; pol++) for (int rob = 0; rob < 2; rob++) EACH(req, r) { addc(0, 2, pol, rob, !rob && (_i_r & 1), 0x9b9b9b9b12345678UL, req[_i_r], 4096, 2, 0); if (thorough) addc(0, 3, pol, rob, 1, 0, req[_i_r], 4096, 0, 0); }
		addc(1, 0, 1, 0, 0, 0, 16, 4096, 2, 0); addc(1, 0, 1, 1, 0, 0, 32, 4096, 2, 0);
	} else if (!strncmp(set, "hi", 2)) {	/* 256 items per range: used with prefill, so that the explored items lie at both ends of a range and of bitmap words */
		for (int pol = 0; pol < 2; pol++) for (int rob = thorough ? 0 : 1; rob < 2; rob++) addc(0, 2, pol, rob, 0, 0, 16, 4096, 2, 0);
	} else if (!strncmp(set, "wide", 4)) {	/* many CPUs */
		static const int nc[] = { 5, 33, 65, 129, 257 };
		for (int pol = 0; pol < 2; pol++) for (int rob = set[4] == 'r'; rob < 2; rob++) EACH(nc, n) addc(0, nc[_i_n], pol, rob, !rob && (_i_n & 1), 0x9b9b9b9b12345678UL, _i_n & 1 ? 2048 : 4096, 4096, 2, set[4] == 'c');
	} else if (!strncmp(set, "slots", 5)) {
		for (int pol = 0; pol < 2; pol++) { addc(0, 2, pol, 1, 0, 0, 16, 4096, 2, 0); addc(0, 3, pol, 1, 1, 0x9b9b9b9b12345678UL, 512, 4096, 4, 0); addc(0, 2, pol, 1, 0, 0, 16384, 65536, 5, 0); if (thorough) addc(0, 2, pol, 1, 0, 0, 8, 8192, 1, 0); }
		addc(1, 0, 1, 1, 0, 0, 32, 4096, 2, 0); addc(0, 65, 0, 1, 0, 0, 1024, 4096, 2, 0);
	} else if (!strncmp(set, "def", 3)) {	/* default stride */
		for (int pol = 0; pol < 2; pol++) for (int rob = 0; rob < 2; rob++) addc(0, 2, pol, rob, 0, 0, 16384, 65536, 2, 0);
	}
}
static int report(struct pcfg *c, const char *mode)
{
	char msg[1200]; snprintf(msg, sizeof(msg), "%s", v_msg);
	FILE *f = fopen(rp_path, "w"); if (f) { fprintf(f, "violation: %s\n%s\n#mode %s\n#path", msg, trace, mode); for (int i = 0; i < plen; i++) fprintf(f, " %d", path[i]); fprintf(f, "\n#command"); for (int i = 0; i < g_argc; i++) fprintf(f, " %s", g_argv[i]); fprintf(f, "\n"); fclose(f); }
	printf("{\"violation\": "); char b[1500]; snprintf(b, sizeof(b), "%s: %s", c->name, msg); json_str(stdout, b); printf("}\n"); return 1;
}
int main(int argc, char **argv)
{
	const char *what = "seq", *set = "main"; int shard = 0, nshard = 1, only = -1, list = 0; double limit = 0, t0 = now_s(); int capped = 0; unsigned alsel = 0;
	g_argc = argc; g_argv = argv; props = 1 << 1;
	for (int i = 1; i < argc; i++) {
		if (!strncmp(argv[i], "what=", 5)) what = argv[i] + 5; else if (!strncmp(argv[i], "set=", 4)) set = argv[i] + 4;
		else if (!strncmp(argv[i], "depth=", 6)) depth = atoi(argv[i] + 6); else if (!strncmp(argv[i], "maxlive=", 8)) maxlive = atoi(argv[i] + 8);
		else if (!strncmp(argv[i], "shard=", 6)) sscanf(argv[i] + 6, "%d/%d", &shard, &nshard); else if (!strncmp(argv[i], "only=", 5)) only = atoi(argv[i] + 5);
		else if (!strncmp(argv[i], "out=", 4)) rp_path = argv[i] + 4; else if (!strncmp(argv[i], "props=", 6)) props = strtoul(argv[i] + 6, NULL, 0);
		else if (!strncmp(argv[i], "al=", 3)) alsel = strtoul(argv[i] + 3, NULL, 0); else if (!strncmp(argv[i], "limit=", 6)) limit = atof(argv[i] + 6);
		else if (!strncmp(argv[i], "prefill=", 8)) prefill = atoi(argv[i] + 8);
		else if (!strncmp(argv[i], "w=", 2)) { int w = atoi(argv[i] + 2); w_full = w & 1; w_last = !!(w & 2); w_pois = !!(w & 4); }
		else if (!strcmp(argv[i], "two")) two_pools = 1; else if (!strcmp(argv[i], "list")) list = 1;
	}
	if (alsel) al_mask = alsel;
	configs(set);
	if (list) { printf("%d\n", ncf); return 0; }
	if (getenv("M_STDERR") == NULL) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); }
	catch_crashes();
	char sample[8192] = "";
	for (int i = 0; i < ncf; i++) {
		if (only >= 0 ? i != only : i % nshard != shard) continue;
		struct pcfg *c = &CF[i]; plen = 0; cfg2 = &CF[(i + 1) % ncf];
		if (!strcmp(what, "fill")) { for (int o = 0; o < 8; o++) if (run_fill(c, o)) return report(c, what); snprintf(sample, sizeof(sample), "%s\n%s", c->name, trace); continue; }
		if (!strcmp(what, "slots")) { if (run_slots(c)) return report(c, what); if (!sample[0]) snprintf(sample, sizeof(sample), "%s", trace); continue; }
		if (!strcmp(what, "cbfault")) {	/* every history, every single failing callback invocation */
			fault_kinds = 1u << F_CB;
			for (int at = 0; at < 12; at++) { fault_at[0] = at; plen = 0; int any = 0; do { watchdog(60); if (run_seq(c)) return report(c, what); any |= faults_hit; } while (backtrack()); if (!any) break; }
			fault_at[0] = -1; snprintf(sample, sizeof(sample), "%s", trace); continue;
		}
		int k = 0, mis = !strcmp(what, "misuse");
		do {
			if (!mis && !(k++ & 1023)) { watchdog(60); }
			if (limit && now_s() - t0 > limit) { capped = 1; break; }
			if (mis ? run_misuse(c) : run_seq(c)) {
				char first[1200]; strcpy(first, v_msg); pos = 0; int sp = plen; (void) sp;
				watchdog(60); if (!(mis ? run_misuse(c) : run_seq(c)) ) {
					if (strstr(first, guard_name[3])) { printf("{\"error\": \"violation not reproduced: %s\"}\n", first); return 3; }
					snprintf(v_msg, sizeof(v_msg), "%s (depends on earlier histories: the history alone does not show it)", first);	/* observed on the real code all the same */
				}
				return report(c, what);
			}
		} while (backtrack());
		if (!sample[0] || n_runs % 7 == 0) snprintf(sample, sizeof(sample), "%s", trace);
	}
	watchdog(0); reclaim();
	printf("{\"configs\": %d, \"runs\": %lu, \"ops\": %lu, \"checks\": %lu, \"syscalls\": %lu, \"misuses\": %lu, \"detected\": %lu, \"capped\": %d, \"wall\": %.2f, \"sample\": ", ncf, n_runs, n_ops, n_checks, n_sys, n_misuse, n_detect, capped, now_s() - t0); json_str(stdout, sample); printf("}\n");
	return 0;
}
