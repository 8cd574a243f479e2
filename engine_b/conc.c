/*
 * M07 and the concurrent part of M02: all schedules (within the preemption bound) of small concurrent programs on one
 * pool or one pool set, judged by a sequential reference (linearisability), content checks and the pool's own checks.
 */
#include "sched.h"
#include <rseq/rseq.h>
#include <rseq/mempool.h>
#define STRIDE 4096UL
#define ILEN 2048UL
#define NC 2
struct cfg { int policy, robust, poison; unsigned long maxr; int pre, prefree; const char *prog[3]; int nt; int set; };
static struct cfg C[6000]; static int ncf; static struct cfg *c;
static int mode_cow;	/* split copy-on-write faults of a neighbour */
static uint64_t n_known; static char known_msg[400];

struct opr { int t, kind; uint64_t inv, ret; int ok; char *a; int order; int idx; };
static struct opr H[64]; static int nh; static uint64_t clk;
static struct rseq_mempool *pool; static struct rseq_mempool_set *set; static struct rseq_mempool *spool[3]; static int sown[3];
static char *live[64]; static int nlive; static char *pre[8]; static int npre_items; static char *neigh;
static uint8_t initv[ILEN];

static uint8_t pt(int id, int cpu) { return (uint8_t) (17 + id * 31 + cpu * 101); }
static void fill(char *a, int id) { for (int x = 0; x < NC; x++) { acc(a + x * STRIDE, ILEN, 1); memset(a + x * STRIDE, pt(id, x), ILEN); } }
static void verify(char *a, int id, const char *when) { for (int x = 0; x < NC; x++) { acc(a + x * STRIDE, ILEN, 0); for (size_t k = 0; k < ILEN; k++) if ((uint8_t) a[x * STRIDE + k] != pt(id, x)) { fail_("%s: a live item changed on cpu %d, byte %zu", when, x, k); return; } } }
static void live_add(char *a) { for (int i = 0; i < nlive; i++) if (live[i] < a + ILEN && a < live[i] + ILEN) { fail_("an item was handed out while it is live"); return; } live[nlive++] = a; }
static void live_del(char *a) { for (int i = 0; i < nlive; i++) if (live[i] == a) { live[i] = live[--nlive]; return; } }
/* split copy-on-write of the neighbour's page */
struct cow { int on, raced; char *page; uint64_t from; }; static struct cow cw; static struct { char *page; uint64_t from, to; } cwh[16]; static int ncw;
static void on_acc(char *a, size_t len, int wr) { if (cw.on && wr && self != cw.on - 1 && a < cw.page + STRIDE && a + len > cw.page) cw.raced = 1; }
static uint8_t cow_done;

static struct opr *op_begin(int t, int kind) { struct opr *o = &H[nh++]; memset(o, 0, sizeof(*o)); o->t = t; o->kind = kind; o->inv = ++clk; n_ops++; return o; }
static void op_end(struct opr *o) { o->ret = ++clk; }
static void do_alloc(int t, int kind, int id, char **out)
{
	struct opr *o = op_begin(t, 'm'); char *a; errno = 0;
	a = kind == 'm' ? rseq_mempool_percpu_malloc(pool) : kind == 'z' ? rseq_mempool_percpu_zmalloc(pool) : rseq_mempool_percpu_malloc_init(pool, initv, kind == 'h' ? 100 : ILEN);
	int e = errno; op_end(o); o->ok = !!a; o->a = a; *out = a;
	tr(" T%d: %s -> %s\n", t, kind == 'm' ? "malloc" : kind == 'z' ? "zmalloc" : "malloc_init", a ? "item" : "NULL");
	if (!a) { if (e != ENOMEM) fail_("a failed allocation reports errno %d", e); return; }
	if ((uintptr_t) a & (ILEN - 1)) { fail_("item not aligned"); return; }
	live_add(a); if (v_set) return;
	if (kind != 'm') for (int x = 0; x < NC; x++) {
		acc(a + x * STRIDE, ILEN, 0);
		size_t n = kind == 'h' ? 100 : ILEN;
		for (size_t k = 0; k < n; k++) if ((uint8_t) a[x * STRIDE + k] != (kind == 'z' ? 0 : initv[k])) {
			/* a neighbour's copy-on-write of this page that was under way during the call? */
			char *pg = (char *) ((uintptr_t) (a + x * STRIDE) & ~4095UL); int race = cw.on && cw.page == pg && cw.from < o->ret;
			for (int i = 0; i < ncw; i++) if (cwh[i].page == pg && cwh[i].from < o->ret && cwh[i].to > o->inv) race = 1;
			if (race) { n_known++; if (!known_msg[0]) snprintf(known_msg, sizeof(known_msg), "%s returned, cpu %d still reads %#x: the page copy of a neighbour's first write was under way", kind == 'z' ? "zmalloc" : "malloc_init", x, (uint8_t) a[x * STRIDE + k]); tr(" (stale content: neighbour's page copy under way)\n"); break; }
			fail_("%s returned but cpu %d reads %#x at byte %zu", kind == 'z' ? "zmalloc" : "malloc_init", x, (uint8_t) a[x * STRIDE + k], k); return;
		}
	}
	fill(a, id);
}
static void do_free(int t, char *a, int id)
{
	verify(a, id, "before free"); if (v_set) return;
	live_del(a); struct opr *o = op_begin(t, 'f'); rseq_mempool_percpu_free(a, STRIDE); op_end(o); o->a = a; o->ok = 1;
	tr(" T%d: free\n", t);
}
static void do_set_alloc(int t, size_t len, int id, char **out, int *idx)
{
	struct opr *o = op_begin(t, 's'); errno = 0; char *a = rseq_mempool_set_percpu_malloc(set, len); int e = errno; op_end(o); o->ok = !!a; o->a = a; o->order = len > 2048 ? 1 : 0; *out = a; *idx = -1;
	tr(" T%d: set malloc(%zu) -> %s\n", t, len, a ? "item" : "NULL");
	if (!a) { if (e != ENOMEM) fail_("a failed set allocation reports errno %d", e); return; }
	live_add(a);
}
static void worker(int t)
{
	char *mine[8]; int ids[8], n = 0, pi = 0, k = 0;
	for (const char *p = c->prog[t]; *p && !v_set; p++, k++) {
		int id = t * 8 + k + 10;
		switch (*p) {
		case 'm': case 'z': case 'i': case 'h': { char *a; do_alloc(t, *p, id, &a); if (a) { mine[n] = a; ids[n++] = id; } break; }
		case 'f': if (n) { n--; do_free(t, mine[n], ids[n]); } break;
		case 'F': { int i = t + pi * c->nt; pi++; if (i < npre_items && pre[i]) { char *a = pre[i]; pre[i] = NULL; do_free(t, a, 1 + i); } break; }
		case 'w': for (int x = 0; x < NC; x++) { char *q = neigh + x * STRIDE, *pg = (char *) ((uintptr_t) q & ~4095UL); acc(pg, 4096, 1); *(volatile char *) q = 0x7e; tr(" T%d: write neighbour on cpu %d\n", t, x); } break;
		case 'c': {	/* the neighbour's first write on cpu 0, the kernel's page copy taking time */
			static char buf[4096]; int x = 0; char *pg = (char *) ((uintptr_t) (neigh + x * STRIDE) & ~4095UL);
			if (cow_done) break;
			acc(pg, 4096, 0); memcpy(buf, pg, 4096); cw.page = pg; cw.raced = 0; cw.from = ++clk; cw.on = t + 1; tr(" T%d: kernel copies the neighbour's page\n", t);
			acc(pg, 4096, 1); cow_done = 1; cw.on = 0; if (ncw < 16) { cwh[ncw].page = pg; cwh[ncw].from = cw.from; cwh[ncw++].to = ++clk; }
			if (!cw.raced) { if (mmap(pg, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) != pg) { printf("{\"error\": \"cow\"}\n"); _exit(2); } memcpy(pg, buf, 4096); tr(" T%d: kernel installs the copy\n", t); }
			else tr(" T%d: the page was copied by another thread meanwhile\n", t);
			neigh[x * STRIDE] = 0x7e; break; }
		case 's': case 'S': { char *a; int ix; do_set_alloc(t, *p == 's' ? 1500 : 3000, id, &a, &ix); break; }
		case 'a': case 'b': case 'd': { int w = *p == 'a' ? 0 : *p == 'b' ? 1 : 2; struct opr *o = op_begin(t, 'a'); errno = 0; int r = rseq_mempool_set_add_pool(set, spool[w]); int e = errno; op_end(o); o->ok = !r; o->idx = w; if (!r) sown[w] = 1; else if (e != EBUSY) fail_("add_pool failed with errno %d instead of EBUSY", e); tr(" T%d: add pool %d -> %d\n", t, w, r); break; }
		}
	}
}
/* ---- linearisability of allocations and frees: only the number of live items matters ---- */
static int lin(unsigned done, int lv, int cap)
{
	if (done == (1u << nh) - 1) return 1;
	for (int i = 0; i < nh; i++) {
		if (done & (1u << i)) continue;
		int first = 1; for (int j = 0; j < nh; j++) if (!(done & (1u << j)) && j != i && H[j].ret < H[i].inv) first = 0;
		if (!first) continue;
		int l2 = lv; if (H[i].kind == 'm') { if (H[i].ok ? cap && lv >= cap : !cap || lv < cap) continue; if (H[i].ok) l2++; } else if (H[i].kind == 'f') l2--;
		if (lin(done | (1u << i), l2, cap)) return 1;
	}
	return 0;
}
static struct rseq_mempool *mkpool(size_t len, int policy, int robust, int poison, unsigned long maxr, size_t stride)
{
	struct rseq_mempool_attr *a = rseq_mempool_attr_create(); rseq_mempool_attr_set_percpu(a, stride, NC);
	rseq_mempool_attr_set_populate_policy(a, policy ? RSEQ_MEMPOOL_POPULATE_COW_ZERO : RSEQ_MEMPOOL_POPULATE_COW_INIT);
	if (robust) rseq_mempool_attr_set_robust(a); if (poison) rseq_mempool_attr_set_poison(a, 0x3131313131313131UL); if (maxr) rseq_mempool_attr_set_max_nr_ranges(a, maxr);
	struct rseq_mempool *p = rseq_mempool_create("conc", len, a); rseq_mempool_attr_destroy(a); return p;
}
static size_t range_bytes; static int peak(void)
{
	int best = 0;	/* most items that can have been live at once: from the start of the allocation to the end of the free */
	for (int i = 0; i < nh; i++) { int n = c->pre; for (int j = 0; j < nh; j++) { if (H[j].kind == 'm' && H[j].ok && H[j].inv <= H[i].inv) n++; if (H[j].kind == 'f' && H[j].ret <= H[i].inv) n--; } if (n > best) best = n; }
	return best > c->pre + c->prefree ? best : c->pre + c->prefree;
}
static void run_pool(void)
{
	pool = mkpool(c->policy == 2 ? ILEN : ILEN, c->policy, c->robust, c->poison, c->maxr, STRIDE); if (!pool) { fail_("creating the pool failed"); return; }
	range_bytes = map_bytes; neigh = NULL; cow_done = 0; cw.on = 0; ncw = 0;
	int total = c->pre + c->prefree; char *tmp[8];
	for (int i = 0; i < total; i++) { tmp[i] = (char *) rseq_mempool_percpu_malloc(pool); if (!tmp[i]) { fail_("allocation %d failed", i); return; } }
	npre_items = 0;
	for (int i = 0; i < total; i++) if (i < c->prefree) { if (c->prog[0][0] != 'w' && c->prog[0][0] != 'c') for (int x = 0; x < NC; x++) memset(tmp[i] + x * STRIDE, 0xee, ILEN); rseq_mempool_percpu_free(tmp[i], STRIDE); }
		else { int k = npre_items; if (strpbrk(c->prog[0], "wc") && !k) { neigh = tmp[i]; pre[npre_items++] = NULL; live_add(tmp[i]); for (int x = 0; x < NC; x++) (void) *(volatile char *) (tmp[i] + x * STRIDE); continue; } pre[npre_items++] = tmp[i]; live_add(tmp[i]); for (int x = 0; x < NC; x++) memset(tmp[i] + x * STRIDE, pt(1 + k, x), ILEN); }
	int lv0 = c->pre; nh = 0; clk = 0;
	run_controlled(c->nt, worker);
	if (v_set) return;
	int cap = (int) (c->maxr * (STRIDE / ILEN));
	if (!lin(0, lv0, cap)) { fail_("no sequential order of the calls explains their results"); return; }
	int lv = lv0; for (int i = 0; i < nh; i++) lv += H[i].kind == 'm' ? H[i].ok : H[i].kind == 'f' ? -1 : 0;
	size_t want = (peak() + STRIDE / ILEN - 1) / (STRIDE / ILEN); if (want < 1) want = 1;
	if (map_bytes > want * range_bytes) { fail_("%zu ranges of memory in use, %zu suffice for any order", map_bytes / range_bytes, want); return; }
	/* what is left must still be there: exactly the remaining capacity, all distinct */
	int room = cap ? cap - lv : (int) (map_bytes / range_bytes * (STRIDE / ILEN)) - lv, got = 0; size_t mb = map_bytes;
	for (int i = 0; i < room; i++) { char *a = (char *) rseq_mempool_percpu_malloc(pool); if (!a) { fail_("only %d of %d further items can be allocated: an item is lost", i, room); return; } got++; live_add(a); if (v_set) return; if (!cap && map_bytes != mb) { fail_("memory grew although %d freed items are available: an item is lost", room - i); return; } }
	if (cap && rseq_mempool_percpu_malloc(pool)) { fail_("more items than the capacity after the concurrent part"); return; }
	for (int i = 0; i < nlive; i++) for (int x = 0; x < NC; x++) if (got && i >= nlive - got) memset(live[i] + x * STRIDE, 0x44, ILEN);
	while (nlive) rseq_mempool_percpu_free(live[--nlive], STRIDE);
	if (rseq_mempool_destroy(pool)) fail_("destroying the pool failed");
	else if (map_bytes || nheap) fail_("resources left behind (%zu bytes mapped, %zu heap blocks)", map_bytes, nheap);
}
/* which pool of the set an address belongs to: pools have distinct, single ranges created in order */
static char *sbase[3]; static size_t sspan;
static int owner_of(char *a) { for (int i = 0; i < 3; i++) if (a >= sbase[i] && a < sbase[i] + sspan) return i; return -1; }
static void run_set(void)
{
	/* pools 0 and 1: items of 2048 bytes (so only one of them can be in the set), pool 2: 4096; one range each */
	static const size_t len[3] = { 2048, 2048, 4096 }; set = rseq_mempool_set_create(); sspan = 64 << 10;
	for (int i = 0; i < 3; i++) { sbase[i] = arena_map; spool[i] = mkpool(len[i], c->policy, c->robust, 0, 1, 4096); sown[i] = 0; if (!spool[i]) { fail_("creating a pool failed"); return; } arena_map = sbase[i] + sspan; }
	int has[3] = { c->set & 1, 0, !!(c->set & 2) };
	for (int i = 0; i < 3; i++) if (has[i]) { if (rseq_mempool_set_add_pool(set, spool[i])) { fail_("add_pool failed"); return; } sown[i] = 1; }
	int used[3] = { 0, 0, 0 };
	for (int i = 0; i < c->pre; i++) { char *a = (char *) rseq_mempool_set_percpu_malloc(set, 1500); if (!a) { fail_("set allocation failed"); return; } live_add(a); used[owner_of(a)]++; }
	nh = 0; clk = 0;
	run_controlled(c->nt, worker); if (v_set) return;
	/* additions: at most one pool per size, refused only if the other one was or may have been there before */
	if (sown[0] && sown[1]) { fail_("two pools of the same size were added"); return; }
	for (int i = 0; i < nh; i++) if (H[i].kind == 'a' && !H[i].ok) {
		int sib = H[i].idx == 2 ? 2 : !H[i].idx, may = has[H[i].idx] || has[sib]; for (int j = 0; j < nh; j++) if (j != i && H[j].kind == 'a' && H[j].ok && (H[j].idx == sib || H[j].idx == H[i].idx) && H[j].inv < H[i].ret) may = 1;
		if (!may) { fail_("adding a pool was refused although the set had none of its size"); return; }
	}
	static const int cap[3] = { 2, 2, 1 };
	for (int i = 0; i < nh; i++) if (H[i].kind == 's') {
		int ow = H[i].a ? owner_of(H[i].a) : -1;
		if (H[i].a && (ow < 0 || !sown[ow] || (H[i].order && ow != 2))) { fail_("a set allocation came from pool %d", ow); return; }
		for (int p = 0; p < 3; p++) {	/* every smaller fitting pool must have been absent or full at some moment of the call */
			if (p == ow || (H[i].order && p != 2) || (ow >= 0 && len[p] >= len[ow])) continue;
			int there = has[p]; for (int j = 0; j < nh; j++) if (H[j].kind == 'a' && H[j].ok && H[j].idx == p && H[j].ret < H[i].inv) there = 1;
			int mx = used[p]; for (int j = 0; j < nh; j++) if (j != i && H[j].kind == 's' && H[j].a && owner_of(H[j].a) == p && H[j].inv < H[i].ret) mx++;
			if (there && mx < cap[p]) { fail_("a set allocation passed over pool %d, which had room during the whole call", p); return; }
		}
	}
	for (int p = 0; p < 3; p++) { int n = 0; for (int i = 0; i < nlive; i++) n += owner_of(live[i]) == p; if (n > cap[p]) { fail_("pool %d handed out more items than it has", p); return; } }
	while (nlive) { rseq_mempool_percpu_free(live[--nlive], STRIDE); }
	if (rseq_mempool_set_destroy(set)) { fail_("destroying the set failed"); return; }
	for (int i = 0; i < 3; i++) if (!sown[i] && rseq_mempool_destroy(spool[i])) fail_("destroying a pool failed");
	if (map_bytes || nheap) fail_("resources left behind (%zu bytes mapped, %zu heap blocks)", map_bytes, nheap);
}
static void one(void)
{
	arena_reset(); nlk = 0; nlive = 0; v_set = 0; tlen = 0; trace[0] = 0; pos = 0;
	main_armed = 1; if (!sigsetjmp(main_jmp, 1)) { if (c->set >= 0) run_set(); else run_pool(); } main_armed = 0; controlled = 0;
}
static void addc(int pol, int rob, int poi, unsigned long mr, int pre_, int prefree, int setf, int nt, const char *a, const char *b, const char *d)
{
	if (ncf == 6000) { printf("{\"error\": \"too many scenarios\"}\n"); _exit(2); }
	C[ncf++] = (struct cfg) { pol, rob, poi, mr, pre_, prefree, { a, b, d }, nt, setf };
}
int main(int argc, char **argv)
{
	const char *what = "pool"; int lo = 0; (void) lo; sched_init(argc, argv);
	for (int i = 1; i < argc; i++) if (!strncmp(argv[i], "what=", 5)) what = argv[i] + 5;
	for (size_t k = 0; k < ILEN; k++) initv[k] = (uint8_t) (k * 5 + 3);
	acc_hook = on_acc;
	static const char *const w1[] = { "m", "z", "mf", "F", "Fm", "mm", "Fz", "FF", "mfm", "FmF", "mmm", "Fmf", "FFm", "zfm", "mmff" };
	int nw = thorough ? 15 : 10;
	if (!strcmp(what, "pool")) {
		for (int pol = 0; pol < 2; pol++) for (int rob = 0; rob < 2; rob++) for (unsigned long mr = 1; mr <= 3; mr++) for (int st = 0; st < 5; st++) for (int x = 0; x < nw; x++) for (int y = x; y < nw; y++) {
			static const int S[5][2] = { { 0, 0 }, { 1, 0 }, { 2, 0 }, { 1, 1 }, { 2, 2 } };	/* live before, free-listed before */
			unsigned long m = mr == 3 ? 0 : mr; if (m && S[st][0] + S[st][1] > (int) m * 2) continue;
			if (!S[st][0] && (strchr(w1[x], 'F') || strchr(w1[y], 'F'))) continue;
			addc(pol, rob, !rob && (x & 1), m, S[st][0], S[st][1], -1, 2, w1[x], w1[y], NULL);
		}
		int n3 = thorough ? 7 : 4;
		for (int pol = 0; pol < 2; pol++) for (int rob = 0; rob < 2; rob++) for (unsigned long mr = 1; mr <= 2; mr++) for (int st = 0; st < 3; st++) for (int x = 0; x < n3; x++) for (int y = x; y < n3; y++) for (int z = y; z < n3; z++) {
			static const int S[3][2] = { { 0, 1 }, { 2, 0 }, { 1, 1 } };
			if (!S[st][0] && (strchr(w1[x], 'F') || strchr(w1[y], 'F') || strchr(w1[z], 'F'))) continue;
			addc(pol, rob, !rob && (x & 1), mr, S[st][0], S[st][1], -1, 3, w1[x], w1[y], w1[z]);
		}
	} else if (!strcmp(what, "set")) {
		static const char *const ws[] = { "s", "ss", "S", "a", "b", "d", "as", "bs", "sd" };
		for (int pol = 0; pol < 2; pol++) for (int sf = 0; sf < 4; sf++) for (int p = 0; p <= 2; p++) for (int x = 0; x < 9; x++) for (int y = x; y < 9; y++) {
			if (p && !(sf & 1) && !(sf & 2 && p == 1)) continue; 
			if ((sf & 1) && (strchr(ws[x], 'a') || strchr(ws[y], 'a'))) continue; if ((sf & 2) && (strchr(ws[x], 'd') || strchr(ws[y], 'd'))) continue;
			if (strchr(ws[x], 'a') && strchr(ws[y], 'a')) continue; if (strchr(ws[x], 'b') && strchr(ws[y], 'b')) continue; if (strchr(ws[x], 'd') && strchr(ws[y], 'd')) continue;
			addc(pol, 1, 0, 0, p, 0, sf, 2, ws[x], ws[y], NULL);
		}
		addc(0, 1, 0, 0, 0, 0, 0, 3, "a", "b", "s"); addc(0, 1, 0, 0, 2, 0, 1, 3, "s", "d", "s"); addc(0, 1, 0, 0, 1, 0, 3, 3, "s", "s", "s");
		if (thorough) { addc(0, 1, 0, 0, 0, 0, 2, 3, "as", "b", "s"); addc(1, 1, 0, 0, 1, 0, 1, 3, "sd", "s", "S"); addc(0, 1, 0, 0, 0, 0, 1, 3, "ss", "s", "ds"); }
	} else {	/* initialising allocations against neighbour writers (init) and split page copies (cow) */
		mode_cow = !strcmp(what, "cow"); alias_pages = 1; const char *nb = mode_cow ? "c" : "w", *nb2 = mode_cow ? "c" : "wF";
		static const char *const al[] = { "z", "i", "h", "zf", "if", "zz", "Fz", "Fi" };
		for (int pol = 0; pol < (mode_cow ? 1 : 2); pol++) for (int rob = 0; rob < 2; rob++) for (int poi = 0; poi < 2; poi++) for (int pf = 0; pf < 2; pf++) for (int x = 0; x < 8; x++) {
			addc(pol, rob, poi, 2, 1 + !!strchr(al[x], 'F'), pf, -1, 2, nb, al[x], NULL);
			if (!mode_cow) { addc(pol, rob, poi, 2, 3, pf, -1, 2, nb2, al[x], NULL); addc(pol, rob, poi, 2, 2, pf, -1, 3, nb, al[x], "mf"); }
		}
	}
	if (list_only) { printf("%d\n", ncf); return 0; }
	for (int i = 0; i < ncf; i++) {
		if (only >= 0 ? i != only : i % nshard != shard) continue;
		static char nm[300]; c = &C[i];
		snprintf(nm, sizeof(nm), "%s %s%s%s max_ranges=%lu live=%d freed=%d set=%d threads %s | %s%s%s", what, c->policy ? "COW_ZERO" : "COW_INIT", c->robust ? " robust" : "", c->poison ? " poison" : "", c->maxr, c->pre, c->prefree, c->set, c->prog[0], c->prog[1], c->nt > 2 ? " | " : "", c->nt > 2 ? c->prog[2] : ""); cur_name = nm;
		n_scen++; shared_reset();
		uint64_t s0 = n_schedules;
		if (explore(one)) return report();
		if (getenv("M_VERBOSE")) printf("%lu schedules: %s\n", n_schedules - s0, nm);
		if (!sample[0]) snprintf(sample, sizeof(sample), "%s\n%s", nm, trace);
	}
	workers_end();
	printf("{\"scenarios\": %lu, \"schedules\": %lu, \"points\": %lu, \"switches\": %lu, \"ops\": %lu, \"searches\": %lu, \"reduced\": %lu, \"cut\": %lu, \"known\": %lu, \"known_msg\": ", n_scen, n_schedules, n_points, n_switches, n_ops, n_restarts, n_reduced, n_cut, n_known); json_str(stdout, known_msg); printf(", \"sample\": "); json_str(stdout, sample); printf("}\n");
	return 0;
}
