/*
 * Controlled scheduler: librseq is compiled with thread-sanitizer instrumentation but linked with the callbacks below,
 * so that every access to shared memory and every lock operation is a scheduling point.  One thread runs at a time;
 * all schedules within a preemption bound are enumerated by stateless depth-first search.  Scheduling points are
 * restricted to lock operations and to locations which some explored schedule accesses from two threads, at least one
 * writing, without an order between them that comes from locks; when a new such location appears the search starts
 * over, so the restriction loses no behaviour (accesses ordered by locks in every schedule cannot be told apart).
 */
#ifndef SCHED_H
#define SCHED_H
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#include <errno.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sched.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <linux/futex.h>

#define MAXT 4
static int nthr, preemption_bound = 2, shard, nshard = 1, only = -1, list_only, thorough;
static volatile int controlled;		/* scheduling points are active */
static volatile int cur;		/* running worker, -1: main */
static __thread int self = -1;
struct worker { pthread_t t; int fut; int done, blocked_on_set; void *blocked_on; sigjmp_buf jmp; uintptr_t stk_lo, stk_hi; int errno_; void (*fn)(int); int alive, quit; char *alt; };
static struct worker W[MAXT]; static int main_fut;
static int npre_used; static volatile int stopping; static uint64_t run_points, burst;

/* ---- results ---- */
static const char *rp_path = "/tmp/replay.txt"; static int g_argc; static char **g_argv;
static char v_msg[1200]; static int v_set;
static void fail_(const char *fmt, ...) { va_list ap; if (v_set) return; v_set = 1; va_start(ap, fmt); vsnprintf(v_msg, sizeof(v_msg), fmt, ap); va_end(ap); }
static void json_str(FILE *f, const char *s) { fputc('"', f); for (; *s; s++) { if (*s == '"' || *s == '\\') fputc('\\', f); if (*s == '\n') fputs("\\n", f); else if ((unsigned char) *s >= 32) fputc(*s, f); } fputc('"', f); }
static char trace[16384]; static int tlen;
static void tr(const char *fmt, ...) { va_list ap; if (tlen > (int) sizeof(trace) - 300) return; va_start(ap, fmt); tlen += vsnprintf(trace + tlen, sizeof(trace) - tlen, fmt, ap); va_end(ap); }
static uint64_t n_schedules, n_points, n_switches, n_scen, n_restarts, n_ops; static char sample[4096]; static const char *cur_name = "";

/* ---- depth-first search ---- */
static short path[8192], nalt[8192]; static int plen, pos;
static int choose(int n)
{
	if (pos == plen) { if (plen == 8192) { printf("{\"error\": \"path too long\"}\n"); (fflush(stdout), _exit(2)); } path[plen] = 0; nalt[plen] = n; plen++; }
	if (nalt[pos] != n) { printf("{\"error\": \"nondeterministic exploration in %s\"}\n", cur_name); (fflush(stdout), _exit(2)); }
	return path[pos++];
}
static int backtrack(void) { while (plen > 0 && path[plen - 1] + 1 >= nalt[plen - 1]) plen--; if (!plen) return 0; path[plen - 1]++; return 1; }

/* ---- which locations are raced for: vector clocks along lock operations find accesses that are not ordered ---- */
#define ARENA ((char *) 0x100000000000UL)
#define ARENA_LEN (64UL << 20)
struct gr { uint32_t run, epoch; uint32_t wc, rc[MAXT]; uint8_t wt, racy; };
static struct gr ga[ARENA_LEN / 8]; static int sh_grew; static uint32_t g_run, g_epoch; static uint64_t n_racy;
#define GH 65536
static uintptr_t gh_key[GH]; static struct gr gh[GH];
static uint32_t VC[MAXT][MAXT];
static int alias_pages;	/* pages are copies of each other (copy-on-write): same offset, same location */
static struct gr *gr_of(uintptr_t g)
{
	char *a = (char *) (g << 3);
	if (a >= ARENA && a < ARENA + ARENA_LEN) { size_t i = (a - ARENA) >> 3; if (alias_pages && i < (ARENA_LEN - (8UL << 20)) >> 3) i &= 511; return &ga[i]; }
	size_t h = (g * 0x9e3779b97f4a7c15UL) >> 48; while (gh_key[h] && gh_key[h] != g) h = (h + 1) & (GH - 1); gh_key[h] = g; return &gh[h];
}
static int shared_mark(uintptr_t g, int wr, int atomic)
{
	struct gr *x = gr_of(g);
	if (x->epoch != g_epoch) { x->epoch = g_epoch; x->racy = 0; x->run = 0; }
	if (x->run != g_run) { x->run = g_run; x->wc = 0; memset(x->rc, 0, sizeof(x->rc)); }
	if (!x->racy) {
		int race = x->wc && x->wt != self && x->wc > VC[self][x->wt];
		if (wr) for (int t = 0; t < nthr; t++) if (t != self && x->rc[t] > VC[self][t]) race = 1;
		if (race) { x->racy = 1; sh_grew = 1; n_racy++; }
	}
	(void) atomic;
	if (wr) { x->wt = self; x->wc = VC[self][self]; } else x->rc[self] = VC[self][self];
	return x->racy;
}
static void vc_start(void) { g_run++; memset(VC, 0, sizeof(VC)); for (int t = 0; t < MAXT; t++) VC[t][t] = 1; }
static void shared_reset(void) { g_epoch++; }
static uintptr_t sweep_lo, sweep_hi; static const void *sweep_pc; static int sweep_n, sweep_t = -1;
static time_t t_start; static long budget = 1L << 40, hard = 1L << 40, soft_end; static uint64_t n_reduced, n_cut;

/* ---- switching ---- */
static void fwait(int *f) { while (!__atomic_load_n(f, __ATOMIC_ACQUIRE)) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0); __atomic_store_n(f, 0, __ATOMIC_RELEASE); }
static void fwake(int *f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0); }
static int lock_held(void *m, int rd);
static int runnable(int t) { return !W[t].done && !(W[t].blocked_on && lock_held(W[t].blocked_on, W[t].blocked_on_set)); }
static void switch_to(int t)
{
	int me = self, fin = me >= 0 && W[me].done; if (t == me) return;
	n_switches++; cur = t; if (me >= 0) W[me].errno_ = errno;
	fwake(t < 0 ? &main_fut : &W[t].fut);
	if (fin) return;	/* the worker's loop waits for the next run */
	fwait(me < 0 ? &main_fut : &W[me].fut);
	if (me >= 0) errno = W[me].errno_;
	if (me >= 0 && stopping) siglongjmp(W[me].jmp, 9);
}
/* Spinning: a thread that comes back to one of its last few accesses to racing memory while nobody has changed any memory. */
static uint32_t wgen; static int spin_n[MAXT]; static struct { const void *pc; uintptr_t g; } spin_at[MAXT][4]; static uint32_t spin_gen[MAXT]; static int spin_k[MAXT];
static void spin_see(const void *pc, uintptr_t g)
{
	if (spin_gen[self] != wgen) { spin_gen[self] = wgen; memset(spin_at[self], 0, sizeof(spin_at[self])); spin_n[self] = 0; }
	for (int i = 0; i < 4; i++) if (spin_at[self][i].pc == pc && spin_at[self][i].g == g) { spin_n[self]++; return; }
	spin_n[self] = 0; int i = spin_k[self]++ & 3; spin_at[self][i].pc = pc; spin_at[self][i].g = g;
}
/* Atomic stores publish what their thread has done before, atomic loads receive it. */
#define NAC 256
static struct { uintptr_t a; uint32_t run, vc[MAXT]; } AC[NAC];
static void at_sync(uintptr_t a, int rel)
{
	if (!controlled || self < 0 || self != cur) return;
	int i = (a * 0x9e3779b97f4a7c15UL) >> 56, n = 0; while (AC[i].run == g_run && AC[i].a != a && n++ < NAC) i = (i + 1) % NAC;
	if (n >= NAC) return;
	if (AC[i].run != g_run) { AC[i].a = a; AC[i].run = g_run; memset(AC[i].vc, 0, sizeof(AC[i].vc)); }
	if (rel) { for (int t = 0; t < MAXT; t++) if (VC[self][t] > AC[i].vc[t]) AC[i].vc[t] = VC[self][t]; VC[self][self]++; }
	else for (int t = 0; t < MAXT; t++) if (AC[i].vc[t] > VC[self][t]) VC[self][t] = AC[i].vc[t];
}
/* Picks the next thread; the current one is a candidate unless it is finished or blocked. */
static void schedule(int can_stay)
{
	int opt[MAXT], n = 0, give = can_stay && (burst > 3000 || spin_n[self] > 20);	/* a thread that spins gives way, for free, to each of the others in turn */
	if (give) { for (int i = 1; i < nthr; i++) { int t = (self + i) % nthr; if (runnable(t)) { burst = 0; spin_n[self] = 10; switch_to(t); break; } } return; }
	if (can_stay && spin_n[self] > 2) return;	/* nothing has changed since it last looked: switching here is switching there */
	if (can_stay) opt[n++] = self;
	if (!can_stay || npre_used < preemption_bound) for (int t = 0; t < nthr; t++) if (t != self && runnable(t)) opt[n++] = t;
	if (!n) {
		int left = 0; for (int t = 0; t < nthr; t++) if (!W[t].done) left++;
		if (left) { fail_("deadlock: %d threads wait for locks that nobody releases", left); stopping = 1; for (int t = 0; t < nthr; t++) if (!W[t].done) { if (t == self) siglongjmp(W[t].jmp, 9); switch_to(t); return; } }
		switch_to(-1); return;
	}
	int k = n > 1 ? choose(n) : 0;
	if (can_stay && k) npre_used++;
	if (opt[k] != self) { burst = 0; switch_to(opt[k]); }
}
static void point(void)
{
	run_points++; n_points++; burst++;
	if (stopping) siglongjmp(W[self].jmp, 9);
	if (run_points > 300000) { fail_("the operations do not terminate"); stopping = 1; siglongjmp(W[self].jmp, 9); }
	schedule(1);
}
static inline int on_stack(const void *p) { return (uintptr_t) p >= W[self].stk_lo && (uintptr_t) p < W[self].stk_hi; }
static void (*acc_hook)(char *a, size_t len, int wr);
static void acc_pc(const void *p, size_t len, int wr, const void *pc, int at)
{
	if (!controlled || self < 0 || self != cur) return;
	if (on_stack(p) || !len) return;
	int is = 0; uintptr_t g0 = (uintptr_t) p >> 3, g1 = ((uintptr_t) p + len - 1) >> 3;
	for (uintptr_t g = g0; g <= g1; g++) is |= shared_mark(g, wr, 0);
	if (wr && !at) wgen++;
	if (is) {	/* one instruction sweeping over contiguous memory is interrupted near the start and every 1024 bytes */
		if (!wr || at) spin_see(pc, g0); else spin_n[self] = 0;
		int same = sweep_t == self && sweep_pc == pc;
		if (same && (g0 == sweep_hi + 1 || g1 + 1 == sweep_lo)) sweep_n++; else if (!(same && g0 == sweep_lo && sweep_n)) sweep_n = 0;
		sweep_t = self; sweep_lo = g0; sweep_hi = g1; sweep_pc = pc;
		if (sweep_n < 2 || !(sweep_n & 127)) point();
	}
	if (acc_hook) acc_hook((char *) p, len, wr);
}
#define acc(p, len, wr) acc_pc(p, len, wr, __builtin_return_address(0), 0)
#define acc_at(p, len, wr) acc_pc(p, len, wr, __builtin_return_address(0), 1)
#define AQ(a) at_sync((uintptr_t) (a), 0)
#define RL(a, o, n) do { if ((o) != (n)) { wgen++; spin_n[self < 0 ? 0 : self] = 0; } at_sync((uintptr_t) (a), 1); } while (0)
/* ---- instrumentation callbacks ---- */
void __tsan_init(void) {} void __tsan_func_entry(void *p) { (void) p; } void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void *p) { acc(p, n, 0); } void __tsan_write##n(void *p) { acc(p, n, 1); } void __tsan_unaligned_read##n(void *p) { acc(p, n, 0); } void __tsan_unaligned_write##n(void *p) { acc(p, n, 1); } \
	void __tsan_volatile_read##n(void *p) { acc(p, n, 0); } void __tsan_volatile_write##n(void *p) { acc(p, n, 1); } void __tsan_read_write##n(void *p) { acc(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { acc(p, n, 0); } void __tsan_write_range(void *p, size_t n) { acc(p, n, 1); }
void __tsan_vptr_update(void *a, void *b) { (void) b; acc(a, 8, 1); } void __tsan_vptr_read(void *a) { acc(a, 8, 0); }
#define AT(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T *a, int mo) { (void) mo; acc_at((void *) a, sizeof(T), 0); if (mo) AQ(a); return *a; } \
	void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { (void) mo; acc_at((void *) a, sizeof(T), 1); T o = *a; *a = v; if (mo) RL(a, o, v); else if (o != v) wgen++; } \
	T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { (void) mo; acc_at((void *) a, sizeof(T), 1); T o = *a; *a = v; if (mo) AQ(a); RL(a, o, v); return o; } \
	T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { (void) mo; acc_at((void *) a, sizeof(T), 1); T o = *a; *a = o + v; if (mo) AQ(a); RL(a, o, *a); return o; } \
	T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { (void) mo; acc_at((void *) a, sizeof(T), 1); T o = *a; *a = o - v; if (mo) AQ(a); RL(a, o, *a); return o; } \
	T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { (void) mo; acc_at((void *) a, sizeof(T), 1); T o = *a; *a = o & v; if (mo) AQ(a); RL(a, o, *a); return o; } \
	T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { (void) mo; acc_at((void *) a, sizeof(T), 1); T o = *a; *a = o | v; if (mo) AQ(a); RL(a, o, *a); return o; } \
	T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { (void) mo; acc_at((void *) a, sizeof(T), 1); T o = *a; *a = o ^ v; if (mo) AQ(a); RL(a, o, *a); return o; } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int f) { (void) f; acc_at((void *) a, sizeof(T), 1); T o = *a; if (mo) AQ(a); if (o == *e) { *a = v; RL(a, o, v); return 1; } *e = o; return 0; } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int f) { (void) f; acc_at((void *) a, sizeof(T), 1); T o = *a; if (mo) AQ(a); if (o == *e) { *a = v; RL(a, o, v); return 1; } *e = o; return 0; } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v, int mo, int f) { (void) mo; (void) f; acc_at((void *) a, sizeof(T), 1); T o = *a; if (mo) AQ(a); if (o == e) { *a = v; RL(a, o, v); } return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void) mo; } void __tsan_atomic_signal_fence(int mo) { (void) mo; }
void *h_memcpy(void *d, const void *s, size_t n) { acc(s, n, 0); acc(d, n / 2, 1); memcpy(d, s, n / 2); acc((char *) d + n / 2, n - n / 2, 1); memcpy((char *) d + n / 2, (const char *) s + n / 2, n - n / 2); return d; }
void *h_memmove(void *d, const void *s, size_t n) { acc(s, n, 0); acc(d, n, 1); return memmove(d, s, n); }
void *h_memset(void *d, int c, size_t n) { acc(d, n / 2, 1); memset(d, c, n / 2); acc((char *) d + n / 2, n - n / 2, 1); memset((char *) d + n / 2, c, n - n / 2); return d; }
void h_bzero(void *d, size_t n) { h_memset(d, 0, n); }
void h_explicit_bzero(void *d, size_t n) { h_memset(d, 0, n); }
void *h_mempcpy(void *d, const void *s, size_t n) { return (char *) h_memcpy(d, s, n) + n; }
int h_bcmp(const void *a, const void *b, size_t n);
int h_bcmp(const void *a, const void *b, size_t n) { acc(a, n, 0); acc(b, n, 0); return memcmp(a, b, n); }
int h_memcmp(const void *a, const void *b, size_t n) { acc(a, n, 0); acc(b, n, 0); return memcmp(a, b, n); }

/* ---- locks ---- */
struct lk { void *m; int owner; unsigned readers; uint32_t vc[MAXT], rvc[MAXT]; };	/* rvc: what readers did, ordered before the next writer only */ static struct lk LK[64]; static int nlk;
static struct lk *lk_of(void *m) { for (int i = 0; i < nlk; i++) if (LK[i].m == m) return &LK[i]; if (nlk == 64) { printf("{\"error\": \"too many locks\"}\n"); (fflush(stdout), _exit(2)); } LK[nlk].m = m; LK[nlk].owner = -1; LK[nlk].readers = 0; memset(LK[nlk].vc, 0, sizeof(LK[nlk].vc)); memset(LK[nlk].rvc, 0, sizeof(LK[nlk].rvc)); return &LK[nlk++]; }
static int lock_held(void *m, int rd) { struct lk *l = lk_of(m); return l->owner >= 0 || (!rd && l->readers); }
static int lk_acquire_(void *m, int try, int rd)
{
	if (!controlled || self < 0) { struct lk *l = lk_of(m); if (l->owner >= 0 || l->readers) { fail_("a lock is still held after the operations"); } return 0; }
	point();
	for (;;) {
		struct lk *l = lk_of(m);
		if (!lock_held(m, rd)) {
			if (rd) l->readers |= 1u << self; else l->owner = self;
			for (int t = 0; t < MAXT; t++) { if (l->vc[t] > VC[self][t]) VC[self][t] = l->vc[t]; if (!rd && l->rvc[t] > VC[self][t]) VC[self][t] = l->rvc[t]; }
			return 0;
		}
		if (try) return EBUSY;
		W[self].blocked_on = m; W[self].blocked_on_set = rd; schedule(0); W[self].blocked_on = NULL;
		if (stopping) siglongjmp(W[self].jmp, 9);
	}
}
static int lk_acquire(void *m, int try) { return lk_acquire_(m, try, 0); }
static int lk_release(void *m)
{
	if (!controlled || self < 0) return 0;
	point(); struct lk *l = lk_of(m); int rd = l->owner != self && (l->readers >> self & 1);
	if (l->owner != self && !rd) fail_("a lock is released by a thread that does not hold it");
	uint32_t *vc = rd ? l->rvc : l->vc; for (int t = 0; t < MAXT; t++) if (VC[self][t] > vc[t]) vc[t] = VC[self][t];
	VC[self][self]++; if (rd) l->readers &= ~(1u << self); else l->owner = -1; return 0;
}
int h_pthread_mutex_init(pthread_mutex_t *m, const void *a) { (void) a; lk_of(m)->owner = -1; return 0; }
int h_pthread_mutex_destroy(pthread_mutex_t *m) { for (int i = 0; i < nlk; i++) if (LK[i].m == m) { LK[i] = LK[--nlk]; break; } return 0; }
int h_pthread_mutex_lock(pthread_mutex_t *m) { return lk_acquire(m, 0); }
int h_pthread_mutex_trylock(pthread_mutex_t *m) { return lk_acquire(m, 1); }
int h_pthread_mutex_unlock(pthread_mutex_t *m) { return lk_release(m); }
int h_pthread_spin_init(void *m, int a) { (void) a; lk_of(m)->owner = -1; return 0; } int h_pthread_spin_destroy(void *m) { return h_pthread_mutex_destroy(m); }
int h_pthread_spin_lock(void *m) { return lk_acquire(m, 0); } int h_pthread_spin_trylock(void *m) { return lk_acquire(m, 1); } int h_pthread_spin_unlock(void *m) { return lk_release(m); }
int h_pthread_rwlock_init(void *m, const void *a) { (void) a; lk_of(m)->owner = -1; return 0; } int h_pthread_rwlock_destroy(void *m) { return h_pthread_mutex_destroy(m); }
int h_pthread_rwlock_rdlock(void *m) { return lk_acquire_(m, 0, 1); } int h_pthread_rwlock_tryrdlock(void *m) { return lk_acquire_(m, 1, 1); } int h_pthread_rwlock_trywrlock(void *m) { return lk_acquire(m, 1); } int h_pthread_rwlock_wrlock(void *m) { return lk_acquire(m, 0); } int h_pthread_rwlock_unlock(void *m) { return lk_release(m); }
int h_pthread_once(pthread_once_t *o, void (*f)(void)) { lk_acquire(o, 0); acc(o, 4, 1); int run = !*(int *) o; if (run) { f(); *(int *) o = 1; } lk_release(o); return 0; }
int h_sched_yield(void) { if (controlled && self >= 0) { burst = 100000; point(); } return 0; }

/* ---- memory: everything lives in an arena whose addresses repeat from run to run ---- */
static char *arena_map, *arena_heap; static int nmap_live; static size_t map_bytes, nheap; static int faulty;
#define HEAP_BASE (ARENA + ARENA_LEN - (8UL << 20))
static void arena_reset(void)
{
	static int init; static char *hi;
	if (!init) { if (mmap(ARENA, ARENA_LEN, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != ARENA) { printf("{\"error\": \"arena\"}\n"); (fflush(stdout), _exit(2)); }
		if (mmap(HEAP_BASE, 8UL << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) != HEAP_BASE) (fflush(stdout), _exit(2)); init = 1; arena_map = ARENA; }
	if (map_bytes && arena_map > ARENA) mmap(ARENA, arena_map - ARENA, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
	(void) hi; arena_map = ARENA; arena_heap = HEAP_BASE; map_bytes = 0; nheap = 0;
}
void *h_mmap(void *a, size_t len, int prot, int fl, int fd, off_t off)
{
	if (controlled && self >= 0) point();
	if (!(fl & MAP_FIXED)) { a = arena_map; if (arena_map + len + 65536 > HEAP_BASE) { errno = ENOMEM; return MAP_FAILED; } arena_map += (len + 4095 + 4096) & ~4095UL; fl |= MAP_FIXED; map_bytes += len; }
	else if ((char *) a < ARENA || (char *) a + len > arena_map) { fail_("the library mapped over memory it does not own"); errno = ENOMEM; return MAP_FAILED; }
	return mmap(a, len, prot, fl, fd, off);
}
void *h_mmap64(void *a, size_t len, int prot, int fl, int fd, off_t off) { return h_mmap(a, len, prot, fl, fd, off); }
int h_munmap(void *a, size_t len)
{
	if (controlled && self >= 0) point();
	if ((char *) a < ARENA || (char *) a + len > arena_map) { fail_("the library unmapped memory it does not own"); errno = EINVAL; return -1; }
	map_bytes -= len; return mmap(a, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == a ? 0 : -1;
}
void *h_malloc(size_t n) { char *p = arena_heap; arena_heap += (n + 16 + 15) & ~15UL; *(size_t *) p = n; nheap++; return p + 16; }
void *h_calloc(size_t a, size_t b) { char *p = h_malloc(a * b); memset(p, 0, a * b); return p; }
void h_free(void *p) { if (p) { nheap--; memset(p, 0xdd, ((size_t *) p)[-2]); } }
void *h_realloc(void *o, size_t n) { char *p = h_malloc(n); if (o) { size_t l = ((size_t *) o)[-2]; memcpy(p, o, l < n ? l : n); h_free(o); } return p; }
char *h_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = h_malloc(n); memcpy(p, s, n); return p; }
char *h_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = h_malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
void *h_reallocarray(void *o, size_t a, size_t b) { return h_realloc(o, a * b); }
void *h_aligned_alloc(size_t al, size_t n) { char *p = arena_heap; size_t skip = 0; while (((uintptr_t) p + 16 + skip) & (al - 1)) skip += 16; arena_heap += skip; return h_malloc(n); }
int h_posix_memalign(void **q, size_t al, size_t n) { *q = h_aligned_alloc(al, n); return 0; }
int h_vasprintf(char **q, const char *f, va_list ap) { va_list a2; va_copy(a2, ap); int n = vsnprintf(NULL, 0, f, a2); va_end(a2); *q = h_malloc(n + 1); return vsnprintf(*q, n + 1, f, ap); }
int h_asprintf(char **q, const char *f, ...) { va_list ap; va_start(ap, f); int n = h_vasprintf(q, f, ap); va_end(ap); return n; }
__attribute__((noreturn)) void h_abort(void)
{
	if (self >= 0 && controlled) { fail_("the library aborted the process"); stopping = 1; siglongjmp(W[self].jmp, 9); }
	fail_("the library aborted the process"); extern sigjmp_buf main_jmp; siglongjmp(main_jmp, 1);
}
sigjmp_buf main_jmp; static volatile int main_armed;
__attribute__((noreturn)) void h_assert_fail(const char *e, const char *f, unsigned l, const char *fn) { (void) f; (void) l; (void) fn; fail_("the library aborted the process: assertion %s", e); h_abort(); }
static void on_crash(int sig, siginfo_t *si, void *u)
{
	(void) u; (void) si; char b[100]; snprintf(b, sizeof(b), "crash (signal %d)", sig);
	if (self >= 0 && controlled) { fail_("%s", b); stopping = 1; siglongjmp(W[self].jmp, 9); }
	if (main_armed) { fail_("%s", b); siglongjmp(main_jmp, 1); }
	signal(sig, SIG_DFL); raise(sig);
}
static void on_alarm(int s) { (void) s; printf("{\"violation\": \"%s: a call does not return\"}\n", cur_name); fflush(stdout); _exit(1); }
static void alt_stack(char **keep) { if (!*keep) *keep = mmap(NULL, 1 << 16, 3, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); stack_t ss = { .ss_sp = *keep, .ss_size = 1 << 16 }; sigaltstack(&ss, NULL); }
/* ---- workers ---- */
static int fresh_threads;
static void *worker_main(void *x)
{
	int me = (int) (long) x; pthread_attr_t at; void *lo; size_t sz;
	pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at); W[me].stk_lo = (uintptr_t) lo; W[me].stk_hi = (uintptr_t) lo + sz;
	alt_stack(&W[me].alt); self = me;
	for (;;) {
		fwait(&W[me].fut); if (W[me].quit) return NULL;
		if (!sigsetjmp(W[me].jmp, 1)) { if (!stopping) W[me].fn(me); }
		W[me].done = 1; W[me].blocked_on = NULL;
		if (fresh_threads) { /* keep the thread (and its thread-local memory) until the run has been judged */ }
		if (stopping) { int t; for (t = 0; t < nthr; t++) if (!W[t].done) break; switch_to(t < nthr ? t : -1); }
		else schedule(0);
	}
}
static void workers_start(int n, void (*fn)(int))
{
	nthr = n;
	for (int t = 0; t < n; t++) {
		W[t].fn = fn; W[t].done = 0; W[t].blocked_on = NULL; W[t].quit = 0; W[t].errno_ = 0;
		if (!W[t].alive) { W[t].fut = 0; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 256 << 10); if (pthread_create(&W[t].t, &at, worker_main, (void *) (long) t)) { printf("{\"error\": \"pthread_create\"}\n"); (fflush(stdout), _exit(2)); } pthread_attr_destroy(&at); W[t].alive = 1; }
	}
}
static void workers_end(void) { for (int t = 0; t < MAXT; t++) if (W[t].alive) { W[t].quit = 1; fwake(&W[t].fut); pthread_join(W[t].t, NULL); W[t].alive = 0; } }
/* Runs the workers to completion under the current path. */
static void run_controlled(int n, void (*fn)(int))
{
	workers_start(n, fn); npre_used = 0; run_points = 0; burst = 0; stopping = 0; main_fut = 0; pos = 0; vc_start(); sweep_t = -1; memset(spin_n, 0, sizeof(spin_n)); memset(spin_at, 0, sizeof(spin_at)); memset(spin_k, 0, sizeof(spin_k));
	controlled = 1;
	int first = n > 1 ? choose(n) : 0;
	switch_to(first);	/* returns when all are done */
	controlled = 0; cur = -1; n_schedules++;
}
/* All schedules of one scenario (prepared and judged by fn) up to the bound; returns 1 on a violation.  A small bound
 * first; a scenario whose full bound takes too long keeps the smaller one and is counted as such. */
static int too_long(long b) { time_t n = time(NULL); return n - t_start > b && n > soft_end; }
static int explore(void (*fn)(void))
{
	int full = preemption_bound, b[3] = { full < 1 ? full : 1, full < 2 ? full : 2, full };
	for (int pass = 0; pass < 3; pass++) {
		if (pass && b[pass] == b[pass - 1]) continue;
		if (pass && (b[pass] > 2 ? time(NULL) - t_start > budget : too_long(hard))) { if (b[pass] > 2) n_reduced++; else n_cut++; break; }
		preemption_bound = b[pass]; int cut = 0;
		do {
			sh_grew = 0; plen = 0; n_restarts++;
			do { alarm(120); fn(); if (v_set) { preemption_bound = full; return 1; } if (!(n_schedules & 255) && too_long(hard)) { cut = 1; break; } } while (!sh_grew && backtrack());
		} while (sh_grew && !cut);
		if (cut) { n_cut++; break; }
	}
	preemption_bound = full; return 0;
}
static void sched_init(int argc, char **argv)
{
	g_argc = argc; g_argv = argv; cur = -1; t_start = time(NULL);
	for (int i = 1; i < argc; i++) {
		if (!strncmp(argv[i], "pb=", 3)) preemption_bound = atoi(argv[i] + 3); else if (!strncmp(argv[i], "shard=", 6)) sscanf(argv[i] + 6, "%d/%d", &shard, &nshard);
		else if (!strncmp(argv[i], "only=", 5)) only = atoi(argv[i] + 5); else if (!strncmp(argv[i], "out=", 4)) rp_path = argv[i] + 4;
		else if (!strncmp(argv[i], "budget=", 7)) budget = atol(argv[i] + 7); else if (!strncmp(argv[i], "hard=", 5)) hard = atol(argv[i] + 5); else if (!strncmp(argv[i], "soft=", 5)) soft_end = atol(argv[i] + 5);
		else if (!strcmp(argv[i], "thorough")) thorough = 1; else if (!strcmp(argv[i], "list")) list_only = 1;
	}
	if (!getenv("M_STDERR")) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); close(fd); }
	cpu_set_t s, mine; if (!sched_getaffinity(0, sizeof(s), &s)) { int want = shard % (CPU_COUNT(&s) ? CPU_COUNT(&s) : 1), k = 0; for (int c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &s) && k++ == want) { CPU_ZERO(&mine); CPU_SET(c, &mine); sched_setaffinity(0, sizeof(mine), &mine); } }
	static char *alt; alt_stack(&alt);
	struct sigaction sa = { .sa_sigaction = on_crash, .sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER }; sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGFPE, &sa, NULL); sigaction(SIGILL, &sa, NULL);
	struct sigaction sb = { .sa_handler = on_alarm }; sigaction(SIGALRM, &sb, NULL);
}
static int report(void)
{
	FILE *f = fopen(rp_path, "w"); if (f) { fprintf(f, "violation: %s: %s\n%s\n#choices", cur_name, v_msg, trace); for (int i = 0; i < plen; i++) fprintf(f, " %d", path[i]); fprintf(f, "\n#command"); for (int i = 0; i < g_argc; i++) fprintf(f, " %s", g_argv[i]); fprintf(f, "\n"); fclose(f); }
	char b[1600]; snprintf(b, sizeof(b), "%s: %s", cur_name, v_msg); printf("{\"violation\": "); json_str(stdout, b); printf("}\n"); fflush(stdout); return 1;
}
#endif
