/*
 * Stand-ins for the system and C library calls librseq makes (its objects are linked with these names redirected).
 * They track every resource the library holds, can fail the k-th request, and turn abort() into a recorded event.
 */
#ifndef INTERPOSE_H
#define INTERPOSE_H
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <malloc.h>
#include <string.h>
#include <strings.h>
#include <stdint.h>
#include <stdbool.h>
#include <errno.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <rseq/rseq.h>
#include <rseq/mempool.h>

/* ---- resources held by the library ---- */
struct mapping { char *a; size_t len; };
static struct mapping maps[512]; static int nmaps; static size_t map_total;
static uint64_t n_sys;
#define MAXFD 256
static int fd_open[MAXFD], nfds;
struct blk { struct blk *next, *prev; size_t len; void *raw; };	/* 32 bytes: the C library's blocks are 16-byte aligned */
static struct blk blocks = { &blocks, &blocks, 0, 0 }; static size_t nblocks;
#define CANARY 0x5aa5c33cf00fe11eULL
static int heap_smashed;

/* ---- page size of the machine (a multiple of the real one) ---- */
static long page_len = 4096;
long h_sysconf(int n) { return n == _SC_PAGESIZE ? page_len : sysconf(n); }
int h_getpagesize(void) { return (int) page_len; }
unsigned long h_getauxval(unsigned long t) { extern unsigned long getauxval(unsigned long); return t == 6 ? (unsigned long) page_len : getauxval(t); }

/* ---- fault injection ---- */
enum fk { F_MMAP, F_MEMFD, F_FTRUNC, F_MADVISE, F_CALLOC, F_MALLOC, F_STRDUP, F_MUNMAP, F_CB, F_CLOSE, F_NR };
static const char *const fk_name[] = { "mmap", "memfd_create", "ftruncate", "madvise", "calloc", "malloc", "strdup", "munmap", "init callback", "close" };
static unsigned fault_kinds;		/* kinds that count as requests */
static int fault_at[2] = { -1, -1 }, fault_n, faults_hit; static int fault_kind_hit[2];
static int inject(enum fk k)
{
	if (!(fault_kinds & (1u << k))) return 0;
	int n = fault_n++;
	for (int i = 0; i < 2; i++) if (fault_at[i] == n) { fault_kind_hit[faults_hit++ & 1] = k; return 1; }
	return 0;
}

static void map_add(char *a, size_t len) { if (nmaps >= 512) { printf("{\"error\": \"too many mappings\"}\n"); _exit(2); } maps[nmaps].a = a; maps[nmaps++].len = len; map_total += len; }
static void map_del(char *a, size_t len)
{
	for (int i = 0; i < nmaps; i++) {
		struct mapping *m = &maps[i]; char *lo = a > m->a ? a : m->a, *hi = a + len < m->a + m->len ? a + len : m->a + m->len;
		if (lo >= hi) continue;
		map_total -= hi - lo;
		size_t left = lo - m->a, right = m->a + m->len - hi; char *rp = hi;
		if (left && right) { m->len = left; map_add(rp, right); map_total -= right; }
		else if (left) m->len = left;
		else if (right) { m->a = rp; m->len = right; }
		else { *m = maps[--nmaps]; i--; }
	}
}
static int map_owned(char *a, size_t len) { size_t got = 0; for (int i = 0; i < nmaps; i++) { char *lo = a > maps[i].a ? a : maps[i].a, *hi = a + len < maps[i].a + maps[i].len ? a + len : maps[i].a + maps[i].len; if (lo < hi) got += hi - lo; } return got == len; }
static int bad_unmap, bad_fixed; static size_t map_limit = (size_t) 1 << 33;
static int place[4], nplace, place_i; static size_t place_mod;	/* where the kernel puts mappings: n-th one place[n % nplace] pages after a multiple of place_mod */
static void (*on_map)(void *, size_t, int, int); static int (*on_fault)(void *);	/* write watch of cow.c */
void *h_mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off)
{
	n_sys++;
	if (inject(F_MMAP)) { errno = ENOMEM; return MAP_FAILED; }
	if ((flags & MAP_FIXED) && !map_owned(addr, len)) { bad_fixed++; errno = ENOMEM; return MAP_FAILED; }	/* would overwrite somebody else's memory */
	if (len > map_limit) { errno = ENOMEM; return MAP_FAILED; }	/* do not depend on the overcommit settings of the machine */
	if (len > (size_t) 1 << 30) flags |= MAP_NORESERVE;
	void *p;
	if (nplace && !addr && !(flags & MAP_FIXED)) {
		char *q = mmap(NULL, len + 2 * place_mod, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0), *e = q + len + 2 * place_mod; if (q == MAP_FAILED) return q;
		char *s = (char *) (((uintptr_t) q + place_mod - 1) & ~(uintptr_t) (place_mod - 1)) + place[place_i++ % nplace] * page_len, *t = s + ((len + 4095) & ~4095UL);
		if (s > q) munmap(q, s - q);
		if (e > t) munmap(t, e - t);
		p = mmap(s, len, prot, flags | MAP_FIXED, fd, off); if (p == MAP_FAILED) { munmap(s, t - s); return p; }
	} else p = mmap(addr, len, prot, flags, fd, off);
	if (!nplace && page_len > 4096 && p != MAP_FAILED && !(flags & MAP_FIXED)) {	/* mappings of a machine with larger pages start on such a page */
		munmap(p, len); size_t al = (len + page_len - 1) & ~(page_len - 1); char *q = mmap(NULL, al + page_len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (q == MAP_FAILED) return q;
		char *s = (char *) (((uintptr_t) q + page_len - 1) & ~(uintptr_t) (page_len - 1)); if (s > q) munmap(q, s - q); if (q + page_len > s) munmap(s + al, q + page_len - s);
		len = al; p = mmap(s, len, prot, flags | MAP_FIXED, fd, off); if (p == MAP_FAILED) { munmap(s, len); return p; }
	}
	if (p != MAP_FAILED && !(flags & MAP_FIXED)) map_add(p, len);
	if (p != MAP_FAILED && on_map) on_map(p, len, prot, flags);
	return p;
}
void *h_mmap64(void *addr, size_t len, int prot, int flags, int fd, off_t off) { return h_mmap(addr, len, prot, flags, fd, off); }
int h_munmap(void *addr, size_t len)
{
	n_sys++;
	if (inject(F_MUNMAP)) { errno = ENOMEM; return -1; }
	if (!map_owned(addr, len)) { bad_unmap++; errno = EINVAL; return -1; }	/* would unmap memory the library does not own */
	int r = munmap(addr, len);
	if (!r) map_del(addr, len);
	return r;
}
int h_madvise(void *addr, size_t len, int adv) { n_sys++; if (inject(F_MADVISE)) { errno = ENOMEM; return -1; } return madvise(addr, len, adv); }
int h_memfd_create(const char *name, unsigned flags)
{
	n_sys++;
	if (inject(F_MEMFD)) { errno = EMFILE; return -1; }
	int fd = memfd_create(name, flags); if (fd >= 0 && fd < MAXFD) { fd_open[fd] = 1; nfds++; } return fd;
}
int h_ftruncate(int fd, off_t len) { n_sys++; if (inject(F_FTRUNC)) { errno = ENOSPC; return -1; } return ftruncate(fd, len); }
int h_ftruncate64(int fd, off_t len) { return h_ftruncate(fd, len); }
int h_close(int fd) { n_sys++; if (fd >= 0 && fd < MAXFD && fd_open[fd]) { fd_open[fd] = 0; nfds--; } return close(fd); }
static void *blk_new_al(size_t len, int zero, size_t al)
{
	if (al < 32) al = 32;
	char *raw = memalign(al, al + len + 8); if (!raw) return NULL;
	struct blk *b = (struct blk *) (raw + al) - 1;
	b->raw = raw; b->len = len; b->next = blocks.next; b->prev = &blocks; b->next->prev = b; blocks.next = b; nblocks++;
	if (zero) memset(b + 1, 0, len); else memset(b + 1, 0xa7, len);
	uint64_t c = CANARY; memcpy((char *) (b + 1) + len, &c, 8); return b + 1;
}
static void *blk_new(size_t len, int zero) { return blk_new_al(len, zero, 32); }
static void blk_check(struct blk *b) { uint64_t c = CANARY; if (memcmp((char *) (b + 1) + b->len, &c, 8)) heap_smashed = 1; }
void *h_calloc(size_t n, size_t s) { size_t len; if (inject(F_CALLOC)) { errno = ENOMEM; return NULL; } if (__builtin_mul_overflow(n, s, &len)) { errno = ENOMEM; return NULL; } return blk_new(len, 1); }
void *h_malloc(size_t n) { if (inject(F_MALLOC)) { errno = ENOMEM; return NULL; } return blk_new(n, 0); }
static int bad_free;
static struct blk *blk_find(void *p) { for (struct blk *b = blocks.next; b != &blocks; b = b->next) if ((void *) (b + 1) == p) return b; return NULL; }
void h_free(void *p)
{
	if (!p) return;
	struct blk *b = blk_find(p); if (!b) { bad_free++; return; }
	blk_check(b); b->next->prev = b->prev; b->prev->next = b->next; nblocks--; memset(b + 1, 0xdd, b->len); free(b->raw);
}
void *h_realloc(void *p, size_t n)
{
	if (inject(F_MALLOC)) { errno = ENOMEM; return NULL; }
	void *q = blk_new(n, 0); if (p && q) { struct blk *b = blk_find(p); if (b) memcpy(q, p, b->len < n ? b->len : n); h_free(p); } return q;
}
void *h_aligned_alloc(size_t al, size_t n) { if (inject(F_MALLOC)) { errno = ENOMEM; return NULL; } return blk_new_al(n, 0, al); }
int h_posix_memalign(void **p, size_t al, size_t n) { *p = h_aligned_alloc(al, n); return *p ? 0 : ENOMEM; }
char *h_strdup(const char *s) { if (inject(F_STRDUP)) { errno = ENOMEM; return NULL; } size_t n = strlen(s) + 1; char *q = blk_new(n, 0); if (q) memcpy(q, s, n); return q; }
char *h_strndup(const char *s, size_t m) { if (inject(F_STRDUP)) { errno = ENOMEM; return NULL; } size_t n = strnlen(s, m); char *q = blk_new(n + 1, 0); if (q) { memcpy(q, s, n); q[n] = 0; } return q; }
void *h_reallocarray(void *p, size_t a, size_t b) { size_t len; if (__builtin_mul_overflow(a, b, &len)) { errno = ENOMEM; return NULL; } return h_realloc(p, len); }
int h_vasprintf(char **q, const char *f, va_list ap) { va_list a2; va_copy(a2, ap); int n = vsnprintf(NULL, 0, f, a2); va_end(a2); *q = h_malloc(n + 1); return *q ? vsnprintf(*q, n + 1, f, ap) : -1; }
int h_asprintf(char **q, const char *f, ...) { va_list ap; va_start(ap, f); int n = h_vasprintf(q, f, ap); va_end(ap); return n; }

/* ---- abort ---- */
static sigjmp_buf abort_jmp; static volatile int abort_armed, aborted; static int n_aborts;
static int crash_sig; static void *crash_addr;
__attribute__((noreturn)) void h_abort(void) { n_aborts++; if (abort_armed) { aborted = 1; siglongjmp(abort_jmp, 1); } _exit(77); }
__attribute__((noreturn)) void h_assert_fail(const char *e, const char *f, unsigned l, const char *fn) { (void) e; (void) f; (void) l; (void) fn; h_abort(); }
static void on_crash(int sig, siginfo_t *si, void *u)
{
	if (sig == SIGSEGV && on_fault && on_fault(si->si_addr)) return;
	(void) u; crash_sig = sig; crash_addr = si->si_addr;
	if (abort_armed) { aborted = 2; siglongjmp(abort_jmp, 2); }
	signal(sig, SIG_DFL); raise(sig);
}
static const char *alarm_note = "";
static void on_alarm(int sig) { (void) sig; aborted = 3; if (abort_armed) siglongjmp(abort_jmp, 3); _exit(78); }
static void catch_crashes(void)
{
	stack_t ss = { .ss_sp = mmap(NULL, 1 << 16, 3, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0), .ss_size = 1 << 16 }; sigaltstack(&ss, NULL);
	struct sigaction sa = { .sa_sigaction = on_crash, .sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER };
	sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGFPE, &sa, NULL); sigaction(SIGILL, &sa, NULL);
	struct sigaction sb = { .sa_handler = on_alarm, .sa_flags = SA_ONSTACK | SA_NODEFER }; sigaction(SIGALRM, &sb, NULL);
}
static void watchdog(int sec) { struct itimerval it = { { 0, 0 }, { sec, 0 } }; setitimer(ITIMER_REAL, &it, NULL); }
/* Guarded call: 0 completed, 1 library aborted, 2 crashed, 3 hung. */
#define GUARD(stmt) ({ int g_; aborted = 0; abort_armed = 1; g_ = sigsetjmp(abort_jmp, 1); if (!g_) { stmt; } abort_armed = 0; g_; })
static const char *const guard_name[] = { "completed", "the library aborted the process", "crash (memory fault)", "did not terminate" };

/* Gives back everything the library holds (after an abort left a pool behind). */
static void reclaim(void)
{
	while (nmaps) { munmap(maps[nmaps - 1].a, maps[nmaps - 1].len); nmaps--; }
	map_total = 0;
	for (int i = 0; i < MAXFD; i++) if (fd_open[i]) { close(i); fd_open[i] = 0; }
	nfds = 0;
	while (blocks.next != &blocks) { struct blk *b = blocks.next; blocks.next = b->next; b->next->prev = &blocks; free(b->raw); }
	nblocks = 0;
}
static void check_heap(void) { for (struct blk *b = blocks.next; b != &blocks; b = b->next) blk_check(b); }

/* ---- reporting ---- */
static const char *rp_path = "/tmp/replay.txt"; static int g_argc; static char **g_argv;
static char v_msg[1200]; static int v_set;
static void fail_(const char *fmt, ...) { va_list ap; if (v_set) return; v_set = 1; va_start(ap, fmt); vsnprintf(v_msg, sizeof(v_msg), fmt, ap); va_end(ap); }
static void json_str(FILE *f, const char *s) { fputc('"', f); for (; *s; s++) { if (*s == '"' || *s == '\\') fputc('\\', f); if (*s == '\n') fputs("\\n", f); else fputc(*s, f); } fputc('"', f); }
static double now_s(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static unsigned props; 
#define PR(n) (props & (1u << (n)))
#endif
