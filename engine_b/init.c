/*
 * R03: all schedules (within the preemption bound) of threads which make their first calls into the library at the same
 * time, against a modelled C library, kernel and sysfs.  The library's variables are put back to their start-up values
 * and the threads are new in every schedule.
 */
#include "sched.h"
#include <dirent.h>
#include <dlfcn.h>
#include <sys/auxv.h>
#include <rseq/rseq.h>
#include <rseq/mempool.h>

extern char __start_libdata[] __attribute__((weak)), __stop_libdata[] __attribute__((weak)); static char *snap;
typedef void (*ctor_t)(void);
extern ctor_t __start_ctor_arr[] __attribute__((weak)), __stop_ctor_arr[] __attribute__((weak));

/* ---- scenario ---- */
struct cfg { int owner, list, ctor; unsigned long feat; const char *prog[3]; int nt; };	/* owner: 0 own, 1 C library, 2 no kernel support, 3 C library without registration (size 0) */
static struct cfg C[20000]; static int ncf; static struct cfg *c;
static const ptrdiff_t L_OFF = -160; static unsigned l_size; static ptrdiff_t l_off; static unsigned l_flags;
static unsigned kfeat(void) { return c->feat ? c->feat : 20; }
static void env(void) { if (controlled && self >= 0) point(); }

/* ---- C library ---- */
void *h_dlsym(void *h, const char *name)
{
	env(); int has = c->owner == 1 || c->owner == 3;
	if (!strcmp(name, "__rseq_offset")) return has ? &l_off : NULL; if (!strcmp(name, "__rseq_size")) return has ? &l_size : NULL; if (!strcmp(name, "__rseq_flags")) return has ? &l_flags : NULL;
	return dlsym(h, name);
}
unsigned long h_getauxval(unsigned long t) { if (t == 27) return c->feat; if (t == 28) return c->feat ? 32 : 0; return getauxval(t); }
/* ---- kernel ---- */
static struct { struct rseq_abi *p; uint32_t len, sig; } K[MAXT]; static int n_rseq;
static long model_rseq(struct rseq_abi *p, uint32_t len, int flags, uint32_t sig)
{
	env(); if (p) n_rseq++;
	if (c->owner == 2) { errno = ENOSYS; return -1; }
	if (self < 0) { errno = EINVAL; return -1; }
	if (flags & 1) {
		if (flags & ~1 || !K[self].p || K[self].p != p || K[self].len != len) { errno = EINVAL; return -1; } if (K[self].sig != sig) { errno = EPERM; return -1; }
		p->cpu_id_start = 0; p->cpu_id = -1U; K[self].p = NULL; return 0;
	}
	if (flags) { errno = EINVAL; return -1; }
	if (K[self].p) { errno = K[self].p == p && K[self].len == len ? EBUSY : EINVAL; return -1; }
	if (len < 32 || ((uintptr_t) p & 31) || (len != 32 && len < kfeat())) { errno = EINVAL; return -1; }
	if (!p) { errno = EFAULT; return -1; }
	K[self].p = p; K[self].len = len; K[self].sig = sig; p->cpu_id_start = p->cpu_id = 2 + self; if (len >= 28 && kfeat() >= 28) p->mm_cid = self; return 0;
}
long h_syscall(long n, ...)
{
	va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long), g = va_arg(ap, long); va_end(ap);
	if (n == SYS_rseq) return model_rseq((void *) a, b, d, e);
	if (n == SYS_getcpu) { if (a) *(unsigned *) a = 1; if (b) *(unsigned *) b = 0; return 0; }
	return syscall(n, a, b, d, e, f, g);
}
int h_sched_getcpu(void) { return 1; }
/* ---- sysfs: list 0: "0-6" in one read; 1: in two; 2: no list, directories; 3: nothing but the system's count; 4: nothing at all ---- */
static struct { int open, pos, reads; } F[32]; static int nF, nopen;
int h_open(const char *p, int fl, ...) { (void) fl; env(); if (strcmp(p, "/sys/devices/system/cpu/possible") || c->list >= 2) { errno = ENOENT; return -1; } if (nF == 32) { errno = EMFILE; return -1; } F[nF].open = 1; F[nF].pos = 0; F[nF].reads = 0; nopen++; return 900 + nF++; }
int h_open64(const char *p, int fl, ...) { return h_open(p, fl); } int h_openat(int d, const char *p, int fl, ...) { (void) d; return h_open(p, fl); }
ssize_t h_read(int fd, void *b, size_t n)
{
	static const char data[] = "0-4,6\n"; env(); if (fd < 900 || fd >= 900 + nF || !F[fd - 900].open) { errno = EBADF; return -1; }
	size_t m = sizeof(data) - 1 - F[fd - 900].pos; if (m > n) m = n; if (c->list == 1 && m > 3) m = 3; memcpy(b, data + F[fd - 900].pos, m); F[fd - 900].pos += m; return m;
}
int h_close(int fd) { env(); if (fd < 900 || fd >= 900 + nF || !F[fd - 900].open) { errno = EBADF; fail_("a file descriptor is closed twice"); return -1; } F[fd - 900].open = 0; nopen--; return 0; }
static ssize_t ck_read(void *x, char *b, size_t n) { return h_read((int) (long) x, b, n); } static int ck_close(void *x) { return h_close((int) (long) x); }
FILE *h_fopen(const char *p, const char *m) { int fd = h_open(p, 0); if (fd < 0) return NULL; cookie_io_functions_t f = { ck_read, NULL, NULL, ck_close }; return fopencookie((void *) (long) fd, m, f); }
static struct dd { int pos; struct dirent e; } DDs[16]; static int nDD;
DIR *h_opendir(const char *p) { env(); if (c->list != 2 || strcmp(p, "/sys/devices/system/cpu") || nDD == 16) { errno = ENOENT; return NULL; } DDs[nDD].pos = 0; nopen++; return (DIR *) &DDs[nDD++]; }
struct dirent *h_readdir(DIR *x)
{
	static const char *const nm[] = { ".", "cpu0", "cpufreq", "cpu6", "cpu3" }; struct dd *d = (struct dd *) x; env(); if (d->pos == 5) return NULL;
	memset(&d->e, 0, sizeof(d->e)); strcpy(d->e.d_name, nm[d->pos++]); d->e.d_type = DT_DIR; return &d->e;
}
struct dirent *h_readdir64(DIR *d) { return h_readdir(d); } int h_closedir(DIR *d) { (void) d; env(); nopen--; return 0; }
long h_sysconf(int n) { if (n == _SC_NPROCESSORS_CONF) { env(); return c->list == 4 ? -1 : c->list == 3 ? 7 : 5; } if (n == _SC_NPROCESSORS_ONLN) { env(); return c->list == 4 ? -1 : 1; } return sysconf(n); }
static int want_cpus(void) { return c->list == 4 ? 0 : 7; }

static unsigned want_size(int registered)
{
	if (c->owner == 1) return kfeat() < 32 ? kfeat() : 32;
	return registered ? kfeat() : 0;
}
/* What a thread sees once one of its calls has returned. */
static void look(int t, int registered, const char *when)
{
	env();	/* others may run between the return and the look */
	unsigned size = *(volatile unsigned *) &rseq_size; ptrdiff_t off = *(volatile ptrdiff_t *) &rseq_offset; unsigned fl = *(volatile unsigned *) &rseq_flags;
	if (v_set) return;
	if (c->owner == 1) {
		if (off != L_OFF || fl != 0) { fail_("%s: thread %d sees offset %td flags %u instead of the C library's", when, t, off, fl); return; }
		if (size != want_size(0)) { fail_("%s: thread %d sees feature size %u instead of %u", when, t, size, want_size(0)); return; }
		if (!rseq_available(RSEQ_AVAILABLE_QUERY_LIBC)) fail_("%s: thread %d is told that the C library does not provide rseq", when, t);
		return;
	}
	if (registered) {
		if (size != kfeat()) { fail_("%s: thread %d sees feature size %u instead of the kernel's %u", when, t, size, kfeat()); return; }
		if (!K[t].p) { fail_("%s: thread %d is not registered", when, t); return; }
		if ((char *) rseq_thread_pointer() + off != (char *) K[t].p) { fail_("%s: thread %d's area is not the registered one", when, t); return; }
		if (rseq_current_cpu_raw() != 2 + t) { fail_("%s: thread %d reads CPU %d", when, t, rseq_current_cpu_raw()); return; }
	} else if (c->owner == 2 && size) { fail_("%s: feature size %u without kernel support", when, size); return; }
	if (rseq_available(RSEQ_AVAILABLE_QUERY_LIBC)) fail_("%s: thread %d is told that the C library owns the registration", when, t);
}
static void worker(int t)
{
	int reg = 0;
	for (const char *p = c->prog[t]; *p && !v_set; p++) {
		n_ops++;
		switch (*p) {
		case 'r': { int r = rseq_register_current_thread(), want = c->owner == 2 ? -1 : 0; tr(" T%d: register -> %d\n", t, r); if (r != want) { fail_("registration by thread %d returned %d", t, r); break; } reg = c->owner == 0 || c->owner == 3; if (c->owner == 1 && K[t].p) fail_("a thread was registered although the C library owns the registration"); look(t, reg, "after registration"); break; }
		case 'u': { int r = rseq_unregister_current_thread(), want = c->owner == 2 ? -1 : 0; tr(" T%d: unregister -> %d\n", t, r); if (r != want) { fail_("unregistration by thread %d returned %d", t, r); break; } if (K[t].p) fail_("thread %d is still registered after unregistration", t); reg = 0; look(t, 0, "after unregistration"); break; }
		case 'n': { int r = rseq_get_max_nr_cpus(); tr(" T%d: max_nr_cpus -> %d\n", t, r); if (r != want_cpus()) fail_("thread %d was told %d CPUs instead of %d", t, r, want_cpus()); break; }
		case 'k': { bool b = rseq_available(RSEQ_AVAILABLE_QUERY_KERNEL); tr(" T%d: kernel support -> %d\n", t, b); if (b != (c->owner != 2)) fail_("kernel support reported as %d", b); break; }
		case 'p': {
			struct rseq_mempool_attr *a = rseq_mempool_attr_create(); rseq_mempool_attr_set_percpu(a, 4096, 0); rseq_mempool_attr_set_robust(a); rseq_mempool_attr_set_populate_policy(a, RSEQ_MEMPOOL_POPULATE_COW_ZERO);
			errno = 0; struct rseq_mempool *q = rseq_mempool_create("first", 2048, a); rseq_mempool_attr_destroy(a); tr(" T%d: pool create -> %s\n", t, q ? "pool" : "NULL");
			if (!want_cpus()) { if (q) fail_("a pool was created although the number of CPUs is unknown"); break; }
			if (!q) { fail_("creating a pool failed, errno %d", errno); break; }
			if (rseq_mempool_get_max_nr_cpus(q) != want_cpus()) { fail_("the pool has %d CPUs instead of %d", rseq_mempool_get_max_nr_cpus(q), want_cpus()); break; }
			char *it = (char *) rseq_mempool_percpu_zmalloc(q); if (!it) { fail_("allocation failed"); break; }
			for (int x = 0; x < want_cpus(); x++) { volatile char *z = it + x * 4096; if (*z) fail_("item not zeroed on cpu %d", x); *z = 1; }
			rseq_mempool_percpu_free(it, 4096); if (rseq_mempool_destroy(q)) fail_("destroying the pool failed"); break; }
		}
	}
}
static void one(void)
{
	arena_reset(); nlk = 0; v_set = 0; tlen = 0; trace[0] = 0; pos = 0; nF = nDD = nopen = 0; n_rseq = 0; memset(K, 0, sizeof(K));
	l_off = L_OFF; l_size = c->owner == 1 ? 32 : 0; l_flags = 0;
	memcpy(__start_libdata, snap, __stop_libdata - __start_libdata);
	main_armed = 1;
	if (!sigsetjmp(main_jmp, 1)) {
		if (c->ctor) for (ctor_t *x = __start_ctor_arr; x < __stop_ctor_arr; x++) (*x)();
		run_controlled(c->nt, worker);
		if (!v_set) {
			int any = 0; for (int t = 0; t < c->nt; t++) if (strpbrk(c->prog[t], "r")) any = 1;
			if (any && rseq_size != want_size(c->owner == 0 || c->owner == 3)) fail_("the feature size is %u in the end", rseq_size);
			if (c->owner == 1 && n_rseq) fail_("%d registration system calls although the C library owns the registration", n_rseq);
			if (nopen) fail_("%d files or directories left open", nopen);
			if (nheap || map_bytes) fail_("resources left behind (%zu bytes mapped, %zu heap blocks)", map_bytes, nheap);
			if (!v_set && rseq_get_max_nr_cpus() != want_cpus()) fail_("CPU count %d in the end", rseq_get_max_nr_cpus());
		}
	}
	main_armed = 0; controlled = 0; workers_end();
}
static void addc(int ow, int list, int ctor, unsigned long feat, int nt, const char *a, const char *b, const char *d) { if (ncf == 20000) { printf("{\"error\": \"too many scenarios\"}\n"); exit(2); } C[ncf++] = (struct cfg) { ow, list, ctor, feat, { a, b, d }, nt }; }
int main(int argc, char **argv)
{
	sched_init(argc, argv);
	snap = malloc(__stop_libdata - __start_libdata); memcpy(snap, __start_libdata, __stop_libdata - __start_libdata);
	static const char *const w[] = { "r", "n", "ru", "rk", "rn", "nr", "p", "kr", "rur" }; static const unsigned long fe[] = { 28, 0, 40 };
	for (int ow = 0; ow < 4; ow++) for (int li = 0; li < 5; li++) for (int ct = 0; ct < 2; ct++) for (int f = 0; f < 3; f++) for (int x = 0; x < 9; x++) for (int y = x; y < 9; y++) {
		int cpus = !!strpbrk(w[x], "np") || !!strpbrk(w[y], "np"), regs = !!strchr(w[x], 'r') || !!strchr(w[y], 'r');
		if (!cpus && li) continue; if (!regs && (ow || f || ct)) continue; if (cpus && regs && !thorough && (li % 4 || f)) continue;
		addc(ow, li, ct, fe[f], 2, w[x], w[y], NULL);
	}
	for (int ow = 0; ow < 4; ow++) for (int f = 0; f < (thorough ? 3 : 1); f++) { addc(ow, 0, 0, fe[f], 3, "r", "r", "r"); addc(ow, 0, 0, fe[f], 3, "ru", "r", "k"); addc(ow, 1, 0, fe[f], 3, "r", "n", "r"); if (!ow) { addc(0, 2, 0, fe[f], 3, "n", "n", "n"); addc(0, 0, 0, fe[f], 3, "n", "p", "n"); } }
	if (list_only) { printf("%d\n", ncf); return 0; }
	for (int i = 0; i < ncf; i++) {
		if (only >= 0 ? i != only : i % nshard != shard) continue;
		static char nm[300]; c = &C[i]; static const char *const on[] = { "librseq owns", "C library owns", "no kernel support", "C library declines" };
		snprintf(nm, sizeof(nm), "%s, feature size %lu, CPU list %d%s, threads %s | %s%s%s", on[c->owner], c->feat, c->list, c->ctor ? ", initialised at load" : "", c->prog[0], c->prog[1], c->nt > 2 ? " | " : "", c->nt > 2 ? c->prog[2] : ""); cur_name = nm;
		n_scen++; shared_reset();
		if (explore(one)) return report();
		if (getenv("M_VERBOSE")) printf("%lu schedules: %s\n", n_schedules, nm);
		if (!sample[0]) snprintf(sample, sizeof(sample), "%s\n%s", nm, trace);
	}
	printf("{\"scenarios\": %lu, \"schedules\": %lu, \"points\": %lu, \"switches\": %lu, \"ops\": %lu, \"searches\": %lu, \"reduced\": %lu, \"cut\": %lu, \"racing_locations\": %lu, \"sample\": ", n_scen, n_schedules, n_points, n_switches, n_ops, n_restarts, n_reduced, n_cut, n_racy); json_str(stdout, sample); printf("}\n");
	return 0;
}
