/*
 * Start-up, registration, queries and CPU counting (R01, R02, R04, R05): the library runs against a modelled C library and
 * kernel; every environment, call history and kernel answer within the bounds is enumerated, each in a process of its own.
 */
#define _GNU_SOURCE
#include <link.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <limits.h>
#include <dirent.h>
#include <sched.h>
#include <signal.h>
#include <setjmp.h>
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <sys/auxv.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <rseq/rseq.h>

typedef void (*ctor_t)(void);
extern ctor_t __start_ctor_arr[] __attribute__((weak)), __stop_ctor_arr[] __attribute__((weak)), __start_dtor_arr[] __attribute__((weak)), __stop_dtor_arr[] __attribute__((weak));
static void start_library(void) { for (ctor_t *c = __start_ctor_arr; c < __stop_ctor_arr; c++) (*c)(); }

/* ---- result page shared with the case processes ---- */
static struct shared { volatile int fail, done, aborted; char msg[900]; volatile uint64_t calls, cases; } *SH;
static char desc[2000]; static int dlen;
static void D(const char *fmt, ...) { va_list ap; va_start(ap, fmt); if (dlen < 1800) dlen += vsnprintf(desc + dlen, sizeof(desc) - dlen, fmt, ap); va_end(ap); }
static void fail_(const char *fmt, ...) { if (SH->fail) return; va_list ap; va_start(ap, fmt); vsnprintf(SH->msg, sizeof(SH->msg), fmt, ap); va_end(ap); SH->fail = 1; }

/* ---- modelled C library ---- */
static ptrdiff_t libc_offset; static unsigned int libc_size, libc_flags; static int has_off, has_size, has_flags;
static __thread __attribute__((aligned(64))) struct { struct rseq_abi a; char pad[1024]; } libc_area;
void *h_dlsym(void *h, const char *name)
{
	if (!strcmp(name, "__rseq_offset")) return has_off ? &libc_offset : NULL;
	if (!strcmp(name, "__rseq_size")) return has_size ? &libc_size : NULL;
	if (!strcmp(name, "__rseq_flags")) return has_flags ? &libc_flags : NULL;
	return dlsym(h, name);
}
static unsigned long aux_size, aux_align; static int aux_absent;
unsigned long h_getauxval(unsigned long t) { if (t == 27) { if (!aux_size) errno = ENOENT; return aux_size; } if (t == 28) { if (!aux_align) errno = ENOENT; return aux_align; } return getauxval(t); }
/* ---- modelled kernel ---- */
static __thread struct { struct rseq_abi *p; uint32_t len, sig; } K;
static int rseq_enosys; static volatile int refuse_next;	/* errno for the next registration */
static volatile int n_rseq, last_flags; static struct rseq_abi *volatile last_ptr; static volatile uint32_t last_len, last_sig; static volatile int last_ok;
static int cur_cpu = 3, cur_node = 1, cur_cid = 2, getcpu_fail; static volatile int n_getcpu;
static unsigned kfeat(void) { return aux_size ? aux_size : 20; }
/* thread-local variables of the program: the kernel writes into what was registered, never into these */
static __thread unsigned char tls_a[1500] = { 1, 2, 3 }, tls_b[1500];
static __attribute__((noinline)) int tls_intact(void) { volatile unsigned char *a = tls_a, *b = tls_b; for (int i = 0; i < 1500; i++) if (a[i] != (i < 3 ? i + 1 : 0) || b[i]) return 0; return 1; }
static long model_rseq(struct rseq_abi *p, uint32_t len, int flags, uint32_t sig)
{
	n_rseq++; last_ptr = p; last_len = len; last_flags = flags; last_sig = sig; last_ok = 0; SH->calls++;
	if (rseq_enosys) { errno = ENOSYS; return -1; }
	if (flags & 1) {
		if (flags & ~1) { errno = EINVAL; return -1; }
		if (!K.p || K.p != p || K.len != len) { errno = EINVAL; return -1; }
		if (K.sig != sig) { errno = EPERM; return -1; }
		K.p->cpu_id_start = 0; K.p->cpu_id = -1U; if (K.len >= 24) K.p->node_id = 0; if (K.len >= 28) K.p->mm_cid = 0;
		K.p = NULL; last_ok = 1; return 0;
	}
	if (flags) { errno = EINVAL; return -1; }
	if (K.p) { if (K.p != p || K.len != len) errno = EINVAL; else if (K.sig != sig) errno = EPERM; else errno = EBUSY; return -1; }
	if (len < 32 || ((uintptr_t) p & 31) || (len != 32 && len < kfeat())) { errno = EINVAL; return -1; }
	if (!p) { errno = EFAULT; return -1; }
	if (refuse_next) { errno = refuse_next; refuse_next = 0; return -1; }
	K.p = p; K.len = len; K.sig = sig; p->cpu_id_start = p->cpu_id = cur_cpu; if (kfeat() >= 24) p->node_id = cur_node; if (kfeat() >= 28) p->mm_cid = cur_cid;
	if (len > 32 && kfeat() > 32) memset((char *) p + 32, 0xee, (len < kfeat() ? len : kfeat()) - 32);	/* fields of a later kernel */
	last_ok = 1; return 0;
}
long h_syscall(long n, ...)
{
	va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
	if (n == SYS_rseq) return model_rseq((void *) a, b, c, d);
	if (n == SYS_getcpu) { n_getcpu++; SH->calls++; if (getcpu_fail) { errno = EFAULT; return -1; } if (a) *(unsigned *) a = cur_cpu; if (b) *(unsigned *) b = cur_node; return 0; }
	return syscall(n, a, b, c, d, e, f);
}
int h_sched_getcpu(void) { n_getcpu++; SH->calls++; if (getcpu_fail) { errno = ENOSYS; return -1; } return cur_cpu; }
int h_getcpu(unsigned *c, unsigned *n) { n_getcpu++; if (getcpu_fail) { errno = EFAULT; return -1; } if (c) *c = cur_cpu; if (n) *n = cur_node; return 0; }
__attribute__((noreturn)) void h_abort(void) { SH->aborted = 1; SH->done = 1; _exit(0); }
__attribute__((noreturn)) void h_assert_fail(const char *e, const char *f, unsigned l, const char *fn) { (void) f; (void) l; (void) fn; (void) e; h_abort(); }

/* ---- modelled sysfs ---- */
static const char *list_data; static size_t list_len, list_pos; static int list_open_errno, list_read_errno, list_read_err_at; static int chunk_mode, cuts[8], ncuts, eintr_at[4], neintr, reads_done; static size_t chunk;
static int open_fds, open_dirs, n_open; static long sc_conf; static const char **dir_ents; static const unsigned char *dir_types; static int ndir, dirpos, dir_fail; static int list_fd = 900;
static int is_list(const char *p) { return !strcmp(p, "/sys/devices/system/cpu/possible"); }
int h_open(const char *p, int fl, ...) { n_open++; SH->calls++; if (!is_list(p)) { errno = ENOENT; return -1; } if (list_open_errno) { errno = list_open_errno; return -1; } (void) fl; list_pos = 0; reads_done = 0; open_fds++; return list_fd; }
int h_open64(const char *p, int fl, ...) { return h_open(p, fl); }
int h_openat(int d, const char *p, int fl, ...) { (void) d; return h_open(p, fl); }
ssize_t h_read(int fd, void *b, size_t n)
{
	if (fd != list_fd) { errno = EBADF; return -1; }
	SH->calls++; int k = reads_done++;
	for (int i = 0; i < neintr; i++) if (eintr_at[i] == k) { errno = EINTR; return -1; }
	if (list_read_errno && k >= list_read_err_at) { errno = list_read_errno; return -1; }
	size_t avail = list_len - list_pos, lim = n; if (chunk) lim = n < chunk ? n : chunk;
	for (int i = 0; i < ncuts; i++) if ((size_t) cuts[i] > list_pos && cuts[i] - list_pos < lim) lim = cuts[i] - list_pos;
	size_t m = avail < lim ? avail : lim; memcpy(b, list_data + list_pos, m); list_pos += m; return m;
}
ssize_t h_pread(int fd, void *b, size_t n, off_t o) { list_pos = (size_t) o < list_len ? (size_t) o : list_len; return h_read(fd, b, n); }
int h_close(int fd) { if (fd != list_fd) { errno = EBADF; return -1; } open_fds--; return 0; }
static ssize_t ck_read(void *c, char *b, size_t n) { (void) c; ssize_t r = h_read(list_fd, b, n); return r; }
static int ck_close(void *c) { (void) c; open_fds--; return 0; }
FILE *h_fopen(const char *p, const char *m) { if (h_open(p, 0) < 0) return NULL; cookie_io_functions_t f = { ck_read, NULL, NULL, ck_close }; return fopencookie(NULL, m, f); }
static int the_dir;
DIR *h_opendir(const char *p) { SH->calls++; if (dir_fail || strcmp(p, "/sys/devices/system/cpu")) { errno = ENOENT; return NULL; } dirpos = 0; open_dirs++; return (DIR *) &the_dir; }
struct dirent *h_readdir(DIR *d) { static struct dirent e; (void) d; if (dirpos >= ndir) return NULL; memset(&e, 0, sizeof(e)); snprintf(e.d_name, sizeof(e.d_name), "%s", dir_ents[dirpos]); e.d_type = dir_types[dirpos]; dirpos++; return &e; }
struct dirent *h_readdir64(DIR *d) { return h_readdir(d); }
int h_closedir(DIR *d) { (void) d; open_dirs--; return 0; }
long h_sysconf(int n) { if (n == _SC_NPROCESSORS_CONF) { SH->calls++; return sc_conf; } if (n == _SC_NPROCESSORS_ONLN) { SH->calls++; return sc_conf > 1 ? 1 : sc_conf; /* CPUs can be offline */ } return sysconf(n); }
int h_get_nprocs_conf(void) { return (int) h_sysconf(_SC_NPROCESSORS_CONF); } int h_get_nprocs(void) { return (int) h_sysconf(_SC_NPROCESSORS_ONLN); }
int h_openat64(int d, const char *p, int fl, ...) { (void) d; return h_open(p, fl); } ssize_t h_pread64(int fd, void *b, size_t n, off_t o) { return h_pread(fd, b, n, o); } FILE *h_fopen64(const char *p, const char *m) { return h_fopen(p, m); }
int h_scandir(const char *p, struct dirent ***out, int (*sel)(const struct dirent *), int (*cmp)(const struct dirent **, const struct dirent **))
{
	DIR *d = h_opendir(p); if (!d) return -1; int n = 0; struct dirent *e, **v = NULL;
	while ((e = h_readdir(d))) if (!sel || sel(e)) { v = realloc(v, (n + 1) * sizeof(*v)); v[n] = malloc(sizeof(*e)); *v[n++] = *e; }
	h_closedir(d); if (cmp && n) qsort(v, n, sizeof(*v), (int (*)(const void *, const void *)) cmp); *out = v; return n;
}
int h_scandir64(const char *p, struct dirent ***out, int (*sel)(const struct dirent *), int (*cmp)(const struct dirent **, const struct dirent **)) { return h_scandir(p, out, sel, cmp); }

/* ---- case runner ---- */
static int shard, nshard = 1, depth = 5, thorough; static long caseno; static char **g_argv; static int g_argc; static const char *rp_path = "/tmp/r.txt"; static char sample[2000]; static uint64_t n_cases, n_abort;
static void json_str(FILE *f, const char *s) { fputc('"', f); for (; *s; s++) { if (*s == '"' || *s == '\\') fputc('\\', f); if (*s == '\n') fputs("\\n", f); else if ((unsigned char) *s >= 32) fputc(*s, f); } fputc('"', f); }
static int violation(void)
{
	FILE *f = fopen(rp_path, "w"); if (f) { fprintf(f, "violation: %s\n%s\n#command", SH->msg, desc); for (int i = 0; i < g_argc; i++) fprintf(f, " %s", g_argv[i]); fprintf(f, "\n"); fclose(f); }
	char b[3000]; snprintf(b, sizeof(b), "%s [%s]", SH->msg, desc); printf("{\"violation\": "); json_str(stdout, b); printf("}\n"); return 1;
}
/* Runs one case in its own process; returns 1 on violation.  The case may end in abort() only if it announced that. */
static volatile int *may_abort;
/* What earlier calls left on the stack is part of the environment: text that reads as a CPU list, digits, ones, zeroes. */
static const char *const PAINT[] = { ",7-9", "3333", "\377\377\377\377", "\0\0\0\0" };
static int paint_k;
static void __attribute__((noinline)) paint(int k)
{
	volatile char b[65536]; for (size_t i = 0; i < sizeof(b); i++) b[i] = PAINT[k][i & 3];
}
static int run_case(void (*fn)(void *), void *arg)
{
	SH->fail = SH->done = SH->aborted = 0; *may_abort = 0; n_cases++; paint_k = n_cases % 4; fflush(stdout);
	pid_t p = fork();
	if (!p) { alarm(30); paint(paint_k); fn(arg); SH->done = 1; _exit(0); }
	int st = 0; waitpid(p, &st, 0);
	if (!SH->done && !SH->fail) fail_("the process died, status %#x%s", st, WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? " (did not terminate)" : "");
	if (SH->aborted && !SH->fail) { n_abort++; if (!*may_abort) fail_("the library aborted the process"); }
	else if (!SH->aborted && *may_abort == 2 && !SH->fail) fail_("the process was not stopped");
	if (!sample[0] || n_cases % 5003 == 0) snprintf(sample, sizeof(sample), "%s", desc);
	return SH->fail ? violation() : 0;
}
static int mine(void) { return caseno++ % nshard == shard; }

/* ---- R01: start-up ---- */
struct init_case { int off, size, flags; unsigned lsz; ptrdiff_t loff; unsigned lfl; unsigned long ax, al; int enosys, reg; };
static void *probe(void *r) { *(int *) r = rseq_current_cpu_raw(); ((uintptr_t *) r)[1] = (uintptr_t) rseq_get_abi(); return NULL; }
static void queries(int libc, int kern)
{
	static const unsigned others[] = { 2, 3, 4, 7, 31, 0x80000000u, ~0u };
	if (rseq_available(RSEQ_AVAILABLE_QUERY_KERNEL) != kern) fail_("kernel support reported as %d, expected %d", !kern, kern);
	if (rseq_available(RSEQ_AVAILABLE_QUERY_LIBC) != libc) fail_("C library support reported as %d, expected %d", !libc, libc);
	for (unsigned i = 0; i < sizeof(others) / sizeof(others[0]); i++) if (rseq_available(others[i])) fail_("query %u answered true", others[i]);
}
/* Is the memory given to the kernel memory that the program has reserved per thread? */
static uintptr_t seg_lo, seg_hi;
static int seg(struct dl_phdr_info *i, size_t n, void *v) { (void) n; (void) v; if (!i->dlpi_name[0] && i->dlpi_tls_data) for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) { seg_lo = (uintptr_t) i->dlpi_tls_data; seg_hi = seg_lo + i->dlpi_phdr[k].p_memsz; } return 0; }
static int reserved(void *p, size_t len) { seg_lo = seg_hi = 0; dl_iterate_phdr(seg, NULL); return !seg_lo || ((uintptr_t) p >= seg_lo && (uintptr_t) p + len <= seg_hi); }
static void init_one(void *v)
{
	struct init_case *c = v; has_off = c->off; has_size = c->size; has_flags = c->flags; libc_size = c->lsz; libc_offset = c->loff; libc_flags = c->lfl; aux_size = c->ax; aux_align = c->al; rseq_enosys = c->enosys;
	if (c->ax > 1024 || c->al > 1024) *may_abort = 1;	/* more than the library can provide: refusing to run is fine, running is if what it gives is enough */
	cur_cpu = c->al == 64 ? 3 : c->al > 64 ? 70000 : 0; rseq_offset = 0; start_library();
	int libc = c->off && c->size && c->flags && c->lsz != 0; unsigned k = kfeat();
	if (libc) {
		unsigned want = c->lsz == 20 || c->lsz == 32 ? (k < 32 ? k : 32) : c->lsz;
		if (rseq_offset != c->loff) fail_("rseq_offset %td instead of the C library's %td", rseq_offset, c->loff);
		if (rseq_size != want) fail_("rseq_size %u, expected %u", rseq_size, want);
		if (rseq_flags != c->lfl) fail_("rseq_flags %u instead of the C library's %u", rseq_flags, c->lfl);
		queries(1, !c->enosys); n_rseq = 0;
		if (c->reg) {
			int r = rseq_register_current_thread(); if (r || n_rseq) fail_("registration with C library ownership returned %d after %d system calls", r, n_rseq);
			r = rseq_unregister_current_thread(); if (r || n_rseq) fail_("unregistration with C library ownership returned %d after %d system calls", r, n_rseq);
			if (rseq_size != want || rseq_offset != c->loff) fail_("registration changed the advertised values");
		}
		return;
	}
	if (rseq_size != 0) fail_("rseq_size %u before any registration", rseq_size);
	if (rseq_flags != 0) fail_("rseq_flags %u with the own area", rseq_flags);
	queries(0, !c->enosys);
	uintptr_t me = (uintptr_t) rseq_get_abi(), o[2] = { 0, 0 }; unsigned long al = c->al > 32 ? c->al : 32;
	if ((me & (al - 1)) && al <= 1024) fail_("own area %#lx is not aligned on %lu", me, al);
	if (rseq_current_cpu_raw() != -1) fail_("unregistered thread reads CPU %d", rseq_current_cpu_raw());
	if (rseq_cpu_start() != 0) fail_("unregistered thread's CPU start is %u", rseq_cpu_start());
	pthread_t t; pthread_create(&t, NULL, probe, o); pthread_join(t, NULL);
	if (*(int *) o != -1) fail_("another unregistered thread reads CPU %d", *(int *) o);
	uintptr_t dist = o[1] > me ? o[1] - me : me - o[1]; if (dist < 1024 || ((o[1] & (al - 1)) && al <= 1024)) fail_("the areas of two threads overlap or are misaligned (%#lx, %#lx)", me, o[1]);
	if (c->reg == 2) { refuse_next = EPERM; int r = rseq_register_current_thread(); if (r != -1) fail_("refused registration returned %d", r); if (rseq_size) fail_("rseq_size %u after a refused registration", rseq_size); queries(0, !c->enosys); refuse_next = 0; }
	if (c->reg) {
		int r = rseq_register_current_thread();
		if (c->enosys) { if (r != -1 || rseq_size) fail_("registration without kernel support returned %d, rseq_size %u", r, rseq_size); }
		else { if (r) fail_("registration returned %d", r); if (rseq_size != k) fail_("rseq_size %u after registration, expected the kernel's %u", rseq_size, k); if (!r && K.p && (!reserved(K.p, K.len) || !tls_intact())) fail_("%u bytes registered with the kernel, more than is reserved for them", K.len); if (!r && me & (al - 1)) fail_("area %#lx registered, not aligned on %lu", me, al); }
		queries(0, !c->enosys);
	}
	if (rseq_get_abi() != (struct rseq_abi *) me) fail_("the area moved");
}
static int do_init(void)
{
	static const unsigned szs[] = { 0, 1, 19, 20, 21, 24, 28, 31, 32, 33, 40, 64, 1024 }; static const ptrdiff_t offs[] = { -4096, -160, 0, 160, 1 << 20, -((ptrdiff_t) 1 << 40) }; static const unsigned long axs[] = { 0, 20, 21, 24, 28, 31, 32, 33, 40, 64, 1024, 1025, 2048, 1 << 16 }, als[] = { 0, 32, 64, 1024, 2048, 1 << 16 };
	for (int m = 0; m < 8; m++) for (unsigned s = 0; s < 13; s++) for (unsigned x = 0; x < 14; x++) for (unsigned a = 0; a < 6; a++) for (int en = 0; en < 2; en++) for (int reg = 0; reg < 3; reg++) for (unsigned o = 0; o < 6; o++) {
		if (m != 7 && (o || (s != 3 && s != 8 && s != 0))) continue;	/* offset and size only matter when exposed */
		if (m == 7 && o > 1 && (a != 1 || en)) continue;
		if ((x > 10 || a > 3) && m && m != 7) continue;
		if (!mine()) continue;
		struct init_case c = { m & 1, !!(m & 2), !!(m & 4), szs[s], offs[o], o % 3 == 0 ? 0 : o, axs[x], als[a], en, reg };
		dlen = 0; D("C library symbols offset:%d size:%d flags:%d value size %u offset %td flags %u; kernel feature size %lu align %lu%s; registration %d", c.off, c.size, c.flags, c.lsz, c.loff, c.lfl, c.ax, c.al, en ? " no system call" : "", reg);
		if (run_case(init_one, &c)) return 1;
	}
	return 0;
}
/* ---- R02: registration histories over two threads ---- */
#define NT 2
struct th { pthread_t t; sem_t go, done; int cmd, ret, raw, start; struct rseq_abi *abi; uint32_t klen; int kreg; } T[NT];
static void *thr(void *v)
{
	struct th *t = v;
	for (;;) {
		sem_wait(&t->go);
		if (t->cmd == 0) t->ret = rseq_register_current_thread(); else if (t->cmd == 1) t->ret = rseq_unregister_current_thread(); else if (t->cmd == 9) return NULL;
		t->raw = rseq_current_cpu_raw(); t->start = rseq_cpu_start(); t->abi = rseq_get_abi(); t->kreg = !!K.p; t->klen = K.len; if (!tls_intact()) fail_("the kernel's fields overlap another thread-local variable"); sem_post(&t->done);
	}
}
static int call(int i, int cmd) { T[i].cmd = cmd; sem_post(&T[i].go); if (cmd != 9) sem_wait(&T[i].done); return T[i].ret; }
struct hist { int n, op[12]; unsigned long ax; int libc; int *err; };
static const int refusals[] = { EPERM, ENOSYS, EINVAL, EFAULT, EBUSY };
static void hist_one(void *v)
{
	struct hist *h = v; aux_size = h->ax; aux_align = 32; int reg[NT] = { 0 }, ever = 0; unsigned k = kfeat();
	if (h->libc) { has_off = has_size = has_flags = 1; libc_size = 32; libc_offset = (uintptr_t) &libc_area.a - (uintptr_t) rseq_thread_pointer(); }
	start_library(); unsigned size0 = rseq_size;
	for (int i = 0; i < NT; i++) { sem_init(&T[i].go, 0, 0); sem_init(&T[i].done, 0, 0); pthread_create(&T[i].t, NULL, thr, &T[i]); call(i, 5); }
	for (int s = 0; s < h->n; s++) {
		int i = h->op[s] & 1, what = h->op[s] >> 1; n_rseq = 0; unsigned sz = rseq_size; cur_cpu = (s + h->op[0] + (int) h->ax) % 3 == 0 ? 0 : s % 2 ? 1 << (3 + 2 * s) : 3 + s; refuse_next = 0;	/* 0 register, 1 unregister, 2 register refused */
		if (what == 2) { refuse_next = refusals[s % 5]; if (ever && !h->libc) *may_abort = 2; }
		int r = call(i, what == 1 ? 1 : 0), o = !i; refuse_next = 0;
		if (h->libc) { if (r || n_rseq || rseq_size != size0) fail_("step %d: C library owns registration: returned %d after %d system calls", s, r, n_rseq); continue; }
		if (what == 0) {
			if (r) { fail_("step %d: registration returned %d although the kernel accepts it", s, r); return; }
			if (!T[i].kreg) { fail_("step %d: registration succeeded but the kernel has no area for the thread", s); return; }
			if (last_ptr != T[i].abi) fail_("step %d: registered area is not the thread's", s);
			if (last_sig != RSEQ_SIG) fail_("step %d: registered with signature %#x", s, last_sig);
			if (rseq_size != k) fail_("step %d: rseq_size %u, the kernel supports %u", s, rseq_size, k);
			if (T[i].klen < rseq_size) fail_("step %d: registered length %u does not cover the advertised feature size %u", s, T[i].klen, rseq_size);
			if (T[i].raw != cur_cpu) fail_("step %d: CPU number reads %d after registration", s, T[i].raw);
			reg[i] = 1; ever = 1;
		} else if (what == 1) {
			if (reg[i]) { if (r || T[i].kreg) fail_("step %d: unregistration returned %d (length %u, registered with %u)", s, r, last_len, T[i].klen); if (T[i].raw != -1 || T[i].start != 0) fail_("step %d: CPU number reads %d after unregistration", s, T[i].raw); reg[i] = 0; }
			else if (r != -1) fail_("step %d: unmatched unregistration returned %d", s, r);
			if (rseq_size != sz) fail_("step %d: unregistration changed rseq_size from %u to %u", s, sz, rseq_size);
		} else {
			if (ever) { fail_("step %d: refused registration after an earlier success did not stop the process (returned %d)", s, r); return; }
			if (r != -1) fail_("step %d: refused registration returned %d", s, r);
			if (rseq_size != sz) fail_("step %d: refused registration changed rseq_size from %u to %u", s, sz, rseq_size);
			if (T[i].raw >= 0) fail_("step %d: CPU number reads %d after a refused registration", s, T[i].raw);
		}
		struct th *q = &T[o]; call(o, 5);
		if (reg[o] != q->kreg) fail_("step %d: the other thread's registration changed", s);
		if (SH->fail) return;
	}
	for (int i = 0; i < NT; i++) { call(i, 9); pthread_join(T[i].t, NULL); }
}
static int gen(struct hist *h, int d, int reg0, int reg1, int ever, int dead)
{
	h->n = d;
	if (d && mine()) { dlen = 0; D("kernel feature size %lu%s:", h->ax, h->libc ? " (C library owns registration)" : ""); for (int i = 0; i < d; i++) D(" T%d:%s", h->op[i] & 1, (h->op[i] >> 1) == 0 ? "register" : (h->op[i] >> 1) == 1 ? "unregister" : "register(refused)"); if (run_case(hist_one, h)) return 1; }
	if (d == depth || dead) return 0;
	for (int t = 0; t < 2; t++) for (int w = 0; w < 3; w++) {
		if (d == 0 && t) continue;
		int *r = t ? &reg1 : &reg0; if (w != 1 && *r && !h->libc) continue;	/* registering twice is not covered */
		int sv = *r; h->op[d] = w << 1 | t; if (w == 0) *r = 1; else if (w == 1) *r = 0;
		if (gen(h, d + 1, reg0, reg1, ever || w == 0, w == 2 && ever && !h->libc)) return 1;
		*r = sv; h->n = d;
	}
	return 0;
}
static int do_hist(void)
{
	static const unsigned long axs[] = { 0, 20, 24, 28, 32, 33, 40, 64, 512 }; struct hist h = { 0 };
	for (unsigned x = 0; x < 9; x++) { h.ax = axs[x]; h.libc = 0; int sv = depth; if (!thorough && x != 3 && x != 6) depth = depth > 4 ? 4 : depth; int r = gen(&h, 0, 0, 0, 0, 0); depth = sv; if (r) return 1; }
	h.ax = 28; h.libc = 1; int sv = depth; depth = depth > 4 ? 4 : depth; int r = gen(&h, 0, 0, 0, 0, 0); depth = sv; return r;
}
/* ---- R04: queries ---- */
struct q_case { int32_t cpu; uint32_t start, node, cid; unsigned size; int os_cpu, os_node, fail; };
static void query_one(void *v)
{
	struct q_case *c = v; has_off = has_size = has_flags = 1; libc_size = 33; libc_offset = (uintptr_t) &libc_area.a - (uintptr_t) rseq_thread_pointer(); start_library();
	cur_cpu = c->os_cpu; cur_node = c->os_node; getcpu_fail = c->fail; n_getcpu = 0;
	libc_area.a.cpu_id = c->cpu; libc_area.a.cpu_id_start = c->start; libc_area.a.node_id = c->node; libc_area.a.mm_cid = c->cid; rseq_size = c->size;
	if (rseq_current_cpu_raw() != c->cpu) fail_("raw CPU query returned %d, the area holds %d", rseq_current_cpu_raw(), c->cpu);
	if (rseq_cpu_start() != c->start) fail_("speculative CPU query returned %u, the area holds %u", rseq_cpu_start(), c->start);
	if (rseq_node_id_available() != (c->size != -1U && c->size >= 24)) fail_("node id availability wrong for feature size %u", c->size);
	if (rseq_mm_cid_available() != (c->size != -1U && c->size >= 28)) fail_("concurrency id availability wrong for feature size %u", c->size);
	if (c->size != -1U && c->size >= 24 && rseq_current_node_id() != c->node) fail_("node query returned %u, the area holds %u", rseq_current_node_id(), c->node);
	if (c->size != -1U && c->size >= 28 && rseq_current_mm_cid() != c->cid) fail_("concurrency id query returned %u, the area holds %u", rseq_current_mm_cid(), c->cid);
	int32_t nd = rseq_fallback_current_node(); if (c->fail ? nd >= 0 : nd != c->os_node) fail_("fallback node query returned %d, the system says %d%s", nd, c->os_node, c->fail ? " (failure)" : "");
	if (!c->fail) { int32_t fc = rseq_fallback_current_cpu(); if (fc != c->os_cpu) fail_("fallback CPU query returned %d, the system says %d", fc, c->os_cpu); }
	n_getcpu = 0; if (c->cpu < 0 && c->fail) *may_abort = 1;
	uint32_t cc = rseq_current_cpu(); 
	if (c->cpu >= 0) { if (cc != (uint32_t) c->cpu) fail_("CPU query returned %u, the area holds %d", cc, c->cpu); if (n_getcpu) fail_("CPU query asked the system although the thread is registered"); }
	else if (cc != (uint32_t) c->os_cpu) fail_("CPU query of an unregistered thread returned %u, the system says %d", cc, c->os_cpu);
}
static int do_query(void)
{
	static const int32_t cpus[] = { -2, -1, 0, 1, 7, 255, 256, 65536, INT_MAX }; static const uint32_t vals[] = { 0, 1, 3, 255, 256, 65535, 65536, 0x7fffffff };
	unsigned sizes[48]; int ns = 0; for (unsigned s = 0; s <= 40; s++) sizes[ns++] = s; sizes[ns++] = 64; sizes[ns++] = 1024; sizes[ns++] = -1U;
	for (unsigned i = 0; i < 9; i++) for (int k = 0; k < ns; k++) for (unsigned n = 0; n < 8; n++) for (unsigned m = 0; m < 4; m++) for (int f = 0; f < 2; f++) {
		if (f && (n || m)) continue;
		if (!thorough && (n + m + k) % 3 && k > 2 && k < 20) continue;
		if (!mine()) continue;
		struct q_case c = { cpus[i], vals[(n + 3) % 8], vals[n], vals[(n * 3 + m) % 8], sizes[k], (int) vals[(m * 2 + n) % 8], (int) vals[(n + m) % 8], f };
		dlen = 0; D("area cpu_id %d cpu_id_start %u node_id %u mm_cid %u, feature size %u; system CPU %d node %d%s", c.cpu, c.start, c.node, c.cid, c.size, c.os_cpu, c.os_node, f ? " (query fails)" : "");
		if (run_case(query_one, &c)) return 1;
	}
	return 0;
}
/* ---- R05: CPU count ---- */
struct cpu_case { const char *list; size_t len; int openerr, readerr, readerr_at; size_t chunk; int cuts[3], ncuts, eintr[3], neintr; long conf; int dirset; long want; int exact; };
static const char *const DS[][8] = { { NULL }, { ".", "..", "cpu0", NULL }, { "cpu0", "cpu1", "cpu2", "cpu3", NULL }, { "cpufreq", "cpu0", "cpuidle", "cpu11", "cpu2", "power", "possible", NULL }, { "cpu10", "cpu9", "cpu100", "smt", NULL }, { "hotplug", NULL }, { "cpu255", "cpu1023", "cpu511", "vulnerabilities", NULL }, { "cpu0", "cpu31x", "cpu2", "cpu", NULL } };
static const long DM[] = { -2, 0, 3, 11, 100, -1, 1023, 2 };
static const unsigned char DT[8] = { DT_DIR, DT_DIR, DT_DIR, DT_DIR, DT_DIR, DT_DIR, DT_DIR, DT_DIR };
static void set_env(struct cpu_case *c)
{
	list_data = c->list; list_len = c->len; list_open_errno = c->openerr; list_read_errno = c->readerr; list_read_err_at = c->readerr_at; chunk = c->chunk; ncuts = c->ncuts; memcpy(cuts, c->cuts, sizeof(c->cuts)); neintr = c->neintr; memcpy(eintr_at, c->eintr, sizeof(c->eintr)); sc_conf = c->conf;
	dir_fail = c->dirset < 0; ndir = 0; if (c->dirset >= 0) { dir_ents = (const char **) DS[c->dirset]; while (ndir < 8 && dir_ents[ndir]) ndir++; dir_types = DT; }
}
static void cpus_one(void *v)
{
	struct cpu_case *c = v; set_env(c);
	int r = rseq_get_max_nr_cpus();
	if (open_fds || open_dirs) fail_("%d file descriptors and %d directory streams left open", open_fds, open_dirs);
	if (c->want < 1) { if (r > 0 && c->exact) fail_("returned %d although nothing could be determined", r); }
	else if (c->exact ? r != c->want : r < c->want) fail_("returned %d, the true count is %s%ld", r, c->exact ? "" : "at least ", c->want);
	if (r > 0) {	/* stable whatever the system says later */
		struct cpu_case d = { "0-1\n", 4, 0, 0, 0, 0, { 0 }, 0, { 0 }, 0, 2, 2, 2, 1 }; set_env(&d); int r2 = rseq_get_max_nr_cpus(); if (r2 != r) fail_("a later call returned %d after %d", r2, r);
		d.openerr = ENOENT; set_env(&d); r2 = rseq_get_max_nr_cpus(); if (r2 != r) fail_("a later call returned %d after %d", r2, r);
	} else {
		struct cpu_case d = { "0-6\n", 4, 0, 0, 0, 0, { 0 }, 0, { 0 }, 0, 2, 2, 7, 1 }; set_env(&d); int r2 = rseq_get_max_nr_cpus(); if (r2 != 7) fail_("once the list is available the count is %d instead of 7", r2);
		if (open_fds || open_dirs) fail_("descriptors left open");
	}
}
static int one_list(const char *s, size_t n, long max)
{
	struct cpu_case c; int ncut = n <= 14 ? 1 << (n - 1) : 0;
#define RUN(what_) do { if (mine()) { dlen = 0; D("list \"%.60s\"%s (%zu bytes): " what_, s, n > 60 ? "..." : "", n, c.chunk, c.ncuts ? c.cuts[0] : 0, c.ncuts > 1 ? c.cuts[1] : 0, c.neintr ? c.eintr[0] : -1); if (run_case(cpus_one, &c)) return 1; } } while (0)
#define INIT() memset(&c, 0, sizeof(c)); c.list = s; c.len = n; c.conf = 1; c.dirset = 1; c.want = max + 1; c.exact = 1
	INIT(); RUN("one read (chunk %zu cuts %d %d eintr %d)");
	(void) ncut;
	/* the other sources disagree with the list, or are not there */
	static const struct { long conf; int ds; } oth[] = { { 128, 6 }, { 128, 1 }, { 1, 6 }, { -1, -1 }, { 4, 3 }, { 0, 5 } };
	for (int o = 0; o < 6; o++) { INIT(); c.conf = oth[o].conf; c.dirset = oth[o].ds; if (o & 1 && n > 1) c.chunk = 1; RUN("other sources disagree (chunk %zu cuts %d %d eintr %d)"); }
	for (size_t k = 1; k <= 8 && k < n; k++) { INIT(); c.chunk = k; RUN("chunk %zu cuts %d %d eintr %d"); }
	if (n <= 40) for (size_t a = 1; a < n; a++) for (size_t b = a; b < n; b++) { if (!thorough && b > a && b - a > 3 && n > 12) continue; INIT(); c.cuts[0] = a; c.cuts[1] = b; c.ncuts = b > a ? 2 : 1; RUN("chunk %zu cut at %d %d eintr %d");
		if (n <= 16) for (int e = 0; e < 4; e++) { c.neintr = 1; c.eintr[0] = e; RUN("chunk %zu cut at %d %d, read %d interrupted"); } }
	for (int e = 0; e < 3; e++) { INIT(); c.neintr = 2; c.eintr[0] = e; c.eintr[1] = e + 1; c.chunk = n > 4 ? n / 2 : 0; RUN("chunk %zu cuts %d %d, reads from %d interrupted"); }
	return 0;
}
static int do_cpus(void)
{
	static char buf[16384];
	/* well-formed sorted lists of one to three ranges */
	static const int ends[] = { 0, 1, 2, 3, 7, 8, 9, 10, 15, 31, 63, 99, 127, 255, 1023, 8191 }; int ne = sizeof(ends) / sizeof(ends[0]);
	for (int nl = 0; nl < 2; nl++) {
		for (int a = 0; a < ne; a++) for (int b = a; b < ne; b++) {
			int n = a == b ? sprintf(buf, "%d", ends[a]) : sprintf(buf, "%d-%d", ends[a], ends[b]); if (nl) buf[n++] = '\n';
			if (one_list(buf, n, ends[b])) return 1;
			for (int d = b + 1; d < ne; d += thorough ? 1 : 3) for (int e = d; e < ne; e += thorough ? 1 : 2) { if (!thorough && a > 3) continue; n = a == b ? sprintf(buf, "%d,", ends[a]) : sprintf(buf, "%d-%d,", ends[a], ends[b]); n += d == e ? sprintf(buf + n, "%d", ends[d]) : sprintf(buf + n, "%d-%d", ends[d], ends[e]); if (nl) buf[n++] = '\n'; if (!thorough && (a + b + d + e) % 3) continue; if (one_list(buf, n, ends[e])) return 1; }
		}
	}
	/* long lists */
	for (int total = 60; total <= 4095; total = total < 4000 ? total * 2 + 1 : total + 19) {
		int n = 0, k = 0; if (total > 4095) break; while (n < total - 8) { n += sprintf(buf + n, "%s%d", n ? "," : "", k); k += 2; } n += sprintf(buf + n, ",%d-%d", k, k + 5); while (n < total && 0) n++; buf[n++] = '\n'; if (n > 4095) break; if (one_list(buf, n, k + 5)) return 1;
	}
	for (int total = 4090; total <= 4095; total++) { int n = 0, k = 1; while (n < total - 12) { n += sprintf(buf + n, "%s%d", n ? "," : "", k); k += 2; } n += sprintf(buf + n, ","); k = 7000; while (n < total - 5) buf[n++] = '0'; n += sprintf(buf + n, "%d", k); buf[n++] = '\n'; if (n <= 4095 && one_list(buf, n, k)) return 1; }
	/* unusable or unavailable lists: fall back */
	static const char *const bad[] = { "", "\n", "abc\n", "-\n", ",\n", "0-\n", "99999999999\n", "2147483647\n", "4294967296\n", "0-18446744073709551615\n", " \n" };
	for (int kind = 0; kind < 11 + 6; kind++) for (int cf = 0; cf < 6; cf++) for (int ds = -1; ds < 8; ds++) {
		static const long conf[] = { -1, 0, 1, 4, 8, 128 }; struct cpu_case c; memset(&c, 0, sizeof(c)); c.conf = conf[cf]; c.dirset = ds; c.exact = 0;
		if (kind < 11) { c.list = bad[kind]; c.len = strlen(bad[kind]); } else { c.list = "0-63\n"; c.len = 5; if (kind == 11) c.openerr = ENOENT; else if (kind == 12) c.openerr = EACCES; else if (kind == 13) c.openerr = EMFILE; else { c.readerr = EIO; c.readerr_at = kind - 14; c.chunk = 2; } }
		long dm = ds < 0 ? -1 : DM[ds] < 0 ? -1 : DM[ds]; c.want = conf[cf] > dm + 1 ? conf[cf] : dm + 1; if (c.want < 1) c.exact = 1;
		if (!mine()) continue;
		dlen = 0; D("list %s, configured CPUs %ld, directory set %d", kind < 11 ? bad[kind] : kind < 14 ? "cannot be opened" : "read error", c.conf, ds); if (run_case(cpus_one, &c)) return 1;
	}
	return 0;
}
int main(int argc, char **argv)
{
	const char *what = ""; g_argc = argc; g_argv = argv;
	for (int i = 1; i < argc; i++) {
		if (!strncmp(argv[i], "what=", 5)) what = argv[i] + 5; else if (!strncmp(argv[i], "depth=", 6)) depth = atoi(argv[i] + 6); else if (!strncmp(argv[i], "shard=", 6)) sscanf(argv[i] + 6, "%d/%d", &shard, &nshard);
		else if (!strncmp(argv[i], "out=", 4)) rp_path = argv[i] + 4; else if (!strcmp(argv[i], "thorough")) thorough = 1;
	}
	if (!getenv("M_STDERR")) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); }
	SH = mmap(NULL, 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); may_abort = (int *) ((char *) SH + 4096);
	int r = !strcmp(what, "init") ? do_init() : !strcmp(what, "hist") ? do_hist() : !strcmp(what, "query") ? do_query() : !strcmp(what, "cpus") ? do_cpus() : 2;
	if (r) return r;
	printf("{\"runs\": %lu, \"cases\": %lu, \"ops\": %lu, \"checks\": %lu, \"stopped\": %lu, \"capped\": 0, \"sample\": ", n_cases, n_cases, (unsigned long) SH->calls, n_cases, n_abort); json_str(stdout, sample); printf("}\n"); return 0;
}
