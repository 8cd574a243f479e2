/* Stateless depth-first enumeration: a run calls choose(n) at every decision; backtrack() moves to the next path. */
#ifndef EXPLORE_H
#define EXPLORE_H
#include "interpose.h"
static int path[256], nalt[256], plen, pos;
static int choose(int n)
{
	if (pos == plen) { if (plen == 256) { printf("{\"error\": \"path too long\"}\n"); exit(2); } path[plen] = 0; nalt[plen] = n; plen++; }
	if (nalt[pos] != n) { printf("{\"error\": \"nondeterministic exploration\"}\n"); exit(2); }
	return path[pos++];
}
static int backtrack(void) { while (plen > 0 && path[plen - 1] + 1 >= nalt[plen - 1]) plen--; if (!plen) return 0; path[plen - 1]++; return 1; }
static char trace[8192]; static int tlen;
static void tr(const char *fmt, ...) { va_list ap; if (tlen > (int) sizeof(trace) - 300) return; va_start(ap, fmt); tlen += vsnprintf(trace + tlen, sizeof(trace) - tlen, fmt, ap); va_end(ap); }
static int shard, nshard = 1, thorough, depth = 4, only = -1, list_only; static const char *what = "";
static uint64_t n_runs, n_ops, n_checks, n_cases, n_faults, n_forks; static char sample[4096];
static const char *cur_name = "";
static void parse_args(int argc, char **argv)
{
	g_argc = argc; g_argv = argv;
	for (int i = 1; i < argc; i++) {
		if (!strncmp(argv[i], "what=", 5)) what = argv[i] + 5; else if (!strncmp(argv[i], "depth=", 6)) depth = atoi(argv[i] + 6);
		else if (!strncmp(argv[i], "shard=", 6)) sscanf(argv[i] + 6, "%d/%d", &shard, &nshard); else if (!strncmp(argv[i], "only=", 5)) only = atoi(argv[i] + 5);
		else if (!strncmp(argv[i], "out=", 4)) rp_path = argv[i] + 4; else if (!strncmp(argv[i], "props=", 6)) props = strtoul(argv[i] + 6, NULL, 0);
		else if (!strncmp(argv[i], "page=", 5)) page_len = atol(argv[i] + 5);
		else if (!strcmp(argv[i], "thorough")) thorough = 1; else if (!strcmp(argv[i], "list")) list_only = 1;
	}
	if (!getenv("M_STDERR")) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); }
}
static int report(void)
{
	FILE *f = fopen(rp_path, "w"); if (f) { fprintf(f, "violation: %s: %s\n%s\n#path", cur_name, v_msg, trace); for (int i = 0; i < plen; i++) fprintf(f, " %d", path[i]); fprintf(f, "\n#command"); for (int i = 0; i < g_argc; i++) fprintf(f, " %s", g_argv[i]); fprintf(f, "\n"); fclose(f); }
	char b[1600]; snprintf(b, sizeof(b), "%s: %s", cur_name, v_msg); printf("{\"violation\": "); json_str(stdout, b); printf("}\n"); return 1;
}
static int summary(void)
{
	watchdog(0);
	printf("{\"runs\": %lu, \"ops\": %lu, \"checks\": %lu, \"cases\": %lu, \"faults\": %lu, \"forks\": %lu, \"syscalls\": %lu, \"capped\": 0, \"sample\": ", n_runs, n_ops, n_checks, n_cases, n_faults, n_forks, n_sys); json_str(stdout, sample); printf("}\n"); return 0;
}
static void sane(void)
{
	if (bad_unmap) fail_("the library unmapped memory it does not own");
	if (bad_fixed) fail_("the library mapped over memory it does not own");
	if (bad_free) fail_("the library freed a block that is not allocated");
	check_heap(); if (heap_smashed) fail_("the library wrote beyond a heap block");
}
static void nothing_left(const char *when)
{
	if (nmaps) fail_("%s: %d mappings (%zu bytes) left behind", when, nmaps, map_total);
	else if (nblocks) fail_("%s: %zu heap blocks left behind", when, nblocks);
	else if (nfds) fail_("%s: %d file descriptors left behind", when, nfds);
}
static size_t round_len(size_t n) { size_t r = 8; while (r < n) r <<= 1; return r; }
static uint8_t pat(int step, int cpu, size_t k) { return (uint8_t) (step * 37 + cpu * 91 + k * 7 + (k >> 8) * 13 + 11); }
#endif
