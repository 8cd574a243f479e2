/*
 * NUMA placement helper (M13): every combination of range length around the batch boundaries, flags, node lookup result and
 * kernel answer per request; the requests made are compared with the exact page list.
 */
#include "explore.h"
#include <numaif.h>
#define PG ((size_t) page_len)
static int nodes_of[4] = { 0, 1, -1, 5 }; static char *base; static size_t npages; static uint8_t seen[70000]; static int want_node, want_flags, calls, resp[16], nresp, bad; static char badmsg[300]; static uint64_t pages_total;
#define BAD(...) do { if (!bad) { bad = 1; snprintf(badmsg, sizeof(badmsg), __VA_ARGS__); } } while (0)
int h_numa_node_of_cpu(int cpu) { if (cpu < 0 || cpu > 3) { BAD("node of cpu %d requested", cpu); return -1; } if (nodes_of[cpu] < 0) errno = EINVAL; return nodes_of[cpu]; }
long h_move_pages(int pid, unsigned long count, void **pages, const int *nodes, int *status, int flags)
{
	if (pid != 0 && pid != getpid()) BAD("pages of process %d requested", pid);
	if (flags != want_flags) BAD("flags %#x passed instead of %#x", flags, want_flags);
	if (!nodes || !status) { BAD("no node or status array"); return -1; }
	for (unsigned long k = 0; k < count; k++) {
		char *p = pages[k]; if (p < base || (size_t) (p - base) % PG || (size_t) (p - base) / PG >= npages) { BAD("page %p is not a page of the range", p); continue; }
		if (seen[(p - base) / PG]++) BAD("page %zu requested twice", (size_t) (p - base) / PG);
		if (nodes[k] != want_node) BAD("page %zu: node %d requested instead of %d", (size_t) (p - base) / PG, nodes[k], want_node);
		pages_total++; status[k] = want_node;
	}
	n_ops++;
	int r = calls < 16 ? resp[calls] : 0; calls++;
	if (calls > nresp) r = 0;
	if (r == -1) { errno = ENODEV; return -1; }
	if (r > 0 && count) status[count - 1] = -ENOMEM;
	return r;
}
static int one(size_t n, size_t extra, int cpu, int flags, int nb, int code)
{
	v_set = 0; tlen = 0; trace[0] = 0; bad = 0; calls = 0; npages = n; base = (char *) 0x7000000000UL + (n % 3) * PG; want_node = nodes_of[cpu]; want_flags = flags; memset(seen, 0, n); nresp = nb;
	int neg = 0; for (int k = 0, c = code; k < nb; k++, c /= 3) { resp[k] = c % 3 == 0 ? 0 : c % 3 == 1 ? 3 : -1; if (resp[k] < 0) neg = 1; }
	tr("%zu pages + %zu bytes, cpu %d, flags %#x, answers", n, extra, cpu, flags); for (int k = 0; k < nb; k++) tr(" %d", resp[k]); tr("\n");
	int ret = 99; watchdog(60); errno = 0; int g = GUARD(ret = rseq_mempool_range_init_numa(base, n * PG + extra, cpu, flags)); int e = errno; n_cases++; n_runs++; n_checks++;
	tr(" returned %d errno %d after %d requests\n", ret, e, calls);
	if (g) { fail_("%s", guard_name[g]); return 1; }
	if (bad) { fail_("%s", badmsg); return 1; }
	if (!flags) { if (ret != -1 || e != EINVAL || calls) fail_("called without flags: returned %d, errno %d, %d requests made", ret, e, calls); return v_set; }
	if (want_node < 0) { if (ret >= 0 || calls) fail_("node unknown: returned %d, %d requests made", ret, calls); return v_set; }
	int used_neg = 0; for (int k = 0; k < calls && k < nb; k++) used_neg |= resp[k] < 0;
	(void) neg;
	if (used_neg) { if (ret >= 0) fail_("returned %d although the kernel refused a request", ret); else if (e != ENODEV) fail_("errno %d instead of the kernel's", e); return v_set; }
	if (ret) { fail_("returned %d although the kernel accepted every request", ret); return 1; }
	for (size_t k = 0; k < n; k++) if (!seen[k]) { fail_("page %zu of %zu was never requested", k, n); return 1; }
	return v_set;
}
int main(int argc, char **argv)
{
	parse_args(argc, argv); catch_crashes(); cur_name = "NUMA placement"; int idx = 0;
	const size_t extra[] = { 0, 1, PG - 1 }; static const int fl[] = { 0, MPOL_MF_MOVE, MPOL_MF_MOVE_ALL, MPOL_MF_MOVE | MPOL_MF_MOVE_ALL };
	static size_t ns[600]; int nn = 0; for (size_t k = 0; k <= 64; k++) ns[nn++] = k;
	for (size_t b = 256; b <= (thorough ? 65536 : 16384); b *= 2) for (int d = -2; d <= 2; d++) ns[nn++] = b + d;
	for (size_t b = 4096; b <= (thorough ? 40960 : 20480); b += 4096) for (int d = -1; d <= 1; d++) ns[nn++] = b + d;
	for (int i = 0; i < nn; i++) {
		if (idx++ % nshard != shard) continue;
		size_t n = ns[i]; int nb = (int) ((n + 4095) / 4096); if (nb > 5) nb = 5; int codes = 1; for (int k = 0; k < nb; k++) codes *= 3;
		for (int x = 0; x < 3; x++) for (int cpu = 0; cpu < 4; cpu++) for (int f = 0; f < 4; f++) for (int c = 0; c < (f == 1 && x == 0 && cpu == 1 ? codes : nb ? 3 : 1); c++) if (one(n, extra[x], cpu, fl[f], nb, c)) return report();
		if (!sample[0]) snprintf(sample, sizeof(sample), "%s", trace);
	}
	return summary();
}
