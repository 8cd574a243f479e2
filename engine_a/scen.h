/* Scenario tables and command line of the explorer. */
#define WD(i) ((intptr_t) &W->sh[i])
enum { V = 0, V2 = 4, N1 = 16, N2 = 20, N3 = 24, PP = 32, BB = 36, BB2 = 44, CTR = 52, CTR2 = 54, DST = 56, SRC = 60, LD = 64, YP = 72, YB = 76, YV = 80, YV2 = 82, YSRC = 84, YCELL = 128 };
static void base_sh(void)
{
	memset(S.sh, 0, sizeof(S.sh));
	for (int i = 0; i < NSH; i++) S.sh[i] = 0x7700000000000000ULL + i;	/* recognisable filler */
	S.sh[V] = WD(N1); S.sh[V2] = WD(N2);
	S.sh[N1] = 1; S.sh[N1 + 1] = WD(N2); S.sh[N2] = 2; S.sh[N2 + 1] = WD(N3); S.sh[N3] = 3; S.sh[N3 + 1] = WD(N1);
	S.sh[PP] = WD(BB); S.sh[BB + 2] = WD(CTR); S.sh[BB2 + 2] = WD(CTR2); S.sh[CTR] = WD(N1); S.sh[CTR2] = WD(N2);
	S.sh[DST] = WD(N2); S.sh[SRC] = WD(100);
	S.sh[LD] = 0; S.sh[LD + 1] = 0; S.sh[LD + 2] = 0;
}
#define XNEW WD(N2)
static void x_args(struct sargs *a, int kind, int mode, int ldslot)
{
	memset(a, 0, sizeof(*a)); a->cpu = mode ? CID_A : CPU_A;
	switch (kind) {
	case K_CBNE_ST: a->v = (intptr_t *) WD(V); a->expect = WD(N1); a->newv = XNEW; break;
	case K_POP: a->v = (intptr_t *) WD(V); a->expect = 0x1234; a->off = 8; a->load = (intptr_t *) WD(LD + ldslot); break;
	case K_ADD: a->v = (intptr_t *) WD(V); a->inc = 8; break;
	case K_OFFADD: a->v = (intptr_t *) WD(PP); a->off = 16; a->inc = 8; break;
	case K_CBNE_ST_ST: a->v = (intptr_t *) WD(V); a->expect = WD(N1); a->newv = XNEW; a->v2 = (intptr_t *) WD(V2); a->x2 = WD(N1); break;
	case K_CBNE_CBNE_ST: a->v = (intptr_t *) WD(V); a->expect = WD(N1); a->newv = XNEW; a->v2 = (intptr_t *) WD(V2); a->x2 = WD(N2); break;
	case K_CBNE_MEMCPY_ST: a->v = (intptr_t *) WD(V); a->expect = WD(N1); a->newv = XNEW; a->dst = (void *) WD(DST); a->src = (void *) WD(SRC); a->len = 2; break;
	}
}
/* words X depends on, with their initial and alternative values */
struct dep { int w; intptr_t old, alt; };
static int x_deps(int kind, struct dep *d)
{
	int n = 0;
	switch (kind) {
	case K_CBNE_ST: case K_ADD: d[n++] = (struct dep) { V, WD(N1), WD(N3) }; break;
	case K_POP: d[n++] = (struct dep) { V, WD(N1), WD(N3) }; d[n++] = (struct dep) { N1 + 1, WD(N2), WD(N3) }; break;
	case K_OFFADD: d[n++] = (struct dep) { PP, WD(BB), WD(BB2) }; d[n++] = (struct dep) { BB + 2, WD(CTR), WD(CTR2) }; d[n++] = (struct dep) { CTR, WD(N1), WD(N3) }; break;
	case K_CBNE_ST_ST: case K_CBNE_CBNE_ST: d[n++] = (struct dep) { V, WD(N1), WD(N3) }; d[n++] = (struct dep) { V2, WD(N2), WD(N3) }; break;
	case K_CBNE_MEMCPY_ST: d[n++] = (struct dep) { V, WD(N1), WD(N3) }; d[n++] = (struct dep) { DST, WD(N2), WD(N3 + 40) }; break;
	}
	return n;
}
static int y_args(struct sargs *a, int kind, int mode, int way, struct dep d)	/* an op that changes d.w from old to alt */
{
	memset(a, 0, sizeof(*a)); a->cpu = mode ? CID_A : CPU_A; intptr_t *w = (intptr_t *) WD(d.w);
	S.sh[d.w] = d.old;
	if (way && kind != K_CBNE_ST_ST && kind != K_CBNE_MEMCPY_ST) return 0;
	S.sh[YV] = 7; S.sh[YV2] = 8; S.sh[YSRC] = d.alt; S.sh[YP] = WD(YB); S.sh[YB + 1] = (uint64_t) w; S.sh[YCELL] = d.alt;
	switch (kind) {
	case K_CBNE_ST: a->v = w; a->expect = d.old; a->newv = d.alt; break;
	case K_POP: a->v = w; a->expect = 0x1234; a->off = WD(YCELL) - d.old; a->load = (intptr_t *) WD(LD + 1); break;
	case K_ADD: a->v = w; a->inc = d.alt - d.old; break;
	case K_OFFADD: a->v = (intptr_t *) WD(YP); a->off = 8; a->inc = d.alt - d.old; break;
	case K_CBNE_ST_ST:
		if (!way) { a->v = w; a->expect = d.old; a->newv = d.alt; a->v2 = (intptr_t *) WD(YV2); a->x2 = 9; }
		else { a->v = (intptr_t *) WD(YV); a->expect = 7; a->newv = 9; a->v2 = w; a->x2 = d.alt; } break;
	case K_CBNE_CBNE_ST: a->v = w; a->expect = d.old; a->newv = d.alt; a->v2 = (intptr_t *) WD(YV2); a->x2 = 8; break;
	case K_CBNE_MEMCPY_ST:
		a->src = (void *) WD(YSRC); a->len = 2;
		if (!way) { a->v = w; a->expect = d.old; a->newv = d.alt; a->dst = (void *) WD(YV2); }
		else { a->v = (intptr_t *) WD(YV); a->expect = 7; a->newv = 9; a->dst = w; } break;
	}
	return 1;
}
static struct sc { int type, x, y, way, w, opt; } *scl; static int nscl;
static void add_sc(int type, int x, int y, int way, int w, int opt) { scl = realloc(scl, (nscl + 1) * sizeof(*scl)); scl[nscl++] = (struct sc) { type, x, y, way, w, opt }; }
enum { T_PAIR, T_SIGNAL, T_SINGLE, T_CHAOS, T_UNLOAD, T_ALONE };
static int setup(struct sc *c)
{
	const struct subj_ent *X = &subj_table[c->x], *Y = &subj_table[c->y]; struct dep d[4]; static const char *tn[] = { "pair", "signal", "single", "chaos", "unload", "alone" };
	memset(&S, 0, sizeof(S)); base_sh();
	S.nthreads = 1; S.nops[0] = 1; S.op[0][0].ent = c->x; x_args(&S.op[0][0].a, X->kind, X->mode, 0);
	if (X->kind == K_CBNE_MEMCPY_ST) S.op[0][0].a.len = c->type == T_PAIR || c->type == T_SIGNAL ? 2 : 3;
	snprintf(S.name, sizeof(S.name), "%s %s", tn[c->type], X->name);
	switch (c->type) {
	case T_PAIR: case T_SIGNAL: {
		int nd = x_deps(X->kind, d); if (c->w >= nd) return 0;
		S.nthreads = 2; S.nops[1] = 1; S.op[1][0].ent = c->y; S.events_on = 1; S.max_events = c->opt;
		if (!y_args(&S.op[1][0].a, Y->kind, Y->mode, c->way, d[c->w])) return 0;
		if (c->type == T_SIGNAL) S.nest[1] = 1;
		snprintf(S.name, sizeof(S.name), "%s %s vs %s on word %d way %d", tn[c->type], X->name, Y->name, d[c->w].w, c->way);
		return 1; }
	case T_SINGLE: S.events_on = 1; if (c->opt) S.sh[V] = WD(N3); if (c->opt && X->kind == K_POP) S.sh[V] = 0x1234; if (c->opt == 2) { S.sh[V] = WD(N1); S.sh[V2] = WD(N3); } return 1;
	case T_CHAOS: S.chaos_on = c->opt; return 1;
	case T_UNLOAD: S.events_on = 1; S.nops[0] = 2; S.op[0][1].ent = c->y; if (c->opt) { S.sh[V] = WD(N3); if (X->kind == K_POP) S.sh[V] = 0x1234; } return 1;
	case T_ALONE: return 1;
	}
	return 0;
}
static void list_sc(const char *what, int bound)
{
	for (int x = 0; x < subj_nr; x++) {
		const struct subj_ent *X = &subj_table[x]; if (X->kind >= K_UNLOAD || X->flags) continue;
		if (!strcmp(what, "pair") || !strcmp(what, "signal") || !strcmp(what, "both"))
			for (int w = 0; w < 3; w++) for (int y = 0; y < subj_nr; y++) {
				const struct subj_ent *Y = &subj_table[y]; if (Y->kind >= K_UNLOAD || Y->flags || Y->mode != X->mode) continue;
				for (int way = 0; way < 2; way++) {
					struct sc c = { T_PAIR, x, y, way, w, bound }; if (!setup(&c)) continue;
					if (what[0] != 's') add_sc(T_PAIR, x, y, way, w, bound);
					if (what[0] != 'p') add_sc(T_SIGNAL, x, y, way, w, bound);
				}
			}
		if (!strcmp(what, "single")) for (int o = 0; o < 3; o++) { if (o == 2 && X->kind != K_CBNE_CBNE_ST) continue; add_sc(T_SINGLE, x, x, 0, 0, o); }
		if (!strcmp(what, "chaos")) add_sc(T_CHAOS, x, x, 0, 0, bound ? bound : 3);
		if (!strcmp(what, "unload")) for (int y = 0; y < subj_nr; y++) if (subj_table[y].kind >= K_UNLOAD) { add_sc(T_UNLOAD, x, y, 0, 0, 0); add_sc(T_UNLOAD, x, y, 0, 0, 1); }
	}
}
#include "native.h"
static int scen_main(int argc, char **argv)
{
	const char *what = "both", *replay = NULL, *rpout = "/tmp/replay.txt"; int shard = 0, nshard = 1, bound = 0, i, only = -1; double t0 = now(), limit = 0;
	props = 1u << 1;
	for (i = 1; i < argc; i++) {
		if (!strncmp(argv[i], "what=", 5)) what = argv[i] + 5;
		else if (!strncmp(argv[i], "shard=", 6)) sscanf(argv[i] + 6, "%d/%d", &shard, &nshard);
		else if (!strncmp(argv[i], "bound=", 6)) bound = atoi(argv[i] + 6);
		else if (!strncmp(argv[i], "only=", 5)) only = atoi(argv[i] + 5);
		else if (!strncmp(argv[i], "limit=", 6)) limit = atof(argv[i] + 6);
		else if (!strncmp(argv[i], "replay=", 7)) replay = argv[i] + 7;
		else if (!strcmp(argv[i], "noreduce")) no_reduction = 1;
		else if (!strncmp(argv[i], "out=", 4)) rpout = argv[i] + 4;
		else if (!strncmp(argv[i], "props=", 6)) props = strtoul(argv[i] + 6, NULL, 0);
	}
	if (!no_reduction) {	/* classification pass */
		unsigned save = props; props = 0; classify = 1; struct sc c;
		for (int x = 0; x < subj_nr; x++) if (!subj_table[x].flags) { c = (struct sc) { T_CHAOS, x, x, 0, 0, 2 }; setup(&c); run_search(); }
		classify = 0; props = save; violation = 0;
		if (nrips) {
			rip_lo = ~0UL; for (unsigned k = 0; k < nrips; k++) { if (rips[k].rip < rip_lo) rip_lo = rips[k].rip; if (rips[k].rip >= rip_hi) rip_hi = rips[k].rip + 1; }
			rip_local = calloc(1, rip_hi - rip_lo);
			for (unsigned k = 0; k < nrips; k++) if (!rips[k].touch) rip_local[rips[k].rip - rip_lo] = 1;
		}
	}
	if (!strcmp(what, "values")) return native_values(shard, nshard, rpout);
	if (!strcmp(what, "biglen")) return native_biglen(shard, rpout);
	if (!strcmp(what, "gating")) return native_gating(rpout);
	if (!strcmp(what, "conform")) return native_conform(rpout);
	list_sc(what, bound);
	if (replay) {
		FILE *f = fopen(replay, "r"); char line[256]; uint16_t *acts = NULL; int n = 0, sc = -1; unsigned p;
		while (f && fgets(line, sizeof(line), f)) { int v; if (sscanf(line, "#scenario %d", &v) == 1) sc = v; if (sscanf(line, "#props %x", &p) == 1) props = p; if (sscanf(line, "#act %d", &v) == 1) { acts = realloc(acts, (n + 1) * 2); acts[n++] = v; } }
		if (sc < 0 || sc >= nscl || !setup(&scl[sc])) { fprintf(stderr, "bad replay file\n"); return 2; }
		printf("scenario: %s\n", S.name);
		run_replay(acts, n, stdout); printf("%s\n", violation ? vmsg : "no violation"); return violation ? 1 : 0;
	}
	uint64_t ts = 0, tt = 0, tst = 0, tk = 0, tc = 0, ta = 0, r0 = 0, r1 = 0, r2 = 0; int done = 0, capped = 0, skipped = 0;
	for (i = 0; i < nscl; i++) {
		if (only >= 0 ? i != only : i % nshard != shard) continue;
		if (limit && now() - t0 > limit) { skipped++; continue; }
		setup(&scl[i]); run_search(); done++;
		ts += n_states; tt += n_trans; tst += n_steps; tk += n_kev; tc += n_commit; ta += n_abort; r0 += n_ret[0]; r1 += n_ret[1]; r2 += n_ret[2];
		if (n_states > max_states) capped++;
		if (violation) {
			char msg[600]; strcpy(msg, vmsg); uint16_t acts[20000]; int n = 0; acts[n++] = vact;
			for (uint32_t k = vnode; nodes[k].act != 0xfff && n < 20000; k = nodes[k].parent) acts[n++] = nodes[k].act;
			for (int k = 0; k < n / 2; k++) { uint16_t tmp = acts[k]; acts[k] = acts[n - 1 - k]; acts[n - 1 - k] = tmp; }
			FILE *f = fopen(rpout, "w"); if (!f) return 2;
			fprintf(f, "scenario: %s\nviolation: %s\n", S.name, msg);
			int again = run_replay(acts, n, f); char m2[600]; strcpy(m2, vmsg);
			if (again == 1) again = run_replay(acts, n, NULL);
			fprintf(f, "\n#what %s bound %d\n#scenario %d\n#props %x\n", what, bound, i, props); for (int k = 0; k < n; k++) fprintf(f, "#act %d\n", acts[k]); fclose(f);
			if (again != 1) { fprintf(stderr, "replay did not reproduce (%s / %s)\n", msg, m2); return 3; }
			printf("{\"violation\": \"%s: %s\", \"scenario\": %d}\n", S.name, msg, i); return 1;
		}
	}
	printf("{\"scenarios\": %d, \"skipped\": %d, \"capped\": %d, \"states\": %lu, \"transitions\": %lu, \"steps\": %lu, \"kernel_events\": %lu, \"commits\": %lu, \"aborts\": %lu, \"ret0\": %lu, \"ret1\": %lu, \"retm1\": %lu, \"sample\": \"%s\"}\n",
		done, skipped, capped, ts, tt, tst, tk, tc, ta, r0, r1, r2, S.name);
	return 0;
}
