"""R01, R02, R04, R05: start-up, registration, queries and CPU counting against a modelled C library, kernel and sysfs."""
from .core import *
from .plan_m import mc, sharded

R = os.path.join(VERIF, "engine_r")
REDIR = "dlsym getauxval syscall sched_getcpu getcpu open open64 openat read pread close fopen opendir readdir readdir64 closedir sysconf abort get_nprocs_conf get_nprocs openat64 pread64 fopen64 scandir scandir64".split()


def build(ctx, prog="renv"):
    with open(ctx.path("cfg.h"), "w") as f:
        f.write("#ifndef _GNU_SOURCE\n#define _GNU_SOURCE 1\n#endif\n")
    objs = []
    for s in sorted(f[:-2] for f in os.listdir(REPO + "/src") if f.endswith(".c") and f != "rseq-mempool.c"):
        o = ctx.path("r-%s.o" % s)
        ctx.sh("gcc", "-O2", "-g", "-w", "-U_FORTIFY_SOURCE", "-fsanitize=bounds", "-fsanitize-trap=bounds", "-include", ctx.path("cfg.h"), "-I" + REPO + "/include", "-I" + REPO + "/src", "-c", REPO + "/src/%s.c" % s, "-o", o)
        ren = []
        for l in ctx.sh("objdump", "-h", o).splitlines():
            w = l.split()
            if len(w) > 2 and w[0].isdigit() and w[1].startswith((".init_array", ".ctors")):
                ren += ["--rename-section", w[1] + "=ctor_arr"]
            elif len(w) > 2 and w[0].isdigit() and w[1].startswith((".fini_array", ".dtors")):
                ren += ["--rename-section", w[1] + "=dtor_arr"]
        ctx.sh("objcopy", *sum([["--redefine-sym", "%s=h_%s" % (x, x)] for x in REDIR], []), "--redefine-sym", "__assert_fail=h_assert_fail", *ren, o)
        objs.append(o)
    exe = ctx.path(prog)
    ctx.sh("gcc", "-O2", "-g", "-w", "-I" + REPO + "/include", R + "/%s.c" % prog, *objs, "-o", exe, "-ldl", "-lpthread")
    return exe


def plan(what, note, quick=(), deep=("thorough",), n=16):
    def f(ctx):
        exe = build(ctx)
        r = ctx.run_jobs(sharded(ctx, exe, n, "what=" + what, *(quick if ctx.quick else deep)), timeout=850 if ctx.quick else 40000)
        cov = mc(ctx, r, note)
        cov["traces_validated_against_impl"] = add(r, "cases")
        cov["process_stops_expected_and_seen"] = add(r, "stopped")
        ctx.assumptions[:] = ["the C library, kernel and sysfs are the models in engine_r/renv.c (rseq system-call rules of Linux 6.x); the library code is the real one"]
        return cov
    return f


PLANS = {"R01": plan("init", "every combination of exposed C library symbols, sizes, offsets, kernel feature sizes, alignment, system-call existence and registration outcome, each in its own process"),
         "R02": plan("hist", "every history of register / refused register / unregister calls by two threads up to the depth, for every kernel feature size, each in its own process", ("depth=5",), ("depth=7", "thorough")),
         "R04": plan("query", "every combination of area contents, feature size and operating-system answer"),
         "R05": plan("cpus", "every list x read splitting x interruption and every fallback combination of the stated domains, each in its own process")}
