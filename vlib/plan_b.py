"""M07, R03 and the concurrent part of M02: engine B (all schedules within a preemption bound, on the instrumented library)."""
import time
from .core import *
from .plan_m import sharded

B = os.path.join(VERIF, "engine_b")
REDIR = ("strndup reallocarray aligned_alloc posix_memalign asprintf vasprintf explicit_bzero mempcpy bcmp pthread_rwlock_tryrdlock pthread_rwlock_trywrlock mmap mmap64 munmap calloc malloc realloc free strdup abort memcpy memmove memset bzero memcmp sched_yield"
         " pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_once"
         " pthread_spin_init pthread_spin_destroy pthread_spin_lock pthread_spin_trylock pthread_spin_unlock"
         " pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock").split()


def build(ctx, prog, redir=(), extra=(), libdata=False):
    with open(ctx.path("cfgb.h"), "w") as f:
        f.write("#ifndef _GNU_SOURCE\n#define _GNU_SOURCE 1\n#endif\n")
    objs = []

    def one(s):
        o = ctx.path("b-%s.o" % s)
        ctx.sh("gcc", "-O2", "-g", "-w", "-U_FORTIFY_SOURCE", "-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memset", "-fno-builtin-memcmp", "-fno-builtin-bzero", "-include", ctx.path("cfgb.h"),
               "-I" + REPO + "/include", "-I" + REPO + "/src", *extra, "-c", REPO + "/src/" + s, "-o", o)
        if libdata:
            ren = []
            for l in ctx.sh("objdump", "-h", o).splitlines():
                w = l.split()
                if len(w) > 2 and w[0].isdigit():
                    if w[1].startswith((".init_array", ".ctors")):
                        ren += ["--rename-section", w[1] + "=ctor_arr"]
                    elif w[1].startswith((".fini_array", ".dtors")):
                        ren += ["--rename-section", w[1] + "=dtor_arr"]
                    elif w[1].split(".")[1:2] in (["data"], ["bss"]) and ".rel.ro" not in w[1]:
                        ren += ["--rename-section", w[1] + "=libdata,alloc,load,data,contents"]
            ctx.sh("objcopy", *ren, o)
        ctx.sh("objcopy", *sum([["--redefine-sym", "%s=h_%s" % (x, x)] for x in list(REDIR) + list(redir)], []), "--redefine-sym", "__assert_fail=h_assert_fail", o)
        return o
    srcs = sorted(f for f in os.listdir(REPO + "/src") if f.endswith(".c"))
    ctx.par([lambda s=s: objs.append(one(s)) for s in srcs])
    return objs


def link(ctx, prog, objs):
    out = ctx.path(prog)
    ctx.sh("gcc", "-O2", "-g", "-w", "-I" + REPO + "/include", B + "/%s.c" % prog, *sorted(objs), "-o", out, "-ldl", "-lpthread")
    return out


def cov(ctx, r, pb, note):
    ctx.assumptions += ["sequentially consistent interleavings of the instrumented accesses (the memory model is C06's)", "preemption bound %s; blocking and finishing threads switch for free" % pb]
    s = [o["sample"][:1200] for o in r if o.get("sample")]
    return {"states": add(r, "points"), "transitions": add(r, "switches"), "traces_validated_against_impl": add(r, "schedules"), "schedules": add(r, "schedules"), "scenarios": add(r, "scenarios"), "calls": add(r, "ops"),
            "searches": add(r, "searches"), "scenarios_with_bound_2_only": add(r, "reduced"), "scenarios_cut_short": add(r, "cut"), "preemption_bound": pb, "exhaustive": not add(r, "cut"), "samples": s[:3] + [note]}


NOTE = "every schedule is executed on the library itself; states = scheduling points passed, transitions = context switches, traces = complete schedules judged"


def soft(n=300):
    """Jobs may take as long as they need until then; later ones give up after hard seconds (evidence: scenarios_cut_short)."""
    return "soft=%d" % (time.time() + n)


def m07(ctx):
    exe = link(ctx, "conc", build(ctx, "conc"))
    q = ctx.quick
    ex = ["budget=40", "hard=50", soft(200)] if q else ["thorough"]
    r = ctx.run_jobs(sharded(ctx, exe, 48, "what=pool", "pb=3" if q else "pb=6", *ex) + sharded(ctx, exe, 32, "what=set", "pb=3" if q else "pb=6", *ex), timeout=850 if q else 40000)
    return cov(ctx, r, 3 if q else 6, NOTE)


def m02(ctx):
    """The sequential part (engine M) plus initialising allocations against concurrent writers of neighbouring items."""
    from . import plan_m
    cov_ = plan_m.m02(ctx)
    exe = link(ctx, "conc", build(ctx, "conc"))
    q = ctx.quick
    pb = 2 if q else 3
    r = ctx.run_jobs(sharded(ctx, exe, 48, "what=init", "pb=%d" % pb, *(["hard=60", soft()] if q else ["budget=20000"])) + sharded(ctx, exe, 8, "what=cow", "pb=%d" % (pb + 1), *(["budget=60"] if q else ["budget=20000"])), timeout=850 if q else 40000)
    if add(r, "known"):
        if not listed("M02", "page copy of a neighbour's first write"):
            raise Violation([o["known_msg"] for o in r if o.get("known")][0], os.path.join(VERIF, "known-findings.txt"))
        ctx.known.append("an initialising allocation from a COW_INIT pool that runs while the kernel's page copy of a neighbour's first write is under way can return an item with stale content on that CPU")
    c2 = cov(ctx, r, pb, NOTE)
    cov_["concurrent"] = {k: v for k, v in c2.items() if k != "samples"}
    cov_["samples"] = cov_["samples"] + c2["samples"][:1]
    cov_["known_finding_schedules"] = add(r, "known")
    return cov_


def r03(ctx):
    exe = link(ctx, "init", build_init(ctx))
    q = ctx.quick
    r = ctx.run_jobs(sharded(ctx, exe, 64, "pb=3" if q else "pb=5", *(["budget=60", "hard=60", soft()] if q else ["thorough", "budget=20000"])), timeout=850 if q else 40000)
    c = cov(ctx, r, 3 if q else 5, NOTE)
    ctx.assumptions += ["the C library, kernel and sysfs are the models in engine_b/init.c"]
    return c


def build_init(ctx):
    return build(ctx, "init", "dlsym getauxval syscall sched_getcpu open open64 openat read close fopen opendir readdir readdir64 closedir sysconf".split(), libdata=True)


PLANS = {"R03": r03, "M07": m07, "M02": m02}
