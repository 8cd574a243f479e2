"""M01-M06, M08-M14: the memory allocator, engine M (exhaustive operation, fault and parameter sequences on the real library, checked against a reference model)."""
from .core import *

M = os.path.join(VERIF, "engine_m")
REDIR = ("mmap munmap madvise memfd_create ftruncate close calloc malloc realloc free strdup strndup aligned_alloc posix_memalign abort move_pages numa_node_of_cpu"
         " reallocarray asprintf vasprintf mmap64 ftruncate64 sysconf getpagesize getauxval").split()


def repo_objs(ctx, cc=("gcc", "-O2"), tag="", extra=()):
    """Compiles /repo/src/*.c with the system interface redirected to the stand-ins."""
    with open(ctx.path("cfg.h"), "w") as f:
        f.write("#define HAVE_LIBNUMA 1\n#ifndef _GNU_SOURCE\n#define _GNU_SOURCE 1\n#endif\n")
    srcs = sorted(f for f in os.listdir(REPO + "/src") if f.endswith(".c"))
    objs = [ctx.path("%s%s.o" % (tag, s[:-2])) for s in srcs]

    def one(s, o):
        ctx.sh(*cc, "-g", "-w", "-U_FORTIFY_SOURCE", "-fsanitize=bounds", "-fsanitize-trap=bounds", "-ftrivial-auto-var-init=pattern", "-include", ctx.path("cfg.h"), "-I" + REPO + "/include", "-I" + REPO + "/src", *extra, "-c", REPO + "/src/" + s, "-o", o)
        ctx.sh("objcopy", *sum([["--redefine-sym", "%s=h_%s" % (x, x)] for x in REDIR], []), "--redefine-sym", "__assert_fail=h_assert_fail", o)
    ctx.par([lambda s=s, o=o: one(s, o) for s, o in zip(srcs, objs)])
    return objs


def build(ctx, prog, cc=("gcc", "-O2"), tag=""):
    out = ctx.path(tag + prog)
    objs = repo_objs(ctx, cc, tag)
    ctx.sh("gcc", "-O2", "-g", "-w", "-I" + REPO + "/include", M + "/%s.c" % prog, *objs, "-o", out, "-ldl", "-lpthread", "-Wl,--unresolved-symbols=ignore-all")
    return out


def per_cfg(ctx, exe, what, set_, props, **kw):
    n = int(ctx.sh(exe, "set=" + set_, "list"))
    flags = kw.pop("flags", [])
    ex = ["%s=%s" % (k, v) for k, v in kw.items()] + flags
    return [("%s-%s-%d%s%s" % (what, set_, i, "-two" if "two" in flags else "", "-after%s" % kw["prefill"] if "prefill" in kw else ""), [exe, "what=" + what, "set=" + set_, "props=%#x" % props, "only=%d" % i, "out=@REPLAY@"] + ex) for i in range(n)]


ASSUME = ["x86-64 Linux of this sandbox executes the real mappings; ordering across threads is M07's and M02's concurrent part",
          "stand-ins for malloc/mmap/... (engine_m/interpose.h) behave as the C library's, plus accounting"]


def mc(ctx, r, note, extra=None):
    ctx.assumptions += ASSUME
    s = [o["sample"][:1500] for o in r if o.get("sample")]
    cov = {"states": add(r, "checks") or add(r, "runs"), "transitions": add(r, "ops"), "traces_validated_against_impl": add(r, "runs"), "system_calls": add(r, "syscalls"),
           "exhaustive": add(r, "capped") == 0, "jobs": len(r), "samples": (s[:2] + s[-2:])[:4] + [note]}
    for k in ("misuses", "detected", "faults", "cases", "forks", "schedules"):
        if add(r, k):
            cov[k] = add(r, k)
    cov.update(extra or {})
    return cov


NOTE = "every sequence of enabled operations within the bounds is executed on the library itself and compared with the reference model after every operation; states = model/implementation states compared, traces = histories executed"


def big(ctx, n=0):
    """Pools beyond 2^32 bytes; the last job is the address macro."""
    exe = build(ctx, "big")
    return [("big-%d" % i, [exe, "only=%d" % i, "out=@REPLAY@"]) for i in range(int(ctx.sh(exe, "list")) - n)]


def scale(ctx, props, *what, n=8):
    """Many ranges, many items per range, one difference anywhere in an item."""
    exe = build(ctx, "scale")
    fl = [] if ctx.quick else ["thorough"]
    return [("scale-%s-%d" % (w, k), [exe, "what=" + w, "props=%#x" % props, "shard=%d/%d" % (k, n), "out=@REPLAY@"] + fl) for w in what for k in range(n)]


def m01(ctx):
    exe = build(ctx, "seq")
    q = ctx.quick
    s = "main" if q else "main+"
    j = per_cfg(ctx, exe, "seq", s, 2, depth=6 if q else 8) + per_cfg(ctx, exe, "seq", "main", 2, depth=4 if q else 6, flags=["two"])
    j += per_cfg(ctx, exe, "seq", "def", 2, depth=4 if q else 6)
    j += per_cfg(ctx, exe, "seq", "small" if q else "small+", 2, depth=5 if q else 7)
    for n in (62, 254):
        j += per_cfg(ctx, exe, "seq", "hi+", 2, depth=4 if q else 6, prefill=n, w=1)
    j += per_cfg(ctx, exe, "seq", "wide", 2, depth=4 if q else 5, al="0x5", w=1, maxlive=2) + scale(ctx, 2, "ranges", "items", "place")
    r = ctx.run_jobs(j, timeout=850 if q else 40000)
    return mc(ctx, r, NOTE)


def m02(ctx):
    exe = build(ctx, "seq")
    q = ctx.quick
    j = per_cfg(ctx, exe, "seq", "main" if q else "main+", 4, depth=5 if q else 7, al="0xf", w=3, maxlive=3)
    j += per_cfg(ctx, exe, "seq", "cb", 4, depth=4 if q else 6, al="0xf", w=1)
    j += per_cfg(ctx, exe, "seq", "small" if q else "small+", 4, depth=4 if q else 6, al="0xf", w=3)
    j += per_cfg(ctx, exe, "seq", "hi+", 4, depth=4 if q else 5, al="0xf", w=1, prefill=254)
    j += per_cfg(ctx, exe, "seq", "wide", 4, depth=4 if q else 5, al="0xc" if q else "0xf", w=1, maxlive=2) + big(ctx, 1) + scale(ctx, 4, "ranges", "items", "pos", "place")
    r = ctx.run_jobs(j, timeout=850 if q else 40000)
    return mc(ctx, r, NOTE)


def m03(ctx):
    exe = build(ctx, "seq")
    q = ctx.quick
    j = per_cfg(ctx, exe, "seq", "cap", 8, depth=10 if q else 14, al="0x1", w=0, maxlive=99)
    j += per_cfg(ctx, exe, "fill", "fill" if q else "fill+", 8) + scale(ctx, 8, "ranges", "items", "place")
    r = ctx.run_jobs(j, timeout=850 if q else 40000)
    return mc(ctx, r, NOTE)


def m04(ctx):
    exe = build(ctx, "seq")
    q = ctx.quick
    j = per_cfg(ctx, exe, "seq", "main" if q else "main+", 0x10, depth=6 if q else 8, al="0x1", w=3)
    j += per_cfg(ctx, exe, "seq", "def", 0x10, depth=5 if q else 7, al="0x3", w=3)
    j += per_cfg(ctx, exe, "seq", "small" if q else "small+", 0x10, depth=5 if q else 7, al="0x3", w=1)
    j += per_cfg(ctx, exe, "seq", "wide", 0x10, depth=4 if q else 5, al="0x1", w=1, maxlive=2)
    j += big(ctx) + scale(ctx, 0x12, "place")
    r = ctx.run_jobs(j, timeout=850 if q else 40000)
    return mc(ctx, r, NOTE + "; pools beyond 2^32 bytes and the address macro over a boundary domain (engine_m/big.c)")


def m05(ctx):
    exe = build(ctx, "seq")
    q = ctx.quick
    j = per_cfg(ctx, exe, "misuse", "robust", 0x20, depth=4 if q else 6, al="0x15", w=5)
    j += per_cfg(ctx, exe, "seq", "robust", 0x20, depth=5 if q else 7, al="0x17", w=7)
    for n in (63, 254):
        j += per_cfg(ctx, exe, "misuse", "hi", 0x20, depth=4 if q else 5, al="0x1", w=0, prefill=n)
    j += per_cfg(ctx, exe, "seq", "wide", 0x20, depth=4 if q else 5, al="0x1", w=1, maxlive=2) + per_cfg(ctx, exe, "slots", "slots" if q else "slots+", 0x20) + per_cfg(ctx, exe, "misuse", "wider", 0x20, depth=3 if q else 4, al="0x1", w=1) + scale(ctx, 0x20, "ranges", "items", "pos", "place", n=16)
    r = ctx.run_jobs(j, timeout=850 if q else 40000)
    return mc(ctx, r, NOTE + "; misuses = offending actions executed after every valid history (double free, foreign free, live destroy, write after free, free-list corruption), detected = aborted as required")


def m06(ctx):
    exe = build(ctx, "seq")
    q = ctx.quick
    j = per_cfg(ctx, exe, "seq", "poison" if q else "poison+", 0x40, depth=5 if q else 7, al="0xd", w=3)
    j += per_cfg(ctx, exe, "seq", "hi+", 0x40, depth=4 if q else 5, al="0x1", w=1, prefill=254)
    j += per_cfg(ctx, exe, "seq", "wide", 0x40, depth=4 if q else 5, al="0x9", w=1, maxlive=2) + scale(ctx, 0x40, "pos", n=16)
    r = ctx.run_jobs(j, timeout=850 if q else 40000)
    return mc(ctx, r, NOTE)


def m12(ctx):
    exe = build(ctx, "seq")
    q = ctx.quick
    j = per_cfg(ctx, exe, "seq", "cb", 0x1000, depth=6 if q else 9, al="0x9", w=1)
    j += per_cfg(ctx, exe, "cbfault", "cb", 0x1000, depth=4 if q else 6, al="0x1", w=1)
    j += per_cfg(ctx, exe, "seq", "widec", 0x1000, depth=4 if q else 5, al="0x1", w=1, maxlive=3) + scale(ctx, 0x1000, "ranges", "place")
    r = ctx.run_jobs(j, timeout=850 if q else 40000)
    return mc(ctx, r, NOTE + "; every single callback invocation of every history is also made to fail")


def sharded(ctx, exe, n, *args):
    return [("%s-%d" % ("-".join(a.split("=")[-1] for a in args) or "run", k), [exe, "shard=%d/%d" % (k, n), "out=@REPLAY@"] + list(args)) for k in range(n)]


def m10(ctx):
    exe = build(ctx, "sets")
    r = ctx.run_jobs(sharded(ctx, exe, 32, "depth=%d" % (2 if ctx.quick else 3)) + sharded(ctx, exe, 32, "what=few", "depth=%d" % (3 if ctx.quick else 4)) + sharded(ctx, exe, 8, "what=orders"), timeout=850 if ctx.quick else 40000)
    return mc(ctx, r, NOTE)


def m08(ctx):
    exe = build(ctx, "faults")
    q = ctx.quick
    j = sharded(ctx, exe, 61, "what=pair", "depth=%d" % (3 if q else 4)) + sharded(ctx, exe, 61, "what=single", "depth=%d" % (4 if q else 6)) + sharded(ctx, exe, 8, "what=unmap", "depth=%d" % (5 if q else 6)) + scale(ctx, 0x100, "ranges", "place")
    r = ctx.run_jobs(j, timeout=850 if q else 40000)
    cov = mc(ctx, r, "every history within the depth is executed with every single and every pair of resource requests refused (requests = calls of the library to mmap, memfd_create, ftruncate, madvise, calloc, malloc, strdup, the init callback; munmap at destroy)")
    cov["fault_points"] = add(r, "faults")
    return cov


def m09(ctx):
    exe = build(ctx, "forks")
    n = int(ctx.sh(exe, "list"))
    r = ctx.run_jobs([("fork-%d" % k, [exe, "only=%d" % k, "out=@REPLAY@", "depth=%d" % (4 if ctx.quick else 6)]) for k in range(n)], timeout=850 if ctx.quick else 40000)
    return mc(ctx, r, NOTE + "; after every history the process really forks and both sides continue")


def m11(ctx):
    exe = build(ctx, "params")
    q = ctx.quick
    j = sharded(ctx, exe, 16, "what=grid", *([] if q else ["thorough"])) + sharded(ctx, exe, 1, "what=seqs", "depth=%d" % (4 if q else 5)) + sharded(ctx, exe, 1, "what=nulls") + sharded(ctx, exe, 1, "what=names")
    for pg in (16384, 65536):
        j += sharded(ctx, exe, 8, "what=grid", "page=%d" % pg) + sharded(ctx, exe, 1, "what=names", "page=%d" % pg)
    r = ctx.run_jobs(j, timeout=850 if q else 40000)
    return mc(ctx, r, "every point of the parameter grid and every sequence of attribute calls is executed on the library; cases = creations judged")


def m13(ctx):
    exe = build(ctx, "numa")
    th = [] if ctx.quick else ["thorough"]
    r = ctx.run_jobs(sharded(ctx, exe, 16, *th) + sharded(ctx, exe, 4, "page=16384", *th) + sharded(ctx, exe, 4, "page=65536", *th), timeout=850 if ctx.quick else 40000)
    ctx.assumptions.append("move_pages and numa_node_of_cpu are stand-ins answering every combination")
    return mc(ctx, r, "every range length around the batch boundaries x flags x node x kernel answer is executed; the requests are compared page by page")


def m14(ctx):
    exe = build(ctx, "cow")
    q = ctx.quick
    fl = [] if q else ["thorough"]
    n = int(ctx.sh(exe, "list", *fl))
    r = ctx.run_jobs([("cow-%d" % i, [exe, "depth=%d" % (5 if q else 7), "only=%d" % i, "out=@REPLAY@"] + fl) for i in range(n)], timeout=850 if q else 40000)
    return mc(ctx, r, NOTE + "; checks = pages of CPU memory looked up in the kernel's page table (or the write watch)")


PLANS = {"M14": m14, "M08": m08, "M09": m09, "M11": m11, "M13": m13, "M10": m10, "M01": m01, "M02": m02, "M03": m03, "M04": m04, "M05": m05, "M06": m06, "M12": m12}
