"""C06: the memory-ordering primitives as compiled, explored under x86-TSO (engine L)."""
from .core import *
from .plan_c import GREG, NOVEC, X, XTARGETS

L = os.path.join(VERIF, "engine_l")
VARIANTS = {
    "gcc-O2": ["gcc", "-O2"] + GREG, "gcc-O0": ["gcc", "-O0"] + GREG, "gcc-O1": ["gcc", "-O1"] + GREG, "gcc-O3": ["gcc", "-O3"] + GREG, "gcc-Os": ["gcc", "-Os"] + GREG, "gcc-c99": ["gcc", "-O2", "-std=gnu99"] + GREG,
    "clang-O2": ["clang", "-O2"] + GREG, "clang-O0": ["clang", "-O0"] + GREG, "clang-O1": ["clang", "-O1"] + GREG, "clang-O3": ["clang", "-O3"] + GREG, "clang-Os": ["clang", "-Os"] + GREG,
    "g++-O2": ["g++", "-x", "c++", "-O2"] + GREG, "g++-O0": ["g++", "-x", "c++", "-O0"] + GREG, "g++-O3": ["g++", "-x", "c++", "-O3"] + GREG,
    "clang++-O2": ["clang++", "-x", "c++", "-O2"] + NOVEC, "clang++-O0": ["clang++", "-x", "c++", "-O0"] + NOVEC, "clang++-O1": ["clang++", "-x", "c++", "-O1"] + NOVEC,
}
QUICK = list(VARIANTS)


def c06(ctx):
    vs = QUICK if ctx.quick else list(VARIANTS)
    ctx.sh("gcc", "-O2", "-g", "-w", "-I" + REPO + "/include", "-c", L + "/tso.c", "-o", ctx.path("tso.o"))

    def one(v):
        o = ctx.path("lit-%s.o" % v)
        ctx.sh(*VARIANTS[v], "-w", "-I" + REPO + "/include", "-I" + L, "-c", L + "/litmus.c", "-o", o)
        ctx.sh("gcc", ctx.path("tso.o"), o, "-o", ctx.path("tso-" + v))
    ctx.par([lambda v=v: one(v) for v in vs])
    k = 4
    r = ctx.run_jobs([("%s-%d" % (v, i), [ctx.path("tso-" + v), "shard=%d/%d" % (i, k), "out=@REPLAY@"] + ([] if ctx.quick else ["deep"])) for v in vs for i in range(k)], timeout=850 if ctx.quick else 20000)
    # the same threads for the other architectures, under their memory models
    ctx.sh("gcc", "-O2", "-w", "-I" + REPO + "/include", L + "/names.c", L + "/litmus.c", "-no-pie", "-o", ctx.path("names"))
    with open(ctx.path("names.txt"), "w") as f:
        f.write(ctx.sh(ctx.path("names")))
    opts = ["-O2", "-O0"] if ctx.quick else ["-O2", "-O0", "-O1", "-O3", "-Os"]
    x = ctx.run_jobs([("mm-%s%s" % (t, o), ["python3", X + "/mm.py", "target=" + t, "opt=" + o, "names=" + ctx.path("names.txt"), "repo=" + REPO, "out=@REPLAY@"])
                      for t in XTARGETS + ["x86_64"] for o in opts if (t, o) not in (("i386", "-O0"), ("ppc", "-O0"))]     # i386: too few registers; ppc: conditional branches out of the linker's reach
                     , timeout=850 if ctx.quick else 20000)
    nc = sorted(set("%s: %s" % (o["target"], n.strip().splitlines()[-1][:300]) for o in x for n in o["not_covered"]))
    ctx.assumptions += ["other architectures: clang's code run by the interpreters of engine_x/isa.py; axiomatic multi-copy-atomic models (ARMv8-like, RVWMO without dependencies, Power strengthened to multi-copy atomicity, TSO for x86-32 and s390)"]
    ctx.assumptions += ["the memory model is x86-TSO (Sewell et al.): a FIFO store buffer per thread with forwarding, drained by locked instructions and mfence", "litmus threads as compiled by the listed compilers; other compilers are not run"]
    return {"states": add(r, "states"), "transitions": add(r, "transitions"), "traces_validated_against_impl": add(r, "outcomes"), "litmus_tests": add(r, "litmus"), "instructions_executed": add(r, "instructions"),
            "variants": vs, "exhaustive": True, "other_architectures": {"targets": XTARGETS + ["x86_64"], "litmus_tests": add(x, "litmus"), "candidate_executions": add(x, "candidates") + add(x, "executions"), "allowed_executions_judged": add(x, "allowed"), "thread_runs": add(x, "runs"), "not_covered": nc}, "samples": [o["sample"] for o in r if o.get("sample")][:3] + ["every step is an execution of the compiled code on the processor (trap flag); traces = distinct final states judged"]}


PLANS = {"C06": c06}
