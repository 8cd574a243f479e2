"""C01-C05: per-CPU helpers, engine A (explicit-state exploration of the compiled helpers, one instruction at a time)."""
from .core import *

A = os.path.join(VERIF, "engine_a")
GREG = ["-mgeneral-regs-only"]
NOVEC = ["-mno-implicit-float", "-fno-vectorize", "-fno-slp-vectorize"]
VARIANTS = {
    "gcc-O2": (["gcc", "-O2"] + GREG, ["-DNCAN=3", "-DWITH_CONST"]),
    "gcc-pie": (["gcc", "-O2"] + GREG, ["-DNCAN=3"]),
    "gcc-O0": (["gcc", "-O0"] + GREG, ["-DNCAN=10"]),
    "gcc-O2-full": (["gcc", "-O2"] + GREG, ["-DNCAN=10", "-DWITH_CONST"]),
    "gcc-Os": (["gcc", "-Os"] + GREG, ["-DNCAN=8"]),
    "gcc-O3": (["gcc", "-O3"] + GREG, ["-DNCAN=6"]),
    "clang-O2": (["clang", "-O2"] + GREG, ["-DNCAN=3"]),
    "clang-O0": (["clang", "-O0"] + GREG, ["-DNCAN=10"]),
    "g++-O2": (["g++", "-x", "c++", "-O2"] + GREG, ["-DNCAN=5"]),
    "clang++-O1": (["clang++", "-x", "c++", "-O1"] + NOVEC, ["-DNCAN=8"]),
    "gcc-twice": (["gcc", "-O2"] + GREG, ["-DNCAN=3", "-DRSEQ_COMPARE_TWICE"]),
    "clang-twice": (["clang", "-O2"] + GREG, ["-DNCAN=3", "-DRSEQ_COMPARE_TWICE"]),
}


def build(ctx, names):
    ctx.par([lambda p=p: ctx.sh("gcc", "-O2", "-g", p, "-w", "-c", A + "/stepper.c", "-o", ctx.path("st%s.o" % p)) for p in ("-fno-pie", "-fpie")])

    def one(n):
        cc, defs = VARIANTS[n]
        o = ctx.path("subj-%s.o" % n)
        pie = "-fpie" if "-pie" in n else "-fno-pie"
        ctx.sh(*cc, "-w", "-U__OPTIMIZE__", *defs, pie, "-I" + REPO + "/include", "-I" + A, "-c", A + "/subj.c", "-o", o)
        ctx.sh("objcopy", "--redefine-sym", "abort=subj_abort", "--redefine-sym", "fprintf=subj_fprintf", o)
        ctx.sh("gcc", "-pie" if pie == "-fpie" else "-no-pie", ctx.path("st%s.o" % pie), o, "-o", ctx.path("st-" + n), "-Wl,--unresolved-symbols=ignore-in-object-files")
    ctx.par([lambda n=n: one(n) for n in names])


def jobs(ctx, variant, what, props, shards=1, **kw):
    ex = ["%s=%s" % i for i in kw.items()]
    return [("%s-%s-%d" % (variant, what, k), [ctx.path("st-" + variant), "what=" + what, "props=%#x" % props, "shard=%d/%d" % (k, shards), "out=@REPLAY@"] + ex) for k in range(shards)]


def conform(ctx, variants):
    r = ctx.run_jobs(sum([jobs(ctx, v, "conform", 0) for v in variants], []))
    if any("reason" in o for o in r):
        ctx.assumptions.append("the C library of this sandbox registered no rseq area: the kernel model was not replayed against the running kernel")
    return add(r, "validated")


def mc(ctx, r, validated, note, extra=None):
    s = [o["sample"] for o in r if o.get("sample")]
    cov = {"states": add(r, "states"), "transitions": add(r, "transitions"), "traces_validated_against_impl": validated,
           "instructions_executed": add(r, "steps"), "kernel_events": add(r, "kernel_events"), "commits_observed": add(r, "commits"), "aborts_observed": add(r, "aborts"),
           "returns": {"0": add(r, "ret0"), "1": add(r, "ret1"), "-1": add(r, "retm1")}, "scenarios": add(r, "scenarios"),
           "exhaustive": add(r, "capped") == 0 and add(r, "skipped") == 0, "samples": s[:4] + [note]}
    cov.update(extra or {})
    ctx.assumptions += ["x86-64 code as compiled by the listed compilers; sequentially consistent memory between threads (C06 covers the memory model)",
                        "kernel behaviour on preemption, migration and signal delivery is the model in engine_a/stepper.c, replayed against the running kernel at every instruction of every section"]
    return cov


VALNOTE = "the explored transitions are executions of the compiled helper itself (trap flag, one machine instruction each); traces_validated counts interruptions at every section instruction replayed on the running kernel and compared with the model"


X = os.path.join(VERIF, "engine_x")
XTARGETS = ["i386", "aarch64", "aarch64_be", "arm", "thumb", "riscv64", "riscv32", "ppc64le", "ppc64", "ppc", "s390x", "mips", "mipsel", "mips64", "mips64el", "loongarch64"]


def xarch(ctx, cov, *whats):
    """The same helpers compiled for the other architectures and executed by the interpreters of engine_x."""
    variants = [("-O2", "")] if ctx.quick else [("-O2", ""), ("-O1", ""), ("-Os", ""), ("-O0", ""), ("-O2", "-DRSEQ_COMPARE_TWICE")]
    ts = XTARGETS if ctx.quick else XTARGETS + ["x86_64"]
    j = []
    for t in ts:
        for what, (o, d) in [(w, v) for w in whats for v in variants]:
            if t == "i386" and o == "-O0":
                continue        # the sections need more registers than unoptimised 32-bit code leaves
            a = ["python3", X + "/x.py", "target=" + t, "what=" + what, "opt=" + o, "defs=" + d, "repo=" + REPO, "out=@REPLAY@"]
            if what == "stops" and not ctx.quick and (o, d) == ("-O2", ""):
                a.append("events=2")
            j.append(("x-%s-%s-%s%s" % (t, what, o[1:], "-twice" if d else ""), a))
    r = ctx.run_jobs(j, timeout=850 if ctx.quick else 20000)
    nc = sorted(set("%s: %s" % (o["target"], n.strip().splitlines()[-1][:300]) for o in r for n in o["not_covered"]))
    cov["other_architectures"] = {"targets": ts, "builds": len(j), "executions": add(r, "cases"), "instructions_interpreted": add(r, "steps"), "kernel_events": add(r, "events"), "aborts": add(r, "aborts"),
                                  "returns": {"0": add(r, "ret0"), "1": add(r, "ret1"), "-1": add(r, "retm1")}, "exit_points": add(r, "exit_points"), "not_covered": nc}
    ctx.assumptions.append("other architectures: clang's code, run by the instruction interpreters of engine_x/isa.py under the kernel's rseq rules; there is no such hardware here to replay it on")
    return cov


def c01(ctx):
    vs = ["gcc-O2"] if ctx.quick else ["gcc-O2", "gcc-O0", "gcc-O3", "clang-O2", "clang-O0", "g++-O2", "clang++-O1", "gcc-twice"]
    build(ctx, vs + (["clang-O2", "gcc-twice"] if ctx.quick else []))
    j = []
    for v in vs:
        j += jobs(ctx, v, "pair", 2, 24) + jobs(ctx, v, "signal", 2, 24)
    for v in sorted(set(vs + ["clang-O2", "gcc-twice"])):
        j += jobs(ctx, v, "single", 2)
    r = ctx.run_jobs(j, timeout=850 if ctx.quick else 20000)
    return xarch(ctx, mc(ctx, r, conform(ctx, vs), VALNOTE, {"variants": vs}), "stops")


ALIAS = {"gcc-O2": ["gcc", "-O2"], "gcc-O1": ["gcc", "-O1"], "clang-O2": ["clang", "-O2"], "gcc-O3": ["gcc", "-O3"], "gcc-Os": ["gcc", "-Os"], "gcc-pie": ["gcc", "-O2", "-fpie"], "clang-O1": ["clang", "-O1"], "clang-Os": ["clang", "-Os"],
         "g++-O2": ["g++", "-x", "c++", "-O2"], "clang++-O2": ["clang++", "-x", "c++", "-O2"], "gcc-fp": ["gcc", "-O2", "-fno-omit-frame-pointer"], "gcc-twice": ["gcc", "-O2", "-DRSEQ_COMPARE_TWICE"],
         "gcc-O2-mem": ["gcc", "-O2", "-DAL_MEM"], "clang-O2-mem": ["clang", "-O2", "-DAL_MEM"], "gcc-O3-mem": ["gcc", "-O3", "-DAL_MEM"], "gcc-O1-mem": ["gcc", "-O1", "-DAL_MEM"]}


def alias(ctx, vs):
    """Operands that the compiler can see to be related (engine_a/alias_gen.py)."""
    sys.path.insert(0, A)
    import alias_gen
    for i in range(16):
        alias_gen.write(ctx.path("alias%d.c" % i), i, 16)
    ctx.par([lambda v=v, i=i: ctx.sh(*ALIAS[v], *([] if "-fpie" in ALIAS[v] else ["-fno-pie"]), "-w", "-I" + REPO + "/include", "-I" + A, "-c", ctx.path("alias%d.c" % i), "-o", ctx.path("al-%s-%d.o" % (v, i))) for v in vs for i in range(16)])
    ctx.par([lambda v=v: ctx.sh("gcc", "-O2", "-w", *(["-DAL_MEM"] if v.endswith("-mem") else []), "-fpie" if "-fpie" in ALIAS[v] else "-fno-pie", "-pie" if "-fpie" in ALIAS[v] else "-no-pie", "-I" + A, A + "/alias.c", *[ctx.path("al-%s-%d.o" % (v, i)) for i in range(16)], "-o", ctx.path("al-" + v)) for v in vs])
    return ctx.run_jobs([("alias-%s-%d" % (v, k), [ctx.path("al-" + v), "shard=%d/4" % k, "out=@REPLAY@"]) for v in vs for k in range(4)])


def c02(ctx):
    vs = ["gcc-O2", "gcc-O0", "gcc-O2-full", "clang-O2", "clang-O0", "g++-O2", "gcc-Os", "clang++-O1", "gcc-twice"]
    if not ctx.quick:
        vs += ["gcc-O3", "clang-twice"]
    build(ctx, vs)
    r = ctx.run_jobs(sum([jobs(ctx, v, "values", 4, 4) for v in vs], []) + sum([jobs(ctx, v, "biglen", 4, 2)[1 if v in ("gcc-O2", "clang-O0") or not ctx.quick else 0:][:1] for v in vs], []))
    j = sum([jobs(ctx, v, "single", 4) for v in vs], [])
    if not ctx.quick:
        j += sum([jobs(ctx, v, "pair", 4, 24) for v in vs[:4]], [])
    r2 = ctx.run_jobs(j, timeout=20000)
    cov = mc(ctx, r2, conform(ctx, ["gcc-O2"]), VALNOTE, {"variants": vs})
    vs = ["gcc-O2", "gcc-O1", "clang-O2", "gcc-O2-mem", "clang-O2-mem"] if ctx.quick else list(ALIAS)
    ra = alias(ctx, vs)
    cov["aliasing"] = {"variants": vs, "instantiations": add(ra, "functions"), "cases": add(ra, "cases"), "returns": {"0": add(ra, "ret0"), "1": add(ra, "ret1"), "-1": add(ra, "retm1")}}
    cov["value_cases_executed"] = add(r, "cases")
    cov["value_case_returns"] = {"0": add(r, "ret0"), "1": add(r, "ret1"), "-1": add(r, "retm1")}
    cov["rule"] = "every combination of the boundary value domain (engine_a/native.h) for every helper, mode, order and constant-operand instantiation is executed and compared byte for byte with the pseudo-code; outcomes 0, 1 and -1 each occur"
    return xarch(ctx, cov, "values", "aliases")


def c03(ctx):
    vs = ["gcc-O2", "gcc-O0", "clang-O2"] + ([] if ctx.quick else ["gcc-Os", "g++-O2", "clang++-O1", "clang-O0"])
    build(ctx, vs)
    r = ctx.run_jobs(sum([jobs(ctx, v, "gating", 8) for v in vs], []) + sum([jobs(ctx, v, "values", 8, 2) for v in vs], []))
    r2 = ctx.run_jobs(sum([jobs(ctx, v, "single", 2) for v in vs], []))
    if add(r, "known"):
        if not listed("C03", "RSEQ_PERCPU_MM_CID, requested id 0"):
            raise Violation("helper proceeds for an unregistered thread in concurrency-id mode with id 0", os.path.join(VERIF, "known-findings.txt"))
        ctx.known.append("an unregistered thread calling a helper in concurrency-id mode with id 0 proceeds (the rseq area of an unregistered thread holds mm_cid 0)")
    cov = mc(ctx, r2, conform(ctx, ["gcc-O2"]), VALNOTE, {"variants": vs})
    cov["gating_cases_executed"] = add(r, "cases")
    cov["known_finding_cases"] = add(r, "known")
    return xarch(ctx, cov, "gating", "moves")


def c04(ctx):
    vs = ["gcc-O2", "gcc-O0", "clang-O2", "gcc-pie", "g++-O2", "gcc-twice"] + ([] if ctx.quick else ["gcc-Os", "gcc-O3", "clang-O0", "clang++-O1", "clang-twice"])
    build(ctx, vs)
    j = sum([jobs(ctx, v, "single", 16) + jobs(ctx, v, "chaos", 16) + jobs(ctx, v, "unload", 16) for v in vs], [])
    j += jobs(ctx, "gcc-O2", "signal", 16, 24, **({"bound": 2} if ctx.quick else {}))
    if not ctx.quick:
        j += sum([jobs(ctx, v, "pair", 16, 24) for v in vs], [])
    r = ctx.run_jobs(j, timeout=20000)
    return xarch(ctx, mc(ctx, r, conform(ctx, vs[:3]), VALNOTE, {"variants": vs}), "tables")


def c05(ctx):
    vs = ["gcc-O2", "gcc-O0", "clang-O2", "gcc-pie", "g++-O2", "gcc-twice", "clang-twice"] + ([] if ctx.quick else ["gcc-Os", "gcc-O3", "clang-O0", "clang++-O1", "gcc-O2-full"])
    build(ctx, vs)
    b = 3 if ctx.quick else 6
    j = sum([jobs(ctx, v, "single", 32) + jobs(ctx, v, "chaos", 32, bound=b) + jobs(ctx, v, "unload", 32, 2) for v in vs], [])
    r = ctx.run_jobs(j, timeout=20000)
    return xarch(ctx, mc(ctx, r, conform(ctx, vs[:3]), VALNOTE, {"variants": vs}), "exits")


PLANS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05}
