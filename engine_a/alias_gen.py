"""Writes the aliasing instantiations: every helper called with operands that are related at compile time.

A compiler may give two inputs of one inline-assembly statement the same register when it can see that they are equal, or
fold one into the addressing mode of another.  Each generated function a_N uses one combination of operand expressions over
its parameters (M, b, s: memory areas; p: a number; c: the CPU); f_N writes the same operands to a struct for the oracle."""
import itertools, sys

V = ["M", "M + 16", "b", "M + 8 * p"]
X = ["0", "8", "p", "(intptr_t) M", "(intptr_t) (M + 16)", "(intptr_t) b", "c"]
CPU = ["c", "(int) p", "8"]
X5 = X[:4] + X[6:]


def combos():
    for v, e, n, c in itertools.product(V, X, X, CPU):
        yield "CBNE_ST", dict(v=v, expect=e, newv=n, cpu=c)
    for v, i, c in itertools.product(V, X, CPU):
        yield "ADD", dict(v=v, inc=i, cpu=c)
    for v, e, o, l, c in itertools.product(V, X5, ["0", "8", "p", "c"], ["M + 24", "b + 24", "s"], CPU):
        yield "POP", dict(v=v, expect=e, off=o, load=l, cpu=c)
    for v, o, i, c in itertools.product(V, ["0", "8", "p", "c"], X, CPU):
        yield "OFFADD", dict(v=v, off=o, inc=i, cpu=c)
    for k in ("CBNE_ST_ST", "CBNE_CBNE_ST"):
        for v, v2, e, x2, n, c in itertools.product(["M", "b"], ["M", "M + 24", "b + 24", "s"], ["0", "8", "p", "(intptr_t) M"], ["0", "8", "p", "(intptr_t) M", "(intptr_t) b"], ["0", "8", "p", "(intptr_t) M", "(intptr_t) (M + 24)"], ["c", "(int) p"]):
            yield k, dict(v=v, v2=v2, expect=e, x2=x2, newv=n, cpu=c)
    for v, d, sr, le, e, n, c in itertools.product(["M", "b", "M + 16"], ["M + 64", "b + 64"], ["s", "M + 128", "b + 128"], ["8", "p", "(size_t) c"], ["0", "8", "p", "(intptr_t) M"], ["0", "8", "p", "(intptr_t) M", "(intptr_t) (M + 64)", "(intptr_t) s"], ["c", "(int) p"]):
        yield "CBNE_MEMCPY_ST", dict(v=v, dst=d, src=sr, len=le, expect=e, newv=n, cpu=c)


CALL = {
    "CBNE_ST": "rseq_load_cbne_store__ptr(%(mo)s, %(mode)s, %(v)s, %(expect)s, %(newv)s, %(cpu)s)",
    "ADD": "rseq_load_add_store__ptr(%(mo)s, %(mode)s, %(v)s, %(inc)s, %(cpu)s)",
    "POP": "rseq_load_cbeq_store_add_load_store__ptr(%(mo)s, %(mode)s, %(v)s, %(expect)s, %(off)s, %(load)s, %(cpu)s)",
    "OFFADD": "rseq_load_add_load_load_add_store__ptr(%(mo)s, %(mode)s, %(v)s, %(off)s, %(inc)s, %(cpu)s)",
    "CBNE_ST_ST": "rseq_load_cbne_store_store__ptr(%(mo)s, %(mode)s, %(v)s, %(expect)s, %(v2)s, %(x2)s, %(newv)s, %(cpu)s)",
    "CBNE_CBNE_ST": "rseq_load_cbne_load_cbne_store__ptr(%(mo)s, %(mode)s, %(v)s, %(expect)s, %(v2)s, %(x2)s, %(newv)s, %(cpu)s)",
    "CBNE_MEMCPY_ST": "rseq_load_cbne_memcpy_store__ptr(%(mo)s, %(mode)s, %(v)s, %(expect)s, %(dst)s, %(src)s, %(len)s, %(newv)s, %(cpu)s)",
}
MEM = {"CBNE_ST": ["v"], "ADD": ["v"], "POP": ["v", "load"], "OFFADD": ["v"], "CBNE_ST_ST": ["v", "v2"], "CBNE_CBNE_ST": ["v", "v2"], "CBNE_MEMCPY_ST": ["v", "dst", "src"]}
NODES = {"POP": 1, "OFFADD": 2}
PTR, VOIDP = ("v", "v2", "load"), ("dst", "src")


def write(path, part, parts, stride=1):
    out = ["#include <stdlib.h>", "#include <string.h>", "#include <rseq/rseq.h>", '#include "alias.h"']
    tab, offadd = [], []
    for n, (kind, o) in enumerate(combos()):
        if n % parts != part or (n // parts) % stride:
            continue
        o = {k: ("(intptr_t *) (%s)" % x if k in PTR else "(void *) (%s)" % x if k in VOIDP else "(%s)" % x) for k, x in o.items()}
        mode = n // parts % 2
        mo = 1 if kind in ("CBNE_ST_ST", "CBNE_MEMCPY_ST") and (n // parts // 2) % 2 else 0
        call = CALL[kind] % dict(o, mo="RSEQ_MO_RELEASE" if mo else "RSEQ_MO_RELAXED", mode="RSEQ_PERCPU_MM_CID" if mode else "RSEQ_PERCPU_CPU_ID")
        body = "NI int a_%d(P) { int r = %s; AFTER return r; }\n" % (n, call)
        # AL_MEM: the caller itself stores to the memory just before the call, reads it right after and overwrites it
        cells = [o[k] for k in MEM[kind]] + ["(M + 3200)", "(M + 3360)"][:NODES.get(kind, 0)]
        mem = "NI int a_%d(P) { %s int r = %s; %s %s AFTER return r; }\n" % (n, " ".join("*(intptr_t *) %s = al_in[%d];" % (x, i) for i, x in enumerate(cells)), call,
              " ".join("al_mem[%d] = *(intptr_t *) %s;" % (i, x) for i, x in enumerate(cells)), " ".join("*(intptr_t *) %s = al_out[%d];" % (x, i) for i, x in enumerate(cells)))
        body = "#ifdef AL_MEM\n" + mem + "#else\n" + body + "#endif\n"
        body += "NI void f_%d(P, struct sargs *a) { %s }" % (n, " ".join("a->%s = %s;" % kv for kv in o.items()))
        ent = '{ "%s", K_%s, %d, a_%d, f_%d },' % (call.replace('"', ""), kind, mode, n, n)
        if kind == "OFFADD":
            body = "#ifdef rseq_arch_has_load_add_load_load_add_store\n" + body + "\n#endif"
            offadd.append(ent)
        else:
            tab.append(ent)
        out.append(body)
    out += ["#ifdef __cplusplus", 'extern "C" {', "#endif", "extern const struct alias_ent alias_%d[];" % part, "const struct alias_ent alias_%d[] = {" % part] + tab
    out += ["#ifdef rseq_arch_has_load_add_load_load_add_store"] + offadd + ["#endif", "{ 0, 0, 0, 0, 0 } };", "#ifdef __cplusplus", "}", "#endif"]
    with open(path, "w") as f:
        f.write("\n".join(out) + "\n")


if __name__ == "__main__":
    print(sum(1 for _ in combos()))
