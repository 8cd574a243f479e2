#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC, FE, EX = "model_checking", "fault_enumeration", "exploration"
STEP = "explicit-state model checking of the compiled helpers: every instruction executed under trap flag, every kernel event (preempt, migrate, signal) at every instruction"
SEQ = "stateless model checking of the real library: exhaustive depth-first enumeration of operation histories, compared with a reference model after every operation"
ENV = "exhaustive enumeration of modelled environments (C library, kernel, sysfs) and call histories around the real library code, each in its own process"
CHECKS = {
 "C01": (MC, STEP, "Exhaustive over all instruction interleavings and kernel events of two helper calls (thread/thread and thread/signal handler), for every pair of helpers that conflict on a word; no preemption bound. Trusts the kernel model (replayed against the running kernel at every section instruction), SC memory, x86-64. The helpers of the 16 other targets (clang) are interpreted and explored the same way with one call and one (thorough: two) kernel events."),
 "C02": (MC, "exhaustive enumeration of boundary-value domains on the compiled helpers against the pseudo-code, plus explicit-state stepping for live values on every outcome", "All combinations of the stated value domains, 8 compiler variants, all outcomes; values outside the domains are not executed. x86-64 only. The helpers of the 16 other targets (clang) are interpreted and explored the same way with one call and one (thorough: two) kernel events."),
 "C03": (MC, "exhaustive enumeration of requested id x rseq-area state x index mode x memory order on the compiled helpers, plus explicit-state migration exploration", "All combinations of the stated ids, area states (registered, unregistered, failed), modes and orders. One known finding (unregistered thread, concurrency id 0). The helpers of the 16 other targets (clang) are interpreted and explored the same way with one call and one (thorough: two) kernel events."),
 "C04": (MC, STEP, "Descriptor validity checked in every reachable state, store coverage at every executed store, for every helper, 5 compiler variants; kernel-side validity rules are the model's, replayed against the running kernel. The helpers of the 16 other targets (clang) are interpreted and explored the same way with one call and one (thorough: two) kernel events."),
 "C05": (MC, STEP, "Every control transfer out of a section compared with the exit-point table of the object, with comparisons flipped at every point; unload/clear after every outcome at every interruption point. The helpers of the 16 other targets (clang) are interpreted and explored the same way with one call and one (thorough: two) kernel events."),
 "C06": (MC, "explicit-state model checking under x86-TSO of litmus threads compiled from the public headers: every instruction executed on the processor, every interleaving and every store-buffer delay explored; for the 16 other targets exhaustive enumeration of the candidate executions of their axiomatic models over interpreted thread traces", "About 630 litmus tests (message passing, store buffering, R, S, 2+2W, load buffering, coherence, tearing, three-thread chains), release helpers included, 17 compiler variants on x86-64; the others compiled by clang. Power is modelled as multi-copy atomic."),
 "M01": (MC, SEQ, "All histories of allocate/write/free (and create/destroy of a second pool) up to the depth, over about 45 pool configurations with small strides; the bytes of every live item on every CPU are compared after every operation. Histories longer than the bound and larger pools are not executed."),
 "M02": (MC, SEQ, "All histories up to the depth with plain, zeroed, initialised (full and partial) allocations and per-CPU dirtying; contents compared on every CPU at return. Plus all schedules (preemption bound 2) of an initialising allocation against a writer of a neighbouring item, and against a kernel page copy in flight (one known finding)."),
 "M03": (MC, SEQ, "All allocate/free histories up to depth 10 over range limits and item sizes, plus filling every power-of-two size completely with 8 free orders."),
 "M04": (MC, SEQ, "All orders of first writes within the history depth; every byte of every CPU's copy is read back. Pools beyond 2^32 bytes and the address macro are executed over a boundary domain."),
 "M05": (MC, SEQ + "; every misuse action at every position of every history", "Valid histories never abort and each misuse (every freed item, every CPU, three words, four bit patterns, free-list links) aborts as required, within the depth."),
 "M06": (MC, SEQ, "All histories up to the depth over poison values; every word of every freed item is compared on every CPU."),
 "M07": (MC, "stateless model checking of the real library: instrumented build under a controlled scheduler, all schedules of small concurrent programs up to a preemption bound, results checked for linearisability", "2 or 3 threads, 1 to 4 operations each, all pool kinds and fill states in the domain; sequentially consistent interleavings; scheduling points at lock operations and at every racing access (found by vector clocks, search restarted when one appears)."),
 "M08": (FE, "exhaustive fault enumeration: every single and every pair of resource requests of every bounded history refused, on the real library with accounting stand-ins for the system calls", "Every request position in every history of the bounded set; the accounting covers mappings, descriptors and heap. Failures of the trimming munmap inside aligned mapping abort by design and are excluded."),
 "M09": (MC, SEQ + "; real fork after every history, both processes continue", "Fork after every history up to the depth, then both orders of parent/child actions from a fixed action set."),
 "M10": (MC, SEQ, "All subsets and insertion orders of pools from the domain, all allocation/free sequences to the depth, lengths around every power of two."),
 "M11": (MC, "exhaustive enumeration of a boundary grid of creation parameters and of attribute-call sequences on the real library", "Every combination in the grid; values between grid points are not executed."),
 "M12": (MC, SEQ + "; a callback failure at every invocation", "All histories up to the depth that grow pools, all single callback failures."),
 "M13": (FE, "exhaustive enumeration of range sizes, flags and kernel answers for the NUMA helper, requests recorded by a stand-in", "All page counts around the batch boundaries; the kernel is a stand-in (the sandbox has one node)."),
 "M14": (MC, SEQ + "; the kernel's page table (pagemap) and a write watch tell which pages were populated", "All histories up to the depth of allocations of every kind, frees and application stores, over about 40 pool configurations; every page of every CPU's items is looked up after every operation."),
 "R01": (MC, ENV, "All combinations of symbol presence, size/offset/flag values, kernel feature sizes and alignments of the stated domains, with and without the system call."),
 "R02": (MC, ENV, "All histories of two threads up to depth 5 (quick) / 7 (thorough) with every kernel answer; the kernel's rseq system call is a model of Linux 6.x rules."),
 "R03": (MC, "stateless model checking of the real library: instrumented build under a controlled scheduler, all schedules of racing first calls up to a preemption bound, modelled C library, kernel and sysfs", "2 or 3 threads; both ownership configurations, no kernel support, five sources of the CPU count; sequentially consistent interleavings (the orderings themselves are C06)."),
 "R04": (MC, ENV, "All area contents x feature sizes x operating-system answers of the stated domains."),
 "R05": (FE, ENV, "All lists of up to the bounded number of ranges, all splits over reads with interruptions and errors, all small directories."),
}
NA = {}
PENDING = "check under construction"
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": CHECKS[p][1], "level": CHECKS[p][0], "level_note": CHECKS[p][2]} for p in props if p in CHECKS],
     "not_applicable": [{"property": p, "reason": NA.get(p, PENDING)} for p in props if p not in CHECKS],
     "notes": "check.py builds librseq from /repo's working tree into a scratch directory; no hooks in /repo are needed. Replays of violations go to /verif/replays (git-ignored)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
