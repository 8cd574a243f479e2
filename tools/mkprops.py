#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
                  "state": [dict(zip(("name","meaning","where"), s)) for s in state],
                  "mechanism": [dict(zip(("name","where"), m)) for m in mech],
                  "observe_at": list(observe), "hook_needed": hook}})

X86 = ["include/rseq/rseq.h", "include/rseq/arch/x86.h", "include/rseq/arch/x86/bits.h", "include/rseq/arch/generic/common.h", "include/rseq/arch/templates/bits.h", "include/rseq/pseudocode.h"]
OTHER = ["include/rseq/arch/%s%s" % (a, x) for a in ("arm", "aarch64", "riscv", "ppc", "s390", "mips", "loongarch") for x in (".h", "/bits.h")]
MP = ["src/rseq-mempool.c", "include/rseq/mempool.h"]

p("C01", "Per-CPU critical sections commit atomically under any interruption",
  "Whenever a per-CPU helper (compare-and-store, list pop, add, indirect add, two-word store, double compare-and-store, copy-and-store) returns success, its whole documented effect took place at one instant, computed from the memory as it was at that instant, while the calling thread was running on the requested CPU (or holding the requested concurrency id); exactly one commit happens per success and none otherwise. "
  "A thread that is preempted, migrated to another CPU or interrupted by a signal handler at any instruction before the commit reports an abort (-1) and its final store never lands, even when another thread or handler running on that CPU used any of these helpers on the same data in between. "
  "Speculative stores that precede the commit (second word, copy destination, loaded value) are made only while the caller is on the requested CPU and the helper's comparison holds, and a 'not equal'/'equal' result (1) leaves memory untouched and is only returned if the comparison really failed at some moment of the call.",
  ["schedules", "histories", "configurations"],
  "every instruction boundary at which a preemption, a migration or a signal can hit, every interleaving of two threads or a thread and a handler on one or two CPUs, all seven helpers against each other, both index modes, all memory orders provided, several compilers and build configurations; for the other supported architectures one call with one or two events at every instruction",
  "The tests inject delays/signals at six coarse points with a random schedule and check sums at the end; a window of a single instruction, an interaction of two different helpers or a bad teardown on one path is hit by luck only.",
  X86 + OTHER, [("rseq_cs arming, cpu check, final single-instruction store, abort handler", "include/rseq/arch/x86/bits.h"), ("descriptor tables", "include/rseq/arch/generic/common.h")],
  observe=["memory words given to the helper, after every instruction", "return value"])
p("C02", "Helpers do exactly what their pseudo-code says, and nothing else",
  "Run without interruption by a registered thread on the requested CPU, each per-CPU helper returns the documented value and leaves memory exactly as the published pseudo-code prescribes, for every pointer-sized value, offset, increment and length (including zero, negative, extreme and compile-time-constant arguments). "
  "It changes no other memory, and no value that the caller's compiled code keeps live across the call is altered, whichever of the three outcomes (success, comparison failed, abort) occurs.",
  ["inputs", "configurations"],
  "all combinations of a boundary-value domain for every operand of every helper, all copy lengths up to a bound, register-allocated, memory and immediate operand forms, several compilers, optimisation levels, C and C++, with and without the compare-twice debugging build; x86-64 and every other supported architecture",
  "The tests use small positive counters, pointer lists and one buffer layout at one optimisation level; operand truncation, a clobbered register or an over-long copy needs particular values or register allocation to show.",
  X86 + OTHER, [("asm bodies and operand constraints/clobbers", "include/rseq/arch/x86/bits.h")], observe=["full memory image, return value, live values after the call"])
p("C03", "Nothing is written unless the caller runs on the requested CPU",
  "A per-CPU helper invoked with a CPU number (or concurrency id) different from the current one, by a thread that is not registered (before registration, after unregistration or after a failed registration), or with a memory order or index mode the helper does not support, returns -1 and writes no user memory. "
  "The index mode selects which number is compared: CPU-id mode compares only with the current CPU number, concurrency-id mode only with the current concurrency id.",
  ["inputs", "configurations"],
  "all pairs of (current cpu, current concurrency id, node, registered state) and (requested number, mode, memory order) over small domains that keep all fields distinct, for every helper and every supported architecture",
  "The tests always pass the value just read from the rseq area on registered threads and the two supported orders; the other combinations are never called.",
  X86 + OTHER, [("cpu check at section entry, dispatch on memory order and mode", "include/rseq/rseq.h")], observe=["return value, user memory"])
p("C04", "The kernel always finds a valid critical-section descriptor",
  "At every instruction of a per-CPU helper, the critical-section pointer in the thread's rseq area is either null or points to a well-formed, correctly aligned descriptor: version and flags zero, a non-empty instruction range, an abort address outside that range which is preceded by the signature the thread is registered with; so an interruption at any point is handled by the kernel as an abort or ignored, never as an error that kills the process. "
  "Whenever a helper stores to user memory, the pointed-to descriptor covers the storing instruction.",
  ["schedules", "programs", "configurations"],
  "every reachable instruction of every helper on every path, all index modes and memory orders, all compiled configurations",
  "The tests only exercise the kernel's check at instructions where a signal or preemption happens to arrive; a bad field shows up as a rare SIGSEGV.",
  X86 + ["include/rseq/abi.h"], [("RSEQ_ASM_DEFINE_TABLE / RSEQ_ASM_STORE_RSEQ_CS / RSEQ_ASM_DEFINE_ABORT", "include/rseq/arch/x86.h")], observe=["rseq area and descriptor memory after every instruction"])
p("C05", "Section metadata is complete and unload preparation disarms the thread",
  "Every critical section a helper can execute is listed, with its exact address, in the object's critical-section table section, and every address the section can leave to other than its end and its abort handler is listed as an exit point of that section. "
  "After a thread prepares for unload (or clears its critical-section pointer), its rseq area no longer refers to any section, whatever helper it ran before and however that helper ended.",
  ["programs", "schedules", "configurations"],
  "every control-flow edge leaving a section under every outcome of every comparison, every helper/mode/order/compiler configuration; every interruption point before the unload call",
  "No test reads the metadata sections (they exist for debuggers and tools) and no test unloads code.",
  X86 + OTHER, [("RSEQ_ASM_DEFINE_TABLE, RSEQ_ASM_DEFINE_EXIT_POINT", "include/rseq/arch/generic/common.h"), ("rseq_prepare_unload/rseq_clear_rseq_cs", "include/rseq/rseq.h")], observe=["ELF sections __rseq_cs, __rseq_cs_ptr_array, __rseq_exit_point_array against executed edges; rseq area"])
p("C06", "Memory barriers and release stores order what they promise",
  "The public memory-ordering primitives (full, read and write barriers, load-acquire, store-release, acquire after control dependency) and the release variants of the per-CPU helpers forbid, in compiled code on the target's memory model, every reordering they are specified to forbid: message passing never observes a flag without the data published before it, and two threads that each store then full-barrier then load never both miss the other's store. Between threads of one CPU the relaxed helpers do so too: what a thread stored before a helper is visible once its commit is, and what it loads after a helper is not older than what the helper saw.",
  ["schedules", "programs", "configurations"],
  "all interleavings and store-buffer delays of the compiled litmus tests (store buffering, message passing, load buffering, release through each release helper, same-CPU message passing through every helper) under x86-TSO for several compilers and optimisation levels, and under the memory models of the other supported architectures",
  "Reordering depends on hardware timing and on compiler choices; the tests' counters never notice a missing barrier.",
  X86 + OTHER + ["include/rseq/compiler.h"], [("rseq_smp_mb and friends, rseq_barrier, memory clobbers", "include/rseq/arch/x86.h")], observe=["final register values of each litmus execution"])

p("M01", "Live items never overlap and keep their content on every CPU",
  "At any time, the items allocated and not yet freed from all pools are pairwise disjoint on every CPU, each is at least as large as requested and naturally aligned, and memory written into a live item for a given CPU keeps its value until the item's owner overwrites it or frees it, whatever other items are allocated (with or without initialisation), written or freed, and whatever pools or ranges are created or destroyed, in between. "
  "This holds across range growth, item reuse, and for per-CPU, global, robust, poisoned and every populate policy.",
  ["histories", "configurations"],
  "all sequences of allocate (plain/zeroed/initialised), write, and free on one or two pools up to a bounded length that exhausts and reuses ranges, for every combination of pool type, populate policy, robustness, poison, item size, CPU count and range limit in small domains",
  "The tests run two fixed histories per configuration (fill, check, free all); order-dependent reuse, cross-range frees and interleaved writes are not explored.",
  MP + ["src/list.h", "src/rseq-utils.h"], [("free list, next_unused, range layout", "src/rseq-mempool.c")], observe=["returned addresses, bytes of every live item on every CPU after every operation"])
p("M02", "Initialising allocations deliver the requested content on every CPU",
  "When a zeroing allocation returns, every byte of the item reads zero on every CPU; when an initialising allocation returns, the first bytes of the item read as the given content on every CPU, including CPUs that touched the item, its page or its neighbours before, and including reused items whose previous owner wrote different values on different CPUs. "
  "This holds even while other threads concurrently write to neighbouring live items or allocate and free other items.",
  ["histories", "schedules", "inputs"],
  "all bounded operation sequences with per-CPU dirtying before free, all initial contents in a small domain including contents equal or partially equal to what is already there, all lengths up to the item size; all interleavings of one initialising allocation with a concurrent neighbour writer or allocator",
  "The tests check each initialisation once on fresh memory; stale per-CPU copies after reuse and concurrent copy-on-write are never exercised.",
  MP, [("rseq_percpu_zero_item / rseq_percpu_init_item and the shared init mapping", "src/rseq-mempool.c")], observe=["item bytes on every CPU at return"])
p("M03", "A pool holds exactly its capacity and reuses freed space",
  "A pool with a range limit can have exactly (limit x stride / rounded item size) items live at once: allocation succeeds whenever fewer are live and fails with ENOMEM, changing nothing, when that many are live; without a limit it keeps succeeding. "
  "After any history of allocations, failed allocations and frees, freeing an item makes room for exactly one more, and memory consumption does not grow while free items are available.",
  ["histories", "configurations"],
  "all bounded sequences of allocations and frees over all range limits, item sizes and pool kinds in small domains",
  "The tests fill one pool once; behaviour at and after exhaustion, and growth versus reuse, is sampled at a single point.",
  MP, [("next_unused / free list / rseq_mempool_range_create limit check", "src/rseq-mempool.c")], observe=["success/ENOMEM, number and size of mappings"])
p("M04", "Per-CPU memory is CPU-local and addressed by stride",
  "For an item of a per-CPU pool, the addresses obtained for different CPUs are distinct, lie exactly one stride apart, are readable and writable for every CPU below the pool's maximum, and a write through one CPU's address is never visible through another CPU's address nor in any other item, in any order of first touches, and the value is what that CPU reads back.",
  ["histories", "configurations"],
  "all orders of first writes by CPU and item (each may trigger a copy-on-write of a shared page), all pool kinds, strides and CPU counts in small domains; completely filled pools whose stride, CPU count or length exceed 2^31 and 2^32; CPU and stride arguments of every integer type, also given as expressions",
  "The tests write CPUs in ascending order once per item.",
  MP, [("stride layout, private mappings of the initial-values file", "src/rseq-mempool.c"), ("rseq_percpu_ptr", "include/rseq/mempool.h")], observe=["loads through every CPU's address"])
p("M05", "Robust pools detect misuse and never accuse correct programs",
  "In a robust pool, freeing an item that is not currently allocated, destroying the pool while items are still allocated, changing the memory of an item (on any CPU) after it was freed, and corrupting the free list are each detected (the process is aborted) at the latest at the offending free, at the next allocation of that item, or at pool destruction. "
  "A program that commits none of these never gets aborted, whatever it allocates, writes, frees and destroys, in any order and for any poison value, including items initialised with the poison value itself.",
  ["histories", "configurations"],
  "all bounded histories of correct operations, followed by each kind of misuse at each position (every item, every CPU, every word), for all robust configurations",
  "The tests inject one instance of each misuse after one fixed history.",
  MP, [("alloc_bitmap, poison checks, check_free_list", "src/rseq-mempool.c")], observe=["abort or not, at each call"])
p("M06", "Freed memory is overwritten with the poison value",
  "When a pool has a poison value (set explicitly, or by default for robust pools), every word of an item on every CPU holds the poison value once the item has been freed and until it is allocated again, whatever had been written on whichever CPUs; only the first word may instead hold the pool's bookkeeping in non-robust pools. "
  "Freed data therefore never leaks into a later owner's view beyond that word.",
  ["histories", "configurations", "inputs"],
  "all bounded histories with per-CPU dirty patterns before free, all poison values in a small domain including zero and values equal to existing content, all pool kinds",
  "The tests only rely on poison being consistent for one value, never read freed memory on all CPUs.",
  MP, [("rseq_percpu_poison_item", "src/rseq-mempool.c")], observe=["bytes of freed items on every CPU"])
p("M07", "Concurrent pool and set operations behave as if executed one at a time",
  "Allocations from and frees to a pool, and additions to a pool set, issued concurrently by several threads have the same results as some sequential order of them: no item is handed out twice, none is lost, capacity limits hold, growth happens as needed, and the pool passes its own consistency checks afterwards. "
  "A concurrent set allocation fails, or passes over a pool for a larger one, only if that pool was absent or full at some moment of the call. "
  "No schedule deadlocks.",
  ["schedules", "histories"],
  "all interleavings (at every shared memory access, up to a stated preemption bound) of two or three threads doing one to three operations each on the same small pool or set, including exhaustion, range creation and reuse",
  "The tests run many threads with one operation mix; a lost update needs a preemption inside a window of a few instructions.",
  MP, [("pool->lock, pool_set->lock", "src/rseq-mempool.c")], observe=["returned addresses, per-thread results, robust destroy"])
p("M08", "Failures are reported, leave no trace and are survivable",
  "When any system resource request made on behalf of a pool or set operation fails (memory, mapping, file, advice, initialisation callback), the operation reports failure as documented, releases everything it acquired (mappings, descriptors, heap), and leaves existing pools, their items and contents intact and usable so that the same call succeeds once resources are available. "
  "Successful create/destroy pairs likewise leave no mapping, descriptor or heap block behind, and destroying a pool whose memory could not be released returns an error and can be retried.",
  ["fault_sequences", "histories", "configurations"],
  "for every pool configuration and every history in a bounded set, failing each single resource request (and each pair) in turn",
  "No test injects a failure.",
  MP, [("error_alloc paths in rseq_mempool_create and rseq_mempool_range_create, rseq_mempool_destroy", "src/rseq-mempool.c")], observe=["return value and errno, live mappings/fds/heap blocks, later behaviour"])
p("M09", "Pools survive fork as documented",
  "After a fork, a pool with the zero-page populate policy is a private copy: the child sees every item's content as of the fork on every CPU, can allocate, write and free, and neither process sees the other's later changes. "
  "For the default copy-on-write-init policy nothing the child does (including destroying the pool) alters the parent's items, contents, initial values or ability to allocate, and destroying the pool in the child succeeds and releases its remaining mappings there.",
  ["histories", "configurations"],
  "fork at every point of every bounded history, all pool kinds, every child action sequence up to a small bound and both orders of parent and child actions",
  "The tests fork once at one point for a few configurations.",
  MP, [("MADV_DONTFORK, MADV_WIPEONFORK canary, header pages", "src/rseq-mempool.c")], observe=["content in parent and child, child's mappings after destroy"])
p("M10", "Pool sets pick the smallest pool that fits and has room",
  "An allocation of a given length from a pool set is served, with at least that many bytes, from the pool with the smallest item size that is large enough and still has room, and fails with ENOMEM only if no such pool exists; the variants deliver plain, zeroed or initialised content (exactly the given bytes) on every CPU. "
  "At most one pool per power-of-two item size can be added (otherwise EBUSY and the caller keeps the pool), and destroying the set destroys every pool it owns.",
  ["histories", "inputs", "configurations"],
  "all subsets and orders of pools added, all lengths around every power of two including 0 and the maximum, all sequences of set allocations and frees up to a bound that exhausts pools",
  "The tests add one fixed set of pools and check that allocation succeeds for a few lengths.",
  MP, [("__rseq_mempool_set_malloc, rseq_mempool_set_add_pool", "src/rseq-mempool.c")], observe=["which pool the address lies in, content, errno"])
p("M11", "Pool parameters are validated and honoured for every argument",
  "Creating a pool succeeds exactly for valid parameters: item size at most the stride after rounding up to a power of two (at least a pointer), stride zero (default) or a power of two no smaller than a page, a non-negative CPU count (zero meaning auto-detect), a known populate policy; anything else is rejected with EINVAL and no resources held. "
  "Every attribute setter rejects a null attribute object with EINVAL, the last setting wins independently of attribute-call order where settings do not conflict, the attribute object can be destroyed or changed after creation without affecting the pool, and the CPU count reported by a pool is the one it was created with.",
  ["inputs", "configurations"],
  "all combinations over a boundary domain of item lengths (0..2^64-1), strides, CPU counts, policies, and orders of attribute calls",
  "The tests create pools with half a dozen valid parameter sets.",
  MP + ["src/rseq-utils.h"], [("argument checks of rseq_mempool_create, rseq_get_count_order_ulong, is_pow2", "src/rseq-mempool.c")], observe=["return value, errno, reported CPU count, item spacing and capacity"])
p("M12", "The init callback runs once per CPU range before any item is handed out",
  "For a pool with an initialisation callback, whenever memory for items is set up (at creation or on growth), the callback is called exactly once for every CPU with the registered private pointer, that CPU's range address, the stride as length and the CPU number (-1 with a single call for a global pool), before any item of that memory is returned; content it writes is what a plain allocation then sees for that CPU. "
  "If it fails, no item is handed out from that memory: creation or the growing allocation fails, and an existing pool stays usable.",
  ["histories", "configurations", "fault_sequences"],
  "all bounded histories that grow pools, all pool kinds and CPU counts, a callback failure at every position",
  "One test uses the callback with a fixed history; failures and growth are not covered.",
  MP, [("init_func calls in rseq_mempool_range_create", "src/rseq-mempool.c")], observe=["callback log, item content, allocation results"])
p("M13", "The NUMA placement helper covers every page exactly once",
  "Placing a range on a CPU's NUMA node asks the kernel to move every whole page of the range exactly once to that CPU's node with the caller's flags, for any number of pages and however the requests are split; it returns 0 only if the kernel accepted every request (single pages the kernel reports as not migrated are not an error), -1 with EINVAL when called with no flags, and a negative value when the node is unknown or the kernel refuses.",
  ["inputs", "fault_sequences"],
  "all page counts around the internal batch boundaries, unaligned lengths, every position of a failing or partially failing kernel request",
  "The tests run on one-node machines with a range of one size.",
  MP, [("rseq_mempool_range_init_numa", "src/rseq-mempool.c")], observe=["page lists passed to move_pages, return value"])

p("M14", "Memory of CPUs that never write stays unpopulated",
  "The library leaves per-CPU pages to be populated by the first store of the application. In a pool with the COW_INIT policy, no creation, allocation (plain, zeroed or with initial content) or free populates memory of a CPU unless the application (or its init callback) has itself stored, on that CPU, to an item lying at least partly in that page: until then the page keeps sharing the initial-values page. "
  "In a pool with the COW_ZERO policy the same holds for creation, plain and zeroed allocation, initialised allocation with all-zero content and free, as long as the poison value is zero or unset; exempt there is the first CPU's memory of freed items of a non-robust pool, which holds the free list.",
  ["histories", "inputs"],
  "all sequences of allocations of every kind, frees and application stores up to the depth bound, for every combination of policy, robust, poison, item length smaller than, equal to and larger than a page, one to three CPUs, one or two ranges",
  "Content is right either way, so content checks cannot see it; the tests never look at which pages are populated.",
  MP, [("rseq_percpu_zero_item", "src/rseq-mempool.c"), ("rseq_percpu_init_item", "src/rseq-mempool.c"), ("rseq_percpu_poison_item", "src/rseq-mempool.c"), ("rseq_mempool_range_create", "src/rseq-mempool.c")], observe=["populated pages of the process (/proc/self/pagemap), resident set"])

p("R01", "Start-up finds the right owner, offset and feature size in every environment",
  "Whatever the C library and kernel provide, initialisation uses the C library's rseq area (its offset and flags) exactly when the C library exposes a registered one, and otherwise the library's own suitably aligned per-thread area, in which everything the kernel may write is reserved memory. "
  "The published active feature size is the C library's, except that the two historical values 20 and 32 are replaced by the kernel's feature size capped at 32; with the own area it is zero until a thread has registered successfully and the kernel's feature size (20 if the kernel does not tell) from then on. "
  "The availability queries answer accordingly: kernel support exactly when the system call exists, C library support exactly when the C library registered an area, and false for anything else.",
  ["configurations", "inputs"],
  "all combinations of C-library symbols present/absent, their size, offset and flag values, and kernel-reported feature sizes and alignments in a boundary domain, with and without a working system call",
  "The tests run under the one C library and kernel of the machine.",
  ["src/rseq.c", "include/rseq/rseq.h", "include/rseq/abi.h"], [("rseq_init, rseq_available, get_rseq_kernel_feature_size", "src/rseq.c")], observe=["rseq_offset, rseq_size, rseq_flags, rseq_available()"])
p("R02", "Thread registration is correct for every call history",
  "Registering a thread succeeds whenever the kernel accepts it, with an area, length and signature that cover every feature the library then advertises; unregistering undoes exactly that thread's registration with the same area, length and signature, after which its CPU number reads as unregistered. "
  "When the C library owns registration both calls succeed without any system call; a refused registration returns -1 and leaves the advertised features unchanged, unless a thread had already registered successfully, in which case the process is stopped rather than left half-registered; an unmatched unregistration returns -1 and changes nothing.",
  ["histories", "fault_sequences", "configurations"],
  "all sequences of register/unregister calls by up to three threads up to a bounded length, with every kernel answer (success, every documented error) at every call, for several kernel feature sizes",
  "The tests register once per thread and unregister once, against one kernel, always successfully.",
  ["src/rseq.c", "include/rseq/rseq.h"], [("rseq_register_current_thread, rseq_unregister_current_thread", "src/rseq.c")], observe=["system-call arguments, return values, rseq area, rseq_size"])
p("R03", "Initialisation is safe when threads race to be first",
  "When several threads make the first calls into the library concurrently (registration, pool creation with CPU auto-detection, CPU-count query), each call that returns obtained the same result as if it had run alone, and the offset, flags, feature size and CPU count visible to a thread whose call has returned are the final ones, never half-initialised values.",
  ["schedules"],
  "all interleavings at shared-memory-access granularity of two or three threads making their first calls, up to a stated preemption bound, under both ownership configurations",
  "The constructor runs before the tests' threads exist; racing first uses are not exercised.",
  ["src/rseq.c", "src/smp.c"], [("init_lock / init_done in rseq_init, rseq_size publication, possible-CPU cache", "src/rseq.c")], observe=["results of each call, rseq_size/rseq_offset after return"])
p("R04", "CPU, node and concurrency-id queries agree with the kernel's view",
  "The current-CPU query returns the CPU the kernel last recorded for the thread, or falls back to asking the operating system when the thread is not registered; the raw query exposes the unregistered and failed states as -1 and -2; the speculative query always yields a valid CPU index, even when unregistered; node and concurrency id are reported as available exactly when the active feature size covers them and then equal the kernel's values. "
  "The operating-system fallbacks return the system's answer for every CPU and node.",
  ["inputs", "configurations"],
  "all values of the thread's rseq area fields in a boundary domain, all active feature sizes, all fallback answers",
  "The tests compare CPU numbers on a pinned registered thread only.",
  ["include/rseq/rseq.h", "include/rseq/abi.h", "src/rseq.c", "include/rseq/thread-pointer.h"], [("rseq_current_cpu*, rseq_cpu_start, rseq_*_available, rseq_fallback_*", "include/rseq/rseq.h")], observe=["returned values"])
p("R05", "The CPU count covers every possible CPU on any system description",
  "The auto-detected maximum number of CPUs is the highest possible CPU number plus one for every well-formed system CPU list (shorter than 4 KiB), regardless of how the list is split across reads or interrupted; when the list is unavailable or unusable, it falls back to a count no smaller than the configured number of CPUs and than the highest CPU listed in the system's CPU directory plus one. "
  "It is never smaller than the true count, is the same on every call once determined, and no descriptor is leaked.",
  ["inputs", "fault_sequences"],
  "all CPU lists up to a bounded number of ranges over boundary CPU numbers, all splits of the file over reads with interruptions, errors at every call, all small directory contents",
  "Tests only see the one list of the machine they run on (a single range read in one piece); other lists, read patterns, errors and fallbacks are not exercised.",
  ["src/smp.c", "src/smp.h"], [("get_possible_cpus_array_len, get_max_cpuid_from_mask, get_max_cpuid_from_sysfs", "src/smp.c")], observe=["returned count, calls made"])

P.sort(key=lambda d: d["id"])
assert all(len(d["title"]) <= 80 for d in P), [d["title"] for d in P if len(d["title"])>80]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
