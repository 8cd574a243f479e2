From 177dd49c09d6cfb06b259a26df9557c655889d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:15 +0000
Subject: [PATCH 01/15] fix: list the teardown code as exit point of the
 copy-and-store sections

The copy-and-store critical sections which restore their operands leave
through teardown code (labels 5, 6 and 7) when a comparison fails, but
their exit point entries named the C labels the teardown code branches to
later on. List the instructions the section actually branches to, as
documented for RSEQ_ASM_DEFINE_EXIT_POINT().
---
 include/rseq/arch/loongarch/bits.h | 6 +++---
 include/rseq/arch/mips/bits.h      | 6 +++---
 include/rseq/arch/s390/bits.h      | 6 +++---
 include/rseq/arch/x86/bits.h       | 6 +++---
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/rseq/arch/loongarch/bits.h b/include/rseq/arch/loongarch/bits.h
index 950ce92..f6c9550 100644
--- a/include/rseq/arch/loongarch/bits.h
+++ b/include/rseq/arch/loongarch/bits.h
@@ -384,10 +384,10 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 
 	__asm__ __volatile__ goto (
 		RSEQ_ASM_DEFINE_TABLE(9, 1f, 2f, 4f) /* start, commit, abort */
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[ne])
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 5f)
 #ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error1])
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error2])
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 6f)
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 7f)
 #endif
 		RSEQ_ASM_LONG_S " %[src], %[rseq_scratch0]\n\t"
 		RSEQ_ASM_LONG_S "  %[dst], %[rseq_scratch1]\n\t"
diff --git a/include/rseq/arch/mips/bits.h b/include/rseq/arch/mips/bits.h
index b72353f..e8e2053 100644
--- a/include/rseq/arch/mips/bits.h
+++ b/include/rseq/arch/mips/bits.h
@@ -356,10 +356,10 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 
 	__asm__ __volatile__ goto (
 		RSEQ_ASM_DEFINE_TABLE(9, 1f, 2f, 4f) /* start, commit, abort */
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[ne])
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 5f)
 #ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error1])
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error2])
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 6f)
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 7f)
 #endif
 		RSEQ_ASM_LONG_S " %[src], %[rseq_scratch0]\n\t"
 		RSEQ_ASM_LONG_S "  %[dst], %[rseq_scratch1]\n\t"
diff --git a/include/rseq/arch/s390/bits.h b/include/rseq/arch/s390/bits.h
index ef2ff69..d517f46 100644
--- a/include/rseq/arch/s390/bits.h
+++ b/include/rseq/arch/s390/bits.h
@@ -367,10 +367,10 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 
 	__asm__ __volatile__ goto (
 		RSEQ_ASM_DEFINE_TABLE(3, 1f, 2f, 4f) /* start, commit, abort */
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[ne])
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 5f)
 #ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error1])
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error2])
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 6f)
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 7f)
 #endif
 		RSEQ_ASM_LONG_S " %[src], %[rseq_scratch0]\n\t"
 		RSEQ_ASM_LONG_S " %[dst], %[rseq_scratch1]\n\t"
diff --git a/include/rseq/arch/x86/bits.h b/include/rseq/arch/x86/bits.h
index 22ab80b..8ef4406 100644
--- a/include/rseq/arch/x86/bits.h
+++ b/include/rseq/arch/x86/bits.h
@@ -424,10 +424,10 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 
 	__asm__ __volatile__ goto (
 		RSEQ_ASM_DEFINE_TABLE(3, 1f, 2f, 4f) /* start, commit, abort */
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[ne])
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 5f)
 #ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error1])
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error2])
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 6f)
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 7f)
 #endif
 		"movq %[src], %[rseq_scratch0]\n\t"
 		"movq %[dst], %[rseq_scratch1]\n\t"
-- 
2.43.0


From 6d6c4a1cd1141373b449852fc50e41d2f87f13b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:47 +0000
Subject: [PATCH 02/15] fix: initialise the item in
 rseq_mempool_set_percpu_malloc_init()

The set variant asked for a zeroed item, so the initial content given by
the caller was ignored.
---
 src/rseq-mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 061d38f..67cb683 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -1290,7 +1290,7 @@ void __rseq_percpu *rseq_mempool_set_percpu_zmalloc(struct rseq_mempool_set *poo
 void __rseq_percpu *rseq_mempool_set_percpu_malloc_init(struct rseq_mempool_set *pool_set,
 		void *init_ptr, size_t len)
 {
-	return __rseq_mempool_set_malloc(pool_set, init_ptr, len, true);
+	return __rseq_mempool_set_malloc(pool_set, init_ptr, len, false);
 }
 
 struct rseq_mempool_attr *rseq_mempool_attr_create(void)
-- 
2.43.0


From a3aa13a50ff2d425cbf0b414453ac9b363b9dc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:54 +0000
Subject: [PATCH 03/15] fix: refuse mempool ranges which exceed the address
 space

The product of stride and max_nr_cpus could wrap around, creating a pool
with less memory than its per-cpu pointers refer to, or aborting in
rseq_mempool_create().
---
 src/rseq-mempool.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 67cb683..57689e0 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -755,6 +755,15 @@ struct rseq_mempool_range *rseq_mempool_range_create(struct rseq_mempool *pool)
 	page_size = rseq_get_page_len();
 
 	header_len = POOL_HEADER_NR_PAGES * page_size;
+	/*
+	 * The per-cpu areas, init values and free list, plus the header
+	 * and the space needed for alignment, must be addressable.
+	 */
+	if ((size_t) pool->attr.max_nr_cpus + 3 >
+			(SIZE_MAX - header_len) / pool->attr.stride) {
+		errno = ENOMEM;
+		return NULL;
+	}
 	range_len = pool->attr.stride * pool->attr.max_nr_cpus;
 	if (pool->attr.populate_policy == RSEQ_MEMPOOL_POPULATE_COW_INIT)
 		range_len += pool->attr.stride;	/* init values */
-- 
2.43.0


From a3762d3f7cee4176323e50f44838a1d9ff9198c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:11 +0000
Subject: [PATCH 04/15] fix: reject an item_len that cannot be rounded to a
 power of two

Shifting by the width of unsigned long is undefined; on x86-64 the pool
was created with an item length of 1.
---
 src/rseq-mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 57689e0..705c409 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -946,7 +946,7 @@ struct rseq_mempool *rseq_mempool_create(const char *pool_name,
 
 	/* Align item_len on next power of two. */
 	order = rseq_get_count_order_ulong(item_len);
-	if (order < 0) {
+	if (order < 0 || order >= RSEQ_BITS_PER_LONG) {
 		errno = EINVAL;
 		return NULL;
 	}
-- 
2.43.0


From 98afefe3c8e6608318176ad23e892791ee3b8a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:10 +0000
Subject: [PATCH 05/15] fix: report unmap failure from rseq_mempool_destroy()

The pool stays allocated, but the caller was told that it is gone.
---
 src/rseq-mempool.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 705c409..a36262b 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -922,6 +922,7 @@ int rseq_mempool_destroy(struct rseq_mempool *pool)
 		if (rseq_mempool_range_destroy(pool, range, mapping_accessible)) {
 			/* Keep list coherent in case of partial failure. */
 			list_add(&range->node, &pool->range_list);
+			ret = -1;
 			goto end;
 		}
 	}
-- 
2.43.0


From f0a2fea896b18cef96c9ea09504638fb16e90602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:28 +0000
Subject: [PATCH 06/15] fix: let rseq_mempool_destroy() of a robust pool be
 retried

After a partial unmap failure, the free list still contains items of
ranges which are gone: walking it again aborted the process.
---
 src/rseq-mempool.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index a36262b..fcd7461 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -173,6 +173,9 @@ struct rseq_mempool {
 
 	struct rseq_mempool_attr attr;
 	char *name;
+
+	/* An earlier destroy attempt validated the pool. */
+	bool destroy_checked;
 };
 
 /*
@@ -913,8 +916,15 @@ int rseq_mempool_destroy(struct rseq_mempool *pool)
 	 */
 	mapping_accessible = pool_mappings_accessible(pool);
 
-	check_free_list(pool, mapping_accessible);
-	check_pool_poison(pool, mapping_accessible);
+	/*
+	 * Validate only once: after a partial failure, the free list
+	 * refers to ranges which are already unmapped.
+	 */
+	if (!pool->destroy_checked) {
+		check_free_list(pool, mapping_accessible);
+		check_pool_poison(pool, mapping_accessible);
+		pool->destroy_checked = true;
+	}
 
 	/* Iteration safe against removal. */
 	list_for_each_entry_safe(range, tmp_range, &pool->range_list, node) {
-- 
2.43.0


From 9e852981bc148d6ded1e696954fa52df3fef4c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:01 +0000
Subject: [PATCH 07/15] fix: register threads with a length covering the kernel
 feature size

The first thread of a process was registered with 32 bytes although the
feature size published afterwards may be larger, and its unregistration
then used another length than its registration.
---
 src/rseq.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/rseq.c b/src/rseq.c
index 7bfaea7..9172a5a 100644
--- a/src/rseq.c
+++ b/src/rseq.c
@@ -114,17 +114,6 @@ bool rseq_available(unsigned int query)
 	return false;
 }
 
-/* The rseq areas need to be at least 32 bytes. */
-static
-unsigned int get_rseq_min_alloc_size(void)
-{
-	unsigned int alloc_size = rseq_size;
-
-	if (alloc_size < ORIG_RSEQ_ALLOC_SIZE)
-		alloc_size = ORIG_RSEQ_ALLOC_SIZE;
-	return alloc_size;
-}
-
 /*
  * Return the feature size supported by the kernel.
  *
@@ -151,6 +140,21 @@ unsigned int get_rseq_kernel_feature_size(void)
 		return ORIG_RSEQ_FEATURE_SIZE;
 }
 
+/*
+ * The rseq areas need to be at least 32 bytes, and need to cover all the
+ * features supported by the kernel. Use the same size for all threads, for
+ * registration and unregistration, whether or not rseq_size is already set.
+ */
+static
+unsigned int get_rseq_min_alloc_size(void)
+{
+	unsigned int alloc_size = get_rseq_kernel_feature_size();
+
+	if (alloc_size < ORIG_RSEQ_ALLOC_SIZE)
+		alloc_size = ORIG_RSEQ_ALLOC_SIZE;
+	return alloc_size;
+}
+
 int rseq_register_current_thread(void)
 {
 	int rc;
-- 
2.43.0


From 66286af6946c3f4d0a58f2f0d7e669f5668258cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:55 +0000
Subject: [PATCH 08/15] fix: do not modify input operands in the x86-64
 copy-and-store sections

The compiler may keep the address of v, newv or expect in the same register
as dst, src or len (for instance when newv equals len, or when v and dst are
in the same structure). Incrementing and decrementing those input registers
then made the final store write a wrong value or to a wrong address. Use
clobbered registers for the copy, as on powerpc.
---
 include/rseq/arch/x86/bits.h | 70 ++++++++++++------------------------
 1 file changed, 22 insertions(+), 48 deletions(-)

diff --git a/include/rseq/arch/x86/bits.h b/include/rseq/arch/x86/bits.h
index 8ef4406..971e757 100644
--- a/include/rseq/arch/x86/bits.h
+++ b/include/rseq/arch/x86/bits.h
@@ -418,41 +418,43 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 				 void *dst, void *src, size_t len,
 				 intptr_t newv, int cpu)
 {
-	uint64_t rseq_scratch[3];
-
 	RSEQ_INJECT_C(9)
 
 	__asm__ __volatile__ goto (
 		RSEQ_ASM_DEFINE_TABLE(3, 1f, 2f, 4f) /* start, commit, abort */
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 5f)
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[ne])
 #ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 6f)
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 7f)
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error1])
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error2])
 #endif
-		"movq %[src], %[rseq_scratch0]\n\t"
-		"movq %[dst], %[rseq_scratch1]\n\t"
-		"movq %[len], %[rseq_scratch2]\n\t"
+		/*
+		 * Input operands can share registers with each other and
+		 * with the address of v, so copy through clobbered registers.
+		 */
+		"movq %[len], %%rcx\n\t"
+		"movq %[src], %%rsi\n\t"
+		"movq %[dst], %%rdi\n\t"
 		/* Start rseq by storing table entry pointer into rseq_cs. */
 		RSEQ_ASM_STORE_RSEQ_CS(1, 3b, RSEQ_ASM_TP_SEGMENT:RSEQ_ASM_CS_OFFSET(%[rseq_offset]))
 		RSEQ_ASM_CBNE_CPU_ID(cpu_id, RSEQ_ASM_TP_SEGMENT:RSEQ_TEMPLATE_INDEX_CPU_ID_OFFSET(%[rseq_offset]), 4f)
 		RSEQ_INJECT_ASM(3)
 		"cmpq %[v], %[expect]\n\t"
-		"jne 5f\n\t"
+		"jne %l[ne]\n\t"
 		RSEQ_INJECT_ASM(4)
 #ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_CBNE_CPU_ID(cpu_id, RSEQ_ASM_TP_SEGMENT:RSEQ_TEMPLATE_INDEX_CPU_ID_OFFSET(%[rseq_offset]), 6f)
+		RSEQ_ASM_CBNE_CPU_ID(cpu_id, RSEQ_ASM_TP_SEGMENT:RSEQ_TEMPLATE_INDEX_CPU_ID_OFFSET(%[rseq_offset]), %l[error1])
 		"cmpq %[v], %[expect]\n\t"
-		"jne 7f\n\t"
+		"jne %l[error2]\n\t"
 #endif
 		/* try memcpy */
-		"test %[len], %[len]\n\t" \
+		"test %%rcx, %%rcx\n\t" \
 		"je 333f\n\t" \
 		"222:\n\t" \
-		"movb (%[src]), %%al\n\t" \
-		"movb %%al, (%[dst])\n\t" \
-		"inc %[src]\n\t" \
-		"inc %[dst]\n\t" \
-		"dec %[len]\n\t" \
+		"movb (%%rsi), %%al\n\t" \
+		"movb %%al, (%%rdi)\n\t" \
+		"inc %%rsi\n\t" \
+		"inc %%rdi\n\t" \
+		"dec %%rcx\n\t" \
 		"jnz 222b\n\t" \
 		"333:\n\t" \
 		RSEQ_INJECT_ASM(5)
@@ -460,32 +462,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		"movq %[newv], %[v]\n\t"
 		"2:\n\t"
 		RSEQ_INJECT_ASM(6)
-		/* teardown */
-		"movq %[rseq_scratch2], %[len]\n\t"
-		"movq %[rseq_scratch1], %[dst]\n\t"
-		"movq %[rseq_scratch0], %[src]\n\t"
-		RSEQ_ASM_DEFINE_ABORT(4,
-			"movq %[rseq_scratch2], %[len]\n\t"
-			"movq %[rseq_scratch1], %[dst]\n\t"
-			"movq %[rseq_scratch0], %[src]\n\t",
-			abort)
-		RSEQ_ASM_DEFINE_TEARDOWN(5,
-			"movq %[rseq_scratch2], %[len]\n\t"
-			"movq %[rseq_scratch1], %[dst]\n\t"
-			"movq %[rseq_scratch0], %[src]\n\t",
-			ne)
-#ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_DEFINE_TEARDOWN(6,
-			"movq %[rseq_scratch2], %[len]\n\t"
-			"movq %[rseq_scratch1], %[dst]\n\t"
-			"movq %[rseq_scratch0], %[src]\n\t",
-			error1)
-		RSEQ_ASM_DEFINE_TEARDOWN(7,
-			"movq %[rseq_scratch2], %[len]\n\t"
-			"movq %[rseq_scratch1], %[dst]\n\t"
-			"movq %[rseq_scratch0], %[src]\n\t",
-			error2)
-#endif
+		RSEQ_ASM_DEFINE_ABORT(4, "", abort)
 		: /* gcc asm goto does not allow outputs */
 		: [cpu_id]		"r" (cpu),
 		  [rseq_offset]		"r" ((long long int) rseq_offset),
@@ -496,11 +473,8 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		  /* try memcpy input */
 		  [dst]			"r" (dst),
 		  [src]			"r" (src),
-		  [len]			"r" (len),
-		  [rseq_scratch0]	"m" (rseq_scratch[0]),
-		  [rseq_scratch1]	"m" (rseq_scratch[1]),
-		  [rseq_scratch2]	"m" (rseq_scratch[2])
-		: "memory", "cc", "rax"
+		  [len]			"r" (len)
+		: "memory", "cc", "rax", "rcx", "rsi", "rdi"
 		  RSEQ_INJECT_CLOBBER
 		: abort, ne
 #ifdef RSEQ_COMPARE_TWICE
-- 
2.43.0


From ce85489847a076a1430478665358c2be2551f2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:02 +0000
Subject: [PATCH 09/15] fix: riscv, loongarch: sign-extend the cpu operand
 compared in 64 bits

The current id is loaded with a sign-extending 32-bit load and compared as
a 64-bit register with the "cpu" argument, an int passed as an "r" operand:
the compiler leaves the upper half of that register undefined, so the
comparison could fail although the ids are equal.
---
 include/rseq/arch/loongarch/bits.h | 12 ++++++------
 include/rseq/arch/riscv/bits.h     | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/rseq/arch/loongarch/bits.h b/include/rseq/arch/loongarch/bits.h
index f6c9550..d5861f3 100644
--- a/include/rseq/arch/loongarch/bits.h
+++ b/include/rseq/arch/loongarch/bits.h
@@ -53,7 +53,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_store__ptr)(intptr_t *v, intptr_t ex
 		RSEQ_ASM_DEFINE_ABORT(4, "", abort, 3, 1b, 2b, 4f)
 		"5:\n\t"
 		: /* gcc asm goto does not allow outputs */
-		: [cpu_id]		"r" (cpu),
+		: [cpu_id]		"r" ((long) cpu),
 		  [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 		  [rseq_cs]		"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 		  [v]			"m" (*v),
@@ -122,7 +122,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbeq_store_add_load_store__ptr)(intptr_t
 		RSEQ_ASM_DEFINE_ABORT(4, "", abort, 3, 1b, 2b, 4f)
 		"5:\n\t"
 		: /* gcc asm goto does not allow outputs */
-		: [cpu_id]		"r" (cpu),
+		: [cpu_id]		"r" ((long) cpu),
 		  [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 		  [rseq_cs]		"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 		  /* final store input */
@@ -184,7 +184,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_add_store__ptr)(intptr_t *v, intptr_t cou
 		RSEQ_ASM_DEFINE_ABORT(4, "", abort, 3, 1b, 2b, 4f)
 		"5:\n\t"
 		: /* gcc asm goto does not allow outputs */
-		: [cpu_id]		"r" (cpu),
+		: [cpu_id]		"r" ((long) cpu),
 		  [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 		  [rseq_cs]		"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 		  [v]			"m" (*v),
@@ -250,7 +250,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_load_cbne_store__ptr)(intptr_t *v, i
 		RSEQ_ASM_DEFINE_ABORT(4, "", abort, 3, 1b, 2b, 4f)
 		"5:\n\t"
 		: /* gcc asm goto does not allow outputs */
-		: [cpu_id]		"r" (cpu),
+		: [cpu_id]		"r" ((long) cpu),
 		  [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 		  [rseq_cs]		"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 		  /* cmp2 input */
@@ -336,7 +336,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_store_store__ptr)(intptr_t *v, intpt
 		RSEQ_ASM_DEFINE_ABORT(4, "", abort, 3, 1b, 2b, 4f)
 		"5:\n\t"
 		: /* gcc asm goto does not allow outputs */
-		: [cpu_id]		"r" (cpu),
+		: [cpu_id]		"r" ((long) cpu),
 		  [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 		  [rseq_cs]		"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 		  /* try store input */
@@ -455,7 +455,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 #endif
 		"8:\n\t"
 		: /* gcc asm goto does not allow outputs */
-		: [cpu_id]		"r" (cpu),
+		: [cpu_id]		"r" ((long) cpu),
 		  [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 		  [rseq_cs]		"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 		  /* final store input */
diff --git a/include/rseq/arch/riscv/bits.h b/include/rseq/arch/riscv/bits.h
index 799e5b9..8d4846c 100644
--- a/include/rseq/arch/riscv/bits.h
+++ b/include/rseq/arch/riscv/bits.h
@@ -36,7 +36,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_store__ptr)(intptr_t *v, intptr_t ex
 				  RSEQ_INJECT_ASM(5)
 				  RSEQ_ASM_DEFINE_ABORT(4, "", abort)
 				  : /* gcc asm goto does not allow outputs */
-				  : [cpu_id]		"r" (cpu),
+				  : [cpu_id]		"r" ((long) cpu),
 				    [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 				    [rseq_cs]		"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 				    [v]			"m" (*v),
@@ -93,7 +93,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbeq_store_add_load_store__ptr)(intptr_t
 				  RSEQ_INJECT_ASM(5)
 				  RSEQ_ASM_DEFINE_ABORT(4, "", abort)
 				  : /* gcc asm goto does not allow outputs */
-				  : [cpu_id]		"r" (cpu),
+				  : [cpu_id]		"r" ((long) cpu),
 				    [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 				    [rseq_cs]		"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 				    [v]			"m" (*v),
@@ -143,7 +143,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_add_store__ptr)(intptr_t *v, intptr_t cou
 				  RSEQ_INJECT_ASM(4)
 				  RSEQ_ASM_DEFINE_ABORT(4, "", abort)
 				  : /* gcc asm goto does not allow outputs */
-				  : [cpu_id]		"r" (cpu),
+				  : [cpu_id]		"r" ((long) cpu),
 				    [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 				    [rseq_cs]		"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 				    [v]			"m" (*v),
@@ -196,7 +196,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_load_cbne_store__ptr)(intptr_t *v, i
 				  RSEQ_INJECT_ASM(6)
 				  RSEQ_ASM_DEFINE_ABORT(4, "", abort)
 				  : /* gcc asm goto does not allow outputs */
-				  : [cpu_id]		"r" (cpu),
+				  : [cpu_id]		"r" ((long) cpu),
 				    [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 				    [rseq_cs]		"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 				    [v]			"m" (*v),
@@ -267,7 +267,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_store_store__ptr)(intptr_t *v, intpt
 				  RSEQ_INJECT_ASM(6)
 				  RSEQ_ASM_DEFINE_ABORT(4, "", abort)
 				  : /* gcc asm goto does not allow outputs */
-				  : [cpu_id]			"r" (cpu),
+				  : [cpu_id]			"r" ((long) cpu),
 				    [current_cpu_id]		"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 				    [rseq_cs]			"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 				    [expect]			"r" (expect),
@@ -329,7 +329,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 				  RSEQ_INJECT_ASM(6)
 				  RSEQ_ASM_DEFINE_ABORT(4, "", abort)
 				  : /* gcc asm goto does not allow outputs */
-				  : [cpu_id]			"r" (cpu),
+				  : [cpu_id]			"r" ((long) cpu),
 				    [current_cpu_id]		"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 				    [rseq_cs]			"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 				    [expect]			"r" (expect),
-- 
2.43.0


From 61438ebb3ca1ed32c48f0e193d4ac16b711bf21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:49 +0000
Subject: [PATCH 10/15] fix: mips: accept run-time addend and offset operands

The addend ("count") and the offset ("voffp") are "Ir" operands of addiu and
daddiu, which take immediates only: with a value that is not a constant
fitting in 16 bits, the helpers do not assemble. Use addu and daddu, which
the assembler accepts with a register or with an immediate.
---
 include/rseq/arch/mips.h      | 2 ++
 include/rseq/arch/mips/bits.h | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/rseq/arch/mips.h b/include/rseq/arch/mips.h
index a811a07..f296dd4 100644
--- a/include/rseq/arch/mips.h
+++ b/include/rseq/arch/mips.h
@@ -95,12 +95,14 @@ do {									\
 # define RSEQ_ASM_LONG_L		"ld"
 # define RSEQ_ASM_LONG_S		"sd"
 # define RSEQ_ASM_LONG_ADDI		"daddiu"
+# define RSEQ_ASM_LONG_ADDU		"daddu"
 #else
 # define RSEQ_ASM_LONG			".word"
 # define RSEQ_ASM_LONG_LA		"la"
 # define RSEQ_ASM_LONG_L		"lw"
 # define RSEQ_ASM_LONG_S		"sw"
 # define RSEQ_ASM_LONG_ADDI		"addiu"
+# define RSEQ_ASM_LONG_ADDU		"addu"
 #endif
 
 /*
diff --git a/include/rseq/arch/mips/bits.h b/include/rseq/arch/mips/bits.h
index e8e2053..ef05921 100644
--- a/include/rseq/arch/mips/bits.h
+++ b/include/rseq/arch/mips/bits.h
@@ -103,7 +103,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbeq_store_add_load_store__ptr)(intptr_t
 		"beq $4, %[expectnot], %l[error2]\n\t"
 #endif
 		RSEQ_ASM_LONG_S " $4, %[load]\n\t"
-		RSEQ_ASM_LONG_ADDI " $4, %[voffp]\n\t"
+		RSEQ_ASM_LONG_ADDU " $4, $4, %[voffp]\n\t"
 		RSEQ_ASM_LONG_L " $4, 0($4)\n\t"
 		/* final store */
 		RSEQ_ASM_LONG_S " $4, %[v]\n\t"
@@ -161,7 +161,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_add_store__ptr)(intptr_t *v, intptr_t cou
 		RSEQ_ASM_CBNE_CPU_ID(cpu_id, current_cpu_id, %l[error1])
 #endif
 		RSEQ_ASM_LONG_L " $4, %[v]\n\t"
-		RSEQ_ASM_LONG_ADDI " $4, %[count]\n\t"
+		RSEQ_ASM_LONG_ADDU " $4, $4, %[count]\n\t"
 		/* final store */
 		RSEQ_ASM_LONG_S " $4, %[v]\n\t"
 		"2:\n\t"
-- 
2.43.0


From 1ff75680e7517f6a7c74b49536803d86ef73776b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:49 +0000
Subject: [PATCH 11/15] fix: loongarch: accept run-time addend and offset
 operands

The addend ("count") and the offset ("voffp") are "Ir" operands of addi.d,
which takes an immediate only: with a value that is not a constant fitting
in 12 bits, the helpers do not assemble. Use add.d on a register.
---
 include/rseq/arch/loongarch.h      | 1 +
 include/rseq/arch/loongarch/bits.h | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/rseq/arch/loongarch.h b/include/rseq/arch/loongarch.h
index 884973f..afbfdc0 100644
--- a/include/rseq/arch/loongarch.h
+++ b/include/rseq/arch/loongarch.h
@@ -68,6 +68,7 @@ do {									\
 #define RSEQ_ASM_LONG_L		"ld.d"
 #define RSEQ_ASM_LONG_S		"st.d"
 #define RSEQ_ASM_LONG_ADDI	"addi.d"
+#define RSEQ_ASM_LONG_ADD	"add.d"
 
 /*
  * Helper macros to define a variable of pointer type stored in a 64-bit
diff --git a/include/rseq/arch/loongarch/bits.h b/include/rseq/arch/loongarch/bits.h
index d5861f3..1d7dc55 100644
--- a/include/rseq/arch/loongarch/bits.h
+++ b/include/rseq/arch/loongarch/bits.h
@@ -112,7 +112,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbeq_store_add_load_store__ptr)(intptr_t
 		"beq $r4, %[expectnot], %l[error2]\n\t"
 #endif
 		RSEQ_ASM_LONG_S " $r4, %[load]\n\t"
-		RSEQ_ASM_LONG_ADDI " $r4, $r4, %[voffp]\n\t"
+		RSEQ_ASM_LONG_ADD " $r4, $r4, %[voffp]\n\t"
 		RSEQ_ASM_LONG_L " $r4, $r4, 0\n\t"
 		/* final store */
 		RSEQ_ASM_LONG_S " $r4, %[v]\n\t"
@@ -128,7 +128,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbeq_store_add_load_store__ptr)(intptr_t
 		  /* final store input */
 		  [v]			"m" (*v),
 		  [expectnot]		"r" (expectnot),
-		  [voffp]		"Ir" (voffp),
+		  [voffp]		"r" (voffp),
 		  [load]		"m" (*load)
 		  RSEQ_INJECT_INPUT
 		: "$r4", "memory"
@@ -175,7 +175,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_add_store__ptr)(intptr_t *v, intptr_t cou
 		RSEQ_ASM_CBNE_CPU_ID(cpu_id, current_cpu_id, %l[error1])
 #endif
 		RSEQ_ASM_LONG_L " $r4, %[v]\n\t"
-		RSEQ_ASM_LONG_ADDI " $r4, $r4, %[count]\n\t"
+		RSEQ_ASM_LONG_ADD " $r4, $r4, %[count]\n\t"
 		/* final store */
 		RSEQ_ASM_LONG_S " $r4, %[v]\n\t"
 		"2:\n\t"
@@ -188,7 +188,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_add_store__ptr)(intptr_t *v, intptr_t cou
 		  [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 		  [rseq_cs]		"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 		  [v]			"m" (*v),
-		  [count]		"Ir" (count)
+		  [count]		"r" (count)
 		  RSEQ_INJECT_INPUT
 		: "$r4", "memory"
 		  RSEQ_INJECT_CLOBBER
-- 
2.43.0


From d244997707bb3c9a15b209cd7f7705ed0cddd543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:10 +0000
Subject: [PATCH 12/15] fix: x86-32: rseq_smp_mb() names a register the
 architecture lacks

%rsp does not assemble in 32-bit code: use %esp there.
---
 include/rseq/arch/x86.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/rseq/arch/x86.h b/include/rseq/arch/x86.h
index a6a4068..2c3e4c3 100644
--- a/include/rseq/arch/x86.h
+++ b/include/rseq/arch/x86.h
@@ -46,8 +46,13 @@
  */
 
 /* CPU memory barrier. */
+#ifdef RSEQ_ARCH_AMD64
 #define rseq_smp_mb()	\
 	__asm__ __volatile__ ("lock; addl $0,-128(%%rsp)" ::: "memory", "cc")
+#else
+#define rseq_smp_mb()	\
+	__asm__ __volatile__ ("lock; addl $0,-128(%%esp)" ::: "memory", "cc")
+#endif
 /* CPU read memory barrier */
 #define rseq_smp_rmb()	rseq_barrier()
 /* CPU write memory barrier */
-- 
2.43.0


From e35fbc5f8f2ad6c365dcd9aadbe7c016c97121f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:39 +0000
Subject: [PATCH 13/15] fix: do not modify input operands in the s390, mips,
 loongarch copy-and-store sections

As on x86-64: the compiler may keep the address of v, newv or expect in the
same register as dst, src or len. Incrementing and decrementing those input
registers then made the final store write a wrong value or to a wrong
address. Use clobbered registers for the copy, as on arm and powerpc.
---
 include/rseq/arch/loongarch/bits.h | 80 ++++++++++--------------------
 include/rseq/arch/mips/bits.h      | 80 ++++++++++--------------------
 include/rseq/arch/s390/bits.h      | 70 ++++++++------------------
 3 files changed, 72 insertions(+), 158 deletions(-)

diff --git a/include/rseq/arch/loongarch/bits.h b/include/rseq/arch/loongarch/bits.h
index 1d7dc55..b859db3 100644
--- a/include/rseq/arch/loongarch/bits.h
+++ b/include/rseq/arch/loongarch/bits.h
@@ -378,41 +378,43 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 				 void *dst, void *src, size_t len,
 				 intptr_t newv, int cpu)
 {
-	uintptr_t rseq_scratch[3];
-
 	RSEQ_INJECT_C(9)
 
 	__asm__ __volatile__ goto (
 		RSEQ_ASM_DEFINE_TABLE(9, 1f, 2f, 4f) /* start, commit, abort */
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 5f)
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[ne])
 #ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 6f)
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 7f)
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error1])
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error2])
 #endif
-		RSEQ_ASM_LONG_S " %[src], %[rseq_scratch0]\n\t"
-		RSEQ_ASM_LONG_S "  %[dst], %[rseq_scratch1]\n\t"
-		RSEQ_ASM_LONG_S " %[len], %[rseq_scratch2]\n\t"
+		/*
+		 * Input operands can share registers with each other and
+		 * with the address of v, so copy through clobbered registers.
+		 */
+		"move $r5, %[src]\n\t"
+		"move $r6, %[dst]\n\t"
+		"move $r7, %[len]\n\t"
 		/* Start rseq by storing table entry pointer into rseq_cs. */
 		RSEQ_ASM_STORE_RSEQ_CS(1, 3f, rseq_cs)
 		RSEQ_ASM_CBNE_CPU_ID(cpu_id, current_cpu_id, 4f)
 		RSEQ_INJECT_ASM(3)
 		RSEQ_ASM_LONG_L " $r4, %[v]\n\t"
-		"bne $r4, %[expect], 5f\n\t"
+		"bne $r4, %[expect], %l[ne]\n\t"
 		RSEQ_INJECT_ASM(4)
 #ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_CBNE_CPU_ID(cpu_id, current_cpu_id, 6f)
+		RSEQ_ASM_CBNE_CPU_ID(cpu_id, current_cpu_id, %l[error1])
 		RSEQ_ASM_LONG_L " $r4, %[v]\n\t"
-		"bne $r4, %[expect], 7f\n\t"
+		"bne $r4, %[expect], %l[error2]\n\t"
 #endif
 		/* try memcpy */
-		"beqz %[len], 333f\n\t" \
+		"beqz $r7, 333f\n\t" \
 		"222:\n\t" \
-		"ld.b  $r4, %[src], 0\n\t" \
-		"st.b  $r4, %[dst], 0\n\t" \
-		RSEQ_ASM_LONG_ADDI " %[src], %[src], 1\n\t" \
-		RSEQ_ASM_LONG_ADDI " %[dst], %[dst], 1\n\t" \
-		RSEQ_ASM_LONG_ADDI " %[len], %[len], -1\n\t" \
-		"bnez %[len], 222b\n\t" \
+		"ld.b  $r4, $r5, 0\n\t" \
+		"st.b  $r4, $r6, 0\n\t" \
+		RSEQ_ASM_LONG_ADDI " $r5, $r5, 1\n\t" \
+		RSEQ_ASM_LONG_ADDI " $r6, $r6, 1\n\t" \
+		RSEQ_ASM_LONG_ADDI " $r7, $r7, -1\n\t" \
+		"bnez $r7, 222b\n\t" \
 		"333:\n\t" \
 		RSEQ_INJECT_ASM(5)
 #ifdef RSEQ_TEMPLATE_MO_RELEASE
@@ -422,38 +424,9 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		RSEQ_ASM_LONG_S " %[newv], %[v]\n\t"
 		"2:\n\t"
 		RSEQ_INJECT_ASM(6)
-		/* teardown */
-		RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-		RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-		RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t"
-		"b 8f\n\t"
-		RSEQ_ASM_DEFINE_ABORT(4,
-				      /* teardown */
-				      RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-				      RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-				      RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t",
-				      abort, 3, 1b, 2b, 4f)
-		RSEQ_ASM_DEFINE_TEARDOWN(5,
-					/* teardown */
-					RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-					RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-					RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t",
-					ne)
-#ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_DEFINE_TEARDOWN(6,
-					/* teardown */
-					RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-					RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-					RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t",
-					error1)
-		RSEQ_ASM_DEFINE_TEARDOWN(7,
-					/* teardown */
-					RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-					RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-					RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t",
-					error2)
-#endif
-		"8:\n\t"
+		"b 5f\n\t"
+		RSEQ_ASM_DEFINE_ABORT(4, "", abort, 3, 1b, 2b, 4f)
+		"5:\n\t"
 		: /* gcc asm goto does not allow outputs */
 		: [cpu_id]		"r" ((long) cpu),
 		  [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
@@ -465,12 +438,9 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		  /* try memcpy input */
 		  [dst]			"r" (dst),
 		  [src]			"r" (src),
-		  [len]			"r" (len),
-		  [rseq_scratch0]	"m" (rseq_scratch[0]),
-		  [rseq_scratch1]	"m" (rseq_scratch[1]),
-		  [rseq_scratch2]	"m" (rseq_scratch[2])
+		  [len]			"r" (len)
 		  RSEQ_INJECT_INPUT
-		: "$r4", "memory"
+		: "$r4", "$r5", "$r6", "$r7", "memory"
 		  RSEQ_INJECT_CLOBBER
 		: abort, ne
 #ifdef RSEQ_COMPARE_TWICE
diff --git a/include/rseq/arch/mips/bits.h b/include/rseq/arch/mips/bits.h
index ef05921..58e7264 100644
--- a/include/rseq/arch/mips/bits.h
+++ b/include/rseq/arch/mips/bits.h
@@ -350,41 +350,43 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 				 void *dst, void *src, size_t len,
 				 intptr_t newv, int cpu)
 {
-	uintptr_t rseq_scratch[3];
-
 	RSEQ_INJECT_C(9)
 
 	__asm__ __volatile__ goto (
 		RSEQ_ASM_DEFINE_TABLE(9, 1f, 2f, 4f) /* start, commit, abort */
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 5f)
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[ne])
 #ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 6f)
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 7f)
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error1])
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error2])
 #endif
-		RSEQ_ASM_LONG_S " %[src], %[rseq_scratch0]\n\t"
-		RSEQ_ASM_LONG_S "  %[dst], %[rseq_scratch1]\n\t"
-		RSEQ_ASM_LONG_S " %[len], %[rseq_scratch2]\n\t"
+		/*
+		 * Input operands can share registers with each other and
+		 * with the address of v, so copy through clobbered registers.
+		 */
+		"move $5, %[src]\n\t"
+		"move $6, %[dst]\n\t"
+		"move $7, %[len]\n\t"
 		/* Start rseq by storing table entry pointer into rseq_cs. */
 		RSEQ_ASM_STORE_RSEQ_CS(1, 3f, rseq_cs)
 		RSEQ_ASM_CBNE_CPU_ID(cpu_id, current_cpu_id, 4f)
 		RSEQ_INJECT_ASM(3)
 		RSEQ_ASM_LONG_L " $4, %[v]\n\t"
-		"bne $4, %[expect], 5f\n\t"
+		"bne $4, %[expect], %l[ne]\n\t"
 		RSEQ_INJECT_ASM(4)
 #ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_CBNE_CPU_ID(cpu_id, current_cpu_id, 6f)
+		RSEQ_ASM_CBNE_CPU_ID(cpu_id, current_cpu_id, %l[error1])
 		RSEQ_ASM_LONG_L " $4, %[v]\n\t"
-		"bne $4, %[expect], 7f\n\t"
+		"bne $4, %[expect], %l[error2]\n\t"
 #endif
 		/* try memcpy */
-		"beqz %[len], 333f\n\t" \
+		"beqz $7, 333f\n\t" \
 		"222:\n\t" \
-		"lb   $4, 0(%[src])\n\t" \
-		"sb   $4, 0(%[dst])\n\t" \
-		RSEQ_ASM_LONG_ADDI " %[src], 1\n\t" \
-		RSEQ_ASM_LONG_ADDI " %[dst], 1\n\t" \
-		RSEQ_ASM_LONG_ADDI " %[len], -1\n\t" \
-		"bnez %[len], 222b\n\t" \
+		"lb   $4, 0($5)\n\t" \
+		"sb   $4, 0($6)\n\t" \
+		RSEQ_ASM_LONG_ADDI " $5, 1\n\t" \
+		RSEQ_ASM_LONG_ADDI " $6, 1\n\t" \
+		RSEQ_ASM_LONG_ADDI " $7, -1\n\t" \
+		"bnez $7, 222b\n\t" \
 		"333:\n\t" \
 		RSEQ_INJECT_ASM(5)
 #ifdef RSEQ_TEMPLATE_MO_RELEASE
@@ -394,38 +396,9 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		RSEQ_ASM_LONG_S " %[newv], %[v]\n\t"
 		"2:\n\t"
 		RSEQ_INJECT_ASM(6)
-		/* teardown */
-		RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-		RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-		RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t"
-		"b 8f\n\t"
-		RSEQ_ASM_DEFINE_ABORT(4,
-				      /* teardown */
-				      RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-				      RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-				      RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t",
-				      abort, 3, 1b, 2b, 4f)
-		RSEQ_ASM_DEFINE_TEARDOWN(5,
-					/* teardown */
-					RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-					RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-					RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t",
-					ne)
-#ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_DEFINE_TEARDOWN(6,
-					/* teardown */
-					RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-					RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-					RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t",
-					error1)
-		RSEQ_ASM_DEFINE_TEARDOWN(7,
-					/* teardown */
-					RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-					RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-					RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t",
-					error2)
-#endif
-		"8:\n\t"
+		"b 5f\n\t"
+		RSEQ_ASM_DEFINE_ABORT(4, "", abort, 3, 1b, 2b, 4f)
+		"5:\n\t"
 		: /* gcc asm goto does not allow outputs */
 		: [cpu_id]		"r" (cpu),
 		  [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
@@ -437,12 +410,9 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		  /* try memcpy input */
 		  [dst]			"r" (dst),
 		  [src]			"r" (src),
-		  [len]			"r" (len),
-		  [rseq_scratch0]	"m" (rseq_scratch[0]),
-		  [rseq_scratch1]	"m" (rseq_scratch[1]),
-		  [rseq_scratch2]	"m" (rseq_scratch[2])
+		  [len]			"r" (len)
 		  RSEQ_INJECT_INPUT
-		: "$4", "memory"
+		: "$4", "$5", "$6", "$7", "memory"
 		  RSEQ_INJECT_CLOBBER
 		: abort, ne
 #ifdef RSEQ_COMPARE_TWICE
diff --git a/include/rseq/arch/s390/bits.h b/include/rseq/arch/s390/bits.h
index d517f46..71b9aec 100644
--- a/include/rseq/arch/s390/bits.h
+++ b/include/rseq/arch/s390/bits.h
@@ -361,41 +361,43 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 				 void *dst, void *src, size_t len,
 				 intptr_t newv, int cpu)
 {
-	uint64_t rseq_scratch[3];
-
 	RSEQ_INJECT_C(9)
 
 	__asm__ __volatile__ goto (
 		RSEQ_ASM_DEFINE_TABLE(3, 1f, 2f, 4f) /* start, commit, abort */
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 5f)
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[ne])
 #ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 6f)
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 7f)
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error1])
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error2])
 #endif
-		RSEQ_ASM_LONG_S " %[src], %[rseq_scratch0]\n\t"
-		RSEQ_ASM_LONG_S " %[dst], %[rseq_scratch1]\n\t"
-		RSEQ_ASM_LONG_S " %[len], %[rseq_scratch2]\n\t"
+		/*
+		 * Input operands can share registers with each other and
+		 * with the address of v, so copy through clobbered registers.
+		 */
+		RSEQ_ASM_LONG_LT_R " %%r3, %[src]\n\t"
+		RSEQ_ASM_LONG_LT_R " %%r4, %[dst]\n\t"
+		RSEQ_ASM_LONG_LT_R " %%r5, %[len]\n\t"
 		/* Start rseq by storing table entry pointer into rseq_cs. */
 		RSEQ_ASM_STORE_RSEQ_CS(1, 3b, rseq_cs)
 		RSEQ_ASM_CBNE_CPU_ID(cpu_id, current_cpu_id, 4f)
 		RSEQ_INJECT_ASM(3)
 		RSEQ_ASM_LONG_CMP " %[expect], %[v]\n\t"
-		"jnz 5f\n\t"
+		"jnz %l[ne]\n\t"
 		RSEQ_INJECT_ASM(4)
 #ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_CBNE_CPU_ID(cpu_id, current_cpu_id, 6f)
+		RSEQ_ASM_CBNE_CPU_ID(cpu_id, current_cpu_id, %l[error1])
 		RSEQ_ASM_LONG_CMP " %[expect], %[v]\n\t"
-		"jnz 7f\n\t"
+		"jnz %l[error2]\n\t"
 #endif
 		/* try memcpy */
-		RSEQ_ASM_LONG_LT_R " %[len], %[len]\n\t"
+		RSEQ_ASM_LONG_LT_R " %%r5, %%r5\n\t"
 		"jz 333f\n\t"
 		"222:\n\t"
-		"ic %%r0,0(%[src])\n\t"
-		"stc %%r0,0(%[dst])\n\t"
-		RSEQ_ASM_LONG_ADDI " %[src], 1\n\t"
-		RSEQ_ASM_LONG_ADDI " %[dst], 1\n\t"
-		RSEQ_ASM_LONG_ADDI " %[len], -1\n\t"
+		"ic %%r0,0(%%r3)\n\t"
+		"stc %%r0,0(%%r4)\n\t"
+		RSEQ_ASM_LONG_ADDI " %%r3, 1\n\t"
+		RSEQ_ASM_LONG_ADDI " %%r4, 1\n\t"
+		RSEQ_ASM_LONG_ADDI " %%r5, -1\n\t"
 		"jnz 222b\n\t"
 		"333:\n\t"
 		RSEQ_INJECT_ASM(5)
@@ -403,32 +405,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		RSEQ_ASM_LONG_S " %[newv], %[v]\n\t"
 		"2:\n\t"
 		RSEQ_INJECT_ASM(6)
-		/* teardown */
-		RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-		RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-		RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t"
-		RSEQ_ASM_DEFINE_ABORT(4,
-			RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-			RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-			RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t",
-			abort)
-		RSEQ_ASM_DEFINE_TEARDOWN(5,
-			RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-			RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-			RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t",
-			ne)
-#ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_DEFINE_TEARDOWN(6,
-			RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-			RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-			RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t",
-			error1)
-		RSEQ_ASM_DEFINE_TEARDOWN(7,
-			RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-			RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-			RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t",
-			error2)
-#endif
+		RSEQ_ASM_DEFINE_ABORT(4, "", abort)
 		: /* gcc asm goto does not allow outputs */
 		: [cpu_id]		"r" (cpu),
 		  [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
@@ -440,12 +417,9 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		  /* try memcpy input */
 		  [dst]			"r" (dst),
 		  [src]			"r" (src),
-		  [len]			"r" (len),
-		  [rseq_scratch0]	"m" (rseq_scratch[0]),
-		  [rseq_scratch1]	"m" (rseq_scratch[1]),
-		  [rseq_scratch2]	"m" (rseq_scratch[2])
+		  [len]			"r" (len)
 		  RSEQ_INJECT_INPUT
-		: "memory", "cc", "r0"
+		: "memory", "cc", "r0", "r3", "r4", "r5"
 		  RSEQ_INJECT_CLOBBER
 		: abort, ne
 #ifdef RSEQ_COMPARE_TWICE
-- 
2.43.0


From b1af7e7586a61a616b9d473bda14e39b6be8f3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:35 +0000
Subject: [PATCH 14/15] fix: parenthesise the stride argument of
 rseq_percpu_ptr()

With a stride given as an expression such as a sum or a quotient, the
multiplication by the CPU number bound to its first operand only, and
the resulting address was wrong.
---
 include/rseq/mempool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rseq/mempool.h b/include/rseq/mempool.h
index b28d18f..b6e7049 100644
--- a/include/rseq/mempool.h
+++ b/include/rseq/mempool.h
@@ -285,7 +285,7 @@ void librseq_mempool_percpu_free(void __rseq_percpu *ptr, size_t stride);
 #define rseq_percpu_ptr(_ptr, _cpu, _stride...)		\
 	((__typeof__(*(_ptr)) *) ((uintptr_t) (_ptr) +	\
 		((unsigned int) (_cpu) *		\
-			(uintptr_t) RSEQ_PARAM_SELECT_ARG1(_, ##_stride, RSEQ_MEMPOOL_STRIDE))))
+			(uintptr_t) (RSEQ_PARAM_SELECT_ARG1(_, ##_stride, RSEQ_MEMPOOL_STRIDE)))))
 
 /*
  * rseq_mempool_set_create: Create a pool set.
-- 
2.43.0


From 724661909fbaecc9492d13025e941c9dc32269eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:23 +0000
Subject: [PATCH 15/15] fix: reserve the whole thread area for the kernel's
 rseq fields

The alignment attribute does not make the variable larger: __rseq_abi was
32 bytes long, and other thread-local variables could directly follow it.
With a kernel whose feature size exceeds 32 bytes, librseq registered (and
the kernel wrote) memory belonging to those variables. Use a union to
reserve RSEQ_THREAD_AREA_ALLOC_SIZE bytes.
---
 src/rseq.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/rseq.c b/src/rseq.c
index 9172a5a..bb00d9c 100644
--- a/src/rseq.c
+++ b/src/rseq.c
@@ -65,14 +65,19 @@ static int rseq_ownership;
 #define ORIG_RSEQ_ALLOC_SIZE		32
 
 /*
- * The alignment on RSEQ_THREAD_AREA_ALLOC_SIZE guarantees that the
- * rseq_abi structure allocated size is at least
- * RSEQ_THREAD_AREA_ALLOC_SIZE bytes to hold extra space for yet unknown
- * kernel rseq extensions.
+ * Use a union to ensure that RSEQ_THREAD_AREA_ALLOC_SIZE bytes are
+ * reserved for the rseq area, to hold extra space for yet unknown kernel
+ * rseq extensions. The alignment of the variable does not affect its size:
+ * other thread-local variables can directly follow it.
  */
 static
-__thread struct rseq_abi __rseq_abi __attribute__((tls_model("initial-exec"), aligned(RSEQ_THREAD_AREA_ALLOC_SIZE))) = {
-	.cpu_id = RSEQ_ABI_CPU_ID_UNINITIALIZED,
+__thread union {
+	struct rseq_abi abi;
+	char reserved[RSEQ_THREAD_AREA_ALLOC_SIZE];
+} __rseq __attribute__((tls_model("initial-exec"), aligned(RSEQ_THREAD_AREA_ALLOC_SIZE))) = {
+	.abi = {
+		.cpu_id = RSEQ_ABI_CPU_ID_UNINITIALIZED,
+	},
 };
 
 static int sys_rseq(struct rseq_abi *rseq_abi, uint32_t rseq_len,
@@ -165,7 +170,7 @@ int rseq_register_current_thread(void)
 		/* Treat libc's ownership as a successful registration. */
 		return 0;
 	}
-	rc = sys_rseq(&__rseq_abi, get_rseq_min_alloc_size(), 0, RSEQ_SIG);
+	rc = sys_rseq(&__rseq.abi, get_rseq_min_alloc_size(), 0, RSEQ_SIG);
 	if (rc) {
 		/*
 		 * After at least one thread has registered successfully
@@ -199,7 +204,7 @@ int rseq_unregister_current_thread(void)
 		/* Treat libc's ownership as a successful unregistration. */
 		return 0;
 	}
-	rc = sys_rseq(&__rseq_abi, get_rseq_min_alloc_size(), RSEQ_ABI_FLAG_UNREGISTER, RSEQ_SIG);
+	rc = sys_rseq(&__rseq.abi, get_rseq_min_alloc_size(), RSEQ_ABI_FLAG_UNREGISTER, RSEQ_SIG);
 	if (rc)
 		return -1;
 	return 0;
@@ -283,7 +288,7 @@ void rseq_init(void)
 	rseq_ownership = 1;
 
 	/* Calculate the offset of the rseq area from the thread pointer. */
-	rseq_offset = (uintptr_t)&__rseq_abi - (uintptr_t)rseq_thread_pointer();
+	rseq_offset = (uintptr_t)&__rseq.abi - (uintptr_t)rseq_thread_pointer();
 
 	/* rseq flags are deprecated, always set to 0. */
 	rseq_flags = 0;
-- 
2.43.0

