From 191123284e063d0227b84382b3ee71cf2844cb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:06 +0000
Subject: [PATCH 01/26] fix: quota_use lets the usage wrap around 32 bits

A request close to QUOTA_MAX made used + size overflow uint32_t, so that
it was granted past the limit and the recorded usage dropped. Also allow
releasing exactly QUOTA_MAX bytes, which quota_use accepts.
---
 include/small/quota.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/small/quota.h b/include/small/quota.h
index 238d15e..d427a90 100644
--- a/include/small/quota.h
+++ b/include/small/quota.h
@@ -140,7 +140,9 @@ quota_use(struct quota *quota, size_t size)
 		uint32_t total_in_units = value >> 32;
 		uint32_t used_in_units = value & UINT32_MAX;
 
-		uint32_t new_used_in_units = used_in_units + size_in_units;
+		/* The sum may not fit 32 bits. */
+		uint64_t new_used_in_units =
+			(uint64_t) used_in_units + size_in_units;
 		assert(new_used_in_units > used_in_units);
 
 		if (new_used_in_units > total_in_units)
@@ -159,7 +161,7 @@ quota_use(struct quota *quota, size_t size)
 static inline ssize_t
 quota_release(struct quota *quota, size_t size)
 {
-	assert(size < QUOTA_MAX);
+	assert(size <= QUOTA_MAX);
 	uint32_t size_in_units = (size + (QUOTA_UNIT_SIZE - 1))
 				  / QUOTA_UNIT_SIZE;
 	assert(size_in_units);
-- 
2.43.0


From 641944df1660cecd4fc172df3425a3d686ab2a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:58 +0000
Subject: [PATCH 02/26] fix: static_reserve returns memory for sizes that
 overflow

pos + size and size + alignment - 1 could wrap, in which case an oversized
request got a pointer into the buffer instead of NULL.
---
 include/small/static.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/small/static.h b/include/small/static.h
index ab28cb4..c248157 100644
--- a/include/small/static.h
+++ b/include/small/static.h
@@ -73,7 +73,7 @@ static_reset(void)
 static inline void *
 static_reserve(size_t size)
 {
-	if (static_storage_pos + size > SMALL_STATIC_SIZE) {
+	if (size > SMALL_STATIC_SIZE - static_storage_pos) {
 		if (size > SMALL_STATIC_SIZE)
 			return NULL;
 		static_storage_pos = 0;
@@ -105,7 +105,10 @@ static_alloc(size_t size)
 static inline void *
 static_aligned_reserve(size_t size, size_t alignment)
 {
-	void *unaligned = static_reserve(size + alignment - 1);
+	size_t total = size + alignment - 1;
+	if (total < size)
+		return NULL;
+	void *unaligned = static_reserve(total);
 	if (unaligned == NULL)
 		return NULL;
 	return (void *) small_align((size_t) unaligned, alignment);
-- 
2.43.0


From c1e0778d1743b80f4ea4113749d6ed3f9a02d7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:44 +0000
Subject: [PATCH 03/26] fix: lf_lifo_is_empty reports an emptied stack as
 non-empty

The ABA counter stays in the lower bits of the head when the last element
is popped.
---
 include/small/lf_lifo.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/small/lf_lifo.h b/include/small/lf_lifo.h
index 8181fef..2aca428 100644
--- a/include/small/lf_lifo.h
+++ b/include/small/lf_lifo.h
@@ -114,7 +114,8 @@ lf_lifo_pop(struct lf_lifo *head)
 static inline bool
 lf_lifo_is_empty(struct lf_lifo *head)
 {
-	return head->next == NULL;
+	/* The lower bits hold the ABA counter. */
+	return lf_lifo(head->next) == NULL;
 }
 
 #if defined(__cplusplus)
-- 
2.43.0


From cd6bb0f4ffee902454396c1ba0a49c5469abcdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:15 +0000
Subject: [PATCH 04/26] fix: slab_get and slab_get_large wrap around for huge
 sizes

---
 small/slab_cache.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/small/slab_cache.c b/small/slab_cache.c
index 5ac33ad..5d8aa07 100644
--- a/small/slab_cache.c
+++ b/small/slab_cache.c
@@ -270,6 +270,8 @@ slab_get_with_order(struct slab_cache *cache, uint8_t order)
 struct slab *
 slab_get_large(struct slab_cache *cache, size_t size)
 {
+	if (size > SIZE_MAX - slab_sizeof())
+		return NULL;
 	size += slab_sizeof();
 	if (quota_use(cache->arena->quota, size) < 0)
 		return NULL;
@@ -316,6 +318,8 @@ slab_put_large(struct slab_cache *cache, struct slab *slab)
 struct slab *
 slab_get(struct slab_cache *cache, size_t size)
 {
+	if (size > SIZE_MAX - slab_sizeof())
+		return NULL;
 	struct slab *slab;
 	uint8_t order = slab_order(cache, size + slab_sizeof());
 	if (order == cache->order_max + 1)
-- 
2.43.0


From 20cd7935388bd65426851f33be4cbd46bd393702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:50 +0000
Subject: [PATCH 05/26] fix: smalloc allocates from a stale pool after sweeping
 sparse pools

---
 small/small.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/small/small.c b/small/small.c
index 666cb58..93c50b5 100644
--- a/small/small.c
+++ b/small/small.c
@@ -346,6 +346,8 @@ smalloc(struct small_alloc *alloc, size_t size)
 		 * pools and release their sparse slabs. It might not help tho.
 		 */
 		small_mempool_group_sweep_sparse(alloc);
+		/* The sweep might have changed the pool to allocate from. */
+		pool = &small_mempool->used_pool->pool;
 		ptr = mempool_alloc(pool);
 	}
 
-- 
2.43.0


From 0d68d5b7957308c8fb02f4adc43b0660593973cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:18 +0000
Subject: [PATCH 06/26] fix: region loses track of allocations of 4 GB and more

---
 include/small/region.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/small/region.h b/include/small/region.h
index 27d142f..4b24003 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -180,7 +180,7 @@ struct rslab
 	 * extra members.
 	 */
 	struct slab slab;
-	uint32_t used;
+	size_t used;
 };
 
 static inline uint32_t
@@ -202,7 +202,7 @@ rslab_data_end(struct rslab *slab)
 }
 
 /** How much memory is available in a given block? */
-static inline uint32_t
+static inline size_t
 rslab_unused(struct rslab *slab)
 {
 	return slab->slab.size - rslab_sizeof() - slab->used;
@@ -284,8 +284,8 @@ region_aligned_alloc(struct region *region, size_t size, size_t alignment)
 		 * account for optional padding before the allocated
 		 * block (alignment)
 		 */
-		uint32_t effective_size = (uint32_t)(
-			(char *)ptr - (char *)rslab_data_end(slab) + size);
+		size_t effective_size =
+			(char *)ptr - (char *)rslab_data_end(slab) + size;
 
 		assert(effective_size <= rslab_unused(slab));
 
-- 
2.43.0


From b62cbbf2f18d991ef9bba2451188748f38fe3a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:25 +0000
Subject: [PATCH 07/26] fix: region_reset leaves all blocks but the last one
 used

---
 include/small/region.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/small/region.h b/include/small/region.h
index 4b24003..1d07b83 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -307,13 +307,10 @@ region_aligned_alloc(struct region *region, size_t size, size_t alignment)
 static inline void
 region_reset(struct region *region)
 {
-	if (! rlist_empty(&region->slabs.slabs)) {
-		struct rslab *slab = rlist_first_entry(&region->slabs.slabs,
-						       struct rslab,
-						       slab.next_in_list);
-		region->slabs.stats.used -= slab->used;
+	struct rslab *slab;
+	rlist_foreach_entry(slab, &region->slabs.slabs, slab.next_in_list)
 		slab->used = 0;
-	}
+	region->slabs.stats.used = 0;
 #ifndef NDEBUG
 	region->reserved = false;
 #endif
-- 
2.43.0


From a65f2a36b662b18265385e9eafb79bcca898af2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:33 +0000
Subject: [PATCH 08/26] fix: region_reserve_cb reads a missing block when out
 of memory

---
 include/small/region.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/small/region.h b/include/small/region.h
index 1d07b83..3f79845 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -356,6 +356,8 @@ region_reserve_cb(void *ctx, size_t *size)
 {
 	struct region *region = (struct region *) ctx;
 	void *ptr = region_reserve(region, *size);
+	if (ptr == NULL)
+		return NULL;
 	struct rslab *slab = rlist_first_entry(&region->slabs.slabs,
 					       struct rslab,
 					       slab.next_in_list);
-- 
2.43.0


From e52c6eaa15c4243b90e40947ef05700bf032a770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:40 +0000
Subject: [PATCH 09/26] fix: region reservations wrap around for huge sizes

---
 include/small/region.h | 2 ++
 small/region.c         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/small/region.h b/include/small/region.h
index 3f79845..42cfefa 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -261,6 +261,8 @@ region_alloc(struct region *region, size_t size)
 static inline void *
 region_aligned_reserve(struct region *region, size_t size, size_t alignment)
 {
+	if (size > SIZE_MAX - (alignment - 1))
+		return NULL;
 	/* reserve extra to allow for alignment */
 	void *ptr = region_reserve(region, size + alignment - 1);
 	/* assuming NULL==0, aligned NULL still a NULL */
diff --git a/small/region.c b/small/region.c
index 32ab981..c3b0af5 100644
--- a/small/region.c
+++ b/small/region.c
@@ -36,6 +36,8 @@
 void *
 region_reserve_slow(struct region *region, size_t size)
 {
+	if (size > SIZE_MAX - rslab_sizeof())
+		return NULL;
 	/* The new slab must have at least this many bytes available. */
 	size_t slab_min_size = size + rslab_sizeof() - slab_sizeof();
 
-- 
2.43.0


From a35aec0fdaeb35a14fad87e78c5c32f7682fdec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:15 +0000
Subject: [PATCH 10/26] fix: lsregion_to_iovec skips data in a recycled slab

---
 small/lsregion.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/small/lsregion.c b/small/lsregion.c
index 4b3446c..69e138e 100644
--- a/small/lsregion.c
+++ b/small/lsregion.c
@@ -75,6 +75,8 @@ lsregion_aligned_reserve_slow(struct lsregion *lsregion, size_t size,
 		/* If there is the cached slab then use it. */
 		slab = lsregion->cached;
 		lsregion->cached = NULL;
+		/* Slab ids grow along the list. */
+		slab->slab_id = ++lsregion->slab_id;
 		rlist_add_tail_entry(&lsregion->slabs.slabs, slab,
 				     next_in_list);
 	} else {
-- 
2.43.0


From 2893a1352bec0881c2f0b04e059cb327a23a4821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:15 +0000
Subject: [PATCH 11/26] fix: lsregion_to_iovec stops at a reserved but unused
 slab

---
 small/lsregion.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/small/lsregion.c b/small/lsregion.c
index 69e138e..f7b2490 100644
--- a/small/lsregion.c
+++ b/small/lsregion.c
@@ -105,9 +105,9 @@ lsregion_to_iovec(const struct lsregion *lsregion, struct iovec *iov,
 	int max_iovcnt = *iovcnt;
 	int cnt = 0;
 	rlist_foreach_entry(lslab, &lsregion->slabs.slabs, next_in_list) {
-		/* There might be an unused slab at the end of the list. */
+		/* There might be slabs which were only reserved from. */
 		if (lslab->max_id == LSLAB_NOT_USED_ID)
-			break;
+			continue;
 		/* An already seen slab with no new allocations. */
 		if (lslab->slab_id < prev_id ||
 		    (lslab->slab_id == prev_id &&
-- 
2.43.0


From 377012619f17aeaf3e7ec3e431966f63bee5c58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:15 +0000
Subject: [PATCH 12/26] fix: lsregion reservations wrap around for huge sizes

---
 include/small/lsregion.h | 3 ++-
 small/lsregion.c         | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/small/lsregion.h b/include/small/lsregion.h
index bec534e..7133d52 100644
--- a/include/small/lsregion.h
+++ b/include/small/lsregion.h
@@ -247,7 +247,8 @@ lsregion_aligned_reserve(struct lsregion *lsregion, size_t size,
 		assert(slab != NULL);
 		*unaligned = lslab_pos(slab);
 		void *pos = (void *)small_align((size_t)*unaligned, alignment);
-		if ((char *)pos + size <= (char *)lslab_end(slab))
+		if ((char *)pos <= (char *)lslab_end(slab) &&
+		    size <= (size_t)((char *)lslab_end(slab) - (char *)pos))
 			return pos;
 	}
 	return lsregion_aligned_reserve_slow(lsregion, size, alignment,
diff --git a/small/lsregion.c b/small/lsregion.c
index f7b2490..0b5225d 100644
--- a/small/lsregion.c
+++ b/small/lsregion.c
@@ -47,7 +47,8 @@ lsregion_aligned_reserve_slow(struct lsregion *lsregion, size_t size,
 		assert(slab != NULL);
 		*unaligned = lslab_pos(slab);
 		pos = (void *)small_align((size_t)*unaligned, alignment);
-		if ((char *)pos + size <= (char *)lslab_end(slab))
+		if ((char *)pos <= (char *)lslab_end(slab) &&
+		    size <= (size_t)((char *)lslab_end(slab) - (char *)pos))
 			return pos;
 	}
 	/*
@@ -56,6 +57,8 @@ lsregion_aligned_reserve_slow(struct lsregion *lsregion, size_t size,
 	 * after alignment its size won't be enough.
 	 */
 	size_t aligned_size = size + alignment - 1;
+	if (aligned_size < size || aligned_size > SIZE_MAX - lslab_sizeof())
+		return NULL;
 	if (aligned_size + lslab_sizeof() > slab_size) {
 		/* Large allocation, use malloc() */
 		slab_size = aligned_size + lslab_sizeof();
-- 
2.43.0


From 8008dafc628c6e3f1cbac7a5759f932161f0195f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:10 +0000
Subject: [PATCH 13/26] fix: ibuf reservations wrap around for huge sizes

ibuf_reserve() and ibuf_alloc() added the size to the write position, so a
size near SIZE_MAX seemed to fit, and ibuf_reserve_slow() doubled the
capacity until it overflowed to zero and then looped forever.
---
 include/small/ibuf.h | 4 ++--
 small/ibuf.c         | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/small/ibuf.h b/include/small/ibuf.h
index b67dc9a..aff8016 100644
--- a/include/small/ibuf.h
+++ b/include/small/ibuf.h
@@ -151,7 +151,7 @@ ibuf_reserve_slow(struct ibuf *ibuf, size_t size);
 static inline void *
 ibuf_reserve(struct ibuf *ibuf, size_t size)
 {
-	if (ibuf->wpos + size <= ibuf->end) {
+	if (size <= ibuf_unused(ibuf)) {
 		ibuf_unpoison_unallocated(ibuf);
 		return ibuf->wpos;
 	}
@@ -162,7 +162,7 @@ static inline void *
 ibuf_alloc(struct ibuf *ibuf, size_t size)
 {
 	void *ptr;
-	if (ibuf->wpos + size <= ibuf->end) {
+	if (size <= ibuf_unused(ibuf)) {
 		/*
 		 * In case of using same buffer we need to unpoison newly
 		 * allocated memory after previous ibuf_alloc or poison after
diff --git a/small/ibuf.c b/small/ibuf.c
index 03370da..c3db5c3 100644
--- a/small/ibuf.c
+++ b/small/ibuf.c
@@ -29,6 +29,7 @@
  * SUCH DAMAGE.
  */
 #include "ibuf.h"
+#include <stdint.h>
 #include <string.h>
 #include "slab_cache.h"
 
@@ -69,9 +70,12 @@ ibuf_reinit(struct ibuf *ibuf)
 void *
 ibuf_reserve_slow(struct ibuf *ibuf, size_t size)
 {
-	assert(ibuf->wpos + size > ibuf->end);
+	assert(size > ibuf_unused(ibuf));
 	size_t used = ibuf_used(ibuf);
 	size_t capacity = ibuf_capacity(ibuf);
+	/* No buffer is that big, and the sums below must not overflow. */
+	if (size > SIZE_MAX / 2 - used)
+		return NULL;
 	/*
 	 * Check if we have enough space in the
 	 * current buffer. In this case de-fragment it
-- 
2.43.0


From 6a131ab55e1e71e4431067bdbcb0592054f7967f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:37 +0000
Subject: [PATCH 14/26] fix: obuf reservations wrap around for huge sizes

obuf_reserve() and obuf_alloc() added the size to the length of the current
vector, so a size near SIZE_MAX seemed to fit, and the slow path doubled the
capacity until it overflowed and then looped forever.
---
 include/small/obuf.h | 4 ++--
 small/obuf.c         | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/small/obuf.h b/include/small/obuf.h
index 898bc27..192fe76 100644
--- a/include/small/obuf.h
+++ b/include/small/obuf.h
@@ -175,7 +175,7 @@ obuf_reserve(struct obuf *buf, size_t size)
 {
 	void *ptr = NULL;
 	assert(!buf->reserved);
-	if (buf->iov[buf->pos].iov_len + size > buf->capacity[buf->pos]) {
+	if (size > buf->capacity[buf->pos] - buf->iov[buf->pos].iov_len) {
 		ptr = obuf_reserve_slow(buf, size);
 	} else {
 		struct iovec *iov = &buf->iov[buf->pos];
@@ -199,7 +199,7 @@ obuf_alloc(struct obuf *buf, size_t size)
 {
 	struct iovec *iov = &buf->iov[buf->pos];
 	void *ptr;
-	if (iov->iov_len + size <= buf->capacity[buf->pos]) {
+	if (size <= buf->capacity[buf->pos] - iov->iov_len) {
 		ptr = (char *) iov->iov_base + iov->iov_len;
 	} else {
 		ptr = obuf_reserve_slow(buf, size);
diff --git a/small/obuf.c b/small/obuf.c
index dd0b030..a9ef7b9 100644
--- a/small/obuf.c
+++ b/small/obuf.c
@@ -29,6 +29,7 @@
  * SUCH DAMAGE.
  */
 #include "obuf.h"
+#include <stdint.h>
 #include <string.h>
 
 #include "slab_cache.h"
@@ -173,6 +174,9 @@ obuf_dup(struct obuf *buf, const void *data, size_t size)
 void *
 obuf_reserve_slow(struct obuf *buf, size_t size)
 {
+	/* No buffer is that big, and doubling the capacity must not overflow. */
+	if (size > SIZE_MAX / 2)
+		return NULL;
 	struct iovec *iov = &buf->iov[buf->pos];
 	size_t capacity = buf->capacity[buf->pos];
 	if (iov->iov_len > 0) {
-- 
2.43.0


From 76ee4b0639f09000c1870b4921a60c4a72b7e81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:11 +0000
Subject: [PATCH 15/26] fix: matras shifts by 32 and more bits with large
 extents

With extents of 512 KB and more and small blocks all 32 bits of a block
identifier may be below the first level, and shifting by that many bits is
undefined: identifiers were translated to wrong addresses.
---
 small/matras.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/small/matras.c b/small/matras.c
index 991eeac..ce9546c 100644
--- a/small/matras.c
+++ b/small/matras.c
@@ -78,6 +78,9 @@ matras_create(struct matras *m, matras_id_t block_size,
 		log2_capacity = 32;
 	m->capacity = (size_t)1 << log2_capacity;
 	m->shift1 = log1 * 2 - log2 - log3;
+	/* All bits of an identifier may be below the first level. */
+	if (m->shift1 > 31)
+		m->shift1 = 31;
 	m->shift2 = log1 - log2;
 	m->mask1 = (((matras_id_t)1) << m->shift1) - ((matras_id_t)1);
 	m->mask2 = (((matras_id_t)1) << m->shift2) - ((matras_id_t)1);
-- 
2.43.0


From ac74599aea8d70e956040d14685a2a5a461a586c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:16 +0000
Subject: [PATCH 16/26] fix: matras is freed forever when nearly all
 identifiers are used

The counters of the loops which free the extents are as wide as a block
identifier and wrapped around to zero before reaching the block count, so
extents were freed again and again.
---
 small/matras.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/small/matras.c b/small/matras.c
index ce9546c..4fe7b46 100644
--- a/small/matras.c
+++ b/small/matras.c
@@ -151,7 +151,7 @@ matras_destroy(struct matras *m)
 
 	matras_id_t step1 = m->mask1 + 1;
 	matras_id_t step2 = m->mask2 + 1;
-	matras_id_t i1 = 0, j1 = 0, i2, j2;
+	size_t i1 = 0, j1 = 0, i2, j2;
 	matras_id_t ptrs_in_ext = m->extent_size / (matras_id_t)sizeof(void *);
 	struct matras_view *v = &m->head;
 	void **extent1 = (void **)v->root;
@@ -418,7 +418,7 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 		extent1p = (void **) prev_view->root;
 	matras_id_t step1 = m->mask1 + 1;
 	matras_id_t step2 = m->mask2 + 1;
-	matras_id_t i1 = 0, j1 = 0, i2, j2;
+	size_t i1 = 0, j1 = 0, i2, j2;
 	matras_id_t ptrs_in_ext = m->extent_size / (matras_id_t)sizeof(void *);
 	for (; j1 < v->block_count; i1++, j1 += step1) {
 		void **extent2 = (void **)extent1[i1];
-- 
2.43.0


From 376c0f58120f51607f7ba4309903c1eb84d87fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:24 +0000
Subject: [PATCH 17/26] fix: matras leaks blocks added between two read views

A read view being destroyed may share an extent with the previous view
while having more blocks in it. The previous view is too short to own
those blocks, so they must be freed with the later view. They were
skipped and leaked.
---
 small/matras.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/small/matras.c b/small/matras.c
index 4fe7b46..8adc6df 100644
--- a/small/matras.c
+++ b/small/matras.c
@@ -409,8 +409,13 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 		return;
 	if (v->root == next_view->root && next_view->block_count)
 		return;
-	if (prev_view && v->root == prev_view->root && prev_view->block_count)
-		return;
+	/*
+	 * The previous view may share an extent and still be too short to own
+	 * everything below it: blocks allocated after it was created are freed
+	 * here.
+	 */
+	bool extent1_is_shared = prev_view && v->root == prev_view->root &&
+				 prev_view->block_count;
 	void **extent1 = (void **)v->root;
 	void **extent1n = (void **) next_view->root;
 	void **extent1p = 0;
@@ -424,14 +429,14 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 		void **extent2 = (void **)extent1[i1];
 		void **extent2n = 0;
 		void **extent2p = 0;
+		bool extent2_is_shared = false;
 		if (next_view->block_count > j1) {
 			if (extent1[i1] == extent1n[i1])
 				continue;
 			extent2n = (void **) extent1n[i1];
 		}
 		if (prev_view && prev_view->block_count > j1) {
-			if (extent1[i1] == extent1p[i1])
-				continue;
+			extent2_is_shared = extent1[i1] == extent1p[i1];
 			extent2p = (void **) extent1p[i1];
 		}
 		for (i2 = j2 = 0;
@@ -448,9 +453,11 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 			}
 			matras_free_read_view_extent(m, extent3);
 		}
-		matras_free_read_view_extent(m, extent2);
+		if (!extent2_is_shared)
+			matras_free_read_view_extent(m, extent2);
 	}
-	matras_free_read_view_extent(m, extent1);
+	if (!extent1_is_shared)
+		matras_free_read_view_extent(m, extent1);
 }
 
 /*
-- 
2.43.0


From 3c3fb05558bc1f779ebca7d67ecb782b03f4fc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:58 +0000
Subject: [PATCH 18/26] fix: check the feature number before shifting by it

small_test_feature() shifted 1 by the number given before comparing it
with FEATURE_MAX; for 64 and more the shift is undefined.
---
 small/small_features.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/small/small_features.c b/small/small_features.c
index 06654eb..dee6d2b 100644
--- a/small/small_features.c
+++ b/small/small_features.c
@@ -113,11 +113,11 @@ static rt_helper_t rt_helpers[FEATURE_MAX] = {
 bool
 small_test_feature(unsigned int feature)
 {
-	uint64_t mask = SMALL_FEATURE_MASK(feature);
-
 	if (feature >= FEATURE_MAX)
 		return false;
 
+	uint64_t mask = SMALL_FEATURE_MASK(feature);
+
 	/* Make sure it is compiled in. */
 	if (!(builtin_mask & mask))
 		return false;
-- 
2.43.0


From 4b935c8ad2d79535ebddb4b97be00ff778cbf4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:50 +0000
Subject: [PATCH 19/26] fix: rlist_cut_before compared the wrong list

---
 include/small/rlist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small/rlist.h b/include/small/rlist.h
index ae27127..5cd1400 100644
--- a/include/small/rlist.h
+++ b/include/small/rlist.h
@@ -244,7 +244,7 @@ rlist_splice_tail(struct rlist *head1, struct rlist *head2)
 static SMALL_ALWAYS_INLINE void
 rlist_cut_before(struct rlist *head1, struct rlist *head2, struct rlist *item)
 {
-	if (head1->next == item) {
+	if (head2->next == item) {
 		rlist_create(head1);
 		return;
 	}
-- 
2.43.0


From ad2374f54e5a96d62da2e3b0a970ef7f104a2d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:19 +0000
Subject: [PATCH 20/26] fix: region_alloc_array truncated the size of the array
 to int

---
 include/small/region.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/small/region.h b/include/small/region.h
index 42cfefa..62a2f15 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -399,7 +399,10 @@ struct RegionGuard {
 })
 
 #define region_alloc_array(region, T, count, size) ({				\
-	int _tmp_ = sizeof(T) * (count);					\
+	size_t _count_ = (count);						\
+	/* A size which can't be represented can't be allocated. */		\
+	size_t _tmp_ = _count_ <= SIZE_MAX / sizeof(T) ?			\
+		       sizeof(T) * _count_ : SIZE_MAX;				\
 	*(size) = _tmp_;							\
 	(T *)region_aligned_alloc((region), _tmp_, alignof(T));			\
 })
-- 
2.43.0


From b298cb3daf3acc94477eebb5b8e6a562c7a52e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:55 +0000
Subject: [PATCH 21/26] fix: small_asan_alloc wrapped around for sizes near
 SIZE_MAX

---
 small/util.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/small/util.c b/small/util.c
index a1abf0c..cd87df3 100644
--- a/small/util.c
+++ b/small/util.c
@@ -85,12 +85,14 @@ small_asan_alloc(size_t payload_size, size_t alignment, size_t header_size)
 	 * has SMALL_ASAN_HEADER_ALIGNMENT size so that header is aligned
 	 * to this value.
 	 */
-	size_t alloc_size = SMALL_ASAN_HEADER_ALIGNMENT +
-			    header_size +
-			    SMALL_POISON_ALIGNMENT - 1 +
-			    sizeof(uint16_t) +
-			    2 * alignment - 1 +
-			    payload_size;
+	size_t meta_size = SMALL_ASAN_HEADER_ALIGNMENT +
+			   header_size +
+			   SMALL_POISON_ALIGNMENT - 1 +
+			   sizeof(uint16_t) +
+			   2 * alignment - 1;
+	if (small_unlikely(payload_size > SIZE_MAX - meta_size))
+		small_xmalloc_fail(payload_size, __FILE__, __LINE__);
+	size_t alloc_size = meta_size + payload_size;
 	char *alloc = (char *)small_xmalloc(alloc_size);
 
 	char *payload = alloc + alloc_size - payload_size;
-- 
2.43.0


From 9aeb821b125f4c2d6ff75fe5c0d2982527796c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:56 +0000
Subject: [PATCH 22/26] fix: slab_cache_create of the ASAN build left
 cache->used uninitialized

---
 small/slab_cache_asan.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/small/slab_cache_asan.c b/small/slab_cache_asan.c
index af89995..72ea5f6 100644
--- a/small/slab_cache_asan.c
+++ b/small/slab_cache_asan.c
@@ -35,6 +35,7 @@ void
 slab_cache_create(struct slab_cache *cache, struct slab_arena *arena)
 {
 	quota_lessor_create(&cache->quota, arena->quota);
+	cache->used = 0;
 	cache->id = small_asan_reserve_id();
 	slab_cache_set_thread(cache);
 }
-- 
2.43.0


From 2e550320a9426ab505afdd824296085f4169eb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:56 +0000
Subject: [PATCH 23/26] fix: slab_get of the ASAN build wrapped around for
 sizes near SIZE_MAX

---
 small/slab_cache_asan.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/small/slab_cache_asan.c b/small/slab_cache_asan.c
index 72ea5f6..0ad4969 100644
--- a/small/slab_cache_asan.c
+++ b/small/slab_cache_asan.c
@@ -44,6 +44,9 @@ SMALL_NO_SANITIZE_ADDRESS struct slab *
 slab_get(struct slab_cache *cache, size_t size)
 {
 	small_asan_assert(pthread_equal(cache->thread_id, pthread_self()));
+	/* The size of the slab with its header must be representable. */
+	if (small_unlikely(size > SIZE_MAX / 2))
+		return NULL;
 	size = slab_real_size(cache, size);
 	struct slab_cache_object *obj =
 			small_asan_alloc(size,
-- 
2.43.0


From 96ff98e08431429514e32ccdb8a47334f76749a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:48 +0000
Subject: [PATCH 24/26] fix: lsregion_to_iovec of the ASAN build lost
 allocations sharing an id

An export was continued by comparing the ids given by the user, so an
allocation with the same id as the last one exported was skipped, both
when the export stopped for lack of iovecs and when the allocation was
made afterwards. Continue by a sequence number of allocations instead.
---
 include/small/lsregion_asan.h |  8 ++++++++
 small/lsregion_asan.c         | 10 +++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/small/lsregion_asan.h b/include/small/lsregion_asan.h
index 5876dca..daefe0a 100644
--- a/include/small/lsregion_asan.h
+++ b/include/small/lsregion_asan.h
@@ -55,6 +55,8 @@ struct lsregion {
 	struct rlist allocations;
 	/** Total size of allocated memory. */
 	size_t used;
+	/** Sequence number of the next allocation. */
+	int64_t slab_id;
 };
 
 /** Extra data associated with each lsregion allocation. */
@@ -70,6 +72,11 @@ struct lsregion_allocation {
 	size_t used;
 	/** Allocation id. */
 	int64_t id;
+	/**
+	 * Allocation sequence number. As opposed to id it is unique so an
+	 * export can be continued right after the allocation it stopped at.
+	 */
+	int64_t slab_id;
 	/** Allocation alignment. */
 	size_t alignment;
 };
@@ -79,6 +86,7 @@ lsregion_create(struct lsregion *lsregion, struct slab_arena *arena)
 {
 	(void)arena;
 	lsregion->used = 0;
+	lsregion->slab_id = 0;
 	rlist_create(&lsregion->allocations);
 }
 
diff --git a/small/lsregion_asan.c b/small/lsregion_asan.c
index c153407..7b8bb18 100644
--- a/small/lsregion_asan.c
+++ b/small/lsregion_asan.c
@@ -51,6 +51,7 @@ lsregion_prepare_buf(struct lsregion *lsregion, size_t size, size_t alignment)
 	alloc->size = size;
 	alloc->used = 0;
 	alloc->id = LSLAB_NOT_USED_ID;
+	alloc->slab_id = lsregion->slab_id++;
 	alloc->alignment = alignment;
 	rlist_add_tail_entry(&lsregion->allocations, alloc, link);
 	return alloc;
@@ -104,19 +105,22 @@ lsregion_to_iovec(const struct lsregion *lsregion, struct iovec *iov,
 		  int *iovcnt, struct lsregion_svp *svp)
 {
 	struct lsregion_allocation *alloc;
-	int64_t prev_id = svp->slab_id;
+	int64_t prev_slab_id = svp->slab_id;
 	int max_iovcnt = *iovcnt;
 	int64_t max_alloc_id = LSLAB_NOT_USED_ID;
 	int cnt = 0;
 	rlist_foreach_entry(alloc, &lsregion->allocations, link) {
+		/* A reservation without data yet. */
+		if (alloc->id == LSLAB_NOT_USED_ID)
+			continue;
 		/* An already seen allocation. */
-		if (alloc->id <= prev_id)
+		if (alloc->slab_id <= prev_slab_id)
 			continue;
 		if (cnt >= max_iovcnt)
 			break;
 		iov->iov_base = small_asan_payload_from_header(alloc);
 		iov->iov_len = alloc->used;
-		svp->slab_id = alloc->id;
+		svp->slab_id = alloc->slab_id;
 		/*
 		 * This isn't correct but will do for tests which span one slab
 		 * in a normal lsregion implementation. pos isn't used to
-- 
2.43.0


From 75e4ef73df0345d7a4d4dfb81a55344b385faa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:48 +0000
Subject: [PATCH 25/26] fix: obuf of the ASAN build mishandled requests near
 SIZE_MAX

The check for free space wrapped around so a huge request was granted
from the current vector, and the search for a capacity never ended for
requests above SIZE_MAX / 2.
---
 small/obuf_asan.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/small/obuf_asan.c b/small/obuf_asan.c
index f885a35..a809e5f 100644
--- a/small/obuf_asan.c
+++ b/small/obuf_asan.c
@@ -67,9 +67,8 @@ obuf_unallocated_size(const struct obuf *buf)
 static void
 obuf_prepare_buf(struct obuf *buf, size_t size)
 {
-	size_t used = buf->iov[buf->pos].iov_len + size;
 	if (buf->pos < SMALL_OBUF_IOV_CHECKED_MAX ||
-	    used > buf->capacity[buf->pos]) {
+	    size > obuf_unallocated_size(buf)) {
 		size_t capacity;
 		if (buf->pos < SMALL_OBUF_IOV_CHECKED_MAX) {
 			/* See limit explanation in the header. */
@@ -80,8 +79,10 @@ obuf_prepare_buf(struct obuf *buf, size_t size)
 		} else {
 			capacity = buf->start_capacity;
 			capacity <<= buf->pos - SMALL_OBUF_IOV_CHECKED_MAX;
-			while (capacity < size)
+			while (capacity < size && capacity <= SIZE_MAX / 2)
 				capacity <<= 1;
+			if (capacity < size)
+				capacity = size;
 		}
 
 		/* See obuf.pos semantics in struct definition. */
-- 
2.43.0


From 8b5ac8f06d3dd5aa4e9d2eaf7b95286031a3282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:39 +0000
Subject: [PATCH 26/26] fix: iterators of high red-black trees overflowed their
 path

---
 include/small/rb.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/small/rb.h b/include/small/rb.h
index 12dc6bd..4351fe8 100644
--- a/include/small/rb.h
+++ b/include/small/rb.h
@@ -64,9 +64,11 @@ enum {
 /*
  * Max height of the tree which can be iterated over.
  * The tree can have no more nodes than x86_64 has distinct
- * addresses.
+ * addresses, and since red and black nodes may alternate on
+ * a path from the root to a leaf, its height is limited by
+ * two binary logarithms of the number of nodes.
  */
-#define RB_MAX_TREE_HEIGHT 48
+#define RB_MAX_TREE_HEIGHT 96
 
 /* Left accessors. */
 #define	rbtn_left_get(a_type, a_field, a_node)				\
-- 
2.43.0

