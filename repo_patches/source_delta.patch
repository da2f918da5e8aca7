From 6d3e3cf2d3db9a7d51558e89b4835ae90419cdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:07 +0000
Subject: [PATCH 01/84] fix: recalloc leaked the old block when nothing was in
 use and freed it when shrinking to 0

harbol_recalloc ignored an existing block when old_size was 0 (leak) and
passed a size of 0 to realloc, which frees the block and makes callers keep
a dangling pointer after the reported failure.
---
 harbol_common_includes.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index ca3199c..1f8ee04 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -174,13 +174,18 @@
 
 
 static inline void *harbol_recalloc(void *const arr, size_t const new_size, size_t const element_size, size_t const old_size) {
-	if( arr==NULL || old_size==0 ) {
+	if( arr==NULL ) {
 		return calloc(new_size, element_size);
+	} else if( element_size != 0 && new_size > SIZE_MAX / element_size ) {
+		return NULL;
 	}
+	
+	/// `realloc`ing to 0 bytes would free the block and return NULL.
+	size_t const bytes = ( new_size * element_size==0 )? 1 : new_size * element_size;
 #ifdef __cplusplus
-	uint8_t *const restrict new_block = reinterpret_cast< decltype(new_block) >(realloc(arr, new_size * element_size));
+	uint8_t *const restrict new_block = reinterpret_cast< decltype(new_block) >(realloc(arr, bytes));
 #else
-	uint8_t *const restrict new_block = realloc(arr, new_size * element_size);
+	uint8_t *const restrict new_block = realloc(arr, bytes);
 #endif
 	if( new_block==NULL ) {
 		return NULL;
@@ -193,11 +198,13 @@ static inline void *harbol_recalloc(void *const arr, size_t const new_size, size
 #ifdef __cplusplus
 template< typename T >
 static inline T *harbol_tg_recalloc(T *const arr, size_t const new_size, size_t const old_size) {
-	if( arr==nullptr || old_size==0 ) {
+	if( arr==nullptr ) {
 		return ( T* )(calloc(new_size, sizeof *arr));
+	} else if( new_size > SIZE_MAX / sizeof *arr ) {
+		return nullptr;
 	}
 	
-	T *const restrict new_block = reinterpret_cast< T* >(realloc(arr, new_size * sizeof *arr));
+	T *const restrict new_block = reinterpret_cast< T* >(realloc(arr, (new_size==0)? 1 : new_size * sizeof *arr));
 	if( new_block==nullptr ) {
 		return nullptr;
 	} else if( old_size < new_size ) {
-- 
2.43.0


From 05e1f787e18c10cf92ce6054b4713538873fd3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 02/84] fix: multi_recalloc left dangling buffers when one of
 the allocations failed

The first buffers had already been reallocated (and were then freed) when a
later one failed, although the function promises that all given buffers are
unchanged on failure. Its own bookkeeping allocation was not checked either.
---
 harbol_common_includes.h | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 1f8ee04..de06b75 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -246,27 +246,36 @@ static inline bool harbol_multi_calloc(size_t const size, size_t const n_buffers
 /// use like: 'harbol_multi_calloc(newsize, oldsize, num_bufs, &buf1, sizeof *buf1, ...);'
 /// If allocation fails, all given buffers are unchanged.
 static inline bool harbol_multi_recalloc(size_t const new_size, size_t const old_size, size_t const n_buffers, ...) {
+	void **bufs = calloc(n_buffers, sizeof *bufs);
+	if( bufs==NULL ) {
+		return false;
+	}
+	
 	va_list ap; va_start(ap, n_buffers);
 	va_list cp; va_copy(cp, ap);
+	size_t const kept = old_size < new_size? old_size : new_size;
 	bool res = true;
-	void **bufs = calloc(n_buffers, sizeof *bufs);
 	for( size_t i=0; i < n_buffers; i++ ) {
 		void **buf = va_arg(ap, void**);
 		size_t const elem_size = va_arg(ap, size_t);
-		bufs[i] = harbol_recalloc(*buf, new_size, elem_size, old_size);
-		res &= bufs[i] != NULL;
+		bufs[i] = calloc(new_size, elem_size);
+		if( bufs[i]==NULL ) {
+			res = false;
+		} else if( *buf != NULL ) {
+			memcpy(bufs[i], *buf, kept * elem_size);
+		}
 	}
 	va_end(ap);
 	
-	if( !res ) {
-		for( size_t i=0; i < n_buffers; i++ ) {
-			free(bufs[i]); bufs[i] = NULL;
-		}
-	} else {
-		for( size_t i=0; i < n_buffers; i++ ) {
-			void **buf = va_arg(cp, void**);
-			va_arg(cp, size_t);
+	/// the old buffers are only released once every new buffer exists.
+	for( size_t i=0; i < n_buffers; i++ ) {
+		void **buf = va_arg(cp, void**);
+		va_arg(cp, size_t);
+		if( res ) {
+			free(*buf);
 			*buf = bufs[i];
+		} else {
+			free(bufs[i]);
 		}
 	}
 	free(bufs); bufs = NULL;
-- 
2.43.0


From ad8a8c22600141969e1bf2c60528a0ec1bace25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 03/84] fix: map value update kept the length of the old value

Updating an existing entry with a value of another size left the recorded
size unchanged, so later value searches compared (and read) the wrong size.
---
 map/map.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/map/map.c b/map/map.c
index 905fcad..73b4e4e 100644
--- a/map/map.c
+++ b/map/map.c
@@ -218,7 +218,8 @@ HARBOL_EXPORT bool harbol_map_idx_set(struct HarbolMap *const restrict map, size
 		return false;
 	}
 	free(map->datum[index]);
-	map->datum[index] = data;
+	map->datum[index]    = data;
+	map->datalens[index] = datasize;
 	return true;
 }
 
-- 
2.43.0


From 6567371507a9ed589f9b46c175f041a0c04eafb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 04/84] fix: map lookup skipped the first bucket when probing
 from the last one

An entry whose home bucket is the last one and that had been stored in the
wrapped-around first bucket was not found.
---
 map/map.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/map/map.c b/map/map.c
index 73b4e4e..7555806 100644
--- a/map/map.c
+++ b/map/map.c
@@ -74,12 +74,7 @@ HARBOL_EXPORT size_t harbol_map_get_entry_index(struct HarbolMap const *const ma
 		return val_idx;
 	}
 	
-	for( size_t i = bkt_idx+1; i != bkt_idx; (i = (i+1 >= mask)? ((i+1) & mask) : i+1) ) {
-		/// sometimes the `bkt_idx` is at the mask index. Account for that.
-		if( i > mask ) {
-			continue;
-		}
-		
+	for( size_t i = (bkt_idx+1) & mask; i != bkt_idx; i = (i+1) & mask ) {
 		size_t const idx = map->buckets[i];
 		if( idx==SIZE_MAX ) {
 			continue;
-- 
2.43.0


From 5c92bf98c166f7d5d4468d87d26ec0ee206c8fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 05/84] fix: map rehash lost entries when shrinking or fitting
 exactly

Rehashing to fewer slots than there are entries overran the new buffers,
rehashing to exactly the number of entries left every entry unindexed, and
rehashing an empty map reported failure.
---
 map/map.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/map/map.c b/map/map.c
index 7555806..da45437 100644
--- a/map/map.c
+++ b/map/map.c
@@ -90,7 +90,7 @@ HARBOL_EXPORT bool harbol_map_has_key(struct HarbolMap const *const map, void co
 }
 
 static bool _harbol_map_insert_entry(struct HarbolMap *const map, size_t const n) {
-	if( map->len >= map->cap ) {
+	if( n >= map->cap ) {
 		return false;
 	}
 	
@@ -107,7 +107,7 @@ static bool _harbol_map_insert_entry(struct HarbolMap *const map, size_t const n
 }
 
 HARBOL_EXPORT bool harbol_map_rehash(struct HarbolMap *const map, size_t const new_size) {
-	if( !harbol_multi_recalloc(new_size, map->cap, 6,
+	if( new_size < map->len || !harbol_multi_recalloc(new_size, map->cap, 6,
 						&map->keys,     sizeof *map->keys,
 						&map->keylens,  sizeof *map->keylens,
 						&map->datum,    sizeof *map->datum,
@@ -122,11 +122,10 @@ HARBOL_EXPORT bool harbol_map_rehash(struct HarbolMap *const map, size_t const n
 		map->buckets[i] = SIZE_MAX;
 	}
 	
-	bool res = false;
 	for( size_t i=0; i < map->len; i++ ) {
-		res |= _harbol_map_insert_entry(map, i);
+		_harbol_map_insert_entry(map, i);
 	}
-	return res;
+	return true;
 }
 
 HARBOL_EXPORT bool harbol_map_insert(struct HarbolMap *const restrict map, void const *const key, size_t const keylen, void const *const val, size_t const datasize) {
-- 
2.43.0


From 474e2d4053174fe3e97362a51f86a45c96bfc91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 06/84] fix: map removal corrupted the bucket index

Removing an entry cleared its home bucket, which may hold another entry, and
left the buckets of every later entry pointing one position too far, so
lookups failed or returned other keys' values.
---
 map/map.c | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/map/map.c b/map/map.c
index da45437..9a4ce91 100644
--- a/map/map.c
+++ b/map/map.c
@@ -106,6 +106,15 @@ static bool _harbol_map_insert_entry(struct HarbolMap *const map, size_t const n
 	return true;
 }
 
+static void _harbol_map_reindex(struct HarbolMap *const map) {
+	for( size_t i=0; i < map->cap; i++ ) {
+		map->buckets[i] = SIZE_MAX;
+	}
+	for( size_t i=0; i < map->len; i++ ) {
+		_harbol_map_insert_entry(map, i);
+	}
+}
+
 HARBOL_EXPORT bool harbol_map_rehash(struct HarbolMap *const map, size_t const new_size) {
 	if( new_size < map->len || !harbol_multi_recalloc(new_size, map->cap, 6,
 						&map->keys,     sizeof *map->keys,
@@ -118,13 +127,7 @@ HARBOL_EXPORT bool harbol_map_rehash(struct HarbolMap *const map, size_t const n
 	}
 	
 	map->cap = new_size;
-	for( size_t i=0; i < map->cap; i++ ) {
-		map->buckets[i] = SIZE_MAX;
-	}
-	
-	for( size_t i=0; i < map->len; i++ ) {
-		_harbol_map_insert_entry(map, i);
-	}
+	_harbol_map_reindex(map);
 	return true;
 }
 
@@ -227,23 +230,19 @@ HARBOL_EXPORT bool harbol_map_idx_rm(struct HarbolMap *const map, size_t const n
 		return false;
 	}
 	
-	size_t const mask    = map->cap - 1;
-	size_t const bkt_idx = map->hashes[n] & mask;
-	size_t const val_idx = map->buckets[bkt_idx];
-	if( val_idx==SIZE_MAX ) {
-		return false;
-	}
-	
 	free(map->keys[n]);  map->keys[n]  = NULL;
 	free(map->datum[n]); map->datum[n] = NULL;
 	map->hashes[n] = map->keylens[n] = map->datalens[n] = 0;
-	map->buckets[bkt_idx] = SIZE_MAX;
 	
-	return multi_array_shift_up(&map->len, n, 1, 5,
+	bool const res = multi_array_shift_up(&map->len, n, ( size_t )(1), ( size_t )(5),
 			map->keys,     sizeof *map->keys,
 			map->datum,    sizeof *map->datum,
 			map->hashes,   sizeof *map->hashes,
 			map->keylens,  sizeof *map->keylens,
 			map->datalens, sizeof *map->datalens
 	);
+	
+	/// every later entry moved down by one so the buckets have to be rebuilt.
+	_harbol_map_reindex(map);
+	return res;
 }
\ No newline at end of file
-- 
2.43.0


From 7d9aabeaed5a4fd0380f0fc7be6135af14964c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 07/84] fix: map hung or overran its buffers with a capacity
 that is not a power of 2

Buckets are selected by masking with cap-1, which never reaches some buckets
(endless probing once the reachable ones are full) unless the capacity is a
power of 2, and a capacity of 0 wrote out of bounds. Round it up.
---
 map/map.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/map/map.c b/map/map.c
index 9a4ce91..cb58009 100644
--- a/map/map.c
+++ b/map/map.c
@@ -20,8 +20,14 @@ HARBOL_EXPORT struct HarbolMap harbol_map_make(size_t const init_size, bool *con
 	return map;
 }
 
+/// buckets are indexed by masking so the capacity must be a power of 2.
+static size_t _harbol_map_capacity(size_t const size) {
+	return( size <= 1 )? 1 : next_pow_of_2(size - 1);
+}
+
 HARBOL_EXPORT bool harbol_map_init(struct HarbolMap *const map, size_t const init_size) {
-	if( !harbol_multi_calloc(init_size, 6,
+	size_t const cap = _harbol_map_capacity(init_size);
+	if( cap==0 || !harbol_multi_calloc(cap, 6,
 						&map->keys,     sizeof *map->keys,
 						&map->keylens,  sizeof *map->keylens,
 						&map->datum,    sizeof *map->datum,
@@ -32,7 +38,7 @@ HARBOL_EXPORT bool harbol_map_init(struct HarbolMap *const map, size_t const ini
 		return false;
 	}
 	
-	map->cap = init_size;
+	map->cap = cap;
 	map->len = 0;
 	
 	for( size_t i=0; i < map->cap; i++ ) {
@@ -115,7 +121,8 @@ static void _harbol_map_reindex(struct HarbolMap *const map) {
 	}
 }
 
-HARBOL_EXPORT bool harbol_map_rehash(struct HarbolMap *const map, size_t const new_size) {
+HARBOL_EXPORT bool harbol_map_rehash(struct HarbolMap *const map, size_t const size) {
+	size_t const new_size = _harbol_map_capacity(size);
 	if( new_size < map->len || !harbol_multi_recalloc(new_size, map->cap, 6,
 						&map->keys,     sizeof *map->keys,
 						&map->keylens,  sizeof *map->keylens,
-- 
2.43.0


From dcf357b4f2e1a0283faa8576f21b25e69653031d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 08/84] fix: removing a huge range of array elements wrapped
 around

---
 harbol_common_includes.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index de06b75..8d52a15 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -610,6 +610,9 @@ static inline bool array_shift_up(void *const restrict buf, size_t *const restri
 	}
 	
 	amount += amount==0;
+	if( amount > *len - index ) {
+		amount = *len - index;
+	}
 	size_t const
 		i = index + amount,
 		j = index
@@ -638,6 +641,9 @@ static inline bool multi_array_shift_up(size_t *const restrict len, size_t const
 	
 	va_list ap; va_start(ap, n_buffers);
 	amount += amount==0;
+	if( amount > *len - index ) {
+		amount = *len - index;
+	}
 	size_t const
 		i = index + amount,
 		j = index
-- 
2.43.0


From cc503e4e6f3ecbac67f8691e064d599ef038ad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 09/84] fix: deleting the largest index from an empty array
 wrote before its buffer

---
 array/array.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/array/array.c b/array/array.c
index e36bf8e..6b30f2e 100644
--- a/array/array.c
+++ b/array/array.c
@@ -268,7 +268,7 @@ HARBOL_EXPORT size_t harbol_array_index_of(struct HarbolArray const *const vec,
 
 /// deletion funcs.
 HARBOL_EXPORT bool harbol_array_del_by_index(struct HarbolArray *const vec, size_t const index, size_t const datasize) {
-	if( vec->table==NULL ) {
+	if( vec->table==NULL || index >= vec->len ) {
 		return false;
 	} else if( index==vec->len-1 ) {
 		memset(&vec->table[--vec->len * datasize], 0, datasize);
@@ -282,7 +282,7 @@ HARBOL_EXPORT bool harbol_array_del_by_range(struct HarbolArray *const vec, size
 	} else if( index==0 && (index + range >= vec->len) ) {
 		harbol_array_wipe(vec, datasize);
 		return true;
-	} else if( index==vec->len-1 ) {
+	} else if( vec->len != 0 && index==vec->len-1 ) {
 		memset(&vec->table[--vec->len * datasize], 0, datasize);
 		return true;
 	}
-- 
2.43.0


From 2abf814f8553eaf1fa9fddd02db0c81f17820b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:37 +0000
Subject: [PATCH 10/84] fix: resizing an array below its length or to a huge
 size left it inconsistent

---
 array/array.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/array/array.c b/array/array.c
index 6b30f2e..4172284 100644
--- a/array/array.c
+++ b/array/array.c
@@ -9,6 +9,9 @@
 static NO_NULL bool harbol_array_resizer(struct HarbolArray *const restrict vec, size_t const new_size, size_t const element_size) {
 	if( vec->cap==new_size ) {
 		return true;
+	} else if( new_size==0 ) {
+		/// the requested size overflowed.
+		return false;
 	}
 	
 	uint8_t *const new_table = harbol_recalloc(vec->table, new_size, element_size, vec->cap);
@@ -17,6 +20,9 @@ static NO_NULL bool harbol_array_resizer(struct HarbolArray *const restrict vec,
 	}
 	vec->table = new_table;
 	vec->cap   = new_size;
+	if( vec->len > vec->cap ) {
+		vec->len = vec->cap;
+	}
 	return true;
 }
 
-- 
2.43.0


From 9ef355f9643f07fb754d36e4dc5522efd72b47fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:46 +0000
Subject: [PATCH 11/84] fix: shrinking an array could enlarge it

---
 array/array.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/array/array.c b/array/array.c
index 4172284..4e57ebe 100644
--- a/array/array.c
+++ b/array/array.c
@@ -105,7 +105,11 @@ HARBOL_EXPORT bool harbol_array_shrink(struct HarbolArray *const vec, size_t con
 	}
 	
 	size_t const old_cap = vec->cap;
-	harbol_array_resizer(vec, (exact_fit? vec->len : next_pow_of_2(vec->len)), datasize);
+	size_t const new_cap = exact_fit? vec->len : next_pow_of_2(vec->len);
+	if( new_cap >= old_cap ) {
+		return false;
+	}
+	harbol_array_resizer(vec, new_cap, datasize);
 	return old_cap > vec->cap;
 }
 
-- 
2.43.0


From ad4e35ab8aaad9c75e1502f4a6a41dd5e54f71df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:15 +0000
Subject: [PATCH 12/84] fix: first deque element kept stale links of the free
 list

---
 deque/deque.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deque/deque.c b/deque/deque.c
index 05177dc..3d6e4a2 100644
--- a/deque/deque.c
+++ b/deque/deque.c
@@ -144,6 +144,7 @@ HARBOL_EXPORT size_t harbol_deque_prepend(struct HarbolDeque *const restrict deq
 	
 	deque->datum[i] = dup_data(val, datasize);
 	if( deque->head==SIZE_MAX ) {
+		deque->nexts[i] = deque->prevs[i] = SIZE_MAX;
 		deque->head = deque->tail = i;
 	} else {
 		deque->nexts[i] = deque->head;
@@ -167,6 +168,7 @@ HARBOL_EXPORT size_t harbol_deque_append(struct HarbolDeque *const restrict dequ
 	
 	deque->datum[i] = dup_data(val, datasize);
 	if( deque->tail==SIZE_MAX ) {
+		deque->nexts[i] = deque->prevs[i] = SIZE_MAX;
 		deque->head = deque->tail = i;
 	} else {
 		deque->prevs[i] = deque->tail;
-- 
2.43.0


From f5ce8115c3c9fc51861dc3dae1a7905d4b892ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:26 +0000
Subject: [PATCH 13/84] fix: deque kept an element without data when its copy
 could not be allocated

---
 deque/deque.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/deque/deque.c b/deque/deque.c
index 3d6e4a2..8f3bffc 100644
--- a/deque/deque.c
+++ b/deque/deque.c
@@ -137,12 +137,18 @@ HARBOL_EXPORT size_t harbol_deque_prepend(struct HarbolDeque *const restrict deq
 		return SIZE_MAX;
 	}
 	
+	void *const data = dup_data(val, datasize);
+	if( data==NULL ) {
+		return SIZE_MAX;
+	}
+	
 	size_t const i = _harbol_deque_alloc_node(deque);
 	if( i==SIZE_MAX ) {
+		free(data);
 		return SIZE_MAX;
 	}
 	
-	deque->datum[i] = dup_data(val, datasize);
+	deque->datum[i] = data;
 	if( deque->head==SIZE_MAX ) {
 		deque->nexts[i] = deque->prevs[i] = SIZE_MAX;
 		deque->head = deque->tail = i;
@@ -161,12 +167,18 @@ HARBOL_EXPORT size_t harbol_deque_append(struct HarbolDeque *const restrict dequ
 		return SIZE_MAX;
 	}
 	
+	void *const data = dup_data(val, datasize);
+	if( data==NULL ) {
+		return SIZE_MAX;
+	}
+	
 	size_t const i = _harbol_deque_alloc_node(deque);
 	if( i==SIZE_MAX ) {
+		free(data);
 		return SIZE_MAX;
 	}
 	
-	deque->datum[i] = dup_data(val, datasize);
+	deque->datum[i] = data;
 	if( deque->tail==SIZE_MAX ) {
 		deque->nexts[i] = deque->prevs[i] = SIZE_MAX;
 		deque->head = deque->tail = i;
-- 
2.43.0


From f58a2cbb1b3909d13593a41ba7ba6a7c5c081236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:36 +0000
Subject: [PATCH 14/84] fix: resetting a deque kept its element count

---
 deque/deque.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/deque/deque.c b/deque/deque.c
index 8f3bffc..386d433 100644
--- a/deque/deque.c
+++ b/deque/deque.c
@@ -44,8 +44,12 @@ HARBOL_EXPORT void harbol_deque_reset(struct HarbolDeque *const deque) {
 		deque->prevs[i] = i - 1;
 		deque->nexts[i] = i + 1;
 	}
-	deque->head = deque->tail = deque->nexts[deque->cap - 1] = SIZE_MAX;
+	deque->head = deque->tail = SIZE_MAX;
 	deque->freed = deque->cap - 1;
+	deque->len = 0;
+	if( deque->cap > 0 ) {
+		deque->nexts[deque->cap - 1] = SIZE_MAX;
+	}
 }
 
 HARBOL_EXPORT void harbol_deque_clear(struct HarbolDeque *const deque) {
-- 
2.43.0


From 7164a9e7b4d4b25cb84ee2bfca38ebe4daa53e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:46 +0000
Subject: [PATCH 15/84] fix: deque of capacity 0 was indexed out of bounds

---
 deque/deque.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/deque/deque.c b/deque/deque.c
index 386d433..601873c 100644
--- a/deque/deque.c
+++ b/deque/deque.c
@@ -13,7 +13,8 @@ HARBOL_EXPORT struct HarbolDeque *harbol_deque_new(size_t const init_size) {
 	return deque;
 }
 
-HARBOL_EXPORT bool harbol_deque_init(struct HarbolDeque *const deque, size_t const init_size) {
+HARBOL_EXPORT bool harbol_deque_init(struct HarbolDeque *const deque, size_t const requested_size) {
+	size_t const init_size = ( requested_size==0 )? 1 : requested_size;
 	if( !harbol_multi_recalloc(init_size, deque->cap, 3,
 						&deque->nexts, sizeof *deque->nexts,
 						&deque->prevs, sizeof *deque->prevs,
@@ -58,6 +59,7 @@ HARBOL_EXPORT void harbol_deque_clear(struct HarbolDeque *const deque) {
 	}
 	harbol_multi_cleanup(3, &deque->nexts, &deque->prevs, &deque->datum);
 	*deque = ( struct HarbolDeque ){0};
+	deque->head = deque->tail = deque->freed = SIZE_MAX;
 }
 HARBOL_EXPORT void harbol_deque_free(struct HarbolDeque **const dequeref) {
 	if( *dequeref==NULL ) {
@@ -137,7 +139,7 @@ HARBOL_EXPORT void *harbol_deque_get_data(struct HarbolDeque const *const deque,
 }
 
 HARBOL_EXPORT size_t harbol_deque_prepend(struct HarbolDeque *const restrict deque, void const *const val, size_t const datasize) {
-	if( deque->len >= deque->cap && !_harbol_deque_resize(deque, deque->cap << 1) ) {
+	if( deque->len >= deque->cap && !_harbol_deque_resize(deque, deque->cap==0? 1 : deque->cap << 1) ) {
 		return SIZE_MAX;
 	}
 	
@@ -167,7 +169,7 @@ HARBOL_EXPORT size_t harbol_deque_prepend(struct HarbolDeque *const restrict deq
 }
 
 HARBOL_EXPORT size_t harbol_deque_append(struct HarbolDeque *const restrict deque, void const *const val, size_t const datasize) {
-	if( deque->len >= deque->cap && !_harbol_deque_resize(deque, deque->cap << 1) ) {
+	if( deque->len >= deque->cap && !_harbol_deque_resize(deque, deque->cap==0? 1 : deque->cap << 1) ) {
 		return SIZE_MAX;
 	}
 	
-- 
2.43.0


From 058150a9f04d141fc623c680ddab1ed28d8bd59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:36 +0000
Subject: [PATCH 16/84] fix: harbol_string_new returned a string without its
 text when memory ran out

---
 str/str.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index 8953ce6..bcf02b2 100644
--- a/str/str.c
+++ b/str/str.c
@@ -19,7 +19,9 @@ HARBOL_EXPORT struct HarbolString *harbol_string_new(char const cstr[]) {
 	if( str==NULL ) {
 		return NULL;
 	}
-	harbol_string_init(str, cstr);
+	if( !harbol_string_init(str, cstr) && cstr != NULL && cstr[0] != 0 ) {
+		free(str); str = NULL;
+	}
 	return str;
 }
 
-- 
2.43.0


From 01b693caea0f0a374fa0812c1ec15b57765461c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:44 +0000
Subject: [PATCH 17/84] fix: appending a string to itself overran its buffer

---
 str/str.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/str/str.c b/str/str.c
index bcf02b2..b103276 100644
--- a/str/str.c
+++ b/str/str.c
@@ -78,10 +78,13 @@ HARBOL_EXPORT bool harbol_string_add_char_rep(struct HarbolString *const str, ch
 }
 
 HARBOL_EXPORT bool harbol_string_add_str(struct HarbolString *const strA, struct HarbolString const *const strB) {
-	if( strB->cstr==NULL || !_harbol_resize_string(strA, strA->len + strB->len) ) {
+	/// `strA` and `strB` may be the same string.
+	size_t const lenA = strA->len, lenB = strB->len;
+	if( strB->cstr==NULL || !_harbol_resize_string(strA, lenA + lenB) ) {
 		return false;
 	}
-	strncat(strA->cstr, strB->cstr, strB->len);
+	memcpy(&strA->cstr[lenA], strB->cstr, lenB);
+	strA->cstr[strA->len] = 0;
 	return true;
 }
 
-- 
2.43.0


From f2ba77d75a3cac3fbfaf6a7d9cfa13e25bdfc909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:52 +0000
Subject: [PATCH 18/84] fix: repeating a character a huge number of times
 wrapped the string length

---
 str/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index b103276..d43fd4c 100644
--- a/str/str.c
+++ b/str/str.c
@@ -68,7 +68,7 @@ HARBOL_EXPORT bool harbol_string_add_char(struct HarbolString *const str, char c
 }
 
 HARBOL_EXPORT bool harbol_string_add_char_rep(struct HarbolString *const str, char const c, size_t const amount) {
-	if( !_harbol_resize_string(str, str->len + amount) ) {
+	if( amount >= SIZE_MAX - str->len || !_harbol_resize_string(str, str->len + amount) ) {
 		return false;
 	}
 	for( size_t i=0; i < amount; i++ ) {
-- 
2.43.0


From d494a54f8c792ebf95b56d1392c72c712e2e76dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:00 +0000
Subject: [PATCH 19/84] fix: a formatting error corrupted the string length

---
 str/str.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/str/str.c b/str/str.c
index d43fd4c..e61bfe6 100644
--- a/str/str.c
+++ b/str/str.c
@@ -154,6 +154,11 @@ HARBOL_EXPORT int harbol_string_format_va(struct HarbolString *const restrict st
 	int const size = vsnprintf(&c, 1, fmt, va_l);
 	va_end(va_l);
 	
+	if( size < 0 ) {
+		va_end(st);
+		return -1;
+	}
+	
 	size_t const old_size = clear? 0 : str->len;
 	if( !_harbol_resize_string(str, size + old_size) ) {
 		va_end(st);
-- 
2.43.0


From e5aa518e1658014ed3187a26e577b2f5f1491bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:08 +0000
Subject: [PATCH 20/84] fix: replacing substrings replaced one too many and
 overran the new buffer

---
 str/str.c | 39 +++++++++++++--------------------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/str/str.c b/str/str.c
index e61bfe6..f801297 100644
--- a/str/str.c
+++ b/str/str.c
@@ -258,45 +258,32 @@ HARBOL_EXPORT bool harbol_string_replace_cstr(struct HarbolString *const restric
 	}
 	
 	size_t const counts = harbol_string_count_cstr(str, to_replace);
-	if( counts==0 ) {
-		return false;
-	} else if( amount > counts ) {
+	if( amount > counts ) {
 		amount = counts;
 	}
+	if( amount==0 ) {
+		return false;
+	}
 	
 	size_t const replace_len = strlen(to_replace);
 	size_t const with_len    = strlen(with);
 	struct HarbolString rep_str = {0};
+	if( !_harbol_resize_string(&rep_str, str->len + (amount * (with_len - replace_len))) ) {
+		return false;
+	}
 	
-	size_t offset = _subcstr_diff(&str->cstr[0], to_replace);
-	size_t const len_calc = str->len + (amount * (with_len - replace_len));
-	_harbol_resize_string(&rep_str, len_calc);
-	size_t rep_len = 0;
-	/// first copy contents up to the first offset.
-	strncpy(&rep_str.cstr[0], &str->cstr[0], offset);
-	rep_len += offset;
-	offset += replace_len;
-	
-	strcpy(&rep_str.cstr[rep_len], with);
-	rep_len += with_len;
+	size_t offset = 0, rep_len = 0;
 	for( size_t i=0; i < amount; i++ ) {
-		size_t const saved_offset = offset;
-		size_t const relative_offs = _subcstr_diff(&str->cstr[saved_offset], to_replace);
-		if( relative_offs==SIZE_MAX ) {
-			break;
-		}
-		
-		offset += relative_offs;
-		size_t const span = offset - saved_offset;
-		strncpy(&rep_str.cstr[rep_len], &str->cstr[saved_offset], span);
+		/// first copy contents up to the next occurrence.
+		size_t const span = _subcstr_diff(&str->cstr[offset], to_replace);
+		memcpy(&rep_str.cstr[rep_len], &str->cstr[offset], span);
 		rep_len += span;
 		
-		strcpy(&rep_str.cstr[rep_len], with);
+		memcpy(&rep_str.cstr[rep_len], with, with_len);
 		rep_len += with_len;
-		offset += replace_len;
+		offset += span + replace_len;
 	}
 	strcpy(&rep_str.cstr[rep_len], &str->cstr[offset]);
-	rep_len += offset;
 	
 	harbol_string_clear(str);
 	str->cstr = rep_str.cstr;
-- 
2.43.0


From a065c5384ae684bffb22091928b582611a75a274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 21/84] fix: counting an empty substring never ended

---
 str/str.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/str/str.c b/str/str.c
index f801297..843d806 100644
--- a/str/str.c
+++ b/str/str.c
@@ -312,6 +312,9 @@ HARBOL_EXPORT size_t harbol_string_count_cstr(struct HarbolString const *const r
 	
 	size_t occurrences = 0;
 	size_t const occ_len = strlen(occurrence);
+	if( occ_len==0 ) {
+		return 0;
+	}
 	char const *pos = strstr(str->cstr, occurrence);
 	while( pos != NULL ) {
 		occurrences++;
-- 
2.43.0


From e9fb4d379f2b59d0f7ed33723059f4d10f5a482d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:27 +0000
Subject: [PATCH 22/84] fix: substring offsets past the last occurrence were
 garbage

---
 str/str.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/str/str.c b/str/str.c
index 843d806..c6bbf2e 100644
--- a/str/str.c
+++ b/str/str.c
@@ -324,14 +324,19 @@ HARBOL_EXPORT size_t harbol_string_count_cstr(struct HarbolString const *const r
 }
 
 HARBOL_EXPORT NO_NULL bool harbol_string_cstr_offsets(struct HarbolString const *const restrict str, char const occurrence[const restrict static 1], size_t offsets[const restrict static 1], size_t const offsets_len) {
-	if( str->cstr==NULL ) {
+	if( str->cstr==NULL || occurrence[0]==0 ) {
 		return false;
 	}
 	
 	size_t offset = 0;
 	for( size_t i=0; i < offsets_len; i++ ) {
-		size_t const curr_offs = offset;
-		offset += _subcstr_diff(&str->cstr[curr_offs], occurrence);
+		size_t const diff = _subcstr_diff(&str->cstr[offset], occurrence);
+		if( diff==SIZE_MAX ) {
+			/// no more occurrences.
+			offsets[i] = SIZE_MAX;
+			continue;
+		}
+		offset += diff;
 		offsets[i] = offset;
 		offset++;
 	}
-- 
2.43.0


From 135970e05ffeca656e5cad3d3416f49f2c43f020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:36 +0000
Subject: [PATCH 23/84] fix: removing a character kept the old string length

---
 str/str.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/str/str.c b/str/str.c
index c6bbf2e..241ee52 100644
--- a/str/str.c
+++ b/str/str.c
@@ -397,6 +397,7 @@ HARBOL_EXPORT size_t harbol_string_rm_char(struct HarbolString *const str, char
 		}
 	}
 	str->cstr[j] = 0;
+	str->len = j;
 	return counts;
 }
 
-- 
2.43.0


From 688909e43b3e11c9416ca5752a298cdc172af315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:44 +0000
Subject: [PATCH 24/84] fix: trimming, searching and scanning an empty string
 dereferenced NULL

---
 str/str.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/str/str.c b/str/str.c
index 241ee52..09417a1 100644
--- a/str/str.c
+++ b/str/str.c
@@ -178,7 +178,7 @@ HARBOL_EXPORT int harbol_string_scan(struct HarbolString const *const restrict s
 
 
 HARBOL_EXPORT int harbol_string_scan_va(struct HarbolString const *const restrict str, char const fmt[const restrict static 1], va_list args) {
-	int const result = vsscanf(str->cstr, fmt, args);
+	int const result = ( str->cstr==NULL )? EOF : vsscanf(str->cstr, fmt, args);
 	va_end(args);
 	return result;
 }
@@ -388,6 +388,9 @@ HARBOL_EXPORT bool harbol_string_reverse(struct HarbolString *const str) {
 
 
 HARBOL_EXPORT size_t harbol_string_rm_char(struct HarbolString *const str, char const c) {
+	if( str->cstr==NULL ) {
+		return 0;
+	}
 	size_t j = 0, counts = 0;
 	for( size_t i=0; str->cstr[i] != 0; i++ ) {
 		if( str->cstr[i] != c ) {
@@ -403,6 +406,9 @@ HARBOL_EXPORT size_t harbol_string_rm_char(struct HarbolString *const str, char
 
 
 HARBOL_EXPORT size_t harbol_string_trim_spaces(struct HarbolString *const str) {
+	if( str->cstr==NULL ) {
+		return 0;
+	}
 	size_t j = 0, counts = 0;
 	for( size_t i=0; str->cstr[i] != 0; i++ ) {
 		if( !isspace(str->cstr[i]) ) {
@@ -423,7 +429,7 @@ static NO_NULL size_t _find_chr(char const src[const static 1], char const c) {
 }
 
 HARBOL_EXPORT size_t harbol_string_find_char(struct HarbolString const *const str, char const c) {
-	return _find_chr(str->cstr, c);
+	return( str->cstr==NULL )? SIZE_MAX : _find_chr(str->cstr, c);
 }
 
 
-- 
2.43.0


From cf0372a8d9fa0a1fc2f998c0e69e99453405587a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:52 +0000
Subject: [PATCH 25/84] fix: replacing a string range could read past its end
 and truncate it when memory ran out

---
 str/str.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/str/str.c b/str/str.c
index 09417a1..ae0a9da 100644
--- a/str/str.c
+++ b/str/str.c
@@ -438,7 +438,7 @@ HARBOL_EXPORT bool harbol_string_replace_range(struct HarbolString *const restri
 		return false;
 	}
 	
-	if( upper > str->len ) {
+	if( upper >= str->len ) {
 		upper = str->len - 1;
 	}
 	
@@ -447,13 +447,15 @@ HARBOL_EXPORT bool harbol_string_replace_range(struct HarbolString *const restri
 		return false;
 	}
 	
-	char *start = &str->cstr[lower];
-	start[0] = 0;
-	char const *end = &str->cstr[upper];
+	size_t const with_len = strlen(with);
+	size_t const tail_len = str->len - upper - 1;
 	struct HarbolString s = {0};
-	harbol_string_add_cstr(&s, str->cstr);
-	harbol_string_add_cstr(&s, with);
-	harbol_string_add_cstr(&s, &end[1]);
+	if( !_harbol_resize_string(&s, lower + with_len + tail_len) ) {
+		return false;
+	}
+	memcpy(&s.cstr[0], &str->cstr[0], lower);
+	memcpy(&s.cstr[lower], with, with_len);
+	memcpy(&s.cstr[lower + with_len], &str->cstr[upper + 1], tail_len);
 	harbol_string_clear(str);
 	*str = s;
 	return true;
-- 
2.43.0


From 7604505a9e5dab62a23e942ae971f9669fd8f99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 26/84] fix: byte buffer kept part of a file whose read failed

---
 bytebuffer/bytebuffer.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bytebuffer/bytebuffer.c b/bytebuffer/bytebuffer.c
index d31a1b9..c1054a1 100644
--- a/bytebuffer/bytebuffer.c
+++ b/bytebuffer/bytebuffer.c
@@ -144,7 +144,9 @@ HARBOL_EXPORT bool harbol_bytebuffer_insert_from_filename(struct HarbolByteBuf *
 }
 
 HARBOL_EXPORT bool harbol_bytebuffer_insert_from_file(struct HarbolByteBuf *const buf, FILE *const file) {
-	fseek(file, 0, SEEK_END);
+	if( fseek(file, 0, SEEK_END) != 0 ) {
+		return false;
+	}
 	long const file_size = ftell(file);
 	if( file_size <= 0 ) {
 		return false;
@@ -155,8 +157,11 @@ HARBOL_EXPORT bool harbol_bytebuffer_insert_from_file(struct HarbolByteBuf *cons
 		return false;
 	}
 	size_t const bytes_read = fread(&buf->table[buf->len], sizeof *buf->table, file_size, file);
+	if( bytes_read != ( size_t )(file_size) ) {
+		return false;
+	}
 	buf->len += bytes_read;
-	return bytes_read==( size_t )(file_size);
+	return true;
 }
 
 HARBOL_EXPORT bool harbol_bytebuffer_append(struct HarbolByteBuf *const bufA, struct HarbolByteBuf const *const bufB) {
-- 
2.43.0


From 3b2701a75af5445a2201a5667e577039b0bb162c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 27/84] fix: inserting a huge amount of zeros overran the byte
 buffer

---
 bytebuffer/bytebuffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytebuffer/bytebuffer.c b/bytebuffer/bytebuffer.c
index c1054a1..132a24d 100644
--- a/bytebuffer/bytebuffer.c
+++ b/bytebuffer/bytebuffer.c
@@ -112,7 +112,7 @@ HARBOL_EXPORT bool harbol_bytebuffer_insert_obj(struct HarbolByteBuf *const rest
 }
 
 HARBOL_EXPORT bool harbol_bytebuffer_insert_zeros(struct HarbolByteBuf *const buf, size_t const amount) {
-	if( buf->len + amount >= buf->cap && !_harbol_buffer_resize(buf, buf->len + amount) ) {
+	if( amount > SIZE_MAX - buf->len || (buf->len + amount >= buf->cap && !_harbol_buffer_resize(buf, buf->len + amount)) ) {
 		return false;
 	}
 	memset(&buf->table[buf->len], 0, amount);
-- 
2.43.0


From 8d177b845732db5b61016830eff8d3a4a8baf25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:46 +0000
Subject: [PATCH 28/84] fix: byte buffer loaded a file from the wrong position
 when it could not be rewound

---
 bytebuffer/bytebuffer.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bytebuffer/bytebuffer.c b/bytebuffer/bytebuffer.c
index 132a24d..04d0d27 100644
--- a/bytebuffer/bytebuffer.c
+++ b/bytebuffer/bytebuffer.c
@@ -148,11 +148,10 @@ HARBOL_EXPORT bool harbol_bytebuffer_insert_from_file(struct HarbolByteBuf *cons
 		return false;
 	}
 	long const file_size = ftell(file);
-	if( file_size <= 0 ) {
+	if( file_size <= 0 || fseek(file, 0, SEEK_SET) != 0 ) {
 		return false;
 	}
 	
-	rewind(file);
 	if( buf->len + file_size >= buf->cap && !_harbol_buffer_resize(buf, buf->len + file_size) ) {
 		return false;
 	}
-- 
2.43.0


From 2d40e183812f60be3993b97dd2a26ea30262b92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:54 +0000
Subject: [PATCH 29/84] fix: get_file_size ignored failures to seek

---
 harbol_common_includes.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 8d52a15..05e840e 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -429,10 +429,11 @@ static inline NO_NULL size_t ptr_hash(void const *const p, size_t const seed) {
 
 
 static inline NO_NULL ssize_t get_file_size(FILE *const file) {
-	fseek(file, 0, SEEK_END);
+	if( fseek(file, 0, SEEK_END) != 0 ) {
+		return -1;
+	}
 	ssize_t const filesize = ftell(file);
-	rewind(file);
-	return filesize;
+	return( fseek(file, 0, SEEK_SET) != 0 )? -1 : filesize;
 }
 
 /// Harbol Iterator.
-- 
2.43.0


From 6272fa8528b73f46f7d40aee973c71e6f94d807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 30/84] fix: storing larger data in a tree node overran its
 buffer

---
 tree/tree.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/tree/tree.c b/tree/tree.c
index ab3546d..aa99b5c 100644
--- a/tree/tree.c
+++ b/tree/tree.c
@@ -59,13 +59,12 @@ HARBOL_EXPORT bool harbol_tree_set(struct HarbolTree *const restrict tree, void
 		return false;
 	}
 	
-	if( tree->data==NULL ) {
-		tree->data = calloc(datasize, sizeof *tree->data);
-		if( tree->data==NULL ) {
-			return false;
-		}
+	uint8_t *const data = dup_data(val, datasize);
+	if( data==NULL ) {
+		return false;
 	}
-	memcpy(tree->data, val, datasize);
+	free(tree->data);
+	tree->data = data;
 	tree->len = datasize;
 	return true;
 }
-- 
2.43.0


From f188e96eac9bb057e674c0ac4788068a2bab1041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 31/84] fix: finding a tree child by value ignored the size of
 the value

---
 tree/tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree/tree.c b/tree/tree.c
index aa99b5c..363e52d 100644
--- a/tree/tree.c
+++ b/tree/tree.c
@@ -105,7 +105,7 @@ HARBOL_EXPORT bool harbol_tree_rm_val(struct HarbolTree *const restrict tree, vo
 	}
 	for( size_t i=0; i < tree->kids.len; i++ ) {
 		struct HarbolTree **const child_ref = harbol_array_get(&tree->kids, i, sizeof *child_ref);
-		if( !memcmp((*child_ref)->data, val, (*child_ref)->len) ) {
+		if( (*child_ref)->len==datasize && !memcmp((*child_ref)->data, val, datasize) ) {
 			harbol_tree_free(child_ref);
 			return harbol_array_del_by_index(&tree->kids, i, sizeof *child_ref);
 		}
@@ -124,7 +124,7 @@ HARBOL_EXPORT struct HarbolTree *harbol_tree_get_node_by_val(struct HarbolTree c
 	}
 	for( size_t i=0; i < tree->kids.len; i++ ) {
 		struct HarbolTree **const child_ref = harbol_array_get(&tree->kids, i, sizeof *child_ref);
-		if( !memcmp((*child_ref)->data, val, (*child_ref)->len) ) {
+		if( (*child_ref)->len==datasize && !memcmp((*child_ref)->data, val, datasize) ) {
 			return *child_ref;
 		}
 	}
-- 
2.43.0


From d08a9c3bcc913d3a083f9b3ce36e7b083a5b6385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 32/84] fix: tuple lost its fields when memory ran out and
 never recorded being packed

---
 tuple/tuple.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tuple/tuple.c b/tuple/tuple.c
index 27e8b70..c564dc1 100644
--- a/tuple/tuple.c
+++ b/tuple/tuple.c
@@ -52,7 +52,12 @@ HARBOL_EXPORT bool harbol_tuple_init(struct HarbolTuple *const tuple, size_t con
 	}
 	
 	tuple->len = packed? total_size : aligned_total;
-	tuple->fields = harbol_array_make(sizeof(uint32_t), tuple->len, &( bool ){false});
+	tuple->packed = packed;
+	if( !harbol_array_init(&tuple->fields, sizeof(uint32_t), len) ) {
+		free(tuple->datum); tuple->datum = NULL;
+		tuple->len = 0;
+		return false;
+	}
 	uint32_t offset = 0;
 	for( size_t i=0; i < len; i++ ) {
 		uint32_t const size_pack = (( uint32_t )(sizes[i]) << 16) | offset;
-- 
2.43.0


From 5016b410933940afc7ae932ef465943ae9c6f411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 33/84] fix: tuple fields after an empty field overlapped the
 first one

---
 tuple/tuple.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tuple/tuple.c b/tuple/tuple.c
index c564dc1..c9daee5 100644
--- a/tuple/tuple.c
+++ b/tuple/tuple.c
@@ -40,7 +40,7 @@ HARBOL_EXPORT bool harbol_tuple_init(struct HarbolTuple *const tuple, size_t con
 			continue;
 		}
 		size_t const offalign = (i+1 < len)? sizes[i+1] : prev_size;
-		total_size = harbol_align_size(total_size, offalign >= ptr_size? ptr_size : offalign);
+		total_size = harbol_align_size(total_size, offalign >= ptr_size? ptr_size : offalign + (offalign==0));
 		prev_size = sizes[i];
 	}
 	
@@ -67,7 +67,7 @@ HARBOL_EXPORT bool harbol_tuple_init(struct HarbolTuple *const tuple, size_t con
 			continue;
 		}
 		size_t const offalign = (i+1<len)? sizes[i+1] : prev_size;
-		offset = harbol_align_size(offset, offalign >= ptr_size? ptr_size : offalign);
+		offset = harbol_align_size(offset, offalign >= ptr_size? ptr_size : offalign + (offalign==0));
 		prev_size = sizes[i];
 	}
 	return true;
-- 
2.43.0


From 18d0ae9a1b646b2aecfb5f1f68fcfdeed71176fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:18 +0000
Subject: [PATCH 34/84] fix: tuples too large for their 16-bit field offsets
 had overlapping fields

---
 tuple/tuple.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tuple/tuple.c b/tuple/tuple.c
index c9daee5..731b5c6 100644
--- a/tuple/tuple.c
+++ b/tuple/tuple.c
@@ -35,6 +35,10 @@ HARBOL_EXPORT bool harbol_tuple_init(struct HarbolTuple *const tuple, size_t con
 		prev_size=0
 	;
 	for( size_t i=0; i < len; i++ ) {
+		/// field sizes and offsets are stored as 16-bit numbers.
+		if( sizes[i] > UINT16_MAX || total_size > UINT16_MAX ) {
+			return false;
+		}
 		total_size += sizes[i];
 		if( packed || len==1 ) {
 			continue;
-- 
2.43.0


From 6e6d01a4485004266dfb57b7cd38292f9411b348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:36 +0000
Subject: [PATCH 35/84] fix: object pool accepted the pointer past its end as
 one of its blocks

---
 allocators/objpool/objpool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocators/objpool/objpool.c b/allocators/objpool/objpool.c
index d4f4de6..72cbee0 100644
--- a/allocators/objpool/objpool.c
+++ b/allocators/objpool/objpool.c
@@ -81,7 +81,7 @@ HARBOL_EXPORT void *harbol_objpool_alloc(struct HarbolObjPool *const objpool) {
 
 HARBOL_EXPORT void harbol_objpool_free(struct HarbolObjPool *const restrict objpool, void *const restrict ptr) {
 	uintptr_t const p = ( uintptr_t )(ptr);
-	if( ptr==NULL || p < objpool->mem || p > objpool->mem + (objpool->size * objpool->objsize) ) {
+	if( ptr==NULL || p < objpool->mem || p >= objpool->mem + (objpool->size * objpool->objsize) ) {
 		return;
 	}
 	/// when we free our pointer, we recycle the pointer space to store the previous index
-- 
2.43.0


From aae93fb86fd6cf737b26339295db13fc341a3f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 36/84] fix: object pool of huge objects was created with
 blocks of no size

---
 allocators/objpool/objpool.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/allocators/objpool/objpool.c b/allocators/objpool/objpool.c
index 72cbee0..8d4dc45 100644
--- a/allocators/objpool/objpool.c
+++ b/allocators/objpool/objpool.c
@@ -11,6 +11,9 @@ HARBOL_EXPORT NO_NULL bool harbol_objpool_init(struct HarbolObjPool *const objpo
 	}
 	
 	size_t const aligned_objsize = harbol_align_size(objsize, sizeof(size_t));
+	if( aligned_objsize < objsize ) {
+		return false;
+	}
 	objpool->mem = ( uintptr_t )(calloc(len, aligned_objsize));
 	if( objpool->mem==NIL ) {
 		return false;
-- 
2.43.0


From 8a15c9163cd004471b20c58607042b852aca96c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 37/84] fix: requests larger than the double-ended stack
 wrapped around and were granted

---
 allocators/bistack/bistack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/allocators/bistack/bistack.c b/allocators/bistack/bistack.c
index 32e032a..3c1f936 100644
--- a/allocators/bistack/bistack.c
+++ b/allocators/bistack/bistack.c
@@ -46,7 +46,7 @@ HARBOL_EXPORT void *harbol_bistack_alloc_front(struct HarbolBiStack *const bistk
 	
 	size_t const aligned_size = harbol_align_size(size, sizeof aligned_size);
 	/// front end arena is too high!
-	if( bistk->front + aligned_size >= bistk->back ) {
+	if( aligned_size < size || aligned_size >= bistk->back - bistk->front ) {
 		return NULL;
 	}
 	size_t const f = bistk->front;
@@ -61,7 +61,7 @@ HARBOL_EXPORT void *harbol_bistack_alloc_back(struct HarbolBiStack *const restri
 	
 	size_t const aligned_size = harbol_align_size(size, sizeof aligned_size);
 	/// back end arena is too low
-	if( bistk->back - aligned_size <= bistk->front ) {
+	if( aligned_size < size || aligned_size >= bistk->back - bistk->front ) {
 		return NULL;
 	}
 	bistk->back -= aligned_size;
-- 
2.43.0


From cc6ecd4da814180ed225455aa392178724c5ddc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 38/84] fix: memory pool reported success when its memory could
 not be allocated

---
 allocators/mempool/mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index 21cf32d..cb46aa4 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -165,7 +165,7 @@ HARBOL_EXPORT bool harbol_mempool_init(struct HarbolMemPool *const mempool, size
 		return false;
 	
 	mempool->stack = harbol_region_make(size);
-	return true;
+	return mempool->stack.mem != NULL;
 }
 
 HARBOL_EXPORT struct HarbolMemPool harbol_mempool_make(size_t const size, bool *const res) {
-- 
2.43.0


From 5e332d1447f6f32b0935b56a2adb8798902761a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:35 +0000
Subject: [PATCH 39/84] fix: remaining memory of a memory pool was computed as
 a negative number

---
 allocators/mempool/mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index cb46aa4..8773f71 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -294,7 +294,7 @@ HARBOL_EXPORT bool harbol_mempool_cleanup(struct HarbolMemPool *const restrict m
 }
 
 HARBOL_EXPORT size_t harbol_mempool_mem_remaining(struct HarbolMemPool const *mempool) {
-	size_t total_remaining = mempool->stack.mem - (mempool->stack.mem + mempool->stack.offs);
+	size_t total_remaining = harbol_region_remaining(&mempool->stack);
 	for( struct HarbolMemNode *n = mempool->large.head; n != NULL; n = n->next ) {
 		total_remaining += n->size;
 	}
-- 
2.43.0


From 1a2804024be26401a9632a73fbe06eb710608090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:44 +0000
Subject: [PATCH 40/84] fix: memory pool free lists lost nodes and went out of
 order when inserting

---
 allocators/mempool/mempool.c | 110 ++++++++++++-----------------------
 1 file changed, 36 insertions(+), 74 deletions(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index 8773f71..5fd5e11 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -28,13 +28,13 @@ HARBOL_EXPORT void harbol_memnode_replace(struct HarbolMemNode *const old, struc
 /// makes a current node into the next node.
 HARBOL_EXPORT void harbol_freelist_insert_before(struct HarbolFreeList *const list, struct HarbolMemNode *const curr, struct HarbolMemNode *const insert) {
 	insert->next = curr;
+	insert->prev = curr->prev;
 	if( curr->prev==NULL ) {
 		list->head = insert;
 	} else {
-		insert->prev = curr->prev;
 		curr->prev->next = insert;
 	}
-    curr->prev = insert;
+	curr->prev = insert;
 }
 
 static void _harbol_freelist_transfer_node(struct HarbolMemPool *const mempool, struct HarbolMemNode *const node) {
@@ -45,81 +45,43 @@ static void _harbol_freelist_transfer_node(struct HarbolMemPool *const mempool,
 
 
 HARBOL_EXPORT void harbol_freelist_insert(struct HarbolMemPool *const mempool, struct HarbolFreeList *const list, struct HarbolMemNode *const node, bool const is_bucket) {
-	if( list->head==NULL ) {
-		list->head = node;
-		list->len++;
-		return;
+	/// Address sort, lowest to highest aka ascending order.
+	struct HarbolMemNode *prev = NULL, *next = list->head;
+	while( next != NULL && ( uintptr_t )(next) < ( uintptr_t )(node) ) {
+		prev = next;
+		next = next->next;
 	}
 	
-	for( struct HarbolMemNode *iter = list->head; iter != NULL; iter = iter->next ) {
-		if( ( uintptr_t )(iter)==mempool->stack.offs ) {
-			mempool->stack.offs += iter->size;
-			harbol_freelist_remove(list, iter);
-			iter = list->head;
-			if( iter==NULL ) {
-				list->head = node;    
-				return;
-            }
-			continue;
-		}
-		uintptr_t const inode = ( uintptr_t )(node);
-		uintptr_t const iiter = ( uintptr_t )(iter);
-		uintptr_t const iter_end = iiter + iter->size;
-		uintptr_t const node_end = inode + node->size;
-		
-		if( iter==node ) {
-			return;
-		} else if( iter < node ) {
-			if( iter_end > inode ) {
-				/// node was coalesced prior.
-				return;
-			} else if( iter_end==inode ) {
-				/// if we can coalesce, do so.
-				iter->size += node->size;
-				return;
-			} else if (iter->next == NULL) {
-				// we reached the end of the free list -> append the node
-				iter->next = node;
-				node->prev = iter;
-				list->len++;
-				return;    
-            }
-		} else if( iter > node ) {
-			/// Address sort, lowest to highest aka ascending order.
-			if( iter==list->head ) {
-				if( iter_end==inode ) {
-					iter->size += node->size;
-					if( is_bucket ) {
-						_harbol_freelist_transfer_node(mempool, harbol_freelist_remove(list, iter));
-					}
-				} else if( node_end==iiter ) {
-					node->size += list->head->size;
-					node->next = list->head->next;
-					node->prev = NULL;
-					list->head = node;
-					if( is_bucket ) {
-						_harbol_freelist_transfer_node(mempool, harbol_freelist_remove(list, list->head));
-					}
-				} else {
-					node->next = iter;
-					node->prev = NULL;
-					iter->prev = node;
-					list->head = node;
-					list->len++;
-				}
-				return;
-			} else if( iter_end==inode ) {
-				iter->size += node->size;
-				if( is_bucket ) {
-					_harbol_freelist_transfer_node(mempool, harbol_freelist_remove(list, iter));
-				}
-				return;
-			} else {
-				harbol_freelist_insert_before(list, node, iter);
-				list->len++;
-				return;
-			}
+	/// if we can coalesce, do so.
+	struct HarbolMemNode *merged = NULL;
+	if( prev != NULL && ( uintptr_t )(prev) + prev->size==( uintptr_t )(node) ) {
+		prev->size += node->size;
+		merged = prev;
+	} else if( next != NULL ) {
+		harbol_freelist_insert_before(list, next, node);
+		list->len++;
+	} else {
+		node->next = NULL;
+		node->prev = prev;
+		if( prev != NULL ) {
+			prev->next = node;
+		} else {
+			list->head = node;
 		}
+		list->tail = node;
+		list->len++;
+	}
+	
+	struct HarbolMemNode *const last = ( merged != NULL )? merged : node;
+	if( next != NULL && ( uintptr_t )(last) + last->size==( uintptr_t )(next) ) {
+		harbol_freelist_remove(list, next);
+		last->size += next->size;
+		merged = last;
+	}
+	
+	/// a coalesced node is too large for its bucket.
+	if( merged != NULL && is_bucket ) {
+		_harbol_freelist_transfer_node(mempool, harbol_freelist_remove(list, merged));
 	}
 }
 
-- 
2.43.0


From ee204f46fdac2cd7ffe2f32b74d45873031b761e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 41/84] fix: released memory of a memory pool was never given
 back to its stack

---
 allocators/mempool/mempool.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index 5fd5e11..2da7a1a 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -235,9 +235,18 @@ HARBOL_EXPORT bool harbol_mempool_free(struct HarbolMemPool *const restrict memp
 			|| !is_uint_in_bounds(mem_node->size, mempool->stack.size, sizeof(struct HarbolMemNode)) )
 		return false;
 	
-	/// if the mem_node is right at the stack base ptr, then add it to the stack.
-	if( ( uintptr_t )(mem_node)==mempool->stack.offs ) {
+	/// if the mem_node is right at the stack base ptr, then add it to the stack
+	/// along with the free nodes that come right after it.
+	if( ( uintptr_t )(mem_node)==( uintptr_t )(mempool->stack.mem + mempool->stack.offs) ) {
 		mempool->stack.offs += mem_node->size;
+		for( size_t i=0; i<=HARBOL_BUCKET_SIZE; i++ ) {
+			struct HarbolFreeList *const list = ( i < HARBOL_BUCKET_SIZE )? &mempool->buckets[i] : &mempool->large;
+			if( list->head != NULL && ( uintptr_t )(list->head)==( uintptr_t )(mempool->stack.mem + mempool->stack.offs) ) {
+				struct HarbolMemNode const *const top = harbol_freelist_remove(list, list->head);
+				mempool->stack.offs += top->size;
+				i = SIZE_MAX; /// check every list again for the new base.
+			}
+		}
 	} else {
 		/// try to place it into bucket or large freelist.
 		struct HarbolFreeList *const list = ( slot < HARBOL_BUCKET_SIZE )? &mempool->buckets[slot] : &mempool->large;
-- 
2.43.0


From 5b0511837310e544acb5b5436a86fe186e0d1357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 42/84] fix: memory pool accepted foreign and already released
 pointers

---
 allocators/mempool/mempool.c | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/allocators/mempool/mempool.c b/allocators/mempool/mempool.c
index 2da7a1a..f8a3985 100644
--- a/allocators/mempool/mempool.c
+++ b/allocators/mempool/mempool.c
@@ -201,13 +201,37 @@ HARBOL_EXPORT void *harbol_mempool_alloc(struct HarbolMemPool *const mempool, si
 	}
 }
 
+/// whether the pointer is memory of the pool that is currently given out.
+static NO_NULL bool _harbol_mempool_owns(struct HarbolMemPool const *const mempool, void const *const ptr) {
+	uintptr_t const p    = ( uintptr_t )(ptr);
+	uintptr_t const base = ( uintptr_t )(mempool->stack.mem + mempool->stack.offs);
+	uintptr_t const end  = ( uintptr_t )(mempool->stack.mem + mempool->stack.size);
+	if( p < base || p >= end || p - base < sizeof(struct HarbolMemNode) ) {
+		return false;
+	}
+	
+	/// released memory lies within the nodes of the free lists.
+	uintptr_t const n = p - sizeof(struct HarbolMemNode);
+	for( size_t i=0; i<=HARBOL_BUCKET_SIZE; i++ ) {
+		struct HarbolFreeList const *const list = ( i < HARBOL_BUCKET_SIZE )? &mempool->buckets[i] : &mempool->large;
+		for( struct HarbolMemNode const *iter = list->head; iter != NULL && ( uintptr_t )(iter) <= n; iter = iter->next ) {
+			if( n - ( uintptr_t )(iter) < iter->size ) {
+				return false;
+			}
+		}
+	}
+	
+	struct HarbolMemNode const *const node = ( struct HarbolMemNode const* )(( uint8_t const* )(ptr) - sizeof *node);
+	return node->size > sizeof *node && node->size <= end - n;
+}
+
 HARBOL_EXPORT void *harbol_mempool_realloc(struct HarbolMemPool *const restrict mempool, void *const ptr, size_t const size) {
 	if( size > mempool->stack.size ) {
 		return NULL;
 	} else if( ptr==NULL ) {
 		/// NULL ptr should make this work like regular alloc.
 		return harbol_mempool_alloc(mempool, size);
-	} else if( ( uintptr_t )(ptr) - sizeof(struct HarbolMemNode) < ( uintptr_t )(mempool->stack.mem) ) {
+	} else if( !_harbol_mempool_owns(mempool, ptr) ) {
 		return NULL;
 	}
 	
@@ -223,18 +247,14 @@ HARBOL_EXPORT void *harbol_mempool_realloc(struct HarbolMemPool *const restrict
 }
 
 HARBOL_EXPORT bool harbol_mempool_free(struct HarbolMemPool *const restrict mempool, void *const ptr) {
-	if( ptr==NULL || ( uintptr_t )(ptr) - sizeof(struct HarbolMemNode) < ( uintptr_t )(mempool->stack.mem) ) {
+	/// make sure the pointer data is valid.
+	if( ptr==NULL || !_harbol_mempool_owns(mempool, ptr) ) {
 		return false;
 	}
 	/// behind the actual pointer data is the allocation info.
 	struct HarbolMemNode *mem_node = ( struct HarbolMemNode* )(( uint8_t* )(ptr) - sizeof *mem_node);
 	size_t const slot = (mem_node->size >> HARBOL_BUCKET_BITS) - 1;
 	
-	/// make sure the pointer data is valid.
-	if( !is_uintptr_in_bounds(( uintptr_t )(mem_node), ( uintptr_t )(mempool->stack.mem + mempool->stack.size), ( uintptr_t )(mempool->stack.offs))
-			|| !is_uint_in_bounds(mem_node->size, mempool->stack.size, sizeof(struct HarbolMemNode)) )
-		return false;
-	
 	/// if the mem_node is right at the stack base ptr, then add it to the stack
 	/// along with the free nodes that come right after it.
 	if( ( uintptr_t )(mem_node)==( uintptr_t )(mempool->stack.mem + mempool->stack.offs) ) {
-- 
2.43.0


From f3913044aad19031167f942f6eaec89606b02a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:32 +0000
Subject: [PATCH 43/84] fix: string read from a file kept stale text after a
 short or failed read

---
 str/str.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/str/str.c b/str/str.c
index ae0a9da..099c8c0 100644
--- a/str/str.c
+++ b/str/str.c
@@ -214,11 +214,14 @@ HARBOL_EXPORT bool harbol_string_is_palindrome(struct HarbolString const *const
 }
 
 HARBOL_EXPORT bool harbol_string_read_from_file(struct HarbolString *const str, FILE *const file) {
-	ssize_t const filesize = get_file_size(file);
-	if( filesize<=0 || !_harbol_resize_string(str, filesize) ) {
+	size_t len = 0;
+	char *const text = ( char* )(make_buffer_from_file(file, &len));
+	if( text==NULL ) {
 		return false;
 	}
-	str->len = fread(str->cstr, sizeof *str->cstr, filesize, file);
+	free(str->cstr);
+	str->cstr = text;
+	str->len  = len;
 	return true;
 }
 
-- 
2.43.0


From 59bd50dde78b04e0426f6b403119dbff8b0bf609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 44/84] fix: reading a file into a buffer took a failed read
 for a shorter file and left text unterminated

---
 harbol_common_includes.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 05e840e..1df77f1 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -459,21 +459,28 @@ union HarbolIter {
 
 
 static inline NO_NULL uint8_t *make_buffer_from_file(FILE *const restrict file, size_t *const restrict bytes) {
+	*bytes = SIZE_MAX;
 	ssize_t const filesize = get_file_size(file);
 	if( filesize <= 0 ) {
 		return NULL;
 	}
 	
+	/// one more byte so that a text buffer is null-terminated.
 #ifdef __cplusplus
-	uint8_t *restrict stream = reinterpret_cast< decltype(stream) >(calloc(filesize, sizeof *stream));
+	uint8_t *restrict stream = reinterpret_cast< decltype(stream) >(calloc(( size_t )(filesize) + 1, sizeof *stream));
 #else
-	uint8_t *restrict stream = calloc(filesize, sizeof *stream);
+	uint8_t *restrict stream = calloc(( size_t )(filesize) + 1, sizeof *stream);
 #endif
 	if( stream==NULL ) {
-		*bytes = SIZE_MAX;
-	} else {
-		*bytes = fread(stream, sizeof *stream, filesize, file);
+		return NULL;
 	}
+	
+	size_t const bytes_read = fread(stream, sizeof *stream, filesize, file);
+	if( bytes_read < ( size_t )(filesize) && ferror(file) ) {
+		free(stream);
+		return NULL;
+	}
+	*bytes = bytes_read;
 	return stream;
 }
 
@@ -485,6 +492,7 @@ static inline NO_NULL uint8_t *make_buffer_from_binary(char const file_name[cons
 {
 	FILE *restrict file = fopen(file_name, "rb");
 	if( file==NULL ) {
+		*bytes = SIZE_MAX;
 		return NULL;
 	}
 	
@@ -505,6 +513,7 @@ static inline NO_NULL char *make_buffer_from_text(char const file_name[const res
 {
 	FILE *restrict file = fopen(file_name, "r");
 	if( file==NULL ) {
+		*len = SIZE_MAX;
 		return NULL;
 	}
 	
-- 
2.43.0


From 8bea29b0345ae94869be8148735ebe82f08cf08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 45/84] fix: counting the runes of text cut inside a sequence
 ran past its terminator

---
 lex/lex.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index c8dc42c..5225e85 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -60,8 +60,11 @@ HARBOL_EXPORT size_t get_utf8_len(char const c) {
 HARBOL_EXPORT size_t get_str_rune_len(char const cstr[const static 1]) {
 	size_t runes = 0;
 	for( size_t i=0; cstr[i] != 0; ) {
+		/// a sequence that was cut off ends at the terminator.
 		size_t const read = get_utf8_len(cstr[i]);
-		i += read;
+		for( size_t n=0; n < read && cstr[i] != 0; n++ ) {
+			i++;
+		}
 		runes++;
 	}
 	return runes;
-- 
2.43.0


From ba2997aad3ee7642f76c9d44e1c31de37b5dfaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 46/84] fix: decoding text cut inside a sequence invented runes

---
 lex/lex.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 5225e85..b740688 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -359,15 +359,15 @@ HARBOL_EXPORT int32_t *utf8_cstr_to_rune(char const cstr[const restrict static 1
 	while( cstr[iter_len] != 0 && rune_iter < rune_count ) {
 		int32_t rune = 0;
 		size_t const bytes_read = read_utf8(&cstr[iter_len], cstr_len - iter_len, &rune);
-		if( rune==0 ) {
+		if( bytes_read==0 || rune==0 ) {
 			break;
 		}
 		iter_len += bytes_read;
 		runes[rune_iter] = rune;
 		rune_iter++;
 	}
-	*rune_len = rune_count;
-	runes[rune_count] = 0;
+	*rune_len = rune_iter;
+	runes[rune_iter] = 0;
 	return runes;
 }
 
-- 
2.43.0


From ff64c9062f3e2c7414470a72797b8059ce59de6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:40 +0000
Subject: [PATCH 47/84] fix: iterating runes of text cut inside a sequence read
 past its end

---
 lex/lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index b740688..2a2e835 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -397,7 +397,7 @@ HARBOL_EXPORT int32_t utf8_to_rune_iter(char const cstr[const restrict static 1]
 		return -1;
 	}
 	int32_t rune = -1;
-	size_t const bytes_read = read_utf8(&cstr[*idx], cstr_len, &rune);
+	size_t const bytes_read = read_utf8(&cstr[*idx], cstr_len - *idx, &rune);
 	if( bytes_read > 0 ) {
 		*idx += bytes_read;
 	}
-- 
2.43.0


From 415398b340f10b2bde291444da3103ece33b516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:49 +0000
Subject: [PATCH 48/84] fix: writing UTF-8 to a string reported success when
 memory ran out

---
 lex/lex.c | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 2a2e835..a289952 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -281,28 +281,14 @@ HARBOL_EXPORT size_t write_utf8_cstr(char buf[static 1], size_t const buflen, in
 }
 
 HARBOL_EXPORT bool write_utf8_str(struct HarbolString *const str, int32_t const rune) {
-	size_t const byte_len = rune_byte_len(rune);
-	switch( byte_len ) {
-		case 1:
-			harbol_string_add_char(str, rune);
-			return true;
-		case 2:
-			harbol_string_add_char(str, 0xC0 | (rune >> 6));
-			harbol_string_add_char(str, 0x80 | (rune & 0x3F));
-			return true;
-		case 3:
-			harbol_string_add_char(str, 0xE0 | (rune >> 12));
-			harbol_string_add_char(str, 0x80 | ((rune >> 6) & 0x3F));
-			harbol_string_add_char(str, 0x80 | (rune & 0x3F));
-			return true;
-		case 4:
-			harbol_string_add_char(str, 0xF0 | (rune >> 18));
-			harbol_string_add_char(str, 0x80 | ((rune >> 12) & 0x3F));
-			harbol_string_add_char(str, 0x80 | ((rune >> 6) & 0x3F));
-			harbol_string_add_char(str, 0x80 | (rune & 0x3F));
-			return true;
-		default:
+	char bytes[5] = {0};
+	switch( write_utf8_cstr(bytes, sizeof bytes - 1, rune) ) {
+		case 0:
 			return false;
+		case 1:
+			return harbol_string_add_char(str, bytes[0]);
+		default: /// all of the bytes or none.
+			return harbol_string_add_cstr(str, bytes);
 	}
 }
 
@@ -384,7 +370,11 @@ HARBOL_EXPORT char *rune_to_utf8_cstr(int32_t const runes[static 1], size_t *con
 HARBOL_EXPORT struct HarbolString rune_to_utf8_str(int32_t const runes[static 1]) {
 	struct HarbolString str = {0};
 	for( size_t i=0; runes[i] != 0; i++ ) {
-		if( !write_utf8_str(&str, runes[i]) ) {
+		if( rune_byte_len(runes[i])==0 ) {
+			break;
+		} else if( !write_utf8_str(&str, runes[i]) ) {
+			/// out of memory, don't give back half of the text.
+			harbol_string_clear(&str);
 			break;
 		}
 	}
-- 
2.43.0


From 315d9d21e9d630deac0531181fe9a59fff761aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 49/84] fix: skipping strings and comments ran past the end of
 text that was cut off

---
 lex/lex.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index a289952..11e2444 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -102,10 +102,13 @@ HARBOL_EXPORT char const *skip_chars_until_newline(char const str[static 1], boo
 }
 
 HARBOL_EXPORT char const *skip_string_literal(char const str[static 1], char const esc) {
+	if( *str==0 ) {
+		return str;
+	}
 	int_fast8_t const quote = *str++;
 	while( *str != 0 && *str != quote ) {
 		int_fast8_t const c = *str;
-		str += ( c==esc )? 2 : 1;
+		str += ( c==esc && str[1] != 0 )? 2 : 1;
 	}
 	return str;
 }
@@ -114,17 +117,18 @@ HARBOL_EXPORT char const *skip_single_line_comment(char const str[static 1], uin
 	char const *begin = str;
 	while( *begin != 0 && *begin != '\n' ) {
 		if( *begin=='\\' ) {
-			while( *++begin != '\n' );
-			if( *begin=='\n' ) {
-				++*lines;
+			while( *++begin != 0 && *begin != '\n' );
+			if( *begin==0 ) {
+				break;
 			}
+			++*lines;
 		}
 		begin++;
 	}
 	return begin;
 }
 HARBOL_EXPORT char const *skip_multi_line_comment(char const str[static 1], char const end_token[static 1], size_t const end_len, uint32_t *const restrict lines) {
-	char const *begin = str + 1;
+	char const *begin = str + (*str != 0);
 	while( *begin != 0 && strncmp(end_token, begin, end_len) != 0 ) {
 		if( *begin=='\n' ) {
 			++*lines;
@@ -141,7 +145,10 @@ HARBOL_EXPORT char *clear_single_line_comment(char str[static 1]) {
 	char *begin = str;
 	while( *begin != 0 && *begin != '\n' ) {
 		if( *begin=='\\' ) {
-			while( *++begin != '\n' );
+			while( *++begin != 0 && *begin != '\n' );
+			if( *begin==0 ) {
+				break;
+			}
 			memset(str, ' ', begin-str);
 			str = ++begin;
 		} else {
@@ -153,7 +160,7 @@ HARBOL_EXPORT char *clear_single_line_comment(char str[static 1]) {
 }
 
 HARBOL_EXPORT char *clear_multi_line_comment(char str[static 1], char const end_token[static 1], size_t const end_len) {
-	char *begin = str + 1;
+	char *begin = str + (*str != 0);
 	while( *begin != 0 && strncmp(end_token, begin, end_len) != 0 ) {
 		if( *begin=='\n' ) {
 			memset(str, ' ', begin-str);
@@ -172,7 +179,7 @@ HARBOL_EXPORT char *clear_multi_line_comment(char str[static 1], char const end_
 HARBOL_EXPORT char const *skip_multiquote_string(char const str[static 1], char const quote[static 1], size_t const quote_len, char const esc) {
 	while( *str != 0 && strncmp(quote, str, quote_len) != 0 ) {
 		int_fast8_t const c = *str;
-		str += ( c==esc )? 2 : 1;
+		str += ( c==esc && str[1] != 0 )? 2 : 1;
 	}
 	if( *str != 0 ) {
 		str += quote_len;
-- 
2.43.0


From 40bff8e304eeb5fa31a621f7254b9f59798564d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 50/84] fix: lexing comments, names and quoted text dropped
 characters when memory ran out and ran past cut off text

---
 lex/lex.c | 59 ++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 11e2444..84778ad 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -188,59 +188,62 @@ HARBOL_EXPORT char const *skip_multiquote_string(char const str[static 1], char
 }
 
 HARBOL_EXPORT bool lex_single_line_comment(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, uint32_t *const restrict lines) {
+	bool added = true;
 	while( *str != 0 && *str != '\n' ) {
 		if( *str=='\\' ) {
-			harbol_string_add_char(buf, *str);
-			while( *++str != '\n' ) {
-				harbol_string_add_char(buf, *str);
+			added &= harbol_string_add_char(buf, *str);
+			while( *++str != 0 && *str != '\n' ) {
+				added &= harbol_string_add_char(buf, *str);
 			}
-			if( *str=='\n' ) {
-				++*lines;
+			if( *str==0 ) {
+				break;
 			}
+			++*lines;
 		}
-		harbol_string_add_char(buf, *str++);
+		added &= harbol_string_add_char(buf, *str++);
 	}
 	*end = str;
-	return buf->len > 0;
+	return added && buf->len > 0;
 }
 
 HARBOL_EXPORT bool lex_multi_line_comment(char const str[static 1], char const **const end, char const end_token[static 1], size_t const end_len, struct HarbolString *const restrict buf, uint32_t *const restrict lines) {
-	harbol_string_add_char(buf, *str++);
+	if( *str==0 ) {
+		*end = str;
+		return false;
+	}
+	bool added = harbol_string_add_char(buf, *str++);
 	while( *str != 0 && strncmp(end_token, str, end_len) != 0 ) {
 		if( *str=='\n' ) {
 			++*lines;
 		}
-		harbol_string_add_char(buf, *str++);
+		added &= harbol_string_add_char(buf, *str++);
 	}
-	harbol_string_add_cstr(buf, end_token);
+	added &= harbol_string_add_cstr(buf, end_token);
 	if( *str != 0 ) {
 		str += end_len;
 	}
 	*end = str;
-	return buf->len > 0;
+	return added && buf->len > 0;
 }
 
 HARBOL_EXPORT bool lex_multiquote_string(char const str[static 1], char const **const end, char const quote[const restrict static 1], size_t quote_len, struct HarbolString *const restrict buf, size_t *const restrict line) {
 	if( !strncmp(str, quote, quote_len) ) {
 		str += quote_len;
 	}
+	bool added = true;
 	while( str[0] != 0 && strncmp(str, quote, quote_len) ) {
-		int_fast8_t const c = *str;
-		if( c==0 ) {
-			return false;
-		} else if( c=='\n' ) {
+		if( *str=='\n' ) {
 			/// make sure you converted all carriage returns '\r' to '\n'.
 			++*line;
-			harbol_string_add_char(buf, c);
 		}
-		harbol_string_add_char(buf, *str);
+		added &= harbol_string_add_char(buf, *str);
 		str++;
 	}
 	if( !strncmp(str, quote, quote_len) ) {
 		str += quote_len;
 	}
 	*end = str;
-	return true;
+	return added;
 }
 
 HARBOL_EXPORT size_t rune_byte_len(int32_t const rune) {
@@ -1516,11 +1519,12 @@ HARBOL_EXPORT char const *lex_get_err(enum HarbolLexErrType const err_code) {
 }
 
 HARBOL_EXPORT bool lex_until_false(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool checker(int32_t c)) {
+	bool added = true;
 	while( *str != 0 && checker(*str) ) {
-		harbol_string_add_char(buf, *str++);
+		added &= harbol_string_add_char(buf, *str++);
 	}
 	*end = str;
-	return buf->len > 0;
+	return added && buf->len > 0;
 }
 
 HARBOL_EXPORT bool lex_until_false_utf8(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool checker(int32_t c)) {
@@ -1534,7 +1538,9 @@ HARBOL_EXPORT bool lex_until_false_utf8(char const str[static 1], char const **c
 		} else if( !checker(rune) ) {
 			break;
 		}
-		write_utf8_str(buf, rune);
+		if( !write_utf8_str(buf, rune) ) {
+			goto lex_id_u8_err;
+		}
 		str += bytes;
 	}
 	res = buf->len > 0;
@@ -1544,22 +1550,25 @@ lex_id_u8_err:
 }
 
 HARBOL_EXPORT bool lex_c_style_identifier(char const str[static 1], char const **const end, struct HarbolString *const restrict buf) {
+	*end = str;
 	if( !is_alphabetic(*str) ) {
 		return false;
 	}
+	bool added = true;
 	while( *str != 0 && is_possible_id(*str) ) {
-		harbol_string_add_char(buf, *str++);
+		added &= harbol_string_add_char(buf, *str++);
 	}
 	*end = str;
-	return true;
+	return added;
 }
 
 HARBOL_EXPORT bool lex_until(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, int32_t const control) {
+	bool added = true;
 	while( *str != 0 && *str != control ) {
-		harbol_string_add_char(buf, *str++);
+		added &= harbol_string_add_char(buf, *str++);
 	}
 	*end = str;
-	return buf->len > 0;
+	return added && buf->len > 0;
 }
 
 HARBOL_EXPORT intmax_t lex_c_string_to_int(struct HarbolString const *const str, char **const end) {
-- 
2.43.0


From 864d21dfdf47ae26b0648eedb9205f534ea7f20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:51 +0000
Subject: [PATCH 51/84] fix: number lexing ran past the end of cut off text or
 left the stopping point unset

---
 lex/lex.c | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 84778ad..e0f43e7 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -441,7 +441,8 @@ HARBOL_EXPORT int32_t lex_octal_escape_char(char const str[static 1], char const
 		for( ; *str != 0; count++ ) {
 			int_fast8_t const c = *str;
 			if( count > 3 ) {
-				return -1; /// out of range.
+				r = -1; /// out of range.
+				goto exit;
 			} else {
 				switch( c ) {
 					case '0': case '1': case '2': case '3':
@@ -484,6 +485,7 @@ exit:;
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		/// missing initial 0.
@@ -496,7 +498,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 	
 	if( *str != 'x' && *str != 'X' ) {
 		/// missing following `x`.
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		result = HarbolLexMissingX;
 		goto lex_c_style_hex_err;
 	} else {
@@ -683,6 +687,7 @@ lex_c_style_hex_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		harbol_string_add_char(buf, *str++);
@@ -693,7 +698,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 	}
 	
 	if( *str != 'x' && *str != 'X' ) {
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		result = HarbolLexMissingX;
 		goto lex_go_style_hex_err;
 	} else {
@@ -795,6 +802,7 @@ lex_go_style_hex_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_octal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		harbol_string_add_char(buf, *str++);
@@ -882,6 +890,7 @@ lex_c_style_octal_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_octal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		harbol_string_add_char(buf, *str++);
@@ -892,7 +901,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_octal(char const str[static 1],
 	}
 	
 	if( *str != 'o' && *str != 'O' ) {
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		result = HarbolLexMissingO;
 		goto lex_go_style_octal_err;
 	} else {
@@ -942,6 +953,7 @@ lex_go_style_octal_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_binary(char const str[static 1], char const **const end, struct HarbolString *const restrict buf) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		harbol_string_add_char(buf, *str++);
@@ -952,7 +964,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_binary(char const str[static 1],
 	}
 	
 	if( *str != 'b' && *str != 'B' ) {
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		result = HarbolLexMissingB;
 		goto lex_c_style_binary_err;
 	} else {
@@ -1034,6 +1048,7 @@ lex_c_style_binary_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_binary(char const str[static 1], char const **const end, struct HarbolString *const restrict buf) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	} else if( *str != '0' ) {
 		harbol_string_add_char(buf, *str++);
@@ -1045,7 +1060,9 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_binary(char const str[static 1]
 	
 	if( *str != 'b' && *str != 'B' ) {
 		result = HarbolLexMissingB;
-		harbol_string_add_char(buf, *str++);
+		if( *str != 0 ) {
+			harbol_string_add_char(buf, *str++);
+		}
 		goto lex_go_style_binary_err;
 	} else {
 		harbol_string_add_char(buf, *str++);
@@ -1093,6 +1110,7 @@ lex_go_style_binary_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	}
 	size_t lit_flags = 0;
@@ -1260,6 +1278,7 @@ lex_c_style_decimal_err:;
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
 	if( *str==0 ) {
+		*end = str;
 		return HarbolLexEoF;
 	}
 	size_t lit_flags = 0;
@@ -1374,6 +1393,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_number(char const str[static 1],
 			return lex_c_style_decimal(str, end, buf, is_float);
 		}
 	}
+	*end = str;
 	return HarbolLexNoErr;
 }
 
@@ -1392,6 +1412,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_number(char const str[static 1]
 			return lex_go_style_decimal(str, end, buf, is_float);
 		}
 	}
+	*end = str;
 	return HarbolLexNoErr;
 }
 
-- 
2.43.0


From 0a9ca3fb1befb2060afc8eed8bd183e5db337f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:03 +0000
Subject: [PATCH 52/84] fix: lexing a decimal number swallowed a following
 operator

---
 lex/lex.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lex/lex.c b/lex/lex.c
index e0f43e7..5d1a052 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1155,6 +1155,8 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 						lit_flags |= math_op;
 						harbol_string_add_char(buf, chr);
 					}
+				} else { /// an operator, the number ends here.
+					goto lex_c_style_decimal_end;
 				}
 				break;
 			case 'F': case 'f':
@@ -1263,6 +1265,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1]
 		str++;
 	}
 	
+lex_c_style_decimal_end:;
 	if( (lit_flags & flt_e_flag) && (str[-1]=='e'||str[-1]=='E') ) { /// float missing exponent!
 		result = HarbolLexNoNumAfterExp;
 		goto lex_c_style_decimal_err;
@@ -1319,6 +1322,8 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1
 						lit_flags |= math_op;
 						harbol_string_add_char(buf, chr);
 					}
+				} else { /// an operator, the number ends here.
+					goto lex_go_style_decimal_end;
 				}
 				break;
 			case 'E': case 'e':
@@ -1363,6 +1368,7 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1
 		str++;
 	}
 	
+lex_go_style_decimal_end:;
 	if( (lit_flags & flt_e_flag) && (str[-1]=='e'||str[-1]=='E') ) { /// e mark missing exponent!
 		result = HarbolLexNoNumAfterExp;
 		goto lex_go_style_decimal_err;
-- 
2.43.0


From bddcc6db93223ec021592906022c76384a0566b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:14 +0000
Subject: [PATCH 53/84] fix: number lexing reported success for numbers that
 lost digits when memory ran out

---
 lex/lex.c | 45 +++++++++++++++++++++++++++++++++++----------
 lex/lex.h |  1 +
 2 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index 5d1a052..a2e2212 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -482,8 +482,15 @@ exit:;
 	return !is_valid_unicode(r)? -1 : r;
 }
 
+/// a number is only complete if every consumed character was stored.
+static NO_NULL enum HarbolLexErrType _finish_number(enum HarbolLexErrType const result, struct HarbolString const *const buf, size_t const old_len, size_t const consumed) {
+	return( result==HarbolLexNoErr && buf->len - old_len != consumed )? HarbolLexOutOfMemory : result;
+}
+
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
+	char const *const begin = str;
+	size_t const old_len = buf->len;
 	if( *str==0 ) {
 		*end = str;
 		return HarbolLexEoF;
@@ -681,11 +688,13 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_hex(char const str[static 1], ch
 	}
 lex_c_style_hex_err:;
 	*end = str;
-	return result;
+	return _finish_number(result, buf, old_len, str - begin);
 }
 
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
+	char const *const begin = str;
+	size_t const old_len = buf->len;
 	if( *str==0 ) {
 		*end = str;
 		return HarbolLexEoF;
@@ -796,11 +805,13 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_hex(char const str[static 1], c
 	}
 lex_go_style_hex_err:;
 	*end = str;
-	return result;
+	return _finish_number(result, buf, old_len, str - begin);
 }
 
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_octal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
+	char const *const begin = str;
+	size_t const old_len = buf->len;
 	if( *str==0 ) {
 		*end = str;
 		return HarbolLexEoF;
@@ -832,8 +843,11 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_octal(char const str[static 1],
 					lit_flags |= digit_sep;
 				}
 				break;
-			case '.':
-				return lex_c_style_decimal(str, end, buf, is_float);
+			case '.': {
+				enum HarbolLexErrType const so_far = _finish_number(HarbolLexNoErr, buf, old_len, str - begin);
+				enum HarbolLexErrType const rest   = lex_c_style_decimal(str, end, buf, is_float);
+				return so_far != HarbolLexNoErr? so_far : rest;
+			}
 			case 'U': case 'u':
 				if( lit_flags & uflag ) { /// too many Us.
 					harbol_string_add_char(buf, chr);
@@ -884,11 +898,13 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_octal(char const str[static 1],
 	}
 lex_c_style_octal_err:;
 	*end = str;
-	return result;
+	return _finish_number(result, buf, old_len, str - begin);
 }
 
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_octal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf) {
 	int result = HarbolLexNoErr;
+	char const *const begin = str;
+	size_t const old_len = buf->len;
 	if( *str==0 ) {
 		*end = str;
 		return HarbolLexEoF;
@@ -947,11 +963,13 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_octal(char const str[static 1],
 	}
 lex_go_style_octal_err:;
 	*end = str;
-	return result;
+	return _finish_number(result, buf, old_len, str - begin);
 }
 
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_binary(char const str[static 1], char const **const end, struct HarbolString *const restrict buf) {
 	int result = HarbolLexNoErr;
+	char const *const begin = str;
+	size_t const old_len = buf->len;
 	if( *str==0 ) {
 		*end = str;
 		return HarbolLexEoF;
@@ -1042,11 +1060,13 @@ HARBOL_EXPORT enum HarbolLexErrType lex_c_style_binary(char const str[static 1],
 	}
 lex_c_style_binary_err:;
 	*end = str;
-	return result;
+	return _finish_number(result, buf, old_len, str - begin);
 }
 
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_binary(char const str[static 1], char const **const end, struct HarbolString *const restrict buf) {
 	int result = HarbolLexNoErr;
+	char const *const begin = str;
+	size_t const old_len = buf->len;
 	if( *str==0 ) {
 		*end = str;
 		return HarbolLexEoF;
@@ -1104,11 +1124,13 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_binary(char const str[static 1]
 	}
 lex_go_style_binary_err:;
 	*end = str;
-	return result;
+	return _finish_number(result, buf, old_len, str - begin);
 }
 
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_decimal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
+	char const *const begin = str;
+	size_t const old_len = buf->len;
 	if( *str==0 ) {
 		*end = str;
 		return HarbolLexEoF;
@@ -1275,11 +1297,13 @@ lex_c_style_decimal_end:;
 	}
 lex_c_style_decimal_err:;
 	*end = str;
-	return result;
+	return _finish_number(result, buf, old_len, str - begin);
 }
 
 HARBOL_EXPORT enum HarbolLexErrType lex_go_style_decimal(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
 	int result = HarbolLexNoErr;
+	char const *const begin = str;
+	size_t const old_len = buf->len;
 	if( *str==0 ) {
 		*end = str;
 		return HarbolLexEoF;
@@ -1378,7 +1402,7 @@ lex_go_style_decimal_end:;
 	}
 lex_go_style_decimal_err:;
 	*end = str;
-	return result;
+	return _finish_number(result, buf, old_len, str - begin);
 }
 
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_number(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool *const restrict is_float) {
@@ -1541,6 +1565,7 @@ HARBOL_EXPORT char const *lex_get_err(enum HarbolLexErrType const err_code) {
 		case HarbolLexBadUnicodeChar:            return "Bad unicode escape character.";
 		case HarbolLexSuddenEoFStr:              return "Sudden EoF in string.";
 		case HarbolLexDigitSepNotSepDigits:      return "Digit Separator not separating digits.";
+		case HarbolLexOutOfMemory:               return "Out of memory.";
 		default:                                 return "Unknown Lex error.";
 	}
 }
diff --git a/lex/lex.h b/lex/lex.h
index 590302b..288823f 100644
--- a/lex/lex.h
+++ b/lex/lex.h
@@ -109,6 +109,7 @@ enum HarbolLexErrType {
 	HarbolLexBadUnicodeChar,
 	HarbolLexSuddenEoFStr,
 	HarbolLexDigitSepNotSepDigits,
+	HarbolLexOutOfMemory,
 };
 
 HARBOL_EXPORT NO_NULL enum HarbolLexErrType lex_c_style_hex(char const str[], char const **end, struct HarbolString *buf, bool *is_float);
-- 
2.43.0


From 288ff2eae73f92860541070995c5405a52838f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:25 +0000
Subject: [PATCH 54/84] fix: string lexing ran past cut off text and reported
 success for strings it had shortened

---
 lex/lex.c | 50 +++++++++++++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index a2e2212..5d6b8a9 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1448,6 +1448,11 @@ HARBOL_EXPORT enum HarbolLexErrType lex_go_style_number(char const str[static 1]
 
 static NO_NULL enum HarbolLexErrType _lex_str(char const str[static 1], char const **const end, struct HarbolString *const restrict buf, bool const raw) {
 	int result = HarbolLexNoErr;
+	bool added = true;
+	if( *str==0 ) {
+		result = HarbolLexSuddenEoFStr;
+		goto lex_str_err;
+	}
 	for( int_fast8_t const quote = *str++; *str != quote; str++ ) {
 		int_fast8_t const c = *str;
 		if( c==0 ) {
@@ -1455,28 +1460,31 @@ static NO_NULL enum HarbolLexErrType _lex_str(char const str[static 1], char con
 			goto lex_str_err;
 		} else if( c=='\\' ) {
 			char const esc = *++str;
-			if( raw ) {
-				harbol_string_add_char(buf, c);
-				harbol_string_add_char(buf, esc);
+			if( esc==0 ) {
+				result = HarbolLexSuddenEoFStr;
+				goto lex_str_err;
+			} else if( raw ) {
+				added &= harbol_string_add_char(buf, c);
+				added &= harbol_string_add_char(buf, esc);
 			} else {
 				switch( esc ) {
-					case 'a': harbol_string_add_char(buf, '\a'); break;
-					case 'r': harbol_string_add_char(buf, '\r'); break;
-					case 'b': harbol_string_add_char(buf, '\b'); break;
-					case 't': harbol_string_add_char(buf, '\t'); break;
-					case 'v': harbol_string_add_char(buf, '\v'); break;
-					case 'n': harbol_string_add_char(buf, '\n'); break;
-					case 'N': harbol_string_add_char(buf, '\n'); break;
-					case 'f': harbol_string_add_char(buf, '\f'); break;
-					case 'e': harbol_string_add_char(buf, 0x1B); break;  /// '\e' is GNU extension
+					case 'a': added &= harbol_string_add_char(buf, '\a'); break;
+					case 'r': added &= harbol_string_add_char(buf, '\r'); break;
+					case 'b': added &= harbol_string_add_char(buf, '\b'); break;
+					case 't': added &= harbol_string_add_char(buf, '\t'); break;
+					case 'v': added &= harbol_string_add_char(buf, '\v'); break;
+					case 'n': added &= harbol_string_add_char(buf, '\n'); break;
+					case 'N': added &= harbol_string_add_char(buf, '\n'); break;
+					case 'f': added &= harbol_string_add_char(buf, '\f'); break;
+					case 'e': added &= harbol_string_add_char(buf, 0x1B); break;  /// '\e' is GNU extension
 					case 'x': case 'X': {
 						str++;
 						int32_t const h = lex_hex_escape_char(str, &str);
-						if( h == -1 ) {
+						if( h == -1 || rune_byte_len(h)==0 ) {
 							result = HarbolLexBadHexChar;
 							goto lex_str_err;
 						} else {
-							write_utf8_str(buf, h);
+							added &= write_utf8_str(buf, h);
 						}
 						str--;
 						break;
@@ -1484,11 +1492,11 @@ static NO_NULL enum HarbolLexErrType _lex_str(char const str[static 1], char con
 					case '0': case '1': case '2': case '3': case '4':
 					case '5': case '6': case '7': case '8': case '9': {
 						int32_t const h = lex_octal_escape_char(str, &str);
-						if( h == -1 ) {
+						if( h == -1 || rune_byte_len(h)==0 ) {
 							result = HarbolLexBadOctalChar;
 							goto lex_str_err;
 						} else {
-							write_utf8_str(buf, h);
+							added &= write_utf8_str(buf, h);
 						}
 						str--;
 						break;
@@ -1496,26 +1504,26 @@ static NO_NULL enum HarbolLexErrType _lex_str(char const str[static 1], char con
 					case 'u': case 'U': {
 						str++;
 						int32_t const h = lex_unicode_char(str, &str, esc=='u'? sizeof(int16_t) : sizeof(int32_t));
-						if( h == -1 ) {
+						if( h == -1 || rune_byte_len(h)==0 ) {
 							result = HarbolLexBadUnicodeChar;
 							goto lex_str_err;
 						} else {
-							write_utf8_str(buf, h);
+							added &= write_utf8_str(buf, h);
 						}
 						str--;
 						break;
 					}
-					default: harbol_string_add_char(buf, esc);
+					default: added &= harbol_string_add_char(buf, esc);
 				}
 			}
 		} else {
-			harbol_string_add_char(buf, c);
+			added &= harbol_string_add_char(buf, c);
 		}
 	}
 	str++;
 lex_str_err:;
 	*end = str;
-	return result;
+	return( result==HarbolLexNoErr && !added )? HarbolLexOutOfMemory : result;
 }
 
 HARBOL_EXPORT enum HarbolLexErrType lex_c_style_str(char const str[static 1], char const **const end, struct HarbolString *const restrict buf) {
-- 
2.43.0


From e778062b826f2e84ae09900e82488de4dacc177d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:35 +0000
Subject: [PATCH 55/84] fix: convert_runes_to_base_int was declared but never
 defined

---
 lex/lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.c b/lex/lex.c
index 5d6b8a9..cc26bd4 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1696,7 +1696,7 @@ HARBOL_EXPORT void lex_fix_newlines(struct HarbolString *const str, bool const r
 }
 
  
-HARBOL_EXPORT intmax_t convert_runes_to_base(
+HARBOL_EXPORT intmax_t convert_runes_to_base_int(
 	int32_t const        runes[const restrict static 1],
 	uint_fast8_t const   base,
 	int32_t const        numerals[const restrict static 1],
-- 
2.43.0


From 5cf3dfc9bdac05520993f7209ef22181b81e8541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 56/84] fix: appending text to a string holding a zero byte
 overwrote what followed that byte

---
 str/str.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index 099c8c0..9178c3e 100644
--- a/str/str.c
+++ b/str/str.c
@@ -97,7 +97,8 @@ HARBOL_EXPORT bool harbol_string_add_cstr(struct HarbolString *const restrict st
 	if( cstr_len==0 || !_harbol_resize_string(str, str->len + cstr_len) ) {
 		return false;
 	}
-	strcat(str->cstr, cstr);
+	/// the string may hold zero bytes, don't look for its end.
+	memcpy(&str->cstr[str->len - cstr_len], cstr, cstr_len + 1);
 	return true;
 }
 
-- 
2.43.0


From a24d9750c8549b7393a30411b50a3440f9b74111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:23 +0000
Subject: [PATCH 57/84] fix: rendering a config broke on quotes, escapes and
 empty strings, and lost parts when memory ran out

---
 cfg/cfg.c | 88 ++++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 61 insertions(+), 27 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 69ddaa3..21f5efb 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -541,58 +541,92 @@ HARBOL_EXPORT void harbol_cfg_free(struct HarbolMap **const cfg_ref) {
 	harbol_map_free(cfg_ref);
 }
 
-static NO_NULL void _concat_tabs(struct HarbolString *const str, size_t const tabs) {
+static NO_NULL bool _concat_tabs(struct HarbolString *const str, size_t const tabs) {
 	for( size_t i=0; i < tabs; i++ ) {
-		harbol_string_add_cstr(str, "\t");
+		if( !harbol_string_add_char(str, '\t') ) {
+			return false;
+		}
 	}
+	return true;
 }
 
-HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *const map) {
-	static size_t tabs = 0;
-	struct HarbolString cfg_str = harbol_string_make(NULL, &( bool ){false});
-	struct HarbolString *str = &cfg_str;
-	for( size_t i=0; i < map->len; i++ ) {
+/// adds text as a quoted string that lexes back to the same text.
+static NO_NULL bool _concat_quoted(struct HarbolString *const str, char const text[const], size_t const len) {
+	bool res = harbol_string_add_char(str, '"'), was_octal = false;
+	for( size_t i=0; i < len && res; i++ ) {
+		int_fast8_t const c = text[i];
+		bool is_octal_esc = false;
+		switch( c ) {
+			case '"':  res = harbol_string_add_cstr(str, "\\\""); break;
+			case '\\': res = harbol_string_add_cstr(str, "\\\\"); break;
+			case '\n': res = harbol_string_add_cstr(str, "\\n");  break;
+			case '\r': res = harbol_string_add_cstr(str, "\\r");  break;
+			case '\t': res = harbol_string_add_cstr(str, "\\t");  break;
+			default:
+				/// digits after an octal escape would become part of it.
+				is_octal_esc = (c >= 0 && c < ' ') || c==0x7F || (was_octal && is_octal(c));
+				res = is_octal_esc? harbol_string_format(str, false, "\\%o", ( unsigned )(c)) : harbol_string_add_char(str, c);
+				break;
+		}
+		was_octal = is_octal_esc;
+	}
+	return res && harbol_string_add_char(str, '"');
+}
+
+static NO_NULL bool _harbol_cfg_write(struct HarbolMap const *const map, struct HarbolString *const str, size_t const tabs) {
+	bool res = true;
+	for( size_t i=0; i < map->len && res; i++ ) {
 		struct HarbolVariant const *const var = ( struct HarbolVariant const* )(map->datum[i]);
 		union ConfigVal const cv = { var->data };
 		
-		_concat_tabs(str, tabs);
-		harbol_string_format(str, false, "\"%s\": ", ( char const* )(map->keys[i]));
+		res = _concat_tabs(str, tabs)
+			&& _concat_quoted(str, ( char const* )(map->keys[i]), map->keylens[i] - 1)
+			&& harbol_string_add_cstr(str, ": ");
+		if( !res ) {
+			break;
+		}
 		switch( var->tag ) {
 			case HarbolCfgType_Null:
-				harbol_string_add_cstr(str, "null\n");
+				res = harbol_string_add_cstr(str, "null\n");
 				break;
-			case HarbolCfgType_Map: {
-				harbol_string_add_cstr(str, "{\n");
-				tabs++;
-				struct HarbolString inner_str = harbol_cfg_to_str(*cv.section);
-				if( !harbol_string_empty(&inner_str) ) {
-					harbol_string_add_str(str, &inner_str);
-				}
-				harbol_string_clear(&inner_str);
-				_concat_tabs(str, --tabs);
-				harbol_string_add_cstr(str, "}\n");
+			case HarbolCfgType_Map:
+				res = harbol_string_add_cstr(str, "{\n")
+					&& _harbol_cfg_write(*cv.section, str, tabs + 1)
+					&& _concat_tabs(str, tabs)
+					&& harbol_string_add_cstr(str, "}\n");
 				break;
-			}
 			case HarbolCfgType_String:
-				harbol_string_format(str, false, "\"%s\"\n", (*cv.str)->cstr);
+				res = _concat_quoted(str, (*cv.str)->cstr==NULL? "" : (*cv.str)->cstr, (*cv.str)->len)
+					&& harbol_string_add_char(str, '\n');
 				break;
 			case HarbolCfgType_Float:
-				harbol_string_format(str, false, "%" PRIfMAX "\n", *cv.f);
+				/// there is no way to write down infinity or not-a-number.
+				res = isfinite(*cv.f) && harbol_string_format(str, false, "%" PRIfMAX "\n", *cv.f);
 				break;
 			case HarbolCfgType_Int:
-				harbol_string_format(str, false, "%" PRIiMAX "\n", *cv.i);
+				res = harbol_string_format(str, false, "%" PRIiMAX "\n", *cv.i);
 				break;
 			case HarbolCfgType_Bool:
-				harbol_string_add_cstr(str, *cv.b? "true\n" : "false\n");
+				res = harbol_string_add_cstr(str, *cv.b? "true\n" : "false\n");
 				break;
 			case HarbolCfgType_Color:
-				harbol_string_format(str, false, "c[ %u, %u, %u, %u ]\n", cv.c->bytes.r, cv.c->bytes.g, cv.c->bytes.b, cv.c->bytes.a);
+				res = harbol_string_format(str, false, "c[ %u, %u, %u, %u ]\n", cv.c->bytes.r, cv.c->bytes.g, cv.c->bytes.b, cv.c->bytes.a);
 				break;
 			case HarbolCfgType_Vec4D:
-				harbol_string_format(str, false, "v[ %" PRIf32 ", %" PRIf32 ", %" PRIf32 ", %" PRIf32 " ]\n", cv.v->x, cv.v->y, cv.v->z, cv.v->w);
+				res = isfinite(cv.v->x) && isfinite(cv.v->y) && isfinite(cv.v->z) && isfinite(cv.v->w)
+					&& harbol_string_format(str, false, "v[ %" PRIf32 ", %" PRIf32 ", %" PRIf32 ", %" PRIf32 " ]\n", cv.v->x, cv.v->y, cv.v->z, cv.v->w);
 				break;
 		}
 	}
+	return res;
+}
+
+/// the string is empty if the config couldn't be written down completely.
+HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *const map) {
+	struct HarbolString cfg_str = {0};
+	if( !_harbol_cfg_write(map, &cfg_str, 0) ) {
+		harbol_string_clear(&cfg_str);
+	}
 	return cfg_str;
 }
 
-- 
2.43.0


From 0f7aaade219c14908d396fa4b4c04290543cd6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:35 +0000
Subject: [PATCH 58/84] fix: saving a config reported success when the file
 could not be written

---
 cfg/cfg.c | 54 +++++++++++++-----------------------------------------
 1 file changed, 13 insertions(+), 41 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 21f5efb..ddc4640 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -874,53 +874,25 @@ HARBOL_EXPORT bool harbol_cfg_set_to_null(struct HarbolMap *const restrict cfgma
 	return true;
 }
 
-static NO_NULL void _write_tabs(FILE *const file, size_t const tabs) {
-	for( size_t i=0; i < tabs; i++ ) {
-		fputs("\t", file);
-	}
-}
-
-static NO_NULL bool _harbol_cfg_build_file(struct HarbolMap const *const map, FILE *const file, size_t const tabs) {
-	for( size_t i=0; i < map->len; i++ ) {
-		struct HarbolVariant const *const v = ( struct HarbolVariant const* )(map->datum[i]);
-		int32_t const type = v->tag;
-		_write_tabs(file, tabs);
-		/// using double pointer iterators as we need the key.
-		fprintf(file, "\"%s\": ", ( char const* )(map->keys[i]));
-		
-		union ConfigVal const cv = { v->data };
-		switch( type ) {
-			case HarbolCfgType_Null:
-				fputs("null\n", file); break;
-			case HarbolCfgType_Map:
-				fputs("{\n", file);
-				_harbol_cfg_build_file(*cv.section, file, tabs+1);
-				_write_tabs(file, tabs);
-				fputs("}\n", file);
-				break;
-			
-			case HarbolCfgType_String: fprintf(file, "\"%s\"\n", (*cv.str)->cstr);       break;
-			case HarbolCfgType_Float:  fprintf(file, "%" PRIfMAX "\n", *cv.f);           break;
-			case HarbolCfgType_Int:    fprintf(file, "%" PRIiMAX "\n", *cv.i);           break;
-			case HarbolCfgType_Bool:   fprintf(file, "%s\n", (*cv.b)? "true" : "false"); break;
-			case HarbolCfgType_Color:
-				fprintf(file, "c[ %u, %u, %u, %u ]\n", cv.c->bytes.r, cv.c->bytes.g, cv.c->bytes.b, cv.c->bytes.a); break;
-			case HarbolCfgType_Vec4D:
-				fprintf(file, "v[ %" PRIf32 ", %" PRIf32 ", %" PRIf32 ", %" PRIf32 " ]\n", cv.v->x, cv.v->y, cv.v->z, cv.v->w); break;
-		}
-	}
-	return true;
-}
-
 HARBOL_EXPORT bool harbol_cfg_build_file(struct HarbolMap const *const cfg, char const filename[static 1], bool const overwrite) {
+	/// write everything down first so a failure doesn't cost the old file.
+	struct HarbolString cfg_str = {0};
+	if( !_harbol_cfg_write(cfg, &cfg_str, 0) ) {
+		fputs("harbol_cfg_build_file :: unable to write down config.\n", stderr);
+		harbol_string_clear(&cfg_str);
+		return false;
+	}
+	
 	FILE *restrict cfgfile = fopen(filename, overwrite? "w+" : "a+");
 	if( cfgfile==NULL ) {
 		fputs("harbol_cfg_build_file :: unable to create file.\n", stderr);
+		harbol_string_clear(&cfg_str);
 		return false;
 	}
-	bool const result = _harbol_cfg_build_file(cfg, cfgfile, 0);
-	fclose(cfgfile); cfgfile=NULL;
-	return result;
+	bool const written = cfg_str.len==0 || fwrite(cfg_str.cstr, sizeof *cfg_str.cstr, cfg_str.len, cfgfile)==cfg_str.len;
+	bool const closed  = fclose(cfgfile)==0; cfgfile=NULL;
+	harbol_string_clear(&cfg_str);
+	return written && closed;
 }
 
 
-- 
2.43.0


From 54cd83f459ec764bb88315beb5726f509760b180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:54 +0000
Subject: [PATCH 59/84] fix: rendering a config took a failed number format for
 a success

---
 cfg/cfg.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index ddc4640..1aadb26 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -565,7 +565,7 @@ static NO_NULL bool _concat_quoted(struct HarbolString *const str, char const te
 			default:
 				/// digits after an octal escape would become part of it.
 				is_octal_esc = (c >= 0 && c < ' ') || c==0x7F || (was_octal && is_octal(c));
-				res = is_octal_esc? harbol_string_format(str, false, "\\%o", ( unsigned )(c)) : harbol_string_add_char(str, c);
+				res = is_octal_esc? harbol_string_format(str, false, "\\%o", ( unsigned )(c)) >= 0 : harbol_string_add_char(str, c);
 				break;
 		}
 		was_octal = is_octal_esc;
@@ -601,20 +601,20 @@ static NO_NULL bool _harbol_cfg_write(struct HarbolMap const *const map, struct
 				break;
 			case HarbolCfgType_Float:
 				/// there is no way to write down infinity or not-a-number.
-				res = isfinite(*cv.f) && harbol_string_format(str, false, "%" PRIfMAX "\n", *cv.f);
+				res = isfinite(*cv.f) && harbol_string_format(str, false, "%" PRIfMAX "\n", *cv.f) >= 0;
 				break;
 			case HarbolCfgType_Int:
-				res = harbol_string_format(str, false, "%" PRIiMAX "\n", *cv.i);
+				res = harbol_string_format(str, false, "%" PRIiMAX "\n", *cv.i) >= 0;
 				break;
 			case HarbolCfgType_Bool:
 				res = harbol_string_add_cstr(str, *cv.b? "true\n" : "false\n");
 				break;
 			case HarbolCfgType_Color:
-				res = harbol_string_format(str, false, "c[ %u, %u, %u, %u ]\n", cv.c->bytes.r, cv.c->bytes.g, cv.c->bytes.b, cv.c->bytes.a);
+				res = harbol_string_format(str, false, "c[ %u, %u, %u, %u ]\n", cv.c->bytes.r, cv.c->bytes.g, cv.c->bytes.b, cv.c->bytes.a) >= 0;
 				break;
 			case HarbolCfgType_Vec4D:
 				res = isfinite(cv.v->x) && isfinite(cv.v->y) && isfinite(cv.v->z) && isfinite(cv.v->w)
-					&& harbol_string_format(str, false, "v[ %" PRIf32 ", %" PRIf32 ", %" PRIf32 ", %" PRIf32 " ]\n", cv.v->x, cv.v->y, cv.v->z, cv.v->w);
+					&& harbol_string_format(str, false, "v[ %" PRIf32 ", %" PRIf32 ", %" PRIf32 ", %" PRIf32 " ]\n", cv.v->x, cv.v->y, cv.v->z, cv.v->w) >= 0;
 				break;
 		}
 	}
-- 
2.43.0


From ffaeb3d7b02845db285b1dee8a0cc5439204c3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:42 +0000
Subject: [PATCH 60/84] fix: fixing up new lines could not tell that it ran out
 of memory

---
 lex/lex.c | 14 ++++++++------
 lex/lex.h |  3 ++-
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/lex/lex.c b/lex/lex.c
index cc26bd4..21acf4b 100644
--- a/lex/lex.c
+++ b/lex/lex.c
@@ -1687,12 +1687,14 @@ lex_custom_lit_err:;
 	return res;
 }
 
-HARBOL_EXPORT void lex_fix_newlines(struct HarbolString *const str, bool const replace_tabs_w_spaces) {
-	harbol_string_replace_cstr(str, "\r\n", "\n", -1);
-	harbol_string_replace_cstr(str, "\r",   "\n", -1);
-	if( replace_tabs_w_spaces ) {
-		harbol_string_replace_cstr(str, "\t", "    ", -1);
-	}
+static NO_NULL bool _replace_every(struct HarbolString *const str, char const to_replace[const restrict static 1], char const with[const restrict static 1]) {
+	return harbol_string_count_cstr(str, to_replace)==0 || harbol_string_replace_cstr(str, to_replace, with, SIZE_MAX);
+}
+
+HARBOL_EXPORT bool lex_fix_newlines(struct HarbolString *const str, bool const replace_tabs_w_spaces) {
+	return _replace_every(str, "\r\n", "\n")
+		&& _replace_every(str, "\r", "\n")
+		&& (!replace_tabs_w_spaces || _replace_every(str, "\t", "    "));
 }
 
  
diff --git a/lex/lex.h b/lex/lex.h
index 288823f..729ae27 100644
--- a/lex/lex.h
+++ b/lex/lex.h
@@ -182,7 +182,8 @@ struct LexingRules {
 HARBOL_EXPORT NO_NULL bool lex_custom_number(char const str[], char const **end, struct LexingRules const *rules, struct HarbolString *buf);
 
 
-HARBOL_EXPORT NO_NULL void lex_fix_newlines(struct HarbolString *str, bool replace_tabs_w_spaces);
+/// returns false if memory ran out, the text is then only partly fixed up.
+HARBOL_EXPORT NO_NULL bool lex_fix_newlines(struct HarbolString *str, bool replace_tabs_w_spaces);
 
 /// int version can handle minus sign in the string.
 HARBOL_EXPORT NO_NULL intmax_t  convert_runes_to_base_int(int32_t const runes[], uint_fast8_t base, int32_t const numerals[], bool *res);
-- 
2.43.0


From b20b2c00fd07018f07b1a6cfa79175ab09608031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 61/84] fix: parsing a config lost or leaked settings when
 memory ran out and crashed on empty strings

---
 cfg/cfg.c | 138 +++++++++++++++++++++++++++++++-----------------------
 1 file changed, 80 insertions(+), 58 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 1aadb26..1618a9e 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -22,8 +22,25 @@ typedef struct {
 	intmax_t   *local_iota, *local_enum, global_iota, global_enum;
 	char const *cfg_filename;
 	uint32_t    curr_line;
+	bool        out_of_mem; /// settings got lost, the config can't be used.
 } HarbolCfgState;
 
+static NO_NULL bool _out_of_mem(HarbolCfgState *const restrict parse_state, char const what[const restrict static 1]) {
+	parse_state->out_of_mem = true;
+	harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "memory error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: out of memory for %s.\n", what);
+	return false;
+}
+
+static NO_NULL bool _insert_value(struct HarbolMap *const restrict map, struct HarbolString const *const restrict key, void const *const val, size_t const size, enum HarbolCfgType const type, HarbolCfgState *const restrict parse_state) {
+	bool made = false;
+	struct HarbolVariant var = harbol_variant_make(val, size, type, &made);
+	if( made && harbol_map_insert(map, key->cstr, key->len+1, &var, sizeof var) ) {
+		return true;
+	}
+	harbol_variant_clear(&var);
+	return _out_of_mem(parse_state, "a value");
+}
+
 
 static NO_NULL bool skip_ws_and_comments(char const **strref, HarbolCfgState *const restrict parse_state) {
 	if( *strref==NULL || **strref==0 ) {
@@ -56,8 +73,8 @@ static bool NO_NULL _lex_number(char const **restrict strref, struct HarbolStrin
 	if( *strref==NULL || **strref==0 ) {
 		return false;
 	}
-	if( **strref=='-' || **strref=='+' ) {
-		harbol_string_add_char(str, *(*strref)++);
+	if( (**strref=='-' || **strref=='+') && !harbol_string_add_char(str, *(*strref)++) ) {
+		return _out_of_mem(parse_state, "a number");
 	}
 	if( !is_decimal(**strref) && **strref!='.' ) {
 		harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: invalid initial numeric digit: '%c'\n", **strref);
@@ -67,7 +84,9 @@ static bool NO_NULL _lex_number(char const **restrict strref, struct HarbolStrin
 	bool is_float = false;
 	char const *end = NULL;
 	int const res = lex_c_style_number(*strref, &end, str, &is_float);
-	if( res > HarbolLexNoErr  ) {
+	if( res==HarbolLexOutOfMemory ) {
+		return _out_of_mem(parse_state, "a number");
+	} else if( res > HarbolLexNoErr  ) {
 		harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: invalid number '%s', %s\n", str->cstr, lex_get_err(res));
 		return false;
 	}
@@ -156,7 +175,10 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 	
 	struct HarbolString keystr = {0};
 	int const str_res = lex_c_style_str(*cfgcoderef, cfgcoderef, &keystr);
-	if( str_res > HarbolLexNoErr ) {
+	if( str_res==HarbolLexOutOfMemory ) {
+		harbol_string_clear(&keystr);
+		return _out_of_mem(parse_state, "a key");
+	} else if( str_res > HarbolLexNoErr ) {
 		harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: invalid string key '%s' %s.\n", keystr.cstr, lex_get_err(str_res));
 		harbol_string_clear(&keystr);
 		return false;
@@ -178,12 +200,13 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			return false;
 		}
 		
-		struct HarbolString file_path = harbol_string_make(NULL, &( bool ){false});
+		struct HarbolString file_path = {0};
 		int const str_res = lex_c_style_str(*cfgcoderef, cfgcoderef, &file_path);
 		if( str_res > HarbolLexNoErr ) {
 			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: invalid string value '%s' for key '%s' %s.\n", file_path.cstr, keystr.cstr, lex_get_err(str_res));
 			harbol_string_clear(&keystr);
-			return false;
+			harbol_string_clear(&file_path);
+			return( str_res==HarbolLexOutOfMemory )? _out_of_mem(parse_state, "a file path") : false;
 		}
 		
 		harbol_string_clear(&keystr);
@@ -194,8 +217,10 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			harbol_string_clear(&file_path);
 			return true;
 		} else {
-			struct HarbolVariant var = harbol_variant_make(&included_cfg, sizeof included_cfg, HarbolCfgType_Map, &( bool ){0});
-			bool const inclusion_res = harbol_map_insert(map, file_path.cstr, file_path.len+1, &var, sizeof var);
+			bool const inclusion_res = _insert_value(map, &file_path, &included_cfg, sizeof included_cfg, HarbolCfgType_Map, parse_state);
+			if( !inclusion_res ) {
+				harbol_cfg_free(&included_cfg);
+			}
 			harbol_string_clear(&file_path);
 			return inclusion_res;
 		}
@@ -231,18 +256,13 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		
 		struct HarbolMap *subsection = harbol_map_new(4);
 		if( subsection==NULL ) {
-			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "memory error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: unable to allocate subsection for key '%s'.\n", keystr.cstr);
-			harbol_string_clear(&keystr);
-			return false;
-		}
-		
-		res = harbol_cfg_parse_section(subsection, cfgcoderef, parse_state);
-		struct HarbolVariant var = harbol_variant_make(&subsection, sizeof subsection, HarbolCfgType_Map, &( bool ){0});
-		if( !harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var) ) {
-			harbol_write_msg(NULL, stderr, parse_state->cfg_filename, "memory warning", COLOR_MAGENTA, &parse_state->curr_line, NULL, "Harbol Config Parser :: some how failed to insert subsection for key '%s', destroying...\n", keystr.cstr);
-			harbol_cfg_free(&subsection);
-			harbol_string_clear(&keystr);
-			harbol_variant_clear(&var);
+			_out_of_mem(parse_state, "a subsection");
+		} else {
+			res = harbol_cfg_parse_section(subsection, cfgcoderef, parse_state);
+			if( !_insert_value(map, &keystr, &subsection, sizeof subsection, HarbolCfgType_Map, parse_state) ) {
+				harbol_cfg_free(&subsection);
+				res = false;
+			}
 		}
 		parse_state->local_iota = old_iota;
 		parse_state->local_enum = old_enum;
@@ -250,18 +270,19 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		/// string value.
 		struct HarbolString *str = harbol_string_new(NULL);
 		if( str==NULL ) {
-			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "memory error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: unable to allocate string value for key '%s'.\n", keystr.cstr);
 			harbol_string_clear(&keystr);
-			return false;
+			return _out_of_mem(parse_state, "a string value");
 		}
 		
 		int const str_res = lex_c_style_str(*cfgcoderef, cfgcoderef, str);
 		if( str_res > HarbolLexNoErr ) {
 			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: invalid string value '%s' for key '%s' %s.\n", str->cstr, keystr.cstr, lex_get_err(str_res));
 			harbol_string_clear(&keystr);
-			return false;
+			harbol_string_free(&str);
+			return( str_res==HarbolLexOutOfMemory )? _out_of_mem(parse_state, "a string value") : false;
 		}
-		char *math_marker = strstr(str->cstr, "<math");
+		/// an empty string has no text at all.
+		char *math_marker = harbol_string_empty(str)? NULL : strstr(str->cstr, "<math");
 		if( math_marker != NULL ) {
 			char *const math_start = math_marker + sizeof "<math"-1;
 			char *const math_end = strchr(math_start, '>');
@@ -273,12 +294,18 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 				*math_end = '>';
 			}
 			char *number = sprintf_alloc("%" PRIfMAX "", expr_result);
-			harbol_string_replace_range(str, math_marker - str->cstr, ( size_t )(math_end - str->cstr), number);
+			bool const replaced = number != NULL && harbol_string_replace_range(str, math_marker - str->cstr, ( size_t )(math_end - str->cstr), number);
 			free(number); number = NULL;
+			if( !replaced ) {
+				harbol_string_clear(&keystr);
+				harbol_string_free(&str);
+				return _out_of_mem(parse_state, "a math result");
+			}
+		}
+		res = _insert_value(map, &keystr, &str, sizeof str, HarbolCfgType_String, parse_state);
+		if( !res ) {
+			harbol_string_free(&str);
 		}
-		struct HarbolVariant var = harbol_variant_make(&str, sizeof str, HarbolCfgType_String, &( bool ){0});
-		harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
-		res = true;
 	} else if( **cfgcoderef=='c' || **cfgcoderef=='v' ) {
 		/// color or vector value!
 		char const valtype = *(*cfgcoderef)++;
@@ -302,7 +329,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			struct HarbolString numstr = {0};
 			enum HarbolCfgType type = HarbolCfgType_Null;
 			bool const result = _lex_number(cfgcoderef, &numstr, &type, parse_state);
-			if( iterations < 4 ) {
+			if( result && iterations < 4 ) {
 				if( valtype=='c' ) {
 					matrix_value.color.array[iterations] = ( uint8_t )(strtoul(numstr.cstr, NULL, 0));
 				} else {
@@ -330,10 +357,9 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		}
 		(*cfgcoderef)++;
 		
-		struct HarbolVariant var = (valtype=='c')?
-			  harbol_variant_make(&matrix_value.color, sizeof matrix_value.color, HarbolCfgType_Color, &( bool ){0})
-			: harbol_variant_make(&matrix_value.vec4d, sizeof matrix_value.vec4d, HarbolCfgType_Vec4D, &( bool ){0});
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+		res = (valtype=='c')?
+			  _insert_value(map, &keystr, &matrix_value.color, sizeof matrix_value.color, HarbolCfgType_Color, parse_state)
+			: _insert_value(map, &keystr, &matrix_value.vec4d, sizeof matrix_value.vec4d, HarbolCfgType_Vec4D, parse_state);
 	} else if( **cfgcoderef=='t' ) {
 		/// true bool value.
 		if( strncmp("true", *cfgcoderef, sizeof("true")-1) ) {
@@ -342,8 +368,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			return false;
 		}
 		*cfgcoderef += sizeof("true") - 1;
-		struct HarbolVariant var = harbol_variant_make(&( bool ){true}, sizeof(bool), HarbolCfgType_Bool, &( bool ){0});
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+		res = _insert_value(map, &keystr, &( bool ){true}, sizeof(bool), HarbolCfgType_Bool, parse_state);
 	} else if( **cfgcoderef=='f' ) {
 		/// false bool value
 		if( strncmp("false", *cfgcoderef, sizeof("false")-1) ) {
@@ -352,8 +377,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			return false;
 		}
 		*cfgcoderef += sizeof("false") - 1;
-		struct HarbolVariant var = harbol_variant_make(&( bool ){false}, sizeof(bool), HarbolCfgType_Bool, &( bool ){0});
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+		res = _insert_value(map, &keystr, &( bool ){false}, sizeof(bool), HarbolCfgType_Bool, parse_state);
 	} else if( **cfgcoderef=='n' ) {
 		/// null value.
 		if( strncmp("null", *cfgcoderef, sizeof("null")-1) ) {
@@ -362,8 +386,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			return false;
 		}
 		*cfgcoderef += sizeof("null") - 1;
-		struct HarbolVariant var = harbol_variant_make(&( char ){0}, sizeof(char), HarbolCfgType_Null, &( bool ){0});
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
+		res = _insert_value(map, &keystr, &( char ){0}, sizeof(char), HarbolCfgType_Null, parse_state);
 	} else if( **cfgcoderef=='I' ) {
 		/// local iota value.
 		if( strncmp("IOTA", *cfgcoderef, sizeof("IOTA")-1) ) {
@@ -372,9 +395,8 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			return false;
 		}
 		*cfgcoderef += sizeof("IOTA") - 1;
-		struct HarbolVariant var = harbol_variant_make(&parse_state->global_iota, sizeof parse_state->global_iota, HarbolCfgType_Int, &( bool ){0});
+		res = _insert_value(map, &keystr, &parse_state->global_iota, sizeof parse_state->global_iota, HarbolCfgType_Int, parse_state);
 		parse_state->global_iota++;
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
 	} else if( **cfgcoderef=='i' ) {
 		/// local iota value.
 		if( strncmp("iota", *cfgcoderef, sizeof("iota")-1) ) {
@@ -383,9 +405,8 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			return false;
 		}
 		*cfgcoderef += sizeof("iota") - 1;
-		struct HarbolVariant var = harbol_variant_make(parse_state->local_iota, sizeof *parse_state->local_iota, HarbolCfgType_Int, &( bool ){0});
+		res = _insert_value(map, &keystr, parse_state->local_iota, sizeof *parse_state->local_iota, HarbolCfgType_Int, parse_state);
 		++*parse_state->local_iota;
-		res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
 	} else if( is_decimal(**cfgcoderef) || **cfgcoderef=='.' || **cfgcoderef=='-' || **cfgcoderef=='+' ) {
 		/// numeric value.
 		res = harbol_cfg_parse_number(map, &keystr, cfgcoderef, parse_state);
@@ -397,16 +418,15 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		/// <FILE> is the name of the config file we're parsing.
 		size_t const file_cstr_len = sizeof("<file>") - 1;
 		if( !strncmp("<file>", *cfgcoderef, file_cstr_len) || !strncmp("<FILE>", *cfgcoderef, file_cstr_len) ) {
-			struct HarbolString *str = harbol_string_new(NULL);
+			struct HarbolString *str = harbol_string_new(( parse_state->cfg_filename==NULL )? "C-string-cfg" : parse_state->cfg_filename);
 			if( str==NULL ) {
-				harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "memory error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: unable to allocate string value for key '%s'.\n", keystr.cstr);
 				harbol_string_clear(&keystr);
-				return false;
+				return _out_of_mem(parse_state, "a file name");
+			}
+			res = _insert_value(map, &keystr, &str, sizeof str, HarbolCfgType_String, parse_state);
+			if( !res ) {
+				harbol_string_free(&str);
 			}
-			
-			harbol_string_copy_cstr(str, ( parse_state->cfg_filename==NULL )? "C-string-cfg" : parse_state->cfg_filename);
-			struct HarbolVariant var = harbol_variant_make(&str, sizeof str, HarbolCfgType_String, &( bool ){0});
-			res = harbol_map_insert(map, keystr.cstr, keystr.len+1, &var, sizeof var);
 			*cfgcoderef += file_cstr_len;
 		} else {
 			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: unknown control/command '%c'.\n", (*cfgcoderef)[1]);
@@ -430,16 +450,16 @@ static bool harbol_cfg_parse_number(struct HarbolMap *const restrict map, struct
 		return false;
 	}
 	
-	struct HarbolVariant var = {0};
+	bool res = false;
 	if( type==HarbolCfgType_Float ) {
-		floatmax_t f = lex_string_to_float(&numstr);
-		var = harbol_variant_make(&f, sizeof f, type, &( bool ){0});
+		floatmax_t const f = lex_string_to_float(&numstr);
+		res = _insert_value(map, key, &f, sizeof f, type, parse_state);
 	} else {
-		intmax_t i = strtoll(numstr.cstr, NULL, 0);
-		var = harbol_variant_make(&i, sizeof i, HarbolCfgType_Int, &( bool ){0});
+		intmax_t const i = strtoll(numstr.cstr, NULL, 0);
+		res = _insert_value(map, key, &i, sizeof i, type, parse_state);
 	}
 	harbol_string_clear(&numstr);
-	return harbol_map_insert(map, key->cstr, key->len+1, &var, sizeof var);
+	return res;
 }
 
 /// section = '{' <keyval> '}' ;
@@ -476,6 +496,9 @@ static struct HarbolMap *_harbol_cfg_parse(char const cfgcode[static 1], HarbolC
 	parse_state->local_iota = &( intmax_t ){0};
 	parse_state->local_enum = &( intmax_t ){0};
 	while( harbol_cfg_parse_key_val(objs, &iter, parse_state) );
+	if( parse_state->out_of_mem ) {
+		harbol_cfg_free(&objs);
+	}
 	return objs;
 }
 
@@ -495,9 +518,8 @@ HARBOL_EXPORT struct HarbolMap *harbol_cfg_parse_file(char const filename[static
 		return NULL;
 	}
 	/// fix up new lines and tabs.
-	lex_fix_newlines(&cfg, true);
 	parse_state.cfg_filename = filename;
-	struct HarbolMap *const restrict objs = _harbol_cfg_parse(cfg.cstr, &parse_state);
+	struct HarbolMap *const objs = lex_fix_newlines(&cfg, true)? _harbol_cfg_parse(cfg.cstr, &parse_state) : NULL;
 	harbol_string_clear(&cfg);
 	return objs;
 }
-- 
2.43.0


From cf9595a991e77258d5fa98d2ea092a15b6bb5a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:25 +0000
Subject: [PATCH 62/84] fix: markers in config keys broke the key, clashed with
 other keys or were kept when memory ran out

---
 cfg/cfg.c | 66 +++++++++++++++++++++++++------------------------------
 1 file changed, 30 insertions(+), 36 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 1618a9e..9c158b3 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -129,38 +129,44 @@ static void _harbol_cfg_math_var_func(
 	harbol_math_default_var_func(var_name, var_len, value, math_func, data, data_len, is_func);
 }
 
-static NO_NULL floatmax_t _harbol_cfg_parse_inline_math(struct HarbolString *const str, HarbolCfgState *const parse_state, bool const replace_str_with_res) {
-	union {
-		uintmax_t  u;
-		floatmax_t f;
-	} const c = { -1ULL };
+/// replaces a math expression with its result, false if memory ran out.
+static NO_NULL bool _harbol_cfg_parse_inline_math(struct HarbolString *const str, HarbolCfgState *const parse_state) {
 	char const *math_str = strstr(str->cstr, "<math");
 	if( math_str==NULL ) {
-		return c.f;
+		return true;
 	}
 	char const *expr_start = math_str + sizeof "<math" - 1;
 	char *math_end = strchr(expr_start, '>');
 	if( math_end==NULL ) {
 		/// missing ending '>'. Forgot it?
 		harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: ending '>' for math expression\n");
-		return c.f;
+		return true;
 	}
 	math_end[0] = 0; /// temporarily set it as null terminator.
 	floatmax_t const result = harbol_math_parse_expr(expr_start, _harbol_cfg_math_var_func, parse_state, sizeof *parse_state);
 	math_end[0] = '>';
-	if( replace_str_with_res ) {
-		size_t const start = ( size_t )(math_str - str->cstr);
-		char result_str[30] = {0};
-		snprintf(&result_str[0],  sizeof result_str - 1,  "%" PRIfMAX "", result);
-		harbol_string_replace_range(str, start, (math_end==NULL)? SIZE_MAX : ( size_t )(math_end - math_str), result_str);
-	}
-	return result;
+	char *result_str = sprintf_alloc("%" PRIfMAX "", result);
+	bool const replaced = result_str != NULL && harbol_string_replace_range(str, ( size_t )(math_str - str->cstr), ( size_t )(math_end - str->cstr), result_str);
+	free(result_str); result_str = NULL;
+	return replaced || _out_of_mem(parse_state, "a math result");
 }
 
 static inline bool _cfgmath_end_and_newline(int32_t const c) {
 	return c != '>' && c != '\n';
 }
 
+/// replaces an enum marker with its counter, false if memory ran out.
+static NO_NULL bool _replace_enum(struct HarbolString *const restrict str, char const marker[const restrict static 1], intmax_t *const restrict counter, HarbolCfgState *const restrict parse_state) {
+	if( harbol_string_count_cstr(str, marker)==0 ) {
+		return true;
+	}
+	char *counter_str = sprintf_alloc("%" PRIiMAX "", *counter);
+	bool const replaced = counter_str != NULL && harbol_string_replace_cstr(str, marker, counter_str, SIZE_MAX);
+	free(counter_str); counter_str = NULL;
+	++*counter;
+	return replaced || _out_of_mem(parse_state, "an enum key");
+}
+
 /// keyval = ( string | "<include>" | "<enum>" | math ) [':'] ( value | section ) [','] .
 static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char const **cfgcoderef, HarbolCfgState *const restrict parse_state) {
 	if( *cfgcoderef==NULL ) {
@@ -186,10 +192,6 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: empty string key '%s'.\n", keystr.cstr);
 		harbol_string_clear(&keystr);
 		return false;
-	} else if( harbol_map_has_key(map, keystr.cstr, keystr.len+1) ) {
-		harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: duplicate string key '%s'.\n", keystr.cstr);
-		harbol_string_clear(&keystr);
-		return false;
 	}
 	skip_ws_and_comments(cfgcoderef, parse_state);
 	
@@ -225,25 +227,17 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			return inclusion_res;
 		}
 	} else {
-		intmax_t const local_enum_value    = *parse_state->local_enum;
-		intmax_t const global_enum_value   = parse_state->global_enum;
-		size_t const num_local_enum_chars  = base_10_num_chars_int(local_enum_value);
-		size_t const num_global_enum_chars = base_10_num_chars_int(global_enum_value);
-		
-		char local_enum_str[num_local_enum_chars];
-		memset(&local_enum_str[0], 0, num_local_enum_chars);
-		snprintf(&local_enum_str[0],  num_local_enum_chars,  "%" PRIiMAX "", local_enum_value);
-		
-		char global_enum_str[num_global_enum_chars];
-		memset(&global_enum_str[0], 0, num_global_enum_chars);
-		snprintf(&global_enum_str[0], num_global_enum_chars, "%" PRIiMAX "", global_enum_value);
-		if( harbol_string_replace_cstr(&keystr, "<enum>", local_enum_str, SIZE_MAX) ) {
-			++*parse_state->local_enum;
-		}
-		if( harbol_string_replace_cstr(&keystr, "<ENUM>", global_enum_str, SIZE_MAX) ) {
-			++parse_state->global_enum;
+		bool const replaced = _replace_enum(&keystr, "<enum>", parse_state->local_enum, parse_state)
+			&& _replace_enum(&keystr, "<ENUM>", &parse_state->global_enum, parse_state)
+			&& _harbol_cfg_parse_inline_math(&keystr, parse_state);
+		if( !replaced ) {
+			harbol_string_clear(&keystr);
+			return false;
+		} else if( harbol_map_has_key(map, keystr.cstr, keystr.len+1) ) {
+			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: duplicate string key '%s'.\n", keystr.cstr);
+			harbol_string_clear(&keystr);
+			return false;
 		}
-		_harbol_cfg_parse_inline_math(&keystr, parse_state, true);
 	}
 	
 	bool res = false;
-- 
2.43.0


From a9907862f9d8e99f4665f0aedb9fba2fc8230c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:43 +0000
Subject: [PATCH 63/84] fix: config numbers with digit separators or in binary
 were read as other numbers

---
 cfg/cfg.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 9c158b3..77f976b 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -69,6 +69,28 @@ static NO_NULL bool skip_ws_and_comments(char const **strref, HarbolCfgState *co
 	}
 }
 
+/// the text of a number keeps its digit separators and base prefix.
+static NO_NULL void _remove_separators(struct HarbolString *const str) {
+	size_t len = 0;
+	for( size_t i=0; i < str->len; i++ ) {
+		if( str->cstr[i] != '\'' ) {
+			str->cstr[len++] = str->cstr[i];
+		}
+	}
+	str->cstr[len] = 0;
+	str->len = len;
+}
+
+static NO_NULL intmax_t _string_to_int(struct HarbolString const *const str) {
+	bool const negative = str->cstr[0]=='-';
+	char const *const digits = &str->cstr[negative || str->cstr[0]=='+'];
+	if( digits[0]=='0' && (digits[1]=='b' || digits[1]=='B') ) {
+		intmax_t const i = strtoll(&digits[2], NULL, 2);
+		return negative? -i : i;
+	}
+	return strtoll(str->cstr, NULL, 0);
+}
+
 static bool NO_NULL _lex_number(char const **restrict strref, struct HarbolString *const restrict str, enum HarbolCfgType *const typeref, HarbolCfgState *const restrict parse_state) {
 	if( *strref==NULL || **strref==0 ) {
 		return false;
@@ -91,6 +113,7 @@ static bool NO_NULL _lex_number(char const **restrict strref, struct HarbolStrin
 		return false;
 	}
 	*strref = end;
+	_remove_separators(str);
 	*typeref = (is_float)? HarbolCfgType_Float : HarbolCfgType_Int;
 	return str->len > 0;
 }
@@ -325,7 +348,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 			bool const result = _lex_number(cfgcoderef, &numstr, &type, parse_state);
 			if( result && iterations < 4 ) {
 				if( valtype=='c' ) {
-					matrix_value.color.array[iterations] = ( uint8_t )(strtoul(numstr.cstr, NULL, 0));
+					matrix_value.color.array[iterations] = ( uint8_t )(_string_to_int(&numstr));
 				} else {
 					switch( iterations ) {
 						case 0: matrix_value.vec4d.x = lex_string_to_float(&numstr); break;
@@ -449,7 +472,7 @@ static bool harbol_cfg_parse_number(struct HarbolMap *const restrict map, struct
 		floatmax_t const f = lex_string_to_float(&numstr);
 		res = _insert_value(map, key, &f, sizeof f, type, parse_state);
 	} else {
-		intmax_t const i = strtoll(numstr.cstr, NULL, 0);
+		intmax_t const i = _string_to_int(&numstr);
 		res = _insert_value(map, key, &i, sizeof i, type, parse_state);
 	}
 	harbol_string_clear(&numstr);
-- 
2.43.0


From 7417c1d3b0f71830cf3e8bd706785bbd7626e390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 64/84] fix: a config that includes itself or nests without end
 overran the stack

---
 cfg/cfg.c | 62 ++++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 55 insertions(+), 7 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 77f976b..d3f6049 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -17,8 +17,14 @@ math    = "<math" expression ">" . /// See HarbolMath module for math parser's g
 ```
  */
 
-typedef struct {
-	size_t      errc;
+enum {
+	/// sections and included files can't be nested deeper than this.
+	HARBOL_CFG_MAX_DEPTH = 256,
+};
+
+typedef struct HarbolCfgState {
+	struct HarbolCfgState const *parent; /// the config that includes this one.
+	size_t      errc, depth;
 	intmax_t   *local_iota, *local_enum, global_iota, global_enum;
 	char const *cfg_filename;
 	uint32_t    curr_line;
@@ -118,6 +124,7 @@ static bool NO_NULL _lex_number(char const **restrict strref, struct HarbolStrin
 	return str->len > 0;
 }
 
+static NEVER_NULL(1) struct HarbolMap *_harbol_cfg_parse_file(char const filename[], HarbolCfgState *parent);
 static NO_NULL bool harbol_cfg_parse_section(struct HarbolMap *cfg, char const **code_ref, HarbolCfgState *parse_state);
 static NO_NULL bool harbol_cfg_parse_number(struct HarbolMap *cfg, struct HarbolString const *key, char const **code_ref, HarbolCfgState *parse_state);
 
@@ -235,12 +242,18 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		}
 		
 		harbol_string_clear(&keystr);
-		struct HarbolMap *included_cfg = harbol_cfg_parse_file(file_path.cstr);
+		if( !harbol_string_empty(&file_path) && harbol_map_has_key(map, file_path.cstr, file_path.len+1) ) {
+			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: duplicate string key '%s'.\n", file_path.cstr);
+			harbol_string_clear(&file_path);
+			return false;
+		}
+		
+		struct HarbolMap *included_cfg = harbol_string_empty(&file_path)? NULL : _harbol_cfg_parse_file(file_path.cstr, parse_state);
 		if( included_cfg==NULL ) {
-			/// if we failed somehow, warn, and set the value as a null.
+			/// if we failed somehow, warn, and leave the file out.
 			harbol_write_msg(NULL, stderr, parse_state->cfg_filename, "parse warning", COLOR_MAGENTA, &parse_state->curr_line, NULL, "Harbol Config Parser :: failed to include cfg file '%s'\n", file_path.cstr);
 			harbol_string_clear(&file_path);
-			return true;
+			return !parse_state->out_of_mem;
 		} else {
 			bool const inclusion_res = _insert_value(map, &file_path, &included_cfg, sizeof included_cfg, HarbolCfgType_Map, parse_state);
 			if( !inclusion_res ) {
@@ -266,6 +279,12 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 	bool res = false;
 	/// it's a section!
 	if( **cfgcoderef=='{' ) {
+		if( parse_state->depth >= HARBOL_CFG_MAX_DEPTH ) {
+			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: section '%s' is nested too deep.\n", keystr.cstr);
+			harbol_string_clear(&keystr);
+			return false;
+		}
+		
 		intmax_t *const old_iota = parse_state->local_iota;
 		intmax_t *const old_enum = parse_state->local_enum;
 		parse_state->local_iota = &( intmax_t ){0};
@@ -275,7 +294,9 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		if( subsection==NULL ) {
 			_out_of_mem(parse_state, "a subsection");
 		} else {
+			parse_state->depth++;
 			res = harbol_cfg_parse_section(subsection, cfgcoderef, parse_state);
+			parse_state->depth--;
 			if( !_insert_value(map, &keystr, &subsection, sizeof subsection, HarbolCfgType_Map, parse_state) ) {
 				harbol_cfg_free(&subsection);
 				res = false;
@@ -508,6 +529,7 @@ static struct HarbolMap *_harbol_cfg_parse(char const cfgcode[static 1], HarbolC
 	char const *iter = cfgcode;
 	struct HarbolMap *objs = harbol_map_new(8);
 	if( objs==NULL ) {
+		_out_of_mem(parse_state, "the config");
 		return NULL;
 	}
 	parse_state->local_iota = &( intmax_t ){0};
@@ -519,8 +541,22 @@ static struct HarbolMap *_harbol_cfg_parse(char const cfgcode[static 1], HarbolC
 	return objs;
 }
 
-HARBOL_EXPORT struct HarbolMap *harbol_cfg_parse_file(char const filename[static 1]) {
+static struct HarbolMap *_harbol_cfg_parse_file(char const filename[static 1], HarbolCfgState *const parent) {
 	HarbolCfgState parse_state = {0};
+	parse_state.parent = parent;
+	if( parent != NULL ) {
+		parse_state.depth = parent->depth + 1;
+		if( parse_state.depth > HARBOL_CFG_MAX_DEPTH ) {
+			return NULL;
+		}
+	}
+	/// a file that includes itself would never end.
+	for( HarbolCfgState const *state = parent; state != NULL; state = state->parent ) {
+		if( state->cfg_filename != NULL && !strcmp(state->cfg_filename, filename) ) {
+			return NULL;
+		}
+	}
+	
 	FILE *restrict cfgfile = fopen(filename, "r");
 	if( cfgfile==NULL ) {
 		harbol_write_msg(&parse_state.errc, stderr, NULL, "parse error", COLOR_RED, NULL, NULL, "Harbol Config Parser :: unable to find file '%s'.\n", filename);
@@ -536,11 +572,23 @@ HARBOL_EXPORT struct HarbolMap *harbol_cfg_parse_file(char const filename[static
 	}
 	/// fix up new lines and tabs.
 	parse_state.cfg_filename = filename;
-	struct HarbolMap *const objs = lex_fix_newlines(&cfg, true)? _harbol_cfg_parse(cfg.cstr, &parse_state) : NULL;
+	struct HarbolMap *objs = NULL;
+	if( lex_fix_newlines(&cfg, true) ) {
+		objs = _harbol_cfg_parse(cfg.cstr, &parse_state);
+	} else {
+		_out_of_mem(&parse_state, "the file");
+	}
 	harbol_string_clear(&cfg);
+	if( parent != NULL ) {
+		parent->out_of_mem |= parse_state.out_of_mem;
+	}
 	return objs;
 }
 
+HARBOL_EXPORT struct HarbolMap *harbol_cfg_parse_file(char const filename[static 1]) {
+	return _harbol_cfg_parse_file(filename, NULL);
+}
+
 
 HARBOL_EXPORT struct HarbolMap *harbol_cfg_parse_cstr(char const cfgcode[static 1]) {
 	HarbolCfgState parse_state = {0};
-- 
2.43.0


From 15744dea531f6eecdefe33e8f7724664d480321d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:13 +0000
Subject: [PATCH 65/84] fix: long numbers and names in math expressions overran
 the token

---
 math/math_parser.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/math/math_parser.c b/math/math_parser.c
index fd733da..edd131f 100644
--- a/math/math_parser.c
+++ b/math/math_parser.c
@@ -38,14 +38,22 @@ struct HarbolMathLexer {
 };
 
 
+/// keeps the lexeme null terminated.
+static NO_NULL void _harbol_math_add_to_lexeme(struct HarbolMathLexer *const restrict ls, char const c) {
+	if( ls->tok.size < LEXEME_SIZE - 1 ) {
+		ls->tok.lexeme[ls->tok.size++] = c;
+	}
+}
+
 static NO_NULL bool _harbol_math_lex_decimal(struct HarbolMathLexer *const restrict ls, char const expression[const restrict static 1]) {
 	bool has_dot = false;
+	ls->tok.val = 0;
+	size_t const start = ls->idx;
 	while( expression[ls->idx] != 0 && (isalnum(expression[ls->idx]) || expression[ls->idx]=='.') ) {
 		switch( expression[ls->idx] ) {
 			case '0': case '1': case '2': case '3': case '4':
 			case '5': case '6': case '7': case '8': case '9': {
-				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
-				ls->tok.size++;
+				_harbol_math_add_to_lexeme(ls, expression[ls->idx]);
 				ls->idx++;
 				break;
 			}
@@ -54,20 +62,20 @@ static NO_NULL bool _harbol_math_lex_decimal(struct HarbolMathLexer *const restr
 					//LogError("ConfigMap-Math :: extra dot in decimal literal");
 					return false;
 				}
-				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
-				ls->tok.size++;
+				_harbol_math_add_to_lexeme(ls, expression[ls->idx]);
 				ls->idx++;
 				has_dot = true;
 				break;
 			}
 			default: {
-				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
-				ls->tok.size++;
+				_harbol_math_add_to_lexeme(ls, expression[ls->idx]);
 				//LogError("ConfigMap-Math :: invalid decimal literal: '%s'", ls->tok.lexeme);
 				return false;
 			}
 		}
 	}
+	/// the lexeme might not hold all digits.
+	ls->tok.val = strtofmax(&expression[start], NULL);
 	return true;
 }
 
@@ -87,11 +95,7 @@ static NO_NULL bool _harbol_math_get_token(struct HarbolMathLexer *const restric
 			case '5': case '6': case '7': case '8': case '9': {
 				ls->tok.tag = TokenNum;
 				/// Decimal/Float.
-				bool const res = _harbol_math_lex_decimal(ls, expression);
-				if( res ) {
-					ls->tok.val = strtofmax(ls->tok.lexeme, NULL);
-				}
-				return res;
+				return _harbol_math_lex_decimal(ls, expression);
 			}
 			case '(': {
 				ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
@@ -158,7 +162,7 @@ static NO_NULL bool _harbol_math_get_token(struct HarbolMathLexer *const restric
 			}
 			default: {
 				bool got_something = false;
-				while( expression[ls->idx] != 0 && isalnum(expression[ls->idx]) && ls->tok.size < LEXEME_SIZE ) {
+				while( expression[ls->idx] != 0 && isalnum(expression[ls->idx]) && ls->tok.size < LEXEME_SIZE - 1 ) {
 					ls->tok.lexeme[ls->tok.size] = expression[ls->idx];
 					ls->idx++;
 					ls->tok.size++;
-- 
2.43.0


From b88602a60cd87990b6996375e2fd7ac6f6006e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:25 +0000
Subject: [PATCH 66/84] fix: deeply nested math expressions overran the stack

---
 math/math_parser.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/math/math_parser.c b/math/math_parser.c
index edd131f..b9b5b7c 100644
--- a/math/math_parser.c
+++ b/math/math_parser.c
@@ -7,6 +7,7 @@
 
 enum {
 	LEXEME_SIZE = 64,
+	MAX_EXPR_DEPTH = 256,
 };
 
 enum HarbolMathTokenType {
@@ -34,7 +35,7 @@ struct HarbolMathLexer {
 	struct HarbolMathToken   tok;
 	HarbolMathVarFunc       *var_func;
 	void                    *data;
-	size_t                   expr_len, idx, data_len;
+	size_t                   expr_len, idx, data_len, depth;
 };
 
 
@@ -244,8 +245,22 @@ floatmax_t harbol_math_parse_pow_expr(struct HarbolMathLexer *const restrict ls,
 	return val;
 }
 
+static NO_NULL floatmax_t _harbol_math_parse_unary(struct HarbolMathLexer *ls, char const expression[]);
+
 /// UnaryExpr = *( '-' | '+' ) Factor .
 floatmax_t harbol_math_parse_unary_expr(struct HarbolMathLexer *const restrict ls, char const expression[const restrict static 1]) {
+	if( ls->depth >= MAX_EXPR_DEPTH ) {
+		//LogError("ConfigMap-Math :: expression is nested too deep");
+		ls->tok.tag = TokenInvalid;
+		return NAN;
+	}
+	ls->depth++;
+	floatmax_t const val = _harbol_math_parse_unary(ls, expression);
+	ls->depth--;
+	return val;
+}
+
+static floatmax_t _harbol_math_parse_unary(struct HarbolMathLexer *const restrict ls, char const expression[const restrict static 1]) {
 	if( ls->tok.tag==TokenSub ) {
 		_harbol_math_get_token(ls, expression);
 		return -harbol_math_parse_unary_expr(ls, expression);
-- 
2.43.0


From 78b84f1c53dafb29c00089a8c6be3e24e11b3358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:34 +0000
Subject: [PATCH 67/84] fix: config paths reached settings that are not on them
 and missed null settings

---
 cfg/cfg.c | 89 ++++++++++++++-----------------------------------------
 1 file changed, 23 insertions(+), 66 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index d3f6049..d17cb62 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -717,81 +717,38 @@ HARBOL_EXPORT struct HarbolString harbol_cfg_to_str(struct HarbolMap const *cons
 	return cfg_str;
 }
 
-static NO_NULL bool harbol_cfg_parse_target_path(char const key[static 1], struct HarbolString *const restrict str) {
-	/// parse something like: "root.section1.section2.section3.\\.dotsection"
-	char const *iter = key;
-	iter += strlen(key) - 1;
-	while( iter != key ) {
-		if( *iter=='.' ) {
-			if( iter[-1]=='\\' ) {
-				iter--;
-			} else {
-				iter++;
-				break;
-			}
-		} else {
-			iter--;
-		}
-	}
-	
-	/// now we save the target section and then use the resulting string.
-	while( *iter != 0 ) {
-		if( *iter=='\\' ) {
+/// takes the next key from a path like: "root.section1.section2.section3.\\.dotsection"
+static NO_NULL bool _next_path_key(char const **const restrict pathref, struct HarbolString *const restrict str) {
+	harbol_string_clear(str);
+	char const *iter = *pathref;
+	while( *iter != 0 && *iter != '.' ) {
+		/// an escaped dot is part of the key.
+		if( iter[0]=='\\' && iter[1]=='.' ) {
 			iter++;
-			continue;
 		}
-		harbol_string_add_char(str, *iter++);
+		if( !harbol_string_add_char(str, *iter++) ) {
+			return false;
+		}
 	}
-	return str->len > 0;
+	*pathref = (*iter=='.')? iter + 1 : iter;
+	return !harbol_string_empty(str);
 }
 
 static NO_NULL struct HarbolVariant *_get_var(struct HarbolMap const *const cfgmap, char const key[const]) {
-	/// first check if we're getting a singular value OR we iterate through a sectional path.
-	char const *dot = strchr(key, '.');
-	
-	/// Patch: dot and escaped dot glitching out the hashmap hashing...
-	if( dot==NULL || (dot > key && (dot[-1] == '\\')) ) {
-		struct HarbolVariant *const restrict var = harbol_map_key_get(cfgmap, key, strlen(key)+1);
-		return( var==NULL || var->tag==HarbolCfgType_Null )? NULL : var;
-	}
-	
-	/// ok, not a singular value, iterate to the specific map section then.
-	/// parse the target key first.
-	char const *iter = key;
-	struct HarbolString
-		sectionstr = {0},
-		targetstr = {0}
-	;
-	
-	harbol_cfg_parse_target_path(key, &targetstr);
-	struct HarbolMap const *itermap = cfgmap;
-	struct HarbolVariant *restrict var = NULL;
-	while( itermap != NULL ) {
-		harbol_string_clear(&sectionstr);
-		/// Patch: allow keys to use dot without interfering with dot path.
-		while( *iter != 0 ) {
-			if( *iter=='\\' && iter[1] != 0 && iter[1]=='.' ) {
-				iter++;
-				harbol_string_add_char(&sectionstr, *iter++);
-			} else if( *iter=='.' ) {
-				iter++;
-				break;
-			} else {
-				harbol_string_add_char(&sectionstr, *iter++);
-			}
-		}
-		if( harbol_string_empty(&sectionstr) ) {
-			break;
-		}
-		var = harbol_map_key_get(itermap, sectionstr.cstr, sectionstr.len+1);
-		if( var==NULL || !harbol_string_cmpstr(&sectionstr, &targetstr) ) {
+	char const *path = key;
+	struct HarbolMap const *section = cfgmap;
+	struct HarbolString keystr = {0};
+	struct HarbolVariant *var = NULL;
+	while( section != NULL ) {
+		var = _next_path_key(&path, &keystr)? harbol_map_key_get(section, keystr.cstr, keystr.len+1) : NULL;
+		if( var==NULL || *path==0 ) {
 			break;
-		} else if( var->tag==HarbolCfgType_Map ) {
-			itermap = *( struct HarbolMap const** )(var->data);
 		}
+		/// only sections have something inside them.
+		section = (var->tag==HarbolCfgType_Map)? *( struct HarbolMap const** )(var->data) : NULL;
+		var = NULL;
 	}
-	harbol_string_clear(&sectionstr);
-	harbol_string_clear(&targetstr);
+	harbol_string_clear(&keystr);
 	return var;
 }
 
-- 
2.43.0


From 07df4c45613ddb415818bcd583cc5d41b855fbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:45 +0000
Subject: [PATCH 68/84] fix: setting a config value lost the old one when
 memory ran out and ignored empty strings

---
 cfg/cfg.c | 72 +++++++++++++++++++++++++++++++------------------------
 1 file changed, 41 insertions(+), 31 deletions(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index d17cb62..643f2d7 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -805,36 +805,56 @@ HARBOL_EXPORT enum HarbolCfgType harbol_cfg_get_type(struct HarbolMap const *con
 	return( var==NULL )? HarbolCfgType_Invalid : var->tag;
 }
 
-HARBOL_EXPORT bool harbol_cfg_set_str(struct HarbolMap *const restrict cfgmap, char const keypath[restrict static 1], struct HarbolString const str, bool const override_convert) {
-	return harbol_cfg_set_cstr(cfgmap, keypath, str.cstr, override_convert);
+/// the old value is only given up once there is a new one.
+static NO_NULL bool _convert_var(struct HarbolVariant *const restrict var, void const *const val, size_t const size, enum HarbolCfgType const type) {
+	bool made = false;
+	struct HarbolVariant const converted = harbol_variant_make(val, size, type, &made);
+	if( !made ) {
+		return false;
+	}
+	_harbol_cfgkey_clear(var);
+	*var = converted;
+	return true;
 }
 
-HARBOL_EXPORT bool harbol_cfg_set_cstr(struct HarbolMap *const restrict cfgmap, char const key[static 1], char const cstr[static 1], bool const override_convert) {
-	struct HarbolVariant *const restrict var = _get_var(cfgmap, key);
-	if( var==NULL ) {
+HARBOL_EXPORT bool harbol_cfg_set_str(struct HarbolMap *const restrict cfgmap, char const keypath[restrict static 1], struct HarbolString const str, bool const override_convert) {
+	struct HarbolVariant *const var = _get_var(cfgmap, keypath);
+	if( var==NULL || (var->tag != HarbolCfgType_String && !override_convert) ) {
 		return false;
-	} else if( var->tag != HarbolCfgType_String ) {
-		if( override_convert ) {
-			_harbol_cfgkey_clear(var);
-			struct HarbolString *str = harbol_string_new(cstr);
-			*var = harbol_variant_make(&str, sizeof str, HarbolCfgType_String, &( bool ){0});
-			return true;
-		}
+	}
+	
+	struct HarbolString copy = {0};
+	if( str.len > 0 && !harbol_string_add_str(&copy, &str) ) {
+		return false;
+	} else if( var->tag==HarbolCfgType_String ) {
+		struct HarbolString *const cfgstr = *( struct HarbolString** )(var->data);
+		harbol_string_clear(cfgstr);
+		*cfgstr = copy;
+		return true;
+	}
+	
+	struct HarbolString *cfgstr = harbol_string_new(NULL);
+	if( cfgstr==NULL || !_convert_var(var, &cfgstr, sizeof cfgstr, HarbolCfgType_String) ) {
+		harbol_string_free(&cfgstr);
+		harbol_string_clear(&copy);
 		return false;
 	}
-	harbol_string_copy_cstr(*( struct HarbolString** )(var->data), cstr);
+	*cfgstr = copy;
 	return true;
 }
 
+HARBOL_EXPORT bool harbol_cfg_set_cstr(struct HarbolMap *const restrict cfgmap, char const key[static 1], char const cstr[static 1], bool const override_convert) {
+	struct HarbolString const str = { ( char* )(cstr), strlen(cstr) };
+	return harbol_cfg_set_str(cfgmap, key, str, override_convert);
+}
+
 HARBOL_EXPORT bool harbol_cfg_set_float(struct HarbolMap *const restrict cfgmap, char const key[static 1], floatmax_t const val, bool const override_convert) {
 	struct HarbolVariant *const restrict var = _get_var(cfgmap, key);
 	if( var==NULL ) {
 		return false;
 	} else if( var->tag != HarbolCfgType_Float ) {
 		if( override_convert ) {
-			_harbol_cfgkey_clear(var);
-			*var = harbol_variant_make(&val, sizeof val, HarbolCfgType_Float, &( bool ){0});
-			return true;
+			return _convert_var(var, &val, sizeof val, HarbolCfgType_Float);
 		}
 		return false;
 	}
@@ -848,9 +868,7 @@ HARBOL_EXPORT bool harbol_cfg_set_int(struct HarbolMap *const restrict cfgmap, c
 		return false;
 	} else if( var->tag != HarbolCfgType_Int ) {
 		if( override_convert ) {
-			_harbol_cfgkey_clear(var);
-			*var = harbol_variant_make(&val, sizeof val, HarbolCfgType_Int, &( bool ){0});
-			return true;
+			return _convert_var(var, &val, sizeof val, HarbolCfgType_Int);
 		}
 		return false;
 	}
@@ -864,9 +882,7 @@ HARBOL_EXPORT bool harbol_cfg_set_bool(struct HarbolMap *const restrict cfgmap,
 		return false;
 	} else if( var->tag != HarbolCfgType_Bool ) {
 		if( override_convert ) {
-			_harbol_cfgkey_clear(var);
-			*var = harbol_variant_make(&val, sizeof val, HarbolCfgType_Bool, &( bool ){0});
-			return true;
+			return _convert_var(var, &val, sizeof val, HarbolCfgType_Bool);
 		}
 		return false;
 	}
@@ -880,9 +896,7 @@ HARBOL_EXPORT bool harbol_cfg_set_color(struct HarbolMap *const restrict cfgmap,
 		return false;
 	} else if( var->tag != HarbolCfgType_Color ) {
 		if( override_convert ) {
-			_harbol_cfgkey_clear(var);
-			*var = harbol_variant_make(&val, sizeof val, HarbolCfgType_Color, &( bool ){0});
-			return true;
+			return _convert_var(var, &val, sizeof val, HarbolCfgType_Color);
 		}
 		return false;
 	}
@@ -896,9 +910,7 @@ HARBOL_EXPORT bool harbol_cfg_set_vec4D(struct HarbolMap *const restrict cfgmap,
 		return false;
 	} else if( var->tag != HarbolCfgType_Vec4D ) {
 		if( override_convert ) {
-			_harbol_cfgkey_clear(var);
-			*var = harbol_variant_make(&val, sizeof val, HarbolCfgType_Vec4D, &( bool ){0});
-			return true;
+			return _convert_var(var, &val, sizeof val, HarbolCfgType_Vec4D);
 		}
 		return false;
 	}
@@ -913,9 +925,7 @@ HARBOL_EXPORT bool harbol_cfg_set_to_null(struct HarbolMap *const restrict cfgma
 		return false;
 	}
 	
-	_harbol_cfgkey_clear(var);
-	*var = harbol_variant_make(&( char ){0}, 1, HarbolCfgType_Null, &( bool ){0});
-	return true;
+	return _convert_var(var, &( char ){0}, 1, HarbolCfgType_Null);
 }
 
 HARBOL_EXPORT bool harbol_cfg_build_file(struct HarbolMap const *const cfg, char const filename[static 1], bool const overwrite) {
-- 
2.43.0


From 2787023a64b43e858274003d24e139f0e5be8ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:16 +0000
Subject: [PATCH 69/84] fix: calculating an empty config string crashed

---
 cfg/cfg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index 643f2d7..e6af1c9 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -952,7 +952,7 @@ HARBOL_EXPORT bool harbol_cfg_build_file(struct HarbolMap const *const cfg, char
 
 HARBOL_EXPORT floatmax_t harbol_cfg_calc_math(struct HarbolMap const *const restrict cfg, char const key[const restrict static 1], HarbolMathVarFunc *const var_func, void *const restrict data, size_t const data_len) {
 	struct HarbolString *const restrict str = harbol_cfg_get_str(cfg, key);
-	if( str==NULL ) {
+	if( str==NULL || str->cstr==NULL ) {
 		union {
 			uintmax_t const  u;
 			floatmax_t const f;
-- 
2.43.0


From 64678a947b58a6a0cd72830e3b34c14f64c723c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:26 +0000
Subject: [PATCH 70/84] fix: an include at the end of a config section ended
 the parse

---
 cfg/cfg.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfg/cfg.c b/cfg/cfg.c
index e6af1c9..999a299 100644
--- a/cfg/cfg.c
+++ b/cfg/cfg.c
@@ -242,6 +242,7 @@ static bool harbol_cfg_parse_key_val(struct HarbolMap *const restrict map, char
 		}
 		
 		harbol_string_clear(&keystr);
+		skip_ws_and_comments(cfgcoderef, parse_state);
 		if( !harbol_string_empty(&file_path) && harbol_map_has_key(map, file_path.cstr, file_path.len+1) ) {
 			harbol_write_msg(&parse_state->errc, stderr, parse_state->cfg_filename, "syntax error", COLOR_RED, &parse_state->curr_line, NULL, "Harbol Config Parser :: duplicate string key '%s'.\n", file_path.cstr);
 			harbol_string_clear(&file_path);
-- 
2.43.0


From 66d465401e7c0e5a137b45c564da5c2c346602e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:12 +0000
Subject: [PATCH 71/84] fix: loading a plugin without memory for its path
 reported success

---
 plugins/plugins.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index 868a5f5..312f783 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -14,7 +14,7 @@ HARBOL_EXPORT bool harbol_plugin_load(struct HarbolPlugin *const restrict pl, ch
 	
 	pl->path = dup_cstr(strlen(path), path);
 	struct stat result;
-	if( !stat(path, &result) ) {
+	if( pl->path != NULL && !stat(path, &result) ) {
 		pl->last_write = result.st_mtime;
 	} else {
 		MODULE_CLOSE(pl->dll); pl->dll = NULL;
-- 
2.43.0


From 8f260d2a6b51260a18ba5b882d9930bc6e408994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:20 +0000
Subject: [PATCH 72/84] fix: scanning a plugin directory never ended on an
 unreadable entry

---
 plugins/plugins.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index 312f783..43f763b 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -118,7 +118,8 @@ static NEVER_NULL(1) void _dir_open(tinydir_dir *const restrict dir, HarbolPlugi
 	while( dir->has_next ) {
 		tinydir_file *file = &( tinydir_file ){0};
 		if( tinydir_readfile(dir, file) < 0 ) {
-			continue;
+			/// skip entries that can't be read.
+			goto dir_iter_loop;
 		} else if( file->is_dir ) {
 			if( file->name[0]=='.' ) {
 				/// advance if parent dir dot.
-- 
2.43.0


From 9ff3818fa1174039f9b2fc2da62cdd1eb235c4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:31 +0000
Subject: [PATCH 73/84] fix: scanning a plugin directory that cannot be opened
 reported success

---
 plugins/plugins.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index 43f763b..a960d80 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -159,10 +159,10 @@ HARBOL_EXPORT bool harbol_plugin_dir_open(char const dir[static 1], HarbolPlugin
 		tinydir_dir *const restrict dir_handle = &( tinydir_dir ){0};
 		if( tinydir_open(dir_handle, pl_dir) < 0 ) {
 			fprintf(stderr, "Harbol Plugin Directory Error: **** unable to open dir: '%s' ****\n", pl_dir);
-			tinydir_close(dir_handle);
-		} else {
-			_dir_open(dir_handle, dir_fn, userdata, custom_ext==NULL? LIB_EXT : custom_ext);
+			free(pl_dir); pl_dir = NULL;
+			return false;
 		}
+		_dir_open(dir_handle, dir_fn, userdata, custom_ext==NULL? LIB_EXT : custom_ext);
 		free(pl_dir); pl_dir = NULL;
 		return true;
 	}
-- 
2.43.0


From 8f38fa2b65c51f63ae9bc6565aeb0d869c700f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 74/84] fix: diagnostics from unreadable, unterminated or blank
 source text crashed and broke up the code

---
 msg_span/msg_span.c | 47 ++++++++++++++++++---------------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index 21fbc8e..3081ef8 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -25,47 +25,37 @@ HARBOL_EXPORT struct HarbolMsgSpan harbol_msg_span_make(char const cstr[const re
 }
 
 HARBOL_EXPORT bool harbol_msg_span_init(struct HarbolMsgSpan *const restrict msgspan, char const cstr[const restrict static 1], bool const is_filename, bool const free_src_str) {
-	(( is_filename )? harbol_string_read_file : harbol_string_copy_cstr)(&msgspan->src.code, cstr);
-	if( is_filename ) {
-		harbol_string_copy_cstr(&msgspan->src.filename, cstr);
-	}
-	lex_fix_newlines(&msgspan->src.code, true);
-	
-	size_t newlines = harbol_string_count_cstr(&msgspan->src.code, "\n");
-	if( newlines==0 ) {
-		newlines = 1;
-	}
-	
-	size_t *newline_offs = calloc(newlines, sizeof *newline_offs);
-	if( newline_offs==NULL ) {
-		harbol_string_clear(&msgspan->src.code);
+	bool const loaded = ( is_filename )?
+		harbol_string_read_file(&msgspan->src.code, cstr) && harbol_string_copy_cstr(&msgspan->src.filename, cstr) :
+		cstr[0]==0 || harbol_string_copy_cstr(&msgspan->src.code, cstr);
+	if( !loaded || !lex_fix_newlines(&msgspan->src.code, true) ) {
+		harbol_msg_span_clear(msgspan);
 		return false;
 	}
 	
-	harbol_string_cstr_offsets(&msgspan->src.code, "\n", newline_offs, newlines);
-	for( size_t i=0; i < newlines; i++ ) {
-		size_t const offs = newline_offs[i];
-		msgspan->src.code.cstr[offs] = 0;
-	}
-	
+	size_t const newlines = harbol_string_count_cstr(&msgspan->src.code, "\n");
 	msgspan->src.lines = calloc(newlines + 1, sizeof *msgspan->src.lines);
 	if( msgspan->src.lines==NULL ) {
-		harbol_string_clear(&msgspan->src.code);
-		free(newline_offs); newline_offs = NULL;
+		harbol_msg_span_clear(msgspan);
 		return false;
 	}
 	
 	msgspan->src.len = newlines + 1;
-	harbol_string_copy_cstr(&msgspan->src.lines[0], msgspan->src.code.cstr);
-	for( size_t i=1; i < newlines; i++ ) {
-		size_t const offs = newline_offs[i-1] + 1;
-		harbol_string_copy_cstr(&msgspan->src.lines[i], &msgspan->src.code.cstr[offs]);
+	char const *line = ( msgspan->src.code.cstr==NULL )? "" : msgspan->src.code.cstr;
+	for( size_t i=0; i < msgspan->src.len; i++ ) {
+		size_t const line_len = strcspn(line, "\n");
+		/// blank lines are empty strings.
+		if( !harbol_string_add_char_rep(&msgspan->src.lines[i], ' ', line_len) ) {
+			harbol_msg_span_clear(msgspan);
+			return false;
+		}
+		memcpy(msgspan->src.lines[i].cstr, line, line_len);
+		line += line_len + 1;
 	}
-	harbol_string_copy_cstr(&msgspan->src.lines[newlines], &msgspan->src.code.cstr[newline_offs[newlines-1] + 1]);
+	
 	if( free_src_str ) {
 		harbol_string_clear(&msgspan->src.code);
 	}
-	free(newline_offs); newline_offs = NULL;
 	return true;
 }
 
@@ -101,6 +91,7 @@ HARBOL_EXPORT void harbol_msg_span_clear(struct HarbolMsgSpan *const msgspan) {
 		harbol_string_clear(&msgspan->src.lines[i]);
 	}
 	free(msgspan->src.lines); msgspan->src.lines = NULL;
+	msgspan->src.len = 0;
 	_harbol_msg_span_purge_labels(msgspan, true);
 	_harbol_msg_span_purge_notes(msgspan, true);
 }
-- 
2.43.0


From b904a368d582bc63e82e7c9f770a7f2c54c6a3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:34 +0000
Subject: [PATCH 75/84] fix: diagnostic labels and notes lost their colors when
 memory ran out

---
 msg_span/msg_span.c | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index 3081ef8..94ef980 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -110,6 +110,14 @@ HARBOL_EXPORT size_t harbol_msg_span_get_num_lines(struct HarbolMsgSpan const *c
 }
 
 
+static NEVER_NULL(1,3) bool _harbol_msg_span_format(struct HarbolString *const restrict str, char const color[const restrict], char const msg[const restrict static 1], va_list ap) {
+	if( color != NULL && color[0] != 0 && !harbol_string_add_cstr(str, color) ) {
+		return false;
+	}
+	va_list args; va_copy(args, ap); /// ended by the formatting.
+	return harbol_string_format_va(str, false, msg, args) >= 0 && (color==NULL || harbol_string_add_cstr(str, COLOR_RESET));
+}
+
 HARBOL_EXPORT bool harbol_msg_span_add_label(struct HarbolMsgSpan *const restrict msgspan, struct HarbolTokenSpan const span, char const sym_color[const restrict], int32_t const sym, char const msg_color[const restrict], char const msg[const restrict static 1], ...) {
 	struct HarbolMsgLabel label = {
 		.span      = span,
@@ -122,15 +130,9 @@ HARBOL_EXPORT bool harbol_msg_span_add_label(struct HarbolMsgSpan *const restric
 	}
 	
 	va_list ap; va_start(ap, msg);
-	if( msg_color != NULL ) {
-		harbol_string_add_cstr(&label.msg, msg_color);
-	}
-	int const format_res = harbol_string_format_va(&label.msg, false, msg, ap);
-	if( msg_color != NULL ) {
-		harbol_string_add_cstr(&label.msg, COLOR_RESET);
-	}
-	
-	bool const res = format_res >= 0 && harbol_array_insert(&msgspan->labels, &label, sizeof label);
+	bool res = _harbol_msg_span_format(&label.msg, msg_color, msg, ap);
+	va_end(ap);
+	res = res && harbol_array_insert(&msgspan->labels, &label, sizeof label);
 	if( !res ) {
 		harbol_string_clear(&label.msg);
 	}
@@ -144,15 +146,9 @@ HARBOL_EXPORT bool harbol_msg_span_add_note(struct HarbolMsgSpan *const restrict
 	}
 	
 	va_list ap; va_start(ap, msg);
-	if( msg_color != NULL ) {
-		harbol_string_add_cstr(&note, msg_color);
-	}
-	int const format_res = harbol_string_format_va(&note, false, msg, ap);
-	if( msg_color != NULL ) {
-		harbol_string_add_cstr(&note, COLOR_RESET);
-	}
-	
-	bool const res = format_res >= 0 && harbol_array_insert(&msgspan->notes, &note, sizeof note);
+	bool res = _harbol_msg_span_format(&note, msg_color, msg, ap);
+	va_end(ap);
+	res = res && harbol_array_insert(&msgspan->notes, &note, sizeof note);
 	if( !res ) {
 		harbol_string_clear(&note);
 	}
-- 
2.43.0


From ef8232e4be82be4d5b6c0c7dc82e3630cd27ec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:44 +0000
Subject: [PATCH 76/84] fix: emitting a diagnostic crashed on missing lines,
 blank lines or lack of memory and lost notes without labels

---
 msg_span/msg_span.c | 48 +++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/msg_span/msg_span.c b/msg_span/msg_span.c
index 94ef980..07bf9f6 100644
--- a/msg_span/msg_span.c
+++ b/msg_span/msg_span.c
@@ -169,13 +169,14 @@ static NEVER_NULL(1) void _print_file_margins(FILE *const restrict stream, char
 }
 
 
-static NO_NULL void _output_span(struct HarbolMsgSpan const *const msgspan, struct HarbolTokenSpan const span, size_t const len, FILE *const stream) {
-	for( uint32_t line = span.line_start; line <= span.line_end; line++ ) {
-		struct HarbolString line_num_pad = {0};
-		harbol_string_add_char_rep(&line_num_pad, ' ', len - base_10_digits(line));
+static NO_NULL void _output_span(struct HarbolMsgSpan const *const msgspan, struct HarbolTokenSpan const span, int const len, FILE *const stream) {
+	for( size_t line = span.line_start; line <= span.line_end; line++ ) {
 		struct HarbolString const *code_line = harbol_msg_span_get_line(msgspan, line-1);
-		fprintf(stream, "%u%s|%s\n", line, line_num_pad.cstr, code_line->cstr);
-		harbol_string_clear(&line_num_pad);
+		if( code_line != NULL ) {
+			fprintf(stream, "%-*zu|%s\n", len, line, code_line->cstr);
+		} else if( line > msgspan->src.len ) {
+			break; /// the source has no more lines.
+		}
 	}
 }
 
@@ -203,13 +204,14 @@ HARBOL_EXPORT void harbol_msg_span_emit_to_stream(
 	}
 	va_list args; va_start(args, msg_fmt);
 	vfprintf(stream, msg_fmt, args);
+	va_end(args);
 	_print_file_margins(stream, filename, file_line, file_col);
 	
 	if( msg_cnt != NULL ) {
 		++*msg_cnt;
 	}
 	
-	if( msgspan->labels.len > 0 ) {
+	if( msgspan->labels.len > 0 || msgspan->notes.len > 0 ) {
 		fprintf(stream, "\n");
 		uint32_t largest_span = 0;
 		struct HarbolMsgLabel const *labels = ( struct HarbolMsgLabel const* )(msgspan->labels.table);
@@ -220,38 +222,42 @@ HARBOL_EXPORT void harbol_msg_span_emit_to_stream(
 		}
 		
 		/// Using log10 + 1 gives us how many digits a decimal value has.
-		struct HarbolString span_pad = {0};
-		harbol_string_add_char_rep(&span_pad, ' ', (base_10_digits(largest_span) + 1));
-		fprintf(stream, "%s|\n", span_pad.cstr);
+		/// the padding is left to the formatting, emitting doesn't need memory.
+		int const span_pad = ( int )(base_10_digits(largest_span) + 1);
+		if( msgspan->labels.len > 0 ) {
+			fprintf(stream, "%*s|\n", span_pad, "");
+		}
 		
 		for( size_t i=0; i < msgspan->labels.len; i++ ) {
 			struct HarbolTokenSpan const span = labels[i].span;
 			
 			/// here we emit the actual code line.
-			_output_span(msgspan, span, span_pad.len, stream);
+			_output_span(msgspan, span, span_pad, stream);
 			
 			/// here we emit the label msgs.
-			struct HarbolString colm_pad={0}, hilighter={0};
-			harbol_string_add_char_rep(&colm_pad, ' ', span.colm_start);
-			for( size_t n=0; n < (span.colm_end - span.colm_start); n++ ) {
-				write_utf8_str(&hilighter, labels[i].sym);
+			fprintf(stream, "%*s|", span_pad, "");
+			for( uint32_t n=0; n < span.colm_start; n++ ) {
+				fputc(' ', stream);
 			}
 			
 			char const *const restrict sym_color = labels[i].sym_color;
-			fprintf(stream, "%s|%s%s%s%s %s\n", span_pad.cstr, colm_pad.cstr, sym_color==NULL? "" : sym_color, hilighter.cstr, COLOR_RESET, labels[i].msg.cstr);
-			harbol_string_clear(&colm_pad);
-			harbol_string_clear(&hilighter);
+			fprintf(stream, "%s", sym_color==NULL? "" : sym_color);
+			char hilighter[5] = {0};
+			write_utf8_cstr(hilighter, sizeof hilighter - 1, labels[i].sym);
+			for( uint32_t n=span.colm_start; n < span.colm_end; n++ ) {
+				fputs(hilighter, stream);
+			}
+			fprintf(stream, "%s %s\n", COLOR_RESET, labels[i].msg.cstr);
 		}
 		_harbol_msg_span_purge_labels(msgspan, false);
 		
 		if( msgspan->notes.len > 0 ) {
-			fprintf(stream, "%s|\n", span_pad.cstr);
+			fprintf(stream, "%*s|\n", span_pad, "");
 			struct HarbolString const *notes = ( struct HarbolString const* )(msgspan->notes.table);
 			for( size_t i=0; i < msgspan->notes.len; i++ ) {
-				fprintf(stream, "%s%s\n", span_pad.cstr, notes[i].cstr);
+				fprintf(stream, "%*s%s\n", span_pad, "", notes[i].cstr);
 			}
 			_harbol_msg_span_purge_notes(msgspan, false);
 		}
-		harbol_string_clear(&span_pad);
 	}
 }
-- 
2.43.0


From ddb6c231724e8f77e68d0c485a8f657ae8513bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:58 +0000
Subject: [PATCH 77/84] fix: copying a string holding a zero byte lost what
 followed that byte

---
 str/str.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/str/str.c b/str/str.c
index 9178c3e..86c221a 100644
--- a/str/str.c
+++ b/str/str.c
@@ -118,7 +118,8 @@ HARBOL_EXPORT bool harbol_string_copy_str(struct HarbolString *const strA, struc
 	} else if( strB->cstr==NULL || !_harbol_resize_string(strA, strB->len) ) {
 		return false;
 	}
-	strcpy(strA->cstr, strB->cstr);
+	memcpy(strA->cstr, strB->cstr, strB->len);
+	strA->cstr[strA->len] = 0;
 	return true;
 }
 
-- 
2.43.0


From 2cfe90192322653ffe95befdc097cf2e0ac906c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 78/84] fix: removing characters from a string holding a zero
 byte lost or kept what followed that byte

---
 str/str.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/str/str.c b/str/str.c
index 86c221a..d1e1e88 100644
--- a/str/str.c
+++ b/str/str.c
@@ -397,7 +397,7 @@ HARBOL_EXPORT size_t harbol_string_rm_char(struct HarbolString *const str, char
 		return 0;
 	}
 	size_t j = 0, counts = 0;
-	for( size_t i=0; str->cstr[i] != 0; i++ ) {
+	for( size_t i=0; i < str->len; i++ ) {
 		if( str->cstr[i] != c ) {
 			str->cstr[j++] = str->cstr[i];
 		} else {
@@ -415,15 +415,15 @@ HARBOL_EXPORT size_t harbol_string_trim_spaces(struct HarbolString *const str) {
 		return 0;
 	}
 	size_t j = 0, counts = 0;
-	for( size_t i=0; str->cstr[i] != 0; i++ ) {
+	for( size_t i=0; i < str->len; i++ ) {
 		if( !isspace(str->cstr[i]) ) {
 			str->cstr[j++] = str->cstr[i];
 		} else {
 			counts++;
-			str->len--;
 		}
 	}
 	str->cstr[j] = 0;
+	str->len = j;
 	return counts;
 }
 
-- 
2.43.0


From b5d37a723ea4e25a00a872a9964bd6be49997992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:33 +0000
Subject: [PATCH 79/84] fix: shrinking a string left it without a terminator

---
 harbol_common_includes.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index 1df77f1..eb030e4 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -341,6 +341,7 @@ static inline uint8_t *harbol_resize_string(uint8_t *const restrict cstr, size_t
 	if( new_cstr==NULL ) {
 		return NULL;
 	}
+	memset(&new_cstr[new_size * bytes], 0, bytes);
 	*len = new_size;
 	return new_cstr;
 }
-- 
2.43.0


From bfcc8920166a5a748c59ab30e197ad313feb65cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:33 +0000
Subject: [PATCH 80/84] fix: copying part of a C string wrote past the copy

---
 harbol_common_includes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index eb030e4..afd5a6b 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -551,7 +551,7 @@ static inline NO_NULL char *dup_cstr(size_t const len, char const cstr[const res
 #else
 	char *restrict cpy = calloc(len + 1, sizeof *cpy);
 #endif
-	return( cpy==NULL )? NULL : strcpy(cpy, cstr);
+	return( cpy==NULL )? NULL : strncpy(cpy, cstr, len);
 }
 
 
-- 
2.43.0


From 0f202cea0b1dc2e21e4775309fa31dab95f12956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:33 +0000
Subject: [PATCH 81/84] fix: using a cleared map read its released table

---
 map/map.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/map/map.c b/map/map.c
index cb58009..2771ed3 100644
--- a/map/map.c
+++ b/map/map.c
@@ -69,6 +69,9 @@ HARBOL_EXPORT void harbol_map_free(struct HarbolMap **const map_ref) {
 
 
 HARBOL_EXPORT size_t harbol_map_get_entry_index(struct HarbolMap const *const map, void const *const key, size_t const keylen) {
+	if( map->len==0 ) {
+		return SIZE_MAX;
+	}
 	uint8_t const *const restrict desired_key = key;
 	size_t const hash    = array_hash(desired_key, keylen, map->seed);
 	size_t const mask    = map->cap - 1;
-- 
2.43.0


From 49875ca51a2372fbe1a2826a17142997140465c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:06 +0000
Subject: [PATCH 82/84] fix: end the list at a node added to the tail of an
 empty list

A node that was in a list before kept its link, so the list went on into
whatever the node used to be followed by.
---
 harbol_common_includes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harbol_common_includes.h b/harbol_common_includes.h
index afd5a6b..5b22322 100644
--- a/harbol_common_includes.h
+++ b/harbol_common_includes.h
@@ -1024,8 +1024,8 @@ static inline NO_NULL void harbol_link_add_to_tail(void *const h, void *const n,
 		**const tail = t,
 		 *const node = n
 	;
+	node->a = NULL;
 	if( *head != NULL ) {
-		node->a = NULL;
 		(*tail)->a = node;
 		*tail = node;
 	} else {
-- 
2.43.0


From 07a3887c9bb96b2aaf7b6af0575972176fb63fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:51 +0000
Subject: [PATCH 83/84] fix: keep the paths of nested plugin directories off
 the stack

A plugin directory nested about a thousand levels deep overflowed the stack.
---
 plugins/plugins.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index a960d80..26d764d 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -114,9 +114,10 @@ HARBOL_EXPORT void *harbol_plugin_get_obj(struct HarbolPlugin *const restrict pl
 }
 
 
-static NEVER_NULL(1) void _dir_open(tinydir_dir *const restrict dir, HarbolPluginDirEvent dir_fn, void *const restrict userdata, char const ext[static 1]) {
+/// directories can be nested so deep that the stack wouldn't hold all of their paths.
+static NEVER_NULL(1, 2) void _dir_open(tinydir_dir *const restrict dir, tinydir_file *const restrict file, HarbolPluginDirEvent dir_fn, void *const restrict userdata, char const ext[static 1]) {
 	while( dir->has_next ) {
-		tinydir_file *file = &( tinydir_file ){0};
+		*file = ( tinydir_file ){0};
 		if( tinydir_readfile(dir, file) < 0 ) {
 			/// skip entries that can't be read.
 			goto dir_iter_loop;
@@ -125,12 +126,14 @@ static NEVER_NULL(1) void _dir_open(tinydir_dir *const restrict dir, HarbolPlugi
 				/// advance if parent dir dot.
 				goto dir_iter_loop;
 			}
-			tinydir_dir *const restrict sub_dir = &( tinydir_dir ){0};
-			if( tinydir_open(sub_dir, file->path) < 0 ) {
+			tinydir_dir *const restrict sub_dir = calloc(1, sizeof *sub_dir);
+			if( sub_dir==NULL || tinydir_open(sub_dir, file->path) < 0 ) {
+				free(sub_dir);
 				/// jumping to tinydir_next at end of loop so we can advance the dir iterator.
 				goto dir_iter_loop;
 			} else {
-				_dir_open(sub_dir, dir_fn, userdata, ext);
+				_dir_open(sub_dir, file, dir_fn, userdata, ext);
+				free(sub_dir);
 			}
 		} else if( !strcmp(file->extension, ext) ) {
 			(*dir_fn)(file->path, file->name, userdata);
@@ -162,7 +165,7 @@ HARBOL_EXPORT bool harbol_plugin_dir_open(char const dir[static 1], HarbolPlugin
 			free(pl_dir); pl_dir = NULL;
 			return false;
 		}
-		_dir_open(dir_handle, dir_fn, userdata, custom_ext==NULL? LIB_EXT : custom_ext);
+		_dir_open(dir_handle, &( tinydir_file ){0}, dir_fn, userdata, custom_ext==NULL? LIB_EXT : custom_ext);
 		free(pl_dir); pl_dir = NULL;
 		return true;
 	}
-- 
2.43.0


From 197d13e22dffa20b17547c8779a549afbf0b2d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:15 +0000
Subject: [PATCH 84/84] fix: don't scan a plugin directory again from within
 itself

A link to a directory above it made the scan go around, visiting the same
files over and over; with two such links it never ended.
---
 plugins/plugins.c | 46 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/plugins/plugins.c b/plugins/plugins.c
index 26d764d..6a53be4 100644
--- a/plugins/plugins.c
+++ b/plugins/plugins.c
@@ -114,8 +114,29 @@ HARBOL_EXPORT void *harbol_plugin_get_obj(struct HarbolPlugin *const restrict pl
 }
 
 
+/// a directory that is being scanned, and the one it was found in.
+struct DirLevel {
+	struct DirLevel const *parent;
+#ifndef _MSC_VER
+	uintmax_t              dev;
+	uintmax_t              ino;
+#endif
+};
+
+/// a link can lead back into a directory that is still being scanned.
+static NO_NULL bool _dir_entered(struct DirLevel const *level, struct DirLevel const *const dir) {
+#ifndef _MSC_VER
+	for( ; level != NULL; level = level->parent ) {
+		if( level->ino != 0 && level->ino==dir->ino && level->dev==dir->dev ) {
+			return true;
+		}
+	}
+#endif
+	return false;
+}
+
 /// directories can be nested so deep that the stack wouldn't hold all of their paths.
-static NEVER_NULL(1, 2) void _dir_open(tinydir_dir *const restrict dir, tinydir_file *const restrict file, HarbolPluginDirEvent dir_fn, void *const restrict userdata, char const ext[static 1]) {
+static NEVER_NULL(1, 2, 3) void _dir_open(tinydir_dir *const restrict dir, tinydir_file *const restrict file, struct DirLevel const *const level, HarbolPluginDirEvent dir_fn, void *const restrict userdata, char const ext[static 1]) {
 	while( dir->has_next ) {
 		*file = ( tinydir_file ){0};
 		if( tinydir_readfile(dir, file) < 0 ) {
@@ -126,13 +147,23 @@ static NEVER_NULL(1, 2) void _dir_open(tinydir_dir *const restrict dir, tinydir_
 				/// advance if parent dir dot.
 				goto dir_iter_loop;
 			}
+			
+			struct DirLevel const sub_level = {
+				.parent = level,
+#ifndef _MSC_VER
+				.dev = file->_s.st_dev, .ino = file->_s.st_ino,
+#endif
+			};
+			if( _dir_entered(level, &sub_level) ) {
+				goto dir_iter_loop;
+			}
 			tinydir_dir *const restrict sub_dir = calloc(1, sizeof *sub_dir);
 			if( sub_dir==NULL || tinydir_open(sub_dir, file->path) < 0 ) {
 				free(sub_dir);
 				/// jumping to tinydir_next at end of loop so we can advance the dir iterator.
 				goto dir_iter_loop;
 			} else {
-				_dir_open(sub_dir, file, dir_fn, userdata, ext);
+				_dir_open(sub_dir, file, &sub_level, dir_fn, userdata, ext);
 				free(sub_dir);
 			}
 		} else if( !strcmp(file->extension, ext) ) {
@@ -165,7 +196,16 @@ HARBOL_EXPORT bool harbol_plugin_dir_open(char const dir[static 1], HarbolPlugin
 			free(pl_dir); pl_dir = NULL;
 			return false;
 		}
-		_dir_open(dir_handle, &( tinydir_file ){0}, dir_fn, userdata, custom_ext==NULL? LIB_EXT : custom_ext);
+		
+		struct DirLevel top = {0};
+#ifndef _MSC_VER
+		struct stat top_stat;
+		if( !stat(pl_dir, &top_stat) ) {
+			top.dev = top_stat.st_dev;
+			top.ino = top_stat.st_ino;
+		}
+#endif
+		_dir_open(dir_handle, &( tinydir_file ){0}, &top, dir_fn, userdata, custom_ext==NULL? LIB_EXT : custom_ext);
 		free(pl_dir); pl_dir = NULL;
 		return true;
 	}
-- 
2.43.0

