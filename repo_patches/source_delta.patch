From 19e4c3a65d894041ddb86d1e28421a30281eb439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:47 +0000
Subject: [PATCH 01/82] fix: IntVector::popFront moved the wrong number of
 bytes, corrupting values and overrunning the buffer

---
 teds_intvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 8430c46..6691dc6 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -2301,7 +2301,7 @@ PHP_METHOD(Teds_IntVector, popFront)
 
 	teds_intvector_entries_copy_offset(array, 0, return_value, true);
 	array->size--;
-	memmove(entries_uint8, entries_uint8 + bytes_per_element, bytes_per_element + (old_size - 1));
+	memmove(entries_uint8, entries_uint8 + bytes_per_element, bytes_per_element * (old_size - 1));
 	if (old_size < (old_capacity >> 2)) {
 		/* Shrink the storage if only a quarter of the capacity is used  */
 		const size_t size = old_size - 1;
-- 
2.43.0


From 44d415425b5edc04fe5788c0d118e98e086e0164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:47 +0000
Subject: [PATCH 02/82] fix: IntVector/LowMemoryVector freed the shared empty
 buffer when promoting an empty vector

---
 teds_intvector.c       |  5 +++--
 teds_lowmemoryvector.c | 12 ++++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 6691dc6..5d22260 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1799,7 +1799,8 @@ static zend_always_inline zval *teds_intvector_entries_read_offset(const teds_in
 		int_smaller *const original_entries = array->entries_smaller; \
 		const int_smaller *src = original_entries; \
 		const size_t size = array->size; \
-		const size_t capacity = array->capacity >= 2 ? array->capacity : 4; \
+		const size_t old_capacity = array->capacity; \
+		const size_t capacity = old_capacity >= 2 ? old_capacity : 4; \
 		array->capacity = capacity; \
 		int_larger *const entries_larger  = teds_intvector_emalloc_byte_array(capacity, sizeof(int_larger)); \
 		const int_larger *const end = entries_larger + size; \
@@ -1808,7 +1809,7 @@ static zend_always_inline zval *teds_intvector_entries_read_offset(const teds_in
 		while (dst < end) { \
 			*dst++ = *src++; \
 		} \
-		if (array->capacity > 0) { \
+		if (old_capacity > 0) { \
 			teds_intvector_efree_byte_array(original_entries); \
 		} \
 		return; \
diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index f972d4e..f2bcbe4 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -89,6 +89,7 @@ static const uint8_t teds_lmv_shift_for_element[LMV_TYPE_COUNT] = {
 		int_smaller *const original_entries = array->entries_smaller; \
 		const int_smaller *src = original_entries; \
 		const size_t size = array->size; \
+		const size_t old_capacity = array->capacity; \
 		const size_t capacity = size >= 2 ? size * 2 : 4; \
 		array->capacity = capacity; \
 		int_larger *const entries_larger  = safe_emalloc(capacity, sizeof(int_larger), 0); \
@@ -98,7 +99,7 @@ static const uint8_t teds_lmv_shift_for_element[LMV_TYPE_COUNT] = {
 		while (dst < end) { \
 			*dst++ = *src++; \
 		} \
-		if (array->capacity > 0) { \
+		if (old_capacity > 0) { \
 			efree(original_entries); \
 		} \
 		return; \
@@ -1600,6 +1601,7 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_bool_or_null_
 	uint8_t *const original_types = array->entries_uint8;
 	const uint8_t *src = original_types;
 	const size_t size = array->size;
+	const size_t old_capacity = array->capacity;
 	const size_t capacity = size >= 2 ? size * 2 : 4;
 	array->capacity = capacity;
 	zval *const entries_zval = safe_emalloc(capacity, sizeof(zval), 0);
@@ -1609,7 +1611,7 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_bool_or_null_
 	for (; dst < end; dst++, src++) {
 		teds_lowmemoryvector_entries_set_type(dst, *src);
 	}
-	if (array->capacity > 0) {
+	if (old_capacity > 0) {
 		efree(original_types);
 	}
 	return;
@@ -1621,6 +1623,7 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_double_to_zva
 	double *const original_entries = array->entries_double;
 	const double *src = original_entries;
 	const size_t size = array->size;
+	const size_t old_capacity = array->capacity;
 	const size_t capacity = size >= 2 ? size * 2 : 4;
 	array->capacity = capacity;
 	zval *const entries_zval = safe_emalloc(capacity, sizeof(zval), 0);
@@ -1630,7 +1633,7 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_double_to_zva
 	for (; dst < end; dst++, src++) {
 		ZVAL_DOUBLE(dst, *src);
 	}
-	if (array->capacity > 0) {
+	if (old_capacity > 0) {
 		efree(original_entries);
 	}
 }
@@ -1647,10 +1650,11 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_double_to_zva
 	const uint32_t old_capacity = array->capacity; \
 	const uint32_t capacity = old_capacity >= 4 ? old_capacity : 4; \
 	zval *const entries_zval = safe_emalloc(capacity, sizeof(zval), 0); \
+	array->entries_zval = entries_zval; \
+	array->capacity = capacity; \
 	if (old_capacity > 0) { \
 		const zval *const end = entries_zval + size; \
 		zval *dst = entries_zval; \
-		array->entries_zval = entries_zval; \
 		for (; dst < end; dst++, src++) { \
 			ZVAL_LONG(dst, *src); \
 		} \
-- 
2.43.0


From 723772a2898bfb8500733e431a1dbd4840ac7850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:47 +0000
Subject: [PATCH 03/82] fix: Deque::containsKey returned an int and accepted or
 rejected non-integer keys contrary to its documentation

---
 teds_deque.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/teds_deque.c b/teds_deque.c
index 41edae1..8fe7f35 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -837,10 +837,12 @@ PHP_METHOD(Teds_Deque, containsKey)
 		Z_PARAM_ZVAL(offset_zv)
 	ZEND_PARSE_PARAMETERS_END();
 
-	zend_long offset;
-	CONVERT_OFFSET_TO_LONG_OR_THROW(offset, offset_zv);
+	if (UNEXPECTED(Z_TYPE_P(offset_zv) != IS_LONG)) {
+		RETURN_FALSE;
+	}
 
-	RETURN_LONG(((zend_ulong) offset) < Z_DEQUE_ENTRIES_P(ZEND_THIS)->size);
+	const zend_long offset = Z_LVAL_P(offset_zv);
+	RETURN_BOOL(((zend_ulong) offset) < Z_DEQUE_ENTRIES_P(ZEND_THIS)->size);
 }
 
 static zval *teds_deque_read_dimension(zend_object *object, zval *offset_zv, int type, zval *rv)
-- 
2.43.0


From 4f6a0dba28b205b916e616350d029f6908526728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:47 +0000
Subject: [PATCH 04/82] fix: BitVector::indexOf and contains read one byte past
 a full buffer

---
 teds_bitvector.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index 859518a..644931c 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -993,6 +993,10 @@ PHP_METHOD(Teds_BitVector, indexOf)
 		}
 		i += 8;
 	}
+	if (i >= len) {
+		/* Do not read the byte past the end. */
+		RETURN_NULL();
+	}
 	// TODO: builtin_clz?
 	uint8_t v = entries_bits[i >> 3] + value;
 	while (i < len) {
@@ -1035,6 +1039,10 @@ PHP_METHOD(Teds_BitVector, contains)
 		}
 		i += 8;
 	}
+	if (i >= len) {
+		/* Do not read the byte past the end. */
+		RETURN_FALSE;
+	}
 	const uint8_t v = entries_bits[i >> 3] + value;
 	RETURN_BOOL(v & ((1 << (len & 7)) - 1));
 }
-- 
2.43.0


From a06adb2967a80fc00cf72eaa72a1fac201ec7d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:08 +0000
Subject: [PATCH 05/82] fix: cloning a Deque allocated fewer slots than its
 capacity, later pushes overran the buffer

---
 teds_deque.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_deque.c b/teds_deque.c
index 8fe7f35..eeb915a 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -245,7 +245,7 @@ static void teds_deque_entries_copy_ctor(teds_deque_entries *to, const teds_dequ
 	}
 
 	const uint32_t capacity = teds_deque_next_pow2_capacity(size);
-	to->circular_buffer = safe_emalloc(size, sizeof(zval), 0);
+	to->circular_buffer = safe_emalloc(capacity, sizeof(zval), 0);
 	to->size = size;
 	to->mask = capacity - 1;
 	TEDS_DEQUE_SET_SHOULD_REBUILD_PROPERTIES(to, true);
-- 
2.43.0


From 540d60916e773ba4ba962a28e2374e0ef52afecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:08 +0000
Subject: [PATCH 06/82] fix: Deque get_gc reported a slot past the end instead
 of the wrapped elements

---
 teds_deque.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_deque.c b/teds_deque.c
index eeb915a..71a4af7 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -325,7 +325,7 @@ static HashTable* teds_deque_get_gc(zend_object *obj, zval **table, int *n)
 	}
 
 	for (uint32_t i = 0, len = offset + size - capacity; i < len; i++) {
-		zend_get_gc_buffer_add_zval(gc_buffer, &circular_buffer[len]);
+		zend_get_gc_buffer_add_zval(gc_buffer, &circular_buffer[i]);
 	}
 
 	/* This replaces table and n. */
-- 
2.43.0


From 895eb1ac1c4d008bc87e1fbc44e265bd55ae13ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:05 +0000
Subject: [PATCH 07/82] fix: rewinding a StrictHashMap/StrictHashSet iterator
 after removing the first entry ended the iteration

---
 teds_stricthashmap.c | 3 ++-
 teds_stricthashset.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index 7570ebc..b42bcca 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -746,7 +746,8 @@ static void teds_stricthashmap_it_dtor(zend_object_iterator *iter)
 
 static void teds_stricthashmap_it_rewind(zend_object_iterator *iter)
 {
-	((teds_stricthashmap_it*)iter)->current = 0;
+	/* Entries before nFirstUsed were removed, valid() would return false for those positions */
+	((teds_stricthashmap_it*)iter)->current = Z_STRICTHASHMAP_ENTRIES_P(&iter->data)->nFirstUsed;
 }
 
 static int teds_stricthashmap_it_valid(zend_object_iterator *iter)
diff --git a/teds_stricthashset.c b/teds_stricthashset.c
index 4ff33ea..9d7c0cb 100644
--- a/teds_stricthashset.c
+++ b/teds_stricthashset.c
@@ -707,7 +707,8 @@ static void teds_stricthashset_it_dtor(zend_object_iterator *iter)
 
 static void teds_stricthashset_it_rewind(zend_object_iterator *iter)
 {
-	((teds_stricthashset_it*)iter)->current = 0;
+	/* Entries before nFirstUsed were removed, valid() would return false for those positions */
+	((teds_stricthashset_it*)iter)->current = Z_STRICTHASHSET_ENTRIES_P(&iter->data)->nFirstUsed;
 }
 
 static int teds_stricthashset_it_valid(zend_object_iterator *iter)
-- 
2.43.0


From 87c424c4fac835a4ef82e6414249cc4753aa7871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:05 +0000
Subject: [PATCH 08/82] fix: StrictHashMap/StrictHashSet iterators skipped or
 repeated entries after the current entry was removed

---
 teds_stricthashmap.c | 13 +++++--------
 teds_stricthashset.c | 13 +++++--------
 2 files changed, 10 insertions(+), 16 deletions(-)

diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index b42bcca..fcfb636 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -406,8 +406,8 @@ static void teds_stricthashmap_iterators_shift_to_new_end(teds_stricthashmap_ent
 	do {
 		teds_stricthashmap_it *const it = teds_stricthashmap_it_from_node(dllist_node);
 		if (it->current >= nNumUsed) {
-			/* Move iterators to their new positions. Iterators where key() would be the removed key are shifted to the previous key (removed_idx - 1), which may be before the start of the data (in which case calling next() would make it valid again) */
-			it->current = (it->current >= removed_idx ? nNumUsed - 1 : nNumUsed);
+			/* Move iterators to their new positions. Iterators at the removed key (or at a gap before it) are shifted to the previous key (removed_idx - 1), which may be before the start of the data (in which case calling next() would make it valid again) */
+			it->current = (it->current <= removed_idx ? nNumUsed - 1 : nNumUsed);
 		}
 		dllist_node = dllist_node->next;
 	} while (dllist_node != NULL);
@@ -813,13 +813,10 @@ static void teds_stricthashmap_it_move_forward(zend_object_iterator *iter)
 		ZEND_ASSERT(it->current == array->nNumUsed);
 		it->current = array->nNumUsed;
 	} else {
-		/* Move to the next valid position */
-		while (Z_ISUNDEF(array->arData[it->current].key)) {
+		/* Move to the next valid position. If the entry at the current position was removed, this is the first remaining entry after it. */
+		do {
 			it->current++;
-			ZEND_ASSERT(it->current < array->nNumUsed);
-		}
-		it->current++;
-		ZEND_ASSERT(it->current <= array->nNumUsed);
+		} while (it->current < array->nNumUsed && Z_ISUNDEF(array->arData[it->current].key));
 	}
 }
 
diff --git a/teds_stricthashset.c b/teds_stricthashset.c
index 9d7c0cb..28eb3a5 100644
--- a/teds_stricthashset.c
+++ b/teds_stricthashset.c
@@ -372,8 +372,8 @@ static void teds_stricthashset_iterators_shift_to_new_end(teds_stricthashset_ent
 	do {
 		teds_stricthashset_it *const it = teds_stricthashset_it_from_node(dllist_node);
 		if (it->current >= nNumUsed) {
-			/* Move iterators to their new positions. Iterators where key() would be the removed key are shifted to the previous key (removed_idx - 1), which may be before the start of the data (in which case calling next() would make it valid again) */
-			it->current = (it->current >= removed_idx ? nNumUsed - 1 : nNumUsed);
+			/* Move iterators to their new positions. Iterators at the removed key (or at a gap before it) are shifted to the previous key (removed_idx - 1), which may be before the start of the data (in which case calling next() would make it valid again) */
+			it->current = (it->current <= removed_idx ? nNumUsed - 1 : nNumUsed);
 		}
 		dllist_node = dllist_node->next;
 	} while (dllist_node != NULL);
@@ -774,13 +774,10 @@ static void teds_stricthashset_it_move_forward(zend_object_iterator *iter)
 		ZEND_ASSERT(it->current == array->nNumUsed);
 		it->current = array->nNumUsed;
 	} else {
-		/* Move to the next valid position */
-		while (Z_ISUNDEF(array->arData[it->current].key)) {
+		/* Move to the next valid position. If the entry at the current position was removed, this is the first remaining entry after it. */
+		do {
 			it->current++;
-			ZEND_ASSERT(it->current < array->nNumUsed);
-		}
-		it->current++;
-		ZEND_ASSERT(it->current <= array->nNumUsed);
+		} while (it->current < array->nNumUsed && Z_ISUNDEF(array->arData[it->current].key));
 	}
 }
 
-- 
2.43.0


From 7c9a30af372394c07ebdaa29a81be94dedb3fa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:05 +0000
Subject: [PATCH 09/82] fix: growing a StrictHashMap/StrictHashSet looped
 forever when an exhausted iterator existed

---
 teds_stricthashmap.c | 7 ++++---
 teds_stricthashset.c | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index fcfb636..362f151 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -380,8 +380,11 @@ static void teds_stricthashmap_iterators_move_before_pack(teds_stricthashmap_ent
 		teds_stricthashmap_it *const it = teds_stricthashmap_it_from_node(dllist_node);
 		const uint32_t old_position = it->current;
 		// fprintf(stderr, "old_position=%d\n", old_position);
+		dllist_node = dllist_node->next;
 		if (old_position >= nNumUsed) {
-			it->current = array->nNumOfElements;
+			if (old_position != (uint32_t) -1) { /* Iterators before the start of the data stay there */
+				it->current = array->nNumOfElements;
+			}
 			continue;
 		}
 		// old_position < nNumUsed
@@ -394,8 +397,6 @@ static void teds_stricthashmap_iterators_move_before_pack(teds_stricthashmap_ent
 		// fprintf(stderr, "new_current=%d\n", new_current);
 		it->current = new_current;
 		ZEND_ASSERT(new_current + 1 <= array->nNumOfElements);
-
-		dllist_node = dllist_node->next;
 	} while (dllist_node != NULL);
 }
 
diff --git a/teds_stricthashset.c b/teds_stricthashset.c
index 28eb3a5..f017e80 100644
--- a/teds_stricthashset.c
+++ b/teds_stricthashset.c
@@ -346,8 +346,11 @@ static void teds_stricthashset_iterators_move_before_pack(teds_stricthashset_ent
 		teds_stricthashset_it *const it = teds_stricthashset_it_from_node(dllist_node);
 		const uint32_t old_position = it->current;
 		// fprintf(stderr, "old_position=%d\n", old_position);
+		dllist_node = dllist_node->next;
 		if (old_position >= nNumUsed) {
-			it->current = array->nNumOfElements;
+			if (old_position != (uint32_t) -1) { /* Iterators before the start of the data stay there */
+				it->current = array->nNumOfElements;
+			}
 			continue;
 		}
 		// old_position < nNumUsed
@@ -360,8 +363,6 @@ static void teds_stricthashset_iterators_move_before_pack(teds_stricthashset_ent
 		// fprintf(stderr, "new_current=%d\n", new_current);
 		it->current = new_current;
 		ZEND_ASSERT(new_current + 1 <= array->nNumOfElements);
-
-		dllist_node = dllist_node->next;
 	} while (dllist_node != NULL);
 }
 
-- 
2.43.0


From f1769d4e19d9fab58a219bb155dcb29988c383f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:48 +0000
Subject: [PATCH 10/82] fix: removing a StrictTreeMap/StrictTreeSet node whose
 successor has a child corrupted the tree

---
 teds_stricttreemap.c | 3 ++-
 teds_stricttreeset.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index 89efe4f..c9a43ca 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -1190,7 +1190,8 @@ static zend_always_inline teds_stricttreemap_node *teds_stricttreemap_node_remov
 			ZEND_ASSERT(right->parent == node);
 			RBTREE_INVARIANT_ASSERT(TEDS_STRICTTREEMAP_NODE_COLOR(right) == TEDS_NODE_RED);
 			right->parent = parent;
-			node->right = NULL;
+			/* The black node being moved is replaced by its red child, which becomes black to maintain the invariant. No rebalancing is needed, and the caller checks for that with node->right. */
+			TEDS_STRICTTREEMAP_NODE_COLOR(right) = TEDS_NODE_BLACK;
 		}
 		if (parent->left == node) {
 			parent->left = right;
diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index 748c478..aa868b5 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -998,7 +998,8 @@ static zend_always_inline teds_stricttreeset_node *teds_stricttreeset_node_remov
 			ZEND_ASSERT(right->parent == node);
 			RBTREE_INVARIANT_ASSERT(TEDS_STRICTTREESET_NODE_COLOR(right) == TEDS_NODE_RED);
 			right->parent = parent;
-			node->right = NULL;
+			/* The black node being moved is replaced by its red child, which becomes black to maintain the invariant. No rebalancing is needed, and the caller checks for that with node->right. */
+			TEDS_STRICTTREESET_NODE_COLOR(right) = TEDS_NODE_BLACK;
 		}
 		if (parent->left == node) {
 			parent->left = right;
-- 
2.43.0


From 8c8a8cfb956a02bde5e388b93809d6eb3e2a81f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:04 +0000
Subject: [PATCH 11/82] fix: SortedIntVectorSet::indexOf and
 ImmutableSortedIntSet::indexOf returned false for values wider than the
 storage type

---
 teds_intvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 5d22260..927ac67 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1619,7 +1619,7 @@ PHP_METHOD(Teds_SortedIntVectorSet, indexOf)
 #define TEDS_INTVECTOR__INT_CODEGEN(TEDS_INTVECTOR_TYPE_X, intx_t, entries_intx) \
 		case TEDS_INTVECTOR_TYPE_X: { \
 			const intx_t target = value; \
-			if (target != value) { RETURN_FALSE; } \
+			if (target != value) { RETURN_NULL(); } \
 			const intx_t *const entries = array->entries_intx; \
 			const intx_t *start = entries; \
 			const intx_t *end = start + len; \
-- 
2.43.0


From 8d52f14b266071c788a293a9e41a7625dd488636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:49 +0000
Subject: [PATCH 12/82] fix: StrictMaxHeap::__set_state created a StrictMinHeap

---
 teds_strictheap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teds_strictheap.c b/teds_strictheap.c
index 38456fa..1b5bd16 100644
--- a/teds_strictheap.c
+++ b/teds_strictheap.c
@@ -450,9 +450,9 @@ PHP_METHOD(Teds_StrictMaxHeap, __set_state)
 	ZEND_PARSE_PARAMETERS_START(1, 1)
 		Z_PARAM_ARRAY_HT(array_ht)
 	ZEND_PARSE_PARAMETERS_END();
-	zend_object *object = teds_strictheap_new(teds_ce_StrictMinHeap);
+	zend_object *object = teds_strictheap_new(teds_ce_StrictMaxHeap);
 	teds_strictheap *intern = teds_strictheap_from_object(object);
-	teds_strictheap_entries_init_from_array(&intern->array, array_ht, true);
+	teds_strictheap_entries_init_from_array(&intern->array, array_ht, false);
 
 	RETURN_OBJ(object);
 }
-- 
2.43.0


From bd96c15b7e97c46bf124fa12dc79e5f49c2dd99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:54 +0000
Subject: [PATCH 13/82] fix: StrictMinHeap/StrictMaxHeap removals used a
 different heap layout than insertions, yielding values out of order

---
 teds_strictheap.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/teds_strictheap.c b/teds_strictheap.c
index 1b5bd16..3caf512 100644
--- a/teds_strictheap.c
+++ b/teds_strictheap.c
@@ -467,16 +467,18 @@ static zend_always_inline void teds_strictheap_entries_remove_top(teds_stricthea
 	zval *replacement = &entries[len];
 	uint32_t offset = 0;
 
-	/*    0
-	 *  1   2
-	 * 3 4 5 6 */
+	/* This must match the layout used by insertions: The parent of i is i >> 1.
+	 *    0
+	 *    1
+	 *  2   3
+	 * 4 5 6 7 */
 	while (true) {
-		uint32_t new_offset = offset * 2 + 1;
+		uint32_t new_offset = offset > 0 ? offset * 2 : 1;
 		if (new_offset >= len) {
 			break;
 		}
 		zval *new_entry = &entries[new_offset];
-		if (new_offset + 1 < len) {
+		if (offset > 0 && new_offset + 1 < len) {
 			if (teds_strictheap_should_be_above(new_entry + 1, new_entry, is_min_heap)) {
 				new_offset++;
 				new_entry++;
-- 
2.43.0


From b7f01b9213acc56d14e626d93e2302acedef07f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:16 +0000
Subject: [PATCH 14/82] fix: SortedIntVectorSet::__set_state and
 ImmutableSortedIntSet::__set_state returned a mislabelled IntVector

---
 teds_intvector.c         | 18 +++++++++++++++++-
 teds_intvector.stub.php  |  1 -
 teds_intvector_arginfo.h |  5 +++--
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 927ac67..2e36ea4 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1361,7 +1361,23 @@ PHP_METHOD(Teds_SortedIntVectorSet, __set_state)
 	ZEND_PARSE_PARAMETERS_START(1, 1)
 		Z_PARAM_ARRAY_HT(array_ht)
 	ZEND_PARSE_PARAMETERS_END();
-	zend_object *object = teds_sortedintvectorset_new(teds_ce_IntVector);
+	zend_object *object = teds_sortedintvectorset_new(teds_ce_SortedIntVectorSet);
+	teds_intvector_entries *array = teds_intvector_entries_from_object(object);
+	teds_intvector_entries_init_from_array_values(array, array_ht);
+
+	teds_intvector_entries_sort_and_deduplicate(array);
+
+	RETURN_OBJ(object);
+}
+
+PHP_METHOD(Teds_ImmutableSortedIntSet, __set_state)
+{
+	zend_array *array_ht;
+
+	ZEND_PARSE_PARAMETERS_START(1, 1)
+		Z_PARAM_ARRAY_HT(array_ht)
+	ZEND_PARSE_PARAMETERS_END();
+	zend_object *object = teds_immutablesortedintset_new(teds_ce_ImmutableSortedIntSet);
 	teds_intvector_entries *array = teds_intvector_entries_from_object(object);
 	teds_intvector_entries_init_from_array_values(array, array_ht);
 
diff --git a/teds_intvector.stub.php b/teds_intvector.stub.php
index b8d0412..d1dffe5 100644
--- a/teds_intvector.stub.php
+++ b/teds_intvector.stub.php
@@ -311,7 +311,6 @@ final class ImmutableSortedIntSet implements \IteratorAggregate, Set, \JsonSeria
 
     /**
      * Create an ImmutableSortedIntSet of unique integers from an array
-     * @implementation-alias Teds\SortedIntVectorSet::__set_state
      */
     public static function __set_state(array $array): ImmutableSortedIntSet {}
 
diff --git a/teds_intvector_arginfo.h b/teds_intvector_arginfo.h
index ab69827..3271089 100644
--- a/teds_intvector_arginfo.h
+++ b/teds_intvector_arginfo.h
@@ -1,5 +1,5 @@
 /* This is a generated file, edit the .stub.php file instead.
- * Stub hash: 2a4293ac607ff32bddac6c9564f497ffc23b1d0f */
+ * Stub hash: bd8d15e6f0b6d941a066f4c90cc51b8c6c75a179 */
 
 ZEND_BEGIN_ARG_INFO_EX(arginfo_class_Teds_IntVector___construct, 0, 0, 0)
 	ZEND_ARG_OBJ_TYPE_MASK(0, iterator, Traversable, MAY_BE_ARRAY, "[]")
@@ -230,6 +230,7 @@ ZEND_METHOD(Teds_SortedIntVectorSet, contains);
 ZEND_METHOD(Teds_ImmutableSortedIntSet, __construct);
 ZEND_METHOD(Teds_ImmutableSortedIntSet, __serialize);
 ZEND_METHOD(Teds_ImmutableSortedIntSet, __unserialize);
+ZEND_METHOD(Teds_ImmutableSortedIntSet, __set_state);
 ZEND_METHOD(Teds_ImmutableSortedIntSet, add);
 ZEND_METHOD(Teds_ImmutableSortedIntSet, clear);
 
@@ -305,7 +306,7 @@ static const zend_function_entry class_Teds_ImmutableSortedIntSet_methods[] = {
 	ZEND_MALIAS(Teds_IntVector, isEmpty, isEmpty, arginfo_class_Teds_ImmutableSortedIntSet_isEmpty, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_ImmutableSortedIntSet, __serialize, arginfo_class_Teds_ImmutableSortedIntSet___serialize, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_ImmutableSortedIntSet, __unserialize, arginfo_class_Teds_ImmutableSortedIntSet___unserialize, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_SortedIntVectorSet, __set_state, __set_state, arginfo_class_Teds_ImmutableSortedIntSet___set_state, ZEND_ACC_PUBLIC|ZEND_ACC_STATIC)
+	ZEND_ME(Teds_ImmutableSortedIntSet, __set_state, arginfo_class_Teds_ImmutableSortedIntSet___set_state, ZEND_ACC_PUBLIC|ZEND_ACC_STATIC)
 	ZEND_ME(Teds_ImmutableSortedIntSet, add, arginfo_class_Teds_ImmutableSortedIntSet_add, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_ImmutableSortedIntSet, remove, add, arginfo_class_Teds_ImmutableSortedIntSet_remove, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_ImmutableSortedIntSet, clear, arginfo_class_Teds_ImmutableSortedIntSet_clear, ZEND_ACC_PUBLIC)
-- 
2.43.0


From fa27f4c317e9d161c542ffa58527c387db1713c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:16 +0000
Subject: [PATCH 15/82] fix: cloning an ImmutableSortedIntSet used the default
 handler and read outside the object

---
 teds_intvector.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 2e36ea4..7751e90 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -518,6 +518,17 @@ static zend_object *teds_sortedintvectorset_clone(zend_object *old_object)
 	return new_object;
 }
 
+static zend_object *teds_immutablesortedintset_clone(zend_object *old_object)
+{
+	zend_object *new_object = teds_immutablesortedintset_new(old_object->ce);
+	/* The clone always owns a private copy, whether or not the original is backed by a string. */
+	teds_intvector_entries_copy_ctor(teds_intvector_entries_from_object(new_object), teds_intvector_entries_from_object(old_object));
+
+	teds_assert_object_has_empty_member_list(new_object);
+
+	return new_object;
+}
+
 static TEDS_COUNT_ELEMENTS_RETURN_TYPE teds_intvector_count_elements(zend_object *object, zend_long *count)
 {
 	const teds_intvector *intern = teds_intvector_from_object(object);
@@ -2481,7 +2492,7 @@ PHP_MINIT_FUNCTION(teds_intvector)
 	memcpy(&teds_handler_ImmutableSortedIntSet, &std_object_handlers, sizeof(zend_object_handlers));
 
 	teds_handler_ImmutableSortedIntSet.offset          = XtOffsetOf(teds_intvector, std);
-	// teds_handler_ImmutableSortedIntSet.clone_obj       = teds_immutablesortedintset_clone;
+	teds_handler_ImmutableSortedIntSet.clone_obj       = teds_immutablesortedintset_clone;
 	teds_handler_ImmutableSortedIntSet.count_elements  = teds_intvector_count_elements;
 	teds_handler_ImmutableSortedIntSet.get_properties_for = teds_intvector_get_properties_for;
 	teds_handler_ImmutableSortedIntSet.get_gc          = teds_intvector_get_gc;
-- 
2.43.0


From 410a9dbe2b0b1e1291ce2b8a8b6b4689174eba5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:16 +0000
Subject: [PATCH 16/82] fix: cloning a StrictTreeMap/StrictTreeSet lost the
 node colours, leaving an unbalanced tree

---
 teds_stricttreemap.c | 1 +
 teds_stricttreeset.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index c9a43ca..324ff8a 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -458,6 +458,7 @@ cleanup_iter:
 static teds_stricttreemap_node *teds_stricttreemap_node_copy_ctor_recursive(const teds_stricttreemap_node *from, teds_stricttreemap_node *parent, teds_stricttreemap_node *left_parent_node, teds_stricttreemap_node *right_parent_node) {
 	ZEND_ASSERT(from != NULL);
 	teds_stricttreemap_node *copy = teds_stricttreemap_node_alloc(&from->key, &from->value, parent);
+	TEDS_STRICTTREEMAP_NODE_COLOR(copy) = TEDS_STRICTTREEMAP_NODE_COLOR(from);
 	if (from->left) {
 		copy->left = teds_stricttreemap_node_copy_ctor_recursive(from->left, copy, left_parent_node, copy);
 	} else {
diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index aa868b5..5e3ca20 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -426,6 +426,7 @@ cleanup_iter:
 static teds_stricttreeset_node *teds_stricttreeset_node_copy_ctor_recursive(const teds_stricttreeset_node *from, teds_stricttreeset_node *parent, teds_stricttreeset_node *left_parent_node, teds_stricttreeset_node *right_parent_node) {
 	ZEND_ASSERT(from != NULL);
 	teds_stricttreeset_node *copy = teds_stricttreeset_node_alloc(&from->key, parent);
+	TEDS_STRICTTREESET_NODE_COLOR(copy) = TEDS_STRICTTREESET_NODE_COLOR(from);
 	if (from->left) {
 		copy->left = teds_stricttreeset_node_copy_ctor_recursive(from->left, copy, left_parent_node, copy);
 	} else {
-- 
2.43.0


From 64704eb5ecf1894c3bafb8ce07cfc9302287b9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:44 +0000
Subject: [PATCH 17/82] fix: StrictTreeMap::__unserialize of empty data read a
 node outside an empty buffer

---
 teds_stricttreemap.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index 324ff8a..ce4d8ea 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -859,6 +859,9 @@ PHP_METHOD(Teds_StrictTreeMap, __unserialize)
 	}
 
 	teds_stricttreemap_tree_set_empty_tree(tree);
+	if (raw_size == 0) {
+		return;
+	}
 
 	zend_string *str;
 	zval key;
-- 
2.43.0


From 0b71f80c79ae5f32227138f252b21c8f14a4eab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:00 +0000
Subject: [PATCH 18/82] fix: StrictTreeSet::__unserialize stored PHP references
 instead of their values

---
 teds_stricttreeset.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index 5e3ca20..7dc2548 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -843,6 +843,7 @@ PHP_METHOD(Teds_StrictTreeSet, __unserialize)
 			RETURN_THROWS();
 		}
 
+		ZVAL_DEREF(val);
 		if (nodes != NULL) {
 			if (EXPECTED(sorted_nodes_count == 0 || teds_stable_compare(val, &prev->key) > 0)) {
 				prev = teds_stricttreeset_node_alloc(val, NULL);
-- 
2.43.0


From 9649147e358217735e92a7bbebceb7945433d8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:36 +0000
Subject: [PATCH 19/82] fix: cloning an ImmutableSortedStringSet did not copy
 the positions of its strings, reading the clone crashed

---
 teds_immutablesortedstringset.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teds_immutablesortedstringset.c b/teds_immutablesortedstringset.c
index 1482d43..f3878f9 100644
--- a/teds_immutablesortedstringset.c
+++ b/teds_immutablesortedstringset.c
@@ -244,9 +244,10 @@ static void teds_immutablesortedstringset_entries_copy_ctor(teds_immutablesorted
 		return;
 	}
 
-	/* FIXME copy the entry instead */
 	to->size = from->size;
 	to->raw_bytes = from->raw_bytes;
+	to->substring_infos = safe_emalloc(size, sizeof(teds_immutablesortedstringset_substring_info), 0);
+	memcpy(to->substring_infos, from->substring_infos, size * sizeof(teds_immutablesortedstringset_substring_info));
 	zend_string *str = teds_immutablesortedstringset_entries_get_backing_zend_string(from);
 	if (str) {
 		zend_string_addref(str);
-- 
2.43.0


From ad686af084a89fde0b3309709a19000fc9dbc0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:36 +0000
Subject: [PATCH 20/82] fix: ImmutableSortedStringSet used freed strings when
 built from a Traversable yielding temporaries

---
 teds_immutablesortedstringset.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/teds_immutablesortedstringset.c b/teds_immutablesortedstringset.c
index f3878f9..7e9fcdc 100644
--- a/teds_immutablesortedstringset.c
+++ b/teds_immutablesortedstringset.c
@@ -215,7 +215,7 @@ static void teds_immutablesortedstringset_entries_init_from_traversable(teds_imm
 				raw_zend_strings = emalloc(capacity * sizeof(zend_string *));
 			}
 		}
-		raw_zend_strings[size++] = value;
+		raw_zend_strings[size++] = zend_string_copy(value);
 
 		iter->index++;
 		funcs->move_forward(iter);
@@ -229,6 +229,9 @@ static void teds_immutablesortedstringset_entries_init_from_traversable(teds_imm
 
 cleanup:
 	if (raw_zend_strings) {
+		for (uint32_t i = 0; i < size; i++) {
+			zend_string_release(raw_zend_strings[i]);
+		}
 		efree(raw_zend_strings);
 	}
 	if (iter) {
-- 
2.43.0


From ff11dd7d0d40712aa060e54b384d6ed3e5f876df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:36 +0000
Subject: [PATCH 21/82] fix: iterating over an ImmutableSortedStringSet leaked
 every string it returned

---
 teds_immutablesortedstringset.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/teds_immutablesortedstringset.c b/teds_immutablesortedstringset.c
index 7e9fcdc..d8678e4 100644
--- a/teds_immutablesortedstringset.c
+++ b/teds_immutablesortedstringset.c
@@ -404,6 +404,7 @@ PHP_METHOD(Teds_ImmutableSortedStringSet, getIterator)
 
 static void teds_immutablesortedstringset_it_dtor(zend_object_iterator *iter)
 {
+	zval_ptr_dtor(&((teds_immutablesortedstringset_it*)iter)->tmp);
 	zval_ptr_dtor(&iter->data);
 }
 
@@ -433,6 +434,8 @@ static zval *teds_immutablesortedstringset_it_get_current_data(zend_object_itera
 		teds_throw_invalid_sequence_index_exception();
 		return &EG(uninitialized_zval);
 	}
+	/* Release the string created by the previous call */
+	zval_ptr_dtor(&iterator->tmp);
 	return teds_immutablesortedstringset_entries_read_offset(array, iterator->current, &iterator->tmp);
 }
 
@@ -484,6 +487,7 @@ zend_object_iterator *teds_immutablesortedstringset_get_iterator(zend_class_entr
 
 	ZVAL_OBJ_COPY(&iterator->intern.data, Z_OBJ_P(object));
 	iterator->intern.funcs = &teds_immutablesortedstringset_it_funcs;
+	ZVAL_UNDEF(&iterator->tmp);
 
 	return &iterator->intern;
 }
-- 
2.43.0


From fd572f656c63df566b846f6c51043d5885e5ca69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:36 +0000
Subject: [PATCH 22/82] fix: ImmutableSortedStringSet leaked memory when
 unserializing truncated data

---
 teds_immutablesortedstringset.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/teds_immutablesortedstringset.c b/teds_immutablesortedstringset.c
index d8678e4..2515d74 100644
--- a/teds_immutablesortedstringset.c
+++ b/teds_immutablesortedstringset.c
@@ -529,6 +529,7 @@ not_enough_data:
 		/* it and num_strings are read and moved by reference */
 		if (!teds_serialize_read_variable_len_size(&it, end, &substr_len)) {
 			ZEND_ASSERT(EG(exception));
+			efree(substring_infos);
 			return;
 		}
 		// fprintf(stderr, "substr_len=%d end=%p it=%p end-it=%d\n", substr_len, end, it, (int)(end-it));
-- 
2.43.0


From 1744d0372515589916c83e1d4f55e5565612173d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:46 +0000
Subject: [PATCH 23/82] fix: unserializing a 16-bit string length read two
 bytes past it

---
 teds_serialize_util.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/teds_serialize_util.h b/teds_serialize_util.h
index 9b2c007..5a943fb 100644
--- a/teds_serialize_util.h
+++ b/teds_serialize_util.h
@@ -14,9 +14,7 @@ static zend_always_inline HashTable *teds_create_serialize_pair(const uint8_t ty
 static zend_always_inline uint16_t teds_serialize_read_uint16_t(const uint8_t *data) {
 	return
 		(data[0] << 0) +
-		(data[1] << 8) +
-		(data[2] << 16) +
-		(data[3] << 24);
+		(data[1] << 8);
 }
 
 static zend_always_inline void teds_serialize_write_uint16_t(uint8_t *dst, uint16_t value)
-- 
2.43.0


From 7a86df5a16c08c55f35e12a8c631406c620591e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:38 +0000
Subject: [PATCH 24/82] fix: unserializing an IntVector, SortedIntVectorSet or
 ImmutableSortedIntSet accepted invalid type tags

---
 teds_intvector.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 7751e90..2f3252d 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1099,7 +1099,7 @@ PHP_METHOD(Teds_IntVector, __unserialize)
 		RETURN_THROWS();
 	}
 	const zend_ulong type_tag = Z_LVAL_P(type_tag_zval);
-	if (UNEXPECTED(type_tag >= TEDS_INTVECTOR_TYPE_COUNT)) {
+	if (UNEXPECTED(type_tag == TEDS_INTVECTOR_TYPE_UNINITIALIZED || type_tag >= TEDS_INTVECTOR_TYPE_COUNT)) {
 		zend_throw_exception_ex(spl_ce_RuntimeException, 0, "Teds\\IntVector unserialize got unsupported type tag %d", (int)type_tag);
 		RETURN_THROWS();
 	}
@@ -1143,7 +1143,7 @@ PHP_METHOD(Teds_SortedIntVectorSet, __unserialize)
 		RETURN_THROWS();
 	}
 	const zend_ulong type_tag = Z_LVAL_P(type_tag_zval);
-	if (UNEXPECTED(type_tag >= TEDS_INTVECTOR_TYPE_COUNT)) {
+	if (UNEXPECTED(type_tag == TEDS_INTVECTOR_TYPE_UNINITIALIZED || type_tag >= TEDS_INTVECTOR_TYPE_COUNT)) {
 		zend_throw_exception_ex(spl_ce_RuntimeException, 0, "Teds\\SortedIntVectorSet unserialize got unsupported type tag %d", (int)type_tag);
 		RETURN_THROWS();
 	}
@@ -1195,7 +1195,7 @@ PHP_METHOD(Teds_ImmutableSortedIntSet, __unserialize)
 		RETURN_THROWS();
 	}
 	const zend_ulong type_tag = Z_LVAL_P(type_tag_zval);
-	if (UNEXPECTED(type_tag >= TEDS_INTVECTOR_TYPE_COUNT)) {
+	if (UNEXPECTED(type_tag == TEDS_INTVECTOR_TYPE_UNINITIALIZED || type_tag >= TEDS_INTVECTOR_TYPE_COUNT)) {
 		zend_throw_exception_ex(spl_ce_RuntimeException, 0, "Teds\\ImmutableSortedIntSet unserialize got unsupported type tag %d", (int)type_tag);
 		RETURN_THROWS();
 	}
@@ -1239,6 +1239,11 @@ PHP_METHOD(Teds_IntVector, unserialize)
 			RETURN_THROWS();
 		}
 		const uint8_t type_tag = ZSTR_VAL(zstr)[len - 1];
+		if (UNEXPECTED(type_tag == TEDS_INTVECTOR_TYPE_UNINITIALIZED || type_tag >= TEDS_INTVECTOR_TYPE_COUNT)) {
+			zend_object_release(new_object);
+			zend_throw_exception_ex(spl_ce_RuntimeException, 0, "Teds\\IntVector unserialize got unsupported type tag %d", (int)type_tag);
+			RETURN_THROWS();
+		}
 		teds_intvector_entries_unserialize_from_string(array, ZSTR_VAL(zstr), len - 1, type_tag);
 	}
 	RETURN_OBJ(new_object);
-- 
2.43.0


From c93844e4576ef723f7c3956b791db4d47ddfa142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:38 +0000
Subject: [PATCH 25/82] fix: IntVector::unserialize leaked the new object when
 given a single byte

---
 teds_intvector.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/teds_intvector.c b/teds_intvector.c
index 2f3252d..4553ff2 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1235,6 +1235,7 @@ PHP_METHOD(Teds_IntVector, unserialize)
 		teds_intvector_entries_set_empty_list(array);
 	} else {
 		if (len < 2) {
+			zend_object_release(new_object);
 			zend_throw_exception(spl_ce_RuntimeException, "IntVector::unserialize expected at least 2 bytes", 0);
 			RETURN_THROWS();
 		}
-- 
2.43.0


From 16332bb51ec2851ee63c729fd3f7b4f6df98aa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:38 +0000
Subject: [PATCH 26/82] fix: unserializing an empty payload leaked an empty
 buffer in IntVector, ImmutableSortedIntSet and LowMemoryVector

---
 teds_intvector.c       | 8 ++++++++
 teds_lowmemoryvector.c | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/teds_intvector.c b/teds_intvector.c
index 4553ff2..f07ac40 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -945,6 +945,10 @@ static void teds_intvector_entries_unserialize_from_string(teds_intvector_entrie
 				zend_throw_exception_ex(spl_ce_RuntimeException, 0, "IntVector Unexpected binary length for type tag, expected multiple of 8 * 2**%d, got %d bytes", (int)shift, (int)str_byte_length);
 				return;
 			}
+			if (UNEXPECTED(num_elements == 0)) {
+				teds_intvector_entries_set_empty_list(array);
+				return;
+			}
 			char *const values = emalloc(str_byte_length);
 			array->entries_int8 = (int8_t *)values;
 			array->size = num_elements;
@@ -1011,6 +1015,10 @@ static void teds_immutablesortedintset_entries_unserialize_from_string(teds_intv
 				zend_throw_exception_ex(spl_ce_RuntimeException, 0, "ImmutableSortedIntSet Unexpected binary length for type tag, expected multiple of 8 * 2**%d, got %d bytes", (int)shift, (int)str_byte_length);
 				return;
 			}
+			if (UNEXPECTED(num_elements == 0)) {
+				teds_intvector_entries_set_empty_list(array);
+				return;
+			}
 			array->size = num_elements;
 			array->capacity = num_elements;
 			/* FIXME assert result is sorted */
diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index f2bcbe4..9b76f81 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -686,6 +686,10 @@ zend_object_iterator *teds_lowmemoryvector_get_iterator(zend_class_entry *ce, zv
 
 static void teds_lowmemoryvector_entries_unserialize_from_mixed_zval_array(teds_lowmemoryvector_entries *array, HashTable *ht) {
 	const uint32_t num_entries = zend_hash_num_elements(ht);
+	if (UNEXPECTED(num_entries == 0)) {
+		teds_lowmemoryvector_entries_set_empty_list(array);
+		return;
+	}
 	zval *entries = emalloc(num_entries * sizeof(zval));
 	zval *it = entries;
 	zval *val;
@@ -866,6 +870,10 @@ PHP_METHOD(Teds_LowMemoryVector, __unserialize)
 				zend_throw_exception_ex(spl_ce_RuntimeException, 0, "LowMemoryVector Unexpected binary length for type tag, expected multiple of 8 * 2**%d, got %d bytes", (int)shift, (int)str_byte_length);
 				RETURN_THROWS();
 			}
+			if (UNEXPECTED(num_elements == 0)) {
+				teds_lowmemoryvector_entries_set_empty_list(array);
+				return;
+			}
 			char *const values = emalloc(str_byte_length);
 			array->entries_int8 = (int8_t *)values;
 			array->size = num_elements;
-- 
2.43.0


From f744190a4835c4e19b12680b012b3672ceb7156f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:05 +0000
Subject: [PATCH 27/82] fix: EmptySequence::offsetGet and offsetExists returned
 null for offsets convertible to int

---
 teds_emptycollection.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/teds_emptycollection.c b/teds_emptycollection.c
index 29b0c57..9c734d1 100644
--- a/teds_emptycollection.c
+++ b/teds_emptycollection.c
@@ -232,7 +232,9 @@ PHP_METHOD(Teds_EmptySequence, offsetGet)
 
 	if (UNEXPECTED(Z_TYPE_P(offset_zv) != IS_LONG)) {
 		teds_get_offset(offset_zv); /* Throws for invalid type */
-		RETURN_THROWS();
+		if (UNEXPECTED(EG(exception))) {
+			RETURN_THROWS();
+		}
 	}
 	teds_throw_invalid_sequence_index_exception();
 }
@@ -279,7 +281,9 @@ PHP_METHOD(Teds_EmptySequence, offsetExists)
 
 	if (UNEXPECTED(Z_TYPE_P(offset_zv) != IS_LONG)) {
 		teds_get_offset(offset_zv); /* Throws for invalid type */
-		RETURN_THROWS();
+		if (UNEXPECTED(EG(exception))) {
+			RETURN_THROWS();
+		}
 	}
 	RETURN_FALSE;
 }
-- 
2.43.0


From 04f1e4940197f0e0f8acb2e8e95ab2f98ca3552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:05 +0000
Subject: [PATCH 28/82] fix: EmptyMap::offsetGet returned null instead of
 throwing like the array syntax and every other map

---
 teds_emptycollection.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teds_emptycollection.c b/teds_emptycollection.c
index 9c734d1..4191ecd 100644
--- a/teds_emptycollection.c
+++ b/teds_emptycollection.c
@@ -246,7 +246,8 @@ PHP_METHOD(Teds_EmptyMap, offsetGet)
 		Z_PARAM_ZVAL(offset_zv)
 	ZEND_PARSE_PARAMETERS_END();
 
-	RETURN_NULL();
+	(void)offset_zv;
+	TEDS_THROW_MISSING_MAP_KEY_EXCEPTION();
 }
 
 PHP_METHOD(Teds_EmptyMap, offsetUnset)
-- 
2.43.0


From 4b8e9f0b889933090c2306ec4b6fe239f12aa6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:39 +0000
Subject: [PATCH 29/82] fix: EmptySequence::contains, containsKey and
 EmptySet::contains threw TypeError for values that are not valid offsets

---
 teds_emptycollection.stub.php  | 5 ++---
 teds_emptycollection_arginfo.h | 8 ++++----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/teds_emptycollection.stub.php b/teds_emptycollection.stub.php
index 240f340..98b96f8 100644
--- a/teds_emptycollection.stub.php
+++ b/teds_emptycollection.stub.php
@@ -95,7 +95,7 @@ enum EmptySequence implements \Iterator, Sequence, \JsonSerializable
     public function offsetExists(mixed $offset): bool {}
     /**
      * @return false
-     * @implementation-alias Teds\EmptySequence::offsetExists
+     * @implementation-alias Teds\EmptySequence::contains
      */
     public function containsKey(mixed $offset): bool {}
     /**
@@ -115,7 +115,6 @@ enum EmptySequence implements \Iterator, Sequence, \JsonSerializable
     public function indexOf(mixed $value): ?int {}
     /**
      * @return false
-     * @implementation-alias Teds\EmptySequence::offsetExists
      */
     public function contains(mixed $value): bool {}
 
@@ -304,7 +303,7 @@ enum EmptySet implements \Iterator, Set, \JsonSerializable
 
     /**
      * @return false
-     * @implementation-alias Teds\EmptySequence::offsetExists
+     * @implementation-alias Teds\EmptySequence::contains
      */
     public function contains(mixed $value): bool {}
 
diff --git a/teds_emptycollection_arginfo.h b/teds_emptycollection_arginfo.h
index 28f9770..f03d84b 100644
--- a/teds_emptycollection_arginfo.h
+++ b/teds_emptycollection_arginfo.h
@@ -1,5 +1,5 @@
 /* This is a generated file, edit the .stub.php file instead.
- * Stub hash: 5f15d481b4e91cfc2590a84139279e5d4d4f0ecd */
+ * Stub hash: e64208ed0454f972797407b0ef764620c005ef63 */
 
 #if PHP_VERSION_ID >= 80100
 ZEND_BEGIN_ARG_WITH_RETURN_TYPE_INFO_EX(arginfo_class_Teds_EmptySequence_count, 0, 0, IS_LONG, 0)
@@ -389,11 +389,11 @@ static const zend_function_entry class_Teds_EmptySequence_methods[] = {
 	ZEND_MALIAS(Teds_StrictMinHeap, clear, rewind, arginfo_class_Teds_EmptySequence_clear, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, offsetGet, arginfo_class_Teds_EmptySequence_offsetGet, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, offsetExists, arginfo_class_Teds_EmptySequence_offsetExists, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_EmptySequence, containsKey, offsetExists, arginfo_class_Teds_EmptySequence_containsKey, ZEND_ACC_PUBLIC)
+	ZEND_MALIAS(Teds_EmptySequence, containsKey, contains, arginfo_class_Teds_EmptySequence_containsKey, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, offsetSet, arginfo_class_Teds_EmptySequence_offsetSet, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, offsetUnset, arginfo_class_Teds_EmptySequence_offsetUnset, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, indexOf, arginfo_class_Teds_EmptySequence_indexOf, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_EmptySequence, contains, offsetExists, arginfo_class_Teds_EmptySequence_contains, ZEND_ACC_PUBLIC)
+	ZEND_ME(Teds_EmptySequence, contains, arginfo_class_Teds_EmptySequence_contains, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, map, arginfo_class_Teds_EmptySequence_map, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, filter, arginfo_class_Teds_EmptySequence_filter, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, jsonSerialize, toArray, arginfo_class_Teds_EmptySequence_jsonSerialize, ZEND_ACC_PUBLIC)
@@ -440,7 +440,7 @@ static const zend_function_entry class_Teds_EmptySet_methods[] = {
 	ZEND_MALIAS(Teds_StrictMinHeap, clear, rewind, arginfo_class_Teds_EmptySet_clear, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, toArray, toArray, arginfo_class_Teds_EmptySet_toArray, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, values, toArray, arginfo_class_Teds_EmptySet_values, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_EmptySequence, contains, offsetExists, arginfo_class_Teds_EmptySet_contains, ZEND_ACC_PUBLIC)
+	ZEND_MALIAS(Teds_EmptySequence, contains, contains, arginfo_class_Teds_EmptySet_contains, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, add, offsetUnset, arginfo_class_Teds_EmptySet_add, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, remove, contains, arginfo_class_Teds_EmptySet_remove, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, jsonSerialize, toArray, arginfo_class_Teds_EmptySet_jsonSerialize, ZEND_ACC_PUBLIC)
-- 
2.43.0


From 82f28c97658b26e3dadb759e38f9a4d4e4bcd26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:39 +0000
Subject: [PATCH 30/82] fix: EmptyMap::offsetUnset and unset() threw
 ArgumentCountError instead of doing nothing

---
 teds_emptycollection.stub.php  | 1 -
 teds_emptycollection_arginfo.h | 8 ++++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/teds_emptycollection.stub.php b/teds_emptycollection.stub.php
index 98b96f8..2972f91 100644
--- a/teds_emptycollection.stub.php
+++ b/teds_emptycollection.stub.php
@@ -212,7 +212,6 @@ enum EmptyMap implements \Iterator, Map, \JsonSerializable
     public function offsetSet(mixed $key, mixed $value): never {}
     /**
      * No-op for empty map.
-     * @implementation-alias Teds\StrictMinHeap::rewind
      */
     public function offsetUnset(mixed $key): void {}
 
diff --git a/teds_emptycollection_arginfo.h b/teds_emptycollection_arginfo.h
index f03d84b..9439ad3 100644
--- a/teds_emptycollection_arginfo.h
+++ b/teds_emptycollection_arginfo.h
@@ -1,5 +1,5 @@
 /* This is a generated file, edit the .stub.php file instead.
- * Stub hash: e64208ed0454f972797407b0ef764620c005ef63 */
+ * Stub hash: c506233b8fd8e1185d51e2bd5a473f63ed045769 */
 
 #if PHP_VERSION_ID >= 80100
 ZEND_BEGIN_ARG_WITH_RETURN_TYPE_INFO_EX(arginfo_class_Teds_EmptySequence_count, 0, 0, IS_LONG, 0)
@@ -361,6 +361,10 @@ ZEND_METHOD(Teds_EmptySequence, valid);
 #if PHP_VERSION_ID >= 80100
 ZEND_METHOD(Teds_EmptyMap, offsetGet);
 #endif
+
+#if PHP_VERSION_ID >= 80100
+ZEND_METHOD(Teds_EmptyMap, offsetUnset);
+#endif
 #if PHP_VERSION_ID >= 80100
 ZEND_METHOD(Teds_EmptySequence, contains);
 #endif
@@ -418,7 +422,7 @@ static const zend_function_entry class_Teds_EmptyMap_methods[] = {
 	ZEND_ME(Teds_EmptyMap, offsetGet, arginfo_class_Teds_EmptyMap_offsetGet, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, offsetExists, contains, arginfo_class_Teds_EmptyMap_offsetExists, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, offsetSet, offsetSet, arginfo_class_Teds_EmptyMap_offsetSet, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_StrictMinHeap, offsetUnset, rewind, arginfo_class_Teds_EmptyMap_offsetUnset, ZEND_ACC_PUBLIC)
+	ZEND_ME(Teds_EmptyMap, offsetUnset, arginfo_class_Teds_EmptyMap_offsetUnset, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, contains, contains, arginfo_class_Teds_EmptyMap_contains, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, containsKey, contains, arginfo_class_Teds_EmptyMap_containsKey, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptyMap, get, arginfo_class_Teds_EmptyMap_get, ZEND_ACC_PUBLIC)
-- 
2.43.0


From cc8a00b1b793089fe16d6f55d9d6a3a957b00155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:09 +0000
Subject: [PATCH 31/82] fix: Vector and ImmutableSequence filter() and map()
 released an uninitialized value and leaked others when the callback threw

---
 teds_immutablesequence.c | 10 ++++++----
 teds_vector.c            | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index 110210b..a15987d 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -825,8 +825,8 @@ PHP_METHOD(Teds_ImmutableSequence, filter)
 				zval_ptr_dtor(&operand);
 cleanup:
 				if (entries) {
-					for (; size > 0; size--) {
-						zval_ptr_dtor(&entries[size]);
+					while (size > 0) {
+						zval_ptr_dtor(&entries[--size]);
 					}
 					efree(entries);
 				}
@@ -835,6 +835,7 @@ cleanup:
 			const bool is_true = zend_is_true(&retval);
 			zval_ptr_dtor(&retval);
 			if (UNEXPECTED(EG(exception))) {
+				zval_ptr_dtor(&operand);
 				goto cleanup;
 			}
 			if (!is_true) {
@@ -950,9 +951,10 @@ PHP_METHOD(Teds_ImmutableSequence, map)
 		zval_ptr_dtor(&operand);
 		if (UNEXPECTED(result != SUCCESS || EG(exception))) {
 			if (entries) {
-				for (; size > 0; size--) {
+				do {
+					/* entries[size] is the return value of the last call, undef if it threw */
 					zval_ptr_dtor(&entries[size]);
-				}
+				} while (size-- > 0);
 				efree(entries);
 			}
 			return;
diff --git a/teds_vector.c b/teds_vector.c
index 8f9a36c..3e719bb 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -914,8 +914,8 @@ PHP_METHOD(Teds_Vector, filter)
 				zval_ptr_dtor(&operand);
 cleanup:
 				if (entries) {
-					for (; size > 0; size--) {
-						zval_ptr_dtor(&entries[size]);
+					while (size > 0) {
+						zval_ptr_dtor(&entries[--size]);
 					}
 					efree(entries);
 				}
@@ -924,6 +924,7 @@ cleanup:
 			const bool is_true = zend_is_true(&retval);
 			zval_ptr_dtor(&retval);
 			if (UNEXPECTED(EG(exception))) {
+				zval_ptr_dtor(&operand);
 				goto cleanup;
 			}
 			if (!is_true) {
@@ -1040,9 +1041,10 @@ PHP_METHOD(Teds_Vector, map)
 		zval_ptr_dtor(&operand);
 		if (UNEXPECTED(result != SUCCESS || EG(exception))) {
 			if (entries) {
-				for (; size > 0; size--) {
+				do {
+					/* entries[size] is the return value of the last call, undef if it threw */
 					zval_ptr_dtor(&entries[size]);
-				}
+				} while (size-- > 0);
 				efree(entries);
 			}
 			return;
-- 
2.43.0


From 42376ad3a057132788f6a3040094e89b3cf73b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:09 +0000
Subject: [PATCH 32/82] fix: Vector::filter overran its result when the
 callback shrank the vector

---
 teds_vector.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teds_vector.c b/teds_vector.c
index 3e719bb..1e00ddf 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -937,7 +937,7 @@ cleanup:
 
 			if (size >= capacity) {
 				if (entries) {
-					capacity = size + array->size - i;
+					capacity = size + (array->size > i ? array->size - i : 1);
 					if (UNEXPECTED(capacity >= TEDS_MAX_ZVAL_COLLECTION_SIZE)) {
 						teds_error_noreturn_max_vector_capacity();
 						ZEND_UNREACHABLE();
@@ -968,7 +968,7 @@ cleanup:
 
 			if (size >= capacity) {
 				if (entries) {
-					capacity = size + array->size - i;
+					capacity = size + (array->size > i ? array->size - i : 1);
 					entries = safe_erealloc(entries, capacity, sizeof(zval), 0);
 				} else {
 					ZEND_ASSERT(size == 0);
-- 
2.43.0


From fa98a811bc1694997bb88990a076f4c8e5cd1625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:37 +0000
Subject: [PATCH 33/82] fix: IntVector::push and pushInts added the leading
 arguments before throwing TypeError for a later one

---
 teds_intvector.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/teds_intvector.c b/teds_intvector.c
index f07ac40..35c454d 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -2070,6 +2070,12 @@ PHP_METHOD(Teds_IntVector, push)
 		ZEND_UNREACHABLE();
 	}
 
+	/* Check every argument before adding any of them */
+	for (uint32_t i = 0; i < argc; i++) {
+		zend_long new_value;
+		TEDS_INTVECTOR_VALUE_TO_LONG_OR_THROW(new_value, (&args[i]));
+		(void)new_value;
+	}
 	for (uint32_t i = 0; i < argc; i++) {
 		zend_long new_value;
 		TEDS_INTVECTOR_VALUE_TO_LONG_OR_THROW(new_value, (&args[i]));
@@ -2267,6 +2273,12 @@ PHP_METHOD(Teds_IntVector, pushInts)
 		ZEND_UNREACHABLE();
 	}
 
+	/* Check every argument before adding any of them */
+	for (uint32_t i = 0; i < argc; i++) {
+		zend_long new_value;
+		TEDS_INTVECTOR_VALUE_TO_LONG_OR_THROW(new_value, (&args[i]));
+		(void)new_value;
+	}
 	for (uint32_t i = 0; i < argc; i++) {
 		zend_long new_value;
 		TEDS_INTVECTOR_VALUE_TO_LONG_OR_THROW(new_value, (&args[i]));
-- 
2.43.0


From adb5c8f47e3ee5a544ff49da34963ae2af5516c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:37 +0000
Subject: [PATCH 34/82] fix: BitVector push, pushBits, pushFront and insert
 applied the leading arguments before throwing TypeError for a later one

---
 teds_bitvector.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index 644931c..ef5f176 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -1262,6 +1262,12 @@ PHP_METHOD(Teds_BitVector, push)
 		ZEND_UNREACHABLE();
 	}
 
+	/* Check every argument before adding any of them */
+	for (uint32_t i = 0; i < argc; i++) {
+		zend_long new_value;
+		TEDS_BITVECTOR_VALUE_TO_BOOL_OR_THROW(new_value, (&args[i]));
+		(void)new_value;
+	}
 	for (uint32_t i = 0; i < argc; i++) {
 		zend_long new_value;
 		TEDS_BITVECTOR_VALUE_TO_BOOL_OR_THROW(new_value, (&args[i]));
@@ -1360,6 +1366,12 @@ PHP_METHOD(Teds_BitVector, pushFront)
 		ZEND_UNREACHABLE();
 	}
 
+	/* Check every argument before adding any of them */
+	for (uint32_t i = 0; i < argc; i++) {
+		zend_long new_value;
+		TEDS_BITVECTOR_VALUE_TO_BOOL_OR_THROW(new_value, (&args[i]));
+		(void)new_value;
+	}
 	/* TODO: Optimize this for large varargs case */
 	teds_bitvector_maybe_adjust_iterators_before_insert(array, 0, argc);
 	for (uint32_t i = 0; i < argc; i++) {
@@ -1397,6 +1409,12 @@ PHP_METHOD(Teds_BitVector, insert)
 		ZEND_UNREACHABLE();
 	}
 
+	/* Check every argument before adding any of them */
+	for (uint32_t i = 0; i < argc; i++) {
+		zend_long new_value;
+		TEDS_BITVECTOR_VALUE_TO_BOOL_OR_THROW(new_value, (&args[i]));
+		(void)new_value;
+	}
 	/* TODO: Optimize this for large varargs case */
 	teds_bitvector_maybe_adjust_iterators_before_insert(array, inserted_offset, argc);
 	for (uint32_t i = 0; i < argc; i++) {
@@ -1429,6 +1447,13 @@ PHP_METHOD(Teds_BitVector, pushBits)
 		ZEND_UNREACHABLE();
 	}
 
+	/* Check every argument before adding any of them */
+	for (uint32_t j = 0; j < argc; j++) {
+		bool new_value;
+		TEDS_BITVECTOR_VALUE_TO_BOOL_OR_THROW(new_value, (&args[j]));
+		(void)new_value;
+	}
+
 	const size_t new_capacity = teds_bitvector_compute_next_valid_capacity(new_size);
 	if (UNEXPECTED(new_capacity > array->bit_capacity)) {
 		teds_bitvector_entries_raise_capacity(array, teds_bitvector_compute_next_valid_capacity(new_size + (new_size >> 1)));
-- 
2.43.0


From 3e735bdc973b38b29dc54b1bebb5bd6c0a48c132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:38 +0000
Subject: [PATCH 35/82] fix: CachedIterable looped forever when a method
 fetching everything was called while fetching the next element

---
 teds_cachediterable.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index 7a6aa51..6e26518 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -242,7 +242,10 @@ handle_exception:
 static zend_always_inline void teds_cachediterable_entries_fetch_all(teds_cachediterable_entries *array)
 {
 	while (array->iter) {
-		teds_cachediterable_entries_lazy_fetch_next(array);
+		if (!teds_cachediterable_entries_lazy_fetch_next(array)) {
+			/* Finished, failed, or was called while already fetching the next element. */
+			return;
+		}
 	}
 }
 
-- 
2.43.0


From bdc10658a263d723f36a05685b73ec5716e6c5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:38 +0000
Subject: [PATCH 36/82] fix: CachedIterable treated an exception thrown by
 Iterator::valid() as the normal end of the source

---
 teds_cachediterable.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index 6e26518..e43179a 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -234,6 +234,9 @@ handle_exception:
 		array->is_calling_inner = false;
 		return true;
 	}
+	if (UNEXPECTED(EG(exception))) {
+		goto handle_exception;
+	}
 	array->is_calling_inner = false;
 	teds_cachediterable_entries_free_inner_traversable(array);
 	return false;
-- 
2.43.0


From 20a627d916d2b8bb71b97c3dbc1a806ee0d498d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:38 +0000
Subject: [PATCH 37/82] fix: CachedIterable searches compared only the first of
 the elements they fetched

---
 teds_cachediterable.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index e43179a..78ae8cc 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -882,6 +882,7 @@ PHP_METHOD(Teds_CachedIterable, indexOfKey)
 		if (teds_is_identical_inline(key, &array->entries[i].key)) {
 			RETURN_LONG(i);
 		}
+		i++;
 	}
 	RETURN_NULL();
 }
@@ -912,6 +913,7 @@ PHP_METHOD(Teds_CachedIterable, indexOfValue)
 		if (teds_is_identical_inline(value, &array->entries[i].value)) {
 			RETURN_LONG(i);
 		}
+		i++;
 	}
 	RETURN_NULL();
 }
@@ -942,6 +944,7 @@ PHP_METHOD(Teds_CachedIterable, containsKey)
 		if (teds_is_identical_inline(key, &array->entries[i].key)) {
 			RETURN_TRUE;
 		}
+		i++;
 	}
 	RETURN_FALSE;
 }
@@ -972,6 +975,7 @@ PHP_METHOD(Teds_CachedIterable, contains)
 		if (teds_is_identical_inline(value, &array->entries[i].value)) {
 			RETURN_TRUE;
 		}
+		i++;
 	}
 	RETURN_FALSE;
 }
-- 
2.43.0


From cc58a6864622de2a1b29e6e3332ebd801f9cd4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:38 +0000
Subject: [PATCH 38/82] fix: CachedIterable::toPairs returned only the elements
 fetched before the call

---
 teds_cachediterable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index 78ae8cc..f88ee29 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -982,11 +982,11 @@ PHP_METHOD(Teds_CachedIterable, contains)
 
 static void teds_cachediterable_entries_return_pairs(zval *return_value, teds_cachediterable_entries *array)
 {
+	TEDS_CACHEDITERABLE_ENTRIES_FETCH_ALL_OR_THROW(array);
 	const uint32_t len = array->size;
 	if (!len) {
 		RETURN_EMPTY_ARRAY();
 	}
-	TEDS_CACHEDITERABLE_ENTRIES_FETCH_ALL_OR_THROW(array);
 
 	zval_pair *entries = array->entries;
 	RETURN_ARR(teds_zval_pairs_to_refcounted_pairs(entries, len));
-- 
2.43.0


From f477901364d3be2cc773d9cbbce12f0cef974d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:38 +0000
Subject: [PATCH 39/82] fix: count() of a CachedIterable counted only the
 elements fetched so far

---
 teds_cachediterable.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index f88ee29..2fc2311 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -422,8 +422,15 @@ static zend_object *teds_cachediterable_new(zend_class_entry *class_type)
 
 TEDS_COUNT_ELEMENTS_RETURN_TYPE teds_size_t_count_elements(zend_object *object, zend_long *count)
 {
-	const teds_cachediterable *intern = teds_cachediterable_from_object(object);
-	*count = intern->array.size;
+	teds_cachediterable_entries *array = &teds_cachediterable_from_object(object)->array;
+	teds_cachediterable_entries_fetch_all(array);
+	if (UNEXPECTED(array->end_exception && !EG(exception))) {
+		teds_cachediterable_entries_throw_end_exception(array);
+	}
+	if (UNEXPECTED(EG(exception))) {
+		return FAILURE;
+	}
+	*count = array->size;
 	return SUCCESS;
 }
 
-- 
2.43.0


From f4eda7622193cc63c0ccc39d5f49565b71e60662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:38 +0000
Subject: [PATCH 40/82] fix: CachedIterable::__unserialize leaked an empty
 buffer

---
 teds_cachediterable.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index 2fc2311..7055ad3 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -645,6 +645,10 @@ PHP_METHOD(Teds_CachedIterable, __unserialize)
 	}
 
 	ZEND_ASSERT(array->entries == NULL);
+	if (raw_size == 0) {
+		teds_cachediterable_entries_set_empty_list(array);
+		return;
+	}
 
 	const uint32_t num_entries = raw_size / 2;
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
-- 
2.43.0


From 3b67a9eaf09804c863184ca379194273a3f203df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:09 +0000
Subject: [PATCH 41/82] fix: unserializing an empty ImmutableIterable,
 MutableIterable or ImmutableSequence leaked an empty buffer

---
 teds_immutableiterable.c | 5 +++++
 teds_immutablesequence.c | 5 +++++
 teds_mutableiterable.c   | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index 54fb123..dfade41 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -581,6 +581,11 @@ PHP_METHOD(Teds_ImmutableIterable, __unserialize)
 
 	ZEND_ASSERT(intern->array.entries == NULL);
 
+	if (raw_size == 0) {
+		teds_immutableiterable_entries_set_empty_list(&intern->array);
+		return;
+	}
+
 	const uint32_t num_entries = raw_size / 2;
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
 	zval *it = &entries[0].key;
diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index a15987d..9e4a98f 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -564,6 +564,11 @@ PHP_METHOD(Teds_ImmutableSequence, __unserialize)
 
 	ZEND_ASSERT(intern->array.entries == NULL);
 
+	if (num_entries == 0) {
+		teds_immutablesequence_entries_set_empty_list(&intern->array);
+		return;
+	}
+
 	zval *const entries = safe_emalloc(num_entries, sizeof(zval), 0);
 	zval *it = entries;
 
diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index 2a890c1..0e2dc00 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -710,6 +710,11 @@ PHP_METHOD(Teds_MutableIterable, __unserialize)
 
 	ZEND_ASSERT(intern->array.entries == NULL);
 
+	if (raw_size == 0) {
+		teds_mutableiterable_entries_set_empty_list(&intern->array);
+		return;
+	}
+
 	const uint32_t num_entries = raw_size / 2;
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
 	zval *it = &entries[0].key;
-- 
2.43.0


From 9ab35ba8f25c27f5e747e0aa9fe3935c8a9319c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:26 +0000
Subject: [PATCH 42/82] fix: current() and key() of a CachedIterable iterator
 threw for an element that had not been fetched yet

---
 teds_cachediterable.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index 7055ad3..fe2f839 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -549,8 +549,10 @@ static zval_pair *teds_cachediterable_read_offset_helper(teds_cachediterable *in
 {
 	/* we have to return NULL on error here to avoid memleak because of
 	 * ZE duplicating uninitialized_zval_ptr */
-	if (UNEXPECTED(offset >= intern->array.size)) {
-		teds_throw_invalid_collection_offset_exception();
+	if (offset >= intern->array.size && !teds_cachediterable_entries_ensure_offset_exists(&intern->array, offset)) {
+		if (!EG(exception)) {
+			teds_throw_invalid_collection_offset_exception();
+		}
 		return NULL;
 	} else {
 		return &intern->array.entries[offset];
-- 
2.43.0


From c6fcd1e4255758e4ed58796205cd380f46c60e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:18 +0000
Subject: [PATCH 43/82] fix: fromPairs() leaked the iterator when rewinding it
 threw

---
 teds_immutableiterable.c     | 1 +
 teds_mutableiterable.c       | 1 +
 teds_stricthashmap.c         | 1 +
 teds_strictsortedvectormap.c | 1 +
 teds_stricttreemap.c         | 1 +
 5 files changed, 5 insertions(+)

diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index dfade41..5339fb1 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -682,6 +682,7 @@ static void teds_immutableiterable_entries_init_from_traversable_pairs(teds_immu
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
+			zend_iterator_dtor(iter);
 			return;
 		}
 	}
diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index 0e2dc00..803a59e 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -816,6 +816,7 @@ static void teds_mutableiterable_entries_init_from_traversable_pairs(teds_mutabl
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
+			zend_iterator_dtor(iter);
 			return;
 		}
 	}
diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index 362f151..e8a5fef 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -971,6 +971,7 @@ static void teds_stricthashmap_entries_init_from_traversable_pairs(teds_strictha
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
+			zend_iterator_dtor(iter);
 			return;
 		}
 	}
diff --git a/teds_strictsortedvectormap.c b/teds_strictsortedvectormap.c
index 5b0a443..b7c289c 100644
--- a/teds_strictsortedvectormap.c
+++ b/teds_strictsortedvectormap.c
@@ -552,6 +552,7 @@ static void teds_strictsortedvectormap_entries_init_from_traversable_pairs(teds_
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
+			zend_iterator_dtor(iter);
 			return;
 		}
 	}
diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index ce4d8ea..5c2e34c 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -973,6 +973,7 @@ static void teds_stricttreemap_tree_init_from_traversable_pairs(teds_stricttreem
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
+			zend_iterator_dtor(iter);
 			return;
 		}
 	}
-- 
2.43.0


From 5dbc8b32a44a4a9bd3474d42ea8e52ba04bd53d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:18 +0000
Subject: [PATCH 44/82] fix: ImmutableIterable::fromPairs and
 MutableIterable::fromPairs leaked a buffer when the first pair of a
 Traversable was invalid

---
 teds_immutableiterable.c | 5 +++++
 teds_mutableiterable.c   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index 5339fb1..02ef7b1 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -706,6 +706,11 @@ static void teds_immutableiterable_entries_init_from_traversable_pairs(teds_immu
 			}
 		}
 		if (!teds_cached_entry_copy_entry_from_array_pair(&entries[size], pair)) {
+			if (size == 0) {
+				efree(entries);
+				entries = NULL;
+				capacity = 0;
+			}
 			break;
 		}
 		size++;
diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index 803a59e..e092575 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -840,6 +840,11 @@ static void teds_mutableiterable_entries_init_from_traversable_pairs(teds_mutabl
 			}
 		}
 		if (!teds_cached_entry_copy_entry_from_array_pair(&entries[size], pair)) {
+			if (size == 0) {
+				efree(entries);
+				entries = NULL;
+				capacity = 0;
+			}
 			break;
 		}
 		size++;
-- 
2.43.0


From b15ba8b7dd9c141d42b7e7f3d52638de7fa90889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:18 +0000
Subject: [PATCH 45/82] fix: an empty ImmutableSequence or ImmutableIterable
 could be filled by calling __construct or __unserialize on it

---
 teds_immutableiterable.c | 7 +++----
 teds_immutablesequence.c | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index 02ef7b1..e238649 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -201,7 +201,7 @@ static void teds_immutableiterable_entries_init_from_traversable(teds_immutablei
 	}
 
 	array->size = size;
-	array->entries = entries;
+	array->entries = size > 0 ? entries : (zval_pair *)empty_entry_list;
 cleanup_iter:
 	if (iter) {
 		zend_iterator_dtor(iter);
@@ -637,8 +637,7 @@ static void teds_immutableiterable_entries_init_from_array_pairs(teds_immutablei
 {
 	uint32_t num_entries = zend_hash_num_elements(raw_data);
 	if (num_entries == 0) {
-		array->size = 0;
-		array->entries = NULL;
+		teds_immutableiterable_entries_set_empty_list(array);
 		return;
 	}
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
@@ -727,7 +726,7 @@ static void teds_immutableiterable_entries_init_from_traversable_pairs(teds_immu
 	}
 
 	array->size = size;
-	array->entries = entries;
+	array->entries = size > 0 ? entries : (zval_pair *)empty_entry_list;
 	if (iter) {
 		zend_iterator_dtor(iter);
 	}
diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index 9e4a98f..202df43 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -181,7 +181,7 @@ static void teds_immutablesequence_entries_init_from_traversable(teds_immutables
 	}
 
 	array->size = size;
-	array->entries = entries;
+	array->entries = size > 0 ? entries : (zval *)empty_entry_list;
 cleanup_iter:
 	if (iter) {
 		zend_iterator_dtor(iter);
-- 
2.43.0


From 2d05802945547d54e0359ba96f0a30a15101f7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:56 +0000
Subject: [PATCH 46/82] fix: any(), all() and none() without a callback
 released elements of a Traversable that they did not own

---
 teds.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/teds.c b/teds.c
index d5ae4ad..d014e01 100644
--- a/teds.c
+++ b/teds.c
@@ -255,7 +255,6 @@ static int teds_traversable_func_until(zend_object_iterator *iter, void *puser)
 		}
 		ZVAL_DEREF(operand);
 		stop = zend_is_true(operand) == until_info->stop_value;
-		zval_ptr_dtor(operand);
 	}
 	if (stop) {
 		until_info->found = true;
-- 
2.43.0


From 74e1e16be025ebe87ee1eafd1bbe68dc620717ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:56 +0000
Subject: [PATCH 47/82] fix: find() leaked the value returned by its callback,
 and the element when the callback threw

---
 teds.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/teds.c b/teds.c
index d014e01..d218080 100644
--- a/teds.c
+++ b/teds.c
@@ -771,6 +771,7 @@ static zend_always_inline void teds_array_find(HashTable *htbl, zend_fcall_info
 
 			if (zend_call_function(&fci, &fci_cache) == SUCCESS) {
 				bool found = zend_is_true(&retval);
+				zval_ptr_dtor(&retval);
 				if (found) {
 					ZVAL_COPY_VALUE(return_value, operand);
 					return;
@@ -817,6 +818,7 @@ static int teds_traversable_find_elem(zend_object_iterator *iter, void *puser) /
 	Z_TRY_ADDREF_P(operand);
 	int result = zend_call_function(&find_data->fci, &find_data->fcc);
 	if (UNEXPECTED(result == FAILURE || EG(exception))) {
+		zval_ptr_dtor(operand);
 		return ZEND_HASH_APPLY_STOP;
 	}
 	fci->retval = &retval;
-- 
2.43.0


From d83f0ff13c999d1df2245db2daa38a1042964b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:56 +0000
Subject: [PATCH 48/82] fix: any(), all(), none(), find() and fold() used a
 freed element when the callback replaced it in the Traversable

---
 teds.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/teds.c b/teds.c
index d218080..e117c33 100644
--- a/teds.c
+++ b/teds.c
@@ -139,7 +139,8 @@ static int teds_traversable_reduce_elem(zend_object_iterator *iter, void *puser)
 	ZVAL_COPY(&reduce_data->args[1], operand);
 	ZVAL_NULL(fci->retval);
 	int result = zend_call_function(&reduce_data->fci, &reduce_data->fcc);
-	zval_ptr_dtor(operand);
+	/* The callback may have replaced the element that the iterator refers to. */
+	zval_ptr_dtor(&reduce_data->args[1]);
 	zval_ptr_dtor(&reduce_data->args[0]);
 	if (UNEXPECTED(result == FAILURE || EG(exception))) {
 		return ZEND_HASH_APPLY_STOP;
@@ -232,15 +233,13 @@ static int teds_traversable_func_until(zend_object_iterator *iter, void *puser)
 			until_info->result = FAILURE;
 			return ZEND_HASH_APPLY_STOP;
 		}
-		ZVAL_DEREF(operand);
+		zval arg;
+		ZVAL_COPY_DEREF(&arg, operand);
 		fci.retval = &retval;
 		fci.param_count = 1;
-		/* Use the operand like an array of size 1 */
-		fci.params = operand;
-		fci.retval = &retval;
-		Z_TRY_ADDREF_P(operand);
+		fci.params = &arg;
 		result = zend_call_function(&fci, &until_info->fcc);
-		zval_ptr_dtor(operand);
+		zval_ptr_dtor(&arg);
 		if (result == FAILURE) {
 			until_info->result = FAILURE;
 			return ZEND_HASH_APPLY_STOP;
@@ -811,28 +810,29 @@ static int teds_traversable_find_elem(zend_object_iterator *iter, void *puser) /
 	if (UNEXPECTED(!operand || EG(exception))) {
 		return ZEND_HASH_APPLY_STOP;
 	}
-	ZVAL_DEREF(operand);
-    // Treat this as a 1-element array.
-	fci->params = operand;
+	/* The callback may replace the element that the iterator refers to. */
+	zval arg;
+	ZVAL_COPY_DEREF(&arg, operand);
+	fci->params = &arg;
 	fci->retval = &retval;
-	Z_TRY_ADDREF_P(operand);
 	int result = zend_call_function(&find_data->fci, &find_data->fcc);
 	if (UNEXPECTED(result == FAILURE || EG(exception))) {
-		zval_ptr_dtor(operand);
+		zval_ptr_dtor(&arg);
 		return ZEND_HASH_APPLY_STOP;
 	}
 	fci->retval = &retval;
 	bool found = zend_is_true(&retval);
 	zval_ptr_dtor(&retval);
 	if (UNEXPECTED(EG(exception))) {
+		zval_ptr_dtor(&arg);
 		return ZEND_HASH_APPLY_STOP;
 	}
 	if (found) {
-		ZVAL_COPY_VALUE(find_data->return_value, operand);
+		ZVAL_COPY_VALUE(find_data->return_value, &arg);
 		find_data->found = 1;
 		return ZEND_HASH_APPLY_STOP;
 	}
-	zval_ptr_dtor(operand);
+	zval_ptr_dtor(&arg);
 	return ZEND_HASH_APPLY_KEEP;
 }
 
-- 
2.43.0


From 421be12033c55ee0d03b38c75fddaabd5789b50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:30 +0000
Subject: [PATCH 49/82] fix: find() and fold() could return a PHP reference
 into the caller's variables

---
 teds.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/teds.c b/teds.c
index e117c33..ba3ac58 100644
--- a/teds.c
+++ b/teds.c
@@ -145,6 +145,9 @@ static int teds_traversable_reduce_elem(zend_object_iterator *iter, void *puser)
 	if (UNEXPECTED(result == FAILURE || EG(exception))) {
 		return ZEND_HASH_APPLY_STOP;
 	}
+	if (UNEXPECTED(Z_ISREF_P(fci->retval))) {
+		zend_unwrap_reference(fci->retval);
+	}
 	return ZEND_HASH_APPLY_KEEP;
 }
 /* }}} */
@@ -773,6 +776,9 @@ static zend_always_inline void teds_array_find(HashTable *htbl, zend_fcall_info
 				zval_ptr_dtor(&retval);
 				if (found) {
 					ZVAL_COPY_VALUE(return_value, operand);
+					if (UNEXPECTED(Z_ISREF_P(return_value))) {
+						zend_unwrap_reference(return_value);
+					}
 					return;
 				} else {
 					zval_ptr_dtor(operand);
-- 
2.43.0


From 9b66b1b1a887e3922e97a4b2ecaf55b8e536004e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:36 +0000
Subject: [PATCH 50/82] fix: clear() of StrictTreeMap and StrictTreeSet left
 active iterators pointing at freed nodes

---
 teds_stricttreemap.c | 9 +++++++++
 teds_stricttreeset.c | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index 5c2e34c..57aaac5 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -1708,6 +1708,15 @@ static void teds_stricttreemap_tree_clear(teds_stricttreemap_tree *tree) {
 	}
 	teds_stricttreemap_tree array_copy = *tree;
 
+	/* The nodes are about to be freed. Like removing every element, leave iterators before the first element. */
+	for (teds_intrusive_dllist_node *dllist_node = tree->active_iterators.first; dllist_node != NULL; dllist_node = dllist_node->next) {
+		teds_stricttreemap_it *it = teds_stricttreemap_it_from_dllist_node(dllist_node);
+		if (it->node != NULL) {
+			it->node = NULL;
+			it->is_before_first = true;
+		}
+	}
+
 	teds_stricttreemap_tree_set_empty_tree(tree);
 
 	teds_stricttreemap_tree_dtor(&array_copy);
diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index 7dc2548..860545e 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -1374,6 +1374,15 @@ static void teds_stricttreeset_tree_clear(teds_stricttreeset_tree *tree) {
 	}
 	teds_stricttreeset_tree array_copy = *tree;
 
+	/* The nodes are about to be freed. Like removing every element, leave iterators before the first element. */
+	for (teds_intrusive_dllist_node *dllist_node = tree->active_iterators.first; dllist_node != NULL; dllist_node = dllist_node->next) {
+		teds_stricttreeset_it *it = teds_stricttreeset_it_from_dllist_node(dllist_node);
+		if (it->node != NULL) {
+			it->node = NULL;
+			it->is_before_first = true;
+		}
+	}
+
 	teds_stricttreeset_tree_set_empty_tree(tree);
 
 	teds_stricttreeset_tree_dtor(&array_copy);
-- 
2.43.0


From 53d5e2d2cff6ba0019209d64956f261d0be4f62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:30 +0000
Subject: [PATCH 51/82] fix: SortedIntVectorSet::add() and remove() made open
 iterators skip or repeat elements

---
 teds_intvector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/teds_intvector.c b/teds_intvector.c
index 35c454d..7131a25 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1991,6 +1991,7 @@ static zend_always_inline bool teds_sortedintvectorset_entries_add(teds_intvecto
 				else { return false; /* Already exists */ } \
 			} \
 			/* The value at *start is > target */ \
+			teds_intvector_maybe_adjust_iterators_before_insert(array, start - entries, 1); \
 			memmove(start + 1, start, (entries + old_size - start) * sizeof(intx_t)); \
 			*start = target; \
 			break; \
@@ -2022,6 +2023,7 @@ static zend_always_inline bool teds_sortedintvectorset_entries_remove(teds_intve
 				if (target < *mid) { end = mid; }  \
 				else if (target > *mid) { start = mid + 1; }  \
 				else { \
+					teds_intvector_maybe_adjust_iterators_before_remove(array, mid - entries); \
 					memmove(mid, mid + 1, (entries + old_size - (mid + 1)) * sizeof(intx_t)); \
 					goto after_remove; \
 				} \
-- 
2.43.0


From 6ac2513ebd6e1eb4bcf73133dc0a429bb1748a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:30 +0000
Subject: [PATCH 52/82] fix: inserting into a LowMemoryVector moved iterators
 that were before the first element past unvisited elements

---
 teds_lowmemoryvector.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index 9b76f81..db15e53 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -641,10 +641,11 @@ static zend_always_inline void teds_lowmemoryvector_maybe_adjust_iterators_befor
 static void teds_lowmemoryvector_adjust_iterators_before_insert(teds_lowmemoryvector_entries *const array, teds_intrusive_dllist_node *node, const size_t inserted_offset, const uint32_t n)
 {
 	const zend_object *const obj = teds_lowmemoryvector_to_object(array);
+	const size_t old_size = array->size;
 	do {
 		teds_lowmemoryvector_it *it = teds_lowmemoryvector_it_from_node(node);
 		if (Z_OBJ(it->intern.data) == obj) {
-			if (it->current >= inserted_offset) {
+			if (it->current >= inserted_offset && it->current < old_size) {
 				it->current += n;
 			}
 		}
-- 
2.43.0


From 5853f7d3ce127ced1bb73747f0e1e67d3bcc2f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:09 +0000
Subject: [PATCH 53/82] fix: removing the last entry of a hash map or set moved
 iterators that were before the first entry to the end

---
 teds_stricthashmap.c | 2 +-
 teds_stricthashset.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index e8a5fef..7e23009 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -406,7 +406,7 @@ static void teds_stricthashmap_iterators_shift_to_new_end(teds_stricthashmap_ent
 	ZEND_ASSERT(removed_idx >= nNumUsed);
 	do {
 		teds_stricthashmap_it *const it = teds_stricthashmap_it_from_node(dllist_node);
-		if (it->current >= nNumUsed) {
+		if (it->current >= nNumUsed && it->current != (uint32_t) -1) { /* Iterators before the start of the data stay there */
 			/* Move iterators to their new positions. Iterators at the removed key (or at a gap before it) are shifted to the previous key (removed_idx - 1), which may be before the start of the data (in which case calling next() would make it valid again) */
 			it->current = (it->current <= removed_idx ? nNumUsed - 1 : nNumUsed);
 		}
diff --git a/teds_stricthashset.c b/teds_stricthashset.c
index f017e80..eede84b 100644
--- a/teds_stricthashset.c
+++ b/teds_stricthashset.c
@@ -372,7 +372,7 @@ static void teds_stricthashset_iterators_shift_to_new_end(teds_stricthashset_ent
 	ZEND_ASSERT(removed_idx >= nNumUsed);
 	do {
 		teds_stricthashset_it *const it = teds_stricthashset_it_from_node(dllist_node);
-		if (it->current >= nNumUsed) {
+		if (it->current >= nNumUsed && it->current != (uint32_t) -1) { /* Iterators before the start of the data stay there */
 			/* Move iterators to their new positions. Iterators at the removed key (or at a gap before it) are shifted to the previous key (removed_idx - 1), which may be before the start of the data (in which case calling next() would make it valid again) */
 			it->current = (it->current <= removed_idx ? nNumUsed - 1 : nNumUsed);
 		}
-- 
2.43.0


From 80759a33f6d95637ad4b433967743bf98017b5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:40 +0000
Subject: [PATCH 54/82] fix: BitVector unserialization accepted a negative
 number of bits

---
 teds_bitvector.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index ef5f176..cc4735d 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -667,7 +667,7 @@ PHP_METHOD(Teds_BitVector, __unserialize)
 	const uint8_t *bytes = (const uint8_t *)ZSTR_VAL(zstr);
 	const size_t byte_count = ZSTR_LEN(zstr) - 1;
 	const uint8_t modulo_bit_len = (uint8_t) bytes[byte_count];
-	if (modulo_bit_len >= 8) {
+	if (modulo_bit_len >= 8 || modulo_bit_len > byte_count * 8) {
 		zend_throw_exception(spl_ce_RuntimeException, "Teds\\BitVector expected binary data to end with number of wasted bits", 0);
 		RETURN_THROWS();
 	}
@@ -801,7 +801,7 @@ PHP_METHOD(Teds_BitVector, unserialize)
 		const uint8_t *bytes = (const uint8_t *)ZSTR_VAL(zstr);
 		const size_t byte_count = ZSTR_LEN(zstr) - 1;
 		const uint8_t modulo_bit_len = (uint8_t) bytes[byte_count];
-		if (modulo_bit_len >= 8) {
+		if (modulo_bit_len >= 8 || modulo_bit_len > byte_count * 8) {
 			zend_throw_exception(spl_ce_RuntimeException, "Teds\\BitVector expected binary data to end with number of wasted bits", 0);
 			RETURN_THROWS();
 		}
-- 
2.43.0


From e13ec36d0d084420053b2c41916b28c77a6a08b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:40 +0000
Subject: [PATCH 55/82] fix: BitVector::unserialize() leaked the new object
 when it rejected its input

---
 teds_bitvector.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index cc4735d..66ae36d 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -803,6 +803,7 @@ PHP_METHOD(Teds_BitVector, unserialize)
 		const uint8_t modulo_bit_len = (uint8_t) bytes[byte_count];
 		if (modulo_bit_len >= 8 || modulo_bit_len > byte_count * 8) {
 			zend_throw_exception(spl_ce_RuntimeException, "Teds\\BitVector expected binary data to end with number of wasted bits", 0);
+			OBJ_RELEASE(new_object);
 			RETURN_THROWS();
 		}
 
-- 
2.43.0


From 1b9dd0e4ad8b257f9406383d8bd5bad34f154468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:34 +0000
Subject: [PATCH 56/82] fix: LowMemoryVector::offsetExists() leaked a reference
 to the element

---
 teds_lowmemoryvector.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index db15e53..03358aa 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -1218,7 +1218,8 @@ PHP_METHOD(Teds_LowMemoryVector, offsetExists)
 	ZEND_ASSERT(offset >= 0);
 	zval tmp;
 	teds_lowmemoryvector_get_value_at_offset(&tmp, ZEND_THIS, offset);
-	RETURN_BOOL(Z_TYPE(tmp) != IS_NULL);
+	RETVAL_BOOL(Z_TYPE(tmp) != IS_NULL);
+	zval_ptr_dtor(&tmp);
 }
 
 PHP_METHOD(Teds_LowMemoryVector, containsKey)
-- 
2.43.0


From a3d63490229b81c2146df6b1fd6a136d5c45e6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:34 +0000
Subject: [PATCH 57/82] fix: Deque::__construct() read out of bounds when the
 iterator it consumes had modified the deque

---
 teds_deque.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/teds_deque.c b/teds_deque.c
index 71a4af7..26381c9 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -225,6 +225,7 @@ static void teds_deque_entries_init_from_traversable(teds_deque_entries *array,
 
 	array->size = size;
 	array->mask = capacity > 0 ? capacity - 1 : 0;
+	array->offset = 0; /* The iterator may have modified this deque. */
 	array->circular_buffer = circular_buffer;
 	TEDS_DEQUE_SET_SHOULD_REBUILD_PROPERTIES(array, true);
 cleanup_iter:
-- 
2.43.0


From cf764e6730a037657f1d6ca2124c746b9aaa39cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:32 +0000
Subject: [PATCH 58/82] fix: Vector::map() and ImmutableSequence::map() stored
 PHP references returned by the callback

---
 teds_immutablesequence.c | 4 ++++
 teds_vector.c            | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index 202df43..3950f9f 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -964,6 +964,10 @@ PHP_METHOD(Teds_ImmutableSequence, map)
 			}
 			return;
 		}
+		if (UNEXPECTED(Z_ISREF(entries[size]))) {
+			/* The callback returned by reference */
+			zend_unwrap_reference(&entries[size]);
+		}
 		size++;
 	} while (size < intern->array.size);
 
diff --git a/teds_vector.c b/teds_vector.c
index 1e00ddf..3f82a96 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -1049,6 +1049,10 @@ PHP_METHOD(Teds_Vector, map)
 			}
 			return;
 		}
+		if (UNEXPECTED(Z_ISREF(entries[size]))) {
+			/* The callback returned by reference */
+			zend_unwrap_reference(&entries[size]);
+		}
 		size++;
 	} while (size < array->size);
 
-- 
2.43.0


From 152a329bf9edeb699c7bd625869ec1f5c522938a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:34 +0000
Subject: [PATCH 59/82] fix: toArray() of maps, sets and MutableIterable used
 freed memory when an error handler modified the collection

---
 teds_mutableiterable.c       | 18 ++++++------------
 teds_stricthashmap.c         | 17 +++++++----------
 teds_stricthashset.c         | 17 +++++++----------
 teds_strictsortedvectormap.c | 17 ++++++-----------
 teds_strictsortedvectorset.c | 17 ++++++-----------
 teds_stricttreemap.c         | 15 ++++++---------
 teds_stricttreeset.c         | 17 +++++++----------
 teds_util.c                  | 18 ++++++++++++++++++
 teds_util.h                  |  7 +++++++
 9 files changed, 70 insertions(+), 73 deletions(-)

diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index e092575..d37cbe1 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -994,25 +994,19 @@ PHP_METHOD(Teds_MutableIterable, toArray)
 	if (!array->size) {
 		RETURN_EMPTY_ARRAY();
 	}
-	zend_array *const values = zend_new_array(array->size);
-	/* Initialize return array */
+	const uint32_t len = array->size;
+	zval_pair *const pairs = safe_emalloc(len, sizeof(zval_pair), 0);
 
 	/* Go through values and add values to the return array */
-	for (uint32_t i = 0; i < array->size; i++) {
+	for (uint32_t i = 0; i < len; i++) {
 		zval_pair *entry = &array->entries[i];
 		zval *key = &entry->key;
 		zval *val = &entry->value;
 
-		// Z_TRY_ADDREF_P(key);
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, key, val);
-		zval_ptr_dtor_nogc(val);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
+		ZVAL_COPY(&pairs[i].key, key);
+		ZVAL_COPY(&pairs[i].value, val);
 	}
-	RETURN_ARR(values);
+	teds_convert_zval_pairs_to_array(return_value, pairs, len);
 }
 
 PHP_METHOD(Teds_MutableIterable, keyAt)
diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index 7e23009..63d7264 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -1355,19 +1355,16 @@ PHP_METHOD(Teds_StrictHashMap, toArray)
 		RETURN_EMPTY_ARRAY();
 	}
 
-	zend_array *values = zend_new_array(array->nNumOfElements);
+	const uint32_t len = array->nNumOfElements;
+	zval_pair *const pairs = safe_emalloc(len, sizeof(zval_pair), 0);
+	uint32_t i = 0;
 	zval *key, *val;
-	/* TODO: Check for side effects of notices */
 	TEDS_STRICTHASHMAP_FOREACH_KEY_VAL(array, key, val) {
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, key, val);
-		zval_ptr_dtor_nogc(val);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
+		ZVAL_COPY(&pairs[i].key, key);
+		ZVAL_COPY(&pairs[i].value, val);
+		i++;
 	} TEDS_STRICTHASHMAP_FOREACH_END();
-	RETURN_ARR(values);
+	teds_convert_zval_pairs_to_array(return_value, pairs, len);
 }
 
 static void teds_stricthashmap_clear(teds_stricthashmap *intern) {
diff --git a/teds_stricthashset.c b/teds_stricthashset.c
index eede84b..b877b73 100644
--- a/teds_stricthashset.c
+++ b/teds_stricthashset.c
@@ -911,19 +911,16 @@ PHP_METHOD(Teds_StrictHashSet, toArray)
 		RETURN_EMPTY_ARRAY();
 	}
 
-	zend_array *values = zend_new_array(array->nNumOfElements);
+	const uint32_t len = array->nNumOfElements;
+	zval_pair *const pairs = safe_emalloc(len, sizeof(zval_pair), 0);
+	uint32_t i = 0;
 	zval *val;
-	/* TODO: Check for side effects of notices */
 	TEDS_STRICTHASHSET_FOREACH_VAL(array, val) {
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, val, val);
-		zval_ptr_dtor_nogc(val);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
+		ZVAL_COPY(&pairs[i].key, val);
+		ZVAL_COPY(&pairs[i].value, val);
+		i++;
 	} TEDS_STRICTHASHSET_FOREACH_END();
-	RETURN_ARR(values);
+	teds_convert_zval_pairs_to_array(return_value, pairs, len);
 }
 
 /* XXX copy zend_hash_del */
diff --git a/teds_strictsortedvectormap.c b/teds_strictsortedvectormap.c
index b7c289c..f438e03 100644
--- a/teds_strictsortedvectormap.c
+++ b/teds_strictsortedvectormap.c
@@ -1037,22 +1037,17 @@ PHP_METHOD(Teds_StrictSortedVectorMap, toArray)
 		RETURN_EMPTY_ARRAY();
 	}
 
-	zend_array *values = zend_new_array(array->size);
-	for (uint32_t i = 0; i < array->size; i++) {
+	const uint32_t len = array->size;
+	zval_pair *const pairs = safe_emalloc(len, sizeof(zval_pair), 0);
+	for (uint32_t i = 0; i < len; i++) {
 		teds_strictsortedvectormap_entry *entry = &array->entries[i];
 		zval *key = &entry->key;
 		zval *val = &entry->value;
 
-		// Z_TRY_ADDREF_P(key);
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, key, val);
-		zval_ptr_dtor_nogc(val);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
+		ZVAL_COPY(&pairs[i].key, key);
+		ZVAL_COPY(&pairs[i].value, val);
 	}
-	RETURN_ARR(values);
+	teds_convert_zval_pairs_to_array(return_value, pairs, len);
 }
 
 static void teds_strictsortedvectormap_clear(teds_strictsortedvectormap *intern) {
diff --git a/teds_strictsortedvectorset.c b/teds_strictsortedvectorset.c
index 348a58f..c82b42d 100644
--- a/teds_strictsortedvectorset.c
+++ b/teds_strictsortedvectorset.c
@@ -525,22 +525,17 @@ PHP_METHOD(Teds_StrictSortedVectorSet, toArray)
 	if (!array->size) {
 		RETURN_EMPTY_ARRAY();
 	}
-	zend_array *const values = zend_new_array(array->size);
-	/* Initialize return array */
+	const uint32_t len = array->size;
+	zval_pair *const pairs = safe_emalloc(len, sizeof(zval_pair), 0);
 
 	/* Go through values and add values to the return array */
-	for (uint32_t i = 0; i < array->size; i++) {
+	for (uint32_t i = 0; i < len; i++) {
 		zval *key = &array->entries[i];
 
-		Z_TRY_ADDREF_P(key);
-		array_set_zval_key(values, key, key);
-		zval_ptr_dtor_nogc(key);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
+		ZVAL_COPY(&pairs[i].key, key);
+		ZVAL_COPY(&pairs[i].value, key);
 	}
-	RETURN_ARR(values);
+	teds_convert_zval_pairs_to_array(return_value, pairs, len);
 }
 
 static teds_strictsortedvectorset_search_result teds_strictsortedvectorset_entries_sorted_search_for_key(const teds_strictsortedvectorset_entries *array, zval *key)
diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index 57aaac5..7e8807f 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -1611,19 +1611,16 @@ PHP_METHOD(Teds_StrictTreeMap, toArray)
 	if (!len) {
 		RETURN_EMPTY_ARRAY();
 	}
-	zend_array *values = zend_new_array(len);
+	zval_pair *const pairs = safe_emalloc(len, sizeof(zval_pair), 0);
+	uint32_t i = 0;
 
 	zval *key, *val;
 	TEDS_STRICTTREEMAP_FOREACH_KEY_VAL(tree, key, val) {
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, key, val);
-		zval_ptr_dtor_nogc(val);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
+		ZVAL_COPY(&pairs[i].key, key);
+		ZVAL_COPY(&pairs[i].value, val);
+		i++;
 	} TEDS_STRICTTREEMAP_FOREACH_END();
-	RETURN_ARR(values);
+	teds_convert_zval_pairs_to_array(return_value, pairs, len);
 }
 
 static ZEND_COLD void teds_stricttreemap_node_debug_representation(zval *return_value, teds_stricttreemap_node *node, zend_string *strings[5]) {
diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index 860545e..1b03421 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -951,19 +951,16 @@ PHP_METHOD(Teds_StrictTreeSet, toArray)
 		RETURN_EMPTY_ARRAY();
 	}
 
-	zend_array *values = zend_new_array(tree->nNumOfElements);
+	const uint32_t len = tree->nNumOfElements;
+	zval_pair *const pairs = safe_emalloc(len, sizeof(zval_pair), 0);
+	uint32_t i = 0;
 	zval *val;
-	/* TODO: Check for side effects of notices */
 	TEDS_STRICTTREESET_FOREACH_KEY(tree, val) {
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, val, val);
-		zval_ptr_dtor_nogc(val);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
+		ZVAL_COPY(&pairs[i].key, val);
+		ZVAL_COPY(&pairs[i].value, val);
+		i++;
 	} TEDS_STRICTTREESET_FOREACH_END();
-	RETURN_ARR(values);
+	teds_convert_zval_pairs_to_array(return_value, pairs, len);
 }
 
 static void teds_stricttreeset_tree_replace_node_with_child(teds_stricttreeset_tree *tree, teds_stricttreeset_node *removed_node, teds_stricttreeset_node *child_node) {
diff --git a/teds_util.c b/teds_util.c
index c00aa9c..5bba692 100644
--- a/teds_util.c
+++ b/teds_util.c
@@ -23,4 +23,22 @@ HashTable *teds_internaliterator_get_gc(zend_object_iterator *iter, zval **table
 	return NULL;
 }
 
+void teds_convert_zval_pairs_to_array(zval *return_value, zval_pair *pairs, uint32_t len)
+{
+	zend_array *values = zend_new_array(len);
+	for (uint32_t i = 0; i < len; i++) {
+		if (EXPECTED(!EG(exception))) {
+			array_set_zval_key(values, &pairs[i].key, &pairs[i].value);
+		}
+		zval_ptr_dtor(&pairs[i].key);
+		zval_ptr_dtor(&pairs[i].value);
+	}
+	efree(pairs);
+	if (UNEXPECTED(EG(exception))) {
+		zend_array_destroy(values);
+		RETURN_THROWS();
+	}
+	RETURN_ARR(values);
+}
+
 const zval teds_empty_entry_list[1];
diff --git a/teds_util.h b/teds_util.h
index 25e36e1..bae547e 100644
--- a/teds_util.h
+++ b/teds_util.h
@@ -5,6 +5,7 @@
 #include "Zend/zend_string.h"
 #include "Zend/zend_types.h"
 #include "Zend/zend_object_handlers.h"
+#include "teds_zval_pair.h"
 #define TEDS_NODE_RED 0
 #define TEDS_NODE_BLACK 1
 
@@ -275,4 +276,10 @@ HashTable* teds_noop_empty_array_get_properties_for(zend_object *obj, zend_prop_
 
 HashTable *teds_internaliterator_get_gc(zend_object_iterator *iter, zval **table, int *n);
 
+/**
+ * Converts an emalloc()ed list of keys and values to an array in return_value, and releases the list.
+ * Casting keys to array keys may run a user error handler, which may modify the collection the list was copied from.
+ */
+void teds_convert_zval_pairs_to_array(zval *return_value, zval_pair *pairs, uint32_t len);
+
 #endif
-- 
2.43.0


From 8aa52faf32ccbe76b158df52d16d9d23d1f06319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:47 +0000
Subject: [PATCH 60/82] fix: setSize() of Vector and MutableIterable shrank the
 storage for a stale size, violating an assumption compiled into the shrinking
 helper

---
 teds_mutableiterable.c | 1 -
 teds_vector.c          | 1 -
 2 files changed, 2 deletions(-)

diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index d37cbe1..a2d0732 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -530,7 +530,6 @@ PHP_METHOD(Teds_MutableIterable, setSize)
 
 		/* If only a quarter of the reserved space is used, then shrink the capacity but leave some room to grow. */
 		if ((zend_ulong) size < (intern->array.capacity >> 2)) {
-			const uint32_t size = old_size - 1;
 			const uint32_t capacity = size > 2 ? size * 2 : 4;
 			if (capacity < intern->array.capacity) {
 				teds_mutableiterable_shrink_capacity(&intern->array, size, capacity, old_entries);
diff --git a/teds_vector.c b/teds_vector.c
index 3f82a96..bc42174 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -546,7 +546,6 @@ PHP_METHOD(Teds_Vector, setSize)
 
 		/* If only a quarter of the reserved space is used, then shrink the capacity but leave some room to grow. */
 		if ((zend_ulong) size < (array->capacity >> 2)) {
-			const uint32_t size = old_size - 1;
 			const uint32_t capacity = size > 2 ? size * 2 : 4;
 			if (capacity < array->capacity) {
 				teds_vector_shrink_capacity(array, size, capacity, old_entries);
-- 
2.43.0


From ec44b0c3b98053c9fe119404eb7585732a2e57e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:47 +0000
Subject: [PATCH 61/82] fix: json_encode() of StrictMinHeap and StrictMaxHeap
 reached ZEND_UNREACHABLE() (crash in unoptimised builds)

---
 teds_vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_vector.c b/teds_vector.c
index bc42174..576b153 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -365,8 +365,8 @@ HashTable* teds_vector_get_properties_for(zend_object *obj, zend_prop_purpose pu
 #endif
 		case ZEND_PROP_PURPOSE_ARRAY_CAST:
 		case ZEND_PROP_PURPOSE_SERIALIZE:
+		case ZEND_PROP_PURPOSE_JSON: /* Vector and StrictSortedVectorSet use jsonSerialize, the heaps do not implement it. */
 			return teds_vector_entries_to_refcounted_array(array);
-		case ZEND_PROP_PURPOSE_JSON: /* jsonSerialize and get_properties() is used instead. */
 		default:
 			ZEND_UNREACHABLE();
 			return NULL;
-- 
2.43.0


From 9c1c3d3b8a28b409419f7f84f8c4f04e2c326c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:47 +0000
Subject: [PATCH 62/82] fix: Vector::set() computed an element pointer from an
 unchecked offset

---
 teds_vector.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/teds_vector.c b/teds_vector.c
index 576b153..9e04fdf 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -1087,13 +1087,12 @@ PHP_METHOD(Teds_Vector, contains)
 
 static zend_always_inline void teds_vector_set_value_at_offset(zend_object *object, zend_long offset, zval *value) {
 	teds_vector_entries *array = teds_vector_entries_from_object(object);
-	zval *const ptr = &array->entries[offset];
-
 	uint32_t len = array->size;
 	if (UNEXPECTED((zend_ulong) offset >= len)) {
 		teds_throw_invalid_sequence_index_exception();
 		return;
 	}
+	zval *const ptr = &array->entries[offset];
 	TEDS_VECTOR_SET_SHOULD_REBUILD_PROPERTIES(array, true);
 	zval tmp;
 	ZVAL_COPY_VALUE(&tmp, ptr);
-- 
2.43.0


From c05b44578d4c26738c0453e350768202a7186549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:47 +0000
Subject: [PATCH 63/82] fix: popFront() and offsetUnset() of a full IntVector
 or LowMemoryVector violated an assumption compiled into copy_offset

---
 teds_intvector.c       | 2 +-
 teds_lowmemoryvector.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 7131a25..ca7c846 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -2355,7 +2355,7 @@ PHP_METHOD(Teds_IntVector, popFront)
 
 	teds_intvector_maybe_adjust_iterators_before_remove(array, 0);
 
-	teds_intvector_entries_copy_offset(array, 0, return_value, true);
+	teds_intvector_entries_copy_offset(array, 0, return_value, false);
 	array->size--;
 	memmove(entries_uint8, entries_uint8 + bytes_per_element, bytes_per_element * (old_size - 1));
 	if (old_size < (old_capacity >> 2)) {
diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index 03358aa..f9c2d98 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -1983,7 +1983,7 @@ PHP_METHOD(Teds_LowMemoryVector, popFront)
 
 	teds_lowmemoryvector_maybe_adjust_iterators_before_remove(array, 0);
 
-	teds_lowmemoryvector_entries_copy_offset(array, 0, return_value, false, true);
+	teds_lowmemoryvector_entries_copy_offset(array, 0, return_value, false, false);
 	array->size--;
 	memmove(entries_uint8, entries_uint8 + bytes_per_element, bytes_per_element * (old_size - 1));
 	if (old_size < (old_capacity >> 2)) {
@@ -2020,7 +2020,7 @@ PHP_METHOD(Teds_LowMemoryVector, offsetUnset)
 
 	array->size = new_size;
 	zval removed_zval;
-	teds_lowmemoryvector_entries_copy_offset(array, offset, &removed_zval, false, true);
+	teds_lowmemoryvector_entries_copy_offset(array, offset, &removed_zval, false, false);
 
 	uint8_t *const dst = entries_uint8 + ((size_t)offset) * bytes_per_element;
 
-- 
2.43.0


From 900658fa4c8c31f0716313af22e89368ed95c86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:47 +0000
Subject: [PATCH 64/82] fix: iterating SortedIntVectorSet and
 ImmutableSortedIntSet violated an assumption compiled into the shared
 get_iterator handler

---
 teds_intvector.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index ca7c846..45b1e98 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -905,8 +905,8 @@ static zend_always_inline void teds_intvector_maybe_adjust_iterators_before_inse
 
 zend_object_iterator *teds_intvector_get_iterator(zend_class_entry *ce, zval *object, int by_ref)
 {
-	// This is final
-	ZEND_ASSERT(ce == teds_ce_IntVector);
+	// These are final
+	ZEND_ASSERT(ce == teds_ce_IntVector || ce == teds_ce_SortedIntVectorSet || ce == teds_ce_ImmutableSortedIntSet);
 	teds_intvector_it *iterator;
 
 	if (UNEXPECTED(by_ref)) {
-- 
2.43.0


From 0033e4ece837f8e1117b74b2e9b9af1860d963ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:47 +0000
Subject: [PATCH 65/82] fix: BitVector::setSize() up to its capacity violated
 an assumption compiled into set_range

---
 teds_bitvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index 66ae36d..9f08b50 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -366,7 +366,7 @@ PHP_METHOD(Teds_BitVector, isEmpty)
 
 static void teds_bitvector_set_range(teds_bitvector_entries *const array, const size_t start_bit, const size_t end_bit, const bool value_bool) {
 	ZEND_ASSERT(start_bit < end_bit);
-	ZEND_ASSERT(end_bit < array->bit_capacity);
+	ZEND_ASSERT(end_bit <= array->bit_capacity);
 	uint8_t *const entries_bits = array->entries_bits;
 	ZEND_ASSERT(entries_bits != NULL);
 
-- 
2.43.0


From a9ed39be53c0a0bd86ccf7375b7fa08f0ce1138f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:47 +0000
Subject: [PATCH 66/82] fix: BitVector::unserialize() of a payload of 0 bits
 violated an assumption compiled into initialize_from_bytes

---
 teds_bitvector.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index 9f08b50..d3f1064 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -619,7 +619,10 @@ zend_object_iterator *teds_bitvector_get_iterator(zend_class_entry *ce, zval *ob
 static void teds_bitvector_initialize_from_bytes(teds_bitvector_entries *array, const uint8_t *bytes, const size_t byte_count, const uint8_t modulo_bit_len)
 {
 	const size_t bit_size = byte_count * 8 - modulo_bit_len;
-	ZEND_ASSERT(bit_size > 0);
+	if (UNEXPECTED(bit_size == 0)) {
+		teds_bitvector_entries_set_empty_list(array);
+		return;
+	}
 	const size_t bit_capacity = teds_bitvector_compute_next_valid_capacity(bit_size);
 	// fprintf(stderr, "byte_count=%d modulo_bit_len=%d bit_size=%d bit_capacity=%d\n", (int)byte_count, (int)modulo_bit_len, (int)bit_size, (int)bit_capacity);
 	uint8_t *const bytes_copy = emalloc(bit_capacity >> 3);
-- 
2.43.0


From 6438297557a059db6dcfb5f5df7e2588b66059fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:47 +0000
Subject: [PATCH 67/82] fix: ImmutableSortedStringSet passed a null pointer to
 qsort() for an empty iterable

---
 teds_immutablesortedstringset.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/teds_immutablesortedstringset.c b/teds_immutablesortedstringset.c
index 2515d74..7c73c34 100644
--- a/teds_immutablesortedstringset.c
+++ b/teds_immutablesortedstringset.c
@@ -685,7 +685,9 @@ static zend_always_inline void teds_smart_str_append_uninitialized_uint32(smart_
 }
 
 static void teds_immutablesortedstringset_entries_sort_and_deduplicate_and_set_list(teds_immutablesortedstringset_entries *const array, zend_string **const raw_zend_strings, uint32_t num_strings) {
-	qsort(raw_zend_strings, num_strings, sizeof(zend_string *), teds_zend_string_compare);
+	if (num_strings > 1) {
+		qsort(raw_zend_strings, num_strings, sizeof(zend_string *), teds_zend_string_compare);
+	}
 	smart_str sbuf = {0};
 	teds_smart_str_append_uninitialized_uint32(&sbuf);
 	teds_immutablesortedstringset_substring_info *substring_infos = safe_emalloc(num_strings, sizeof(teds_immutablesortedstringset_substring_info), 0);
-- 
2.43.0


From 8fcb6b15baa856dc5e3d91eda02378fe97452517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:47 +0000
Subject: [PATCH 68/82] fix: get_gc of an uninitialised CachedIterable,
 ImmutableIterable or MutableIterable accessed a member of a null pointer

---
 teds_cachediterable.c    | 2 +-
 teds_immutableiterable.c | 2 +-
 teds_mutableiterable.c   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index fe2f839..3424727 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -345,7 +345,7 @@ static HashTable* teds_cachediterable_get_gc(zend_object *obj, zval **table, int
 		zend_get_gc_buffer_add_obj(gc_buffer, traversable);
 		zend_get_gc_buffer_use(gc_buffer, table, table_count);
 	} else {
-		*table = &array->entries[0].key;
+		*table = (zval *)array->entries;
 		// Each offset has 1 key and 1 value
 		*table_count = (int)(len * 2);
 	}
diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index e238649..b7f5808 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -270,7 +270,7 @@ static HashTable* teds_immutableiterable_get_gc(zend_object *obj, zval **table,
 {
 	teds_immutableiterable *intern = teds_immutableiterable_from_object(obj);
 
-	*table = &intern->array.entries[0].key;
+	*table = (zval *)intern->array.entries;
 	// Each offset has 1 key and 1 value
 	*n = (int)intern->array.size * 2;
 
diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index a2d0732..98b0558 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -302,7 +302,7 @@ HashTable* teds_mutableiterable_get_gc(zend_object *obj, zval **table, int *n)
 {
 	teds_mutableiterable *intern = teds_mutableiterable_from_object(obj);
 
-	*table = &intern->array.entries[0].key;
+	*table = (zval *)intern->array.entries;
 	/* Each offset has 1 key and 1 value */
 	*n = (int)intern->array.size * 2;
 
-- 
2.43.0


From aa86a53badca36dae8ae0b2033960d7ab161e1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:47 +0000
Subject: [PATCH 69/82] fix: reading a serialized uint32 of 2^31 or more
 shifted into the sign bit

---
 teds_serialize_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_serialize_util.h b/teds_serialize_util.h
index 5a943fb..1e6ea3f 100644
--- a/teds_serialize_util.h
+++ b/teds_serialize_util.h
@@ -29,7 +29,7 @@ static zend_always_inline uint32_t teds_serialize_read_uint32_t(const uint8_t *d
 		(data[0] << 0) +
 		(data[1] << 8) +
 		(data[2] << 16) +
-		(data[3] << 24);
+		((uint32_t) data[3] << 24);
 }
 
 static zend_always_inline void teds_serialize_write_uint32_t(uint8_t *dst, uint32_t value)
-- 
2.43.0


From 6eba01a8e1bd305e0655a3996929bfe32a5a674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:47 +0000
Subject: [PATCH 70/82] fix: a StrictTreeMap or StrictTreeSet filled before it
 was initialised could be initialised again on top of its nodes

---
 teds_stricttreemap.c | 2 +-
 teds_stricttreeset.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index 7e8807f..e7c7fee 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -277,7 +277,7 @@ static zend_always_inline teds_stricttreemap_it *teds_stricttreemap_it_from_dlli
 
 static zend_always_inline bool teds_stricttreemap_tree_uninitialized(teds_stricttreemap_tree *tree)
 {
-	if (tree->initialized) {
+	if (tree->initialized || UNEXPECTED(tree->root != NULL)) {
 		return false;
 	}
 	ZEND_ASSERT(tree->root == NULL);
diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index 1b03421..1f2b3f0 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -264,7 +264,7 @@ static zend_always_inline teds_stricttreeset_it *teds_stricttreeset_it_from_dlli
 
 static zend_always_inline bool teds_stricttreeset_tree_uninitialized(teds_stricttreeset_tree *tree)
 {
-	if (tree->initialized) {
+	if (tree->initialized || UNEXPECTED(tree->root != NULL)) {
 		return false;
 	}
 	ZEND_ASSERT(tree->root == NULL);
-- 
2.43.0


From 1962a9a4c729eb4598780c38744c468e80be2005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:47 +0000
Subject: [PATCH 71/82] fix: a rejected IntVector, SortedIntVectorSet or
 ImmutableSortedIntSet payload left a type tag on the uninitialised object

---
 teds_intvector.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 45b1e98..ba0f0bf 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -929,7 +929,6 @@ zend_object_iterator *teds_intvector_get_iterator(zend_class_entry *ce, zval *ob
 static void teds_intvector_entries_unserialize_from_string(teds_intvector_entries *array, const char *strval, const size_t str_byte_length, const uint8_t type_tag)
 {
 	ZEND_ASSERT(type_tag < TEDS_INTVECTOR_TYPE_COUNT);
-	array->type_tag = type_tag;
 	switch (type_tag) {
 		case TEDS_INTVECTOR_TYPE_INT32 + 1: /* 32-bit check */
 #ifndef TEDS_INTVECTOR_TYPE_INT64
@@ -950,6 +949,7 @@ static void teds_intvector_entries_unserialize_from_string(teds_intvector_entrie
 				return;
 			}
 			char *const values = emalloc(str_byte_length);
+			array->type_tag = type_tag;
 			array->entries_int8 = (int8_t *)values;
 			array->size = num_elements;
 			array->capacity = num_elements;
@@ -998,7 +998,6 @@ static void teds_intvector_entries_unserialize_from_string(teds_intvector_entrie
 static void teds_immutablesortedintset_entries_unserialize_from_string(teds_intvector_entries *array, zend_string *src_str, const uint8_t type_tag)
 {
 	ZEND_ASSERT(type_tag < TEDS_INTVECTOR_TYPE_COUNT);
-	array->type_tag = type_tag;
 	switch (type_tag) {
 		case TEDS_INTVECTOR_TYPE_INT32 + 1: /* 32-bit check */
 #ifndef TEDS_INTVECTOR_TYPE_INT64
@@ -1019,6 +1018,7 @@ static void teds_immutablesortedintset_entries_unserialize_from_string(teds_intv
 				teds_intvector_entries_set_empty_list(array);
 				return;
 			}
+			array->type_tag = type_tag;
 			array->size = num_elements;
 			array->capacity = num_elements;
 			/* FIXME assert result is sorted */
-- 
2.43.0


From 95f70c7d54e9d946dd737274cc8f4b96078daad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:09 +0000
Subject: [PATCH 72/82] fix: a rejected LowMemoryVector payload left a type tag
 on the uninitialised object

---
 teds_lowmemoryvector.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index f9c2d98..c0f2ad3 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -699,6 +699,7 @@ static void teds_lowmemoryvector_entries_unserialize_from_mixed_zval_array(teds_
 		it++;
 	} ZEND_HASH_FOREACH_END();
 	ZEND_ASSERT(it == entries + num_entries);
+	array->type_tag = LMV_TYPE_ZVAL;
 	array->size = num_entries;
 	array->capacity = num_entries;
 	array->entries_zval = entries;
@@ -829,7 +830,6 @@ PHP_METHOD(Teds_LowMemoryVector, __unserialize)
 		zend_throw_exception(spl_ce_RuntimeException, "LowMemoryVector missing data to unserialize", 0);
 		RETURN_THROWS();
 	}
-	array->type_tag = type_tag;
 	if (type_tag == LMV_TYPE_ZVAL) {
 		if (UNEXPECTED(Z_TYPE_P(raw_zval) != IS_ARRAY)) {
 			zend_throw_exception(spl_ce_RuntimeException, "LowMemoryVector expected array of values for mixed type representation", 0);
@@ -876,6 +876,7 @@ PHP_METHOD(Teds_LowMemoryVector, __unserialize)
 				return;
 			}
 			char *const values = emalloc(str_byte_length);
+			array->type_tag = type_tag;
 			array->entries_int8 = (int8_t *)values;
 			array->size = num_elements;
 			array->capacity = num_elements;
-- 
2.43.0


From 545434e3dfe1682e59ee46be77ec5cdbb27756cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:34 +0000
Subject: [PATCH 73/82] fix: LowMemoryVector::offsetUnset() copies the removed
 element after lowering the size

---
 teds_lowmemoryvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index c0f2ad3..6aece7c 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -2021,7 +2021,7 @@ PHP_METHOD(Teds_LowMemoryVector, offsetUnset)
 
 	array->size = new_size;
 	zval removed_zval;
-	teds_lowmemoryvector_entries_copy_offset(array, offset, &removed_zval, false, false);
+	teds_lowmemoryvector_entries_copy_offset(array, offset, &removed_zval, false, true);
 
 	uint8_t *const dst = entries_uint8 + ((size_t)offset) * bytes_per_element;
 
-- 
2.43.0


From 70668efd1a61a1d6c9ef8930c3539d135e5a452e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:34 +0000
Subject: [PATCH 74/82] fix: setting an out of range offset of a
 LowMemoryVector changed the type tag of the storage before throwing

---
 teds_lowmemoryvector.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index 6aece7c..b7fa541 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -1448,14 +1448,14 @@ PHP_METHOD(Teds_LowMemoryVector, contains)
 }
 
 static void teds_lowmemoryvector_entries_set_value_at_offset(teds_lowmemoryvector_entries *array, zend_long offset, const zval *value, bool is_update) {
-	if (is_update) {
-		teds_lowmemoryvector_entries_update_type_tag(array, value);
-	}
-
 	if (UNEXPECTED(!teds_offset_within_size_t(offset, array->size))) {
 		teds_throw_invalid_sequence_index_exception();
 		return;
 	}
+	if (is_update) {
+		teds_lowmemoryvector_entries_update_type_tag(array, value);
+	}
+
 	switch (array->type_tag) {
 		case LMV_TYPE_BOOL_OR_NULL: {
 			array->entries_uint8[offset] = teds_lowmemoryvector_entries_get_type(value);
-- 
2.43.0


From a58dd437857b2c16f6de623c935957f39c9ff71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:34 +0000
Subject: [PATCH 75/82] fix: a StrictTreeMap filled before it was initialised
 violated an assumption compiled into the emptiness check

---
 teds_stricttreemap.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/teds_stricttreemap.h b/teds_stricttreemap.h
index e8e0396..e91d3f2 100644
--- a/teds_stricttreemap.h
+++ b/teds_stricttreemap.h
@@ -167,7 +167,6 @@ static zend_always_inline bool teds_stricttreemap_tree_empty_size(const teds_str
 {
 	if (tree->nNumOfElements > 0) {
 		ZEND_ASSERT(tree->root != NULL);
-		ZEND_ASSERT(tree->initialized);
 		return false;
 	}
 	ZEND_ASSERT(tree->root == NULL);
-- 
2.43.0


From 12caaac10b7d5cc9be49c799a753f9872e4e1ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:34 +0000
Subject: [PATCH 76/82] fix: a StrictTreeSet filled before it was initialised
 violated an assumption compiled into the emptiness check

---
 teds_stricttreeset.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/teds_stricttreeset.h b/teds_stricttreeset.h
index a7ff7a4..3eb3ac4 100644
--- a/teds_stricttreeset.h
+++ b/teds_stricttreeset.h
@@ -157,7 +157,6 @@ static zend_always_inline bool teds_stricttreeset_tree_empty_size(const teds_str
 {
 	if (tree->nNumOfElements > 0) {
 		ZEND_ASSERT(tree->root != NULL);
-		ZEND_ASSERT(tree->initialized);
 		return false;
 	}
 	ZEND_ASSERT(tree->root == NULL);
-- 
2.43.0


From 166e604601486a140f82da182caaa76e0cbed1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:34 +0000
Subject: [PATCH 77/82] fix: setting an out of range offset of an IntVector
 changed the type tag of the storage before throwing

---
 teds_intvector.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index ba0f0bf..a232a6d 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1729,14 +1729,14 @@ TEDS_INTVECTOR__GENERATE_INT_CASES()
 }
 
 static zend_always_inline void teds_intvector_entries_set_value_at_offset(teds_intvector_entries *const array, const zend_long offset, const zend_long value, const bool check_type_tag) {
-	if (check_type_tag) {
-		teds_intvector_entries_update_type_tag(array, value);
-	}
 	const size_t len = array->size;
 	if (UNEXPECTED((zend_ulong) offset >= len)) {
 		teds_throw_invalid_sequence_index_exception();
 		return;
 	}
+	if (check_type_tag) {
+		teds_intvector_entries_update_type_tag(array, value);
+	}
 	switch (array->type_tag) {
 #define TEDS_INTVECTOR__INT_CODEGEN(TEDS_INTVECTOR_TYPE_X, intx_t, entries_intx) \
 		case TEDS_INTVECTOR_TYPE_X: \
-- 
2.43.0


From 08247cd03b85e943b475a39870f439d2a2083768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:31 +0000
Subject: [PATCH 78/82] fix: BitVector clone allocated bit_size times the bytes
 it needs, running out of memory for a 5 KB vector

---
 teds_bitvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index d3f1064..40e1de7 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -272,7 +272,7 @@ static void teds_bitvector_entries_copy_ctor(teds_bitvector_entries *to, const t
 	to->bit_size = 0; /* reset bit_size in case emalloc() fails */
 	to->bit_capacity = 0;
 	const size_t bytes_needed = BYTES_FOR_BIT_SIZE(bit_size);
-	to->entries_bits = safe_emalloc(bit_size, bytes_needed, 0);
+	to->entries_bits = emalloc(bytes_needed);
 	to->bit_size = bit_size;
 	to->bit_capacity = bytes_needed * 8;
 
-- 
2.43.0


From 42b0dc2967acd91ff5f723b3f04d8993f8ff4a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:15 +0000
Subject: [PATCH 79/82] fix: a cycle through an open foreach over a
 LowMemoryVector, ImmutableSequence or ImmutableIterable was never collected,
 their iterators had no get_gc

---
 teds_immutableiterable.c | 2 +-
 teds_immutablesequence.c | 2 +-
 teds_lowmemoryvector.c   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index b7f5808..2c4dc00 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -534,7 +534,7 @@ static const zend_object_iterator_funcs teds_immutableiterable_it_funcs = {
 	teds_immutableiterable_it_move_forward,
 	teds_immutableiterable_it_rewind,
 	NULL,
-	NULL, /* get_gc */
+	teds_internaliterator_get_gc,
 };
 
 
diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index 3950f9f..d72ba95 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -521,7 +521,7 @@ static const zend_object_iterator_funcs teds_immutablesequence_it_funcs = {
 	teds_immutablesequence_it_move_forward,
 	teds_immutablesequence_it_rewind,
 	NULL,
-	NULL, /* get_gc */
+	teds_internaliterator_get_gc,
 };
 
 
diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index b7fa541..cdec362 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -610,7 +610,7 @@ static const zend_object_iterator_funcs teds_lowmemoryvector_it_funcs = {
 	teds_lowmemoryvector_it_move_forward,
 	teds_lowmemoryvector_it_rewind,
 	NULL,
-	NULL,
+	teds_internaliterator_get_gc,
 };
 
 static void teds_lowmemoryvector_adjust_iterators_before_remove(teds_lowmemoryvector_entries *array, teds_intrusive_dllist_node *node, const size_t removed_offset)
-- 
2.43.0


From fcd14b9c7be541fbff3c7437031c3d65b06d7324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:05 +0000
Subject: [PATCH 80/82] fix: find() on an array returned the value a reference
 had after the callback, not the value the callback accepted

---
 teds.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/teds.c b/teds.c
index ba3ac58..7f2f20a 100644
--- a/teds.c
+++ b/teds.c
@@ -768,23 +768,22 @@ static zend_always_inline void teds_array_find(HashTable *htbl, zend_fcall_info
 		fci.param_count = 1;
 
 		ZEND_HASH_FOREACH_VAL(htbl, operand) {
-			fci.params = operand;
-			Z_TRY_ADDREF_P(operand);
+			/* If the element is a reference, then the callback may change the value it refers to. */
+			zval arg;
+			ZVAL_COPY_DEREF(&arg, operand);
+			fci.params = &arg;
 
 			if (zend_call_function(&fci, &fci_cache) == SUCCESS) {
 				bool found = zend_is_true(&retval);
 				zval_ptr_dtor(&retval);
 				if (found) {
-					ZVAL_COPY_VALUE(return_value, operand);
-					if (UNEXPECTED(Z_ISREF_P(return_value))) {
-						zend_unwrap_reference(return_value);
-					}
+					ZVAL_COPY_VALUE(return_value, &arg);
 					return;
 				} else {
-					zval_ptr_dtor(operand);
+					zval_ptr_dtor(&arg);
 				}
 			} else {
-				zval_ptr_dtor(operand);
+				zval_ptr_dtor(&arg);
 				return;
 			}
 		} ZEND_HASH_FOREACH_END();
-- 
2.43.0


From 37d7f1765c8aa527d082a0a7bf09d4ca670d23ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:31 +0000
Subject: [PATCH 81/82] fix: unique_values() could return the input array as a
 list that does not append at its end, when trailing elements had been unset

---
 teds.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/teds.c b/teds.c
index 7f2f20a..3d79757 100644
--- a/teds.c
+++ b/teds.c
@@ -449,6 +449,10 @@ static zend_always_inline bool teds_is_list_of_non_references(HashTable *ht) {
 	zend_string *str;
 	zval *val;
 	zend_long i = 0;
+	if (ht->nNextFreeElement != zend_hash_num_elements(ht)) {
+		/* Appending to this array would not add the next element of the list */
+		return false;
+	}
 	ZEND_HASH_FOREACH_KEY_VAL(ht, n, str, val) {
 		if (n != i || str != NULL || Z_TYPE_P(val) == IS_REFERENCE) {
 			return false;
@@ -473,7 +477,7 @@ static inline void teds_array_unique_values(HashTable *ht, zval *return_value)
 		} else {
 			zend_string *str_index;
 			zend_ulong num_index;
-			if (zend_hash_get_current_key_ex(ht, &str_index, &num_index, &start) == HASH_KEY_IS_LONG && num_index == 0) {
+			if (zend_hash_get_current_key_ex(ht, &str_index, &num_index, &start) == HASH_KEY_IS_LONG && num_index == 0 && ht->nNextFreeElement == 1) {
 				/* The input array is already a single-element list of non-references of size 1 */
 				GC_TRY_ADDREF(ht);
 				RETURN_ARR(ht);
-- 
2.43.0


From b180e41a08577a98f27e8d93fdeb0827e3dcb459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:00 +0000
Subject: [PATCH 82/82] fix: stable_compare() converted a float of 2^63 to int
 (undefined behaviour) when compared with an int that rounds to it

---
 teds.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teds.c b/teds.c
index 3d79757..5834860 100644
--- a/teds.c
+++ b/teds.c
@@ -958,7 +958,7 @@ zend_long teds_stable_compare(const zval *v1, const zval *v2) {
 			if (n1 != n2) {
 				return n1 < n2 ? -1 : 1;
 			}
-			if (EXPECTED(i2 == (zend_long)n1)) {
+			if (EXPECTED(ZEND_DOUBLE_FITS_LONG(n1) && i2 == (zend_long)n1)) {
 				/* long before double */
 				return 1;
 			}
@@ -979,7 +979,7 @@ zend_long teds_stable_compare(const zval *v1, const zval *v2) {
 			if (n1 != n2) {
 				return n2 < n1 ? 1 : -1;
 			}
-			if (EXPECTED(i1 == (zend_long)n2)) {
+			if (EXPECTED(ZEND_DOUBLE_FITS_LONG(n2) && i1 == (zend_long)n2)) {
 				return -1;
 			}
 			if (i1 > 0) {
-- 
2.43.0

