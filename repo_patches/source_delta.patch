From a8f2a6873cdf68fde34b252426eec0d6c96cfb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 01/41] fix: circular_buf_puts must leave one free slot when
 the data exactly reaches the tail

---
 gel/collections/circular_buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/collections/circular_buffer.c b/gel/collections/circular_buffer.c
index 172eca2..76bf366 100644
--- a/gel/collections/circular_buffer.c
+++ b/gel/collections/circular_buffer.c
@@ -166,7 +166,7 @@ int circular_buf_puts(circular_buf_t *cbuf, GEL_CBUF_TYPE *data, size_t len) {
             else
                 chunk = len > cbuf->bufsize - head ? cbuf->bufsize - head : len;
         } else {
-            chunk = len > tail - head ? tail - head - 1 : len;
+            chunk = len >= tail - head ? tail - head - 1 : len;
         }
 
         memcpy(&cbuf->buffer[head], data, chunk * sizeof(GEL_CBUF_TYPE));
-- 
2.43.0


From 8cca2d354bfd408317d634fa903023c59e135502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 02/41] fix: circular_buf_puts must follow the tail while the
 consumer advances it

---
 gel/collections/circular_buffer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gel/collections/circular_buffer.c b/gel/collections/circular_buffer.c
index 76bf366..26424e5 100644
--- a/gel/collections/circular_buffer.c
+++ b/gel/collections/circular_buffer.c
@@ -157,9 +157,9 @@ int circular_buf_puts(circular_buf_t *cbuf, GEL_CBUF_TYPE *data, size_t len) {
         return -1;
 
     head = cbuf->head;
-    tail = cbuf->tail;
     while (!is_circular_buf_full(cbuf) && len > 0) {
-        int chunk;
+        size_t chunk;
+        tail = cbuf->tail;     // The consumer might be advancing it
         if (head >= tail) {
             if (tail == 0)     // If the tail is at the beginning of the array I have to make sure they won't collide
                 chunk = len > cbuf->bufsize - head - 1 ? cbuf->bufsize - head - 1 : len;
-- 
2.43.0


From d983dd760d37c7166172c9531b7206d8b3732ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 03/41] fix: circular_buf_size of a full buffer is its
 capacity, not the size of the array

---
 gel/collections/circular_buffer.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/gel/collections/circular_buffer.c b/gel/collections/circular_buffer.c
index 26424e5..f23fabf 100644
--- a/gel/collections/circular_buffer.c
+++ b/gel/collections/circular_buffer.c
@@ -108,19 +108,13 @@ size_t circular_buf_size(circular_buf_t *cbuf) {
     if (!cbuf)
         return 0;
 
-    size_t size = cbuf->bufsize;
-
-    int tail = cbuf->tail;
-    int head = cbuf->head;
-    if (!is_circular_buf_full(cbuf)) {
-        if (head >= tail) {
-            size = (head - tail);
-        } else {
-            size = (cbuf->bufsize + head - tail);
-        }
+    size_t tail = cbuf->tail;
+    size_t head = cbuf->head;
+    if (head >= tail) {
+        return head - tail;
+    } else {
+        return cbuf->bufsize + head - tail;
     }
-
-    return size;
 }
 
 size_t circular_buf_capacity(circular_buf_t *cbuf) {
-- 
2.43.0


From 1d6df0a5cdd78cf913f78a9fccbeffef3ac3dd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 04/41] fix: circular buffer indices shared by producer and
 consumer need acquire/release ordering

---
 gel/collections/circular_buffer.c | 42 ++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/gel/collections/circular_buffer.c b/gel/collections/circular_buffer.c
index f23fabf..ac3c0bd 100644
--- a/gel/collections/circular_buffer.c
+++ b/gel/collections/circular_buffer.c
@@ -6,26 +6,38 @@
 #include <string.h>
 #include "circular_buffer.h"
 
+/*
+ * The head is written by the producer only and the tail by the consumer only; each is read by the other side.
+ * Publishing must not be reordered with the copy of the elements, neither by the compiler nor by the processor.
+ */
+#if defined(__GCC_ATOMIC_POINTER_LOCK_FREE) && __GCC_ATOMIC_POINTER_LOCK_FREE == 2
+#define LOAD_INDEX(Index)         __atomic_load_n(&(Index), __ATOMIC_ACQUIRE)
+#define STORE_INDEX(Index, Value) __atomic_store_n(&(Index), (Value), __ATOMIC_RELEASE)
+#else
+#define LOAD_INDEX(Index)         (*(volatile size_t *)&(Index))
+#define STORE_INDEX(Index, Value) (*(volatile size_t *)&(Index) = (Value))
+#endif
+
 /*
  * INTERNAL FUNCTIONS
  */
 
 static size_t advance_pointer(circular_buf_t *cbuf, int step) {
     if (is_circular_buf_full(cbuf) || step == 0) {
-        return cbuf->head;
+        return LOAD_INDEX(cbuf->head);
     }
 
-    cbuf->head = (cbuf->head + step) % cbuf->bufsize;
+    STORE_INDEX(cbuf->head, (LOAD_INDEX(cbuf->head) + step) % cbuf->bufsize);
 
     // We mark full because we will advance tail on the next time around
     // cbuf->full = (cbuf->head == cbuf->tail);
-    return cbuf->head;
+    return LOAD_INDEX(cbuf->head);
 }
 
 static size_t retreat_pointer(circular_buf_t *cbuf, int step) {
-    cbuf->tail = (cbuf->tail + step) % cbuf->bufsize;
+    STORE_INDEX(cbuf->tail, (LOAD_INDEX(cbuf->tail) + step) % cbuf->bufsize);
     // cbuf->full = 0;
-    return cbuf->tail;
+    return LOAD_INDEX(cbuf->tail);
 }
 
 static int _circular_buf_get(circular_buf_t *cbuf, GEL_CBUF_TYPE *data, size_t len, int consume) {
@@ -36,8 +48,8 @@ static int _circular_buf_get(circular_buf_t *cbuf, GEL_CBUF_TYPE *data, size_t l
 
     len = len < size ? len : size;
 
-    tail = cbuf->tail;
-    head = cbuf->head;
+    tail = LOAD_INDEX(cbuf->tail);
+    head = LOAD_INDEX(cbuf->head);
     while (len > 0) {
         size_t chunk;
         if (head > tail)
@@ -94,22 +106,22 @@ int is_circular_buf_empty(circular_buf_t *cbuf) {
     if (!cbuf)
         return 1;
 
-    return cbuf->head == cbuf->tail;
+    return LOAD_INDEX(cbuf->head) == LOAD_INDEX(cbuf->tail);
 }
 
 int is_circular_buf_full(circular_buf_t *cbuf) {
     if (!cbuf)
         return 0;
 
-    return ((cbuf->head + 1) % cbuf->bufsize) == cbuf->tail;
+    return ((LOAD_INDEX(cbuf->head) + 1) % cbuf->bufsize) == LOAD_INDEX(cbuf->tail);
 }
 
 size_t circular_buf_size(circular_buf_t *cbuf) {
     if (!cbuf)
         return 0;
 
-    size_t tail = cbuf->tail;
-    size_t head = cbuf->head;
+    size_t tail = LOAD_INDEX(cbuf->tail);
+    size_t head = LOAD_INDEX(cbuf->head);
     if (head >= tail) {
         return head - tail;
     } else {
@@ -136,7 +148,7 @@ int circular_buf_putc(circular_buf_t *cbuf, GEL_CBUF_TYPE data) {
         return -1;
 
     if (!is_circular_buf_full(cbuf)) {
-        cbuf->buffer[cbuf->head] = data;
+        cbuf->buffer[LOAD_INDEX(cbuf->head)] = data;
         advance_pointer(cbuf, 1);
         r = 0;
     }
@@ -150,10 +162,10 @@ int circular_buf_puts(circular_buf_t *cbuf, GEL_CBUF_TYPE *data, size_t len) {
     if (!(cbuf && cbuf->buffer))
         return -1;
 
-    head = cbuf->head;
+    head = LOAD_INDEX(cbuf->head);
     while (!is_circular_buf_full(cbuf) && len > 0) {
         size_t chunk;
-        tail = cbuf->tail;     // The consumer might be advancing it
+        tail = LOAD_INDEX(cbuf->tail);     // The consumer might be advancing it
         if (head >= tail) {
             if (tail == 0)     // If the tail is at the beginning of the array I have to make sure they won't collide
                 chunk = len > cbuf->bufsize - head - 1 ? cbuf->bufsize - head - 1 : len;
@@ -186,7 +198,7 @@ int circular_buf_getc(circular_buf_t *cbuf, GEL_CBUF_TYPE *data) {
         return -1;
 
     if (data)
-        *data = cbuf->buffer[cbuf->tail];
+        *data = cbuf->buffer[LOAD_INDEX(cbuf->tail)];
 
     retreat_pointer(cbuf, 1);
 
-- 
2.43.0


From 8d18f1e0cb04b7a8d1dd2b3005829d6a6117522c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 05/41] fix: event log window computation must not overflow for
 huge requests

---
 gel/circular_event_log/circular_event_log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/circular_event_log/circular_event_log.c b/gel/circular_event_log/circular_event_log.c
index ccffdbf..e6e5e0b 100644
--- a/gel/circular_event_log/circular_event_log.c
+++ b/gel/circular_event_log/circular_event_log.c
@@ -35,7 +35,7 @@ int circular_event_log_load_last_events(circular_event_log_t logger, uint8_t *ev
         return 0;
     }
     size_t actual_number = number;
-    if (jump + actual_number > total_events) {
+    if (actual_number > total_events - jump) {
         actual_number = total_events - jump;
     }
 
-- 
2.43.0


From 9a9abc76a37432678a84b79043849757c59a11e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 06/41] fix: event log must report a failure of the second part
 of a wrapped read

---
 gel/circular_event_log/circular_event_log.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gel/circular_event_log/circular_event_log.c b/gel/circular_event_log/circular_event_log.c
index e6e5e0b..47d2817 100644
--- a/gel/circular_event_log/circular_event_log.c
+++ b/gel/circular_event_log/circular_event_log.c
@@ -49,7 +49,11 @@ int circular_event_log_load_last_events(circular_event_log_t logger, uint8_t *ev
         }
 
         size_t second_round = actual_number - to_read;
-        return res + logger.load_events(&events[to_read * logger.event_size], second_round, 0);
+        int    second_res   = logger.load_events(&events[to_read * logger.event_size], second_round, 0);
+        if (second_res <= 0) {
+            return second_res;
+        }
+        return res + second_res;
     } else {
         return logger.load_events(&events[0], actual_number, start);
     }
-- 
2.43.0


From b7aeb1d3abef5192fd66e0c2032c9e4a82879ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 07/41] fix: queue count must survive the wrap around of the
 indices

---
 gel/collections/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/collections/queue.h b/gel/collections/queue.h
index f536c0a..93bc389 100644
--- a/gel/collections/queue.h
+++ b/gel/collections/queue.h
@@ -37,7 +37,7 @@ typedef enum {
     }                                                                                                                  \
                                                                                                                        \
     size_t NAME##_count(struct NAME *p_queue) {                                                                        \
-        return p_queue->write_idx - p_queue->read_idx;                                                                 \
+        return (uint16_t)(p_queue->write_idx - p_queue->read_idx);                                                     \
     }                                                                                                                  \
                                                                                                                        \
     enqueue_result_t NAME##_enqueue(struct NAME *p_queue, ITEM_TYPE *p_new_item) {                                     \
-- 
2.43.0


From 53b6f9c2371d3cd9150c6c2b8b75ca621baf5f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 08/41] fix: stack peek must return the topmost element

---
 gel/collections/stack.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/collections/stack.h b/gel/collections/stack.h
index 4dfcbb4..16996e9 100644
--- a/gel/collections/stack.h
+++ b/gel/collections/stack.h
@@ -61,7 +61,7 @@ typedef enum {
         }                                                                                                              \
                                                                                                                        \
         if (p_item_out)                                                                                                \
-            *p_item_out = p_stack->items[p_stack->idx];                                                                \
+            *p_item_out = p_stack->items[p_stack->idx - 1];                                                            \
                                                                                                                        \
         return POP_RESULT_SUCCESS;                                                                                     \
     }                                                                                                                  \
-- 
2.43.0


From ea19cb7f9108f02d20fa63c306cd86212c7344b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 09/41] fix: queues of a capacity other than a power of two
 must not corrupt their content

---
 gel/collections/queue.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/gel/collections/queue.h b/gel/collections/queue.h
index 93bc389..1f316dc 100644
--- a/gel/collections/queue.h
+++ b/gel/collections/queue.h
@@ -16,6 +16,10 @@ typedef enum {
 
 #define ARRAY_LENGTH(A) (sizeof(A) / sizeof((A)[0]))
 
+// Indices run from 0 to twice the capacity (at most 32768), to tell a full queue from an empty one
+#define QUEUE_ELEMENTS_IN(Q)                                                                                           \
+    (((Q)->write_idx + 2 * ARRAY_LENGTH((Q)->items) - (Q)->read_idx) % (2 * ARRAY_LENGTH((Q)->items)))
+
 #define QUEUE_DECLARATION(NAME, ITEM_TYPE, NUM_ITEMS)                                                                  \
     struct NAME {                                                                                                      \
         uint16_t  read_idx;                                                                                            \
@@ -37,31 +41,33 @@ typedef enum {
     }                                                                                                                  \
                                                                                                                        \
     size_t NAME##_count(struct NAME *p_queue) {                                                                        \
-        return (uint16_t)(p_queue->write_idx - p_queue->read_idx);                                                     \
+        return QUEUE_ELEMENTS_IN(p_queue);                                                                             \
     }                                                                                                                  \
                                                                                                                        \
     enqueue_result_t NAME##_enqueue(struct NAME *p_queue, ITEM_TYPE *p_new_item) {                                     \
-        uint16_t elements_in = p_queue->write_idx - p_queue->read_idx;                                                 \
+        size_t   elements_in = QUEUE_ELEMENTS_IN(p_queue);                                                             \
                                                                                                                        \
         size_t const capacity = ARRAY_LENGTH(p_queue->items);                                                          \
         if (elements_in == capacity) {                                                                                 \
             return ENQUEUE_RESULT_FULL;                                                                                \
         }                                                                                                              \
                                                                                                                        \
-        uint16_t i        = (p_queue->write_idx)++ & (capacity - 1);                                                   \
-        p_queue->items[i] = *p_new_item;                                                                               \
+        size_t i           = p_queue->write_idx % capacity;                                                            \
+        p_queue->write_idx = (p_queue->write_idx + 1) % (2 * capacity);                                                \
+        p_queue->items[i]  = *p_new_item;                                                                              \
         return ENQUEUE_RESULT_SUCCESS;                                                                                 \
     }                                                                                                                  \
                                                                                                                        \
     dequeue_result_t NAME##_dequeue(struct NAME *p_queue, ITEM_TYPE *p_item_out) {                                     \
-        uint16_t     elements_in = p_queue->write_idx - p_queue->read_idx;                                             \
+        size_t       elements_in = QUEUE_ELEMENTS_IN(p_queue);                                                         \
         size_t const capacity    = ARRAY_LENGTH(p_queue->items);                                                       \
                                                                                                                        \
         if (elements_in == 0) {                                                                                        \
             return DEQUEUE_RESULT_EMPTY;                                                                               \
         }                                                                                                              \
                                                                                                                        \
-        uint16_t i = (p_queue->read_idx)++ & (capacity - 1);                                                           \
+        size_t i          = p_queue->read_idx % capacity;                                                              \
+        p_queue->read_idx = (p_queue->read_idx + 1) % (2 * capacity);                                                  \
         if (p_item_out)                                                                                                \
             *p_item_out = p_queue->items[i];                                                                           \
                                                                                                                        \
@@ -73,11 +79,11 @@ typedef enum {
     }                                                                                                                  \
                                                                                                                        \
     int NAME##_is_empty(struct NAME *p_queue) {                                                                        \
-        return ((p_queue->write_idx - p_queue->read_idx) == 0);                                                        \
+        return QUEUE_ELEMENTS_IN(p_queue) == 0;                                                                        \
     }                                                                                                                  \
                                                                                                                        \
     int NAME##_is_full(struct NAME *p_queue) {                                                                         \
-        uint16_t elements_in = p_queue->write_idx - p_queue->read_idx;                                                 \
+        size_t   elements_in = QUEUE_ELEMENTS_IN(p_queue);                                                             \
                                                                                                                        \
         size_t const capacity = ARRAY_LENGTH(p_queue->items);                                                          \
         return elements_in == capacity;                                                                                \
-- 
2.43.0


From c7203c3f3721aafea34f58af5ed159a2cba53ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 10/41] fix: STRUCT_UPDATE_ARRAY must evaluate its length
 expression as a whole and be usable as an expression

---
 gel/data_structures/struct_update.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/data_structures/struct_update.h b/gel/data_structures/struct_update.h
index 1e9bb18..98899d8 100644
--- a/gel/data_structures/struct_update.h
+++ b/gel/data_structures/struct_update.h
@@ -35,7 +35,7 @@
  * length: number of elements to be used for the modification (follows pointer aritmetic)
  */
 #define STRUCT_UPDATE_ARRAY(object, field, array, length)                                                              \
-    struct_update_from_data(offsetof(typeof(object), field), array, sizeof(array[0]) * length);
+    struct_update_from_data(offsetof(typeof(object), field), (array), sizeof((array)[0]) * (length))
 
 
 typedef struct {
-- 
2.43.0


From a57295e2ff69947c14c72573f0d7c1513c44f599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 11/41] fix: debounce filter must not shift into the sign bit
 for the last input

---
 gel/debounce/debounce.c | 98 ++++++++++++++++++++---------------------
 1 file changed, 49 insertions(+), 49 deletions(-)

diff --git a/gel/debounce/debounce.c b/gel/debounce/debounce.c
index f7caea5..33b5394 100755
--- a/gel/debounce/debounce.c
+++ b/gel/debounce/debounce.c
@@ -1,50 +1,50 @@
-#include "debounce.h"
-
-#define BOOL(x)            ((x) > 0)
-#define SET_NTH(x, i, val) ((x & (~((unsigned int)(1 << i)))) | BOOL(val) << i)
-
-void debounce_filter_init(debounce_filter_t *filter) {
-    int i;
-
-    filter->buffered = 0;
-    for (i = 0; i < NUM_INPUTS; i++) {
-        filter->debounce_count[i] = 0;
-    }
-    filter->old_input = 0;
-}
-
-void debounce_filter_set(debounce_filter_t *filter, unsigned int set) {
-    filter->old_input = set;
-    filter->buffered  = set;
-}
-
-unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int debounce) {
-    unsigned int change = 0;
-    size_t i            = 0;
-
-    for (i = 0; i < NUM_INPUTS; i++)
-        change |= debounce_filter_single(filter, NTH(input, i), i, debounce);
-
-    return change;
-}
-
-unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce) {
-    unsigned int change = 0;
-
-    if (BOOL(input) == NTH(filter->old_input, i)) {
-        filter->debounce_count[i] = 0;
-    } else {
-        if (filter->debounce_count[i] > 0)
-            filter->debounce_count[i]--;
-        else
-            filter->debounce_count[i] = debounce;
-
-        if (filter->debounce_count[i] == 0) {
-            filter->buffered  = SET_NTH(filter->buffered, i, input);
-            filter->old_input = SET_NTH(filter->old_input, i, input);
-            change            = SET_NTH(change, i, 1);
-        }
-    }
-
-    return change;
+#include "debounce.h"
+
+#define BOOL(x)            ((x) > 0)
+#define SET_NTH(x, i, val) ((x & (~(1U << i))) | ((unsigned int)BOOL(val) << i))
+
+void debounce_filter_init(debounce_filter_t *filter) {
+    int i;
+
+    filter->buffered = 0;
+    for (i = 0; i < NUM_INPUTS; i++) {
+        filter->debounce_count[i] = 0;
+    }
+    filter->old_input = 0;
+}
+
+void debounce_filter_set(debounce_filter_t *filter, unsigned int set) {
+    filter->old_input = set;
+    filter->buffered  = set;
+}
+
+unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int debounce) {
+    unsigned int change = 0;
+    size_t i            = 0;
+
+    for (i = 0; i < NUM_INPUTS; i++)
+        change |= debounce_filter_single(filter, NTH(input, i), i, debounce);
+
+    return change;
+}
+
+unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce) {
+    unsigned int change = 0;
+
+    if (BOOL(input) == NTH(filter->old_input, i)) {
+        filter->debounce_count[i] = 0;
+    } else {
+        if (filter->debounce_count[i] > 0)
+            filter->debounce_count[i]--;
+        else
+            filter->debounce_count[i] = debounce;
+
+        if (filter->debounce_count[i] == 0) {
+            filter->buffered  = SET_NTH(filter->buffered, i, input);
+            filter->old_input = SET_NTH(filter->old_input, i, input);
+            change            = SET_NTH(change, i, 1);
+        }
+    }
+
+    return change;
 }
\ No newline at end of file
-- 
2.43.0


From 3be9e1b5e43c1a8115c3399e51412de6369148ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 12/41] fix: debounce_filter_set must discard the transitions
 being counted

---
 gel/debounce/debounce.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gel/debounce/debounce.c b/gel/debounce/debounce.c
index 33b5394..78960a9 100755
--- a/gel/debounce/debounce.c
+++ b/gel/debounce/debounce.c
@@ -14,6 +14,11 @@ void debounce_filter_init(debounce_filter_t *filter) {
 }
 
 void debounce_filter_set(debounce_filter_t *filter, unsigned int set) {
+    int i;
+
+    for (i = 0; i < NUM_INPUTS; i++) {
+        filter->debounce_count[i] = 0;
+    }
     filter->old_input = set;
     filter->buffered  = set;
 }
-- 
2.43.0


From afde7231d49e103fc4c99c6c8307c67141ae4808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 13/41] fix: pulse counter must not shift into the sign bit for
 the last input

---
 gel/debounce/pulsecounter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/debounce/pulsecounter.c b/gel/debounce/pulsecounter.c
index b530b8e..2350477 100644
--- a/gel/debounce/pulsecounter.c
+++ b/gel/debounce/pulsecounter.c
@@ -1,7 +1,7 @@
 #include "pulsecounter.h"
 
 #define NTH(x, i)          ((x >> i) & 0x1)
-#define SET_NTH(x, i, val) x = ((x & (~((unsigned int)(1 << i)))) | val << i)
+#define SET_NTH(x, i, val) x = ((x & (~(1U << i))) | val << i)
 
 void pulse_filter_init(pulse_filter_t *filter, pulse_type_t type, unsigned int init) {
     int i;
-- 
2.43.0


From d9bc724727cf5bca4273662b5203ef79cad462e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 14/41] fix: pulse_filter_init must initialize the debounce
 counts

---
 gel/debounce/pulsecounter.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gel/debounce/pulsecounter.c b/gel/debounce/pulsecounter.c
index 2350477..2ea3274 100644
--- a/gel/debounce/pulsecounter.c
+++ b/gel/debounce/pulsecounter.c
@@ -8,8 +8,10 @@ void pulse_filter_init(pulse_filter_t *filter, pulse_type_t type, unsigned int i
 
     filter->old_input = init;
     filter->type      = type;
-    for (i = 0; i < PULSE_NUM; i++)
+    for (i = 0; i < PULSE_NUM; i++) {
+        filter->filters[i] = 0;
         pulse_clear(filter, i);
+    }
 }
 
 int pulse_filter(pulse_filter_t *filter, unsigned int input, int debounce) {
-- 
2.43.0


From ba59fef36750c620016c0e0381f4e77a83e9ec97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 15/41] fix: timestamp comparison must follow the width of the
 configured timestamp type

---
 gel/timer/timecheck.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gel/timer/timecheck.h b/gel/timer/timecheck.h
index 0050232..7c61ec4 100644
--- a/gel/timer/timecheck.h
+++ b/gel/timer/timecheck.h
@@ -24,8 +24,10 @@ typedef GEL_CUSTOM_TIMESTAMP_TYPE timestamp_t;
     })
 #endif
 
-#define time_after(a, b)          (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && ((long)((b) - (a)) < 0))
-#define time_after_or_equal(a, b) (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && ((long)((b) - (a)) <= 0))
+#define time_after(a, b)          (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && \
+     ((timestamp_t)((b) - (a)) > (timestamp_t)-1 / 2))
+#define time_after_or_equal(a, b) (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && \
+     ((timestamp_t)((a) - (b)) <= (timestamp_t)-1 / 2 + 1))
 #define time_before(a, b)         time_after(b, a)
 
 #define is_expired(start, current, delay) is_loosely_expired(start, current, delay)
@@ -41,13 +43,13 @@ static inline __attribute__((always_inline)) timestamp_t time_interval(timestamp
 
 static inline __attribute__((always_inline)) int is_loosely_expired(timestamp_t start, timestamp_t current,
                                                                     timestamp_t delay) {
-    return time_after_or_equal(current, start + delay);
+    return time_after_or_equal(current, (timestamp_t)(start + delay));
 }
 
 
 static inline __attribute__((always_inline)) int is_strictly_expired(timestamp_t start, timestamp_t current,
                                                                      timestamp_t delay) {
-    return time_after(current, start + delay);
+    return time_after(current, (timestamp_t)(start + delay));
 }
 
 
-- 
2.43.0


From dddfc906a6f4a92a0650f70850299b8653ccbf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 16/41] fix: stopwatch_stop must report that the stopwatch was
 already stopped

---
 gel/timer/stopwatch.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gel/timer/stopwatch.c b/gel/timer/stopwatch.c
index edac4ef..ed31ebb 100644
--- a/gel/timer/stopwatch.c
+++ b/gel/timer/stopwatch.c
@@ -51,10 +51,12 @@ int stopwatch_start(stopwatch_t *timer, unsigned long timestamp) {
 
 
 int stopwatch_stop(stopwatch_t *timer) {
+    int res = timer->state == TIMER_STOPPED ? -1 : 0;
+
     timer->starting_time = 0;
     timer->elapsed_time  = 0;
     timer->state         = TIMER_STOPPED;
-    return 0;
+    return res;
 }
 
 
-- 
2.43.0


From 499a45b05f07ef78870d780902bfc4ac391ae3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 17/41] fix: GEL_TIMER_NULL referenced a field that does not
 exist

---
 gel/timer/timer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/timer/timer.h b/gel/timer/timer.h
index bfd07fd..3ae0367 100644
--- a/gel/timer/timer.h
+++ b/gel/timer/timer.h
@@ -7,7 +7,7 @@
 
 
 #define GEL_TIMER_NULL                                                                                                 \
-    ((gel_timer_t){.active = 0, .autoreload = 0, .stopwatch = STOPWATCH_NULL, .callback = NULL, .arg = NULL})
+    ((gel_timer_t){.autoreload = 0, .stopwatch = STOPWATCH_NULL, .callback = NULL, .arg = NULL})
 
 
 
-- 
2.43.0


From d7faac7521f174b7ef0aa63d45e7a123eefb3fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 18/41] fix: the page manager header left all of its
 declarations out

---
 gel/pagemanager/page_manager.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/gel/pagemanager/page_manager.h b/gel/pagemanager/page_manager.h
index c618a41..a4716d5 100644
--- a/gel/pagemanager/page_manager.h
+++ b/gel/pagemanager/page_manager.h
@@ -17,8 +17,6 @@
 #error "Configuration not defined"
 #endif
 
-#if 0
-
 typedef struct {
     int              id;
     pman_page_data_t data;
@@ -144,6 +142,5 @@ pman_view_t pman_swap_page(page_manager_t *pman, pman_model_t model, pman_page_t
 pman_view_t pman_reset_to_page(page_manager_t *pman, pman_model_t model, int id, uint8_t *found);
 
 pman_message_t pman_process_page_event(page_manager_t *pman, pman_model_t model, pman_event_t event);
-#endif
 
 #endif
-- 
2.43.0


From a018e36f8fc410b5e87ef33f15d7b4d7a9843d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 19/41] fix: the page manager must push the current page also
 when assertions are disabled

---
 gel/pagemanager/page_manager.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gel/pagemanager/page_manager.c b/gel/pagemanager/page_manager.c
index 627fc57..b5a206e 100644
--- a/gel/pagemanager/page_manager.c
+++ b/gel/pagemanager/page_manager.c
@@ -170,7 +170,9 @@ pman_view_t pman_change_page_extra(page_manager_t *pman, pman_model_t model, pma
         if (current->close)
             current->close(current->data);
 
-        assert(navigation_stack_push(&pman->page_stack, current) != PUSH_RESULT_FULL);
+        push_result_t pushed = navigation_stack_push(&pman->page_stack, current);
+        assert(pushed != PUSH_RESULT_FULL);
+        (void)pushed;
     } else {
         pman->initialized = 1;
     }
-- 
2.43.0


From 1c0105e8110ee15ef759632f86c48814abc0b0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 20/41] fix: page manager must not close or destroy a page when
 there is no current one

---
 gel/pagemanager/page_manager.c | 43 +++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/gel/pagemanager/page_manager.c b/gel/pagemanager/page_manager.c
index b5a206e..f5e03f7 100644
--- a/gel/pagemanager/page_manager.c
+++ b/gel/pagemanager/page_manager.c
@@ -22,6 +22,22 @@ static void clear_page_stack(page_manager_t *pman) {
 }
 
 
+// Closes and destroys the current page, if there is one
+static void close_current_page(page_manager_t *pman) {
+    pman_page_t *current = &pman->current_page;
+
+    if (!pman->initialized) {
+        return;
+    }
+    if (current->close) {
+        current->close(current->data);
+    }
+    if (current->destroy) {
+        current->destroy(current->data, current->extra);
+    }
+}
+
+
 void pman_init(page_manager_t *pman) {
     pman->initialized = 0;
     navigation_stack_init(&pman->page_stack);
@@ -35,15 +51,9 @@ pman_message_t pman_process_page_event(page_manager_t *pman, pman_model_t model,
 
 
 pman_view_t pman_swap_page_extra(page_manager_t *pman, pman_model_t model, pman_page_t newpage, void *extra) {
-    pman_page_t *current = &pman->current_page;
-
-    if (current->close) {
-        current->close(current->data);
-    }
-    if (current->destroy) {
-        current->destroy(current->data, current->extra);
-    }
+    close_current_page(pman);
 
+    pman->initialized        = 1;
     pman->current_page       = newpage;
     pman->current_page.extra = extra;
     // Create the newpage
@@ -76,12 +86,7 @@ pman_view_t pman_swap_page(page_manager_t *pman, pman_model_t model, pman_page_t
 pman_view_t pman_reset_to_page(page_manager_t *pman, pman_model_t model, int id, uint8_t *found) {
     pman_page_t *current = &pman->current_page;
 
-    if (current->close) {
-        current->close(current->data);
-    }
-    if (current->destroy) {
-        current->destroy(current->data, current->extra);
-    }
+    close_current_page(pman);
     // Deinitialize the stack, we currently have no page
     pman->initialized = 0;
 
@@ -117,17 +122,11 @@ pman_view_t pman_reset_to_page(page_manager_t *pman, pman_model_t model, int id,
 
 
 pman_view_t pman_rebase_page_extra(page_manager_t *pman, pman_model_t model, pman_page_t newpage, void *extra) {
-    pman_page_t *current = &pman->current_page;
-
-    if (current->close) {
-        current->close(current->data);
-    }
-    if (current->destroy) {
-        current->destroy(current->data, current->extra);
-    }
+    close_current_page(pman);
 
     clear_page_stack(pman);
 
+    pman->initialized        = 1;
     pman->current_page       = newpage;
     pman->current_page.extra = extra;
     // Create the newpage
-- 
2.43.0


From a0b89ecd3db66698a6d070df750987b8b4021056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 21/41] fix: parameter_to_long must keep the sign of 8 bit
 parameters

---
 gel/parameter/parameter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index 198da31..51c7fa3 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -147,7 +147,7 @@ long parameter_to_long(parameter_handle_t *handle) {
             case PARAMETER_TYPE_UINT8:
                 return (long)*(uint8_t *)handle->pointer;
             case PARAMETER_TYPE_INT8:
-                return (long)*(uint8_t *)handle->pointer;
+                return (long)*(int8_t *)handle->pointer;
 #if GEL_PARAMETER_MAX_SIZE >= 2
             case PARAMETER_TYPE_UINT16:
                 return (long)*(uint16_t *)handle->pointer;
-- 
2.43.0


From 00c2b349eb03f8c8bd3ec27c0dd43a21debcd1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 22/41] fix: parameter_get_count must count parameters with
 free access, like parameter_get_handle

---
 gel/parameter/parameter.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index 51c7fa3..d5b3f24 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -287,7 +287,8 @@ size_t parameter_get_count(parameter_handle_t *ps, size_t length, unsigned int a
         if (ps[i].runtime)
             ps[i].runtime(&ps[i], ps[i].arg);
 
-        if ((ps[i].access_level & al) > 0)
+        // A null access level means free access
+        if (ps[i].access_level == 0 || ((ps[i].access_level & al) > 0))
             count++;
     }
 
-- 
2.43.0


From 8ab76764f5c96bfa3ef5bc57fd7c5c234cdd2c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 23/41] fix: 64 bit parameter limits must not be truncated to
 32 bits

---
 gel/parameter/parameter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/parameter/parameter.h b/gel/parameter/parameter.h
index 1bde379..965981b 100755
--- a/gel/parameter/parameter.h
+++ b/gel/parameter/parameter.h
@@ -97,7 +97,7 @@
 #define _PARAMETER_FIELD_UINT64 u64
 #define _PARAMETER_FIELD_INT64  i64
 #define _PARAMETER_FIELD_DOUBLE d
-#define CAST64(x)               ((uint32_t)(x)&0xFFFFFFFFFFFFFFFF)
+#define CAST64(x)               ((uint64_t)(x)&0xFFFFFFFFFFFFFFFF)
 #define CASTDOUBLE(x)           ((double)(x))
 #else
 #define _PARAMETER_FIELD_UINT64 u8
-- 
2.43.0


From b7647c657e076ae256bb5cd849b5b30599a6ae6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 24/41] fix: parameter range check must treat NaN as out of
 range

---
 gel/parameter/parameter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index d5b3f24..2189cbe 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -35,7 +35,7 @@
         int   res = 0;                                                                                                 \
         if (*var > max)                                                                                                \
             res = 1;                                                                                                   \
-        else if (*var < min)                                                                                           \
+        else if (!(*var >= min)) /* Also true for NaN */                                                               \
             res = -1;                                                                                                  \
         res;                                                                                                           \
     })
-- 
2.43.0


From 4b30c3b111aa1402f6cd84df2a2ace3f73a3f172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 25/41] fix: stepping an integer parameter past the limits of
 its type must reach the opposite limit

---
 gel/parameter/parameter.c | 41 +++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index 2189cbe..a6a9880 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -57,6 +57,31 @@
     }
 
 
+// Same as APPLY_OPERATOR, for integers: a result that does not fit TYPE is out of range
+#define APPLY_OPERATOR_INT(p, TYPE, name, mod)                                                                         \
+    {                                                                                                                  \
+        TYPE    *var      = (TYPE *)p.pointer;                                                                         \
+        TYPE     min      = p.pmin != NULL ? *((TYPE *)p.pmin) : p.min.name;                                           \
+        TYPE     max      = p.pmax != NULL ? *((TYPE *)p.pmax) : p.max.name;                                           \
+        TYPE     newv     = *var;                                                                                      \
+        uint64_t step     = p.step.name < 0 ? -(uint64_t)p.step.name : (uint64_t)p.step.name;                          \
+        uint64_t steps    = mod < 0 ? -(uint64_t)mod : (uint64_t)mod;                                                  \
+        uint64_t delta    = 0;                                                                                         \
+        int      overflow = __builtin_mul_overflow(step, steps, &delta);                                               \
+        if ((p.step.name < 0) != (mod < 0))                                                                            \
+            overflow |= __builtin_sub_overflow(*var, delta, &newv);                                                    \
+        else                                                                                                           \
+            overflow |= __builtin_add_overflow(*var, delta, &newv);                                                    \
+        int res = overflow || CHECK_RANGE_AGAINST(p, newv, TYPE, name) != 0;                                           \
+        if (res != 0 && mod > 0)                                                                                       \
+            *var = min;                                                                                                \
+        else if (res != 0 && mod < 0)                                                                                  \
+            *var = max;                                                                                                \
+        else                                                                                                           \
+            *var = newv;                                                                                               \
+    }
+
+
 #define GET_RANGE(p, TYPE, name)                                                                                       \
     ({                                                                                                                 \
         TYPE min = p.pmin != NULL ? *((TYPE *)p.pmin) : p.min.name;                                                    \
@@ -300,33 +325,33 @@ int parameter_operator(parameter_handle_t *handle, int mod) {
     if (handle) {
         switch (handle->type) {
             case PARAMETER_TYPE_UINT8:
-                APPLY_OPERATOR((*handle), uint8_t, u8, mod);
+                APPLY_OPERATOR_INT((*handle), uint8_t, u8, mod);
                 break;
             case PARAMETER_TYPE_INT8:
-                APPLY_OPERATOR((*handle), int8_t, i8, mod);
+                APPLY_OPERATOR_INT((*handle), int8_t, i8, mod);
                 break;
 #if GEL_PARAMETER_MAX_SIZE >= 2
             case PARAMETER_TYPE_UINT16:
-                APPLY_OPERATOR((*handle), uint16_t, u16, mod);
+                APPLY_OPERATOR_INT((*handle), uint16_t, u16, mod);
                 break;
             case PARAMETER_TYPE_INT16:
-                APPLY_OPERATOR((*handle), int16_t, i16, mod);
+                APPLY_OPERATOR_INT((*handle), int16_t, i16, mod);
                 break;
 #endif
 #if GEL_PARAMETER_MAX_SIZE >= 4
             case PARAMETER_TYPE_UINT32:
-                APPLY_OPERATOR((*handle), uint32_t, u32, mod);
+                APPLY_OPERATOR_INT((*handle), uint32_t, u32, mod);
                 break;
             case PARAMETER_TYPE_INT32:
-                APPLY_OPERATOR((*handle), int32_t, i32, mod);
+                APPLY_OPERATOR_INT((*handle), int32_t, i32, mod);
                 break;
 #endif
 #if GEL_PARAMETER_MAX_SIZE >= 8
             case PARAMETER_TYPE_UINT64:
-                APPLY_OPERATOR((*handle), uint64_t, u64, mod);
+                APPLY_OPERATOR_INT((*handle), uint64_t, u64, mod);
                 break;
             case PARAMETER_TYPE_INT64:
-                APPLY_OPERATOR((*handle), int64_t, i64, mod);
+                APPLY_OPERATOR_INT((*handle), int64_t, i64, mod);
                 break;
 #endif
 #if GEL_PARAMETER_MAX_SIZE >= 4
-- 
2.43.0


From 651bd86f9daba11188ad3cfd56ffe0bb48e609a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 26/41] fix: parameter_get_total_values must not overflow the
 type of the parameter

---
 gel/parameter/parameter.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index a6a9880..dddad9b 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -90,6 +90,15 @@
     })
 
 
+// Same as GET_RANGE, for integers: the distance between the limits might not fit TYPE
+#define GET_RANGE_INT(p, TYPE, name)                                                                                   \
+    ({                                                                                                                 \
+        TYPE min = p.pmin != NULL ? *((TYPE *)p.pmin) : p.min.name;                                                    \
+        TYPE max = p.pmax != NULL ? *((TYPE *)p.pmax) : p.max.name;                                                    \
+        (size_t)max - (size_t)min + 1;                                                                                 \
+    })
+
+
 
 
 parameter_handle_t *parameter_get_handle(parameter_handle_t *ps, size_t length, size_t num, unsigned int al) {
@@ -529,33 +538,33 @@ size_t parameter_get_total_values(parameter_handle_t *handle) {
     if (handle != NULL) {
         switch (handle->type) {
             case PARAMETER_TYPE_UINT8:
-                len = GET_RANGE((*handle), uint8_t, u8);
+                len = GET_RANGE_INT((*handle), uint8_t, u8);
                 break;
             case PARAMETER_TYPE_INT8:
-                len = GET_RANGE((*handle), int8_t, i8);
+                len = GET_RANGE_INT((*handle), int8_t, i8);
                 break;
 #if GEL_PARAMETER_MAX_SIZE >= 2
             case PARAMETER_TYPE_UINT16:
-                len = GET_RANGE((*handle), uint16_t, u16);
+                len = GET_RANGE_INT((*handle), uint16_t, u16);
                 break;
             case PARAMETER_TYPE_INT16:
-                len = GET_RANGE((*handle), int16_t, i16);
+                len = GET_RANGE_INT((*handle), int16_t, i16);
                 break;
 #endif
 #if GEL_PARAMETER_MAX_SIZE >= 4
             case PARAMETER_TYPE_UINT32:
-                len = GET_RANGE((*handle), uint32_t, u32);
+                len = GET_RANGE_INT((*handle), uint32_t, u32);
                 break;
             case PARAMETER_TYPE_INT32:
-                len = GET_RANGE((*handle), int32_t, i32);
+                len = GET_RANGE_INT((*handle), int32_t, i32);
                 break;
 #endif
 #if GEL_PARAMETER_MAX_SIZE >= 8
             case PARAMETER_TYPE_UINT64:
-                len = GET_RANGE((*handle), uint64_t, u64);
+                len = GET_RANGE_INT((*handle), uint64_t, u64);
                 break;
             case PARAMETER_TYPE_INT64:
-                len = GET_RANGE((*handle), int64_t, i64);
+                len = GET_RANGE_INT((*handle), int64_t, i64);
                 break;
 #endif
 #if GEL_PARAMETER_MAX_SIZE >= 4
-- 
2.43.0


From b2cfa013917519badd7d980403dde6e85e61de6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 27/41] fix: a null error must replace the oldest value of the
 integral history

---
 gel/pid/pid.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gel/pid/pid.c b/gel/pid/pid.c
index 4e0b502..65ececd 100644
--- a/gel/pid/pid.c
+++ b/gel/pid/pid.c
@@ -50,6 +50,8 @@ void pid_add_input(pid_ctrl_t *pid, pid_control_type_t value) {
             pid->history[pid->index] = error;
         else
             pid->history[pid->index] = 0;
+    } else {
+        pid->history[pid->index] = 0;
     }
 
     pid->index = (pid->index + 1) % GEL_PID_INTEGRAL_HISTORY_SIZE;
-- 
2.43.0


From 18589a5e569224ff9a9c413fc92b627d37436b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 28/41] fix: scheduler must compare whole values when choosing
 between equal timespans

---
 gel/scheduler/scheduler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index d202768..b927fcf 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -113,7 +113,7 @@ int scheduler_is_active(scheduler_t *scheduler, struct tm *tm_info) {
 int scheduler_get_active_entry_number(scheduler_t *scheduler, struct tm *tm_info) {
     uint8_t       found      = 0;
     unsigned long foundtotal = 0;
-    uint8_t       foundvalue = 0;
+    int           foundvalue = 0;
     int           foundid    = -1;
 
     for (size_t i = 0; i < NUM_ENTRIES(scheduler); i++) {
-- 
2.43.0


From 6a48e38ad23606b2ffa83d0594e87d23e69f647a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 29/41] fix: remaining duration of a schedule entry past
 midnight counted one day too much

---
 gel/scheduler/scheduler.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index b927fcf..b93dcf1 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -224,6 +224,11 @@ unsigned long scheduler_get_schedule_remaining_duration(scheduler_t *scheduler,
     unsigned long current = to_seconds(tm_info->tm_hour, tm_info->tm_min, tm_info->tm_sec);
     unsigned long end     = entry->end_second;
 
+    if (end > seconds_in_day && current < entry->start_second) {
+        // Inverted schedule, already past midnight
+        current += seconds_in_day;
+    }
+
     return end - current;
 }
 
-- 
2.43.0


From 286781857047519091db6ac0b4dc43ac2672494d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 30/41] fix: disabled schedule entries must not count as active
 in the map and remaining duration

---
 gel/scheduler/scheduler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index b93dcf1..55fc57a 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -87,7 +87,7 @@ int scheduler_disable_schedule_entry(scheduler_t *scheduler, size_t entry_index)
 
 
 static uint8_t is_entry_active(const scheduler_entry_t *entry, struct tm *tm_info) {
-    if (!is_day_included(entry->days, tm_info->tm_wday)) {
+    if (!entry->enabled || !is_day_included(entry->days, tm_info->tm_wday)) {
         return 0;
     }
 
-- 
2.43.0


From 009d6c3405fe387deddcdd9aeca164fdeb3e09f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 31/41] fix: active entries map must not shift past its width

---
 gel/scheduler/scheduler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index 55fc57a..2a96de7 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -202,7 +202,7 @@ int scheduler_get_first_available_entry(scheduler_t *scheduler) {
 uint16_t scheduler_get_active_entries_map(scheduler_t *scheduler, struct tm *tm_info) {
     uint16_t result = 0;
 
-    for (size_t i = 0; i < NUM_ENTRIES(scheduler); i++) {
+    for (size_t i = 0; i < NUM_ENTRIES(scheduler) && i < sizeof(result) * 8; i++) {
         result |= (is_entry_active(&scheduler->entries[i], tm_info) ? 1 : 0) << i;
     }
 
-- 
2.43.0


From 3369fbe6bdfa26933540b03c1796fb9c7c6d7176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 32/41] fix: scheduler with dynamic entries did not compile

---
 gel/scheduler/scheduler.c | 3 ++-
 gel/scheduler/scheduler.h | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index 2a96de7..e1f6d8b 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -30,7 +30,8 @@ void scheduler_init(scheduler_t *scheduler
 ) {
 #ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
     scheduler->entries = (scheduler_entry_t *)malloc(sizeof(scheduler_entry_t) * entries);
-    assert(scheduler->entries != NULL) scheduler->num_entries = entries;
+    assert(scheduler->entries != NULL);
+    scheduler->num_entries = entries;
 #endif
 
     for (size_t i = 0; i < NUM_ENTRIES(scheduler); i++) {
diff --git a/gel/scheduler/scheduler.h b/gel/scheduler/scheduler.h
index 6757196..a1411e6 100644
--- a/gel/scheduler/scheduler.h
+++ b/gel/scheduler/scheduler.h
@@ -36,8 +36,8 @@ typedef struct {
 
 typedef struct {
 #ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
-    size_t            num_entries;
-    schedule_entry_t *entries;
+    size_t             num_entries;
+    scheduler_entry_t *entries;
 #else
     scheduler_entry_t entries[GEL_SCHEDULER_MAX_ENTRIES];
 #endif
-- 
2.43.0


From 4da19a2bd5294c5229d6132a97e650db9ee7fb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 33/41] fix: signed deserialization must not shift into the
 sign bit

---
 gel/serializer/serializer.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gel/serializer/serializer.h b/gel/serializer/serializer.h
index 6738128..1a1904f 100644
--- a/gel/serializer/serializer.h
+++ b/gel/serializer/serializer.h
@@ -149,7 +149,7 @@ static inline __attribute__((always_inline)) size_t deserialize_uint32_le(uint32
 
 
 static inline __attribute__((always_inline)) size_t deserialize_int32_le(int32_t *val, uint8_t *buf) {
-    *val = ((int32_t)buf[0]) | ((int32_t)buf[1] << 8) | ((int32_t)buf[2] << 16) | ((int32_t)buf[3] << 24);
+    *val = (int32_t)(((uint32_t)buf[0]) | ((uint32_t)buf[1] << 8) | ((uint32_t)buf[2] << 16) | ((uint32_t)buf[3] << 24));
     return 4;
 }
 
@@ -162,8 +162,8 @@ static inline __attribute__((always_inline)) size_t deserialize_uint64_le(uint64
 
 
 static inline __attribute__((always_inline)) size_t deserialize_int64_le(int64_t *val, uint8_t *buf) {
-    *val = ((int64_t)buf[0]) | ((int64_t)buf[1] << 8) | ((int64_t)buf[2] << 16) | ((int64_t)buf[3] << 24) |
-           ((int64_t)buf[4] << 32) | ((int64_t)buf[5] << 40) | ((int64_t)buf[6] << 48) | ((int64_t)buf[7] << 56);
+    *val = (int64_t)(((uint64_t)buf[0]) | ((uint64_t)buf[1] << 8) | ((uint64_t)buf[2] << 16) | ((uint64_t)buf[3] << 24) |
+                     ((uint64_t)buf[4] << 32) | ((uint64_t)buf[5] << 40) | ((uint64_t)buf[6] << 48) | ((uint64_t)buf[7] << 56));
     return 8;
 }
 
@@ -187,7 +187,7 @@ static inline __attribute__((always_inline)) size_t deserialize_uint32_be(uint32
 
 
 static inline __attribute__((always_inline)) size_t deserialize_int32_be(int32_t *val, uint8_t *buf) {
-    *val = ((int32_t)buf[3]) | ((int32_t)buf[2] << 8) | ((int32_t)buf[1] << 16) | ((int32_t)buf[0] << 24);
+    *val = (int32_t)(((uint32_t)buf[3]) | ((uint32_t)buf[2] << 8) | ((uint32_t)buf[1] << 16) | ((uint32_t)buf[0] << 24));
     return 4;
 }
 
@@ -200,8 +200,8 @@ static inline __attribute__((always_inline)) size_t deserialize_uint64_be(uint64
 
 
 static inline __attribute__((always_inline)) size_t deserialize_int64_be(int64_t *val, uint8_t *buf) {
-    *val = ((int64_t)buf[7]) | ((int64_t)buf[6] << 8) | ((int64_t)buf[5] << 16) | ((int64_t)buf[4] << 24) |
-           ((int64_t)buf[3] << 32) | ((int64_t)buf[2] << 40) | ((int64_t)buf[1] << 48) | ((int64_t)buf[0] << 56);
+    *val = (int64_t)(((uint64_t)buf[7]) | ((uint64_t)buf[6] << 8) | ((uint64_t)buf[5] << 16) | ((uint64_t)buf[4] << 24) |
+                     ((uint64_t)buf[3] << 32) | ((uint64_t)buf[2] << 40) | ((uint64_t)buf[1] << 48) | ((uint64_t)buf[0] << 56));
     return 8;
 }
 
-- 
2.43.0


From 583ff940ab18754428ea803d8855deb9929abe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 34/41] fix: a failed wear leveled write must not move to the
 next block

---
 gel/wearleveling/wearleveling.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gel/wearleveling/wearleveling.c b/gel/wearleveling/wearleveling.c
index 6e0cf1f..41333ff 100755
--- a/gel/wearleveling/wearleveling.c
+++ b/gel/wearleveling/wearleveling.c
@@ -54,10 +54,15 @@ int wearleveling_write(wear_leveled_memory_t *wlm, uint8_t *buffer, size_t len)
     }
 
     if (memcmp(intermediate_buffer, buffer, len)) {
-        wlm->last_marker       = NEXT_BLOCK(wlm->last_marker, MAX_BLOCKS_IN_PAGE);
-        wlm->last_active_block = NEXT_BLOCK(wlm->last_active_block, wlm->blocks_in_page);
+        uint8_t next_marker = NEXT_BLOCK(wlm->last_marker, MAX_BLOCKS_IN_PAGE);
+        size_t  next_block  = NEXT_BLOCK(wlm->last_active_block, wlm->blocks_in_page);
 
-        return wlm->write_block(wlm->last_active_block, wlm->last_marker, buffer, len);
+        if ((res = wlm->write_block(next_block, next_marker, buffer, len))) {
+            return res;
+        }
+
+        wlm->last_marker       = next_marker;
+        wlm->last_active_block = next_block;
     }
     return 0;
 }
-- 
2.43.0


From 595b169c37c13c52569ed1ec5cc3b2ff1deca320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 35/41] fix: wear leveled memory must find the last block of
 the page after a restart

---
 gel/wearleveling/wearleveling.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/gel/wearleveling/wearleveling.c b/gel/wearleveling/wearleveling.c
index 41333ff..36178fd 100755
--- a/gel/wearleveling/wearleveling.c
+++ b/gel/wearleveling/wearleveling.c
@@ -121,11 +121,6 @@ static int search_last(wear_leveled_memory_t *wlm, uint8_t *last_marker) {
         }
     }
 
-    if (i >= wlm->blocks_in_page) {
-        // Something very wrong happened, reset to 0
-        return 0;
-    }
-
-    // Return the index of the last active marker
+    // Return the index of the last active marker; if all are consequent it is the last block
     return i - 1;
 }
\ No newline at end of file
-- 
2.43.0


From 9a7e8da3c19fad66ebf3650793891c98f023353c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 36/41] fix: wear leveled memory used the error reading markers
 as a block number

---
 gel/wearleveling/wearleveling.c | 21 ++++++++++++++-------
 gel/wearleveling/wearleveling.h |  4 ++--
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/gel/wearleveling/wearleveling.c b/gel/wearleveling/wearleveling.c
index 36178fd..b4b33c9 100755
--- a/gel/wearleveling/wearleveling.c
+++ b/gel/wearleveling/wearleveling.c
@@ -21,7 +21,7 @@
 #define NEXT_BLOCK(x, mod) ((x + 1) % mod)
 
 
-static int search_last(wear_leveled_memory_t *wlm, uint8_t *last_marker);
+static int search_last(wear_leveled_memory_t *wlm, size_t *last_block, uint8_t *last_marker);
 
 
 /**
@@ -76,16 +76,20 @@ int wearleveling_write(wear_leveled_memory_t *wlm, uint8_t *buffer, size_t len)
  * @param write_block Function to write a specific block of memory (and marker)
  * @param read_marker Function to read the marker of a block
  * @param blocks_in_page Number of blocks in page
+ * @return int 0 if everything was ok, something else otherwise
  */
-void wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, wl_write_block_t write_block,
-                       wl_read_marker_t read_marker, size_t blocks_in_page) {
+int wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, wl_write_block_t write_block,
+                      wl_read_marker_t read_marker, size_t blocks_in_page) {
     assert(blocks_in_page < MAX_BLOCKS_IN_PAGE);
     wlm->read_block     = read_block;
     wlm->write_block    = write_block;
     wlm->read_marker    = read_marker;
     wlm->blocks_in_page = blocks_in_page;
 
-    wlm->last_active_block = search_last(wlm, &wlm->last_marker);
+    wlm->last_active_block = 0;
+    wlm->last_marker       = 0;
+
+    return search_last(wlm, &wlm->last_active_block, &wlm->last_marker);
 }
 
 
@@ -93,9 +97,11 @@ void wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, w
  * @brief Search for the last used block
  *
  * @param wlm Wear leveled memory data structure
+ * @param last_block Index of the last used block
+ * @param last_marker Marker of the last used block
  * @return int 0 if everything was ok, something else otherwise
  */
-static int search_last(wear_leveled_memory_t *wlm, uint8_t *last_marker) {
+static int search_last(wear_leveled_memory_t *wlm, size_t *last_block, uint8_t *last_marker) {
     uint8_t marker;
     int     err;
 
@@ -121,6 +127,7 @@ static int search_last(wear_leveled_memory_t *wlm, uint8_t *last_marker) {
         }
     }
 
-    // Return the index of the last active marker; if all are consequent it is the last block
-    return i - 1;
+    // Save the index of the last active marker; if all are consequent it is the last block
+    *last_block = i - 1;
+    return 0;
 }
\ No newline at end of file
diff --git a/gel/wearleveling/wearleveling.h b/gel/wearleveling/wearleveling.h
index ac2a353..796c3db 100755
--- a/gel/wearleveling/wearleveling.h
+++ b/gel/wearleveling/wearleveling.h
@@ -29,8 +29,8 @@ int wearleveling_read(wear_leveled_memory_t *wlm, uint8_t *buffer, size_t len);
 
 int wearleveling_write(wear_leveled_memory_t *wlm, uint8_t *buffer, size_t len);
 
-void wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, wl_write_block_t write_block,
-                       wl_read_marker_t read_marker, size_t blocks_in_page);
+int wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, wl_write_block_t write_block,
+                      wl_read_marker_t read_marker, size_t blocks_in_page);
 
 
 #endif
-- 
2.43.0


From ad7ac47d26d7fba7388ec22ab0b15294f905b095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 37/41] fix: clearing watcher changes must also cancel a
 notification already pending

---
 gel/data_structures/watcher.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/data_structures/watcher.c b/gel/data_structures/watcher.c
index 089a0f5..c032ffc 100644
--- a/gel/data_structures/watcher.c
+++ b/gel/data_structures/watcher.c
@@ -43,11 +43,11 @@ void watcher_clear_changes(watcher_t *list, unsigned long timestamp) {
         if (memcmp((uint8_t *)list[i].old, (uint8_t *)list[i].current, list[i].size)) {
             if (list[i].delay > 0) {
                 list[i].timestamp = timestamp;
-                list[i].moved     = 0;
             }
 
             memcpy((uint8_t *)list[i].old, (uint8_t *)list[i].current, list[i].size);
         }
+        list[i].moved = 0;
         i++;
     }
 }
-- 
2.43.0


From 675fc7f9b06c4584341d4a8c8f4cb023fcf4b0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 38/41] fix: a key already let go must not report a long click

---
 gel/keypad/keypad.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/keypad/keypad.c b/gel/keypad/keypad.c
index 2c8ed7d..e2204f6 100755
--- a/gel/keypad/keypad.c
+++ b/gel/keypad/keypad.c
@@ -53,7 +53,7 @@ keypad_update_t keypad_routine(keypad_key_t *keys, unsigned long click, unsigned
             event.event           = KEY_RELEASE;
             key->_state.lastevent = event.event;
         } else if ((key->_state.lastevent == KEY_CLICK || key->_state.lastevent == KEY_PRESS) &&
-                   is_strictly_expired(key->_state.time_state, timestamp, longclick)) {
+                   key->_state.value == 1 && is_strictly_expired(key->_state.time_state, timestamp, longclick)) {
             event.event             = KEY_LONGCLICK;
             key->_state.time_state  = timestamp;
             key->_state.time_period = timestamp;
-- 
2.43.0


From a579222d96c5d87ac9d35eb796370061713ee73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 39/41] fix: a parameter declared from a pointer expression got
 the type of its promoted value

---
 gel/parameter/parameter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/parameter/parameter.h b/gel/parameter/parameter.h
index 965981b..993bd71 100755
--- a/gel/parameter/parameter.h
+++ b/gel/parameter/parameter.h
@@ -136,7 +136,7 @@
                           type##_CAST(step), (lvl), (udata), (runtime), (arg)})
 
 #define PARAMETER_FULL(ptr, pmin, pmax, min, max, def, step, lvl, udata, runtime, arg)                                 \
-    ((parameter_handle_t){_PARAMETER_VALUE_TYPE(*ptr), (ptr), (pmin), (pmax),                                          \
+    ((parameter_handle_t){_PARAMETER_VALUE_TYPE(*(ptr)), (ptr), (pmin), (pmax),                                        \
                           _PARAMETER_LIMIT_VALUE_OPTION(*(ptr), (min)), _PARAMETER_LIMIT_VALUE_OPTION(*(ptr), (max)),  \
                           _PARAMETER_LIMIT_VALUE_OPTION(*(ptr), (def)), _PARAMETER_LIMIT_VALUE_OPTION(*(ptr), (step)), \
                           (lvl), (udata), (runtime), (arg)})
-- 
2.43.0


From 901e7666be3440a7cf76e5f178ac03dbcf8f6c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:40 +0000
Subject: [PATCH 40/41] fix: restore the CRLF line endings of debounce.c

---
 gel/debounce/debounce.c | 110 ++++++++++++++++++++--------------------
 1 file changed, 55 insertions(+), 55 deletions(-)

diff --git a/gel/debounce/debounce.c b/gel/debounce/debounce.c
index 78960a9..1f5bd88 100755
--- a/gel/debounce/debounce.c
+++ b/gel/debounce/debounce.c
@@ -1,55 +1,55 @@
-#include "debounce.h"
-
-#define BOOL(x)            ((x) > 0)
-#define SET_NTH(x, i, val) ((x & (~(1U << i))) | ((unsigned int)BOOL(val) << i))
-
-void debounce_filter_init(debounce_filter_t *filter) {
-    int i;
-
-    filter->buffered = 0;
-    for (i = 0; i < NUM_INPUTS; i++) {
-        filter->debounce_count[i] = 0;
-    }
-    filter->old_input = 0;
-}
-
-void debounce_filter_set(debounce_filter_t *filter, unsigned int set) {
-    int i;
-
-    for (i = 0; i < NUM_INPUTS; i++) {
-        filter->debounce_count[i] = 0;
-    }
-    filter->old_input = set;
-    filter->buffered  = set;
-}
-
-unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int debounce) {
-    unsigned int change = 0;
-    size_t i            = 0;
-
-    for (i = 0; i < NUM_INPUTS; i++)
-        change |= debounce_filter_single(filter, NTH(input, i), i, debounce);
-
-    return change;
-}
-
-unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce) {
-    unsigned int change = 0;
-
-    if (BOOL(input) == NTH(filter->old_input, i)) {
-        filter->debounce_count[i] = 0;
-    } else {
-        if (filter->debounce_count[i] > 0)
-            filter->debounce_count[i]--;
-        else
-            filter->debounce_count[i] = debounce;
-
-        if (filter->debounce_count[i] == 0) {
-            filter->buffered  = SET_NTH(filter->buffered, i, input);
-            filter->old_input = SET_NTH(filter->old_input, i, input);
-            change            = SET_NTH(change, i, 1);
-        }
-    }
-
-    return change;
-}
\ No newline at end of file
+#include "debounce.h"
+
+#define BOOL(x)            ((x) > 0)
+#define SET_NTH(x, i, val) ((x & (~(1U << i))) | ((unsigned int)BOOL(val) << i))
+
+void debounce_filter_init(debounce_filter_t *filter) {
+    int i;
+
+    filter->buffered = 0;
+    for (i = 0; i < NUM_INPUTS; i++) {
+        filter->debounce_count[i] = 0;
+    }
+    filter->old_input = 0;
+}
+
+void debounce_filter_set(debounce_filter_t *filter, unsigned int set) {
+    int i;
+
+    for (i = 0; i < NUM_INPUTS; i++) {
+        filter->debounce_count[i] = 0;
+    }
+    filter->old_input = set;
+    filter->buffered  = set;
+}
+
+unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int debounce) {
+    unsigned int change = 0;
+    size_t i            = 0;
+
+    for (i = 0; i < NUM_INPUTS; i++)
+        change |= debounce_filter_single(filter, NTH(input, i), i, debounce);
+
+    return change;
+}
+
+unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce) {
+    unsigned int change = 0;
+
+    if (BOOL(input) == NTH(filter->old_input, i)) {
+        filter->debounce_count[i] = 0;
+    } else {
+        if (filter->debounce_count[i] > 0)
+            filter->debounce_count[i]--;
+        else
+            filter->debounce_count[i] = debounce;
+
+        if (filter->debounce_count[i] == 0) {
+            filter->buffered  = SET_NTH(filter->buffered, i, input);
+            filter->old_input = SET_NTH(filter->old_input, i, input);
+            change            = SET_NTH(change, i, 1);
+        }
+    }
+
+    return change;
+}
\ No newline at end of file
-- 
2.43.0


From dc89f574ee3bb7bc13e631a0e6bbf99e0bd2eeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:37 +0000
Subject: [PATCH 41/41] fix: the truth value of a 64-bit parameter ignored its
 upper half where size_t has 32 bits

---
 gel/parameter/parameter.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index dddad9b..8fbaf5f 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -261,6 +261,11 @@ size_t parameter_to_index(parameter_handle_t *handle) {
 
 
 int parameter_to_bool(parameter_handle_t *handle) {
+#if GEL_PARAMETER_MAX_SIZE >= 8
+    // An index may be narrower than these
+    if (handle && (handle->type == PARAMETER_TYPE_UINT64 || handle->type == PARAMETER_TYPE_INT64))
+        return *(uint64_t *)handle->pointer > 0;
+#endif
     return parameter_to_index(handle) > 0;
 }
 
-- 
2.43.0

