From 904d521b6de79deffdbf4bb38e49221bdda48529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:16 +0000
Subject: [PATCH 01/88] fix: vec_insert_one used a position invalidated by
 reallocation

---
 util/vec.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/util/vec.c b/util/vec.c
index 7e16479..324933d 100644
--- a/util/vec.c
+++ b/util/vec.c
@@ -174,10 +174,13 @@ void vec_insert_iter(vec* restrict self, void* pos, const void* begin, const voi
 
 void vec_insert_one(vec* restrict self, void* pos, const void* restrict data)
 {
+	/* pos may be invalidated by the allocation below */
+	size_t idx = vec_get_idx_(self, pos);
+
 	vec_add_one(self);
-	size_t move_bytes =
-	        self->_elem_size * ((self->_alloc - 1) - vec_get_idx_(self, pos));
+	size_t move_bytes = self->_elem_size * ((self->_alloc - 1) - idx);
 
+	pos = vec_at(self, idx);
 	memmove((char*)pos + self->_elem_size, pos, move_bytes);
 	memcpy(pos, data, self->_elem_size);
 }
-- 
2.43.0


From d1ebe2b0ee8edf4d32ef3d66a95e82e194416c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 02/88] fix: bounded string copy and character count read one
 byte past the limit

---
 util/stringy.c | 4 ++--
 util/util.c    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/stringy.c b/util/stringy.c
index 2f27d2e..2e62281 100644
--- a/util/stringy.c
+++ b/util/stringy.c
@@ -141,12 +141,12 @@ size_t string_strncpy(string* restrict dest, const char* restrict src, size_t li
 {
 	string_resize(dest, limit);
 	size_t i = 0;
-	for (; src[i] != '\0' && i < limit; ++i) {
+	for (; i < limit && src[i] != '\0'; ++i) {
 		((char*)dest->data)[i] = src[i];
 	}
 	string_resize(dest, i);
 	_null_terminate_(dest);
-	return i - 1;
+	return i;
 }
 
 size_t string_sprintf(string* restrict s, const char* restrict fmt, ...)
diff --git a/util/util.c b/util/util.c
index 5a35710..0d14a55 100644
--- a/util/util.c
+++ b/util/util.c
@@ -53,7 +53,7 @@ int charncount(const char* restrict s, char c, unsigned n)
 {
 	int count = 0;
 	unsigned i = 0;
-	for(; s[i] != '\0' && i < n; ++i)
+	for(; i < n && s[i] != '\0'; ++i)
 		if (s[i] == c)
 			++count;
 
-- 
2.43.0


From a2abb76121e4d90c79ccebcacaa23b13a25efc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 03/88] fix: replacing an empty search string never terminated

---
 util/stringy.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/stringy.c b/util/stringy.c
index 2e62281..fb2a3ed 100644
--- a/util/stringy.c
+++ b/util/stringy.c
@@ -210,6 +210,9 @@ const char* string_find_replace_one_limited(string* restrict s,
                                             unsigned newlen)
 {
 	unsigned oldlen = strlen(oldstr);
+	if (oldlen == 0) { /* nothing to look for */
+		return vec_end(s);
+	}
 	char* begin = vec_at(s, begin_idx);
 	char* pos = memmem(begin, s->size - begin_idx, oldstr, oldlen);
 
@@ -274,6 +277,9 @@ const char* string_find_replace_one_nocase_limited(string* restrict s,
                                                    unsigned newlen)
 {
 	unsigned oldlen = strlen(oldstr);
+	if (oldlen == 0) { /* nothing to look for */
+		return vec_end(s);
+	}
 	char* begin = vec_at(s, begin_idx);
 
 	/* We will assume oldstr is null terminated.
-- 
2.43.0


From 991af85f0b1ffae5e4120d8718c9b24510d112f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:33 +0000
Subject: [PATCH 04/88] fix: padded text comparison was not transitive and
 disagreed with the padded hash

---
 util/stringview.c | 63 ++++++++++++++++++++---------------------------
 1 file changed, 27 insertions(+), 36 deletions(-)

diff --git a/util/stringview.c b/util/stringview.c
index fb39016..930b8a6 100644
--- a/util/stringview.c
+++ b/util/stringview.c
@@ -46,57 +46,48 @@ int stringview_compare(const stringview* restrict sv0, const stringview* restric
 	return ret;
 }
 
-int stringview_compare_rtrim(const stringview* sv0, const stringview* sv1)
+/* length without trailing blanks (the same padding the hash functions ignore) */
+static unsigned _rtrim_len(const stringview* sv)
 {
-	const stringview* short_sv = sv0;
-	const stringview* long_sv = sv1;
-	if (sv0->len > sv1->len) {
-		short_sv = sv1;
-		long_sv = sv0;
+	unsigned len = sv->len;
+	while (len > 0 && sv->data[len - 1] == ' ') {
+		--len;
 	}
+	return len;
+}
 
-	const unsigned char *s0 = (unsigned char*) sv0->data;
-	const unsigned char *s1 = (unsigned char*) sv1->data;
+int stringview_compare_rtrim(const stringview* sv0, const stringview* sv1)
+{
+	const unsigned char* s0 = (unsigned char*)sv0->data;
+	const unsigned char* s1 = (unsigned char*)sv1->data;
+	unsigned len0 = _rtrim_len(sv0);
+	unsigned len1 = _rtrim_len(sv1);
 
-	int ret = 0;
 	unsigned i = 0;
-	for (; ret == 0 && i < short_sv->len; ++i) {
-		ret = s0[i] - s1[i];
+	for (; i < len0 && i < len1; ++i) {
+		int ret = s0[i] - s1[i];
+		if (ret) {
+			return ret;
+		}
 	}
 
-	/* All remaining bytes must be white space to stay truthy */
-	const unsigned char *long_str = (unsigned char*) long_sv->data;
-
-	for (; ret == 0 && i < long_sv->len; ++i) {
-		ret = (isspace(long_str[i])) ? 0 : sv0->len - sv1->len;
-	}
-	return ret;
+	return num_compare_(len0, len1);
 }
 
 int stringview_compare_nocase_rtrim(const stringview* sv0, const stringview* sv1)
 {
-	const stringview* short_sv = sv0;
-	const stringview* long_sv = sv1;
-	if (sv0->len > sv1->len) {
-		short_sv = sv1;
-		long_sv = sv0;
-	}
-
 	const unsigned char* s0 = (unsigned char*)sv0->data;
 	const unsigned char* s1 = (unsigned char*)sv1->data;
+	unsigned len0 = _rtrim_len(sv0);
+	unsigned len1 = _rtrim_len(sv1);
 
-	int ret = 0;
 	unsigned i = 0;
-	for (; ret == 0 && i < short_sv->len; ++i) {
-		ret = tolower (s0[i]) - tolower (s1[i]);
+	for (; i < len0 && i < len1; ++i) {
+		int ret = tolower(s0[i]) - tolower(s1[i]);
+		if (ret) {
+			return ret;
+		}
 	}
 
-	/* All remaining bytes must be white space to stay truthy */
-	const unsigned char *long_str = (unsigned char*) long_sv->data;
-
-	for (; ret == 0 && i < long_sv->len; ++i) {
-		ret = (isspace(long_str[i])) ? 0 : sv0->len - sv1->len;
-	}
-	return ret;
+	return num_compare_(len0, len1);
 }
-
-- 
2.43.0


From b8da0e167b3b93cf0b1e2afa3a737ff438a4e6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:33 +0000
Subject: [PATCH 05/88] fix: padded keys of blanks only were not trimmed

---
 util/hashmap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/hashmap.c b/util/hashmap.c
index 9a4b2af..cb7875b 100644
--- a/util/hashmap.c
+++ b/util/hashmap.c
@@ -412,7 +412,7 @@ _hash_nocase(const hashmap* restrict self, const char* restrict key, unsigned* r
 uint64_t
 _hash_rtrim(const hashmap* restrict self, const char* restrict key, unsigned* restrict n)
 {
-	unsigned last_not_space_n = *n;
+	unsigned last_not_space_n = 0;
 	uint64_t hash = _FNV1_INIT;
 	uint64_t last_not_space_hash = hash;
 	char* keyptr = &self->_keybuf[self->_keybuf_head];
@@ -436,7 +436,7 @@ uint64_t _hash_nocase_rtrim(const hashmap* restrict self,
                             const char* restrict key,
                             unsigned* restrict n)
 {
-	unsigned last_not_space_n = *n;
+	unsigned last_not_space_n = 0;
 	uint64_t hash = _FNV1_INIT;
 	uint64_t last_not_space_hash = hash;
 	char* keyptr = &self->_keybuf[self->_keybuf_head];
-- 
2.43.0


From 3aeae929f3b6aac424c26a0fac6d53b55cd4502a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:22 +0000
Subject: [PATCH 06/88] fix: moving an empty block in or out of a fifo
 transferred garbage

---
 util/fifo.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/util/fifo.c b/util/fifo.c
index a4c5639..1c61739 100644
--- a/util/fifo.c
+++ b/util/fifo.c
@@ -156,6 +156,10 @@ int fifo_nget(fifo* restrict self,
 	}
 	unsigned transfer_count = (available > max) ? max : available;
 	transfer_count -= transfer_count % block_size;
+	if (transfer_count == 0) { /* less than a block available */
+		pthread_mutex_unlock(&self->tail_mutex);
+		return available;
+	}
 	unsigned new_tail = (self->tail + transfer_count) % self->buf->size;
 
 	if (new_tail == 0 || new_tail > self->tail) {
@@ -243,12 +247,12 @@ void fifo_nadd(fifo* restrict self, vec* restrict src)
 	pthread_mutex_lock(&self->head_mutex);
 
 	unsigned receivable = fifo_receivable(self);
-	if (receivable == 0) {
+	unsigned transfer_count = (receivable < src->size) ? receivable : src->size;
+	if (transfer_count == 0) {
 		pthread_mutex_unlock(&self->head_mutex);
 		return;
 	}
 
-	unsigned transfer_count = (receivable < src->size) ? receivable : src->size;
 	unsigned new_head = (self->head + transfer_count) % self->buf->size;
 
 	if (new_head == 0 || new_head > self->head) {
@@ -282,12 +286,12 @@ int fifo_nadd_try(fifo* restrict self, vec* restrict src)
 		return ret;
 	}
 	unsigned receivable = fifo_receivable(self);
-	if (receivable == 0) {
+	unsigned transfer_count = (receivable < src->size) ? receivable : src->size;
+	if (transfer_count == 0) {
 		pthread_mutex_unlock(&self->head_mutex);
 		return 0;
 	}
 
-	unsigned transfer_count = (receivable < src->size) ? receivable : src->size;
 	unsigned new_head = (self->head + transfer_count) % self->buf->size;
 
 	if (new_head == 0 || new_head > self->head) {
-- 
2.43.0


From 9db84caba86bb242d69b902634ee154b828bb70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:17 +0000
Subject: [PATCH 07/88] fix: fifo_receivable wrapped around when several
 producers filled the buffer

---
 util/fifo.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/fifo.c b/util/fifo.c
index 1c61739..bb17c8a 100644
--- a/util/fifo.c
+++ b/util/fifo.c
@@ -111,7 +111,8 @@ bool fifo_is_full(const fifo* restrict self)
 unsigned fifo_receivable(fifo* restrict self)
 {
 	unsigned avail = fifo_available(self);
-	return self->buf->size - avail - self->input_count;
+	unsigned used = avail + self->input_count;
+	return (used < self->buf->size) ? self->buf->size - used : 0;
 }
 
 void fifo_set_full(fifo* restrict self)
-- 
2.43.0


From f7c733bb2d0b8eeff1be3e4a769e631af8030003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:17 +0000
Subject: [PATCH 08/88] fix: fifo_get_or_wait held the lock its producer may be
 waiting for

---
 util/fifo.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/util/fifo.c b/util/fifo.c
index bb17c8a..9780247 100644
--- a/util/fifo.c
+++ b/util/fifo.c
@@ -123,15 +123,11 @@ void fifo_set_full(fifo* restrict self)
 
 void* fifo_get_or_wait(fifo* restrict self)
 {
-	pthread_mutex_lock(&self->tail_mutex);
+	/* do not hold tail_mutex here: a producer may need it to let go */
 	while (!fifo_available(self)) {
 		fifo_wait_for_add(self);
 	}
-	void* data = fifo_peek(self);
-	_idx_adv_(self->tail);
-	pthread_cond_signal(&self->cond_get);
-	pthread_mutex_unlock(&self->tail_mutex);
-	return data;
+	return fifo_get(self);
 }
 
 void* fifo_get(fifo* restrict self)
-- 
2.43.0


From b1716cb9fe9f45df472a17071f5d92cf570f56f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:17 +0000
Subject: [PATCH 09/88] fix: waiting on either of two fifos could deadlock with
 their producers

---
 util/fifo.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/util/fifo.c b/util/fifo.c
index 9780247..59ce487 100644
--- a/util/fifo.c
+++ b/util/fifo.c
@@ -373,21 +373,22 @@ void fifo_wait_for_add(fifo* restrict self)
 
 void fifo_wait_for_add_either(fifo* restrict f0, fifo* restrict f1)
 {
-	//pthread_mutex_lock(&f0->head_mutex);
+	/* f0 is always locked before f1: producers on f0 signal f1 in that
+	 * order. shared_mutex_fifo is only touched while f0 is locked.
+	 */
+	pthread_mutex_lock(&f0->head_mutex);
 	pthread_mutex_lock(&f1->head_mutex);
-	while (f1->is_open && fifo_is_empty(f1)) {
-		pthread_mutex_lock(&f0->head_mutex);
-		if (!f0->is_open || !fifo_is_empty(f0)) {
-			pthread_mutex_unlock(&f0->head_mutex);
-			break;
-		}
+	while (f0->is_open && f1->is_open && fifo_is_empty(f0) && fifo_is_empty(f1)) {
 		f0->shared_mutex_fifo = f1;
 		pthread_mutex_unlock(&f0->head_mutex);
 		pthread_cond_wait(&f1->cond_add, &f1->head_mutex);
-		f0->shared_mutex_fifo = NULL;
+		pthread_mutex_unlock(&f1->head_mutex);
+		pthread_mutex_lock(&f0->head_mutex);
+		pthread_mutex_lock(&f1->head_mutex);
 	}
+	f0->shared_mutex_fifo = NULL;
 	pthread_mutex_unlock(&f1->head_mutex);
-	//pthread_mutex_unlock(&f0->head_mutex);
+	pthread_mutex_unlock(&f0->head_mutex);
 }
 
 void fifo_wait_for_add_both(fifo* restrict f0, fifo* restrict f1)
-- 
2.43.0


From af4a5053eb6d4814bb82ff85673a09fa6fd39385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:50 +0000
Subject: [PATCH 10/88] fix: graph traversal overflowed its work queue and lost
 nodes

---
 util/dgraph.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/util/dgraph.c b/util/dgraph.c
index e5eee76..e6d5ebc 100644
--- a/util/dgraph.c
+++ b/util/dgraph.c
@@ -159,7 +159,10 @@ void dgraph_traverse_reset(dgraph* restrict self)
 {
 	dgraph_get_roots(self);
 
-	fifo_resize(self->_trav, self->nodes->size);
+	/* a node expands once, so its two neighbors are added at most once
+	 * each. A fifo can hold one less than its size.
+	 */
+	fifo_resize(self->_trav, self->nodes->size * 2 + 2);
 
 	/* we are going to enter the first root manually */
 	self->_root_idx = 1;
@@ -189,7 +192,9 @@ dnode* dgraph_traverse(dgraph* restrict self)
 	}
 
 	dnode** node = fifo_get(self->_trav);
-	++(*node)->visit_count;
+	if (++(*node)->visit_count > 1) {
+		return *node;
+	}
 
 	if ((*node)->out[0] != NULL && !(*node)->out[0]->visit_count) {
 		fifo_add(self->_trav, &(*node)->out[0]);
-- 
2.43.0


From bb46c758416f32e39430fba65dcaf6daf59589ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:15 +0000
Subject: [PATCH 11/88] fix: integer addition, subtraction and multiplication
 at the lowest long

---
 lib/misc.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/lib/misc.h b/lib/misc.h
index 60d8c4e..fe56eda 100644
--- a/lib/misc.h
+++ b/lib/misc.h
@@ -43,8 +43,7 @@
 			fputs("arithmetic overflow detected\n", stderr); \
 			return FQL_FAIL;                                 \
 		} else if (n0_ < 0 && n1_ < 0                            \
-		           && (unsigned long)-n0_ + (unsigned long)-n1_  \
-		                      > (unsigned long)LONG_MAX + 1) {   \
+		           && n0_ < LONG_MIN - n1_) {                    \
 			fputs("arithmetic overflow detected\n", stderr); \
 			return FQL_FAIL;                                 \
 		}                                                        \
@@ -53,14 +52,12 @@
 
 #define overflow_safe_minus_i(n0_, n1_)                                  \
 	({                                                               \
-		if (n0_ > 0 && n1_ < 0                                   \
-		    && (unsigned long)n0_ + (unsigned long)-n1_          \
-		               > (unsigned long)LONG_MAX) {              \
+		if (n0_ >= 0 && n1_ < 0                                  \
+		    && n0_ > LONG_MAX + n1_) {                           \
 			fputs("arithmetic overflow detected\n", stderr); \
 			return FQL_FAIL;                                 \
 		} else if (n0_ < 0 && n1_ > 0                            \
-		           && (unsigned long)-n0_ + (unsigned long)n1_   \
-		                      > (unsigned long)LONG_MAX + 1) {   \
+		           && n0_ < LONG_MIN + n1_) {                    \
 			fputs("arithmetic overflow detected\n", stderr); \
 			return FQL_FAIL;                                 \
 		}                                                        \
@@ -73,13 +70,13 @@
 		unsigned long u1_ = 0;                                   \
 		bool neg_ = false;                                       \
 		if (n0_ < 0) {                                           \
-			u0_ = n0_ * -1;                                  \
+			u0_ = 0 - (unsigned long)n0_;                    \
 			neg_ = true;                                     \
 		} else {                                                 \
 			u0_ = n0_;                                       \
 		}                                                        \
 		if (n1_ < 0) {                                           \
-			u1_ = n1_ * -1;                                  \
+			u1_ = 0 - (unsigned long)n1_;                    \
 			neg_ = !neg_;                                    \
 		} else {                                                 \
 			u1_ = n1_;                                       \
-- 
2.43.0


From dbf01e98fd8902b30dd9e1b1466057962c906016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:15 +0000
Subject: [PATCH 12/88] fix: integer division and modulo trapped on zero and on
 the lowest long

---
 lib/scalarfn.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index a18502c..aa4c7b3 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -485,6 +485,11 @@ int fql_op_divi_i(function* fn, union field* ret, node* rg)
 		return FQL_FAIL;
 	}
 
+	if (n0 == LONG_MIN && n1 == -1) {
+		fputs("arithmetic overflow detected\n", stderr);
+		return FQL_FAIL;
+	}
+
 	ret->i = n0 / n1;
 
 	return FQL_GOOD;
@@ -516,7 +521,13 @@ int fql_op_mod_i(function* fn, union field* ret, node* rg)
 	try_deref_(expression_get_int(&n0, args[0], rg));
 	try_deref_(expression_get_int(&n1, args[1], rg));
 
-	ret->i = n0 % n1;
+	if (n1 == 0) {
+		fputs("division by zero\n", stderr);
+		return FQL_FAIL;
+	}
+
+	/* LONG_MIN % -1 traps */
+	ret->i = (n1 == -1) ? 0 : n0 % n1;
 
 	return FQL_GOOD;
 }
-- 
2.43.0


From f20b415bab8efdfe82f7bf5ef0d95b96052f172c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:54 +0000
Subject: [PATCH 13/88] fix: a text constant that failed to convert changed
 type

---
 lib/field.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/field.c b/lib/field.c
index 9192b03..58df42f 100644
--- a/lib/field.c
+++ b/lib/field.c
@@ -42,14 +42,15 @@ int field_to_int(long* ret, union field* field, enum field_type* type)
 		*type = FIELD_INT;
 		field->i = (long)field->f;
 		break;
-	case FIELD_STRING:
-		*type = FIELD_INT;
+	case FIELD_STRING: {
 		long val = 0;
 		if (str2long(&val, field->s->data)) {
 			return FQL_FAIL;
 		}
+		*type = FIELD_INT;
 		field->i = val;
 		break;
+	}
 	default:
 		return FQL_FAIL;
 	}
@@ -66,14 +67,15 @@ int field_to_float(double* ret, union field* field, enum field_type* type)
 		*type = FIELD_FLOAT;
 		field->f = (double)field->i;
 		break;
-	case FIELD_STRING:
-		*type = FIELD_FLOAT;
+	case FIELD_STRING: {
 		double val = 0;
 		if (str2double(&val, field->s->data)) {
 			return FQL_FAIL;
 		}
+		*type = FIELD_FLOAT;
 		field->f = val;
 		break;
+	}
 	default:
 		return FQL_FAIL;
 	}
-- 
2.43.0


From 40683bce0d6ed8166e0d9bf9afe06ca958d16cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:33 +0000
Subject: [PATCH 14/88] fix: converting a float beyond the range of an integer
 gave garbage

---
 lib/field.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/field.c b/lib/field.c
index 58df42f..3cdae1d 100644
--- a/lib/field.c
+++ b/lib/field.c
@@ -39,6 +39,12 @@ int field_to_int(long* ret, union field* field, enum field_type* type)
 	case FIELD_INT:
 		break;
 	case FIELD_FLOAT:
+		/* out of range is undefined (also catches NaN) */
+		if (!(field->f >= -9223372036854775808.0
+		      && field->f < 9223372036854775808.0)) {
+			fputs("arithmetic overflow detected\n", stderr);
+			return FQL_FAIL;
+		}
 		*type = FIELD_INT;
 		field->i = (long)field->f;
 		break;
-- 
2.43.0


From b6fb9c05817bc0251a9441f888a5ebbdadb14d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:24 +0000
Subject: [PATCH 15/88] fix: a negated equality was taken for a hash join
 condition

---
 lib/logic.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/logic.c b/lib/logic.c
index 24844e8..10e873c 100644
--- a/lib/logic.c
+++ b/lib/logic.c
@@ -222,8 +222,7 @@ int logicgroup_eval(logicgroup* self, node* rg, logic* skip)
 /* essentially the same as logicgroup_eval.
  * All logic is assumed true except the one provided.
  * the point is to determine if that logic MUST be
- * true for the group to evaluate to true. I believe
- * ignoring negation here is correct. The purpose
+ * true for the group to evaluate to true. The purpose
  * being, if it must be true, it is a candidate for
  * hash join logic.
  */
@@ -231,7 +230,8 @@ int logic_can_be_false(logicgroup* self, logic* check_logic)
 {
 	if (self->type == LG_PREDICATE) {
 		if (self->condition == check_logic) {
-			return 0;
+			/* a negated condition is never required to be true */
+			return self->negation;
 		}
 		return 1;
 	}
-- 
2.43.0


From ca41aa85465ab11ba12a8700b0c32c9e8df6efa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 16/88] fix: RIGHT read past the text when asked for more than
 it holds

---
 lib/scalarfn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index aa4c7b3..5a2c96e 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -231,7 +231,7 @@ int fql_right(function* fn, union field* ret, node* rg)
 	}
 
 	if (n > sv.len) {
-		string_strncpy(ret->s, sv.data, n);
+		string_strncpy(ret->s, sv.data, sv.len);
 		return FQL_GOOD;
 	}
 
-- 
2.43.0


From f9015643af3c980cb595fcb683266228072165f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 17/88] fix: SUBSTRING read outside the text for positions and
 lengths out of range

---
 lib/scalarfn.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index 5a2c96e..477a662 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -262,7 +262,6 @@ int fql_substring(function* fn, union field* ret, node* rg)
 	try_deref_(expression_get_stringview(&sv, args[0], rg));
 	long start = 0;
 	try_deref_(expression_get_int(&start, args[1], rg));
-	--start;
 	long n = 0;
 	try_deref_(expression_get_int(&n, args[2], rg));
 
@@ -271,6 +270,13 @@ int fql_substring(function* fn, union field* ret, node* rg)
 		return FQL_FAIL;
 	}
 
+	/* positions before the first character count against the length */
+	if (start < 1) {
+		n = (start + n < 1) ? 0 : start + n - 1;
+		start = 1;
+	}
+	--start;
+
 	unsigned idx = 0;
 	int bytes = 0;
 	unsigned byte_count = 0;
@@ -283,11 +289,7 @@ int fql_substring(function* fn, union field* ret, node* rg)
 		}
 	}
 
-	if (start < 0) {
-		n += start;
-	}
-
-	if (idx + n > sv.len) {
+	if (n > sv.len - idx) {
 		string_strncpy(ret->s, &sv.data[idx], sv.len - idx);
 		return FQL_GOOD;
 	}
-- 
2.43.0


From 463d820190b8446b1dfc9daa60d5bbe4534eff5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:53 +0000
Subject: [PATCH 18/88] fix: RIGHT read before the start of text that is not
 valid UTF-8

---
 lib/scalarfn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index 477a662..9c53963 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -42,7 +42,7 @@ int _get_rev_byte_count(const char* s, unsigned limit)
 	}
 
 	int i = 0;
-	for (; (s[i] & 0xC0) == 0x80 && -i < (int)limit; --i)
+	for (; -i < (int)limit && (s[i] & 0xC0) == 0x80; --i)
 		;
 
 	if (-i >= (int)limit) {
-- 
2.43.0


From 5ed11cef37cc97a5b2280bc9c0bc866761e9249c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 19/88] fix: REPLACE with a search text from a column read and
 wrote past its end

---
 lib/scalarfn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index 9c53963..acde167 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -337,7 +337,7 @@ int fql_replace(function* fn, union field* ret, node* rg)
 
 	/* If we've made it this far, needle may not be a NULL terminated string... allocate a copy =( */
 	char* needle_cpy = malloc_(needle.len + 1);
-	strncpy_(needle_cpy, needle.data, needle.len + 1);
+	strncpy_(needle_cpy, needle.data, needle.len);
 	string_find_replace_nocase_limited(ret->s,
 	                                   needle_cpy,
 	                                   replacement.data,
-- 
2.43.0


From 5b0807e7b6441f20fd23f166996b5eaf9971f1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:48 +0000
Subject: [PATCH 20/88] fix: CASE without a matching branch was not NULL

---
 lib/expression.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index 5454a27..becd071 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -384,8 +384,7 @@ int expression_get_int(long* ret, expression* self, node* rg)
 		*ret = 0;
 		return FQL_NULL;
 	case EXPR_SWITCH_CASE:
-		try_(switchcase_eval_to_int(self->field.sc, ret, rg));
-		return FQL_GOOD;
+		return switchcase_eval_to_int(self->field.sc, ret, rg);
 	case EXPR_ROW_NUMBER:
 		*ret = *self->rownum_ref;
 		return FQL_GOOD;
@@ -453,8 +452,7 @@ int expression_get_float(double* ret, expression* self, node* rg)
 		*ret = -0;
 		return FQL_NULL;
 	case EXPR_SWITCH_CASE:
-		try_(switchcase_eval_to_float(self->field.sc, ret, rg));
-		return FQL_GOOD;
+		return switchcase_eval_to_float(self->field.sc, ret, rg);
 	case EXPR_ROW_NUMBER:
 		*ret = (double)*self->rownum_ref;
 		return FQL_GOOD;
@@ -522,8 +520,7 @@ int expression_get_stringview(stringview* ret, expression* self, node* rg)
 		ret->len = 0;
 		return FQL_NULL;
 	case EXPR_SWITCH_CASE:
-		try_(switchcase_eval_to_stringview(self->field.sc, ret, rg));
-		return FQL_GOOD;
+		return switchcase_eval_to_stringview(self->field.sc, ret, rg);
 	case EXPR_FULL_RECORD: {
 		record* rec = record_at(rg, self->src_idx);
 		if (rec == NULL) {
-- 
2.43.0


From 30d816df5c213bb6c21d8e92b11630e0bae19c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 21/88] fix: aggregates took NULL arguments for zero and
 counted them

---
 lib/aggregatefn.c | 37 +++++++++++++++++++++++++++----------
 lib/group.c       | 12 ++++++++----
 2 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/lib/aggregatefn.c b/lib/aggregatefn.c
index 0428268..dbc4595 100644
--- a/lib/aggregatefn.c
+++ b/lib/aggregatefn.c
@@ -5,6 +5,23 @@
 
 int fql_count(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
+	/* COUNT(*) has no argument */
+	if (!vec_empty(agg->args)) {
+		expression* col = *(expression**)vec_begin(agg->args);
+		stringview sv = {0};
+		long num_i = 0;
+		double num_f = 0;
+		switch (col->field_type) {
+		case FIELD_INT:
+			try_deref_(expression_get_int(&num_i, col, rg));
+			break;
+		case FIELD_FLOAT:
+			try_deref_(expression_get_float(&num_f, col, rg));
+			break;
+		default:
+			try_deref_(expression_get_stringview(&sv, col, rg));
+		}
+	}
 	++result->data.i;
 	return FQL_GOOD;
 }
@@ -13,7 +30,7 @@ int fql_min_i(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	long num = 0;
-	try_(expression_get_int(&num, col, rg));
+	try_deref_(expression_get_int(&num, col, rg));
 	if (result->qty == 0 || num < result->data.i) {
 		result->data.i = num;
 	}
@@ -24,7 +41,7 @@ int fql_min_f(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	double num = 0;
-	try_(expression_get_float(&num, col, rg));
+	try_deref_(expression_get_float(&num, col, rg));
 	if (result->qty == 0 || num < result->data.f) {
 		result->data.f = num;
 	}
@@ -35,7 +52,7 @@ int fql_min_s(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	stringview sv0 = {0};
-	try_(expression_get_stringview(&sv0, col, rg));
+	try_deref_(expression_get_stringview(&sv0, col, rg));
 
 	stringview sv1 = string_get_stringview(&result->data.s);
 	if (result->qty == 0
@@ -49,7 +66,7 @@ int fql_max_i(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	long num = 0;
-	try_(expression_get_int(&num, col, rg));
+	try_deref_(expression_get_int(&num, col, rg));
 	if (result->qty == 0 || num > result->data.i) {
 		result->data.i = num;
 	}
@@ -60,7 +77,7 @@ int fql_max_f(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	double num = 0;
-	try_(expression_get_float(&num, col, rg));
+	try_deref_(expression_get_float(&num, col, rg));
 	if (result->qty == 0 || num > result->data.f) {
 		result->data.f = num;
 	}
@@ -71,7 +88,7 @@ int fql_max_s(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	stringview sv0 = {0};
-	try_(expression_get_stringview(&sv0, col, rg));
+	try_deref_(expression_get_stringview(&sv0, col, rg));
 
 	stringview sv1 = string_get_stringview(&result->data.s);
 	if (result->qty == 0
@@ -85,7 +102,7 @@ int fql_sum_i(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	long num = 0;
-	try_(expression_get_int(&num, col, rg));
+	try_deref_(expression_get_int(&num, col, rg));
 
 	result->data.i = overflow_safe_add_i(result->data.i, num);
 	return FQL_GOOD;
@@ -95,7 +112,7 @@ int fql_sum_f(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	double num = 0;
-	try_(expression_get_float(&num, col, rg));
+	try_deref_(expression_get_float(&num, col, rg));
 
 	result->data.f += num;
 	return FQL_GOOD;
@@ -106,7 +123,7 @@ int fql_avg_i(aggregate* agg, group* group, struct aggresult* result, node* rg)
 	/* auxdata is used here to keep track of a running total */
 	expression* col = *(expression**)vec_begin(agg->args);
 	long num = 0;
-	try_(expression_get_int(&num, col, rg));
+	try_deref_(expression_get_int(&num, col, rg));
 
 	result->auxdata.i = overflow_safe_add_i(result->auxdata.i, num);
 	result->data.i = result->auxdata.i / (result->qty + 1);
@@ -119,7 +136,7 @@ int fql_avg_f(aggregate* agg, group* group, struct aggresult* result, node* rg)
 	/* auxdata is used here to keep track of a running total */
 	expression* col = *(expression**)vec_begin(agg->args);
 	double num = 0;
-	try_(expression_get_float(&num, col, rg));
+	try_deref_(expression_get_float(&num, col, rg));
 
 	result->auxdata.f += num;
 	result->data.f = result->auxdata.f / (result->qty + 1);
diff --git a/lib/group.c b/lib/group.c
index 6051fdb..e3c0541 100644
--- a/lib/group.c
+++ b/lib/group.c
@@ -94,8 +94,10 @@ int _add_agg_result(group* self, node* rg)
 		if ((*it)->data_type == FIELD_STRING) {
 			string_construct(&result->data.s);
 		}
-		try_((*it)->call__(*it, self, result, rg));
-		++result->qty;
+		/* NULL is not counted */
+		if (try_((*it)->call__(*it, self, result, rg)) != FQL_NULL) {
+			++result->qty;
+		}
 	}
 	return FQL_GOOD;
 }
@@ -105,8 +107,10 @@ int _update_agg_result(group* self, node* rg, unsigned idx)
 	aggregate** it = vec_begin(&self->aggregates);
 	for (; it != vec_end(&self->aggregates); ++it) {
 		struct aggresult* result = vec_at(&(*it)->results, idx);
-		try_((*it)->call__(*it, self, result, rg));
-		++result->qty;
+		/* NULL is not counted */
+		if (try_((*it)->call__(*it, self, result, rg)) != FQL_NULL) {
+			++result->qty;
+		}
 	}
 	return FQL_GOOD;
 }
-- 
2.43.0


From 41830719eb5f57c037c9eecc58b5ee9044510576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 22/88] fix: grouping by a NULL function result used the key of
 an earlier record

---
 lib/group.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/group.c b/lib/group.c
index e3c0541..2cc6d68 100644
--- a/lib/group.c
+++ b/lib/group.c
@@ -129,7 +129,9 @@ int group_record(group* self, node* rg)
 		}
 		switch (exprs[i]->field_type) {
 		case FIELD_STRING:
-			try_(expression_get_stringview(sv, exprs[i], rg));
+			if (try_(expression_get_stringview(sv, exprs[i], rg)) == FQL_NULL) {
+				sv->len = 0;
+			}
 			flex_push_back(&self->group_data, (void*)sv->data, sv->len);
 			break;
 		case FIELD_INT: {
-- 
2.43.0


From 6a4e932513f9a491783fbe7519f7f21b927588d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 23/88] fix: row number of a grouped record was computed
 wrongly and then dropped

---
 lib/group.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/group.c b/lib/group.c
index 2cc6d68..ead8af5 100644
--- a/lib/group.c
+++ b/lib/group.c
@@ -214,7 +214,8 @@ int group_dump_record(group* self, record* rec)
 		}
 		if (group_exprs[i]->expr == EXPR_ROW_NUMBER) {
 			string* s = record_generate_groupby_string(rec);
-			string_sprintf(s, "%lu", idx + 1);
+			string_sprintf(s, "%lu", self->_dump_idx + 1);
+			stringview_set_string(&rec_svs[i], s);
 			continue;
 		}
 		rec_svs[i] = flex_pair_at(&self->group_data, idx++);
-- 
2.43.0


From cafc425d5166cdc3efec84b15afa07672483726e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 24/88] fix: LEFT JOIN gives one row per match of the whole ON
 condition, and one NULL row only when there is none

---
 lib/fqlprocesses.c | 34 ++++++++++++++++++++++++++--------
 lib/process.h      |  1 +
 lib/record.h       |  3 +++
 3 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 1884d3d..236f8a7 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -480,6 +480,7 @@ enum proc_return fql_hash_join(process* proc)
 
 	node** left_rg_iter = fifo_begin(in_left);
 	while (left_rg_iter != fifo_end(in_left)) {
+		bool is_first_match = (hj->recs == NULL);
 		long offset = try_(_hash_join_left_side(proc, table, *left_rg_iter));
 		if (offset == -1) {
 			if (table->join_type == JOIN_LEFT) {
@@ -503,6 +504,8 @@ enum proc_return fql_hash_join(process* proc)
 		node** right_rg = fifo_get_or_wait(proc->fifo_aux_root);
 		record* right_rec = (*right_rg)->data;
 		right_rec->src_idx = proc->out_src_count - 1;
+		right_rec->is_first_match = is_first_match;
+		right_rec->is_last_match = (hj->recs == NULL);
 		reader* reader = table->reader;
 		try_(reader->get_record_at__(reader, *right_rg, offset));
 
@@ -615,7 +618,7 @@ enum proc_return fql_left_join_logic(process* proc)
 	// No out_false for left_join
 	//fifo* out_false = proc->fifo_out[0];
 	fifo* out_true = proc->fifo_out[1];
-	if (out_true && !out_true->is_open) {
+	if (!out_true->is_open) {
 		return PROC_RETURN_COMPLETE;
 	}
 
@@ -627,7 +630,7 @@ enum proc_return fql_left_join_logic(process* proc)
 		return PROC_RETURN_WAIT_ON_IN0;
 	}
 
-	if (!out_true && !fifo_receivable(out_true)) {
+	if (!fifo_receivable(out_true)) {
 		return PROC_RETURN_WAIT_ON_OUT1;
 	}
 
@@ -642,22 +645,37 @@ enum proc_return fql_left_join_logic(process* proc)
 		/* If the right-most expected node is missing,
 		 * these records have already failed a hash join.
 		 */
-		if (record_at(*rg_iter, proc->out_src_count - 1) != NULL) {
-			if (!try_(logicgroup_eval(lg, *rg_iter, lg->join_logic))) {
-				/* our condition failed, but we still want to pass
-				 * it on. Chop off right-most node and recycle it.
+		bool is_pass = true;
+		record* right_rec = record_at(*rg_iter, proc->out_src_count - 1);
+		if (right_rec != NULL) {
+			if (right_rec->is_first_match) {
+				proc->is_left_matched = false;
+			}
+			if (try_(logicgroup_eval(lg, *rg_iter, lg->join_logic))) {
+				proc->is_left_matched = true;
+			} else if (right_rec->is_last_match
+			           && !proc->is_left_matched) {
+				/* our condition failed for every match of this
+				 * left side, but we still want to pass it on.
+				 * Chop off right-most node and recycle it.
 				 */
 				node* right_side = node_back(*rg_iter);
 				//node_export(right_side);
 				fqlprocess_recycle(proc, &right_side);
+			} else {
+				is_pass = false;
 			}
 		}
 
 		_fqlprocess_print_iter_states(proc, -1);
-		fifo_add(out_true, rg_iter);
+		if (is_pass) {
+			fifo_add(out_true, rg_iter);
+		} else {
+			fqlprocess_recycle(proc, rg_iter);
+		}
 
 		rg_iter = fifo_iter(in);
-		if (!out_true && !fifo_receivable(out_true)) {
+		if (!fifo_receivable(out_true)) {
 			ret = PROC_RETURN_WAIT_ON_OUT1;
 			break;
 		}
diff --git a/lib/process.h b/lib/process.h
index 8ef4e49..c47be52 100644
--- a/lib/process.h
+++ b/lib/process.h
@@ -52,6 +52,7 @@ struct process {
 	bool is_threading;            /* should be nearly identical to is_enabled */
 	bool has_second_input;        /* will activate fifo_in[1] */
 	bool wait_for_in0;            /* allow start before in0 populated */
+	bool is_left_matched;         /* left side of LEFT JOIN found a match */
 	bool in0_always_dead;         /* wait_for_in0 will stay false on reset */
 };
 typedef struct process process;
diff --git a/lib/record.h b/lib/record.h
index fa2cafe..4134964 100644
--- a/lib/record.h
+++ b/lib/record.h
@@ -2,6 +2,7 @@
 #define RECORD_H
 
 #include <inttypes.h>
+#include <stdbool.h>
 #include <csv.h>
 #include <stdint.h>
 #include <sys/types.h>
@@ -27,6 +28,8 @@ struct record {
 	unsigned max_subquery_count;
 	unsigned max_group_count;
 	unsigned root_fifo_idx;
+	bool is_first_match; /* first hash join match of a left side */
+	bool is_last_match;  /* last hash join match of a left side */
 };
 typedef struct record record;
 
-- 
2.43.0


From 36ae3544d27b047f67839efa75aa8fe6b2d9f672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 25/88] fix: fql_set_pipe_factor stored the value before
 clamping it to the allowed range

---
 lib/libfql.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libfql.c b/lib/libfql.c
index 1a10fa8..89dbb7f 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -359,7 +359,7 @@ void fql_set_pipe_factor(fqlhandle* fql, int pipe_factor)
 		applied_pipe_factor = PIPE_FACTOR_MAX;
 	}
 
-	fql->props.pipe_factor = pipe_factor;
+	fql->props.pipe_factor = applied_pipe_factor;
 	if (applied_pipe_factor != pipe_factor) {
 		fprintf(stderr,
 		        "Invalid pipe factor `%d'. Applied `%d'\n",
-- 
2.43.0


From 88efcd71fc7702a1b801c2d5a5cbcd08d01692e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 26/88] fix: hash join took a NULL key for zero, or for
 whatever text was read before

---
 lib/fqlprocesses.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 236f8a7..c9872a0 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -364,27 +364,33 @@ enum proc_return _hash_join_right_side(process* proc, table* table, fifo* in_rig
 	long int_hold = 0;
 	double float_hold = 0;
 	stringview sv;
+	int ret = 0;
 
 	node** rg_iter = fifo_begin(in_right);
 	for (; rg_iter != fifo_end(in_right); rg_iter = fifo_iter(in_right)) {
 		switch (hj->comp_type) {
 		case FIELD_INT:
-			try_(expression_get_int(&int_hold, hj->right_expr, *rg_iter));
+			ret = try_(expression_get_int(&int_hold, hj->right_expr, *rg_iter));
 			stringview_nset(&sv, &int_hold, sizeof(int_hold));
 			break;
 		case FIELD_FLOAT:
-			try_(expression_get_float(&float_hold, hj->right_expr, *rg_iter));
+			ret = try_(expression_get_float(&float_hold, hj->right_expr, *rg_iter));
 			stringview_nset(&sv, &float_hold, sizeof(float_hold));
 			break;
 		case FIELD_STRING:
-			try_(expression_get_stringview(&sv, hj->right_expr, *rg_iter));
+			ret = try_(expression_get_stringview(&sv, hj->right_expr, *rg_iter));
 			break;
 		default:
 			return PROC_RETURN_FAIL;
 		}
 
 		record* rec = (*rg_iter)->data;
-		multimap_nset(hj->hash_data, sv.data, &rec->offset, sv.len);
+		if (ret != FQL_NULL) { /* NULL matches nothing */
+			multimap_nset(hj->hash_data,
+			              sv.data,
+			              &rec->offset,
+			              sv.len);
+		}
 
 		fqlprocess_recycle(proc, rg_iter);
 		_fqlprocess_print_iter_states(proc, rec->node_idx);
@@ -402,22 +408,27 @@ long _hash_join_left_side(process* proc, table* table, node* left_rg)
 		long int_hold = 0;
 		double float_hold = 0;
 		stringview sv;
+		int ret = 0;
 		switch (hj->comp_type) {
 		case FIELD_INT:
-			try_(expression_get_int(&int_hold, hj->left_expr, left_rg));
+			ret = try_(expression_get_int(&int_hold, hj->left_expr, left_rg));
 			stringview_nset(&sv, &int_hold, sizeof(int_hold));
 			break;
 		case FIELD_FLOAT:
-			try_(expression_get_float(&float_hold, hj->left_expr, left_rg));
+			ret = try_(expression_get_float(&float_hold, hj->left_expr, left_rg));
 			stringview_nset(&sv, &float_hold, sizeof(float_hold));
 			break;
 		case FIELD_STRING:
-			try_(expression_get_stringview(&sv, hj->left_expr, left_rg));
+			ret = try_(expression_get_stringview(&sv, hj->left_expr, left_rg));
 			break;
 		default:
 			return FQL_FAIL;
 		}
 
+		if (ret == FQL_NULL) { /* NULL matches nothing */
+			return -1;
+		}
+
 		hj->recs = multimap_nget(hj->hash_data, sv.data, sv.len);
 		if (hj->recs == NULL) {
 			return -1;
-- 
2.43.0


From 8f137e440b4f752e92400c00b4eb0ffd16db5297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 27/88] fix: UNION member with a WHERE clause had its last
 process freed while still in use

---
 lib/fqlplan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 87a1037..fc37612 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -575,7 +575,7 @@ int _union(plan* self, query* aquery, fqlhandle* fql)
 		try_(_build(*it, fql, NULL, true));
 		plan* union_plan = (*it)->plan;
 		vec_push_back(select_proc->union_end_nodes, &union_plan->current);
-		if (!union_plan->is_const) {
+		if (!union_plan->is_const && union_plan->current != union_plan->op_true) {
 			process* union_true = union_plan->op_true->data;
 			union_true->is_passive = true;
 		}
-- 
2.43.0


From 24916a4d92183cfe0f278650f2d4618ec099b3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 28/88] fix: subquery source was not prepared on its first run,
 losing its UNION members and variables

---
 lib/query.c | 8 +++++++-
 lib/table.c | 2 ++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/query.c b/lib/query.c
index f8e515b..ecb3439 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -160,7 +160,13 @@ int query_preflight(query* self, bool has_executed)
 	/* need to reset all readers */
 	table* table_iter = vec_begin(self->sources);
 	for (; table_iter != vec_end(self->sources); ++table_iter) {
-		table_reset(table_iter, has_executed);
+		/* nothing to reset in the reader of a subquery that has not
+		 * run yet, but its SELECT and variables must be ready
+		 */
+		if (table_iter->subquery != NULL && !has_executed) {
+			try_(query_preflight(table_iter->subquery, false));
+		}
+		try_(table_reset(table_iter, has_executed));
 	}
 
 	try_(group_reset(self->distinct));
diff --git a/lib/table.c b/lib/table.c
index d16a2c7..207901f 100644
--- a/lib/table.c
+++ b/lib/table.c
@@ -143,6 +143,8 @@ void hashjoin_reset(struct hashjoin* join)
 	if (join != NULL) {
 		multimap_clear(join->hash_data);
 		join->state = SIDE_RIGHT;
+		join->recs = NULL;
+		join->rec_idx = 0;
 	}
 }
 
-- 
2.43.0


From 1ff2da87aedc54459259c2aacb657e901be42700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:14 +0000
Subject: [PATCH 29/88] fix: rows of a subquery lost NULL and shared text
 buffers that the next row overwrites

---
 lib/expression.c | 16 ++++++++++
 lib/subquery.c   | 76 +++++++++++++++++++++++++-----------------------
 2 files changed, 56 insertions(+), 36 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index becd071..4191950 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -417,6 +417,11 @@ int expression_get_int(long* ret, expression* self, node* rg)
 			return FQL_NULL;
 		}
 		stringview* sv = vec_at(&rec->fields, src_expr->index);
+		if (sv->data == NULL) { /* NULL from a subquery */
+			string_clear(&self->buf);
+			*ret = 0;
+			return FQL_NULL;
+		}
 		string_copy_from_stringview(&self->buf, sv);
 		fail_if_(str2long(ret, self->buf.data));
 		return FQL_GOOD;
@@ -485,6 +490,11 @@ int expression_get_float(double* ret, expression* self, node* rg)
 			return FQL_NULL;
 		}
 		stringview* sv = vec_at(&rec->fields, src_expr->index);
+		if (sv->data == NULL) { /* NULL from a subquery */
+			string_clear(&self->buf);
+			*ret = 0;
+			return FQL_NULL;
+		}
 		string_copy_from_stringview(&self->buf, sv);
 		fail_if_(str2double(ret, self->buf.data));
 		return FQL_GOOD;
@@ -581,6 +591,12 @@ int expression_get_stringview(stringview* ret, expression* self, node* rg)
 			return FQL_NULL;
 		}
 		stringview* sv = vec_at(&rec->fields, src_expr->index);
+		if (sv->data == NULL) { /* NULL from a subquery */
+			string_clear(&self->buf);
+			ret->data = self->buf.data;
+			ret->len = 0;
+			return FQL_NULL;
+		}
 		ret->data = sv->data;
 		ret->len = sv->len;
 		return FQL_GOOD;
diff --git a/lib/subquery.c b/lib/subquery.c
index cfa7347..987cb43 100644
--- a/lib/subquery.c
+++ b/lib/subquery.c
@@ -36,7 +36,6 @@ int subquery_get_record(reader* reader, node* rg)
 	vec* expressions = self->select->current_select->schema->expressions;
 
 	record* rec = rg->data;
-	rec->ref_count = 1;
 	record_clear_strings(&self->copy_data, self->copy_data.subquery_strings);
 
 	vec_clear(&self->copy_data.fields);
@@ -47,50 +46,55 @@ int subquery_get_record(reader* reader, node* rg)
 	expression** it = vec_begin(expressions);
 	for (; it != vec_end(expressions); ++it) {
 		stringview* copy_sv = vec_add_one(&self->copy_data.fields);
-		try_(expression_get_stringview(copy_sv, *it, rg));
+		bool is_null =
+		        (try_(expression_get_stringview(copy_sv, *it, rg)) == FQL_NULL);
+		if (is_null) {
+			*copy_sv = (stringview) {NULL, 0};
+		}
 
 		if (reader->random_access_file) {
 			if (it != vec_begin(expressions)) {
 				fputc('|', reader->random_access_file);
 			}
-			struct csv_field field = {copy_sv->data, copy_sv->len};
+			struct csv_field field = {is_null ? "" : copy_sv->data,
+			                          copy_sv->len};
 			csv_write_field(reader->subquery_writer, &field);
 		}
 
-		switch ((*it)->expr) {
-		case EXPR_GROUPING:
-		case EXPR_FUNCTION: {
-			/* NOTE: we actually need to copy some data here
-			 *       functions own their buffers because they
-			 *       only exist within their *clause*. Consider:
-			 *
-			 *       SELECT SUBSTRING(foo, 2, 5) AS foo
-			 *       FROM t1
-			 *       WHERE LEFT(foo, 1) = 'A'
-			 *
-			 *       The SELECT clause does not care about the
-			 *       value returned by LEFT, and the WHERE
-			 *       clause doesn't care about the value returned
-			 *       by SUBSTRING. But if there is a subquery,
-			 *
-			 *       SELECT truncated_foo
-			 *       FROM (
-			 *           SELECT LEFT(foo, 5) truncated_foo
-			 *           FROM T1
-			 *       ) X
-			 *
-			 *       the parent SELECT *does* care about the
-			 *       return value of LEFT. The result of the
-			 *       function must outlive the select clause.
-			 */
-			string* s = record_generate_subquery_string(&self->copy_data);
-			string_copy_from_stringview(s, copy_sv);
-			*copy_sv = (stringview) {s->data, s->size};
-			break;
-		}
-		default:
-			break;
+		if (is_null) {
+			continue;
 		}
+
+		/* NOTE: we actually need to copy some data here
+		 *       functions own their buffers because they
+		 *       only exist within their *clause*. Consider:
+		 *
+		 *       SELECT SUBSTRING(foo, 2, 5) AS foo
+		 *       FROM t1
+		 *       WHERE LEFT(foo, 1) = 'A'
+		 *
+		 *       The SELECT clause does not care about the
+		 *       value returned by LEFT, and the WHERE
+		 *       clause doesn't care about the value returned
+		 *       by SUBSTRING. But if there is a subquery,
+		 *
+		 *       SELECT truncated_foo
+		 *       FROM (
+		 *           SELECT LEFT(foo, 5) truncated_foo
+		 *           FROM T1
+		 *       ) X
+		 *
+		 *       the parent SELECT *does* care about the
+		 *       return value of LEFT. The result of the
+		 *       function must outlive the select clause.
+		 *       The same goes for any other buffer: that of
+		 *       an expression is used again for the next
+		 *       record, and the strings of a nested subquery
+		 *       go with the next swap.
+		 */
+		string* s = record_generate_subquery_string(&self->copy_data);
+		string_copy_from_stringview(s, copy_sv);
+		*copy_sv = (stringview) {s->data, s->size};
 	}
 
 	if (reader->random_access_file) {
-- 
2.43.0


From c94260493b68b21b86c815870f4f10ab17dd54d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:14 +0000
Subject: [PATCH 30/88] fix: outer query found the sources joined inside a
 subquery in place of its own

---
 lib/fqlprocesses.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index c9872a0..b1a7e36 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -271,6 +271,15 @@ enum proc_return fql_read(process* proc)
 		record* rec = (*rg_iter)->data;
 		rec->src_idx = table->idx;
 
+		/* If this record was joined together by a subquery, the
+		 * rest of its sources mean nothing out here. They must
+		 * not be found by their index.
+		 */
+		node* hidden = (*rg_iter)->next;
+		for (; hidden; hidden = hidden->next) {
+			((record*)hidden->data)->src_idx = -1;
+		}
+
 		_fqlprocess_print_iter_states(proc, rec->node_idx);
 
 		fifo_add(out, rg_iter);
-- 
2.43.0


From aaed0fb3a8613f052c821afb1a6d4d77b3ae9534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 31/88] fix: stepping an ORDER BY without rows crashed, and its
 file stayed open

---
 lib/order.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/order.c b/lib/order.c
index 1830756..178cbac 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -390,6 +390,7 @@ int order_sort(order* self)
 {
 	vec_sort_r(&self->entries, &_compare, self);
 	self->sorted = true;
+	self->entry_iter = vec_begin(&self->entries);
 
 	self->fd = open(string_c_str(&self->in_filename), O_RDONLY);
 	if (self->fd == -1) {
@@ -404,6 +405,7 @@ int order_sort(order* self)
 	}
 
 	if (sb.st_size == 0) {
+		close(self->fd);
 		return FQL_GOOD;
 	}
 
@@ -417,7 +419,5 @@ int order_sort(order* self)
 	}
 	madvise(self->mmap, sb.st_size, MADV_RANDOM);
 
-	self->entry_iter = vec_begin(&self->entries);
-
 	return FQL_GOOD;
 }
-- 
2.43.0


From 49a4201476e49e5ca831b27299c45c42c290be0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 32/88] fix: stepping TOP 0 with ORDER BY gave a row

---
 lib/order.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/order.c b/lib/order.c
index 178cbac..53d97e8 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -308,7 +308,8 @@ int _order_select(order* self, process* proc)
 
 int _order_select_api(order* self, process* proc)
 {
-	if (self->entry_iter == vec_end(&self->entries)) {
+	if (self->entry_iter == vec_end(&self->entries)
+	    || proc->rows_affected >= self->top_count) {
 		return 0;
 	}
 	size_t offset = self->entry_iter->offset;
-- 
2.43.0


From 54892021e25eaedba2caa775eacc0ab3c332f592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 33/88] fix: NULL came out of ORDER BY as a value

---
 lib/fqlselect.c | 22 ++++++++++++++++------
 lib/order.c     | 10 +++++++++-
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 9b190ec..47df1f5 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -456,27 +456,37 @@ int _select_record_order_api(fqlselect* self, node* rg)
 	unsigned i = 0;
 	unsigned len = 0;
 	for (; i < expr_vec->size; ++i) {
+		bool is_null = false;
 		switch (exprs[i]->field_type) {
 		case FIELD_INT: {
 			long num = 0;
-			try_(expression_get_int(&num, exprs[i], rg));
+			is_null = (try_(expression_get_int(&num, exprs[i], rg))
+			           == FQL_NULL);
+			fputc(is_null, order_input);
 			fwrite(&num, sizeof(num), 1, order_input);
-			len += sizeof(num);
+			len += 1 + sizeof(num);
 			break;
 		}
 		case FIELD_FLOAT: {
 			double num = 0;
-			try_(expression_get_float(&num, exprs[i], rg));
+			is_null = (try_(expression_get_float(&num, exprs[i], rg))
+			           == FQL_NULL);
+			fputc(is_null, order_input);
 			fwrite(&num, sizeof(num), 1, order_input);
-			len += sizeof(num);
+			len += 1 + sizeof(num);
 			break;
 		}
 		case FIELD_STRING: {
 			stringview sv;
-			try_(expression_get_stringview(&sv, exprs[i], rg));
+			is_null = (try_(expression_get_stringview(&sv, exprs[i], rg))
+			           == FQL_NULL);
+			if (is_null) {
+				sv = (stringview) {"", 0};
+			}
+			fputc(is_null, order_input);
 			fwrite(&sv.len, sizeof(sv.len), 1, order_input);
 			fwrite(sv.data, 1, sv.len, order_input);
-			len += sizeof(sv.len) + sv.len;
+			len += 1 + sizeof(sv.len) + sv.len;
 			break;
 		}
 		default:;
diff --git a/lib/order.c b/lib/order.c
index 53d97e8..335833c 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -236,7 +236,10 @@ int order_add_record(order* self, node* rg)
 		}
 		case FIELD_STRING: {
 			stringview sv;
-			try_(expression_get_stringview(&sv, exprs[i], rg));
+			if (try_(expression_get_stringview(&sv, exprs[i], rg))
+			    == FQL_NULL) {
+				sv = (stringview) {"", 0};
+			}
 			flex_push_back(&self->order_data, (void*)sv.data, sv.len);
 			break;
 		}
@@ -315,6 +318,7 @@ int _order_select_api(order* self, process* proc)
 	size_t offset = self->entry_iter->offset;
 	struct fql_field* it = vec_begin(self->api);
 	for (; it != vec_end(self->api); ++it) {
+		it->is_null = self->mmap[offset++];
 		switch (it->type) {
 		case FQL_INT:
 			it->data.i = *(long*)(&self->mmap[offset]);
@@ -363,6 +367,10 @@ int _order_select_to_const(order* self, process* proc)
 	self->const_dest->field_type = first_expr->field_type;
 
 	size_t offset = first_ent->offset;
+	if (self->mmap[offset++]) {
+		self->const_dest->expr = EXPR_NULL;
+		return FQL_GOOD;
+	}
 	switch (first_expr->field_type) {
 	case FIELD_INT:
 		self->const_dest->field.i = *(long*)(&self->mmap[offset]);
-- 
2.43.0


From 6a59a80bd884c85c3ac279a3c8ac0ccc0345247c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 34/88] fix: ORDER BY took the columns of the first SELECT for
 the rows of every UNION member

---
 lib/order.c | 18 +++++++++++++++---
 lib/order.h |  1 +
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/lib/order.c b/lib/order.c
index 335833c..bd4fbc2 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -123,6 +123,8 @@ int order_preresolve_expressions(order* self, fqlselect* select, const vec* sour
 	 * These were never mapped. Preflight does this.
 	 */
 
+	self->select = select;
+
 	vec* select_exprs = select->schema->expressions;
 	schema_preflight(select->schema);
 	multimap* select_map = select->schema->expr_map;
@@ -218,25 +220,35 @@ int order_add_record(order* self, node* rg)
 
 	expression** exprs = vec_begin(&self->expressions);
 
+	/* A reference means a column of the SELECT list. Records of a
+	 * UNION belong to the SELECT list that is current.
+	 */
+	fqlselect* select = self->select->current_select;
+	vec* select_exprs = select->schema->expressions;
+
 	unsigned i = 0;
 	for (; i < self->expressions.size; ++i) {
+		expression* expr = exprs[i];
+		if (expr->expr == EXPR_REFERENCE && select != self->select) {
+			expr = *(expression**)vec_at(select_exprs, expr->index);
+		}
 		switch (exprs[i]->field_type) {
 		case FIELD_INT: {
 			/* NOTE: storing numbers in binary */
 			long num_i = 0;
-			try_(expression_get_int(&num_i, exprs[i], rg));
+			try_(expression_get_int(&num_i, expr, rg));
 			flex_push_back_(&self->order_data, &num_i, long);
 			break;
 		}
 		case FIELD_FLOAT: {
 			double num_f = 0;
-			try_(expression_get_float(&num_f, exprs[i], rg));
+			try_(expression_get_float(&num_f, expr, rg));
 			flex_push_back_(&self->order_data, &num_f, double);
 			break;
 		}
 		case FIELD_STRING: {
 			stringview sv;
-			if (try_(expression_get_stringview(&sv, exprs[i], rg))
+			if (try_(expression_get_stringview(&sv, expr, rg))
 			    == FQL_NULL) {
 				sv = (stringview) {"", 0};
 			}
diff --git a/lib/order.h b/lib/order.h
index 9cdb6ff..57505bb 100644
--- a/lib/order.h
+++ b/lib/order.h
@@ -23,6 +23,7 @@ struct order {
 	order_select_fn select__;
 	struct vec* api;
 	struct expression* const_dest;
+	struct fqlselect* select;
 	FILE* out_file;
 	struct _entry* entry_iter;
 	struct node* temp_node;
-- 
2.43.0


From d85b6dcdb61c251f02d0d46f6d4880caadee6aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 35/88] fix: value of a scalar subquery was read as the type of
 its ORDER BY expression

---
 lib/order.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/order.c b/lib/order.c
index bd4fbc2..b038208 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -373,7 +373,8 @@ int _order_select_to_const(order* self, process* proc)
 	}
 
 	struct _entry* first_ent = vec_begin(&self->entries);
-	expression* first_expr = *(expression**)vec_begin(&self->expressions);
+	expression* first_expr =
+	        *(expression**)vec_begin(self->select->schema->expressions);
 
 	self->const_dest->expr = EXPR_CONST;
 	self->const_dest->field_type = first_expr->field_type;
-- 
2.43.0


From 9ac6369e7100009eef956b09fe0b012bc0d0cac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 36/88] fix: vec_resize_and_zero left old contents when no
 storage was added

---
 util/vec.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/util/vec.c b/util/vec.c
index 324933d..d29a3dd 100644
--- a/util/vec.c
+++ b/util/vec.c
@@ -82,13 +82,12 @@ void vec_resize(vec* restrict self, size_t size)
 void vec_resize_and_zero(vec* restrict self, size_t size)
 {
 	size_t org_size = self->size;
-	size_t org_alloc = self->_alloc;
 	vec_resize(self, size);
-	if (org_alloc == self->_alloc) {
+	if (size <= org_size) {
 		return;
 	}
 	void* new_shit = vec_at(self, org_size);
-	size_t new_shit_size = self->_alloc - org_size;
+	size_t new_shit_size = size - org_size;
 	memset(new_shit, 0, new_shit_size * self->_elem_size);
 }
 
-- 
2.43.0


From 6538b332083b61a8c9528920ba75f71ee49c6518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:00 +0000
Subject: [PATCH 37/88] fix: DELETE and UPDATE through a join repeated, dropped
 or reordered records

---
 lib/fqldelete.c    |  57 +++++++-
 lib/fqldelete.h    |   7 +-
 lib/fqlprocesses.c | 321 ++++++---------------------------------------
 lib/fqlupdate.c    |  96 +++++++++++++-
 lib/fqlupdate.h    |  17 ++-
 lib/operation.h    |   6 -
 6 files changed, 204 insertions(+), 300 deletions(-)

diff --git a/lib/fqldelete.c b/lib/fqldelete.c
index 912d5a8..981784d 100644
--- a/lib/fqldelete.c
+++ b/lib/fqldelete.c
@@ -1,9 +1,12 @@
 #include "fqldelete.h"
 #include "expression.h"
 #include "process.h"
+#include "misc.h"
 #include "util.h"
 #include "writer.h"
 #include "order.h"
+#include "table.h"
+#include "reader.h"
 #include "schema.h"
 #include "query.h"
 #include "fql.h"
@@ -18,9 +21,10 @@ fqldelete* fqldelete_construct(fqldelete* self)
 	        .undelete__ = &_delete_writer,
 	        .top_count = -1,
 	        .table_idx = -1,
-	        .state = FILTER_OPEN,
 	};
 
+	vec_construct_(&self->marked, bool);
+
 	expression* lol_expr = new_(expression, EXPR_ASTERISK, NULL, "");
 	schema_add_expression(self->schema, lol_expr, 0);
 
@@ -32,6 +36,7 @@ void fqldelete_destroy(fqldelete* self)
 	if (self == NULL) {
 		return;
 	}
+	vec_destroy(&self->marked);
 	delete_if_exists_(writer, self->writer);
 	delete_(schema, self->schema);
 }
@@ -39,8 +44,7 @@ void fqldelete_destroy(fqldelete* self)
 int fqldelete_reset(fqldelete* self)
 {
 	self->rows_affected = 0;
-	self->state = FILTER_OPEN;
-	self->delete_idx = 0;
+	vec_clear(&self->marked);
 
 	return FQL_GOOD;
 }
@@ -83,14 +87,13 @@ int fqldelete_apply_process(query* query, plan* plan)
 	}
 
 	/* At this point, we are dealing with a join */
+	self->table = vec_at(query->sources, self->table_idx);
 	process* delete_filter_proc = new_(process, "DELETE FILTER", plan);
 	delete_filter_proc->action__ = &fql_delete_filter;
 	delete_filter_proc->proc_data = self;
-	delete_filter_proc->is_dual_link = true;
-	delete_filter_proc->has_second_input = true;
 	dnode* filter_node = dgraph_add_data(plan->processes, delete_filter_proc);
 
-	plan->op_false->out[0] = filter_node;
+	/* Records that fail are of no interest here. */
 	plan->op_true->out[0] = filter_node;
 
 	process* proc = plan->op_false->data;
@@ -147,3 +150,45 @@ int _delete_writer(fqldelete* self, node* rg)
 	                                    NULL);
 }
 
+/* returns whether this record was not yet marked */
+bool fqldelete_mark(fqldelete* self, size_t rec_idx)
+{
+	if (rec_idx >= self->marked.size) {
+		vec_resize_and_zero(&self->marked, rec_idx + 1);
+	}
+	bool* marked = vec_at(&self->marked, rec_idx);
+	bool is_new = !*marked;
+	*marked = true;
+	return is_new;
+}
+
+/* write each record of the table that is not marked */
+int fqldelete_write_marked(fqldelete* self)
+{
+	reader* reader = self->table->reader;
+	try_(reader->reset__(reader));
+
+	node rg = {.data = new_(record, 0)};
+	int ret = FQL_GOOD;
+	for (;;) {
+		ret = reader->get_record__(reader, &rg);
+		if (ret != FQL_GOOD) {
+			break;
+		}
+		record* rec = rg.data;
+		rec->src_idx = self->table->idx;
+		if (rec->rec_idx < self->marked.size) {
+			bool* marked = vec_at(&self->marked, rec->rec_idx);
+			if (*marked) {
+				continue;
+			}
+		}
+		ret = self->undelete__(self, &rg);
+		if (ret == FQL_FAIL) {
+			break;
+		}
+	}
+	delete_(record, rg.data);
+
+	return (ret == FQL_FAIL) ? FQL_FAIL : FQL_GOOD;
+}
diff --git a/lib/fqldelete.h b/lib/fqldelete.h
index 24b7a6a..0f94c11 100644
--- a/lib/fqldelete.h
+++ b/lib/fqldelete.h
@@ -8,6 +8,7 @@
 #include "operation.h"
 
 struct node;
+struct table;
 struct fqldelete;
 
 typedef int (*delete_fn)(struct fqldelete*, struct node*);
@@ -16,12 +17,12 @@ struct fqldelete {
 	enum fql_operation oper_type;
 	struct schema* schema;
 	struct writer* writer;
+	struct table* table; /* only set for a join */
+	struct vec marked;   /* by rec_idx, true: delete */
 	delete_fn undelete__;
-	size_t delete_idx;
 	size_t rows_affected;
 	size_t top_count;
 	unsigned table_idx;
-	enum filter_state state;
 	bool has_matched_alias;
 };
 typedef struct fqldelete fqldelete;
@@ -31,6 +32,8 @@ void fqldelete_destroy(struct fqldelete*);
 int fqldelete_reset(struct fqldelete*);
 
 int fqldelete_apply_process(struct query*, struct fqlplan*);
+bool fqldelete_mark(struct fqldelete*, size_t rec_idx);
+int fqldelete_write_marked(struct fqldelete*);
 void fqldelete_preop(struct fqldelete*, struct query*);
 
 
diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index b1a7e36..f2eee99 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -989,141 +989,20 @@ enum proc_return fql_delete(process* proc)
 	return ret;
 }
 
-enum proc_return
-_del_passthrough(process* proc, fqldelete* delete, fifo* in_false, fifo* in_true)
-{
-	enum proc_return ret = PROC_RETURN_WAIT_ON_IN_EITHER;
-
-	node** it = fifo_begin(in_false);
-	bool false_done = (it == fifo_end(in_false));
-	for (; it != fifo_end(in_false); it = fifo_iter(in_false)) {
-		record* rec = record_at(*it, delete->table_idx);
-		if (rec->rec_idx > delete->delete_idx) {
-			false_done = true;
-			break;
-		}
-		_fqlprocess_print_iter_states(proc, rec->node_idx);
-		fqlprocess_recycle(proc, it);
-	}
-	fifo_update(in_false);
-
-	it = fifo_begin(in_true);
-	if (it == fifo_end(in_true)) {
-		delete->state = FILTER_OPEN;
-		return PROC_RETURN_RUNNING;
-	}
-
-	for (; it != fifo_end(in_true); it = fifo_iter(in_true)) {
-		record* rec = record_at(*it, delete->table_idx);
-		if (rec->rec_idx > delete->delete_idx) {
-			if (false_done) {
-				delete->state = FILTER_OPEN;
-				ret = PROC_RETURN_RUNNING;
-			}
-			break;
-		}
-		_fqlprocess_print_iter_states(proc, rec->node_idx);
-		fqlprocess_recycle(proc, it);
-	}
-	fifo_update(in_true);
-
-	return ret;
-}
-
-enum proc_return
-_del_filtering(process* proc, fqldelete* delete, fifo* in_false, fifo* in_true)
-{
-	if (fifo_available(in_true)) {
-		node** true_node = fifo_peek(in_true);
-		record* rec = record_at(*true_node, delete->table_idx);
-		if (rec->rec_idx > delete->delete_idx) {
-			node** false_node = fifo_get(in_false);
-			try_(delete->undelete__(delete, *false_node));
-			fqlprocess_recycle(proc, false_node);
-		} else {
-			fifo_consume(in_true);
-			++proc->rows_affected;
-			fqlprocess_recycle(proc, true_node);
-		}
-		delete->state = FILTER_PASSTHROUGH;
-		_del_passthrough(proc, delete, in_false, in_true);
-		return PROC_RETURN_RUNNING;
-	}
-
-	if (!in_true->is_open) {
-		node** false_node = fifo_get(in_false);
-		try_(delete->undelete__(delete, *false_node));
-		fqlprocess_recycle(proc, false_node);
-		delete->state = FILTER_PASSTHROUGH;
-		_del_passthrough(proc, delete, in_false, in_true);
-		return PROC_RETURN_RUNNING;
-	}
-
-	node** iter_false = fifo_begin(in_false);
-	for (; iter_false != fifo_end(in_false); iter_false = fifo_iter(in_false)) {
-		node** look_ahead = fifo_look_ahead(in_false);
-		if (look_ahead == NULL) {
-			break;
-		}
-		record* look_ahead_rec = record_at(*look_ahead, delete->table_idx);
-		if (look_ahead_rec->rec_idx > delete->delete_idx) {
-			try_(delete->undelete__(delete, *iter_false));
-			delete->state = FILTER_OPEN;
-		}
-		_fqlprocess_print_iter_states(proc, look_ahead_rec->node_idx);
-		fqlprocess_recycle(proc, iter_false);
-	}
-	fifo_update(in_false);
-	return PROC_RETURN_RUNNING;
-}
-
-enum proc_return
-_del_open(process* proc, fqldelete* delete, fifo* in_false, fifo* in_true)
-{
-	bool process_true = false;
-
-	node** true_node = NULL;
-	record* true_rec = NULL;
-	node** false_node = NULL;
-	record* false_rec = NULL;
-
-	if (fifo_available(in_false)) {
-		false_node = fifo_peek(in_false);
-		false_rec = record_at(*false_node, delete->table_idx);
-	}
-
-	/* If not stable, this can be skipped */
-	if (fifo_available(in_true)) {
-		true_node = fifo_peek(in_true);
-		true_rec = record_at(*true_node, delete->table_idx);
-		if (false_node == NULL || true_rec->rec_idx <= false_rec->rec_idx) {
-			process_true = true;
-		}
-	}
-	if (process_true) {
-		fifo_consume(in_true);
-		fqlprocess_recycle(proc, true_node);
-		++proc->rows_affected;
-		delete->delete_idx = true_rec->rec_idx;
-		delete->state = FILTER_PASSTHROUGH;
-		return PROC_RETURN_RUNNING;
-	}
-	delete->delete_idx = false_rec->rec_idx;
-	delete->state = FILTER_FILTERING;
-	return PROC_RETURN_RUNNING;
-}
-
+/* When a table is modified through a join, a record of the table
+ * can show up here any number of times, including not at all. So,
+ * only take note of what becomes of each record. Once all the input
+ * is in, pass over the table again to write the file.
+ */
 enum proc_return fql_delete_filter(process* proc)
 {
-	fifo* in_false = proc->fifo_in[0];
-	fifo* in_true = proc->fifo_in[1];
+	fifo* in = proc->fifo_in[0];
 
-	if (fifo_is_empty(in_false) && fifo_is_empty(in_true)) {
-		if (in_true->is_open || in_false->is_open) {
-			return PROC_RETURN_WAIT_ON_IN_EITHER;
-		} else {
-			proc->wait_for_in0 = false;
+	if (fifo_is_empty(in)) {
+		if (in->is_open) {
+			return PROC_RETURN_WAIT_ON_IN0;
 		}
+		proc->wait_for_in0 = false;
 	}
 
 	fqldelete* delete = proc->proc_data;
@@ -1131,19 +1010,23 @@ enum proc_return fql_delete_filter(process* proc)
 	////
 
 	if (!proc->wait_for_in0) {
+		try_(fqldelete_write_marked(delete));
 		try_(writer_close(delete->writer));
 		return PROC_RETURN_COMPLETE;
 	}
 
-	switch (delete->state) {
-	case FILTER_PASSTHROUGH:
-		return _del_passthrough(proc, delete, in_false, in_true);
-	case FILTER_FILTERING:
-		return _del_filtering(proc, delete, in_false, in_true);
-	case FILTER_OPEN:
-	default:
-		return _del_open(proc, delete, in_false, in_true);
+	node** it = fifo_begin(in);
+	for (; it != fifo_end(in); it = fifo_iter(in)) {
+		record* rec = record_at(*it, delete->table_idx);
+		if (fqldelete_mark(delete, rec->rec_idx)) {
+			++proc->rows_affected;
+		}
+		_fqlprocess_print_iter_states(proc, rec->node_idx);
+		fqlprocess_recycle(proc, it);
 	}
+	fifo_update(in);
+
+	return PROC_RETURN_WAIT_ON_IN0;
 }
 
 enum proc_return fql_update(process* proc)
@@ -1206,142 +1089,16 @@ enum proc_return fql_update(process* proc)
 	return ret;
 }
 
-enum proc_return
-_update_passthrough(process* proc, fqlupdate* update, fifo* in_false, fifo* in_true)
-{
-	enum proc_return ret = PROC_RETURN_WAIT_ON_IN_EITHER;
-
-	node** it = fifo_begin(in_false);
-	bool false_done = (it == fifo_end(in_false));
-	for (; it != fifo_end(in_false); it = fifo_iter(in_false)) {
-		record* rec = record_at(*it, update->table_idx);
-		if (rec->rec_idx > update->update_idx) {
-			false_done = true;
-			break;
-		}
-		_fqlprocess_print_iter_states(proc, rec->node_idx);
-		fqlprocess_recycle(proc, it);
-	}
-	fifo_update(in_false);
-
-	it = fifo_begin(in_true);
-	if (it == fifo_end(in_true)) {
-		update->state = FILTER_OPEN;
-		return PROC_RETURN_RUNNING;
-	}
-
-	for (; it != fifo_end(in_true); it = fifo_iter(in_true)) {
-		record* rec = record_at(*it, update->table_idx);
-		if (rec->rec_idx > update->update_idx) {
-			if (false_done) {
-				update->state = FILTER_OPEN;
-				ret = PROC_RETURN_RUNNING;
-			}
-			break;
-		}
-		_fqlprocess_print_iter_states(proc, rec->node_idx);
-		fqlprocess_recycle(proc, it);
-	}
-	fifo_update(in_true);
-
-	return ret;
-}
-
-enum proc_return
-_update_filtering(process* proc, fqlupdate* update, fifo* in_false, fifo* in_true)
-{
-	if (fifo_available(in_true)) {
-		node** true_node = fifo_peek(in_true);
-		record* rec = record_at(*true_node, update->table_idx);
-		if (rec->rec_idx > update->update_idx) {
-			node** false_node = fifo_get(in_false);
-			try_(update->noupdate__(update, *false_node));
-			fqlprocess_recycle(proc, false_node);
-		} else {
-			fifo_consume(in_true);
-			try_(update->update__(update, *true_node));
-			++proc->rows_affected;
-			fqlprocess_recycle(proc, true_node);
-		}
-		update->state = FILTER_PASSTHROUGH;
-		_update_passthrough(proc, update, in_false, in_true);
-		return PROC_RETURN_RUNNING;
-	}
-
-	if (!in_true->is_open) {
-		node** false_node = fifo_get(in_false);
-		try_(update->noupdate__(update, *false_node));
-		fqlprocess_recycle(proc, false_node);
-		update->state = FILTER_PASSTHROUGH;
-		_update_passthrough(proc, update, in_false, in_true);
-		return PROC_RETURN_RUNNING;
-	}
-
-	node** iter_false = fifo_begin(in_false);
-	for (; iter_false != fifo_end(in_false); iter_false = fifo_iter(in_false)) {
-		node** look_ahead = fifo_look_ahead(in_false);
-		if (look_ahead == NULL) {
-			break;
-		}
-		record* look_ahead_rec = record_at(*look_ahead, update->table_idx);
-		if (look_ahead_rec->rec_idx > update->update_idx) {
-			try_(update->noupdate__(update, *iter_false));
-			update->state = FILTER_OPEN;
-		}
-		_fqlprocess_print_iter_states(proc, look_ahead_rec->node_idx);
-		fqlprocess_recycle(proc, iter_false);
-	}
-	fifo_update(in_false);
-	return PROC_RETURN_RUNNING;
-}
-
-enum proc_return
-_update_open(process* proc, fqlupdate* update, fifo* in_false, fifo* in_true)
-{
-	bool process_true = false;
-
-	node** true_node = NULL;
-	record* true_rec = NULL;
-	node** false_node = NULL;
-	record* false_rec = NULL;
-
-	if (fifo_available(in_false)) {
-		false_node = fifo_peek(in_false);
-		false_rec = record_at(*false_node, update->table_idx);
-	}
-
-	/* If not stable, this can be skipped */
-	if (fifo_available(in_true)) {
-		true_node = fifo_peek(in_true);
-		true_rec = record_at(*true_node, update->table_idx);
-		if (false_node == NULL || true_rec->rec_idx <= false_rec->rec_idx) {
-			process_true = true;
-		}
-	}
-	if (process_true) {
-		try_(update->update__(update, *true_node));
-		fifo_consume(in_true);
-		fqlprocess_recycle(proc, true_node);
-		++proc->rows_affected;
-		update->update_idx = true_rec->rec_idx;
-		update->state = FILTER_PASSTHROUGH;
-		return PROC_RETURN_RUNNING;
-	}
-	update->update_idx = false_rec->rec_idx;
-	update->state = FILTER_FILTERING;
-	return PROC_RETURN_RUNNING;
-}
-
+/* see fql_delete_filter */
 enum proc_return fql_update_filter(process* proc)
 {
-	fifo* in_false = proc->fifo_in[0];
-	fifo* in_true = proc->fifo_in[1];
-	if (fifo_is_empty(in_false) && fifo_is_empty(in_true)) {
-		if (in_true->is_open || in_false->is_open) {
-			return PROC_RETURN_WAIT_ON_IN_EITHER;
-		} else {
-			proc->wait_for_in0 = false;
+	fifo* in = proc->fifo_in[0];
+
+	if (fifo_is_empty(in)) {
+		if (in->is_open) {
+			return PROC_RETURN_WAIT_ON_IN0;
 		}
+		proc->wait_for_in0 = false;
 	}
 
 	fqlupdate* update = proc->proc_data;
@@ -1349,19 +1106,23 @@ enum proc_return fql_update_filter(process* proc)
 	////
 
 	if (!proc->wait_for_in0) {
+		try_(fqlupdate_write_marked(update));
 		try_(writer_close(update->writer));
 		return PROC_RETURN_COMPLETE;
 	}
 
-	switch (update->state) {
-	case FILTER_PASSTHROUGH:
-		return _update_passthrough(proc, update, in_false, in_true);
-	case FILTER_FILTERING:
-		return _update_filtering(proc, update, in_false, in_true);
-	case FILTER_OPEN:
-	default:
-		return _update_open(proc, update, in_false, in_true);
+	node** it = fifo_begin(in);
+	for (; it != fifo_end(in); it = fifo_iter(in)) {
+		record* rec = record_at(*it, update->table_idx);
+		if (try_(fqlupdate_mark(update, *it, rec->rec_idx))) {
+			++proc->rows_affected;
+		}
+		_fqlprocess_print_iter_states(proc, rec->node_idx);
+		fqlprocess_recycle(proc, it);
 	}
+	fifo_update(in);
+
+	return PROC_RETURN_WAIT_ON_IN0;
 }
 
 enum proc_return fql_orderby(process* proc)
diff --git a/lib/fqlupdate.c b/lib/fqlupdate.c
index 86551c2..653a83a 100644
--- a/lib/fqlupdate.c
+++ b/lib/fqlupdate.c
@@ -2,15 +2,19 @@
 #include "aggregate.h"
 #include "expression.h"
 #include "process.h"
+#include "misc.h"
 #include "util.h"
 #include "writer.h"
 #include "order.h"
+#include "table.h"
+#include "reader.h"
 #include "schema.h"
 #include "query.h"
 #include "fql.h"
 
 int _update_writer(fqlupdate*, node*);
 int _noupdate_writer(fqlupdate*, node*);
+void _clear_marked(fqlupdate*);
 
 fqlupdate* fqlupdate_construct(fqlupdate* self)
 {
@@ -21,12 +25,12 @@ fqlupdate* fqlupdate_construct(fqlupdate* self)
 	        .noupdate__ = &_noupdate_writer,
 	        .top_count = -1,
 	        .table_idx = -1,
-	        .state = FILTER_OPEN,
 	};
 
 	expression* lol_expr = new_(expression, EXPR_ASTERISK, NULL, "");
 	schema_add_expression(self->schema, lol_expr, 0);
 
+	vec_construct_(&self->marked, struct update_text);
 	vec_construct_(&self->update_expressions, expression*);
 	vec_construct_(&self->set_columns, expression*);
 	vec_construct_(&self->value_expressions, expression*);
@@ -58,6 +62,8 @@ void fqlupdate_destroy(fqlupdate* self)
 	 * so no need to free these individually.
 	 */
 	vec_destroy(&self->value_expressions);
+	_clear_marked(self);
+	vec_destroy(&self->marked);
 	delete_if_exists_(writer, self->writer);
 	delete_(schema, self->schema);
 }
@@ -66,7 +72,7 @@ int fqlupdate_reset(fqlupdate* self)
 {
 	self->rownum = 0;
 	self->rows_affected = 0;
-	self->state = FILTER_OPEN;
+	_clear_marked(self);
 	self->update_idx = 0;
 
 	return FQL_GOOD;
@@ -123,14 +129,13 @@ int fqlupdate_apply_process(query* query, plan* plan)
 	}
 
 	/* At this point, we are dealing with a join */
+	self->table = vec_at(query->sources, self->table_idx);
 	process* update_filter_proc = new_(process, "UPDATE FILTER", plan);
 	update_filter_proc->action__ = &fql_update_filter;
 	update_filter_proc->proc_data = self;
-	update_filter_proc->is_dual_link = true;
-	update_filter_proc->has_second_input = true;
 	dnode* filter_node = dgraph_add_data(plan->processes, update_filter_proc);
 
-	plan->op_false->out[0] = filter_node;
+	/* Records that fail are of no interest here. */
 	plan->op_true->out[0] = filter_node;
 
 	process* proc = plan->op_false->data;
@@ -258,3 +263,84 @@ int _noupdate_writer(fqlupdate* self, node* rg)
 	                                    rg,
 	                                    NULL);
 }
+
+void _clear_marked(fqlupdate* self)
+{
+	vec_clear(&self->marked);
+	if (self->text_stream != NULL) {
+		fclose(self->text_stream);
+		self->text_stream = NULL;
+	}
+	free_if_exists_(self->text);
+	self->text_size = 0;
+}
+
+/* Keep the text of an updated record until the file is written.
+ * Returns whether this record was not yet updated.
+ */
+int fqlupdate_mark(fqlupdate* self, node* rg, size_t rec_idx)
+{
+	if (rec_idx >= self->marked.size) {
+		vec_resize_and_zero(&self->marked, rec_idx + 1);
+	}
+	struct update_text* marked = vec_at(&self->marked, rec_idx);
+	if (marked->is_updated) {
+		return false;
+	}
+
+	if (self->text_stream == NULL) {
+		self->text_stream = open_memstream(&self->text, &self->text_size);
+		if (self->text_stream == NULL) {
+			perror("open_memstream");
+			return FQL_FAIL;
+		}
+	}
+
+	fflush(self->text_stream);
+	marked->offset = self->text_size;
+	++self->rownum;
+	try_(self->writer->write_record__(self->writer,
+	                                  &self->update_expressions,
+	                                  rg,
+	                                  self->text_stream));
+	fflush(self->text_stream);
+	marked->len = self->text_size - marked->offset;
+	marked->is_updated = true;
+	return true;
+}
+
+/* write each record of the table, updated or not */
+int fqlupdate_write_marked(fqlupdate* self)
+{
+	reader* reader = self->table->reader;
+	try_(reader->reset__(reader));
+
+	node rg = {.data = new_(record, 0)};
+	int ret = FQL_GOOD;
+	for (;;) {
+		ret = reader->get_record__(reader, &rg);
+		if (ret != FQL_GOOD) {
+			break;
+		}
+		record* rec = rg.data;
+		rec->src_idx = self->table->idx;
+		if (rec->rec_idx < self->marked.size) {
+			struct update_text* marked =
+			        vec_at(&self->marked, rec->rec_idx);
+			if (marked->is_updated) {
+				fwrite(self->text + marked->offset,
+				       1,
+				       marked->len,
+				       writer_get_file(self->writer));
+				continue;
+			}
+		}
+		ret = self->noupdate__(self, &rg);
+		if (ret == FQL_FAIL) {
+			break;
+		}
+	}
+	delete_(record, rg.data);
+
+	return (ret == FQL_FAIL) ? FQL_FAIL : FQL_GOOD;
+}
diff --git a/lib/fqlupdate.h b/lib/fqlupdate.h
index 82c5cf6..fc59236 100644
--- a/lib/fqlupdate.h
+++ b/lib/fqlupdate.h
@@ -1,6 +1,7 @@
 #ifndef FQLUPDATE_H
 #define FQLUPDATE_H
 
+#include <stdio.h>
 #include <stdlib.h>
 
 #include "fql.h"
@@ -8,15 +9,28 @@
 #include "operation.h"
 
 struct node;
+struct table;
 struct fqlupdate;
 struct expression;
 
 typedef int (*update_fn)(struct fqlupdate*, struct node*);
 
+/* where to find an updated record in fqlupdate.text */
+struct update_text {
+	size_t offset;
+	size_t len;
+	bool is_updated;
+};
+
 struct fqlupdate {
 	enum fql_operation oper_type;
 	struct schema* schema;
 	struct writer* writer;
+	struct table* table; /* only set for a join */
+	struct vec marked;   /* by rec_idx, struct update_text */
+	FILE* text_stream;   /* the text of all updated records */
+	char* text;
+	size_t text_size;
 	update_fn update__;
 	update_fn noupdate__;
 	size_t update_idx;
@@ -27,7 +41,6 @@ struct fqlupdate {
 	struct vec value_expressions;
 	unsigned table_idx;
 	unsigned rownum;
-	enum filter_state state;
 	bool has_matched_alias;
 };
 typedef struct fqlupdate fqlupdate;
@@ -39,6 +52,8 @@ int fqlupdate_reset(struct fqlupdate*);
 int fqlupdate_add_expression(struct fqlupdate*, const struct expression*);
 int fqlupdate_resolve_additional(struct fqlupdate*, struct query*);
 int fqlupdate_apply_process(struct query*, struct fqlplan*);
+int fqlupdate_mark(struct fqlupdate*, struct node*, size_t rec_idx);
+int fqlupdate_write_marked(struct fqlupdate*);
 void fqlupdate_preop(struct fqlupdate*, struct query*);
 
 /* operation.c? */
diff --git a/lib/operation.h b/lib/operation.h
index 915c1a0..99af8a9 100644
--- a/lib/operation.h
+++ b/lib/operation.h
@@ -9,12 +9,6 @@ struct schema;
 struct writer;
 struct expression;
 
-enum filter_state {
-	FILTER_OPEN,
-	FILTER_PASSTHROUGH,
-	FILTER_FILTERING,
-};
-
 enum fql_operation;
 
 int op_preop(struct query*);
-- 
2.43.0


From a95bebd1c6363e1a51b79192ede59e5fb93d4c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:38 +0000
Subject: [PATCH 38/88] fix: joins wrote into full pipes, copied too few or
 waited forever for fresh records

---
 lib/fqlprocesses.c | 85 ++++++++++++++++++++++++----------------------
 lib/process.c      |  8 +++++
 lib/process.h      |  1 +
 3 files changed, 53 insertions(+), 41 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index f2eee99..65a1a94 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -89,18 +89,6 @@ void _fqlprocess_print_iter_states(process* proc, int idx)
 }
 #endif
 
-int _fill_inbuf(process* proc, fifo* input)
-{
-	if (proc->inbuf_iter != vec_end(proc->inbuf)) {
-		return 1;
-	}
-	vec_clear(proc->inbuf);
-	int ret =
-	        fifo_nget(input, proc->inbuf, proc->out_src_count, proc->fifo_base_size);
-	proc->inbuf_iter = vec_begin(proc->inbuf);
-	return ret;
-}
-
 int _fqlprocess_add_or_buffer(fifo* out, node* rg, vec* buf, unsigned limit)
 {
 	if (vec_empty(buf)) {                 /* not yet buffering */
@@ -312,58 +300,63 @@ enum proc_return fql_cartesian_join(process* proc)
 		return PROC_RETURN_WAIT_ON_IN0;
 	}
 
+	if (!fifo_receivable(out)) {
+		return PROC_RETURN_WAIT_ON_OUT0;
+	}
+
 	table* table = proc->proc_data;
 	reader* reader = table->reader;
 
 	////
 
-	_fill_inbuf(proc, in_right);
-
-	//node** iter_left = fifo_begin(in_left);
 	node** iter_left = fifo_peek(in_left);
-	while (proc->inbuf_iter != vec_end(proc->inbuf)) {
-		record* rec = (*proc->inbuf_iter)->data;
+
+	/* One record for our side, and a copy for each record on the
+	 * left.  The left side can be wider than its source count if
+	 * it came from a subquery that was joined together.
+	 */
+	unsigned width = node_count(*iter_left) + 1;
+
+	while (fifo_available(in_right) >= width) {
+		node** iter_right = fifo_peek(in_right);
+		record* rec = (*iter_right)->data;
 		rec->src_idx = table->idx;
 
-		int ret = reader->get_record__(reader, *proc->inbuf_iter);
+		int ret = reader->get_record__(reader, *iter_right);
 
 		_fqlprocess_print_iter_states(proc, rec->node_idx);
 		switch (ret) {
 		case FQL_FAIL:
 			return PROC_RETURN_FAIL;
 		case FQL_GOOD: {
-			node* left_rec_node = node_back(*iter_left);
-			node** right_head = proc->inbuf_iter;
+			node* right_head = *iter_right;
+			fifo_consume(in_right);
 
+			node* left_rec_node = node_back(*iter_left);
 			for (; left_rec_node; left_rec_node = left_rec_node->prev) {
-				++proc->inbuf_iter;
-				record* fresh_rec = (*proc->inbuf_iter)->data;
-				record_copy(fresh_rec, left_rec_node);
-				node_push_import(right_head, *proc->inbuf_iter);
+				node* fresh_node = *(node**)fifo_get(in_right);
+				record_copy(fresh_node->data, left_rec_node);
+				node_push_import(&right_head, fresh_node);
 			}
-			fifo_add(out, right_head);
-			++proc->inbuf_iter;
+			fifo_add(out, &right_head);
 			break;
 		}
-		default: { /* eof */
+		default: /* eof */
 			reader->reset__(reader);
-			fifo_consume(in_left);
 			fqlprocess_recycle(proc, iter_left);
-			iter_left = fifo_peek(in_left);
-			//iter_left = fifo_iter(in_left);
-			if (iter_left == fifo_end(in_left)) {
+			fifo_consume(in_left);
+			if (fifo_is_empty(in_left)) {
 				return PROC_RETURN_WAIT_ON_IN0;
 			}
 			return PROC_RETURN_RUNNING;
 		}
-		}
 
 		if (!fifo_receivable(out)) {
 			return PROC_RETURN_WAIT_ON_OUT0;
 		}
 	}
 
-	return PROC_RETURN_RUNNING;
+	return PROC_RETURN_WAIT_ON_IN1;
 }
 
 enum proc_return _hash_join_right_side(process* proc, table* table, fifo* in_right)
@@ -500,6 +493,16 @@ enum proc_return fql_hash_join(process* proc)
 
 	node** left_rg_iter = fifo_begin(in_left);
 	while (left_rg_iter != fifo_end(in_left)) {
+		/* One record for our side, and maybe a copy for each record
+		 * on the left.  If they are not here yet, everything up
+		 * ahead must be allowed to recycle some.
+		 */
+		unsigned width = node_count(*left_rg_iter) + 1;
+		if (fifo_available(proc->fifo_aux_root) < width) {
+			ret = PROC_RETURN_WAIT_ON_ROOT;
+			break;
+		}
+
 		bool is_first_match = (hj->recs == NULL);
 		long offset = try_(_hash_join_left_side(proc, table, *left_rg_iter));
 		if (offset == -1) {
@@ -521,13 +524,13 @@ enum proc_return fql_hash_join(process* proc)
 			}
 			continue;
 		}
-		node** right_rg = fifo_get_or_wait(proc->fifo_aux_root);
-		record* right_rec = (*right_rg)->data;
+		node* right_rg = *(node**)fifo_get(proc->fifo_aux_root);
+		record* right_rec = right_rg->data;
 		right_rec->src_idx = proc->out_src_count - 1;
 		right_rec->is_first_match = is_first_match;
 		right_rec->is_last_match = (hj->recs == NULL);
 		reader* reader = table->reader;
-		try_(reader->get_record_at__(reader, *right_rg, offset));
+		try_(reader->get_record_at__(reader, right_rg, offset));
 
 		_fqlprocess_print_iter_states(proc, right_rec->node_idx);
 
@@ -537,7 +540,7 @@ enum proc_return fql_hash_join(process* proc)
 		 * send the right side.
 		 */
 		if (hj->recs == NULL) {
-			node_enqueue_import(left_rg_iter, *right_rg);
+			node_enqueue_import(left_rg_iter, right_rg);
 			fifo_add(out_true, left_rg_iter);
 			_fqlprocess_print_iter_states(proc, -2);
 			left_rg_iter = fifo_iter(in_left);
@@ -546,14 +549,14 @@ enum proc_return fql_hash_join(process* proc)
 			node* left_rec_node = node_back(*left_rg_iter);
 
 			for (; left_rec_node; left_rec_node = left_rec_node->prev) {
-				node** fresh_node = fifo_get_or_wait(proc->fifo_aux_root);
-				record* fresh_rec = (*fresh_node)->data;
+				node* fresh_node = *(node**)fifo_get(proc->fifo_aux_root);
+				record* fresh_rec = fresh_node->data;
 				record_copy(fresh_rec, left_rec_node);
 
 				_fqlprocess_print_iter_states(proc, fresh_rec->node_idx);
-				node_push_import(right_rg, *fresh_node);
+				node_push_import(&right_rg, fresh_node);
 			}
-			fifo_add(out_true, right_rg);
+			fifo_add(out_true, &right_rg);
 		}
 
 		if (!fifo_receivable(out_true)) {
diff --git a/lib/process.c b/lib/process.c
index 933062f..1aa9e6f 100644
--- a/lib/process.c
+++ b/lib/process.c
@@ -2,6 +2,7 @@
 
 #include <stdbool.h>
 #include <pthread.h>
+#include <sched.h>
 
 #include "fql.h"
 #include "misc.h"
@@ -407,6 +408,13 @@ void* _thread_exec(void* data)
 				fifo_wait_for_get(out1);
 			}
 			break;
+		case PROC_RETURN_WAIT_ON_ROOT:
+			if (fifo_is_empty(self->fifo_aux_root)) {
+				fifo_wait_for_add(self->fifo_aux_root);
+			} else {
+				sched_yield();
+			}
+			break;
 		case PROC_RETURN_WAIT_ON_IN_EITHER:
 			if (self->fifo_in[0]->is_open && in1->is_open
 			    && fifo_is_empty(self->fifo_in[0]) && fifo_is_empty(in1)) {
diff --git a/lib/process.h b/lib/process.h
index c47be52..5e2e56e 100644
--- a/lib/process.h
+++ b/lib/process.h
@@ -82,6 +82,7 @@ enum proc_return {
 	PROC_RETURN_WAIT_ON_IN_BOTH,
 	PROC_RETURN_WAIT_ON_OUT0,
 	PROC_RETURN_WAIT_ON_OUT1,
+	PROC_RETURN_WAIT_ON_ROOT,
 };
 
 void fqlprocess_recycle(struct process*, struct node**);
-- 
2.43.0


From 9da893e241cb1334f06b8e447d9f3eeb05717012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:37 +0000
Subject: [PATCH 39/88] fix: ELSE and nested branches ran the wrong statements

---
 lib/fqlbranch.c |   7 +-
 lib/fqlbranch.h |   3 +-
 lib/fqlhandle.h |   6 --
 lib/libfql.c    |   1 -
 lib/query.c     | 187 +++++++++++++++++++++---------------------------
 lib/scope.c     |   3 +-
 lib/scope.h     |   2 +-
 7 files changed, 85 insertions(+), 124 deletions(-)

diff --git a/lib/fqlbranch.c b/lib/fqlbranch.c
index 6154563..9003ecc 100644
--- a/lib/fqlbranch.c
+++ b/lib/fqlbranch.c
@@ -21,12 +21,7 @@ fqlbranch* fqlbranch_construct(fqlbranch* self,
 	        .false_idx = -1,
 	};
 
-	if (fql->branch_state == BRANCH_EXPECT_ELSE) {
-		self->scope->parent_scope = fql->_scope->parent_scope;
-	} else {
-		fql->branch_state = BRANCH_EXPECT_EXPR;
-		self->scope->parent_scope = fql->_scope;
-	}
+	self->scope->parent_scope = fql->_scope;
 	fql->_scope = self->scope;
 
 	return self;
diff --git a/lib/fqlbranch.h b/lib/fqlbranch.h
index 78cac2a..145f531 100644
--- a/lib/fqlbranch.h
+++ b/lib/fqlbranch.h
@@ -11,13 +11,12 @@ struct fqlbranch {
 	enum fql_operation oper_type;
 	struct logicgroup* condition;
 	int* next_query_idx_ref;
-	struct query* last_true_block_query;
 	struct scope* scope;
 	struct scope* else_scope;
 	int true_idx;
 	int false_idx;
+	int else_idx;
 	bool expect_else;
-	bool is_elseif;
 };
 typedef struct fqlbranch fqlbranch;
 
diff --git a/lib/fqlhandle.h b/lib/fqlhandle.h
index 0d647aa..23ce477 100644
--- a/lib/fqlhandle.h
+++ b/lib/fqlhandle.h
@@ -24,12 +24,6 @@ struct fqlhandle {
 	struct vec* schema_paths;
 	char* query_str;
 	unsigned query_idx;
-	enum {
-		BRANCH_NO_BRANCH,
-		BRANCH_EXPECT_EXPR,
-		BRANCH_EXPECT_ELSE,
-		BRANCH_EXPECT_EXIT,
-	} branch_state;
 	bool _out_delim_set;
 	struct {
 		struct vec* schema_path; /* actually string but extern "C" so.. */
diff --git a/lib/libfql.c b/lib/libfql.c
index 89dbb7f..49d0d9b 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -42,7 +42,6 @@ fqlhandle* fql_construct(fqlhandle* fql)
 	        .query_vec = new_t_(vec, query*),
 	        .api_vec = new_t_(vec, struct fql_field),
 	        .variables = new_t_(vec, variable),
-	        .branch_state = BRANCH_EXPECT_EXPR,
 	        ._out_delim_set = false,
 	        {
 	                .schema_path = new_(string),
diff --git a/lib/query.c b/lib/query.c
index ecb3439..7b16090 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -1,7 +1,6 @@
 #include "query.h"
 
 #include <stdbool.h>
-#include <assert.h>
 #include <unistd.h>
 
 #include "fql.h"
@@ -189,24 +188,45 @@ int query_prepare(query* self)
 
 
 /** control flow **/
+/* Called when one part of a branch is complete: the statement (or
+ * block) of a WHILE, an IF, or an ELSE. Whatever comes next in the
+ * query vector is either the first statement of the ELSE, or the
+ * first statement beyond this branch.
+ */
+void _query_exit_branch_part(query* self)
+{
+	fqlhandle* fql = self->fqlref;
+	fqlbranch* branch = self->op;
+
+	if (!branch->expect_else) {
+		return;
+	}
+
+	branch->expect_else = false;
+	branch->else_idx = fql->query_vec->size;
+	branch->else_scope = new_(scope);
+	branch->else_scope->parent_scope = branch->scope->parent_scope;
+	fql->_scope = branch->else_scope;
+}
+
 void query_enter_block(query* self)
 {
-	self->fqlref->_scope->is_in_block = true;
+	/* a block that does not belong to any branch */
+	if (self == NULL) {
+		return;
+	}
+	++self->fqlref->_scope->block_depth;
 }
 
 void query_exit_block(query* self)
 {
-	self->fqlref->_scope->is_in_block = false;
+	if (self == NULL) {
+		return;
+	}
 
 	/* the current active query can be assumed to be the branch */
-	fqlbranch* branch = self->op;
-	branch->false_idx = self->fqlref->query_vec->size;
-
-	if (branch->expect_else) {
-		self->fqlref->branch_state = BRANCH_EXPECT_ELSE;
-	} else {
-		self->fqlref->branch_state = BRANCH_EXPECT_EXIT;
-		branch->false_idx = self->fqlref->query_vec->size;
+	if (--self->fqlref->_scope->block_depth == 0) {
+		_query_exit_branch_part(self);
 	}
 }
 
@@ -223,36 +243,57 @@ int query_enter_if(query* self,
 	return FQL_GOOD;
 }
 
-void query_exit_branch(query* self)
+/* Send each query in this range that would go to from_idx to to_idx. */
+void _redirect_queries(vec* queries, int begin, int end, int from_idx, int to_idx)
 {
-	fqlbranch* ifstmt = self->op;
-	self->fqlref->branch_state = BRANCH_EXPECT_EXPR;
-	//self->fqlref->_scope = self->fqlref->_scope->parent_scope;
-	self->fqlref->_scope = ifstmt->scope->parent_scope;
-	if (self->fqlref->_scope == self->fqlref->global_scope) {
-		self->fqlref->branch_state = BRANCH_NO_BRANCH;
+	int i = begin;
+	for (; i < end; ++i) {
+		query* it = *(query**)vec_at(queries, i);
+		int* idx = &it->next_idx;
+		switch (*(enum fql_operation*)it->op) {
+		case FQL_WHILE:
+		case FQL_IF:
+			idx = &((fqlbranch*)it->op)->false_idx;
+			break;
+		default:;
+		}
+		if (*idx == from_idx) {
+			*idx = to_idx;
+		}
 	}
+}
 
-	if (ifstmt->oper_type != FQL_IF) {
+void query_exit_branch(query* self)
+{
+	fqlhandle* fql = self->fqlref;
+	fqlbranch* branch = self->op;
+	int end_idx = fql->query_vec->size;
+
+	fql->_scope = branch->scope->parent_scope;
+
+	if (branch->oper_type == FQL_WHILE) {
+		/* anything that leaves the loop body repeats the loop */
+		branch->false_idx = end_idx;
+		_redirect_queries(fql->query_vec,
+		                  branch->true_idx,
+		                  end_idx,
+		                  end_idx,
+		                  self->idx);
 		return;
 	}
-	/* Now, we need to loop back through all queries
-	 * inside this if block. If they are if statements
-	 * and have the same parent_scope, then we can set
-	 * the next_idx of each last_true_block_query.
-	 * Above, we set fql->_scope to this ifbranch's
-	 * parent_scope. So we compare on that.
-	 */
-	query** it = vec_at(self->fqlref->query_vec, self->idx);
-	for (; it != vec_end(self->fqlref->query_vec); ++it) {
-		ifstmt = (*it)->op;
-		if (ifstmt->oper_type != FQL_IF
-		    || ifstmt->scope->parent_scope != self->fqlref->_scope) {
-			continue;
-		}
 
-		ifstmt->last_true_block_query->next_idx = self->fqlref->query_vec->size;
+	if (branch->else_scope == NULL) {
+		branch->false_idx = end_idx;
+		return;
 	}
+
+	/* anything that leaves the true block must skip the ELSE */
+	branch->false_idx = branch->else_idx;
+	_redirect_queries(fql->query_vec,
+	                  branch->true_idx,
+	                  branch->else_idx,
+	                  branch->else_idx,
+	                  end_idx);
 }
 
 int query_enter_set(query* self,
@@ -295,51 +336,12 @@ query* query_enter_query(fqlhandle* fql, unsigned start, unsigned end)
 
 int query_exit_query(query* self, query* prev_query)
 {
-	fqlhandle* fql = prev_query->fqlref;
-
-	/* If the previously active query was a branch operation */
-	enum fql_operation* prev_op = prev_query->op;
-	fqlbranch* prev_branch = NULL;
-
-	if (*prev_op == FQL_IF) {
-		prev_branch = prev_query->op;
-		prev_branch->last_true_block_query->next_idx = fql->query_vec->size;
-	}
-
-	if (*prev_op == FQL_WHILE) {
-		fqlbranch* prev_branch = prev_query->op;
-		prev_branch->last_true_block_query->next_idx = prev_query->idx;
-	}
-
-	/* If there is no parent query to return to */
-	if (self == NULL) {
-		fql->branch_state = BRANCH_NO_BRANCH;
-		return FQL_GOOD;
-	}
-
-	/* If you have reached this point, you have exited a query
-	 * that resided inside of a non-global scope.
+	/* If there is a parent query to return to, it is a branch and we
+	 * have exited a query that resided inside of it. Inside a block,
+	 * there may be more of them to come.
 	 */
-	fqlbranch* branch = self->op;
-
-	switch (fql->branch_state) {
-	case BRANCH_EXPECT_EXPR:
-		if (prev_branch == NULL || !prev_branch->is_elseif) {
-			branch->last_true_block_query = prev_query;
-		}
-		if (fql->_scope->is_in_block) {
-			return FQL_GOOD;
-		}
-		if (branch->expect_else) {
-			fql->branch_state = BRANCH_EXPECT_ELSE;
-		} else {
-			fql->branch_state = BRANCH_EXPECT_EXIT;
-			branch->false_idx = fql->query_vec->size;
-		}
-		break;
-	case BRANCH_EXPECT_ELSE:
-	case BRANCH_EXPECT_EXIT:
-	case BRANCH_NO_BRANCH:;
+	if (self != NULL && self->fqlref->_scope->block_depth == 0) {
+		_query_exit_branch_part(self);
 	}
 
 	return FQL_GOOD;
@@ -783,35 +785,6 @@ int query_init_op(query* self,
 		return FQL_FAIL;
 	}
 
-	/** Entering ELSE block **/
-	if (self->fqlref->branch_state == BRANCH_EXPECT_ELSE) {
-		/* Top of stack will be the active query. If this is an
-		 * else block, then the "next" query will be the parent
-		 * branch structure. We must set false_idx there.
-		 */
-		query* branch_query = query_stack->next->data;
-
-		/* May as well check it or this will be a bitch to fix */
-		fqlbranch* branch = branch_query->op;
-		assert(branch->oper_type == FQL_IF);
-
-		branch->false_idx = self->idx;
-		if (operation != FQL_IF) { /* if bare else */
-			branch->else_scope = new_(scope);
-			branch->else_scope->parent_scope = branch->scope->parent_scope;
-
-			self->fqlref->_scope = branch->else_scope;
-			return FQL_GOOD;
-		}
-
-		/* if we've made it this far, we have entered an "else if" */
-		self->fqlref->branch_state = BRANCH_EXPECT_EXPR;
-		query** elseifstmt = vec_back(self->fqlref->query_vec);
-		fqlbranch* elseif = (*elseifstmt)->op;
-		elseif->is_elseif = true;
-		//branch->last_true_block_query = *(elseifstmt - 1);
-	}
-
 	return FQL_GOOD;
 }
 
diff --git a/lib/scope.c b/lib/scope.c
index c75f6f3..06ef07d 100644
--- a/lib/scope.c
+++ b/lib/scope.c
@@ -7,7 +7,7 @@ scope* scope_construct(scope* self)
 {
 	*self = (scope) {
 	        .parent_scope = NULL,
-	        .is_in_block = false,
+	        .block_depth = 0,
 	};
 	hashmap_construct_(&self->variable_map, int, 16, HASHMAP_PROP_NOCASE);
 	return self;
@@ -21,6 +21,7 @@ void scope_destroy(scope* self)
 void scope_reset(scope* self)
 {
 	hashmap_clear(&self->variable_map);
+	self->block_depth = 0;
 }
 
 int scope_get_var_index(scope* self, const char* varname)
diff --git a/lib/scope.h b/lib/scope.h
index d4bdb73..9128cb2 100644
--- a/lib/scope.h
+++ b/lib/scope.h
@@ -7,7 +7,7 @@
 struct scope {
 	struct scope* parent_scope;
 	struct hashmap variable_map;
-	bool is_in_block;
+	unsigned block_depth;
 };
 typedef struct scope scope;
 
-- 
2.43.0


From 02c8b81032aff70a18288c7d75d80f75b569853e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 40/88] fix: a statement after UPDATE or DELETE in the same
 script read the old file

---
 lib/schema.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/lib/schema.c b/lib/schema.c
index d65dd62..e9e4b54 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -234,6 +234,20 @@ fuzzy_file_match_return:
 	return ret;
 }
 
+bool _modifies_files(struct fqlhandle* fql)
+{
+	query** it = vec_begin(fql->query_vec);
+	for (; it != vec_end(fql->query_vec); ++it) {
+		switch (*(enum fql_operation*)(*it)->op) {
+		case FQL_DELETE:
+		case FQL_UPDATE:
+			return true;
+		default:;
+		}
+	}
+	return false;
+}
+
 int _resolve_file(struct fqlhandle* fql, query* query, table* table)
 {
 	if (table->is_stdin) {
@@ -258,6 +272,13 @@ int _resolve_file(struct fqlhandle* fql, query* query, table* table)
 		return FQL_FAIL;
 	}
 
+	/* By the time we get to read this, another
+	 * statement may have replaced the file.
+	 */
+	if (_modifies_files(fql)) {
+		table->must_reopen = true;
+	}
+
 	schema** match = hashmap_get(fql->schema_map, absolute_path);
 	if (match == NULL) {
 		return FQL_GOOD;
-- 
2.43.0


From 84dd8bd7b047a675dcc0b7e9c7d6bdbda68c705a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 41/88] fix: COUNT of no rows came out blank instead of 0

---
 lib/expression.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/lib/expression.c b/lib/expression.c
index 4191950..8f2ba0c 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -282,6 +282,18 @@ int expression_type_check(expression* self, node* rg)
 	return FQL_GOOD;
 }
 
+/* When no record reaches the aggregate, there is still
+ * something to report: a count of 0.
+ */
+static bool _is_count_of_nothing(expression* src_expr, record* rec)
+{
+	if (rec != NULL || src_expr->expr != EXPR_AGGREGATE) {
+		return false;
+	}
+	aggregate* agg = src_expr->field.agg;
+	return agg->agg_type == AGG_COUNT || agg->agg_type == AGG_COUNT_BIG;
+}
+
 int expression_cast(expression* self, enum field_type new_type)
 {
 	if (self->field_type == new_type) {
@@ -411,6 +423,10 @@ int expression_get_int(long* ret, expression* self, node* rg)
 		} else {
 			rec = record_at(rg, self->subquery_src_idx);
 		}
+		if (_is_count_of_nothing(src_expr, rec)) {
+			*ret = 0;
+			return FQL_GOOD;
+		}
 		if (rec == NULL || rec->fields.size <= src_expr->index) {
 			string_clear(&self->buf);
 			*ret = 0;
@@ -484,6 +500,10 @@ int expression_get_float(double* ret, expression* self, node* rg)
 		} else {
 			rec = record_at(rg, self->subquery_src_idx);
 		}
+		if (_is_count_of_nothing(src_expr, rec)) {
+			*ret = 0;
+			return FQL_GOOD;
+		}
 		if (rec == NULL || rec->fields.size <= src_expr->index) {
 			string_clear(&self->buf);
 			*ret = 0;
@@ -551,6 +571,11 @@ int expression_get_stringview(stringview* ret, expression* self, node* rg)
 	case EXPR_AGGREGATE: {
 		expression* src_expr = self->data_source;
 		record* rec = record_at(rg, src_expr->src_idx);
+		if (_is_count_of_nothing(src_expr, rec)) {
+			ret->data = _null_agg_numeric;
+			ret->len = 1;
+			return FQL_GOOD;
+		}
 		if (rec == NULL) {
 			switch (src_expr->field_type) {
 			case FIELD_INT:
-- 
2.43.0


From 4a119b6ddce3bb1e90e00456e9914501a25f5dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:58 +0000
Subject: [PATCH 42/88] fix: IN (SELECT ...) kept old values, mixed up types
 and counted NULL

---
 lib/fqllogic.c  | 13 ++++++++++---
 lib/fqlselect.c | 28 ++++++++++++++++++----------
 lib/fqlselect.h |  2 +-
 lib/inlist.c    | 18 ++++++++++++++++++
 lib/logic.c     |  1 +
 lib/logic.h     |  2 ++
 6 files changed, 50 insertions(+), 14 deletions(-)

diff --git a/lib/fqllogic.c b/lib/fqllogic.c
index 6090b63..388b48c 100644
--- a/lib/fqllogic.c
+++ b/lib/fqllogic.c
@@ -184,7 +184,9 @@ int fql_logic_in_i(logic* self, node* rg)
 	expression** it = vec_begin(list_vec);
 	for (; it != vec_end(list_vec); ++it) {
 		long n1 = 0;
-		try_logic_deref_(expression_get_int(&n1, *it, rg));
+		if (try_(expression_get_int(&n1, *it, rg)) == FQL_NULL) {
+			continue;
+		}
 		if (n0 == n1) {
 			return true;
 		}
@@ -202,7 +204,9 @@ int fql_logic_in_f(logic* self, node* rg)
 	expression** it = vec_begin(list_vec);
 	for (; it != vec_end(list_vec); ++it) {
 		double n1 = 0;
-		try_logic_deref_(expression_get_float(&n1, *it, rg));
+		if (try_(expression_get_float(&n1, *it, rg)) == FQL_NULL) {
+			continue;
+		}
 		if (n1 == n0) {
 			return true;
 		}
@@ -220,7 +224,9 @@ int fql_logic_in_s(logic* self, node* rg)
 	expression** it = vec_begin(list_vec);
 	for (; it != vec_end(list_vec); ++it) {
 		stringview sv1;
-		try_logic_deref_(expression_get_stringview(&sv1, *it, rg));
+		if (try_(expression_get_stringview(&sv1, *it, rg)) == FQL_NULL) {
+			continue;
+		}
 		if (!stringview_compare_nocase_rtrim(&sv0, &sv1)) {
 			return true;
 		}
@@ -240,6 +246,7 @@ int fql_logic_subin_f(logic* self, node* rg)
 {
 	double n0 = 0;
 	try_logic_deref_(expression_get_float(&n0, self->expr[0], rg));
+	n0 += 0.0; /* -0 is equal to 0 */
 	return set_nhas(self->in_data->list_data, (char*)&n0, sizeof(n0));
 }
 
diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 47df1f5..491b8fd 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -250,8 +250,7 @@ int fqlselect_set_as_inlist(fqlselect* self, inlist* inlist)
 		fputs("Only one expression can be specified in subquery\n", stderr);
 		return FQL_FAIL;
 	}
-	inlist->list_data = new_(set, 16, HASHMAP_PROP_NOCASE | HASHMAP_PROP_RTRIM);
-	self->list_data = inlist->list_data;
+	self->in_data = inlist;
 	self->select__ = &_select_record_to_list;
 	return FQL_GOOD;
 }
@@ -313,6 +312,9 @@ int fqlselect_reset(fqlselect* self)
 	if (self->const_dest != NULL) {
 		self->const_dest->expr = EXPR_SUBQUERY;
 	}
+	if (self->in_data != NULL && self->in_data->list_data != NULL) {
+		set_clear(self->in_data->list_data);
+	}
 
 	if (self->union_selects != NULL) {
 		self->_union_node = self->union_selects;
@@ -502,28 +504,34 @@ int _select_record_order_api(fqlselect* self, node* rg)
 int _select_record_to_list(fqlselect* self, node* rg)
 {
 	++self->rownum;
-	set* list = self->list_data;
+	inlist* inlist = self->in_data;
+	set* list = inlist->list_data;
 
 	expression* expr =
 	        *(expression**)vec_begin(self->current_select->schema->expressions);
 
-	switch (expr->field_type) {
+	/* NULL does not equal anything */
+	switch (inlist->data_type) {
 	case FIELD_INT: {
 		long num = 0;
-		try_(expression_get_int(&num, expr, rg));
-		set_nadd(list, (char*)&num, sizeof(num));
+		if (try_(expression_get_int(&num, expr, rg)) != FQL_NULL) {
+			set_nadd(list, (char*)&num, sizeof(num));
+		}
 		return 1;
 	}
 	case FIELD_FLOAT: {
 		double num = 0;
-		try_(expression_get_float(&num, expr, rg));
-		set_nadd(list, (char*)&num, sizeof(num));
+		if (try_(expression_get_float(&num, expr, rg)) != FQL_NULL) {
+			num += 0.0; /* -0 is equal to 0 */
+			set_nadd(list, (char*)&num, sizeof(num));
+		}
 		return 1;
 	}
 	case FIELD_STRING: {
 		stringview sv;
-		try_(expression_get_stringview(&sv, expr, rg));
-		set_nadd(list, sv.data, sv.len);
+		if (try_(expression_get_stringview(&sv, expr, rg)) != FQL_NULL) {
+			set_nadd(list, sv.data, sv.len);
+		}
 		return 1;
 	}
 	default:
diff --git a/lib/fqlselect.h b/lib/fqlselect.h
index e810478..5e6e072 100644
--- a/lib/fqlselect.h
+++ b/lib/fqlselect.h
@@ -17,7 +17,7 @@ struct fqlselect {
 	struct vec* api;
 	struct schema* schema;
 	struct writer* writer;
-	set* list_data;
+	struct inlist* in_data;
 	struct expression* const_dest;
 	struct node* union_selects;
 	struct node* _union_node;
diff --git a/lib/inlist.c b/lib/inlist.c
index 57f3197..2022622 100644
--- a/lib/inlist.c
+++ b/lib/inlist.c
@@ -6,6 +6,7 @@
 inlist* inlist_construct(inlist* self)
 {
 	*self = (inlist) {
+	        .data_type = FIELD_UNDEFINED,
 	        .return_mode = MODE_UNDEFINED,
 	};
 	return self;
@@ -32,6 +33,23 @@ void inlist_add_expression(inlist* self, expression* expr)
 	vec_push_back(self->expressions, &expr);
 }
 
+/* The values of a subquery are stored as the type they will be
+ * compared as. Only text is compared without regard to case and
+ * trailing space.
+ */
+void inlist_set_type(inlist* self, enum field_type type)
+{
+	self->data_type = type;
+	if (self->subquery == NULL || self->list_data != NULL) {
+		return;
+	}
+	self->list_data = new_(set,
+	                       16,
+	                       (type == FIELD_STRING)
+	                               ? HASHMAP_PROP_NOCASE | HASHMAP_PROP_RTRIM
+	                               : 0);
+}
+
 enum field_type inlist_determine_type(inlist* self, expression* left_side)
 {
 	enum field_type type = left_side->field_type;
diff --git a/lib/logic.c b/lib/logic.c
index 10e873c..1726fbd 100644
--- a/lib/logic.c
+++ b/lib/logic.c
@@ -73,6 +73,7 @@ int logic_assign_process(logic* self, process* proc)
 {
 	if (self->in_data != NULL) {
 		self->data_type = inlist_determine_type(self->in_data, self->expr[0]);
+		inlist_set_type(self->in_data, self->data_type);
 	} else if (self->comp_type != COMP_NULL) {
 		self->data_type = field_determine_type(self->expr[0]->field_type,
 		                                       self->expr[1]->field_type);
diff --git a/lib/logic.h b/lib/logic.h
index e64da8d..47d7edc 100644
--- a/lib/logic.h
+++ b/lib/logic.h
@@ -58,6 +58,7 @@ struct inlist {
 	struct vec* expressions;
 	struct query* subquery;
 	set* list_data;
+	enum field_type data_type;
 	enum mode return_mode;
 };
 typedef struct inlist inlist;
@@ -65,6 +66,7 @@ typedef struct inlist inlist;
 struct inlist* inlist_construct(struct inlist*);
 void inlist_destroy(struct inlist*);
 void inlist_add_expression(struct inlist*, struct expression*);
+void inlist_set_type(struct inlist*, enum field_type);
 enum field_type inlist_determine_type(struct inlist*, struct expression*);
 void inlist_cat_description(struct inlist*, string* msg);
 
-- 
2.43.0


From 8fd01637530dcddcf219d19dd68caa6644c7648a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:52 +0000
Subject: [PATCH 43/88] fix: a join with a subquery on its right read old rows
 when run again

---
 lib/reader.h   |  1 +
 lib/subquery.c | 40 ++++++++++++++++++++++++++++++++++++++--
 lib/table.c    |  3 +++
 3 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/lib/reader.h b/lib/reader.h
index 3709584..bf54c51 100644
--- a/lib/reader.h
+++ b/lib/reader.h
@@ -68,6 +68,7 @@ int subquery_get_record_at(struct reader*, struct node*, size_t offset);
 int subquery_reset(struct reader*);
 int subquery_reset_from_join(struct reader*);
 int subquery_start_file_backed_input(struct reader*);
+int subquery_restart(struct reader*, struct query*);
 
 
 /** fixedread **/
diff --git a/lib/subquery.c b/lib/subquery.c
index 987cb43..e09bb61 100644
--- a/lib/subquery.c
+++ b/lib/subquery.c
@@ -148,12 +148,48 @@ int subquery_reset_from_join(reader* reader)
 	return FQL_GOOD;
 }
 
-int subquery_start_file_backed_input(reader* reader)
+void _subquery_backup_to_file(reader* reader)
 {
-	reader_start_file_backed_input(reader);
 	reader->subquery_writer = csv_writer_new();
 	csv_writer_set_delim(reader->subquery_writer, "|");
 	reader->reset__ = &subquery_reset_from_join;
 	csv_writer_set_file(reader->subquery_writer, reader->random_access_file);
+}
+
+int subquery_start_file_backed_input(reader* reader)
+{
+	try_(reader_start_file_backed_input(reader));
+	_subquery_backup_to_file(reader);
 	return FQL_GOOD;
 }
+
+/* The whole query is about to run again, so what
+ * was read the last time is of no use anymore.
+ */
+int subquery_restart(reader* reader, query* query)
+{
+	if (reader->random_access_filename == NULL) {
+		return reader->reset__(reader);
+	}
+
+	if (reader->get_record__ == &libcsv_get_record) {
+		reader->free__(reader->reader_data);
+		reader->reader_data = new_(subquery, query);
+		reader->free__ = &subquery_free;
+		reader->get_record__ = &subquery_get_record;
+		reader->get_record_at__ = &subquery_get_record_at;
+	} else {
+		csv_writer_free(reader->subquery_writer);
+	}
+
+	reader->eof = false;
+	reader->random_access_file =
+	        fopen(string_c_str(reader->random_access_filename), "w");
+	if (reader->random_access_file == NULL) {
+		perror(string_c_str(reader->random_access_filename));
+		return FQL_FAIL;
+	}
+	_subquery_backup_to_file(reader);
+
+	return query_preflight(query, true);
+}
diff --git a/lib/table.c b/lib/table.c
index 207901f..cfbb408 100644
--- a/lib/table.c
+++ b/lib/table.c
@@ -78,6 +78,9 @@ int table_reset(table* self, bool has_executed)
 		try_(reader_reopen(self->reader));
 		try_(self->reader->reset__(self->reader));
 		hashjoin_reset(self->join_data);
+	} else if (has_executed && self->subquery != NULL) {
+		try_(subquery_restart(self->reader, self->subquery));
+		hashjoin_reset(self->join_data);
 	} else if (has_executed) {
 		try_(self->reader->reset__(self->reader));
 		hashjoin_reset(self->join_data);
-- 
2.43.0


From 7af9692634934d99bd3ee1071675852afed645ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:50 +0000
Subject: [PATCH 44/88] fix: arithmetic in the condition of IF or WHILE failed

---
 lib/schema.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/schema.c b/lib/schema.c
index e9e4b54..3e71faa 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -15,6 +15,7 @@
 #include "function.h"
 #include "aggregate.h"
 #include "fqlselect.h"
+#include "fqlbranch.h"
 #include "operation.h"
 #include "switchcase.h"
 #include "expression.h"
@@ -1243,6 +1244,21 @@ int _resolve_query(struct fqlhandle* fql, query* aquery, enum io union_io)
 		try_(_assign_expressions(op_add_exprs, sources, fql->props.strictness));
 	}
 
+	/* Validate the condition of an IF or WHILE */
+	switch (*(enum fql_operation*)aquery->op) {
+	case FQL_WHILE:
+	case FQL_IF: {
+		fqlbranch* branch = aquery->op;
+		if (branch->condition != NULL) {
+			try_(_assign_expressions(branch->condition->expressions,
+			                         sources,
+			                         fql->props.strictness));
+		}
+		break;
+	}
+	default:;
+	}
+
 	/* Validate HAVING expressions */
 	vec* having_exprs = NULL;
 	if (aquery->having != NULL) {
-- 
2.43.0


From c557c20eff0cf32ae9531317310341b709866111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:53 +0000
Subject: [PATCH 45/88] fix: DECLARE of an imported variable changed the type
 of another one

---
 lib/fqlhandle.h |  1 +
 lib/libfql.c    | 19 +++++++++++++-----
 lib/variable.c  | 53 +++++++++++++++++++++++++++++++------------------
 lib/variable.h  |  1 +
 4 files changed, 50 insertions(+), 24 deletions(-)

diff --git a/lib/fqlhandle.h b/lib/fqlhandle.h
index 23ce477..d98e032 100644
--- a/lib/fqlhandle.h
+++ b/lib/fqlhandle.h
@@ -24,6 +24,7 @@ struct fqlhandle {
 	struct vec* schema_paths;
 	char* query_str;
 	unsigned query_idx;
+	int _declared_idx;
 	bool _out_delim_set;
 	struct {
 		struct vec* schema_path; /* actually string but extern "C" so.. */
diff --git a/lib/libfql.c b/lib/libfql.c
index 49d0d9b..c7a75b9 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -108,7 +108,7 @@ int libfql_get_sql_type(const char* type_str)
 
 int libfql_set_variable_type(fqlhandle* fql, const char* type_str)
 {
-	variable* var = vec_back(fql->variables);
+	variable* var = vec_at(fql->variables, fql->_declared_idx);
 
 	try_(variable_set_type(var, libfql_get_sql_type(type_str)));
 
@@ -125,6 +125,7 @@ int libfql_declare_variable(fqlhandle* fql, const char* varname)
 		variable* var = vec_at(fql->variables, *var_idx);
 		if (var->can_be_redeclared) {
 			var->can_be_redeclared = false;
+			fql->_declared_idx = *var_idx;
 			return *var_idx;
 		}
 		fprintf(stderr, "variable `%s' already declared\n", varname);
@@ -132,6 +133,7 @@ int libfql_declare_variable(fqlhandle* fql, const char* varname)
 	}
 
 	int new_var_idx = fql->variables->size;
+	fql->_declared_idx = new_var_idx;
 	hashmap_set(&fql->_scope->variable_map, varname, &new_var_idx);
 
 	variable* var = vec_add_one(fql->variables);
@@ -150,8 +152,8 @@ int libfql_set_variable_limit(fqlhandle* fql, const char* limit_str)
 		fprintf(stderr, "invalid size argument(%ld)\n", limit);
 		return FQL_FAIL;
 	}
-	variable* var = vec_back(fql->variables);
-	var->limit = limit;
+	variable* var = vec_at(fql->variables, fql->_declared_idx);
+	variable_set_limit(var, limit);
 	return FQL_GOOD;
 }
 
@@ -459,17 +461,24 @@ int fql_import_variable(fqlhandle* fql, const char* assign_expression)
 		*iter = '\0';
 	}
 
-	int idx = try_(libfql_declare_variable(fql, varname));
+	int idx = libfql_declare_variable(fql, varname);
+	if (idx == FQL_FAIL) {
+		free_(expr_cpy);
+		return FQL_FAIL;
+	}
 
 	variable* var = vec_at(fql->variables, idx);
 	var->can_be_redeclared = true;
 
+	int ret = FQL_GOOD;
 	if (*value) {
 		variable_set_import_value(var, value);
+	} else {
+		ret = variable_set_type(var, SQL_VARCHAR);
 	}
 
 	free_(expr_cpy);
-	return FQL_GOOD;
+	return ret;
 }
 
 /**
diff --git a/lib/variable.c b/lib/variable.c
index ffd3bd6..ac80d27 100644
--- a/lib/variable.c
+++ b/lib/variable.c
@@ -3,6 +3,8 @@
 #include "util/util.h"
 #include <string.h>
 
+enum field_type variable_get_field_type(enum sql_type sqltype);
+
 variable* variable_construct(variable* self)
 {
 	*self = (variable) {
@@ -29,6 +31,30 @@ void _append_space(variable* self)
 	}
 }
 
+bool _is_text(variable* self)
+{
+	return variable_get_field_type(self->type) == FIELD_STRING;
+}
+
+void _apply_limit(variable* self)
+{
+	if (self->is_null || !_is_text(self)) {
+		return;
+	}
+	if (self->_data->size > self->limit) {
+		string_resize(self->_data, self->limit);
+	}
+	if (self->type == SQL_CHAR) {
+		_append_space(self);
+	}
+}
+
+void variable_set_limit(variable* self, unsigned limit)
+{
+	self->limit = limit;
+	_apply_limit(self);
+}
+
 void variable_clear(variable* self)
 {
 	self->is_null = true;
@@ -63,9 +89,12 @@ void variable_reset(variable* self)
 	string_copy(self->_data, self->_import_value);
 	self->value.s = self->_data;
 
+	self->is_null = false;
+
 	enum sql_type correct_type = self->type;
 	self->type = SQL_VARCHAR;
 	variable_set_type(self, correct_type);
+	_apply_limit(self);
 }
 
 enum field_type variable_get_field_type(enum sql_type sqltype)
@@ -125,6 +154,7 @@ int variable_set_type(variable* self, enum sql_type new_type)
 	case SQL_BIT: {
 		long n = 0;
 		try_(field_to_int(&n, &self->value, &fieldtype));
+		self->value.i = (n != 0);
 		break;
 	}
 	case SQL_INT: {
@@ -144,18 +174,7 @@ int variable_set_type(variable* self, enum sql_type new_type)
 			self->_data = new_(string);
 		}
 		stringview sv;
-		if (self->limit != INT_MAX) {
-			try_(field_to_stringview(&sv,
-			                         self->_data,
-			                         &self->value,
-			                         &fieldtype));
-		} else {
-			try_(field_to_stringview_limited(&sv,
-			                                 self->_data,
-			                                 &self->value,
-			                                 &fieldtype,
-			                                 self->limit));
-		}
+		try_(field_to_stringview(&sv, self->_data, &self->value, &fieldtype));
 		break;
 	}
 	case SQL_UNDEFINED:
@@ -164,9 +183,7 @@ int variable_set_type(variable* self, enum sql_type new_type)
 	}
 
 	self->type = new_type;
-	if (self->type == SQL_CHAR) {
-		_append_space(self);
-	}
+	_apply_limit(self);
 
 	return FQL_GOOD;
 }
@@ -186,11 +203,9 @@ void variable_set_stringview(variable* self, stringview* sv)
 
 	if (self->_data == NULL) {
 		self->_data = string_from_stringview(sv);
-		self->value.s = self->_data;
-		return;
+	} else {
+		string_copy_from_stringview(self->_data, sv);
 	}
-
-	string_copy_from_stringview(self->_data, sv);
 	self->value.s = self->_data;
 	if (self->type == SQL_CHAR) {
 		_append_space(self);
diff --git a/lib/variable.h b/lib/variable.h
index c8f91be..2ab3be4 100644
--- a/lib/variable.h
+++ b/lib/variable.h
@@ -21,6 +21,7 @@ void variable_destroy(struct variable*);
 void variable_clear(struct variable*);
 void variable_reset(struct variable*);
 int variable_set_type(struct variable*, enum sql_type);
+void variable_set_limit(struct variable*, unsigned limit);
 void variable_set_string(struct variable*, const string*);
 void variable_set_stringview(struct variable*, stringview*);
 void variable_set_import_value(struct variable*, const char* val);
-- 
2.43.0


From c5ddb14cb6858423cc613b61028746465dc4c4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:14 +0000
Subject: [PATCH 46/88] fix: a subquery inside an IN list was not waited for

---
 lib/fqlplan.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index fc37612..8ee0563 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -227,6 +227,11 @@ int plan_logic_to_process(plan* self, process* logic_proc, logicgroup* lg)
 		if (lg->condition != NULL) {
 			if (lg->condition->in_data && lg->condition->in_data->subquery) {
 				try_(_subquery_inlist(self, logic_proc, lg));
+			} else if (lg->condition->in_data) {
+				_check_all_for_special_expression(
+				        self,
+				        logic_proc,
+				        lg->condition->in_data->expressions);
 			}
 			_check_for_special_expression(self,
 			                              logic_proc,
-- 
2.43.0


From 854e142b58633024ebe1d3cc2b2f38b44ab8078e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:14 +0000
Subject: [PATCH 47/88] fix: IN (SELECT TOP ... ORDER BY) ignored the TOP

---
 lib/fqlselect.c |  9 +++++++-
 lib/inlist.c    | 30 +++++++++++++++++++++++++
 lib/logic.h     |  1 +
 lib/order.c     | 58 +++++++++++++++++++++++++++++++++++++++++++++++++
 lib/order.h     |  3 +++
 5 files changed, 100 insertions(+), 1 deletion(-)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 491b8fd..f10dac5 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -251,7 +251,14 @@ int fqlselect_set_as_inlist(fqlselect* self, inlist* inlist)
 		return FQL_FAIL;
 	}
 	self->in_data = inlist;
-	self->select__ = &_select_record_to_list;
+	order* orderby = inlist->subquery->orderby;
+	if (orderby == NULL) {
+		self->select__ = &_select_record_to_list;
+	} else {
+		/* TOP takes the first values of the sorted rows */
+		self->select__ = &_select_record_order_api;
+		order_set_list_dest(orderby, inlist);
+	}
 	return FQL_GOOD;
 }
 
diff --git a/lib/inlist.c b/lib/inlist.c
index 2022622..b8059c0 100644
--- a/lib/inlist.c
+++ b/lib/inlist.c
@@ -1,6 +1,8 @@
 #include "logic.h"
 #include "expression.h"
 #include "fqlselect.h"
+#include "field.h"
+#include "misc.h"
 #include "util/util.h"
 
 inlist* inlist_construct(inlist* self)
@@ -50,6 +52,34 @@ void inlist_set_type(inlist* self, enum field_type type)
 	                               : 0);
 }
 
+int inlist_add_value(inlist* self, string* buf, union field* field, enum field_type type)
+{
+	switch (self->data_type) {
+	case FIELD_INT: {
+		long num = 0;
+		try_(field_to_int(&num, field, &type));
+		set_nadd(self->list_data, (char*)&num, sizeof(num));
+		return FQL_GOOD;
+	}
+	case FIELD_FLOAT: {
+		double num = 0;
+		try_(field_to_float(&num, field, &type));
+		num += 0.0; /* -0 is equal to 0 */
+		set_nadd(self->list_data, (char*)&num, sizeof(num));
+		return FQL_GOOD;
+	}
+	case FIELD_STRING: {
+		stringview sv;
+		try_(field_to_stringview(&sv, buf, field, &type));
+		set_nadd(self->list_data, sv.data, sv.len);
+		return FQL_GOOD;
+	}
+	default:
+		fputs("Unexpected type in select list\n", stderr);
+		return FQL_FAIL;
+	}
+}
+
 enum field_type inlist_determine_type(inlist* self, expression* left_side)
 {
 	enum field_type type = left_side->field_type;
diff --git a/lib/logic.h b/lib/logic.h
index 47d7edc..28dd7d4 100644
--- a/lib/logic.h
+++ b/lib/logic.h
@@ -67,6 +67,7 @@ struct inlist* inlist_construct(struct inlist*);
 void inlist_destroy(struct inlist*);
 void inlist_add_expression(struct inlist*, struct expression*);
 void inlist_set_type(struct inlist*, enum field_type);
+int inlist_add_value(struct inlist*, string* buf, union field*, enum field_type);
 enum field_type inlist_determine_type(struct inlist*, struct expression*);
 void inlist_cat_description(struct inlist*, string* msg);
 
diff --git a/lib/order.c b/lib/order.c
index b038208..61d0f91 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -8,6 +8,7 @@
 
 #include "misc.h"
 #include "field.h"
+#include "logic.h"
 #include "record.h"
 #include "fqlsig.h"
 #include "expression.h"
@@ -24,6 +25,7 @@ struct _entry {
 int _order_select(order* self, process*);
 int _order_select_api(order* self, process*);
 int _order_select_to_const(order* self, process*);
+int _order_select_to_list(order* self, process*);
 
 void _order_unmap(order* self);
 void _order_reset_output(order* self);
@@ -107,6 +109,12 @@ void order_set_const_dest(order* self, expression* const_dest)
 	self->select__ = &_order_select_to_const;
 }
 
+void order_set_list_dest(order* self, inlist* list_dest)
+{
+	self->list_dest = list_dest;
+	self->select__ = &_order_select_to_list;
+}
+
 int order_preresolve_expressions(order* self, fqlselect* select, const vec* sources)
 {
 	/* First, we want to try and resolve by ordinal:
@@ -408,6 +416,56 @@ int _order_select_to_const(order* self, process* proc)
 	return FQL_GOOD;
 }
 
+int _order_select_to_list(order* self, process* proc)
+{
+	expression* first_expr =
+	        *(expression**)vec_begin(self->select->schema->expressions);
+	string buf;
+	string_construct(&buf);
+
+	int ret = 0;
+	struct _entry* it = vec_begin(&self->entries);
+	for (; it != vec_end(&self->entries) && proc->rows_affected < self->top_count;
+	     ++it) {
+		++proc->rows_affected;
+		size_t offset = it->offset;
+		if (self->mmap[offset++]) {
+			continue;
+		}
+		union field field;
+		enum field_type type = first_expr->field_type;
+		switch (type) {
+		case FIELD_INT:
+			memcpy(&field.i, &self->mmap[offset], sizeof(field.i));
+			break;
+		case FIELD_FLOAT:
+			memcpy(&field.f, &self->mmap[offset], sizeof(field.f));
+			break;
+		case FIELD_STRING: {
+			unsigned len = 0;
+			memcpy(&len, &self->mmap[offset], sizeof(len));
+			stringview sv = {&self->mmap[offset + sizeof(len)], len};
+			string_copy_from_stringview(&buf, &sv);
+			field.s = &buf;
+			break;
+		}
+		default:
+			fputs("Unexpected type in order_select_to_list\n", stderr);
+			ret = FQL_FAIL;
+			break;
+		}
+		if (ret == FQL_FAIL
+		    || inlist_add_value(self->list_dest, &buf, &field, type)
+		               == FQL_FAIL) {
+			ret = FQL_FAIL;
+			break;
+		}
+	}
+
+	string_destroy(&buf);
+	return ret;
+}
+
 int order_sort(order* self)
 {
 	vec_sort_r(&self->entries, &_compare, self);
diff --git a/lib/order.h b/lib/order.h
index 57505bb..e70c44d 100644
--- a/lib/order.h
+++ b/lib/order.h
@@ -11,6 +11,7 @@ struct expression;
 struct process;
 struct fqlselect;
 struct order;
+struct inlist;
 struct _entry;
 
 typedef int (*order_select_fn)(struct order*, struct process*);
@@ -23,6 +24,7 @@ struct order {
 	order_select_fn select__;
 	struct vec* api;
 	struct expression* const_dest;
+	struct inlist* list_dest;
 	struct fqlselect* select;
 	FILE* out_file;
 	struct _entry* entry_iter;
@@ -39,6 +41,7 @@ struct order* order_construct(struct order*);
 void order_destroy(struct order*);
 
 void order_set_const_dest(struct order*, struct expression*);
+void order_set_list_dest(struct order*, struct inlist*);
 int order_add_expression(struct order*, struct expression*);
 int order_init_io(struct order*, const char* in, const char* out);
 void order_cat_description(struct order*, struct process*);
-- 
2.43.0


From 8c8aefc2b39529f0f4f363741b2536146af3d4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 48/88] fix: GROUP BY took different constants, casts and CASEs
 for the same key

---
 lib/schema.c | 92 +++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 87 insertions(+), 5 deletions(-)

diff --git a/lib/schema.c b/lib/schema.c
index 3e71faa..dc98000 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -859,10 +859,61 @@ enum _expr_type {
 	MAP_FUNCTION_END,
 	MAP_SWITCHCASE,
 	MAP_SWITCHCASE_END,
+	MAP_SWITCHCASE_VALUES,
+	MAP_NULL,
+	MAP_VARIABLE,
 };
 
+int _map_expression(vec* key, expression* expr);
+
+void _map_bytes(vec* key, const void* data, size_t size)
+{
+	stringview sv;
+	stringview_nset(&sv, data, size);
+	vec_push_back(key, &sv);
+}
+
+int _map_logicgroup(vec* key, logicgroup* lg)
+{
+	_map_bytes(key, &lg->type, sizeof(lg->type));
+	_map_bytes(key, &lg->negation, sizeof(lg->negation));
+	if (lg->condition != NULL) {
+		logic* condition = lg->condition;
+		_map_bytes(key, &condition->comp_type, sizeof(condition->comp_type));
+		unsigned i = 0;
+		for (; i < 2; ++i) {
+			if (condition->expr[i] != NULL) {
+				try_(_map_expression(key, condition->expr[i]));
+			}
+		}
+		inlist* list = condition->in_data;
+		if (list != NULL) {
+			_map_bytes(key, &list->subquery, sizeof(list->subquery));
+		}
+		if (list != NULL && list->expressions != NULL) {
+			_map_bytes(key,
+			           &list->expressions->size,
+			           sizeof(list->expressions->size));
+			expression** it = vec_begin(list->expressions);
+			for (; it != vec_end(list->expressions); ++it) {
+				try_(_map_expression(key, *it));
+			}
+		}
+	}
+	unsigned i = 0;
+	for (; i < 2; ++i) {
+		if (lg->items[i] != NULL) {
+			try_(_map_logicgroup(key, lg->items[i]));
+		}
+	}
+	return FQL_GOOD;
+}
+
 int _map_expression(vec* key, expression* expr)
 {
+	static const enum _expr_type _null = MAP_NULL;
+	static const enum _expr_type _var = MAP_VARIABLE;
+	static const enum _expr_type _switchcase_values = MAP_SWITCHCASE_VALUES;
 	static const enum _expr_type _c_int = MAP_CONST_INT;
 	static const enum _expr_type _c_float = MAP_CONST_FLOAT;
 	static const enum _expr_type _c_string = MAP_CONST_STRING;
@@ -916,6 +967,10 @@ int _map_expression(vec* key, expression* expr)
 		                &expr->field.fn->type,
 		                sizeof(enum scalar_function));
 		vec_push_back(key, &val_sv);
+		/* the type a CAST gives */
+		_map_bytes(key,
+		           &expr->field.fn->call__,
+		           sizeof(expr->field.fn->call__));
 
 		expression** it = vec_begin(expr->field.fn->args);
 		for (; it != vec_end(expr->field.fn->args); ++it) {
@@ -938,6 +993,13 @@ int _map_expression(vec* key, expression* expr)
 		type_sv.data = (void*)&_switchcase;
 		vec_push_back(key, &type_sv);
 
+		logicgroup** lg_iter = vec_begin(&expr->field.sc->tests);
+		for (; lg_iter != vec_end(&expr->field.sc->tests); ++lg_iter) {
+			try_(_map_logicgroup(key, *lg_iter));
+		}
+
+		type_sv.data = (void*)&_switchcase_values;
+		vec_push_back(key, &type_sv);
 		expression** it = vec_begin(&expr->field.sc->values);
 		for (; it != vec_end(&expr->field.sc->values); ++it) {
 			try_(_map_expression(key, *it));
@@ -960,6 +1022,17 @@ int _map_expression(vec* key, expression* expr)
 		stringview_nset(&val_sv, &expr->src_idx, sizeof(expr->src_idx));
 		vec_push_back(key, &val_sv);
 		break;
+	case EXPR_REFERENCE:
+		return _map_expression(key, expr->data_source);
+	case EXPR_NULL:
+		type_sv.data = (void*)&_null;
+		vec_push_back(key, &type_sv);
+		break;
+	case EXPR_VARIABLE:
+		type_sv.data = (void*)&_var;
+		vec_push_back(key, &type_sv);
+		_map_bytes(key, &expr->buf.data, sizeof(expr->buf.data));
+		break;
 	default:
 		fputs("unexpected expression mapping\n", stderr);
 		return FQL_FAIL;
@@ -970,8 +1043,16 @@ int _map_expression(vec* key, expression* expr)
 
 int _op_find_group(compositemap* expr_map, expression* expr, vec* key, bool loose_groups)
 {
-	if (expr->expr == EXPR_CONST || expr->expr == EXPR_SUBQUERY) {
+	switch (expr->expr) {
+	case EXPR_CONST:
+	case EXPR_NULL:
+	case EXPR_VARIABLE:
+	case EXPR_SUBQUERY:
+		return FQL_GOOD;
+	case EXPR_REFERENCE:
+		expr->field_type = expr->data_source->field_type;
 		return FQL_GOOD;
+	default:;
 	}
 
 	if (expr->expr == EXPR_AGGREGATE) {
@@ -990,6 +1071,8 @@ int _op_find_group(compositemap* expr_map, expression* expr, vec* key, bool loos
 		}
 		if (expr->expr == EXPR_FUNCTION) {
 			delete_(function, expr->field.fn);
+		} else if (expr->expr == EXPR_SWITCH_CASE) {
+			delete_(switchcase, expr->field.sc);
 		}
 		expr->src_idx = 0;
 		expr->data_source = *result;
@@ -1043,10 +1126,9 @@ int _map_groups(struct fqlhandle* fql, query* query)
 	vec* group_exprs = &query->groupby->expressions;
 	try_(_assign_expressions(group_exprs, query->sources, fql->props.strictness));
 
-	compositemap* expr_map = new_t_(compositemap,
-	                                expression*,
-	                                group_exprs->size * 2,
-	                                HASHMAP_PROP_NOCASE | HASHMAP_PROP_RTRIM);
+	/* the keys are pointers and numbers as much as text */
+	compositemap* expr_map =
+	        new_t_(compositemap, expression*, group_exprs->size * 2, 0);
 	query->groupby->expr_map = expr_map;
 	vec key;
 	vec_construct_(&key, stringview);
-- 
2.43.0


From 212c4b356240c70a51b140fc53c349a45aa7e6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 49/88] fix: a join hashed by an expression over both sides or
 not yet computed

---
 lib/fqlplan.c |  7 +++++++
 lib/schema.c  | 51 ++++++++++++++++++++++++++++++++++++---------------
 2 files changed, 43 insertions(+), 15 deletions(-)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 8ee0563..93ba764 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -452,6 +452,13 @@ int _from(plan* self, query* query, fqlhandle* fql)
 			                                table_iter->condition,
 			                                &join_logic_proc,
 			                                is_hash_join));
+			/* a hash join already evaluates part of the condition */
+			if (is_hash_join && join_logic_proc->wait_list != NULL) {
+				process** it = vec_begin(join_logic_proc->wait_list);
+				for (; it != vec_end(join_logic_proc->wait_list); ++it) {
+					process_add_to_wait_list(join_proc, *it);
+				}
+			}
 			if (table_iter->join_type == JOIN_LEFT) {
 				join_logic_proc->action__ = &fql_left_join_logic;
 			}
diff --git a/lib/schema.c b/lib/schema.c
index dc98000..d218885 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -777,6 +777,22 @@ int _resolve_asterisk(vec* expressions, vec* sources)
 	return FQL_GOOD;
 }
 
+enum join_side _get_join_side(expression* expr, int right_idx);
+
+enum join_side _get_list_join_side(vec* exprs, enum join_side side0, int right_idx)
+{
+	expression** it = vec_begin(exprs);
+	for (; it != vec_end(exprs); ++it) {
+		enum join_side side1 = _get_join_side(*it, right_idx);
+		if (side0 == SIDE_UNDEF) {
+			side0 = side1;
+		} else if (side1 != SIDE_UNDEF && side0 != side1) {
+			return SIDE_MIXED;
+		}
+	}
+	return side0;
+}
+
 enum join_side _get_join_side(expression* expr, int right_idx)
 {
 	switch (expr->expr) {
@@ -790,21 +806,23 @@ enum join_side _get_join_side(expression* expr, int right_idx)
 			return (expr->subquery_src_idx < right_idx) ? SIDE_LEFT
 			                                            : SIDE_RIGHT;
 		}
-	case EXPR_FUNCTION: {
-		function* func = expr->field.fn;
-		expression** it = vec_begin(func->args);
-		enum join_side side0 = SIDE_UNDEF;
-		for (; it != vec_end(func->args); ++it) {
-			enum join_side side1 = _get_join_side(*it, right_idx);
-			if (side0 == SIDE_UNDEF) {
-				side0 = side1;
-			} else if (side1 == SIDE_UNDEF) {
-				continue;
-			} else if (side0 != side1) {
-				return SIDE_MIXED;
-			}
+	case EXPR_REFERENCE:
+		return _get_join_side(expr->data_source, right_idx);
+	case EXPR_FUNCTION:
+		return _get_list_join_side(expr->field.fn->args,
+		                           SIDE_UNDEF,
+		                           right_idx);
+	case EXPR_SWITCH_CASE: {
+		switchcase* sc = expr->field.sc;
+		enum join_side side =
+		        _get_list_join_side(&sc->values, SIDE_UNDEF, right_idx);
+		logicgroup** it = vec_begin(&sc->tests);
+		for (; it != vec_end(&sc->tests); ++it) {
+			side = _get_list_join_side((*it)->expressions,
+			                           side,
+			                           right_idx);
 		}
-		return side0;
+		return side;
 	}
 	default:
 		return SIDE_UNDEF;
@@ -826,11 +844,14 @@ void _resolve_join_conditions(table* right_table, int right_idx)
 			continue;
 		}
 		enum join_side side1 = _get_join_side((*it)->expr[1], right_idx);
+		if (side1 == SIDE_MIXED) {
+			continue;
+		}
 		if (side0 != side1) {
 			if (!logic_can_be_false(right_table->condition, *it)) {
 				right_table->condition->join_logic = *it;
 				hashjoin* hj = new_(hashjoin);
-				if (side0 == SIDE_RIGHT) {
+				if (side0 == SIDE_RIGHT || side1 == SIDE_LEFT) {
 					hj->right_expr = (*it)->expr[0];
 					hj->left_expr = (*it)->expr[1];
 				} else {
-- 
2.43.0


From 99e00c57c19043dc5cdbc2f2a628604eb1577778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 50/88] fix: conditions in a CASE of a UNION member were never
 prepared

---
 lib/fqlplan.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 93ba764..37be2af 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -586,6 +586,12 @@ int _union(plan* self, query* aquery, fqlhandle* fql)
 	for (; it != vec_end(aquery->unions); ++it) {
 		try_(_build(*it, fql, NULL, true));
 		plan* union_plan = (*it)->plan;
+		if (union_plan->current != union_plan->op_true) {
+			/* its rows are selected by our process */
+			_check_all_for_special_expression(self,
+			                                  select_proc,
+			                                  op_get_expressions((*it)->op));
+		}
 		vec_push_back(select_proc->union_end_nodes, &union_plan->current);
 		if (!union_plan->is_const && union_plan->current != union_plan->op_true) {
 			process* union_true = union_plan->op_true->data;
-- 
2.43.0


From f78ee0ac82d3109c01b2ff69e8c8b69e79e7a9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 51/88] fix: a condition over a function without a type read
 outside a table

---
 lib/logic.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/logic.c b/lib/logic.c
index 1726fbd..5bf4706 100644
--- a/lib/logic.c
+++ b/lib/logic.c
@@ -80,6 +80,10 @@ int logic_assign_process(logic* self, process* proc)
 	} else {
 		self->data_type = FIELD_STRING;
 	}
+	if (self->data_type == FIELD_UNDEFINED) {
+		fputs("cannot compare expressions of undefined type\n", stderr);
+		return FQL_FAIL;
+	}
 	self->logic__ = _logic_matrix[self->comp_type][self->data_type];
 	if (self->logic__ == NULL) {
 		fprintf(stderr,
-- 
2.43.0


From 507e69de0e6860d8931a703b954bdf7e6b899183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 52/88] fix: expressions inside an aggregate went to the
 function around it

---
 lib/aggregate.h |  1 +
 lib/query.c     |  4 ++++
 lib/schema.c    | 12 ++++++++++++
 3 files changed, 17 insertions(+)

diff --git a/lib/aggregate.h b/lib/aggregate.h
index 1807d5b..de709f9 100644
--- a/lib/aggregate.h
+++ b/lib/aggregate.h
@@ -31,6 +31,7 @@ struct aggregate {
 	struct vec* args;
 	struct vec results;
 	struct expression* linked_expression;
+	struct node* return_function_stack;
 	enum aggregate_function agg_type;
 	enum field_type data_type;
 	enum mode return_mode;
diff --git a/lib/query.c b/lib/query.c
index 7b16090..b8cde03 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -702,8 +702,11 @@ int query_enter_aggregate(query* self, enum aggregate_function agg_type)
 	agg->linked_expression = linked_expr;
 	try_(_distribute_expression(self, linked_expr));
 
+	/* expressions belong to the aggregate, even inside a function */
 	agg->return_mode = self->mode;
+	agg->return_function_stack = self->function_stack;
 	self->mode = MODE_AGGREGATE;
+	self->function_stack = NULL;
 
 	return FQL_GOOD;
 }
@@ -712,6 +715,7 @@ int query_exit_aggregate(query* self)
 {
 	aggregate** agg = vec_back(&self->groupby->aggregates);
 	self->mode = (*agg)->return_mode;
+	self->function_stack = (*agg)->return_function_stack;
 	return FQL_GOOD;
 }
 
diff --git a/lib/schema.c b/lib/schema.c
index d218885..782d203 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -674,6 +674,18 @@ int _assign_expression_limited(expression* expr, vec* sources, int limit, int st
 	case EXPR_SUBQUERY:
 		try_(fqlselect_resolve_type_from_subquery(expr));
 		break;
+	case EXPR_AGGREGATE: {
+		aggregate* agg = expr->field.agg;
+		try_(_assign_expressions_limited(agg->args, sources, limit, strictness));
+		try_(aggregate_resolve(agg, expr));
+		expr->field_type = agg->data_type;
+		break;
+	}
+	case EXPR_REFERENCE:
+		if (expr->data_source != NULL) {
+			expr->field_type = expr->data_source->field_type;
+		}
+		break;
 	case EXPR_FULL_RECORD:
 	case EXPR_COLUMN_NAME: {
 		if (expr->data_source != NULL) {
-- 
2.43.0


From 29eedb1c01b57f997abb1b6c243222ece622e45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:07 +0000
Subject: [PATCH 53/88] fix: CASE x WHEN freed or misread its operand

---
 lib/expression.c |  6 +++++-
 lib/fqlplan.c    |  1 +
 lib/query.c      | 12 ++++++++++--
 lib/schema.c     | 10 ++++++++++
 4 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index 8f2ba0c..5738122 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -90,7 +90,7 @@ void expression_destroy(void* generic_expr)
 	string_destroy(&self->buf);
 }
 
-/* This is used for static case expressions */
+/* This is used for the column of an assignment operator */
 expression* expression_copy(const struct expression* src)
 {
 	expression* dest = malloc_(sizeof(*dest));
@@ -104,6 +104,7 @@ expression* expression_copy(const struct expression* src)
 	dest->expr = src->expr;
 	dest->field = src->field;
 	dest->field_type = src->field_type;
+	dest->subquery_src_idx = src->subquery_src_idx;
 
 	return dest;
 }
@@ -247,6 +248,9 @@ bool expression_is_const(expression* self)
 	case EXPR_NULL:
 		return true;
 	//case EXPR_ASTERISK:  /* Technically this can be const... */
+	case EXPR_REFERENCE:
+		return self->data_source != NULL
+		       && expression_is_const(self->data_source);
 	case EXPR_SWITCH_CASE: {
 		switchcase* sc = self->field.sc;
 		return (_list_is_const(&sc->values) && _tests_are_const(&sc->tests));
diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 37be2af..e55b979 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -148,6 +148,7 @@ void _check_for_special_expression(plan* self, process* proc, expression* expr)
 		process_add_to_wait_list(proc, expr->subquery->plan->op_true->data);
 		break;
 	case EXPR_SWITCH_CASE: {
+		_check_for_special_expression(self, proc, expr->field.sc->static_expr);
 		logicgroup** it = vec_begin(&expr->field.sc->tests);
 		for (; it != vec_end(&expr->field.sc->tests); ++it) {
 			plan_logic_to_process(self, proc, *it);
diff --git a/lib/query.c b/lib/query.c
index b8cde03..e726b66 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -933,11 +933,19 @@ int query_enter_switch_section(query* self)
 		return FQL_FAIL;
 	}
 
-	expression* static_expr_copy = expression_copy(sc->static_expr);
+	if (sc->static_expr->expr == EXPR_AGGREGATE) {
+		fputs("Cannot have aggregate logic outside of HAVING\n", stderr);
+		return FQL_FAIL;
+	}
+
+	/* Every WHEN compares with the same expression */
+	expression* static_ref = new_(expression, EXPR_REFERENCE, NULL, "");
+	static_ref->data_source = sc->static_expr;
+	static_ref->field_type = sc->static_expr->field_type;
 	//query_enter_search(self);
 	//query_enter_search_and(self);
 	query_enter_predicate(self, 0, false);
-	_add_logic_expression(self, static_expr_copy);
+	try_(_add_logic_expression(self, static_ref));
 	query_set_logic_comparison(self, "=");
 	return FQL_GOOD;
 }
diff --git a/lib/schema.c b/lib/schema.c
index 782d203..922fb51 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -649,6 +649,12 @@ int _assign_expression_limited(expression* expr, vec* sources, int limit, int st
 	switch (expr->expr) {
 	case EXPR_SWITCH_CASE: {
 		switchcase* sc = expr->field.sc;
+		if (sc->static_expr != NULL) {
+			try_(_assign_expression_limited(sc->static_expr,
+			                                sources,
+			                                limit,
+			                                strictness));
+		}
 		logicgroup** lg_iter = vec_begin(&sc->tests);
 		for (; lg_iter != vec_end(&sc->tests); ++lg_iter) {
 			try_(_assign_expressions_limited((*lg_iter)->expressions,
@@ -1123,6 +1129,10 @@ int _op_find_group(compositemap* expr_map, expression* expr, vec* key, bool loos
 	}
 
 	if (expr->expr == EXPR_SWITCH_CASE) {
+		expression* static_expr = expr->field.sc->static_expr;
+		if (static_expr != NULL) {
+			try_(_op_find_group(expr_map, static_expr, key, loose_groups));
+		}
 		expression** it = vec_begin(&expr->field.sc->values);
 		for (; it != vec_end(&expr->field.sc->values); ++it) {
 			try_(_op_find_group(expr_map, *it, key, loose_groups));
-- 
2.43.0


From 41ffe04ca580826ba0aa5ae5a9e77dc7b72d8fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 54/88] fix: LIKE with a variable or subquery as its pattern
 matched nothing

---
 lib/fqllogic.c | 2 +-
 lib/like.c     | 2 ++
 lib/logic.c    | 1 +
 lib/logic.h    | 1 +
 4 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/fqllogic.c b/lib/fqllogic.c
index 388b48c..704fff5 100644
--- a/lib/fqllogic.c
+++ b/lib/fqllogic.c
@@ -262,7 +262,7 @@ int fql_logic_like(logic* self, node* rg)
 	stringview sv0;
 	try_logic_deref_(expression_get_stringview(&sv0, self->expr[0], rg));
 
-	if (self->expr[1]->expr != EXPR_CONST) {
+	if (!self->like_data->is_const) {
 		stringview sv1;
 		try_logic_deref_(expression_get_stringview(&sv1, self->expr[1], rg));
 		like_to_regex(self->like_data, sv1);
diff --git a/lib/like.c b/lib/like.c
index 3d16bd0..092b9c8 100644
--- a/lib/like.c
+++ b/lib/like.c
@@ -8,6 +8,8 @@ like* like_construct(like* self)
 	string_construct(&self->regex_buffer);
 	vec_construct_(&self->ranges, string);
 	self->regex = NULL;
+	self->match = NULL;
+	self->is_const = false;
 	return self;
 }
 
diff --git a/lib/logic.c b/lib/logic.c
index 5bf4706..721d6d9 100644
--- a/lib/logic.c
+++ b/lib/logic.c
@@ -63,6 +63,7 @@ int _precompile_like(logic* self)
 	stringview sv = {0};
 	try_(expression_get_stringview(&sv, self->expr[1], NULL));
 	try_(like_to_regex(self->like_data, sv));
+	self->like_data->is_const = true;
 
 	pcre2_jit_compile(self->like_data->regex, PCRE2_JIT_COMPLETE);
 
diff --git a/lib/logic.h b/lib/logic.h
index 28dd7d4..45f0456 100644
--- a/lib/logic.h
+++ b/lib/logic.h
@@ -77,6 +77,7 @@ struct like {
 	struct vec ranges;
 	pcre2_code* regex;
 	pcre2_match_data* match;
+	bool is_const;
 };
 typedef struct like like;
 
-- 
2.43.0


From 6fb7163a459866927325b98fdd21fb1cdb980d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 55/88] fix: LIKE translated sets, newlines and repeated
 patterns wrongly

---
 lib/fqllogic.c |   2 +-
 lib/like.c     | 166 ++++++++++++++++---------------------------------
 lib/logic.h    |   2 -
 3 files changed, 53 insertions(+), 117 deletions(-)

diff --git a/lib/fqllogic.c b/lib/fqllogic.c
index 704fff5..3e4c167 100644
--- a/lib/fqllogic.c
+++ b/lib/fqllogic.c
@@ -265,7 +265,7 @@ int fql_logic_like(logic* self, node* rg)
 	if (!self->like_data->is_const) {
 		stringview sv1;
 		try_logic_deref_(expression_get_stringview(&sv1, self->expr[1], rg));
-		like_to_regex(self->like_data, sv1);
+		try_(like_to_regex(self->like_data, sv1));
 	}
 	int match_ret = pcre2_match(self->like_data->regex,
 	                            (PCRE2_SPTR)sv0.data,
diff --git a/lib/like.c b/lib/like.c
index 092b9c8..b2201c0 100644
--- a/lib/like.c
+++ b/lib/like.c
@@ -1,12 +1,11 @@
 #include "logic.h"
-#include <string.h>
+#include <ctype.h>
 #include <stdio.h>
+#include <string.h>
 
 like* like_construct(like* self)
 {
-	string_construct(&self->like_buffer);
 	string_construct(&self->regex_buffer);
-	vec_construct_(&self->ranges, string);
 	self->regex = NULL;
 	self->match = NULL;
 	self->is_const = false;
@@ -15,12 +14,6 @@ like* like_construct(like* self)
 
 void like_destroy(like* self)
 {
-	string* it = vec_begin(&self->ranges);
-	for (; it != vec_end(&self->ranges); ++it) {
-		string_destroy(it);
-	}
-	vec_destroy(&self->ranges);
-	string_destroy(&self->like_buffer);
 	string_destroy(&self->regex_buffer);
 	if (self->regex != NULL) {
 		pcre2_match_data_free(self->match);
@@ -28,125 +21,71 @@ void like_destroy(like* self)
 	}
 }
 
-/* This is just a C version of the a C++ solution:
- * https://stackoverflow.com/a/34901612/635822
+/* Write one character set of the pattern, [...] or [^...], as
+ * a character class. Both data and end exclude the brackets.
  */
-void _extract_character_ranges(vec* ranges, string* likebuf)
+void _append_character_set(string* regex, const char* data, const char* end)
 {
-	int range_idx = 0;
-	const char* begin = vec_begin(likebuf);
-	const char* start = begin;
-	char* end = NULL;
-
-	char key[32];
-
-	while ((start = memchr(start, '[', likebuf->size - (start - begin)))
-	       && (end = memchr(start, ']', likebuf->size - (start - begin)))) {
-		string bracketed = {0};
-		string_construct(&bracketed);
-		string_strncpy(&bracketed, start, end - start + 1);
-
-		sprintf(key, "[[%d]]", range_idx);
-		string_find_replace_one(likebuf,
-		                        string_c_str(&bracketed),
-		                        key,
-		                        start - begin);
-
-		/* in case of realloc */
-		unsigned begin_idx = start - begin;
-		begin = vec_begin(likebuf);
-		start = begin + begin_idx;
-		start += strlen(key);
-
-		/* Take surrounding brackets out */
-		vec_erase_at(&bracketed, 0, 1);
-		char* b_end = vec_back(&bracketed);
-		vec_erase_one(&bracketed, b_end);
-
-		/* Escaple all brackets left */
-		string_find_replace(&bracketed, "[", "\\[");
-		string_find_replace(&bracketed, "]", "\\]");
-
-		/* AND put them back in */
-		char bracket = '[';
-		vec_insert_at(&bracketed, 0, &bracket, 1);
-		bracket = ']';
-		vec_insert_at(&bracketed, bracketed.size, &bracket, 1);
-
-		vec_push_back(ranges, &bracketed);
-
-		++range_idx;
+	bool negated = (data < end && *data == '^');
+	data += negated;
+	if (data == end) {
+		/* nothing is in an empty set */
+		string_strcat(regex, (negated) ? "." : "(?!)");
+		return;
 	}
 
-	int open = 0;
-	begin = vec_begin(likebuf);
-	start = begin;
-	const char* search = start;
-
-	do {
-		start = memchr(search, '[', likebuf->size - (search - begin));
-		end = memchr(search, ']', likebuf->size - (search - begin));
-
-		if (start == NULL && end == NULL) {
-			break;
+	string_strcat(regex, (negated) ? "[^" : "[");
+	for (; data < end; ++data) {
+		/* hyphens keep their meaning */
+		if (ispunct((unsigned char)*data) && *data != '-') {
+			string_push_back(regex, '\\');
 		}
-
-		if ((start && start < end) || end == NULL) {
-			open++;
-			search = start + 1;
-		} else {
-			if (open <= 0) {
-				end[0] = '\\';
-				char end_bracket = ']';
-				vec_insert_iter(likebuf,
-				                end + 1,
-				                &end_bracket,
-				                &end_bracket);
-				search = end + 3;
-			} else {
-				open--;
-				search = end + 1;
-			}
-		}
-	} while (search < (const char*)vec_end(likebuf));
+		string_push_back(regex, *data);
+	}
+	string_push_back(regex, ']');
 }
 
 int like_to_regex(like* self, const stringview sql_like)
 {
-	//fprintf(stderr, "LIKE: %.*s\n", sql_like.len, sql_like.data);
+	/* a pattern may come from a record, so this might not be the first */
+	if (self->regex != NULL) {
+		pcre2_match_data_free(self->match);
+		pcre2_code_free(self->regex);
+		self->match = NULL;
+		self->regex = NULL;
+	}
 
-	string* likebuf = &self->like_buffer;
-	string_copy_from_stringview(likebuf, &sql_like);
-	string_find_replace(likebuf, "\\", "\\\\");
-	string_find_replace(likebuf, ".", "\\.");
-	string_find_replace(likebuf, "^", "\\^");
-	string_find_replace(likebuf, "$", "\\$");
-	string_find_replace(likebuf, "+", "\\+");
-	string_find_replace(likebuf, "?", "\\?");
-	string_find_replace(likebuf, "(", "\\(");
-	string_find_replace(likebuf, ")", "\\)");
-	string_find_replace(likebuf, "{", "\\{");
-	string_find_replace(likebuf, "}", "\\}");
-	string_find_replace(likebuf, "|", "\\|");
-	string_find_replace(likebuf, "*", "\\*");
-	_extract_character_ranges(&self->ranges, likebuf);
-	string_find_replace(likebuf, "%", ".*");
-	string_find_replace(likebuf, "_", ".");
+	string* regex = &self->regex_buffer;
+	string_strcpy(regex, "^");
 
-	char key[32];
-	unsigned i = 0;
-	for (; i < self->ranges.size; ++i) {
-		sprintf(key, "[[%d]]", i);
-		string_find_replace(likebuf, key, string_c_str(vec_at(&self->ranges, i)));
+	const char* it = sql_like.data;
+	const char* end = it + sql_like.len;
+	for (; it < end; ++it) {
+		const char* close = NULL;
+		if (*it == '[') {
+			close = memchr(it, ']', end - it);
+		}
+		if (close != NULL) {
+			_append_character_set(regex, it + 1, close);
+			it = close;
+		} else if (*it == '%') {
+			string_strcat(regex, ".*");
+		} else if (*it == '_') {
+			string_push_back(regex, '.');
+		} else {
+			if (ispunct((unsigned char)*it)) {
+				string_push_back(regex, '\\');
+			}
+			string_push_back(regex, *it);
+		}
 	}
-
-	string_sprintf(&self->regex_buffer, "^%s$", string_c_str(likebuf));
+	string_push_back(regex, '$');
 
 	int pcre_error = 0;
 	PCRE2_SIZE pcre_error_offset = 0;
-	self->regex = pcre2_compile((PCRE2_SPTR)string_c_str(&self->regex_buffer),
-	                            self->regex_buffer.size,
-	                            PCRE2_CASELESS,
+	self->regex = pcre2_compile((PCRE2_SPTR)string_c_str(regex),
+	                            regex->size,
+	                            PCRE2_CASELESS | PCRE2_DOTALL | PCRE2_DOLLAR_ENDONLY,
 	                            &pcre_error,
 	                            &pcre_error_offset,
 	                            NULL);
@@ -159,7 +98,6 @@ int like_to_regex(like* self, const stringview sql_like)
 	}
 
 	self->match = pcre2_match_data_create_from_pattern(self->regex, NULL);
-	//fprintf(stderr, "REGEX: %s\n", string_c_str(&self->regex_buffer));
 
 	return FQL_GOOD;
 }
diff --git a/lib/logic.h b/lib/logic.h
index 45f0456..e8c23d8 100644
--- a/lib/logic.h
+++ b/lib/logic.h
@@ -72,9 +72,7 @@ enum field_type inlist_determine_type(struct inlist*, struct expression*);
 void inlist_cat_description(struct inlist*, string* msg);
 
 struct like {
-	string like_buffer;
 	string regex_buffer;
-	struct vec ranges;
 	pcre2_code* regex;
 	pcre2_match_data* match;
 	bool is_const;
-- 
2.43.0


From 1bd9a4086ce476f3e6c1ef59a08c72f451779810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:45 +0000
Subject: [PATCH 56/88] fix: a table variable was renamed through a freed table

---
 lib/query.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/query.c b/lib/query.c
index e726b66..0da1676 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -44,7 +44,7 @@ query* query_construct(query* self, fqlhandle* fql, int id)
 	        .sources = new_t_(vec, table),
 	        .subquery_const_vec = new_t_(vec, query*),
 	        .variable_table_indicies = new_t_(vec, int),
-	        .variable_tables = new_t_(vec, table*),
+	        .variable_tables = new_t_(vec, size_t),
 	        .variable_expr_indicies = new_t_(vec, int),
 	        .variable_expressions = new_t_(vec, expression*),
 	        .unions = new_t_(vec, query*),
@@ -131,11 +131,12 @@ int query_preflight(query* self, bool has_executed)
 
 	for (i = 0; i < self->variable_table_indicies->size; ++i) {
 		int* var_idx = vec_at(self->variable_table_indicies, i);
-		table** var_table = vec_at(self->variable_tables, i);
+		size_t* table_idx = vec_at(self->variable_tables, i);
+		table* var_table = vec_at(self->sources, *table_idx);
 		variable* var = vec_at(self->fqlref->variables, *var_idx);
 		//string_copy(&(*var_table)->reader->file_name, var->value.s);
 		enum fuzzy_return ret =
-		        schema_fuzzy_resolve_file(&(*var_table)->reader->file_name,
+		        schema_fuzzy_resolve_file(&var_table->reader->file_name,
 		                                  var->value.s,
 		                                  self->fqlref->props.strictness);
 		switch (ret) {
@@ -607,7 +608,7 @@ int query_add_source(query* self,
 	                self->join);
 
 	if (is_variable) {
-		vec_push_back(self->variable_tables, &new_table);
+		vec_push_back(self->variable_tables, &new_table->idx);
 		new_table->must_reopen = true;
 	}
 
-- 
2.43.0


From 3b0b1ea415ffcc5cc38c6ae9cc8a90d4d843a8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 57/88] fix: a scalar subquery whose first value was NULL
 copied an unset text and took further rows

---
 lib/fqlselect.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index f10dac5..289c9dc 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -550,7 +550,7 @@ int _select_record_to_list(fqlselect* self, node* rg)
 int _select_record_to_const(fqlselect* self, node* rg)
 {
 	++self->rownum;
-	if (self->const_dest->expr == EXPR_CONST) {
+	if (self->rownum > 1) {
 		fputs("subquery returned more than 1 value as expression\n", stderr);
 		return FQL_FAIL;
 	}
@@ -582,6 +582,7 @@ int _select_record_to_const(fqlselect* self, node* rg)
 		stringview sv;
 		if (try_(expression_get_stringview(&sv, expr, rg)) == FQL_NULL) {
 			self->const_dest->expr = EXPR_NULL;
+			sv = (stringview) {"", 0};
 		}
 		string_copy_from_stringview(&self->const_dest->buf, &sv);
 		self->const_dest->field.s = &self->const_dest->buf;
-- 
2.43.0


From b7d8fdfadc0c4b937614e5bc8a1d760235fcc7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 58/88] fix: a table in a directory that does not exist ended
 the process

---
 util/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/util.c b/util/util.c
index 0d14a55..a8e8822 100644
--- a/util/util.c
+++ b/util/util.c
@@ -192,7 +192,7 @@ node* dir_list_files(const char* restrict dir)
 	dr = opendir(dir); //open all or present directory
 	if (!dr) {
 		perror(dir);
-		exit(EXIT_FAILURE);
+		return NULL;
 	}
 
 	while ((en = readdir(dr)) != NULL) {
-- 
2.43.0


From d48d3f4228c3331b7cf519cfa817fada671b5d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 59/88] fix: an output delimiter or terminator crashed SET and
 IF and broke the file of an UPDATE or DELETE

---
 lib/schema.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/schema.c b/lib/schema.c
index 922fb51..a58d2b1 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -1598,11 +1598,13 @@ int schema_resolve(struct fqlhandle* fql)
 			(*it)->next_idx_ref = NULL;
 		}
 
-		if (fql->_out_delim_set) {
+		/* UPDATE and DELETE keep the delimiter of their file */
+		if (fql->_out_delim_set
+		    && *(enum fql_operation*)(*it)->op == FQL_SELECT) {
 			op_set_delim((*it)->op, fql->props.out_delim);
 		}
 
-		if (fql->props.rec_terminator[0]) {
+		if (fql->props.rec_terminator[0] && op_get_schema((*it)->op)) {
 			op_set_rec_terminator((*it)->op, fql->props.rec_terminator);
 		}
 
-- 
2.43.0


From a7df180dc759929f3ac7899302436d970ddf8cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:41 +0000
Subject: [PATCH 60/88] fix: a file made without a header lost its first
 record, and columns, when read in the same script

---
 lib/fqldelete.c |  3 ++-
 lib/fqlselect.c | 12 +++++++++---
 lib/fqlselect.h |  1 +
 lib/fqlupdate.c |  3 ++-
 lib/schema.c    |  7 ++++++-
 5 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/lib/fqldelete.c b/lib/fqldelete.c
index 981784d..6504b7c 100644
--- a/lib/fqldelete.c
+++ b/lib/fqldelete.c
@@ -109,7 +109,8 @@ int fqldelete_apply_process(query* query, plan* plan)
 
 void fqldelete_preop(fqldelete* self, query* query)
 {
-	if (!self->schema->is_default) {
+	table* op_table = vec_at(query->sources, self->table_idx);
+	if (op_table->reader->skip_rows == 0) {
 		return;
 	}
 
diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 289c9dc..78072d4 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -361,13 +361,19 @@ void _preop_build_header(fqlselect* self, query* query)
 }
 
 
+bool fqlselect_has_header(const schema* schema, const struct fqlhandle* fql)
+{
+	if (schema->write_io_type != IO_LIBCSV) {
+		return false;
+	}
+	return schema->is_default ? fql->props.print_header : fql->props.add_header;
+}
+
 void fqlselect_preop(fqlselect* self, query* query)
 {
 	self->_union_node = self->union_selects;
 
-	if (self->schema->write_io_type != IO_LIBCSV
-	    || (!self->schema->is_default && !query->fqlref->props.add_header)
-	    || (self->schema->is_default && !query->fqlref->props.print_header)) {
+	if (!fqlselect_has_header(self->schema, query->fqlref)) {
 		return;
 	}
 
diff --git a/lib/fqlselect.h b/lib/fqlselect.h
index 5e6e072..05fc5ca 100644
--- a/lib/fqlselect.h
+++ b/lib/fqlselect.h
@@ -48,6 +48,7 @@ int fqlselect_resolve_final_types(struct fqlselect*);
 void fqlselect_verify_must_run(struct fqlselect*);
 int fqlselect_next_union(struct fqlselect*);
 int fqlselect_reset(struct fqlselect*);
+bool fqlselect_has_header(const struct schema*, const struct fqlhandle*);
 void fqlselect_preop(struct fqlselect*, struct query*);
 
 #endif /* SELECT_H */
diff --git a/lib/fqlupdate.c b/lib/fqlupdate.c
index 653a83a..d47eb17 100644
--- a/lib/fqlupdate.c
+++ b/lib/fqlupdate.c
@@ -154,7 +154,8 @@ int fqlupdate_apply_process(query* query, plan* plan)
 
 void fqlupdate_preop(fqlupdate* self, query* query)
 {
-	if (!self->schema->is_default) {
+	table* op_table = vec_at(query->sources, self->table_idx);
+	if (op_table->reader->skip_rows == 0) {
 		return;
 	}
 
diff --git a/lib/schema.c b/lib/schema.c
index a58d2b1..4ae7110 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -297,6 +297,11 @@ int _resolve_file(struct fqlhandle* fql, query* query, table* table)
 		schema_add_expression(table->schema, new_expr, table->idx);
 	}
 
+	/* The file only has a header if that statement will write one */
+	if (table->schema->is_default) {
+		table->reader->skip_rows = fqlselect_has_header(*match, fql);
+	}
+
 	table->must_reopen = true;
 	table->schema->is_preresolved = true;
 	//table->reader->type = (*match)->write_io_type;
@@ -596,7 +601,7 @@ int _resolve_source(struct fqlhandle* fql, query* query, table* table, int src_i
 		if (!self->is_preresolved) {
 			schema_assign_header(table, rec, src_idx);
 		}
-	} else {
+	} else if (!self->is_preresolved) {
 		unsigned newsize = (rec->fields.size) ? rec->fields.size : 1;
 		if (newsize < self->expressions->size) {
 			expression** it = vec_at(self->expressions, newsize);
-- 
2.43.0


From b4a0acadf3b57927b61351823e9977a0204aca24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 61/88] fix: an empty file of fixed width was unmapped, and
 read from the previous mapping when it became empty

---
 lib/fixedread.c | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/lib/fixedread.c b/lib/fixedread.c
index ecad6b4..7fd17de 100644
--- a/lib/fixedread.c
+++ b/lib/fixedread.c
@@ -15,13 +15,24 @@ fixedread* fixedread_construct(fixedread* self, vec* expressions)
 	return self;
 }
 
-void fixedread_free(void* generic_data)
+void _fixedread_close(fixedread* self)
 {
-	fixedread* self = generic_data;
-	if (self->fd != -1) {
+	if (self->mmap != NULL) {
 		munmap(self->mmap, self->file_size);
+	}
+	if (self->fd != -1) {
 		close(self->fd);
 	}
+	self->mmap = NULL;
+	self->file_size = 0;
+	self->offset = 0;
+	self->fd = -1;
+}
+
+void fixedread_free(void* generic_data)
+{
+	fixedread* self = generic_data;
+	_fixedread_close(self);
 	free_(self);
 }
 
@@ -45,13 +56,13 @@ int fixedread_open(reader* reader, const char* file_name)
 		return FQL_GOOD;
 	}
 
-	self->file_size = sb.st_size;
-	self->mmap = mmap(NULL, sb.st_size, PROT_READ, MAP_PRIVATE, self->fd, 0);
-
-	if (self->mmap == MAP_FAILED) {
+	void* map = mmap(NULL, sb.st_size, PROT_READ, MAP_PRIVATE, self->fd, 0);
+	if (map == MAP_FAILED) {
 		perror(file_name);
 		return FQL_FAIL;
 	}
+	self->mmap = map;
+	self->file_size = sb.st_size;
 	madvise(self->mmap, sb.st_size, MADV_SEQUENTIAL);
 	self->offset = 0;
 	return FQL_GOOD;
@@ -60,10 +71,7 @@ int fixedread_open(reader* reader, const char* file_name)
 int fixedread_reopen(reader* reader)
 {
 	fixedread* self = reader->reader_data;
-	if (self->mmap != NULL) {
-		munmap(self->mmap, self->file_size);
-		close(self->fd);
-	}
+	_fixedread_close(self);
 	return fixedread_open(reader, string_c_str(&reader->file_name));
 }
 
-- 
2.43.0


From dae4ef51be66e8a919b2b28d329e3a26241a02a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 62/88] fix: ORDER BY on output of fixed width freed a name
 twice

---
 lib/fixedwrite.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fixedwrite.c b/lib/fixedwrite.c
index 3ae26b6..3b771ad 100644
--- a/lib/fixedwrite.c
+++ b/lib/fixedwrite.c
@@ -146,7 +146,8 @@ const char* fixedwriter_export_temp(fixedwriter* self)
 		}
 	}
 
-	return _get_filename(self);
+	const char* filename = _get_filename(self);
+	return filename == NULL ? NULL : strdup(filename);
 }
 
 int fixedwriter_write_record(writer* writer, vec* expr_vec, node* rg, FILE* outstream)
-- 
2.43.0


From 3b29c9c8ca02bdf47f42a48b117127508c792781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 63/88] fix: a failed statement left the temporary file of its
 fixed width output

---
 lib/fixedwrite.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/fixedwrite.c b/lib/fixedwrite.c
index 3b771ad..75a6a6f 100644
--- a/lib/fixedwrite.c
+++ b/lib/fixedwrite.c
@@ -24,8 +24,16 @@ fixedwriter* fixedwriter_construct(fixedwriter* self)
 	return self;
 }
 
+bool _isopen(fixedwriter*);
+
 void fixedwriter_destroy(fixedwriter* self)
 {
+	if (_isopen(self)) {
+		fclose(self->file);
+	}
+	if (self->tempnode != NULL) {
+		fqlsig_tmp_remove_node_and_file(self->tempnode);
+	}
 	string_destroy(&self->tempname);
 	string_destroy(&self->filename);
 	string_destroy(&self->buffer);
@@ -154,12 +162,8 @@ int fixedwriter_write_record(writer* writer, vec* expr_vec, node* rg, FILE* outs
 {
 	fixedwriter* self = writer->writer_data;
 
-	FILE* store_stream = NULL;
 	if (outstream == NULL) {
 		outstream = fixedwriter_get_file(self);
-	} else {
-		store_stream = fixedwriter_get_file(self);
-		self->file = outstream;
 	}
 
 	int len = 0;
@@ -191,17 +195,13 @@ int fixedwriter_write_record(writer* writer, vec* expr_vec, node* rg, FILE* outs
 			}
 		}
 
-		fwrite(sv.data, 1, sv.len, self->file);
+		fwrite(sv.data, 1, sv.len, outstream);
 		unsigned i = sv.len;
 		for (; i < width; ++i) {
-			fputc(' ', self->file);
+			fputc(' ', outstream);
 		}
 		len += width;
 	}
 
-	if (store_stream) {
-		self->file = store_stream;
-	}
-
 	return len;
 }
-- 
2.43.0


From c36c227c74e6acaa483143710de0fc723dfe001e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 64/88] fix: reading a file of fixed width made by the same
 script never ended

---
 lib/schema.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/lib/schema.c b/lib/schema.c
index 4ae7110..489a0c7 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -287,13 +287,28 @@ int _resolve_file(struct fqlhandle* fql, query* query, table* table)
 
 	vec* src_vec = (*match)->expressions;
 
+	bool is_fixed = ((*match)->write_io_type == IO_FIXED);
+	if (is_fixed) {
+		table->reader->reclen = 0;
+	}
+
 	expression** it = vec_begin(src_vec);
 	for (; it != vec_end(src_vec); ++it) {
+		if (is_fixed && (*it)->width == 0) {
+			fprintf(stderr,
+			        "Width of `%s' in `%s' is not known\n",
+			        string_c_str(&(*it)->alias),
+			        string_c_str(&table->name));
+			return FQL_FAIL;
+		}
 		expression* new_expr =
 		        new_(expression, EXPR_COLUMN_NAME, (*it)->alias.data, "");
 		new_expr->field_type = (*it)->field_type;
-		new_expr->location = (*it)->location;
+		new_expr->location = table->reader->reclen;
 		new_expr->width = (*it)->width;
+		if (is_fixed) {
+			table->reader->reclen += new_expr->width;
+		}
 		schema_add_expression(table->schema, new_expr, table->idx);
 	}
 
-- 
2.43.0


From dc866eae132b0bcac05b8708562fca30d452f2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:35 +0000
Subject: [PATCH 65/88] fix: SELECT INTO with ORDER BY emptied its file before
 the query ran and filled it only at the end of the session

---
 lib/operation.c |  3 +-
 lib/order.c     | 92 ++++++++++++++++++++++++++++++++++++++++++++-----
 lib/order.h     |  3 ++
 3 files changed, 88 insertions(+), 10 deletions(-)

diff --git a/lib/operation.c b/lib/operation.c
index 818651e..24d142a 100644
--- a/lib/operation.c
+++ b/lib/operation.c
@@ -385,9 +385,10 @@ int op_reset(query* query, bool has_executed)
 	if (!query->union_id && query->orderby != NULL) {
 		char* out_name = writer_take_filename(op_writer);
 		const char* in_name = writer_export_temp(op_writer);
-		try_(order_init_io(query->orderby, in_name, out_name));
+		int ret = order_init_io(query->orderby, in_name, out_name);
 		free_(in_name);
 		free_(out_name);
+		try_(ret);
 	}
 
 	return FQL_GOOD;
diff --git a/lib/order.c b/lib/order.c
index 61d0f91..a364f2d 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -3,6 +3,7 @@
 #include <assert.h>
 #include <stdio.h>
 #include <fcntl.h>
+#include <libgen.h>
 #include <sys/mman.h>
 #include <sys/stat.h>
 
@@ -29,6 +30,8 @@ int _order_select_to_list(order* self, process*);
 
 void _order_unmap(order* self);
 void _order_reset_output(order* self);
+int _order_open_output(order* self, const char* out_name);
+int _order_close_output(order* self);
 
 order* order_construct(order* self)
 {
@@ -41,6 +44,8 @@ order* order_construct(order* self)
 	vec_construct_(&self->expressions, expression*);
 	vec_construct_(&self->entries, struct _entry);
 	string_construct(&self->in_filename);
+	string_construct(&self->out_filename);
+	string_construct(&self->out_tempname);
 	flex_construct(&self->order_data);
 
 	return self;
@@ -56,8 +61,10 @@ void order_destroy(order* self)
 	vec_destroy(&self->entries);
 	flex_destroy(&self->order_data);
 	_order_unmap(self);
-	string_destroy(&self->in_filename);
 	_order_reset_output(self);
+	string_destroy(&self->in_filename);
+	string_destroy(&self->out_filename);
+	string_destroy(&self->out_tempname);
 }
 
 void _order_unmap(order* self)
@@ -69,12 +76,77 @@ void _order_unmap(order* self)
 	}
 }
 
+/* Whatever was written so far is of no use */
 void _order_reset_output(order* self)
 {
 	if (self->out_file != NULL && self->out_file != stdout
 	    && self->out_file != stderr) {
 		fclose(self->out_file);
 	}
+	self->out_file = stdout;
+	if (self->out_tempnode != NULL) {
+		fqlsig_tmp_remove_node_and_file(self->out_tempnode);
+		self->out_tempnode = NULL;
+	}
+}
+
+/* Like any other writer: write to a temp file next to the
+ * destination. Take its place when everything is written.
+ */
+int _order_open_output(order* self, const char* out_name)
+{
+	string_strcpy(&self->out_filename, out_name);
+
+	char* filename_cp = strdup(out_name);
+	string_strcpy(&self->out_tempname, dirname(filename_cp));
+	string_strcat(&self->out_tempname, "/order_XXXXXX");
+	free_(filename_cp);
+
+	int fd = mkstemp(self->out_tempname.data);
+	if (fd == -1) {
+		perror(out_name);
+		return FQL_FAIL;
+	}
+	self->out_tempnode = fqlsig_tmp_push(string_c_str(&self->out_tempname));
+
+	FILE* out_file = fdopen(fd, "w");
+	if (out_file == NULL) {
+		perror(out_name);
+		close(fd);
+		return FQL_FAIL;
+	}
+	self->out_file = out_file;
+	return FQL_GOOD;
+}
+
+int _order_close_output(order* self)
+{
+	if (self->out_tempnode == NULL) {
+		return FQL_GOOD;
+	}
+
+	const char* file = string_c_str(&self->out_filename);
+	const char* tmp = string_c_str(&self->out_tempname);
+
+	bool has_failed = ferror(self->out_file);
+	if (fclose(self->out_file) == EOF || has_failed) {
+		self->out_file = stdout;
+		perror(tmp);
+		return FQL_FAIL;
+	}
+	self->out_file = stdout;
+
+	if (chmod(tmp, 0666)) {
+		perror(tmp);
+		return FQL_FAIL;
+	}
+	if (rename(tmp, file)) {
+		perror(tmp);
+		return FQL_FAIL;
+	}
+	fqlsig_tmp_remove_node(self->out_tempnode);
+	self->out_tempnode = NULL;
+	return FQL_GOOD;
 }
 
 int order_init_io(order* self, const char* in_name, const char* out_name)
@@ -83,22 +155,21 @@ int order_init_io(order* self, const char* in_name, const char* out_name)
 	vec_clear(&self->entries);
 	flex_clear(&self->order_data);
 
+	_order_unmap(self);
 	if (self->temp_node != NULL) {
-		_order_unmap(self);
 		fqlsig_tmp_remove_node_and_file(self->temp_node);
 		self->temp_node = NULL;
 	}
 
+	if (in_name == NULL) {
+		return FQL_FAIL;
+	}
 	string_strcpy(&self->in_filename, in_name);
 	self->temp_node = fqlsig_tmp_push(string_c_str(&self->in_filename));
 
+	_order_reset_output(self);
 	if (out_name != NULL) {
-		_order_reset_output(self);
-		self->out_file = fopen(out_name, "w");
-		if (self->out_file == NULL) {
-			perror(out_name);
-			return FQL_FAIL;
-		}
+		return _order_open_output(self, out_name);
 	}
 	return FQL_GOOD;
 }
@@ -326,7 +397,7 @@ int _order_select(order* self, process* proc)
 		++proc->rows_affected;
 	}
 
-	return 0;
+	return _order_close_output(self);
 }
 
 int _order_select_api(order* self, process* proc)
@@ -481,6 +552,7 @@ int order_sort(order* self)
 	struct stat sb;
 	if (fstat(self->fd, &sb) == -1) {
 		perror(string_c_str(&self->in_filename));
+		close(self->fd);
 		return FQL_FAIL;
 	}
 
@@ -494,6 +566,8 @@ int order_sort(order* self)
 	self->mmap = mmap(NULL, sb.st_size, PROT_READ, MAP_PRIVATE, self->fd, 0);
 
 	if (self->mmap == MAP_FAILED) {
+		self->mmap = NULL;
+		close(self->fd);
 		perror(string_c_str(&self->in_filename));
 		return FQL_FAIL;
 	}
diff --git a/lib/order.h b/lib/order.h
index e70c44d..a7aa1ba 100644
--- a/lib/order.h
+++ b/lib/order.h
@@ -20,6 +20,8 @@ struct order {
 	struct vec expressions;
 	struct vec entries;
 	string in_filename;
+	string out_filename;
+	string out_tempname;
 	struct flex order_data;
 	order_select_fn select__;
 	struct vec* api;
@@ -29,6 +31,7 @@ struct order {
 	FILE* out_file;
 	struct _entry* entry_iter;
 	struct node* temp_node;
+	struct node* out_tempnode;
 	char* mmap;
 	size_t file_size;
 	size_t top_count;
-- 
2.43.0


From ee601414c2cf1572d3c1b5aba86ee978e1c8e967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 66/88] fix: a failure to set up or write the temporary file of
 a joined subquery went unnoticed

---
 lib/fqlplan.c  |  5 +++--
 lib/reader.c   | 26 +++++++++++++++++++++-----
 lib/subquery.c |  5 ++---
 3 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index e55b979..0bfe441 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -383,7 +383,7 @@ int _from(plan* self, query* query, fqlhandle* fql)
 			join_proc->has_second_input = true;
 
 			if (table_iter->is_stdin) {
-				reader_start_file_backed_input(table_iter->reader);
+				try_(reader_start_file_backed_input(table_iter->reader));
 			}
 			table_hash_join_init(table_iter);
 
@@ -406,7 +406,8 @@ int _from(plan* self, query* query, fqlhandle* fql)
 				read_node->is_root = true;
 				read_proc->root_fifo = 0;
 			} else { /* SUBQUERY */
-				subquery_start_file_backed_input(table_iter->reader);
+				try_(subquery_start_file_backed_input(
+				        table_iter->reader));
 				read_proc =
 				        new_(process, "subquery file-backed read", self);
 				read_node = dgraph_add_data(self->processes, read_proc);
diff --git a/lib/reader.c b/lib/reader.c
index 82372e9..54f55f4 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -33,8 +33,8 @@ void reader_destroy(reader* self)
 		self->free__(self->reader_data);
 	}
 
-	/* TODO */
-	if (self->random_access_filename != NULL) { }
+	reader_stop_file_backed_input(self);
+	delete_if_exists_(string, self->random_access_filename);
 }
 
 int reader_assign(reader* self, table* table, struct fqlhandle* fql)
@@ -149,8 +149,24 @@ int reader_start_file_backed_input(reader* self)
 
 int reader_stop_file_backed_input(reader* self)
 {
-	// Should close on csv_writer_free
-	//fclose(self->random_access_file);
+	if (self->random_access_file == NULL) {
+		return FQL_GOOD;
+	}
+
+	/* Whatever is still in the buffer has to make it to the file. */
+	int ret = FQL_GOOD;
+	if (fflush(self->random_access_file) == EOF) {
+		perror(string_c_str(self->random_access_filename));
+		ret = FQL_FAIL;
+	}
+
+	if (self->subquery_writer != NULL) {
+		/* closes the file */
+		csv_writer_free(self->subquery_writer);
+		self->subquery_writer = NULL;
+	} else {
+		fclose(self->random_access_file);
+	}
 	self->random_access_file = NULL;
-	return FQL_GOOD;
+	return ret;
 }
diff --git a/lib/subquery.c b/lib/subquery.c
index e09bb61..b937f45 100644
--- a/lib/subquery.c
+++ b/lib/subquery.c
@@ -125,8 +125,7 @@ int subquery_reset(reader* reader)
  */
 int subquery_reset_from_join(reader* reader)
 {
-	reader_stop_file_backed_input(reader);
-	csv_writer_free(reader->subquery_writer);
+	try_(reader_stop_file_backed_input(reader));
 
 	subquery* self = reader->reader_data;
 
@@ -179,7 +178,7 @@ int subquery_restart(reader* reader, query* query)
 		reader->get_record__ = &subquery_get_record;
 		reader->get_record_at__ = &subquery_get_record_at;
 	} else {
-		csv_writer_free(reader->subquery_writer);
+		try_(reader_stop_file_backed_input(reader));
 	}
 
 	reader->eof = false;
-- 
2.43.0


From cf266a8cff74de7518fc83640365ae3dc77d95a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 67/88] fix: a joined subquery whose temporary file could not
 be written was taken as read

---
 lib/fqlprocesses.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 65a1a94..78342ef 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -342,7 +342,7 @@ enum proc_return fql_cartesian_join(process* proc)
 			break;
 		}
 		default: /* eof */
-			reader->reset__(reader);
+			try_(reader->reset__(reader));
 			fqlprocess_recycle(proc, iter_left);
 			fifo_consume(in_left);
 			if (fifo_is_empty(in_left)) {
@@ -466,7 +466,7 @@ enum proc_return fql_hash_join(process* proc)
 		if (fifo_is_empty(in_right)) {
 			if (!in_right->is_open) {
 				hj->state = SIDE_LEFT;
-				table->reader->reset__(table->reader);
+				try_(table->reader->reset__(table->reader));
 				return PROC_RETURN_RUNNING;
 			}
 			return PROC_RETURN_WAIT_ON_IN1;
-- 
2.43.0


From 78839002d27b2b931efa8d34afc3d50e42140bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 68/88] fix: a failed SELECT INTO left an empty file in the
 place of its destination

---
 lib/fqlsig.c | 23 +++++++++++++++++++++++
 lib/fqlsig.h |  7 +++++++
 lib/order.c  |  1 +
 lib/schema.c | 12 +++++++++++-
 lib/writer.c |  7 +++++--
 5 files changed, 47 insertions(+), 3 deletions(-)

diff --git a/lib/fqlsig.c b/lib/fqlsig.c
index 1af6193..da7a35a 100644
--- a/lib/fqlsig.c
+++ b/lib/fqlsig.c
@@ -1,5 +1,7 @@
 #include "fqlsig.h"
 #include <string.h>
+#include <stdlib.h>
+#include <limits.h>
 #include <stdio.h>
 #include "util/stringy.h"
 #include "util/util.h"
@@ -79,6 +81,27 @@ void fqlsig_tmp_remove_node_and_file(node* node)
 	free_(tmp);
 }
 
+void fqlsig_tmp_commit_output(const char* file)
+{
+	char absolute_path[PATH_MAX];
+	if (!realpath(file, absolute_path)) {
+		return;
+	}
+
+	node* it = _tmp_file_head;
+	while (it != NULL && strcmp(it->data, absolute_path) != 0) {
+		it = it->next;
+	}
+
+	if (*file == '#') {
+		if (it == NULL) {
+			fqlsig_tmp_push(absolute_path);
+		}
+	} else if (it != NULL) {
+		fqlsig_tmp_remove_node(it);
+	}
+}
+
 void fqlsig_tmp_removeall()
 {
 	while (_tmp_file_head) {
diff --git a/lib/fqlsig.h b/lib/fqlsig.h
index 5076aa1..b5e98b3 100644
--- a/lib/fqlsig.h
+++ b/lib/fqlsig.h
@@ -36,6 +36,13 @@ void fqlsig_tmp_remove_file(const char* tmp_file);
  */
 void fqlsig_tmp_remove_node_and_file(struct node* node);
 
+/**
+ * An output file is complete. If it is a temp table, it will
+ * be removed with all other temp files. Otherwise, it stays,
+ * even if its place holder was to be removed.
+ */
+void fqlsig_tmp_commit_output(const char* file);
+
 /**
  * Remove all temp files
  */
diff --git a/lib/order.c b/lib/order.c
index a364f2d..a01da3d 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -146,6 +146,7 @@ int _order_close_output(order* self)
 	}
 	fqlsig_tmp_remove_node(self->out_tempnode);
 	self->out_tempnode = NULL;
+	fqlsig_tmp_commit_output(file);
 	return FQL_GOOD;
 }
 
diff --git a/lib/schema.c b/lib/schema.c
index 489a0c7..3edbac8 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -12,6 +12,7 @@
 #include "order.h"
 #include "logic.h"
 #include "reader.h"
+#include "fqlsig.h"
 #include "function.h"
 #include "aggregate.h"
 #include "fqlselect.h"
@@ -1486,7 +1487,8 @@ int _resolve_query(struct fqlhandle* fql, query* aquery, enum io union_io)
 	 * not previously exist.
 	 */
 	if (aquery->into_table_name != NULL) {
-		if (access(aquery->into_table_name, F_OK) != 0) {
+		bool is_place_holder = (access(aquery->into_table_name, F_OK) != 0);
+		if (is_place_holder) {
 			/* NOTE: that we may enter this block for a number of
 			 *       reasons other than "file doesn't exist." We
 			 *       rely on fopen errors to catch other errors.
@@ -1499,6 +1501,7 @@ int _resolve_query(struct fqlhandle* fql, query* aquery, enum io union_io)
 
 			if (fclose(place_holder) == EOF) {
 				perror(aquery->into_table_name);
+				remove(aquery->into_table_name);
 				return FQL_FAIL;
 			}
 		} else if (*(enum fql_operation*)aquery->op == FQL_SELECT
@@ -1524,6 +1527,13 @@ int _resolve_query(struct fqlhandle* fql, query* aquery, enum io union_io)
 			return FQL_FAIL;
 		}
 
+		/* If this never gets to be written, there is no
+		 * reason for the place holder to stay.
+		 */
+		if (is_place_holder) {
+			fqlsig_tmp_push(absolute_path);
+		}
+
 		hashmap_set(fql->schema_map, absolute_path, &op_schema);
 	}
 
diff --git a/lib/writer.c b/lib/writer.c
index 2560bd6..00b93d6 100644
--- a/lib/writer.c
+++ b/lib/writer.c
@@ -101,8 +101,8 @@ int writer_close(writer* self)
 		return FQL_FAIL;
 	}
 
-	if (*string_c_str(&self->file_name) == '#') {
-		fqlsig_tmp_push(string_c_str(&self->file_name));
+	if (!string_empty(&self->file_name)) {
+		fqlsig_tmp_commit_output(string_c_str(&self->file_name));
 	}
 	string_clear(&self->file_name);
 
@@ -123,6 +123,9 @@ FILE* writer_get_file(writer* self)
 
 char* writer_take_filename(writer* self)
 {
+	/* whoever takes this is responsible for the output */
+	string_clear(&self->file_name);
+
 	switch (self->type) {
 	case IO_LIBCSV:
 		return csv_writer_detach_filename(self->writer_data);
-- 
2.43.0


From 3d7686a936d2e3bb2793304322387c79cab34d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 69/88] fix: a fixed width file that could not be written
 replaced the one before it

---
 lib/fixedwrite.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/fixedwrite.c b/lib/fixedwrite.c
index 75a6a6f..122d28f 100644
--- a/lib/fixedwrite.c
+++ b/lib/fixedwrite.c
@@ -60,6 +60,10 @@ int _mktmp(fixedwriter* self)
 	}
 
 	int fd = mkstemp(self->tempname.data);
+	if (fd == -1) {
+		perror(string_c_str(&self->tempname));
+		return FQL_FAIL;
+	}
 	self->file = fdopen(fd, "w");
 	if (!self->file) {
 		perror(string_c_str(&self->tempname));
@@ -88,7 +92,13 @@ int fixedwriter_close(fixedwriter* self)
 	if (self->file == stdout)
 		return FQL_GOOD;
 
-	fclose(self->file);
+	/* do not let a file that is not complete replace anything */
+	bool has_failed = ferror(self->file);
+	if (fclose(self->file) == EOF || has_failed) {
+		self->file = NULL;
+		perror(string_c_str(&self->tempname));
+		return FQL_FAIL;
+	}
 	self->file = NULL;
 
 	if (self->is_detached) {
-- 
2.43.0


From e92d6eb6878a1c3c08e797bfa58d7a105cf47e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:24 +0000
Subject: [PATCH 70/88] fix: a cartesian join with standard input crashed

---
 lib/fixedread.c  | 4 +++-
 lib/fqlplan.c    | 4 ++++
 lib/libcsvread.c | 5 ++++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/fixedread.c b/lib/fixedread.c
index 7fd17de..3b988b9 100644
--- a/lib/fixedread.c
+++ b/lib/fixedread.c
@@ -166,7 +166,9 @@ int fixedread_reset(reader* reader)
 
 int fixedread_reset_stdin(reader* reader)
 {
-	reader_stop_file_backed_input(reader);
+	try_(reader_stop_file_backed_input(reader));
+	reader->rec_id = 0;
+	reader->eof = false;
 	reader->reset__ = &fixedread_reset;
 	reader->get_record__ = &fixedread_get_record;
 
diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 0bfe441..582f7ea 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -437,6 +437,10 @@ int _from(plan* self, query* query, fqlhandle* fql)
 				      stderr);
 				return FQL_FAIL;
 			}
+			/* every pass but the first one reads from this file */
+			if (table_iter->is_stdin) {
+				try_(reader_start_file_backed_input(table_iter->reader));
+			}
 			join_proc =
 			        _new_join_proc(table_iter->join_type, "cartesian", self);
 			join_proc->action__ = &fql_cartesian_join;
diff --git a/lib/libcsvread.c b/lib/libcsvread.c
index 0c66c9e..e9ac466 100644
--- a/lib/libcsvread.c
+++ b/lib/libcsvread.c
@@ -108,8 +108,11 @@ int libcsv_reset(reader* self)
 
 int libcsv_reset_stdin(reader* self)
 {
-	reader_stop_file_backed_input(self);
+	try_(reader_stop_file_backed_input(self));
 	self->reset__ = libcsv_reset;
+	self->rec_id = 0;
+	self->eof = false;
+	self->skip_rows = 0; /* the header is not in this file */
 	if (csv_reader_open_mmap(self->reader_data,
 	                         string_c_str(self->random_access_filename))) {
 		csv_perror();
-- 
2.43.0


From 8a473c62bd8de58c0cbfc1e371b49940a5a14f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:02 +0000
Subject: [PATCH 71/88] fix: first record of standard input lost its table in a
 cartesian join

---
 lib/libcsvread.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/libcsvread.c b/lib/libcsvread.c
index e9ac466..a623341 100644
--- a/lib/libcsvread.c
+++ b/lib/libcsvread.c
@@ -29,10 +29,11 @@ int libcsv_get_record(reader* self, node* rg)
 	int ret = 0;
 	/* This comes from delimiter discovery in schema.c:_resolve_source */
 	if (self->first_rec != NULL) {
-		delete_(record, rec);
-		rec = self->first_rec;
+		struct csv_record* libcsv_rec = rec->libcsv_rec;
+		rec->libcsv_rec = self->first_rec->libcsv_rec;
+		self->first_rec->libcsv_rec = libcsv_rec;
+		delete_(record, self->first_rec);
 		self->first_rec = NULL;
-		rg->data = rec;
 		ret = CSV_GOOD;
 	} else {
 		ret = csv_get_record_to(csv, rec->libcsv_rec, self->max_idx + 1);
-- 
2.43.0


From 224a1d963eb54a2d4021ad1a6c5bd2573e85061e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:21 +0000
Subject: [PATCH 72/88] fix: reading standard input a second time crashed

---
 lib/fixedread.c  | 4 ++++
 lib/libcsvread.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/lib/fixedread.c b/lib/fixedread.c
index 3b988b9..3b8af47 100644
--- a/lib/fixedread.c
+++ b/lib/fixedread.c
@@ -166,6 +166,10 @@ int fixedread_reset(reader* reader)
 
 int fixedread_reset_stdin(reader* reader)
 {
+	if (reader->random_access_filename == NULL) {
+		fputs("cannot read standard input twice\n", stderr);
+		return FQL_FAIL;
+	}
 	try_(reader_stop_file_backed_input(reader));
 	reader->rec_id = 0;
 	reader->eof = false;
diff --git a/lib/libcsvread.c b/lib/libcsvread.c
index a623341..7beb15d 100644
--- a/lib/libcsvread.c
+++ b/lib/libcsvread.c
@@ -109,6 +109,10 @@ int libcsv_reset(reader* self)
 
 int libcsv_reset_stdin(reader* self)
 {
+	if (self->random_access_filename == NULL) {
+		fputs("cannot read standard input twice\n", stderr);
+		return FQL_FAIL;
+	}
 	try_(reader_stop_file_backed_input(self));
 	self->reset__ = libcsv_reset;
 	self->rec_id = 0;
-- 
2.43.0


From 48fc9998a251ce24d7a23fca721e23a23d42ea10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:05 +0000
Subject: [PATCH 73/88] fix: DELETE or UPDATE of a table that is no source
 crashed

---
 lib/operation.c | 22 ++++++++++++++++++++++
 lib/operation.h |  1 +
 lib/schema.c    |  1 +
 3 files changed, 24 insertions(+)

diff --git a/lib/operation.c b/lib/operation.c
index 24d142a..0cb4ca2 100644
--- a/lib/operation.c
+++ b/lib/operation.c
@@ -174,6 +174,28 @@ void op_match_table_alias(enum fql_operation* self, table* check_table)
 	}
 }
 
+/* DELETE and UPDATE must refer to one of their sources. */
+int op_verify_table(enum fql_operation* self, const vec* sources)
+{
+	unsigned table_idx = 0;
+	switch (*self) {
+	case FQL_DELETE:
+		table_idx = ((fqldelete*)self)->table_idx;
+		break;
+	case FQL_UPDATE:
+		table_idx = ((fqlupdate*)self)->table_idx;
+		break;
+	default:
+		return FQL_GOOD;
+	}
+
+	if (table_idx >= sources->size) {
+		fprintf(stderr, "Table not resolved: %s\n", op_get_table_name(self));
+		return FQL_FAIL;
+	}
+	return FQL_GOOD;
+}
+
 void op_set_table_name(enum fql_operation* self, const char* table_name)
 {
 	schema* op_schema = op_get_schema(self);
diff --git a/lib/operation.h b/lib/operation.h
index 99af8a9..46be9a3 100644
--- a/lib/operation.h
+++ b/lib/operation.h
@@ -16,6 +16,7 @@ struct vec* op_get_expressions(enum fql_operation*);
 struct vec* op_get_additional_exprs(enum fql_operation*);
 struct schema* op_get_schema(enum fql_operation*);
 const char* op_get_table_name(enum fql_operation*);
+int op_verify_table(enum fql_operation*, const struct vec* sources);
 void op_match_table_alias(enum fql_operation*, struct table*);
 void op_set_table(enum fql_operation*, struct table*);
 void op_set_table_name(enum fql_operation*, const char*);
diff --git a/lib/schema.c b/lib/schema.c
index 3edbac8..d4b8122 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -1340,6 +1340,7 @@ int _resolve_query(struct fqlhandle* fql, query* aquery, enum io union_io)
 	 */
 	unsigned i = 0;
 	vec* sources = aquery->sources;
+	try_(op_verify_table(aquery->op, sources));
 	for (; i < sources->size; ++i) {
 		table* table = vec_at(aquery->sources, i);
 		try_(_resolve_source(fql, aquery, table, i));
-- 
2.43.0


From dd9bbb5979f7968cc56ac0eeb3a2298b431b6e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:14 +0000
Subject: [PATCH 74/88] fix: __ROWNUM of a later SELECT of a UNION was always 0

---
 lib/fqlselect.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 78072d4..119d66b 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -327,6 +327,10 @@ int fqlselect_reset(fqlselect* self)
 		self->_union_node = self->union_selects;
 	}
 	self->current_select = self;
+	node* it = self->union_selects;
+	for (; it; it = it->next) {
+		((fqlselect*)it->data)->rownum = 0;
+	}
 	return FQL_GOOD;
 }
 
@@ -392,9 +396,18 @@ void fqlselect_preop(fqlselect* self, query* query)
 	}
 }
 
-int _select_record(fqlselect* self, node* rg)
+/* each SELECT of a union counts its own rows as well */
+void _count_row(fqlselect* self)
 {
 	++self->rownum;
+	if (self->current_select != self) {
+		++self->current_select->rownum;
+	}
+}
+
+int _select_record(fqlselect* self, node* rg)
+{
+	_count_row(self);
 	writer* writer = self->writer;
 	vec* expr_vec = self->current_select->schema->expressions;
 
@@ -418,7 +431,7 @@ int _select_record(fqlselect* self, node* rg)
 
 int _select_record_api(fqlselect* self, node* rg)
 {
-	++self->rownum;
+	_count_row(self);
 	vec* expr_vec = self->current_select->schema->expressions;
 
 	expression** exprs = vec_begin(expr_vec);
@@ -463,7 +476,7 @@ int _select_record_api(fqlselect* self, node* rg)
 
 int _select_record_order_api(fqlselect* self, node* rg)
 {
-	++self->rownum;
+	_count_row(self);
 	FILE* order_input = writer_get_file(self->writer);
 
 	vec* expr_vec = self->current_select->schema->expressions;
@@ -516,7 +529,7 @@ int _select_record_order_api(fqlselect* self, node* rg)
 
 int _select_record_to_list(fqlselect* self, node* rg)
 {
-	++self->rownum;
+	_count_row(self);
 	inlist* inlist = self->in_data;
 	set* list = inlist->list_data;
 
@@ -555,7 +568,7 @@ int _select_record_to_list(fqlselect* self, node* rg)
 
 int _select_record_to_const(fqlselect* self, node* rg)
 {
-	++self->rownum;
+	_count_row(self);
 	if (self->rownum > 1) {
 		fputs("subquery returned more than 1 value as expression\n", stderr);
 		return FQL_FAIL;
@@ -606,6 +619,6 @@ int _select_record_to_const(fqlselect* self, node* rg)
  */
 int _select_subquery(fqlselect* self, node* rg)
 {
-	++self->rownum;
+	_count_row(self);
 	return FQL_GOOD;
 }
-- 
2.43.0


From e493af2776bb779baa9846a79a420fd698356b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:29 +0000
Subject: [PATCH 75/88] fix: __ROWNUM beside GROUP BY was refused

---
 lib/schema.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/schema.c b/lib/schema.c
index d4b8122..a02b92a 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -1108,6 +1108,7 @@ int _op_find_group(compositemap* expr_map, expression* expr, vec* key, bool loos
 	case EXPR_NULL:
 	case EXPR_VARIABLE:
 	case EXPR_SUBQUERY:
+	case EXPR_ROW_NUMBER:
 		return FQL_GOOD;
 	case EXPR_REFERENCE:
 		expr->field_type = expr->data_source->field_type;
-- 
2.43.0


From 3caaad602c6571256ea427bbd85fa7de6aca9182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:29 +0000
Subject: [PATCH 76/88] fix: whole records of several tables were one grouping,
 and read from the first

---
 lib/expression.c | 13 ++++++++++---
 lib/schema.c     |  7 +++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index 5738122..a2a3a4c 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -422,7 +422,9 @@ int expression_get_int(long* ret, expression* self, node* rg)
 	case EXPR_COLUMN_NAME: {
 		expression* src_expr = self->data_source;
 		record* rec = NULL;
-		if (self->subquery_src_idx == -1) {
+		if (self->expr == EXPR_GROUPING) { /* the record of the group */
+			rec = record_at(rg, self->src_idx);
+		} else if (self->subquery_src_idx == -1) {
 			rec = record_at(rg, src_expr->src_idx);
 		} else {
 			rec = record_at(rg, self->subquery_src_idx);
@@ -499,7 +501,9 @@ int expression_get_float(double* ret, expression* self, node* rg)
 	case EXPR_COLUMN_NAME: {
 		expression* src_expr = self->data_source;
 		record* rec = NULL;
-		if (self->subquery_src_idx == -1) {
+		if (self->expr == EXPR_GROUPING) { /* the record of the group */
+			rec = record_at(rg, self->src_idx);
+		} else if (self->subquery_src_idx == -1) {
 			rec = record_at(rg, src_expr->src_idx);
 		} else {
 			rec = record_at(rg, self->subquery_src_idx);
@@ -574,7 +578,10 @@ int expression_get_stringview(stringview* ret, expression* self, node* rg)
 	case EXPR_GROUPING:
 	case EXPR_AGGREGATE: {
 		expression* src_expr = self->data_source;
-		record* rec = record_at(rg, src_expr->src_idx);
+		record* rec = record_at(rg,
+		                        (self->expr == EXPR_GROUPING)
+		                                ? self->src_idx
+		                                : src_expr->src_idx);
 		if (_is_count_of_nothing(src_expr, rec)) {
 			ret->data = _null_agg_numeric;
 			ret->len = 1;
diff --git a/lib/schema.c b/lib/schema.c
index a02b92a..bbc4ccf 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -912,6 +912,7 @@ enum _expr_type {
 	MAP_CONST_FLOAT,
 	MAP_CONST_STRING,
 	MAP_COLUMN,
+	MAP_RECORD,
 	MAP_ASTERISK,
 	MAP_AGGREGATE,
 	MAP_SUBQUERY,
@@ -978,6 +979,7 @@ int _map_expression(vec* key, expression* expr)
 	static const enum _expr_type _c_float = MAP_CONST_FLOAT;
 	static const enum _expr_type _c_string = MAP_CONST_STRING;
 	static const enum _expr_type _expr = MAP_COLUMN;
+	static const enum _expr_type _rec = MAP_RECORD;
 	static const enum _expr_type _expr_aster = MAP_ASTERISK;
 	static const enum _expr_type _agg = MAP_AGGREGATE;
 	static const enum _expr_type _sub = MAP_SUBQUERY;
@@ -1014,6 +1016,11 @@ int _map_expression(vec* key, expression* expr)
 
 		break;
 	case EXPR_FULL_RECORD:
+		type_sv.data = (void*)&_rec;
+		vec_push_back(key, &type_sv);
+		stringview_nset(&val_sv, &expr->src_idx, sizeof(expr->src_idx));
+		vec_push_back(key, &val_sv);
+		break;
 	case EXPR_COLUMN_NAME:
 		type_sv.data = (void*)&_expr;
 		vec_push_back(key, &type_sv);
-- 
2.43.0


From 322857c8e08cd6f8ca2a0b155d4b7b1770f8dd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:46 +0000
Subject: [PATCH 77/88] fix: reading a constant changed its type for good

---
 lib/expression.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index a2a3a4c..fd0490a 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -460,9 +460,13 @@ int expression_get_int(long* ret, expression* self, node* rg)
 		try_(field_to_int(ret, &new_field, &new_field_type));
 		break;
 	}
-	case EXPR_CONST:
-		try_(field_to_int(ret, &self->field, &self->field_type));
+	case EXPR_CONST: {
+		/* the constant itself keeps its type */
+		union field new_field = self->field;
+		enum field_type new_field_type = self->field_type;
+		try_(field_to_int(ret, &new_field, &new_field_type));
 		break;
+	}
 	default:
 		fprintf(stderr, "expr_get_int: Unexpected expression\n");
 		return FQL_FAIL;
@@ -539,9 +543,13 @@ int expression_get_float(double* ret, expression* self, node* rg)
 		try_(field_to_float(ret, &new_field, &new_field_type));
 		break;
 	}
-	case EXPR_CONST:
-		try_(field_to_float(ret, &self->field, &self->field_type));
+	case EXPR_CONST: {
+		/* the constant itself keeps its type */
+		union field new_field = self->field;
+		enum field_type new_field_type = self->field_type;
+		try_(field_to_float(ret, &new_field, &new_field_type));
 		break;
+	}
 	default:
 		fprintf(stderr, "expr_get_float: Unexpected expression\n");
 		return FQL_FAIL;
@@ -649,12 +657,13 @@ int expression_get_stringview(stringview* ret, expression* self, node* rg)
 		try_(field_to_stringview(ret, &self->buf, &new_field, &new_field_type));
 		break;
 	}
-	case EXPR_CONST:
-		try_(field_to_stringview(ret,
-		                         &self->buf,
-		                         &self->field,
-		                         &self->field_type));
+	case EXPR_CONST: {
+		/* the constant itself keeps its type */
+		union field new_field = self->field;
+		enum field_type new_field_type = self->field_type;
+		try_(field_to_stringview(ret, &self->buf, &new_field, &new_field_type));
 		break;
+	}
 	default:
 		fprintf(stderr, "expr_get_stringview: Unexpected expression\n");
 		return FQL_FAIL;
-- 
2.43.0


From 86062a9d82eb8dc4baf904e5ebcf0f2626f445f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:46 +0000
Subject: [PATCH 78/88] fix: API calls in another order than make, count, step
 lost rows, ran the wrong statement or crashed

---
 lib/fqlselect.c | 22 +++++++++-----
 lib/fqlselect.h |  1 +
 lib/libfql.c    | 77 ++++++++++++++++++++++++++++++-------------------
 lib/order.c     |  7 +++++
 lib/order.h     |  1 +
 5 files changed, 71 insertions(+), 37 deletions(-)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 119d66b..beeba4b 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -156,23 +156,16 @@ int fqlselect_resolve_final_types(fqlselect* self)
 int fqlselect_connect_api(query* query, vec* api)
 {
 	fqlselect* self = query->op;
-	if (query->orderby == NULL) {
-		self->select__ = &_select_record_api;
-	} else {
-		self->select__ = &_select_record_order_api;
-	}
 	op_expand_asterisks(query, true);
 
 	vec* exprs = self->schema->expressions;
-	vec_resize(api, exprs->size);
-
 	expression** it = vec_begin(exprs);
 	unsigned i = 0;
 	for (; i < exprs->size; ++i) {
 		if ((*it)->subquery != NULL) {
 			try_(fqlselect_resolve_type_from_subquery(*it));
 		}
-		struct fql_field* field = vec_at(api, i);
+		struct fql_field* field = vec_add_one(api);
 		field->is_null = false;
 		switch (it[i]->field_type) {
 		case FIELD_INT:
@@ -186,15 +179,28 @@ int fqlselect_connect_api(query* query, vec* api)
 			field->_in = new_(string);
 			break;
 		default:
+			field->type = FQL_UNDEFINED;
 			fputs("Undefined API type\n", stderr);
 			return FQL_FAIL;
 		}
 	}
 
+	if (query->orderby == NULL) {
+		self->select__ = &_select_record_api;
+	} else {
+		self->select__ = &_select_record_order_api;
+	}
 	self->api = api;
 	return FQL_GOOD;
 }
 
+void fqlselect_disconnect_api(query* query)
+{
+	fqlselect* self = query->op;
+	self->select__ = &_select_record;
+	self->api = NULL;
+}
+
 void fqlselect_apply_process(query* query, plan* plan, bool is_subquery_source)
 {
 	fqlselect* self = query->op;
diff --git a/lib/fqlselect.h b/lib/fqlselect.h
index 05fc5ca..bf26d06 100644
--- a/lib/fqlselect.h
+++ b/lib/fqlselect.h
@@ -40,6 +40,7 @@ void fqlselect_destroy(struct fqlselect*);
 unsigned fqlselect_get_field_count(struct fqlselect*, const struct vec*);
 void fqlselect_add_expression(struct fqlselect*, struct expression*);
 int fqlselect_connect_api(struct query*, struct vec*);
+void fqlselect_disconnect_api(struct query*);
 void fqlselect_apply_process(struct query*, struct fqlplan*, bool);
 void fqlselect_apply_expression_alias(struct fqlselect*, const char* alias);
 int fqlselect_set_as_inlist(struct fqlselect*, struct inlist*);
diff --git a/lib/libfql.c b/lib/libfql.c
index c7a75b9..d1fa772 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -157,8 +157,21 @@ int libfql_set_variable_limit(fqlhandle* fql, const char* limit_str)
 	return FQL_GOOD;
 }
 
+void _free_api_strings(vec* api)
+{
+	struct fql_field* it = vec_begin(api);
+	for (; it != vec_end(api); ++it) {
+		if (it->type == FQL_STRING) {
+			delete_(string, it->_in);
+		}
+	}
+}
+
 int fql_reset(fqlhandle* fql)
 {
+	_free_api_strings(fql->api_vec);
+	vec_clear(fql->api_vec);
+
 	query** it = vec_begin(fql->query_vec);
 	for (; it != vec_end(fql->query_vec); ++it) {
 		delete_(query, *it);
@@ -181,16 +194,21 @@ int fql_reset(fqlhandle* fql)
 	return FQL_GOOD;
 }
 
-int _api_connect(fqlhandle* fql)
+int _api_check(query* query)
 {
-	query** query = vec_at(fql->query_vec, fql->query_idx);
-
-	enum fql_operation operation = *(enum fql_operation*)(*query)->op;
-	if (operation != FQL_SELECT || (*query)->into_table_name != NULL) {
+	enum fql_operation operation = *(enum fql_operation*)query->op;
+	if (operation != FQL_SELECT || query->into_table_name != NULL) {
 		fputs("can only step through SELECT queries\n", stderr);
 		return FQL_FAIL;
 	}
+	return FQL_GOOD;
+}
+
+int _api_connect(fqlhandle* fql)
+{
+	query** query = vec_at(fql->query_vec, fql->query_idx);
 
+	try_(_api_check(*query));
 	try_(fqlselect_connect_api(*query, fql->api_vec));
 	if ((*query)->orderby != NULL) {
 		order_connect_api(*query, fql->api_vec);
@@ -484,14 +502,6 @@ int fql_import_variable(fqlhandle* fql, const char* assign_expression)
 /**
  * Status
  */
-int fql_field_count(fqlhandle* fql)
-{
-	if (!vec_empty(fql->query_vec) && vec_empty(fql->api_vec)) {
-		try_(_api_connect(fql));
-	}
-	return fql->api_vec->size;
-}
-
 query* _get_active_query(fqlhandle* fql)
 {
 	if (vec_empty(fql->query_vec) || fql->query_idx >= fql->query_vec->size) {
@@ -502,6 +512,16 @@ query* _get_active_query(fqlhandle* fql)
 	return *active_query;
 }
 
+int fql_field_count(fqlhandle* fql)
+{
+	query* active_query = _get_active_query(fql);
+	if (active_query == NULL) {
+		return 0;
+	}
+	try_(_api_check(active_query));
+	return fqlselect_get_field_count(active_query->op, active_query->sources);
+}
+
 const char* fql_get_operation_text(struct fqlhandle* fql)
 {
 	query* active_query = _get_active_query(fql);
@@ -639,28 +659,23 @@ int fql_make_plans(fqlhandle* fql, const char* query_str)
 	return fql->query_vec->size;
 }
 
-void _free_api_strings(vec* api)
-{
-	struct fql_field* it = vec_begin(api);
-	for (; it != vec_end(api); ++it) {
-		if (it->type == FQL_STRING) {
-			delete_(string, it->_in);
-		}
-	}
-}
-
 int fql_step(fqlhandle* fql, struct fql_field** fields)
 {
-	query** query = vec_at(fql->query_vec, fql->query_idx);
-	struct fqlplan* plan = (*query)->plan;
+	query* query = _get_active_query(fql);
+	if (query == NULL) {
+		return 0;
+	}
+	struct fqlplan* plan = query->plan;
 	int ret = 0;
 	if (!plan->has_stepped) {
-		if (vec_empty(fql->api_vec)) {
-			_api_connect(fql);
+		if (_api_connect(fql) == FQL_FAIL) {
+			_free_api_strings(fql->api_vec);
+			vec_clear(fql->api_vec);
+			return FQL_FAIL;
 		}
 		plan->has_stepped = true;
 
-		ret = query_prepare(*query);
+		ret = query_prepare(query);
 		if (ret == FQL_FAIL) {
 			goto _step_fail_break;
 		}
@@ -685,10 +700,14 @@ _step_fail_break:
 
 	plan->has_stepped = false;
 
+	fqlselect_disconnect_api(query);
+	if (query->orderby != NULL) {
+		order_disconnect_api(query);
+	}
 	_free_api_strings(fql->api_vec);
 	vec_clear(fql->api_vec);
 
-	fql->query_idx = (*query)->next_idx;
+	fql->query_idx = query->next_idx;
 
 	if (ret == FQL_FAIL || fql->query_idx >= fql->query_vec->size) {
 		fql_reset(fql);
diff --git a/lib/order.c b/lib/order.c
index a01da3d..71e3a23 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -267,6 +267,13 @@ void order_connect_api(query* query, vec* api_vec)
 	self->api = api_vec;
 }
 
+void order_disconnect_api(query* query)
+{
+	order* self = query->orderby;
+	self->select__ = &_order_select;
+	self->api = NULL;
+}
+
 int order_add_expression(order* self, expression* expr)
 {
 	if (self == NULL) {
diff --git a/lib/order.h b/lib/order.h
index a7aa1ba..ac1281e 100644
--- a/lib/order.h
+++ b/lib/order.h
@@ -49,6 +49,7 @@ int order_add_expression(struct order*, struct expression*);
 int order_init_io(struct order*, const char* in, const char* out);
 void order_cat_description(struct order*, struct process*);
 void order_connect_api(struct query*, struct vec*);
+void order_disconnect_api(struct query*);
 int order_preresolve_expressions(struct order*, struct fqlselect*, const struct vec*);
 int order_add_record(struct order*, struct node*);
 int order_sort(struct order*);
-- 
2.43.0


From 3380cdbbf37d48d11a7eab99782e180e7da2d15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:42 +0000
Subject: [PATCH 79/88] fix: an imported value kept the blank of `name = value'

---
 lib/libfql.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/libfql.c b/lib/libfql.c
index d1fa772..3c9cc5b 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -471,6 +471,8 @@ int fql_import_variable(fqlhandle* fql, const char* assign_expression)
 	if (*value) {
 		++value;
 	}
+	for (; isspace(*value); ++value)
+		;
 
 	*iter = '\0';
 
-- 
2.43.0


From 05a53ad6e32713fed93afc12b139dec297c1e24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:42 +0000
Subject: [PATCH 80/88] fix: ORDER BY in a subquery of FROM lost every row

---
 lib/schema.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/schema.c b/lib/schema.c
index bbc4ccf..f96ba21 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -572,6 +572,11 @@ int _resolve_source(struct fqlhandle* fql, query* query, table* table, int src_i
 			fputs("subquery sources require an alias\n", stderr);
 			return FQL_FAIL;
 		}
+		/* records go from one query to the other as they come */
+		if (table->subquery->orderby != NULL) {
+			fputs("subquery sources cannot have an ORDER BY\n", stderr);
+			return FQL_FAIL;
+		}
 		try_(_resolve_query(fql, table->subquery, IO_UNDEFINED));
 		fqlselect* select = table->subquery->op;
 		table->schema = select->schema;
-- 
2.43.0


From 105159d013d5da8071b4e86e72db7de291de589d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:00 +0000
Subject: [PATCH 81/88] fix: JOIN did not match -0 with 0 as = does

---
 lib/fqlprocesses.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 78342ef..1bfaaa7 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -377,6 +377,7 @@ enum proc_return _hash_join_right_side(process* proc, table* table, fifo* in_rig
 			break;
 		case FIELD_FLOAT:
 			ret = try_(expression_get_float(&float_hold, hj->right_expr, *rg_iter));
+			float_hold += 0.0; /* -0 is equal to 0 */
 			stringview_nset(&sv, &float_hold, sizeof(float_hold));
 			break;
 		case FIELD_STRING:
@@ -418,6 +419,7 @@ long _hash_join_left_side(process* proc, table* table, node* left_rg)
 			break;
 		case FIELD_FLOAT:
 			ret = try_(expression_get_float(&float_hold, hj->left_expr, left_rg));
+			float_hold += 0.0; /* -0 is equal to 0 */
 			stringview_nset(&sv, &float_hold, sizeof(float_hold));
 			break;
 		case FIELD_STRING:
-- 
2.43.0


From 340e130d12d8f356bdb81ad00847b4c2d89fadcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 82/88] fix: the name of every table was leaked

---
 lib/query.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/query.c b/lib/query.c
index 0da1676..c12c437 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -606,6 +606,7 @@ int query_add_source(query* self,
 	                alias,
 	                self->sources->size - 1,
 	                self->join);
+	string_destroy(&table_name);
 
 	if (is_variable) {
 		vec_push_back(self->variable_tables, &new_table->idx);
-- 
2.43.0


From 343b8d028f2c3e6abf8fa488483bff45fecf9069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 83/88] fix: plan without a record pool, and the list of UNION,
 were leaked

---
 lib/fqlplan.c   | 1 +
 lib/fqlselect.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 582f7ea..1a092af 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -72,6 +72,7 @@ void plan_destroy(void* generic_plan)
 	delete_if_exists_(vec, self->execution_vector);
 
 	if (self->_root_data == NULL) {
+		delete_if_exists_(vec, self->root_fifo_vec);
 		return;
 	}
 
diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index beeba4b..029ac1d 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -47,6 +47,7 @@ void fqlselect_destroy(fqlselect* self)
 
 	delete_if_exists_(writer, self->writer);
 	delete_(schema, self->schema);
+	node_free(&self->union_selects);
 	if (self->header_as_exprs == NULL) {
 		return;
 	}
-- 
2.43.0


From e08cdd9760736c0e745f278e68a50f3c5181470e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:28 +0000
Subject: [PATCH 84/88] fix: the row count guessed for a join leaked a record
 and forgot the width of an empty table

---
 lib/table.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/table.c b/lib/table.c
index cfbb408..35ab25c 100644
--- a/lib/table.c
+++ b/lib/table.c
@@ -179,14 +179,14 @@ size_t _guess_row_count(table* self)
 		}
 	}
 
-	if (i == 0) {
-		return HASH_JOIN_MIN_SIZE;
-	}
-
 	delete_(record, rg.data);
 
 	reader->max_idx = max_expr_store;
 
+	if (i == 0) {
+		return HASH_JOIN_MIN_SIZE;
+	}
+
 	double avg_len = total_length / (double)i - 1;
 	if (avg_len < 1)
 		avg_len = 1;
-- 
2.43.0


From 9ce4d66138192d457f6b55621247b42672715cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:28 +0000
Subject: [PATCH 85/88] fix: the list of UNION was freed only with a header

---
 lib/fqlselect.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 029ac1d..9646a95 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -57,8 +57,6 @@ void fqlselect_destroy(fqlselect* self)
 		delete_(expression, *it);
 	}
 	delete_(vec, self->header_as_exprs);
-
-	node_free(&self->union_selects);
 }
 
 unsigned fqlselect_get_field_count(fqlselect* self, const vec* sources)
-- 
2.43.0


From 7c516893d183f3b5ddfb20f7106b3a4aef061b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:33 +0000
Subject: [PATCH 86/88] fix: GROUP BY and DISTINCT kept -0 apart from 0, which
 = does not

---
 lib/group.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/group.c b/lib/group.c
index ead8af5..a077b6e 100644
--- a/lib/group.c
+++ b/lib/group.c
@@ -143,6 +143,7 @@ int group_record(group* self, node* rg)
 		case FIELD_FLOAT: {
 			double num_f = 0;
 			try_(expression_get_float(&num_f, exprs[i], rg));
+			num_f += 0.0; /* -0 is equal to 0 */
 			flex_push_back_str_float(&self->group_data, num_f);
 		}
 		default:;
-- 
2.43.0


From 16a383eb3d89f5c6f07ededad7689aab432fbdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:51 +0000
Subject: [PATCH 87/88] fix: strict mode let UPDATE choose among columns of one
 name

---
 lib/fqlupdate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fqlupdate.c b/lib/fqlupdate.c
index d47eb17..8467524 100644
--- a/lib/fqlupdate.c
+++ b/lib/fqlupdate.c
@@ -212,10 +212,11 @@ int fqlupdate_resolve_additional(fqlupdate* self, query* query)
 			return FQL_FAIL;
 		}
 
-		if (matches->size > 1) {
+		if (matches->size > 1 && query->fqlref->props.strictness) {
 			fprintf(stderr,
 			        "ambiguous column name `%s'\n",
 			        string_c_str(&(*update_col)->name));
+			return FQL_FAIL;
 		}
 
 		expression** match_schema_expr = vec_begin(matches);
-- 
2.43.0


From 241aeb131ff025fced6a3e6de9974c781392881f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:34 +0000
Subject: [PATCH 88/88] fix: an aggregate of no rows was lost or made up beside
 ORDER BY, HAVING, GROUP BY, TOP, UNION ALL and subqueries

Its row was forced in SELECT whenever no row arrived and only on the
main SELECT of a query.  The group itself now has one (empty) group
when there are no keys, and any aggregate but COUNT of nothing is NULL.
---
 lib/expression.c   |  6 ++++++
 lib/fqlprocesses.c |  6 ------
 lib/fqlselect.c    | 45 ---------------------------------------------
 lib/fqlselect.h    |  2 --
 lib/group.c        | 28 +++++++++++++++++++++-------
 lib/operation.c    |  1 -
 lib/query.c        |  6 +-----
 7 files changed, 28 insertions(+), 66 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index fd0490a..bb34471 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -616,6 +616,12 @@ int expression_get_stringview(stringview* ret, expression* self, node* rg)
 			return FQL_GOOD;
 		}
 		stringview* sv = vec_at(&rec->fields, src_expr->index);
+		if (sv->data == NULL) { /* aggregate of nothing */
+			string_clear(&self->buf);
+			ret->data = self->buf.data;
+			ret->len = 0;
+			return FQL_NULL;
+		}
 		ret->data = sv->data;
 		ret->len = sv->len;
 		return FQL_GOOD;
diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 1bfaaa7..0af4bd7 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -864,12 +864,6 @@ enum proc_return fql_select(process* proc)
 	}
 
 	if (!proc->wait_for_in0) {
-		if (select->must_run_once && select->rows_affected == 0) {
-			try_(select->select__(select, NULL));
-			++select->rows_affected;
-			++proc->rows_affected;
-			return PROC_RETURN_RUNNING;
-		}
 		/* subquery reads expect union schema to
 		 * be "in sync" with the subquery select's
 		 * current schema
diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 9646a95..701e6ef 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -31,7 +31,6 @@ fqlselect* fqlselect_construct(fqlselect* self)
 	        .schema = new_(schema),
 	        .select__ = &_select_record,
 	        .top_count = -1,
-	        .must_run_once = true,
 	};
 
 	self->current_select = self;
@@ -81,15 +80,6 @@ unsigned fqlselect_get_field_count(fqlselect* self, const vec* sources)
 void fqlselect_add_expression(fqlselect* self, expression* expr)
 {
 	schema_add_expression(self->schema, expr, 0);
-	switch (expr->expr) {
-	case EXPR_ROW_NUMBER:
-	case EXPR_AGGREGATE:
-		break;
-	default:
-		if (!expression_is_const(expr)) {
-			self->must_run_once = false;
-		}
-	}
 }
 
 int fqlselect_resolve_type_from_subquery(expression* expr)
@@ -281,41 +271,6 @@ int fqlselect_next_union(fqlselect* self)
 	return 1;
 }
 
-/* The "must_run_once" flag at this point means that the
- * conditions are correct to force a SELECT under the
- * assumption that there may be an unreached aggregate in
- * the SELECT list:
- *   SELECT COUNT(*)
- *   FROM T1
- *   WHERE 1=0
- *
- * Even though no records will make it to the SELECT,
- * we must still report our count of 0. If this condition
- * is true, then we must check that there is indeed an
- * aggregate function to warrant forcing a SELECT. We
- * wouldn't want "must_run_once" set true for a query like
- *   SELECT 1
- *   WHERE 1=0
- *
- * TODO: Verify this behavior when UNION is involved
- */
-void fqlselect_verify_must_run(fqlselect* self)
-{
-	if (self->must_run_once) {
-		expression** it = vec_begin(self->schema->expressions);
-		bool agg_found = false;
-		for (; it != vec_end(self->schema->expressions); ++it) {
-			if ((*it)->expr == EXPR_AGGREGATE) {
-				agg_found = true;
-				break;
-			}
-		}
-		if (!agg_found) {
-			self->must_run_once = false;
-		}
-	}
-}
-
 int fqlselect_reset(fqlselect* self)
 {
 	self->offset = 0;
diff --git a/lib/fqlselect.h b/lib/fqlselect.h
index bf26d06..5e1d0ad 100644
--- a/lib/fqlselect.h
+++ b/lib/fqlselect.h
@@ -30,7 +30,6 @@ struct fqlselect {
 	size_t top_count;
 	unsigned rownum;
 	bool is_const;
-	bool must_run_once;
 };
 typedef struct fqlselect fqlselect;
 
@@ -46,7 +45,6 @@ void fqlselect_apply_expression_alias(struct fqlselect*, const char* alias);
 int fqlselect_set_as_inlist(struct fqlselect*, struct inlist*);
 int fqlselect_resolve_type_from_subquery(struct expression*);
 int fqlselect_resolve_final_types(struct fqlselect*);
-void fqlselect_verify_must_run(struct fqlselect*);
 int fqlselect_next_union(struct fqlselect*);
 int fqlselect_reset(struct fqlselect*);
 bool fqlselect_has_header(const struct schema*, const struct fqlhandle*);
diff --git a/lib/group.c b/lib/group.c
index a077b6e..d58feff 100644
--- a/lib/group.c
+++ b/lib/group.c
@@ -85,7 +85,7 @@ void group_cat_description(group* self, process* proc)
 	}
 }
 
-int _add_agg_result(group* self, node* rg)
+void _add_empty_agg_result(group* self)
 {
 	aggregate** it = vec_begin(&self->aggregates);
 	for (; it != vec_end(&self->aggregates); ++it) {
@@ -94,12 +94,7 @@ int _add_agg_result(group* self, node* rg)
 		if ((*it)->data_type == FIELD_STRING) {
 			string_construct(&result->data.s);
 		}
-		/* NULL is not counted */
-		if (try_((*it)->call__(*it, self, result, rg)) != FQL_NULL) {
-			++result->qty;
-		}
 	}
-	return FQL_GOOD;
 }
 
 int _update_agg_result(group* self, node* rg, unsigned idx)
@@ -159,7 +154,8 @@ int group_record(group* self, node* rg)
 	int ret = 0;
 	if (idx_ptr == NULL) {
 		compositemap_set(&self->val_map, &self->_composite, &group_count);
-		try_(_add_agg_result(self, rg));
+		_add_empty_agg_result(self);
+		try_(_update_agg_result(self, rg, group_count));
 		ret = 1;
 	} else {
 		flex_resize(&self->group_data, org_size);
@@ -176,6 +172,12 @@ void _read_aggregate(expression* agg_expr, string* raw, stringview* sv, size_t i
 {
 	aggregate* agg = agg_expr->field.agg;
 	struct aggresult* result = vec_at(&agg->results, idx);
+
+	/* nothing to aggregate is NULL, but a count of it is 0 */
+	if (result->qty == 0 && agg->agg_type != AGG_COUNT) {
+		*sv = (stringview) {0};
+		return;
+	}
 	switch (agg->data_type) {
 	case FIELD_INT:
 		string_sprintf(raw, "%ld", result->data.i);
@@ -193,6 +195,18 @@ void _read_aggregate(expression* agg_expr, string* raw, stringview* sv, size_t i
 
 int group_dump_record(group* self, record* rec)
 {
+	/* Without keys, there is always one group:
+	 *   SELECT COUNT(*)
+	 *   FROM T1
+	 *   WHERE 1=0
+	 */
+	if (vec_empty(&self->_composite) && !vec_empty(&self->aggregates)
+	    && self->val_map.values->size == 0) {
+		unsigned group_idx = 0;
+		compositemap_set(&self->val_map, &self->_composite, &group_idx);
+		_add_empty_agg_result(self);
+	}
+
 	if (self->_dump_idx >= self->val_map.values->size) {
 		return -1;
 	}
diff --git a/lib/operation.c b/lib/operation.c
index 0cb4ca2..6c66dee 100644
--- a/lib/operation.c
+++ b/lib/operation.c
@@ -434,7 +434,6 @@ int op_writer_init(struct query* query)
 				group_add_expression(query->distinct, *it);
 			}
 		}
-		fqlselect_verify_must_run((fqlselect*)self);
 		return FQL_GOOD;
 	}
 
diff --git a/lib/query.c b/lib/query.c
index c12c437..1936bf6 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -1001,13 +1001,9 @@ void _assign_logic(query* self, logicgroup* lg)
 	case LOGIC_WHERE:
 		self->where = lg;
 		break;
-	case LOGIC_HAVING: {
-		/* Having allows us to assume select */
-		fqlselect* select = self->op;
-		select->must_run_once = false;
+	case LOGIC_HAVING:
 		self->having = lg;
 		break;
-	}
 	case LOGIC_CASE:
 		switchcase_add_logicgroup(self->switchcase_stack->data, lg);
 		break;
-- 
2.43.0

