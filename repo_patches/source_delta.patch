From ae88201f652bc632a71dd7d4c0ee079d0795316f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:28 +0000
Subject: [PATCH 01/47] fix: vector growth survives a failed realloc, an
 initial size of 0 and mixed appends

The maximum was doubled before realloc had succeeded, so a later append wrote
past the old block; an initial size of 0 never grew; vector_append_ptr grew
without the spare byte vector_append terminates items in.
---
 src/vector.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index 6153dda..935d961 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -27,10 +27,11 @@ inline int vector_append(vector *vec, const void *item, const size_t item_size)
 		return 0;
 
 	if (vec->count == vec->max_size) {
-		vec->max_size *= 2;
-		void *array = realloc(vec->items, vec->max_size * vec->item_size + 1);
+		const size_t new_max = vec->max_size ? vec->max_size * 2 : 1;
+		void *array = realloc(vec->items, new_max * vec->item_size + 1);
 		if (!array)
 			return 0;
+		vec->max_size = new_max;
 		vec->items = array;
 	}
 
@@ -53,10 +54,11 @@ inline int vector_append_ptr(vector *vec, const void *pointer) {
 		return 0;
 
 	if (vec->count == vec->max_size) {
-		vec->max_size *= 2;
-		void *array = realloc(vec->items, (vec->max_size * vec->item_size));
+		const size_t new_max = vec->max_size ? vec->max_size * 2 : 1;
+		void *array = realloc(vec->items, new_max * vec->item_size + 1);
 		if (!array)
 			return 0;
+		vec->max_size = new_max;
 		vec->items = array;
 	}
 
-- 
2.43.0


From 18a99ea973ce3f233fa13ae376fa3448b08cd00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:28 +0000
Subject: [PATCH 02/47] fix: vector_new reports allocation failure instead of
 writing through NULL

---
 src/vector.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vector.c b/src/vector.c
index 935d961..f27e248 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -14,6 +14,11 @@ vector *vector_new(const size_t item_size, const size_t initial_element_count) {
 	};
 
 	vector *to_return = calloc(1, sizeof(vector));
+	if (to_return == NULL || _vec.items == NULL) {
+		free(_vec.items);
+		free(to_return);
+		return NULL;
+	}
 	memcpy(to_return, &_vec, sizeof(vector));
 
 	return to_return;
-- 
2.43.0


From 989551db454c6b4a996669c6bc77b82c8e91c4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:28 +0000
Subject: [PATCH 03/47] fix: vector_get stays inside the stored elements

---
 src/vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.c b/src/vector.c
index f27e248..30d8359 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -75,7 +75,7 @@ inline int vector_append_ptr(vector *vec, const void *pointer) {
 inline const void *vector_get(const vector *vec, const unsigned int i) {
 	if (vec == NULL)
 		return NULL;
-	if (i > vec->max_size)
+	if (i >= vec->count)
 		return NULL;
 	return nth(i);
 }
-- 
2.43.0


From 4067a94071ead660feff54781a06a52dca12fad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:04 +0000
Subject: [PATCH 04/47] fix: replacing a dictionary key no longer frees a
 pointer into the middle of a block

---
 src/simple_sparsehash.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index 47bb96b..1d3fbc1 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -388,14 +388,13 @@ int sparse_dict_set(struct sparse_dict *dict,
 			if (existing_bucket->hash == key_hash && strncmp(existing_bucket->key, key, lrgr_key) == 0) {
 				/* Great, we probed along the hashtable and found a bucket with the same key as
 				 * the key we want to insert. Replace it. */
-				char *existing_key = existing_bucket->key;
 				void *existing_val = existing_bucket->val;
 				if (_create_and_insert_new_bucket(dict->buckets, probed_val, key, klen, value, vlen, key_hash)) {
 					/* We return here because we don't want to execute the 'resize the table'
 					 * logic. We overwrote a bucket instead of adding a new one, so we know
-					 * we don't need to resize anything.
+					 * we don't need to resize anything. The old key lives in the same
+					 * block as the old value.
 					 */
-					free(existing_key);
 					free(existing_val);
 					return 1;
 				} else {
-- 
2.43.0


From 127f4fd0c2956e48c70ae86444c5ca4345f664e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:04 +0000
Subject: [PATCH 05/47] fix: hashing a key of 256 bytes or more terminates

---
 src/simple_sparsehash.c | 2 +-
 src/utils.c             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index 1d3fbc1..00ebdc9 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -17,7 +17,7 @@ static uint64_t hash_fnv1a(const char *key, const size_t klen) {
 
 	const int iterations = klen;
 
-	uint8_t i;
+	int i;
 	uint64_t hash = fnv_offset_bias;
 
 	for(i = 0; i < iterations; i++) {
diff --git a/src/utils.c b/src/utils.c
index f1e50eb..f000bf9 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -103,7 +103,7 @@ int hash_string_fnv1a(const unsigned char *key, const size_t siz, char outbuf[st
 
 	const int iterations = siz;
 
-	uint8_t i;
+	int i;
 	uint64_t hash = fnv_offset_bias;
 
 	for(i = 0; i < iterations; i++) {
-- 
2.43.0


From 363e2246e993e723d8ba9422a8573ac219fc15b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 06/47] fix: dictionary probing reaches every slot of the table

Squares modulo a power of two repeat early, so an insert could fail while
slots were free; triangular numbers visit all of them.
---
 src/simple_sparsehash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index 00ebdc9..80377e3 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -6,7 +6,7 @@
 
 #define FULL_ELEM_SIZE (arr->elem_size + sizeof(size_t))
 #define MAX_ARR_SIZE ((arr->maximum - 1)/GROUP_SIZE + 1)
-#define QUADRATIC_PROBE(maximum) (key_hash + num_probes * num_probes) & (maximum - 1)
+#define QUADRATIC_PROBE(maximum) (key_hash + num_probes * (num_probes + 1) / 2) & (maximum - 1)
 
 /* One of the simplest hashing functions, FNV-1a. See the wikipedia article for more info:
  * http://en.wikipedia.org/wiki/Fowler%E2%80%93Noll%E2%80%93Vo_hash_function
-- 
2.43.0


From 5f919a057542d07b240b4ba7f8b9ea55d623ae82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 07/47] fix: a dictionary that could not grow once can still
 grow later

---
 src/simple_sparsehash.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index 80377e3..08c8089 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -364,6 +364,12 @@ int sparse_dict_set(struct sparse_dict *dict,
 	const uint64_t key_hash = hash_fnv1a(key, klen);
 	unsigned int num_probes = 0;
 
+	/* An earlier attempt to grow may have failed for lack of memory and left the
+	 * table full. We can't insert anything without a free slot.
+	 */
+	if (dict->bucket_count >= dict->bucket_max && !_rehash_and_grow_table(dict))
+		goto error;
+
 	/* First check the array to see if we have an object already stored in
 	 * 'out' position.
 	 */
-- 
2.43.0


From ccde71e22d318310b3a2fe1dd3bfd7a0c8bbebb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 08/47] fix: sparse arrays refuse the index one past their end

---
 src/simple_sparsehash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index 08c8089..fdede63 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -213,7 +213,7 @@ struct sparse_array *sparse_array_init(const size_t element_size, const uint32_t
 int sparse_array_set(struct sparse_array *arr, const uint32_t i,
 						   const void *val, const size_t vlen) {
 	/* Don't let users set outside the bounds of the array. */
-	if (i > arr->maximum)
+	if (i >= arr->maximum)
 		return 0;
 	/* Since our hashtable is divided into many arrays, we need to pick the one
 	 * relevant to `i` in this case:
@@ -224,7 +224,7 @@ int sparse_array_set(struct sparse_array *arr, const uint32_t i,
 }
 
 const void *sparse_array_get(struct sparse_array *arr, const uint32_t i, size_t *outsize) {
-	if (i > arr->maximum)
+	if (i >= arr->maximum)
 		return NULL;
 	struct sparse_array_group *operating_group = &arr->groups[i / GROUP_SIZE];
 	const int position = i % GROUP_SIZE;
-- 
2.43.0


From 2265397c2ab786009e86c6dfa387f7f097d96fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 09/47] fix: rendering a loop over sub-contexts leaves them for
 the context to free

Each pass of a loop freed the sub-context it looped over: a second render read
freed memory, and sub-contexts that were never looped over leaked.
---
 src/greshunkel.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 8757f7d..6be03f4 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -229,6 +229,13 @@ int gshkl_add_string_to_loop(greshunkel_var *loop, const char *value) {
 
 static inline void _gshkl_free_arr(greshunkel_tuple *to_free) {
 	assert(to_free->type == GSHKL_ARR);
+
+	unsigned int i;
+	for (i = 0; i < to_free->value.arr->count; i++) {
+		const greshunkel_tuple *item = vector_get(to_free->value.arr, i);
+		if (item->type == GSHKL_SUBCTEXT)
+			gshkl_free_context((struct greshunkel_ctext *)item->value.sub_ctext);
+	}
 	vector_free((vector *)to_free->value.arr);
 }
 
@@ -248,6 +255,15 @@ void gshkl_free_context(greshunkel_ctext *ctext) {
 	free(ctext);
 }
 
+/* Frees a context made by _gshkl_init_child_context. Its values belong to whoever made
+ * the parent, so only the bookkeeping goes. */
+static void _gshkl_free_child_context(greshunkel_ctext *ctext) {
+	vector_free(ctext->values);
+	vector_free(ctext->filter_functions);
+
+	free(ctext);
+}
+
 static line read_line(const char *buf) {
 	char c = '\0';
 
@@ -664,7 +680,7 @@ _interpolate_loop(const greshunkel_ctext *ctext, const char *buf, size_t *num_re
 			}
 
 			rendered_piece.data = gshkl_render(_temp_ctext, to_render_line.data, to_render_line.size, &rendered_piece.size);
-			gshkl_free_context(_temp_ctext);
+			_gshkl_free_child_context(_temp_ctext);
 
 			const size_t old_size = to_return.size;
 			to_return.size += rendered_piece.size;
-- 
2.43.0


From c1c8d10b6633e5eb6a3106b87b28e1d195c9dc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 10/47] fix: rendering stays inside a template that is not NUL
 terminated

Templates are rendered straight from a mapped file and have a length; a file
that fills its last page has no NUL after it.
---
 src/greshunkel.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 6be03f4..19ca380 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -998,15 +998,22 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 	assert(ctext != NULL);
 
 	/* We start up a new buffer and copy the old one into it: */
-	char *rendered = NULL;
+	char *rendered = calloc(1, 1);
+	/* What we're given doesn't have to be NUL terminated, but everything below relies on it: */
+	char *template = malloc(original_size + 1);
 	size_t intermediate_outsize = 0;
 
 	struct compiled_regex all_regex;
 	_compile_regex(&all_regex);
 
+	if (rendered == NULL || template == NULL)
+		goto error;
+	memcpy(template, to_render, original_size);
+	template[original_size] = '\0';
+
 	size_t num_read = 0;
 	while (num_read < original_size) {
-		line current_line = read_line(to_render + num_read);
+		line current_line = read_line(template + num_read);
 
 		line to_append = {0};
 		size_t loop_readahead = 0;
@@ -1014,13 +1021,13 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 		 * in the offset and just let it go. If it processes more than the
 		 * size of the current line, we know it did something.
 		 * Append the whole line it gets back. */
-		to_append = _interpolate_loop(ctext, to_render + num_read, &loop_readahead, &all_regex);
+		to_append = _interpolate_loop(ctext, template + num_read, &loop_readahead, &all_regex);
 
 		/* Otherwise just interpolate the line like normal. */
 		if (loop_readahead == 0) {
 			/* Now let's try to interpolate an if statement, much like a loop. */
 			size_t conditional_readahead = 0;
-			to_append = _interpolate_conditionals(ctext, to_render + num_read, &conditional_readahead, &all_regex);
+			to_append = _interpolate_conditionals(ctext, template + num_read, &conditional_readahead, &all_regex);
 
 			if (conditional_readahead == 0) {
 				to_append = _interpolate_line(ctext, current_line, &all_regex);
@@ -1048,6 +1055,7 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 		free(to_append.data);
 	}
 	_destroy_regex(&all_regex);
+	free(template);
 	/* rendered[intermediate_outsize - 1] = '\0'; */
 
 	if (outsize)
@@ -1055,6 +1063,8 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 	return rendered;
 
 error:
+	_destroy_regex(&all_regex);
+	free(template);
 	free(rendered);
 	return NULL;
 }
-- 
2.43.0


From f131f115d7bcab7dd5cccec4f192ac6c8f8aed1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 11/47] fix: the rendered size of a template ending in a block,
 or of an empty one

The last character was always cut off, even if it was part of the text; an
empty template gave a size of SIZE_MAX.
---
 src/greshunkel.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 19ca380..bcd455e 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -1058,8 +1058,14 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 	free(template);
 	/* rendered[intermediate_outsize - 1] = '\0'; */
 
-	if (outsize)
-		*outsize = intermediate_outsize - 1;
+	/* The terminator of the last line, be it a NUL or a newline, isn't part of the result. A
+	 * loop, conditional or include at the very end may have none, though.
+	 */
+	if (outsize) {
+		const char last = intermediate_outsize > 0 ? rendered[intermediate_outsize - 1] : 'x';
+		const int terminated = last == '\0' || last == '\n' || last == '\r';
+		*outsize = intermediate_outsize - terminated;
+	}
 	return rendered;
 
 error:
-- 
2.43.0


From cff276d1c77daad7cbbcb093645d239a059135bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 12/47] fix: includes of 2048 bytes and more are read whole

A larger file was cut off, one of exactly 2048 bytes or more had its
terminator written past the buffer.
---
 src/greshunkel.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index bcd455e..9ad8955 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -526,9 +526,9 @@ _include_line(const greshunkel_ctext *ctext, const line *current_line, const str
 
 
 		/* Open the file here. */
-		/* TODO: Make this actually the whole size of the file, not just a random buffer. */
-		char template_file[2048] = {0};
-		size_t template_file_siz = 0;
+		size_t template_file_siz = 0, template_file_max = 2048, read_this_time = 0;
+		char *template_file = malloc(template_file_max);
+		assert(template_file != NULL);
 		FILE *include_file = fopen(just_match_str, "r");
 		if (!include_file) {
 			/* If we couldn't open the file, blow up with an assertion. */
@@ -537,12 +537,20 @@ _include_line(const greshunkel_ctext *ctext, const line *current_line, const str
 			assert(1 == 0);
 		}
 
-		template_file_siz = fread(template_file, 1, sizeof(template_file), include_file);
+		while ((read_this_time = fread(template_file + template_file_siz, 1,
+						template_file_max - template_file_siz, include_file)) > 0) {
+			template_file_siz += read_this_time;
+			if (template_file_siz == template_file_max) {
+				template_file_max *= 2;
+				template_file = realloc(template_file, template_file_max);
+				assert(template_file != NULL);
+			}
+		}
 		fclose(include_file);
-		template_file[template_file_siz] = '\0';
 
 		line rendered_piece = {0};
 		rendered_piece.data = gshkl_render(ctext, template_file, template_file_siz, &rendered_piece.size);
+		free(template_file);
 
 		free(interpolated_line.data);
 		interpolated_line.size = rendered_piece.size;
-- 
2.43.0


From fa04e3fbe8c6d309ea6eb298d27731490158619f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:00 +0000
Subject: [PATCH 13/47] fix: lines that mix variables, sub-context variables,
 includes and filters are freed exactly once

---
 src/greshunkel.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 9ad8955..d120122 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -606,14 +606,19 @@ _interpolate_line(const greshunkel_ctext *ctext, const line current_line, const
 		memset(match, 0, sizeof(match));
 	}
 
+	/* Every stage hands back either the line it was given or a new one. Free each line that
+	 * was replaced, except for the one that belongs to our caller. */
+	if (interpolated_line.data != NULL && _operating_line.data != current_line.data)
+		free(_operating_line.data);
+
 	/* SCREAM includes */
 	line included_line = _include_line(ctext, operating_line, all_regex);
-	if (included_line.data != interpolated_line.data && interpolated_line.data != NULL)
+	if (included_line.data != operating_line->data && operating_line->data != current_line.data)
 		free(operating_line->data);
 
 	line filtered_line = _filter_line(ctext, &included_line, all_regex);
-	if (filtered_line.data != interpolated_line.data && interpolated_line.data != NULL)
-		free(operating_line->data);
+	if (filtered_line.data != included_line.data && included_line.data != current_line.data)
+		free(included_line.data);
 
 	return filtered_line;
 }
-- 
2.43.0


From 6ba755239e67f68ee810ce11edab4380fdee800c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:00 +0000
Subject: [PATCH 14/47] fix: an empty loop or conditional ends at its own end
 tag, not at the template's last one

---
 src/greshunkel.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index d120122..28000f9 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -645,10 +645,8 @@ _interpolate_loop(const greshunkel_ctext *ctext, const char *buf, size_t *num_re
 		const char *closest_BBL = NULL;
 		closest_BBL = strstr(loop_meat.start, "xXx BBL xXx");
 		possible_dif = closest_BBL - buf;
-		if (possible_dif != (unsigned int)loop_meat.rm_so) {
-			loop_meat.rm_eo = possible_dif;
-			loop_meat.len = loop_meat.rm_eo - loop_meat.rm_so;
-		}
+		loop_meat.rm_eo = possible_dif;
+		loop_meat.len = loop_meat.rm_eo - loop_meat.rm_so;
 
 		/* We found a fucking loop, holy shit */
 		*num_read = loop_meat.rm_eo + strlen("xXx BBL xXx");
@@ -789,10 +787,8 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 		const char *closest_endif = NULL;
 		closest_endif = strstr(conditional_meat.start, "xXx ENDLESS xXx");
 		possible_dif = closest_endif - buf;
-		if (possible_dif != (unsigned int)conditional_meat.rm_so) {
-			conditional_meat.rm_eo = possible_dif;
-			conditional_meat.len = conditional_meat.rm_eo - conditional_meat.rm_so;
-		}
+		conditional_meat.rm_eo = possible_dif;
+		conditional_meat.len = conditional_meat.rm_eo - conditional_meat.rm_so;
 
 		/* We found a conditioanl. */
 		*num_read = conditional_meat.rm_eo + strlen("xXx ENDLESS xXx");
@@ -869,10 +865,8 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 		const char *closest_endif = NULL;
 		closest_endif = strstr(conditional_meat.start, "xXx ENDLESS xXx");
 		possible_dif = closest_endif - buf;
-		if (possible_dif != (unsigned int)conditional_meat.rm_so) {
-			conditional_meat.rm_eo = possible_dif;
-			conditional_meat.len = conditional_meat.rm_eo - conditional_meat.rm_so;
-		}
+		conditional_meat.rm_eo = possible_dif;
+		conditional_meat.len = conditional_meat.rm_eo - conditional_meat.rm_so;
 
 		/* We found a conditioanl. */
 		*num_read = conditional_meat.rm_eo + strlen("xXx ENDLESS xXx");
-- 
2.43.0


From bde5cd9a7b65a687946974172ad21601152b47c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:01 +0000
Subject: [PATCH 15/47] fix: a filter without argument gets none when another
 filter follows on its line

---
 src/greshunkel.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 28000f9..06c54b0 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -365,10 +365,13 @@ _filter_line(const greshunkel_ctext *ctext, const line *current_line, const stru
 
 		if ((filter = find_needle(ctext, just_match_str, 0))) {
 
-			const size_t new_len = start_of_first_XxX - argument.start;
+			/* If the filter is closed before its argument begins, it has none: we matched up
+			 * to the end of another filter on this line. */
+			const int has_argument = start_of_first_XxX >= argument.start;
 
 			/* Render the argument out so we can pass it to the filter function. */
-			char *rendered_argument = strndup(argument.start, new_len);
+			char *rendered_argument = has_argument ?
+				strndup(argument.start, start_of_first_XxX - argument.start) : NULL;
 
 			/* Pass it to the filter function. */
 			char *filter_result = filter->filter_func(rendered_argument);
-- 
2.43.0


From bd8f9902f1e56c61bd1d44416546ee7bebf49826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:21 +0000
Subject: [PATCH 16/47] fix: notice when the handled queue cannot be opened

---
 src/server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index 063c4d9..ecf42e9 100644
--- a/src/server.c
+++ b/src/server.c
@@ -252,7 +252,7 @@ int m38_http_serve(m38_app *app) {
 	}
 
 	po_handled_queue = _open_queue(HANDLED_CONNECTION_QUEUE_NAME, O_RDWR | O_CREAT, sizeof(m38_handled_request *));
-	if (po_accepted_queue == -1) {
+	if (po_handled_queue == -1) {
 		m38_log_msg(LOG_ERR, "Could not preopen handled socket queue..");
 		perror("Main Thread");
 		goto error;
-- 
2.43.0


From 993b82dba3a006874a0cfe60c34550dca2f1dead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:22 +0000
Subject: [PATCH 17/47] fix: give every worker thread arguments of its own

They shared one block on the stack of the loop that starts them, which is gone
or rewritten by the time a thread reads it.
---
 src/server.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/server.c b/src/server.c
index ecf42e9..8196225 100644
--- a/src/server.c
+++ b/src/server.c
@@ -37,7 +37,7 @@ typedef struct {
 
 typedef struct {
 	const m38_app *app;
-	const int worker_ident;
+	int worker_ident;
 } handler_arg;
 
 static inline mqd_t _open_queue(const char *queue_name, int flags, const size_t size) {
@@ -222,6 +222,8 @@ int m38_http_serve(m38_app *app) {
 	mqd_t po_handled_queue = -1;
 	/* Handlers take accepted sockets and turn them into responses: */
 	pthread_t handlers[app->num_threads];
+	/* These have to be around for as long as the handlers are: */
+	handler_arg handler_args[app->num_threads];
 	/* The responder is responsible for sending bytes back over the wire: */
 	pthread_t responder_worker;
 	/* The acceptor listens and accepts new connections, and enqueues them: */
@@ -278,11 +280,9 @@ int m38_http_serve(m38_app *app) {
 
 	int i;
 	for (i = 0; i < app->num_threads; i++) {
-		handler_arg args = {
-			.app = app,
-			.worker_ident = i
-		};
-		if (pthread_create(&handlers[i], NULL, handler, &args) != 0) {
+		handler_args[i].app = app;
+		handler_args[i].worker_ident = i;
+		if (pthread_create(&handlers[i], NULL, handler, &handler_args[i]) != 0) {
 			goto error;
 		}
 		m38_log_msg(LOG_INFO, "Worker thread %i started.", i);
-- 
2.43.0


From dccfbc59b1e1f68bfb19ae91facbe773e9216411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:22 +0000
Subject: [PATCH 18/47] fix: keep accepting after an accept that failed for the
 moment

An aborted connection, a signal or a lack of descriptors ended the acceptor
and with it the service.
---
 src/server.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index 8196225..fdf49c3 100644
--- a/src/server.c
+++ b/src/server.c
@@ -5,6 +5,7 @@
 #include <arpa/inet.h>
 #include <assert.h>
 #include <dirent.h>
+#include <errno.h>
 #include <fcntl.h>
 #include <mqueue.h>
 #include <netdb.h>
@@ -74,8 +75,18 @@ static void *acceptor(void *arg) {
 		int new_fd = accept(main_sock_fd, (struct sockaddr *)&their_addr, &sin_size);
 
 		if (new_fd == -1) {
+			const int err = errno;
 			m38_log_msg(LOG_ERR, "Acceptor: Could not accept new connection.");
-			return NULL;
+			/* The socket itself is unusable, eg. it was shut down. */
+			if (err == EBADF || err == EINVAL || err == ENOTSOCK || err == EOPNOTSUPP)
+				return NULL;
+			/* We ran out of something. Leave the others some time to release it. */
+			if (err == EMFILE || err == ENFILE || err == ENOBUFS || err == ENOMEM) {
+				const struct timespec pause = { .tv_sec = 0, .tv_nsec = 10000000 };
+				nanosleep(&pause, NULL);
+			}
+			/* Everything else is the problem of the connection we didn't get. */
+			continue;
 		}
 
 		ssize_t msg_size = mq_send(accepted_socket_queue, (char *)&new_fd, sizeof(int), 0);
-- 
2.43.0


From 514a8c53ea91fc1c92f523ff2ec666e84b8bf604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:22 +0000
Subject: [PATCH 19/47] fix: close the connection of a request there is no
 response for

---
 src/server.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/server.c b/src/server.c
index fdf49c3..1a528ce 100644
--- a/src/server.c
+++ b/src/server.c
@@ -173,9 +173,15 @@ static void *handler(void *arg) {
 			m38_log_msg(LOG_FUN, "Worker %i: Handling response.", worker_ident);
 			m38_handled_request *req = m38_generate_response(new_fd, app);
 
-			ssize_t msg_size = mq_send(handled_queue, (char *)&req, sizeof(m38_handled_request *), 0);
-			if (msg_size == -1)
-				m38_log_msg(LOG_ERR, "Worker %i: Could not enqueue handled response.", worker_ident);
+			if (req == NULL) {
+				/* There's nothing to send, so nobody else is going to close this. */
+				m38_log_msg(LOG_ERR, "Worker %i: Could not generate a response.", worker_ident);
+				close(new_fd);
+			} else {
+				ssize_t msg_size = mq_send(handled_queue, (char *)&req, sizeof(m38_handled_request *), 0);
+				if (msg_size == -1)
+					m38_log_msg(LOG_ERR, "Worker %i: Could not enqueue handled response.", worker_ident);
+			}
 		}
 
 		struct mq_attr attr = {0};
-- 
2.43.0


From 3a2179790fbe36c6d413a8ebb2e155277dd13171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:47 +0000
Subject: [PATCH 20/47] fix: a signal while passing on work neither drops a
 connection nor ends a thread

---
 src/server.c | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/server.c b/src/server.c
index 1a528ce..52645a2 100644
--- a/src/server.c
+++ b/src/server.c
@@ -56,6 +56,26 @@ static inline mqd_t _open_queue(const char *queue_name, int flags, const size_t
 
 	return to_return;
 }
+
+/* Like mq_send and mq_receive, but a signal is no reason to give up. */
+static int _queue_send(const mqd_t queue, const void *msg, const size_t size) {
+	int rc = -1;
+	do {
+		rc = mq_send(queue, msg, size, 0);
+	} while (rc == -1 && errno == EINTR);
+
+	return rc;
+}
+
+static ssize_t _queue_receive(const mqd_t queue, void *msg, const size_t size) {
+	ssize_t rc = -1;
+	do {
+		rc = mq_receive(queue, msg, size, NULL);
+	} while (rc == -1 && errno == EINTR);
+
+	return rc;
+}
+
 static void *acceptor(void *arg) {
 	mqd_t accepted_socket_queue = 0;
 	const acceptor_arg *args = arg;
@@ -89,7 +109,7 @@ static void *acceptor(void *arg) {
 			continue;
 		}
 
-		ssize_t msg_size = mq_send(accepted_socket_queue, (char *)&new_fd, sizeof(int), 0);
+		ssize_t msg_size = _queue_send(accepted_socket_queue, &new_fd, sizeof(int));
 		if (msg_size == -1) {
 			/* We want to continue from this error. Maybe the queue is full or something. */
 			m38_log_msg(LOG_ERR, "Acceptor: Could not queue new accepted connection.");
@@ -113,7 +133,7 @@ static void *responder(void *arg) {
 
 	while(1) {
 		m38_handled_request *req = NULL;
-		ssize_t msg_size = mq_receive(handled_queue, (char *)&req, sizeof(m38_handled_request *), NULL);
+		ssize_t msg_size = _queue_receive(handled_queue, &req, sizeof(m38_handled_request *));
 
 		if (msg_size == -1) {
 			m38_log_msg(LOG_ERR, "Responder: Could not read from handled_queue.");
@@ -124,7 +144,7 @@ static void *responder(void *arg) {
 		} else {
 			m38_handled_request *new_req = m38_send_response(req);
 			if (new_req != NULL) {
-				ssize_t msg_size = mq_send(handled_queue, (char *)&new_req, sizeof(m38_handled_request *), 0);
+				ssize_t msg_size = _queue_send(handled_queue, &new_req, sizeof(m38_handled_request *));
 				if (msg_size == -1)
 					m38_log_msg(LOG_ERR, "Responder: Could not enqueue handled response.");
 			} else {
@@ -161,7 +181,7 @@ static void *handler(void *arg) {
 
 	while(1) {
 		int new_fd = 0;
-		ssize_t msg_size = mq_receive(accepted_socket_queue, (char *)&new_fd, sizeof(int), NULL);
+		ssize_t msg_size = _queue_receive(accepted_socket_queue, &new_fd, sizeof(int));
 
 		if (msg_size == -1) {
 			m38_log_msg(LOG_ERR, "Worker %i: Could not read from accepted_socket_queue.", worker_ident);
@@ -178,7 +198,7 @@ static void *handler(void *arg) {
 				m38_log_msg(LOG_ERR, "Worker %i: Could not generate a response.", worker_ident);
 				close(new_fd);
 			} else {
-				ssize_t msg_size = mq_send(handled_queue, (char *)&req, sizeof(m38_handled_request *), 0);
+				ssize_t msg_size = _queue_send(handled_queue, &req, sizeof(m38_handled_request *));
 				if (msg_size == -1)
 					m38_log_msg(LOG_ERR, "Worker %i: Could not enqueue handled response.", worker_ident);
 			}
-- 
2.43.0


From 91f0cbea0ec70b3abc5734ff42cec9279fcc3bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:11 +0000
Subject: [PATCH 21/47] fix: the responder no longer waits for itself when the
 handled queue is full

It put unfinished responses back on the queue that only it reads. With the
queue full of other responses that never returned. It now keeps them itself
and still sends a piece of each in turn.
---
 include/types.h |  3 ++-
 src/server.c    | 42 +++++++++++++++++++++++++++++++++++-------
 2 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/include/types.h b/include/types.h
index c3054eb..aca8050 100644
--- a/include/types.h
+++ b/include/types.h
@@ -84,7 +84,7 @@ typedef struct {
 	void (*cleanup)(const int status_code, m38_http_response *response);
 } m38_route;
 
-typedef struct {
+typedef struct m38_handled_request {
 	char *response_bytes;
 	size_t response_len;
 	int accept_fd;
@@ -92,6 +92,7 @@ typedef struct {
 	size_t sent;
 	const m38_route *matching_route;
 	m38_http_response response;
+	struct m38_handled_request *next; /* Used by the responder for requests it has yet to finish. */
 } m38_handled_request;
 
 /* xXx STRUCT=m38_app xXx
diff --git a/src/server.c b/src/server.c
index 52645a2..9004eb3 100644
--- a/src/server.c
+++ b/src/server.c
@@ -131,22 +131,50 @@ static void *responder(void *arg) {
 		return NULL;
 	}
 
+	/* The responses we're working on, a piece of each at a time. They can't go back on the
+	 * queue between pieces: we're the only one who takes anything off it, so if it's full
+	 * we would wait for ourselves.
+	 */
+	m38_handled_request *pending = NULL;
+	m38_handled_request **pending_end = &pending;
+
 	while(1) {
 		m38_handled_request *req = NULL;
-		ssize_t msg_size = _queue_receive(handled_queue, &req, sizeof(m38_handled_request *));
+		const struct timespec dont_wait = {0};
+		ssize_t msg_size = -1;
+
+		/* Only wait for something new if there's nothing left to send. */
+		if (pending == NULL)
+			msg_size = _queue_receive(handled_queue, &req, sizeof(m38_handled_request *));
+		else
+			msg_size = mq_timedreceive(handled_queue, (char *)&req, sizeof(m38_handled_request *), NULL, &dont_wait);
 
 		if (msg_size == -1) {
-			m38_log_msg(LOG_ERR, "Responder: Could not read from handled_queue.");
-			perror("Responder: ");
-			break;
+			if (pending == NULL) {
+				m38_log_msg(LOG_ERR, "Responder: Could not read from handled_queue.");
+				perror("Responder: ");
+				break;
+			}
 		} else if (req == NULL) {
 			m38_log_msg(LOG_ERR, "Responder: Got bogus request from queue.");
 		} else {
+			req->next = NULL;
+			*pending_end = req;
+			pending_end = &req->next;
+		}
+
+		if (pending != NULL) {
+			/* Send a piece of whatever waited the longest. */
+			req = pending;
+			pending = req->next;
+			if (pending == NULL)
+				pending_end = &pending;
+
 			m38_handled_request *new_req = m38_send_response(req);
 			if (new_req != NULL) {
-				ssize_t msg_size = _queue_send(handled_queue, &new_req, sizeof(m38_handled_request *));
-				if (msg_size == -1)
-					m38_log_msg(LOG_ERR, "Responder: Could not enqueue handled response.");
+				new_req->next = NULL;
+				*pending_end = new_req;
+				pending_end = &new_req->next;
 			} else {
 				m38_log_msg(LOG_FUN, "Responder: Response sent.");
 			}
-- 
2.43.0


From 2817bd4e821c0b8fbdc5d4dd93585d728921fa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:17 +0000
Subject: [PATCH 22/47] fix: a failed start stops its threads and closes its
 queues and socket

---
 src/server.c | 108 +++++++++++++++++++++++++--------------------------
 1 file changed, 53 insertions(+), 55 deletions(-)

diff --git a/src/server.c b/src/server.c
index 9004eb3..1de461a 100644
--- a/src/server.c
+++ b/src/server.c
@@ -34,15 +34,21 @@
 
 typedef struct {
 	const int main_sock_fd;
+	const mqd_t accepted_socket_queue;
 } acceptor_arg;
 
+typedef struct {
+	const mqd_t handled_queue;
+} responder_arg;
+
 typedef struct {
 	const m38_app *app;
 	int worker_ident;
+	mqd_t accepted_socket_queue;
+	mqd_t handled_queue;
 } handler_arg;
 
 static inline mqd_t _open_queue(const char *queue_name, int flags, const size_t size) {
-	(void) flags;
 	struct mq_attr asq_attr = {
 		.mq_flags = 0,
 		.mq_maxmsg = 10,
@@ -50,7 +56,7 @@ static inline mqd_t _open_queue(const char *queue_name, int flags, const size_t
 		.mq_curmsgs = 0
 	};
 
-	mqd_t to_return = mq_open(queue_name, O_WRONLY | O_CREAT, 0644, &asq_attr);
+	mqd_t to_return = mq_open(queue_name, flags, 0644, &asq_attr);
 	if (to_return == -1)
 		perror("Could not open queue");
 
@@ -77,16 +83,9 @@ static ssize_t _queue_receive(const mqd_t queue, void *msg, const size_t size) {
 }
 
 static void *acceptor(void *arg) {
-	mqd_t accepted_socket_queue = 0;
 	const acceptor_arg *args = arg;
 	const int main_sock_fd = args->main_sock_fd;
-
-	accepted_socket_queue = _open_queue(ACCEPTED_SOCKET_QUEUE_NAME, O_WRONLY, sizeof(int));
-	if (accepted_socket_queue == -1) {
-		m38_log_msg(LOG_ERR, "Acceptor: Could not open accepted_socket_queue.");
-		perror("Acceptor: ");
-		return NULL;
-	}
+	const mqd_t accepted_socket_queue = args->accepted_socket_queue;
 
 	while(1) {
 		struct sockaddr_storage their_addr = {0};
@@ -121,15 +120,8 @@ static void *acceptor(void *arg) {
 }
 
 static void *responder(void *arg) {
-	UNUSED(arg);
-
-	mqd_t handled_queue = -1;
-	handled_queue = mq_open(HANDLED_CONNECTION_QUEUE_NAME, O_RDWR);
-	if (handled_queue == -1) {
-		m38_log_msg(LOG_ERR, "Responder: Could not open handled queue.");
-		perror("Responder: ");
-		return NULL;
-	}
+	const responder_arg *args = arg;
+	const mqd_t handled_queue = args->handled_queue;
 
 	/* The responses we're working on, a piece of each at a time. They can't go back on the
 	 * queue between pieces: we're the only one who takes anything off it, so if it's full
@@ -157,6 +149,7 @@ static void *responder(void *arg) {
 			}
 		} else if (req == NULL) {
 			m38_log_msg(LOG_ERR, "Responder: Got bogus request from queue.");
+			break;
 		} else {
 			req->next = NULL;
 			*pending_end = req;
@@ -181,31 +174,15 @@ static void *responder(void *arg) {
 		}
 	}
 
-	mq_close(handled_queue);
-
 	return NULL;
 }
 
 static void *handler(void *arg) {
-	mqd_t accepted_socket_queue = -1;
-	mqd_t handled_queue = -1;
 	const handler_arg *args = arg;
 	const m38_app *app = args->app;
 	const int worker_ident = args->worker_ident;
-
-	accepted_socket_queue = mq_open(ACCEPTED_SOCKET_QUEUE_NAME, O_RDONLY);
-	if (accepted_socket_queue == -1) {
-		m38_log_msg(LOG_ERR, "Worker %i: Could not open accepted_socket_queue.", worker_ident);
-		perror("Worker: ");
-		return NULL;
-	}
-
-	handled_queue = mq_open(HANDLED_CONNECTION_QUEUE_NAME, O_WRONLY);
-	if (handled_queue == -1) {
-		m38_log_msg(LOG_ERR, "Worker %i: Could not open handled queue.", worker_ident);
-		perror("Worker: ");
-		return NULL;
-	}
+	const mqd_t accepted_socket_queue = args->accepted_socket_queue;
+	const mqd_t handled_queue = args->handled_queue;
 
 	while(1) {
 		int new_fd = 0;
@@ -241,8 +218,6 @@ static void *handler(void *arg) {
 		}
 	}
 
-	mq_close(accepted_socket_queue);
-
 	return NULL;
 }
 
@@ -293,6 +268,9 @@ int m38_http_serve(m38_app *app) {
 	pthread_t responder_worker;
 	/* The acceptor listens and accepts new connections, and enqueues them: */
 	pthread_t acceptor_enqueuer;
+	int responder_started = 0;
+	int handlers_started = 0;
+	int i;
 
 	int *main_sock_fd = app->main_sock_fd;
 	*main_sock_fd = create_socket(app->port);
@@ -327,41 +305,40 @@ int m38_http_serve(m38_app *app) {
 
 	acceptor_arg args = {
 		.main_sock_fd = *main_sock_fd,
+		.accepted_socket_queue = po_accepted_queue,
+	};
+	responder_arg responder_args = {
+		.handled_queue = po_handled_queue,
 	};
 
-	if (pthread_create(&acceptor_enqueuer, NULL, acceptor, &args) != 0) {
-		m38_log_msg(LOG_ERR, "Could not start acceptor thread.");
-		goto error;
-	}
-
-	m38_log_msg(LOG_INFO, "Acceptor thread started.");
-
-	if (pthread_create(&responder_worker, NULL, responder, NULL) != 0) {
+	if (pthread_create(&responder_worker, NULL, responder, &responder_args) != 0) {
 		m38_log_msg(LOG_ERR, "Could not start responder thread.");
 		goto error;
 	}
+	responder_started = 1;
 
 	m38_log_msg(LOG_INFO, "Responder thread started.");
 
-	int i;
 	for (i = 0; i < app->num_threads; i++) {
 		handler_args[i].app = app;
 		handler_args[i].worker_ident = i;
+		handler_args[i].accepted_socket_queue = po_accepted_queue;
+		handler_args[i].handled_queue = po_handled_queue;
 		if (pthread_create(&handlers[i], NULL, handler, &handler_args[i]) != 0) {
+			m38_log_msg(LOG_ERR, "Could not start worker thread %i.", i);
 			goto error;
 		}
+		handlers_started++;
 		m38_log_msg(LOG_INFO, "Worker thread %i started.", i);
 	}
 
-	if (mq_close(po_accepted_queue) == -1) {
-		m38_log_msg(LOG_ERR, "Main thread: Could not close accepted queue.");
+	/* This one comes last, so that nothing is accepted before there's someone to handle it. */
+	if (pthread_create(&acceptor_enqueuer, NULL, acceptor, &args) != 0) {
+		m38_log_msg(LOG_ERR, "Could not start acceptor thread.");
 		goto error;
 	}
 
-	if (mq_close(po_handled_queue) == -1) {
-		m38_log_msg(LOG_ERR, "Main thread: Could not close handled queue.");
-		goto error;
-	}
+	m38_log_msg(LOG_INFO, "Acceptor thread started.");
 
 	for (i = 0; i < app->num_threads; i++) {
 		pthread_join(handlers[i], NULL);
@@ -371,11 +348,32 @@ int m38_http_serve(m38_app *app) {
 	m38_log_msg(LOG_INFO, "Acceptor thread stopped.");
 
 	close(*main_sock_fd);
+	mq_close(po_accepted_queue);
+	mq_close(po_handled_queue);
 	return 0;
 
 error:
 	perror("Server error");
-	close(*main_sock_fd);
+	/* Whoever got started already has to stop again, they use what we're about to close. */
+	for (i = 0; i < handlers_started; i++) {
+		const int no_fd = -1;
+		_queue_send(po_accepted_queue, &no_fd, sizeof(int));
+	}
+	for (i = 0; i < handlers_started; i++)
+		pthread_join(handlers[i], NULL);
+	if (responder_started) {
+		const m38_handled_request *no_req = NULL;
+		_queue_send(po_handled_queue, &no_req, sizeof(m38_handled_request *));
+		pthread_join(responder_worker, NULL);
+	}
+
+	if (po_accepted_queue != -1)
+		mq_close(po_accepted_queue);
+	if (po_handled_queue != -1)
+		mq_close(po_handled_queue);
+	if (*main_sock_fd != -1)
+		close(*main_sock_fd);
+	*main_sock_fd = -1;
 	return -1;
 }
 
-- 
2.43.0


From 86844176471e52b7b5aa9bb2536dd53686bd9243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:18 +0000
Subject: [PATCH 23/47] fix: descriptor 0 is a valid socket, -1 is nothing to
 close

---
 src/server.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server.c b/src/server.c
index 1de461a..bf42fc3 100644
--- a/src/server.c
+++ b/src/server.c
@@ -224,9 +224,9 @@ static void *handler(void *arg) {
 static inline int create_socket(const int port) {
 	int rc = -1;
 	int sock_fd = socket(PF_INET, SOCK_STREAM, 0);
-	if (sock_fd <= 0) {
+	if (sock_fd < 0) {
 		m38_log_msg(LOG_ERR, "Could not create main socket.");
-		goto error;
+		return -1;
 	}
 
 	int opt = 1;
-- 
2.43.0


From db481ed48b6ea7201447af2fe874a719e4d2f74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:12 +0000
Subject: [PATCH 24/47] fix: strnstr finds a needle at the very end of the
 haystack

---
 src/parse.c | 2 +-
 src/utils.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 8bf79b8..9263a35 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -138,7 +138,7 @@ int m38_parse_request(const unsigned char *to_read, const size_t num_read, m38_h
 		goto error;
 
 	const size_t c_resource_size = resource_end - res_offset;
-	const size_t resource_size = c_resource_size >= sizeof(out->resource) ? sizeof(out->resource) : c_resource_size;
+	const size_t resource_size = c_resource_size >= sizeof(out->resource) ? sizeof(out->resource) - 1 : c_resource_size;
 	strncpy(out->resource, res_offset, resource_size);
 
 	/* Parse full header here. */
diff --git a/src/utils.c b/src/utils.c
index f000bf9..767cb27 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -72,7 +72,7 @@ char *strnstr(const char *haystack, const char *needle, size_t len) {
 	/* Limit the search if haystack is shorter than 'len' */
 	len = strnlen(haystack, len);
 
-	for (i=0; i<(int)(len-needle_len); i++)
+	for (i=0; i<=(int)(len-needle_len); i++)
 	{
 		if ((haystack[0] == needle[0]) && (0 == strncmp(haystack, needle, needle_len)))
 			return (char *)haystack;
-- 
2.43.0


From cdb29c39aca279744791dc1a76e329010e66f99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:13 +0000
Subject: [PATCH 25/47] fix: looking for the end of the header stays inside
 what was received

---
 src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 9263a35..6fa38ff 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -144,7 +144,7 @@ int m38_parse_request(const unsigned char *to_read, const size_t num_read, m38_h
 	/* Parse full header here. */
 	size_t header_length = 0;
 	int found_end = 0;
-	while (header_length + 3 <= num_read) {
+	while (header_length + 3 < num_read) {
 		if (to_read[header_length] == '\r' &&
 		    to_read[header_length + 1] == '\n' &&
 		    to_read[header_length + 2] == '\r' &&
-- 
2.43.0


From e3ea02cae1389d0b5197d7854e8d1713a488a4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:15 +0000
Subject: [PATCH 26/47] fix: header values come from the header field of
 exactly that name

---
 src/parse.c | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 6fa38ff..cd17e3b 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -4,6 +4,7 @@
 #include <limits.h>
 #include <stdio.h>
 #include <string.h>
+#include <strings.h>
 #include <stdlib.h>
 #include <stdint.h>
 #include <sys/socket.h>
@@ -99,16 +100,40 @@ m38_range_header m38_parse_range_header(const char *range_query) {
 }
 
 char *m38_get_header_value_raw(const char *request, const size_t request_siz, const char header[static 1]) {
-	/* TODO: Make sure this function handles bad input. */
 	char *data = NULL;
-	const char *header_loc = strnstr(request, header, request_siz);
-	if (!header_loc)
-		return NULL;
-
-	const char *header_value_start = header_loc + strnlen(header, request_siz) + strlen(": ");
-	const char *header_value_end = strnstr(header_loc, "\r\n", request_siz);
-	if (!header_value_end)
-		return NULL;
+	const size_t header_siz = strlen(header);
+	const char *request_end = request + strnlen(request, request_siz);
+	const char *line = request;
+	const char *header_value_start = NULL;
+	const char *header_value_end = NULL;
+
+	/* Look at one line after the other. The first one is the request line. */
+	while (header_value_start == NULL) {
+		const char *line_end = line;
+		while (line_end + 1 < request_end && (line_end[0] != '\r' || line_end[1] != '\n'))
+			line_end++;
+
+		/* No complete line left, or the header ends here. */
+		if (line_end + 1 >= request_end || (line_end == line && line != request))
+			return NULL;
+
+		if (line != request &&
+				(size_t)(line_end - line) > header_siz &&
+				line[header_siz] == ':' &&
+				strncasecmp(line, header, header_siz) == 0) {
+			header_value_start = line + header_siz + strlen(":");
+			header_value_end = line_end;
+		}
+		line = line_end + strlen("\r\n");
+	}
+
+	/* Whitespace around the value isn't part of it. */
+	while (header_value_start < header_value_end &&
+			(*header_value_start == ' ' || *header_value_start == '\t'))
+		header_value_start++;
+	while (header_value_end > header_value_start &&
+			(header_value_end[-1] == ' ' || header_value_end[-1] == '\t'))
+		header_value_end--;
 
 	const size_t header_value_size = header_value_end - header_value_start;
 	data = calloc(sizeof(char), header_value_size + 1);
-- 
2.43.0


From 8b02358b12ef65cc45956322645d32136d64e5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:17 +0000
Subject: [PATCH 27/47] fix: request bodies may contain NUL bytes

---
 src/parse.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index cd17e3b..c06e14a 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -195,6 +195,17 @@ error:
 	return -1;
 }
 
+/* Bodies can contain anything, so this can't be strndup. There's a NUL behind it regardless. */
+static unsigned char *_copy_body(const char *body_start, const size_t body_len) {
+	unsigned char *copy = malloc(body_len + 1);
+	if (!copy)
+		return NULL;
+
+	memcpy(copy, body_start, body_len);
+	copy[body_len] = '\0';
+	return copy;
+}
+
 int m38_parse_body(const size_t received_body_len,
 			   const size_t content_length_num,
 			   const unsigned char *raw_request,
@@ -204,15 +215,15 @@ int m38_parse_body(const size_t received_body_len,
 	/* We want to read the least amount. Read whatever is smallest. DO IT BECAUSE I SAY SO. */
 	if (content_length_num == received_body_len) {
 		request->body_len = content_length_num;
-		request->full_body = (unsigned char *)strndup(body_start, content_length_num);
+		request->full_body = _copy_body(body_start, content_length_num);
 	} else if (received_body_len < content_length_num) {
 		m38_log_msg(LOG_DEBUG, "FULL BODY: Received body length is less than clength for full_body.");
 		request->body_len = received_body_len;
-		request->full_body = (unsigned char *)strndup(body_start, request->body_len);
+		request->full_body = _copy_body(body_start, request->body_len);
 	} else if (content_length_num > 0 && content_length_num < received_body_len) {
 		m38_log_msg(LOG_DEBUG, "FULL BODY: Content length is less than total received body length.");
 		request->body_len = content_length_num;
-		request->full_body = (unsigned char *)strndup(body_start, request->body_len);
+		request->full_body = _copy_body(body_start, request->body_len);
 	} else {
 		m38_log_msg(LOG_DEBUG, "FULL BODY: Discrepancy between content-length and body length.");
 		request->full_body = NULL;
-- 
2.43.0


From b7e04bdf4a21a559ce85b7aa58e72057a6614c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:19 +0000
Subject: [PATCH 28/47] fix: parsing a form leaves the body alone and decodes
 into a large enough buffer

---
 src/parse.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index c06e14a..ec2fb96 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -246,8 +246,13 @@ int m38_parse_form_encoded_body(m38_http_request *request) {
 	}
 
 	new_dict = sparse_dict_init();
+	if (!new_dict) {
+		goto err;
+	}
 
-	while ((potential_kv_pair = strsep((char **)&request->full_body, "&")) != NULL) {
+	/* strsep moves what it's pointed at, and the body belongs to the request. */
+	char *remaining = duplicated_body;
+	while ((potential_kv_pair = strsep(&remaining, "&")) != NULL) {
 		char *key = NULL;
 		char *value = NULL;
 		key = strsep(&potential_kv_pair, "=");
@@ -257,8 +262,8 @@ int m38_parse_form_encoded_body(m38_http_request *request) {
 			continue;
 		}
 
-		char *decoded_buffer = calloc(1, strlen(value));
-		if (m38_url_decode(value, decoded_buffer) > 0) {
+		char *decoded_buffer = calloc(1, strlen(value) + 1);
+		if (decoded_buffer && m38_url_decode(value, decoded_buffer) > 0) {
 			sparse_dict_set(new_dict, key, strlen(key), decoded_buffer, strlen(decoded_buffer));
 		} else {
 			m38_log_msg(LOG_WARN, "Could not place item into form elements dict.");
@@ -272,6 +277,5 @@ int m38_parse_form_encoded_body(m38_http_request *request) {
 
 err:
 	free(duplicated_body);
-	free(new_dict);
 	return -1;
 }
-- 
2.43.0


From df1200a139cdfd47f318bbac359f72eecb11e840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:52 +0000
Subject: [PATCH 29/47] fix: cookie values come from the cookie of exactly that
 name

---
 src/utils.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index 767cb27..30cd7d8 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -121,9 +121,23 @@ char *m38_get_cookie_value(const char *cookie_string, const size_t cookie_string
 	if (!cookie_string)
 			return NULL;
 
-	const char *cookie_loc = strnstr(cookie_string, needle, cookie_string_siz);
-	if (!cookie_loc)
-			return NULL;
+	const size_t needle_siz = strlen(needle);
+	const char *all_cookies_end = cookie_string + strnlen(cookie_string, cookie_string_siz);
+
+	/* Find the cookie with exactly that name, they're separated by semicolons. */
+	const char *cookie_loc = cookie_string;
+	while (1) {
+			while (cookie_loc < all_cookies_end && (*cookie_loc == ' ' || *cookie_loc == ';'))
+					cookie_loc++;
+			if (cookie_loc == all_cookies_end)
+					return NULL;
+			if ((size_t)(all_cookies_end - cookie_loc) > needle_siz &&
+					cookie_loc[needle_siz] == '=' &&
+					strncmp(cookie_loc, needle, needle_siz) == 0)
+					break;
+			while (cookie_loc < all_cookies_end && *cookie_loc != ';')
+					cookie_loc++;
+	}
 
 	const char *cookie_string_start = cookie_loc;
 	const char *cookie_string_end = strnstr(cookie_loc, ";", cookie_string_siz - (cookie_loc - cookie_string));
@@ -131,7 +145,7 @@ char *m38_get_cookie_value(const char *cookie_string, const size_t cookie_string
 			/* This is okay, it might be at the end of the cookie. */
 			cookie_string_end = strnstr(cookie_loc, " ", cookie_string_siz - (cookie_loc - cookie_string));
 			if (!cookie_string_end)
-					cookie_string_end = cookie_loc + cookie_string_siz;
+					cookie_string_end = all_cookies_end;
 	}
 
 	const size_t cookie_string_size = cookie_string_end - cookie_string_start;
@@ -140,8 +154,8 @@ char *m38_get_cookie_value(const char *cookie_string, const size_t cookie_string
 			return NULL;
 
 	/* -1 here is for the '=': */
-	const size_t cookie_string_value_size = cookie_string_end - cookie_string_value;
-	char *data = calloc(sizeof(char), cookie_string_value_size + 2); /* Plus two here: One for =, one for NULL */
+	const size_t cookie_string_value_size = cookie_string_end - cookie_string_value - 1;
+	char *data = calloc(sizeof(char), cookie_string_value_size + 1); /* Plus one here for NULL */
 	data[cookie_string_value_size] = '\0';
 	strncpy(data, cookie_string_value + 1, cookie_string_value_size);
 
-- 
2.43.0


From 238f293b836deaa92d29d2021166d4f5d57b034d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:26 +0000
Subject: [PATCH 30/47] fix: read requests until they're complete, however they
 arrive

---
 src/grengine.c | 147 ++++++++++++++++++++++++++-----------------------
 1 file changed, 77 insertions(+), 70 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 9acb18b..a2fc5cf 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -3,6 +3,7 @@
 	#pragma clang diagnostic ignored "-Wmissing-field-initializers"
 #endif
 #include <assert.h>
+#include <errno.h>
 #include <fcntl.h>
 #include <regex.h>
 #include <stdio.h>
@@ -314,66 +315,89 @@ static void log_request(const m38_http_request *request, const m38_http_response
 	free(user_agent);
 }
 
-static int read_max_bytes_from_socket(const int accept_fd, unsigned char **to_read, size_t *num_read) {
-	size_t read_this_time = 0;
-	while ((read_this_time = recv(accept_fd, *to_read + *num_read, MAX_READ_LEN, 0))) {
-		*num_read += read_this_time;
-		if (read_this_time == 0 || read_this_time < MAX_READ_LEN)
-			break;
-		read_this_time = 0;
-
-		*to_read = realloc(*to_read, *num_read + MAX_READ_LEN);
-		if (!(*to_read)) {
-			m38_log_msg(LOG_ERR, "Ran out of memory reading request.");
-			goto error;
-		}
-		memset(*to_read + *num_read, '\0', MAX_READ_LEN);
-		if (*num_read >= MAX_REQUEST_SIZE)
-			break;
+/* Only digits are a valid Content-Length, and nothing longer than what we'd read is of any use. */
+static int parse_content_length(const char *clength, size_t *clength_num) {
+	size_t num = 0;
+	size_t i = 0;
+	for (i = 0; clength[i] != '\0'; i++) {
+		if (clength[i] < '0' || clength[i] > '9')
+			return -1;
+		num = num * 10 + (clength[i] - '0');
+		if (num > MAX_REQUEST_SIZE)
+			return -1;
 	}
 
-	return 0;
-
-error:
-	return -1;
+	*clength_num = num;
+	return i > 0 ? 0 : -1;
 }
 
-static int attempt_reread_from_socket(
-		const int accept_fd, const size_t clength_num,
-		const size_t post_body_len, m38_http_request *out) {
+/* Reads until we've got the whole request: However it was cut into pieces on its way here, it ends
+ * as many bytes after the header as the Content-Length says.
+ */
+static int read_request_from_socket(const int accept_fd, unsigned char **to_read, size_t *num_read, size_t *clength_num) {
+	size_t buf_siz = MAX_READ_LEN + 1;
+	size_t scanned = 0;
+	size_t header_len = 0;
+
+	while (header_len == 0 || *num_read < header_len + *clength_num) {
+		if (*num_read >= MAX_REQUEST_SIZE) {
+			m38_log_msg(LOG_ERR, "Request is too large.");
+			goto error;
+		}
 
-	unsigned char *to_read = NULL;
-	size_t num_read = 0;
+		if (*num_read + MAX_READ_LEN + 1 > buf_siz) {
+			unsigned char *larger = realloc(*to_read, buf_siz * 2);
+			if (!larger) {
+				m38_log_msg(LOG_ERR, "Ran out of memory reading request.");
+				goto error;
+			}
+			*to_read = larger;
+			buf_siz *= 2;
+		}
 
-	/* If we have a post_body_len > 0, we don't have to reread from the socket. */
-	/* In addition, if we have a longer content-length than we have known post-body
-	 * length, than we should attempt to re-read from the client. */
-	if ((post_body_len <= 0 && clength_num > 0) ||
-		(post_body_len > 0 && post_body_len < clength_num)) {
-
-		to_read = calloc(1, MAX_READ_LEN);
-
-		m38_log_msg(LOG_WARN, "Content-Length is %i but we got a post_body_len of %i.", clength_num, post_body_len);
-		m38_log_msg(LOG_WARN, "Attempting to re-read from stream.", clength_num, post_body_len);
-		/* ------------------------------------- */
-		/* XXX: Do a select here with a timeout. */
-		/* ------------------------------------- */
-		int rc = read_max_bytes_from_socket(accept_fd, &to_read, &num_read);
-		if (rc != 0)
+		const ssize_t read_this_time = recv(accept_fd, *to_read + *num_read, MAX_READ_LEN, 0);
+		if (read_this_time == -1) {
+			if (errno == EINTR)
+				continue;
+			m38_log_msg(LOG_ERR, "Could not read from socket.");
 			goto error;
+		}
+		/* They won't send any more. */
+		if (read_this_time == 0)
+			break;
+		*num_read += read_this_time;
+		(*to_read)[*num_read] = '\0';
+
+		/* Is that the whole header? */
+		for (; header_len == 0 && scanned + 3 < *num_read; scanned++) {
+			if (memcmp(*to_read + scanned, "\r\n\r\n", 4) != 0)
+				continue;
+
+			header_len = scanned + 4;
+			char *clength = m38_get_header_value_raw((char *)*to_read, header_len, "Content-Length");
+			if (clength == NULL)
+				continue;
+			const int rc = parse_content_length(clength, clength_num);
+			free(clength);
+			if (rc != 0) {
+				m38_log_msg(LOG_ERR, "Could not parse content length.");
+				goto error;
+			}
+		}
 	}
 
-	out->full_body = to_read;
-	out->body_len = num_read;
+	/* Whatever comes after the request isn't part of it. */
+	if (header_len != 0 && *num_read > header_len + *clength_num)
+		*num_read = header_len + *clength_num;
+
 	return 0;
 
 error:
-	free(to_read);
 	return -1;
 }
 
 m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *app) {
-	unsigned char *to_read = calloc(1, MAX_READ_LEN);
+	unsigned char *to_read = calloc(1, MAX_READ_LEN + 1);
 	char *actual_response = NULL;
 	m38_http_response response = {
 		.mimetype = {0},
@@ -384,12 +408,9 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	m38_handled_request *hreq = NULL;
 	const m38_route *matching_route = NULL;
 	size_t num_read = 0;
+	size_t clength_num = 0;
 	int rc = 0;
 
-	rc = read_max_bytes_from_socket(accept_fd, &to_read, &num_read);
-	if (rc != 0)
-		goto error;
-
 	m38_http_request request = {
 		.verb = {0},
 		.resource = {0},
@@ -400,36 +421,22 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		.full_body = NULL
 	};
 
+	rc = read_request_from_socket(accept_fd, &to_read, &num_read, &clength_num);
+	if (rc != 0)
+		goto error;
+
 	rc = m38_parse_request(to_read, num_read, &request);
 	if (rc != 0) {
 		m38_log_msg(LOG_ERR, "Could not parse request.");
 		goto error;
 	}
 
-	char *clength = m38_get_header_value_raw(request.full_header, request.header_len, "Content-Length");
-	size_t clength_num = 0;
-	if (clength == NULL) {
-		m38_log_msg(LOG_WARN, "Could not parse content length.");
-	} else {
-		clength_num = atoi(clength);
-		free(clength);
-	}
-
 	/* Do we have a POST body or something? */
 	const size_t post_body_len = num_read - request.header_len;
-	if (post_body_len <= 0 && clength_num > 0) {
-		/* re-read will just copy into the m38_http_request. */
-		rc = attempt_reread_from_socket(accept_fd, clength_num, post_body_len, &request);
-		if (rc != 0) {
-			m38_log_msg(LOG_ERR, "Could not reread from socket and parse body.");
-			goto error;
-		}
-	} else {
-		rc = m38_parse_body(post_body_len, clength_num, to_read, &request);
-		if (rc != 0) {
-			m38_log_msg(LOG_ERR, "Could not parse body.");
-			goto error;
-		}
+	rc = m38_parse_body(post_body_len, clength_num, to_read, &request);
+	if (rc != 0) {
+		m38_log_msg(LOG_ERR, "Could not parse body.");
+		goto error;
 	}
 
 	/* Parses form encoding, if applicable: */
-- 
2.43.0


From 7b352bae126c4839b5685b31dcb15b05c5dbf25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:28 +0000
Subject: [PATCH 31/47] fix: everything allocated for a request is released
 with it

---
 src/grengine.c | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index a2fc5cf..19e5aaa 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -19,6 +19,7 @@
 #include "greshunkel.h"
 #include "utils.h"
 #include "logging.h"
+#include "simple_sparsehash.h"
 #include "vector.h"
 #include "types.h"
 
@@ -396,9 +397,21 @@ error:
 	return -1;
 }
 
+static void _clean_up_extra_headers(m38_http_response *response) {
+	size_t i = 0;
+	for (i = 0; i < response->extra_headers->count; i++) {
+		m38_header_pair **pair = (m38_header_pair **)vector_get(response->extra_headers, i);
+		free((char *)(*pair)->header);
+		free((char *)(*pair)->value);
+		free(*pair);
+	}
+	vector_free(response->extra_headers);
+}
+
 m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *app) {
 	unsigned char *to_read = calloc(1, MAX_READ_LEN + 1);
 	char *actual_response = NULL;
+	char *content_type = NULL;
 	m38_http_response response = {
 		.mimetype = {0},
 		0
@@ -442,7 +455,7 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	/* Parses form encoding, if applicable: */
 	const char form_encoding[] = "application/x-www-form-urlencoded";
 	const size_t form_encoding_siz = strlen(form_encoding);
-	char *content_type = m38_get_header_value_request(&request, "Content-Type");
+	content_type = m38_get_header_value_request(&request, "Content-Type");
 
 	if (content_type &&
 			strlen(content_type) >= form_encoding_siz &&
@@ -590,7 +603,6 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		/* TODO: Add the custom header stuff here (for 206), too. */
 
 		m38_log_msg(LOG_INFO, "Range header parsed: Raw: %s Limit: %zu Offset: %zu", range_header_value, byte_range.limit, byte_range.offset);
-		free(range_header_value);
 
 		size_t end_byte = 0;
 		if (byte_range.limit == 0) {
@@ -642,31 +654,26 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	free(to_read);
 	free(request.full_header);
 	free(request.full_body);
-	free(request.form_elements);
+	if (request.form_elements != NULL)
+		sparse_dict_free(request.form_elements);
+	free(content_type);
+	free(range_header_value);
 	return hreq;
 
 error:
 	if (matching_route != NULL && matching_route->cleanup != NULL)
 		matching_route->cleanup(500, &response);
+	_clean_up_extra_headers(&response);
 	free(actual_response);
 	free(to_read);
 	free(request.full_header);
 	free(request.full_body);
-	free(request.form_elements);
+	if (request.form_elements != NULL)
+		sparse_dict_free(request.form_elements);
+	free(content_type);
 	return NULL;
 }
 
-static void _clean_up_extra_headers(m38_http_response *response) {
-	size_t i = 0;
-	for (i = 0; i < response->extra_headers->count; i++) {
-		m38_header_pair **pair = (m38_header_pair **)vector_get(response->extra_headers, i);
-		free((char *)(*pair)->header);
-		free((char *)(*pair)->value);
-		free(*pair);
-	}
-	vector_free(response->extra_headers);
-}
-
 m38_handled_request *m38_send_response(m38_handled_request *hreq) {
 	/* Send that shit over the wire: */
 	const m38_route *matching_route = hreq->matching_route;
-- 
2.43.0


From 8b25f061efa463e97cd87240e073d51be66d1969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:30 +0000
Subject: [PATCH 32/47] fix: short and interrupted sends continue where they
 stopped

---
 src/grengine.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 19e5aaa..e6e50b0 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -680,13 +680,15 @@ m38_handled_request *m38_send_response(m38_handled_request *hreq) {
 
 	const size_t bytes_left = hreq->response_len - hreq->sent;
 	const size_t to_send = bytes_left < 4096 ? bytes_left : 4096;
-	int rc = send(hreq->accept_fd, hreq->response_bytes + hreq->sent, to_send, MSG_NOSIGNAL);
+	ssize_t rc = send(hreq->accept_fd, hreq->response_bytes + hreq->sent, to_send, MSG_NOSIGNAL);
+	if (rc == -1 && errno == EINTR)
+		return hreq;
 	if (rc <= 0) {
 		m38_log_msg(LOG_ERR, "Could not send response.");
 		goto error;
 	}
 
-	hreq->sent += to_send;
+	hreq->sent += rc;
 
 	if (hreq->response_len - hreq->sent <= 0) {
 		if (matching_route->cleanup != NULL) {
-- 
2.43.0


From c6f8c0cfc20d2bcb6b8905045d5c3402ded6929c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:32 +0000
Subject: [PATCH 33/47] fix: a response that could not be sent is cleaned up
 like one that could

---
 src/grengine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index e6e50b0..5f0a69e 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -707,7 +707,7 @@ m38_handled_request *m38_send_response(m38_handled_request *hreq) {
 
 error:
 	if (matching_route != NULL && matching_route->cleanup != NULL)
-		matching_route->cleanup(500, &hreq->response);
+		matching_route->cleanup(hreq->response_code, &hreq->response);
 	_clean_up_extra_headers(&hreq->response);
 	close(hreq->accept_fd);
 	free(hreq->response_bytes);
-- 
2.43.0


From 1f5cdfa7dbb47f5489d0a6348ec049a799f293a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:34 +0000
Subject: [PATCH 34/47] fix: writing custom headers stays inside the response

---
 src/grengine.c | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 5f0a69e..9337e5c 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -316,6 +316,27 @@ static void log_request(const m38_http_request *request, const m38_http_response
 	free(user_agent);
 }
 
+static size_t extra_headers_size(const m38_http_response *response) {
+	size_t size = 0;
+	size_t i = 0;
+	for (i = 0; i < response->extra_headers->count; i++) {
+		m38_header_pair **pair = (m38_header_pair **)vector_get(response->extra_headers, i);
+		size += (*pair)->header_len + strlen(": ") + (*pair)->value_len
+							    + strlen("\r\n");
+	}
+
+	return size;
+}
+
+static void append_extra_headers(char *header, const m38_http_response *response) {
+	header += strlen(header);
+	size_t i = 0;
+	for (i = 0; i < response->extra_headers->count; i++) {
+		m38_header_pair **pair = (m38_header_pair **)vector_get(response->extra_headers, i);
+		header += sprintf(header, "%s: %s\r\n", (*pair)->header, (*pair)->value);
+	}
+}
+
 /* Only digits are a valid Content-Length, and nothing longer than what we'd read is of any use. */
 static int parse_content_length(const char *clength, size_t *clength_num) {
 	size_t num = 0;
@@ -571,12 +592,7 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		header_size = strlen(response.mimetype) + strlen(matched_response->message)
 			+ integer_length - strlen("%s") - strlen("%zu") + strlen(r_final);
 
-		size_t i = 0;
-		for (i = 0; i < response.extra_headers->count; i++) {
-			m38_header_pair **pair = (m38_header_pair **)vector_get(response.extra_headers, i);
-			header_size += (*pair)->header_len + strlen(": ") + (*pair)->value_len
-								    + strlen("\r\n");
-		}
+		header_size += extra_headers_size(&response);
 		actual_response_siz = response.outsize + header_size;
 		actual_response = malloc(actual_response_siz + 1);
 		memset(actual_response, '\0', actual_response_siz);
@@ -584,15 +600,7 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 
 		/* snprintf the header because it's just a string: */
 		snprintf(actual_response, actual_response_siz, matched_response->message, response.mimetype, response.outsize);
-		for (i = 0; i < response.extra_headers->count; i++) {
-			m38_header_pair **pair = (m38_header_pair **)vector_get(response.extra_headers, i);
-			const size_t siz = (*pair)->header_len + strlen(": ") + (*pair)->value_len
-								    + strlen("\r\n") + 1;
-			char buf[siz];
-			buf[siz] = '\0';
-			snprintf(buf, actual_response_siz, "%s: %s\r\n", (*pair)->header, (*pair)->value);
-			strncat(actual_response, buf, siz);
-		}
+		append_extra_headers(actual_response, &response);
 		strcat(actual_response, r_final);
 
 		/* memcpy the rest because it could be anything: */
-- 
2.43.0


From bf9d4c7f1707b1bd2288100be1f746f4c1e72e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:24 +0000
Subject: [PATCH 35/47] fix: partial responses announce and carry exactly the
 range that was asked for

---
 include/parse.h |  2 ++
 src/grengine.c  | 26 +++++++++++++++-----------
 src/parse.c     |  3 ++-
 3 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/include/parse.h b/include/parse.h
index 3684f87..04add2c 100644
--- a/include/parse.h
+++ b/include/parse.h
@@ -6,10 +6,12 @@
  * xXx DESCRIPTION=Used to represent the range header in HTTP requests. xXx
  * xXx limit=The limit of the range, eg. the length. xXx
  * xXx offset=The offset, in the file, that the user has requested. xXx
+ * xXx has_limit=Whether there is a limit at all. It is 0 if not, but that is also the limit of 'bytes=0-0'. xXx
  */
 typedef struct {
 	const size_t limit;
 	const size_t offset;
+	const int has_limit;
 } m38_range_header;
 
 /* xXx FUNCTION=m38_parse_range_header xXx
diff --git a/src/grengine.c b/src/grengine.c
index 9337e5c..e0d7408 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -563,7 +563,7 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 
 	/* Figure out if this thing needs to be partial */
 	char *range_header_value = m38_get_header_value_raw(request.full_header, request.header_len, "Range");
-	if (range_header_value && RESPONSE_OK(response_code)) {
+	if (range_header_value && response_code == 200 && response.outsize > 0) {
 		response_code = 206;
 	}
 
@@ -582,13 +582,13 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	 * compile time. */
 	assert(matched_response != NULL);
 
+	if (response.mimetype[0] == '\0')
+		memcpy(response.mimetype, "text/html", strlen("text/html"));
+
 	if (response_code == 200 || response_code == 404 || response_code == 301 ||
 			response_code == 302 ||response_code == 400 || response_code == 403 ||
 			response_code == 500) {
 		const size_t integer_length = UINT_LEN(response.outsize);
-		if (response.mimetype[0] == '\0')
-			memcpy(response.mimetype, "text/html", strlen("text/html"));
-
 		header_size = strlen(response.mimetype) + strlen(matched_response->message)
 			+ integer_length - strlen("%s") - strlen("%zu") + strlen(r_final);
 
@@ -608,15 +608,14 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	} else if (response_code == 206) {
 		/* Byte range queries have some extra shit. */
 		m38_range_header byte_range = m38_parse_range_header(range_header_value);
-		/* TODO: Add the custom header stuff here (for 206), too. */
 
 		m38_log_msg(LOG_INFO, "Range header parsed: Raw: %s Limit: %zu Offset: %zu", range_header_value, byte_range.limit, byte_range.offset);
 
 		size_t end_byte = 0;
-		if (byte_range.limit == 0) {
+		if (!byte_range.has_limit) {
 			end_byte = response.outsize - 1;
 		} else {
-			end_byte = (response.outsize - byte_range.limit) - 1;
+			end_byte = byte_range.limit;
 		}
 
 		if (end_byte >= response.outsize)
@@ -624,28 +623,33 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		const size_t start_byte = byte_range.offset < response.outsize ? byte_range.offset : 0;
 		const size_t max_size = response.outsize; /* Should be the same as file size. */
 		const size_t integer_length = UINT_LEN(max_size);
+		/* Both ends of the range are part of it. */
+		const size_t range_size = end_byte - start_byte + 1;
+		const size_t range_length = UINT_LEN(range_size);
 
 		const size_t minb_len = start_byte == 0 ? 1 : UINT_LEN(start_byte);
 		const size_t maxb_len = end_byte == 0 ? 1 : UINT_LEN(end_byte);
 		/* Compute the size of the header */
 		header_size = strlen(response.mimetype) + strlen(matched_response->message) + strlen(r_final)
-			+ integer_length + minb_len + maxb_len + integer_length
+			+ range_length + minb_len + maxb_len + integer_length
 			- strlen("%s") - (strlen("%zu") * 4);
-		actual_response_siz = max_size + header_size;
+		header_size += extra_headers_size(&response);
+		actual_response_siz = range_size + header_size;
 		/* malloc the full response */
 		actual_response = malloc(actual_response_siz + 1);
 		actual_response[actual_response_siz] = '\0';
 
 		/* snprintf the header because it's just a string: */
 		snprintf(actual_response, actual_response_siz, matched_response->message,
-			response.mimetype, max_size,
+			response.mimetype, range_size,
 			start_byte, end_byte, max_size);
 		m38_log_msg(LOG_INFO, "Sending back: Content-Range: %zu-%zu/%zu", start_byte, end_byte, max_size);
 
+		append_extra_headers(actual_response, &response);
 		strcat(actual_response, r_final);
 
 		/* memcpy the rest because it could be anything: */
-		memcpy(actual_response + header_size, response.out + start_byte, end_byte - start_byte);
+		memcpy(actual_response + header_size, response.out + start_byte, range_size);
 	}
 
 	log_request(&request, &response, response_code);
diff --git a/src/parse.c b/src/parse.c
index ec2fb96..6c25536 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -93,7 +93,8 @@ m38_range_header m38_parse_range_header(const char *range_query) {
 
 	m38_range_header rng = {
 		.limit = second_num,
-		.offset = first_num
+		.offset = first_num,
+		.has_limit = 1
 	};
 
 	return rng;
-- 
2.43.0


From 5bb7f715eef82b0799a3a37053290e77ff54e7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:26 +0000
Subject: [PATCH 36/47] fix: the size of a file is that of the one which was
 opened

---
 src/grengine.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index e0d7408..086cddd 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -189,16 +189,25 @@ static int mmap_file_ol(const char *file_path, m38_http_response *response,
 		return 404;
 	}
 	int fd = open(file_path, O_RDONLY);
-	if (fd <= 0) {
+	if (fd < 0) {
 		response->out = (unsigned char *)"<html><body><p>Could not open file.</p></body></html>";
 		response->outsize= strlen("<html><body><p>could not open file.</p></body></html>");
 		perror("mmap_file_ol: could not open file");
 		free(response->extra_data);
 		response->extra_data = NULL;
-		close(fd);
 		return 404;
 	}
 
+	/* The file might have been replaced since we looked at it by name. */
+	if (fstat(fd, response->extra_data) == -1) {
+		response->out = (unsigned char *)"<html><body><p>Could not open file.</p></body></html>";
+		response->outsize= strlen("<html><body><p>could not open file.</p></body></html>");
+		perror("mmap_file_ol: could not stat file");
+		free(response->extra_data);
+		response->extra_data = NULL;
+		close(fd);
+		return 404;
+	}
 
 	const struct stat st = *(struct stat *)response->extra_data;
 
-- 
2.43.0


From 1ff28051dc6825353531cc3f56dd5190c873eafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:27 +0000
Subject: [PATCH 37/47] fix: short paths have extensions too

---
 src/grengine.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 086cddd..d9d4427 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -235,10 +235,10 @@ static int mmap_file_ol(const char *file_path, m38_http_response *response,
 
 	/* Figure out the mimetype for this resource: */
 	char ending[16] = {0};
-	unsigned int i = sizeof(ending);
+	size_t i = 0;
 	int found_dot = 0;
 	const size_t res_len = strlen(file_path);
-	for (i = res_len; i > (res_len - sizeof(ending)); i--) {
+	for (i = res_len; i > 0 && res_len - i < sizeof(ending); i--) {
 		if (file_path[i] == '.') {
 			found_dot = 1;
 			break;
-- 
2.43.0


From 6c1b227d4a19ea6a9898d72cb909ec6ac845e28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:29 +0000
Subject: [PATCH 38/47] fix: m38_render_file frees the context even if there's
 no file to render

---
 src/grengine.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index d9d4427..f858da8 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -155,8 +155,10 @@ int m38_return_raw_buffer(const char *buf, const size_t buf_size, m38_http_respo
 
 int m38_render_file(const struct greshunkel_ctext *ctext, const char *file_path, m38_http_response *response) {
 	int rc = m38_mmap_file(file_path, response);
-	if (!RESPONSE_OK(rc))
+	if (!RESPONSE_OK(rc)) {
+		gshkl_free_context((greshunkel_ctext *)ctext);
 		return rc;
+	}
 
 	/* Render the mmap()'d file with greshunkel */
 	const char *mmapd_region = (char *)response->out;
@@ -169,6 +171,7 @@ int m38_render_file(const struct greshunkel_ctext *ctext, const char *file_path,
 	/* Clean up the stuff we're no longer using. */
 	munmap(response->out, original_size);
 	free(response->extra_data);
+	response->extra_data = NULL;
 
 	/* Make sure the response is kept up to date: */
 	response->outsize = new_size;
-- 
2.43.0


From ad6e357f79607387db6f9f4eb5fcde5dccf6ea18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:30 +0000
Subject: [PATCH 39/47] fix: threads logging at the same moment don't share
 their time stamps

---
 src/logging.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index f73c16c..8b695f2 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -31,8 +31,10 @@ void m38_log_msg(log_level level, const char *fmsg, ...) {
 	/* Time stuff */
 	struct timeval timest;
 	gettimeofday(&timest, NULL);
-	strftime(buffer, sizeof(buffer), "%b %d %H:%M:%S",
-			localtime(&timest.tv_sec));
+	/* There's one log and many threads, localtime would have them share its result. */
+	struct tm local = {0};
+	localtime_r(&timest.tv_sec, &local);
+	strftime(buffer, sizeof(buffer), "%b %d %H:%M:%S", &local);
 
 	switch (level) {
 		case LOG_INFO:
-- 
2.43.0


From 521acac66fd1c3618c9d94b307b5bd1574faf89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:49 +0000
Subject: [PATCH 40/47] fix: accept may also report EOPNOTSUPP for a connection
 that went away

---
 src/server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index bf42fc3..114bb03 100644
--- a/src/server.c
+++ b/src/server.c
@@ -97,7 +97,7 @@ static void *acceptor(void *arg) {
 			const int err = errno;
 			m38_log_msg(LOG_ERR, "Acceptor: Could not accept new connection.");
 			/* The socket itself is unusable, eg. it was shut down. */
-			if (err == EBADF || err == EINVAL || err == ENOTSOCK || err == EOPNOTSUPP)
+			if (err == EBADF || err == EINVAL || err == ENOTSOCK)
 				return NULL;
 			/* We ran out of something. Leave the others some time to release it. */
 			if (err == EMFILE || err == ENFILE || err == ENOBUFS || err == ENOMEM) {
-- 
2.43.0


From 1f019c0176f759da22b02562c1da948fd6e6b58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:42 +0000
Subject: [PATCH 41/47] fix: the empty argument of a filter before another one
 is not a missing argument

---
 src/greshunkel.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 06c54b0..fd2e6ad 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -365,13 +365,15 @@ _filter_line(const greshunkel_ctext *ctext, const line *current_line, const stru
 
 		if ((filter = find_needle(ctext, just_match_str, 0))) {
 
-			/* If the filter is closed before its argument begins, it has none: we matched up
-			 * to the end of another filter on this line. */
-			const int has_argument = start_of_first_XxX >= argument.start;
+			/* If the filter is closed right behind its name it has no argument: we matched up
+			 * to the end of another filter on this line. An argument can also be empty. */
+			const int has_argument = start_of_first_XxX > function_name.start + function_name.len;
+			const size_t argument_len = start_of_first_XxX > argument.start ?
+				start_of_first_XxX - argument.start : 0;
 
 			/* Render the argument out so we can pass it to the filter function. */
 			char *rendered_argument = has_argument ?
-				strndup(argument.start, start_of_first_XxX - argument.start) : NULL;
+				strndup(argument.start, argument_len) : NULL;
 
 			/* Pass it to the filter function. */
 			char *filter_result = filter->filter_func(rendered_argument);
-- 
2.43.0


From 78e710566e422aa386dd448c5ec1c26ae208d9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:59 +0000
Subject: [PATCH 42/47] fix: UNLESS on a sub-context's item copied one byte
 from behind the variable's name

---
 src/greshunkel.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index fd2e6ad..776d469 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -816,7 +816,7 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 			char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
 			char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
 			memcpy(sub_context_name, just_match_str, sub_ctext_match - just_match_str);
-			memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) + strlen("."));
+			memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) - strlen("."));
 
 			if ((tuple = find_needle(ctext, sub_context_name, 1)) && tuple->type == GSHKL_SUBCTEXT) {
 				const greshunkel_ctext *sub_ctext = tuple->value.sub_ctext;
@@ -891,7 +891,7 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 				char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
 				char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
 				memcpy(sub_context_name, just_match_str, sub_ctext_match - just_match_str);
-				memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) + strlen("."));
+				memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) - strlen("."));
 
 				if ((tuple = find_needle(ctext, sub_context_name, 1)) && tuple->type == GSHKL_SUBCTEXT) {
 					const greshunkel_ctext *sub_ctext = tuple->value.sub_ctext;
@@ -920,7 +920,7 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 				char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
 				char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
 				memcpy(sub_context_name, just_match_str, sub_ctext_match - just_match_str);
-				memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) + strlen("."));
+				memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) - strlen("."));
 
 				if ((tuple = find_needle(ctext, sub_context_name, 1)) && tuple->type == GSHKL_SUBCTEXT) {
 					const greshunkel_ctext *sub_ctext = tuple->value.sub_ctext;
-- 
2.43.0


From 5958b21898f2be29204a1da2dee1776c95cf135f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:09 +0000
Subject: [PATCH 43/47] fix: the Python binding passes the length of a template
 in bytes

---
 python/greshunkel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/greshunkel.py b/python/greshunkel.py
index e8f1a3c..466e762 100644
--- a/python/greshunkel.py
+++ b/python/greshunkel.py
@@ -65,6 +65,7 @@ class Template(object):
         self.template = template
 
     def render(self, context):
-        template_c_string = c_char_p(self.template.encode())
-        ret_c_str = lib38moths.gshkl_render(context.gshkl_ctext, template_c_string, len(self.template), None)
+        # The length is in bytes, and not every character is one byte.
+        template_bytes = self.template.encode()
+        ret_c_str = lib38moths.gshkl_render(context.gshkl_ctext, template_bytes, len(template_bytes), None)
         return ret_c_str.decode()
-- 
2.43.0


From a3d29bdcac5f2c59e00cbc4c0d2e4e9273f039a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:27 +0000
Subject: [PATCH 44/47] fix: the Python binding tells ctypes what the library's
 functions take

---
 python/greshunkel.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/greshunkel.py b/python/greshunkel.py
index 466e762..9fdb327 100644
--- a/python/greshunkel.py
+++ b/python/greshunkel.py
@@ -13,12 +13,18 @@ GshklFilterFunc = CFUNCTYPE(c_char_p, c_char_p)
 
 lib38moths = cdll.LoadLibrary("lib38moths.so")
 
+# Without argtypes ctypes passes pointers as ints, which cuts them in half.
 lib38moths.gshkl_init_context.restype = c_void_p
+lib38moths.gshkl_add_string.argtypes = [c_void_p, c_char_p, c_char_p]
+lib38moths.gshkl_add_int.argtypes = [c_void_p, c_char_p, c_int]
+lib38moths.gshkl_add_sub_context.argtypes = [c_void_p, c_char_p, c_void_p]
+lib38moths.gshkl_add_sub_context_to_loop.argtypes = [POINTER(greshunkel_var), c_void_p]
 lib38moths.gshkl_add_array.argtypes = [c_void_p, c_char_p]
 lib38moths.gshkl_add_array.restype = greshunkel_var
 lib38moths.gshkl_add_string_to_loop.argtypes = [POINTER(greshunkel_var), c_char_p]
 lib38moths.gshkl_add_int_to_loop.argtypes = [POINTER(greshunkel_var), c_int]
 lib38moths.gshkl_add_filter.argtypes = [c_void_p, c_char_p, GshklFilterFunc, c_void_p]
+lib38moths.gshkl_render.argtypes = [c_void_p, c_char_p, c_size_t, c_void_p]
 lib38moths.gshkl_render.restype = c_char_p
 
 def _add_item_to_greshunkel_loop(ctext, loop, value):
@@ -40,7 +46,7 @@ def _add_item_to_greshunkel_context(ctext, key, value):
     if isinstance(value, str):
         lib38moths.gshkl_add_string(ctext, c_char_p(key.encode()), c_char_p(value.encode()))
     elif isinstance(value, int):
-        lib38moths.gshkl_add_int(ctext, c_char_p(key.encode()), c_size_t(value))
+        lib38moths.gshkl_add_int(ctext, c_char_p(key.encode()), value)
     elif isinstance(value, list):
         converted_key = c_char_p(key.encode())
         new_loop = lib38moths.gshkl_add_array(ctext, converted_key)
-- 
2.43.0


From f4646f1977141edef4c270d2446e6b9b298c3020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 45/47] fix: form keys are decoded like values, and only the
 first '=' separates the two

---
 src/parse.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 6c25536..700f0f1 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -257,19 +257,27 @@ int m38_parse_form_encoded_body(m38_http_request *request) {
 		char *key = NULL;
 		char *value = NULL;
 		key = strsep(&potential_kv_pair, "=");
-		value = strsep(&potential_kv_pair, "=");
+		/* Only the first '=' separates, the value is everything after it. */
+		value = potential_kv_pair;
 
 		if (!key || !value) {
 			continue;
 		}
 
-		char *decoded_buffer = calloc(1, strlen(value) + 1);
-		if (decoded_buffer && m38_url_decode(value, decoded_buffer) > 0) {
-			sparse_dict_set(new_dict, key, strlen(key), decoded_buffer, strlen(decoded_buffer));
+		/* Both are encoded, and either can decode to something with NULs in it. The length we
+		 * get back includes the terminator.
+		 */
+		char *decoded_key = calloc(1, strlen(key) + 1);
+		char *decoded_value = calloc(1, strlen(value) + 1);
+		const int key_len = decoded_key ? m38_url_decode(key, decoded_key) : -1;
+		const int value_len = decoded_value ? m38_url_decode(value, decoded_value) : -1;
+		if (key_len > 0 && value_len > 0) {
+			sparse_dict_set(new_dict, decoded_key, key_len - 1, decoded_value, value_len - 1);
 		} else {
 			m38_log_msg(LOG_WARN, "Could not place item into form elements dict.");
 		}
-		free(decoded_buffer);
+		free(decoded_key);
+		free(decoded_value);
 	}
 
 	request->form_elements = new_dict;
-- 
2.43.0


From 18196362e5d6bcd696a6beb2670fdfdb72923382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 46/47] fix: the value of the last cookie ended at a space in
 it

---
 src/utils.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index 30cd7d8..95052fb 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -143,9 +143,7 @@ char *m38_get_cookie_value(const char *cookie_string, const size_t cookie_string
 	const char *cookie_string_end = strnstr(cookie_loc, ";", cookie_string_siz - (cookie_loc - cookie_string));
 	if (!cookie_string_end) {
 			/* This is okay, it might be at the end of the cookie. */
-			cookie_string_end = strnstr(cookie_loc, " ", cookie_string_siz - (cookie_loc - cookie_string));
-			if (!cookie_string_end)
-					cookie_string_end = all_cookies_end;
+			cookie_string_end = all_cookies_end;
 	}
 
 	const size_t cookie_string_size = cookie_string_end - cookie_string_start;
-- 
2.43.0


From b886d7f99a9b47e78216ed0db72a5032e5cea689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 47/47] fix: the Content-Type of a form may be spelled in any
 case

---
 src/grengine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index f858da8..e7e5d65 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -492,7 +492,7 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 
 	if (content_type &&
 			strlen(content_type) >= form_encoding_siz &&
-			strncmp(form_encoding, content_type, form_encoding_siz) == 0) {
+			strncasecmp(form_encoding, content_type, form_encoding_siz) == 0) {
 		rc = m38_parse_form_encoded_body(&request);
 		if (rc != 0) {
 			/* application/x-www-form-urlencoded */
-- 
2.43.0

