From ad8340f5eb00e40785649446ddca8bb7b47478fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:35 +0000
Subject: [PATCH 01/25] fix: base64_decode: Do not index the table with
 negative char values

Where char is signed, any input byte >= 0x80 led to reading (or with exotic
BASE64_OPTIONS even writing) out of bounds of the table.
---
 encode/base64.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/encode/base64.c b/encode/base64.c
index ac5407a..31976be 100644
--- a/encode/base64.c
+++ b/encode/base64.c
@@ -153,13 +153,13 @@ base64_decode(const char* in_buf, unsigned in_size,
     /* Build table. */
     memset(table, 0xff, 256);
     for(i = 0; i < 62; i++)
-        table[(int) base64_table_core[i]] = i;
-    table[(int) options->ch62] = 62;
-    table[(int) options->ch63] = 63;
+        table[(uint8_t) base64_table_core[i]] = i;
+    table[(uint8_t) options->ch62] = 62;
+    table[(uint8_t) options->ch63] = 63;
 
     /* Validate the input. */
     for(in_off = 0; in_off < in_size; in_off++) {
-        if(table[(int) in[in_off]] == 0xff)
+        if(table[(uint8_t) in[in_off]] == 0xff)
             return -EINVAL;
     }
 
@@ -175,13 +175,13 @@ base64_decode(const char* in_buf, unsigned in_size,
             break;
 
         case 2:
-            if(table[(int) in[in_size-1]] & 0x4f)
+            if(table[(uint8_t) in[in_size-1]] & 0x4f)
                 return -EINVAL;
             out_size_needed += 1;
             break;
 
         case 3:
-            if(table[(int) in[in_size-1]] & 0xc3)
+            if(table[(uint8_t) in[in_size-1]] & 0xc3)
                 return -EINVAL;
             out_size_needed += 2;
             break;
@@ -197,10 +197,10 @@ base64_decode(const char* in_buf, unsigned in_size,
     /* Main loop. */
     in_off = 0;
     while(in_off + 4 <= in_size) {
-        v  = (unsigned)table[(int) in[in_off++]] << 18;
-        v |= (unsigned)table[(int) in[in_off++]] << 12;
-        v |= (unsigned)table[(int) in[in_off++]] << 6;
-        v |= (unsigned)table[(int) in[in_off++]];
+        v  = (unsigned)table[(uint8_t) in[in_off++]] << 18;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 12;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 6;
+        v |= (unsigned)table[(uint8_t) in[in_off++]];
 
         out[out_off++] = (v >> 16) & 0xff;
         out[out_off++] = (v >>  8) & 0xff;
@@ -208,13 +208,13 @@ base64_decode(const char* in_buf, unsigned in_size,
     }
 
     if(in_off + 2 == in_size) {
-        v  = (unsigned)table[(int) in[in_off++]] << 18;
-        v |= (unsigned)table[(int) in[in_off++]] << 12;
+        v  = (unsigned)table[(uint8_t) in[in_off++]] << 18;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 12;
         out[out_off++] = (v >> 16) & 0xff;
     } else if(in_off + 3 == in_size) {
-        v  = (unsigned)table[(int) in[in_off++]] << 18;
-        v |= (unsigned)table[(int) in[in_off++]] << 12;
-        v |= (unsigned)table[(int) in[in_off++]] << 6;
+        v  = (unsigned)table[(uint8_t) in[in_off++]] << 18;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 12;
+        v |= (unsigned)table[(uint8_t) in[in_off++]] << 6;
         out[out_off++] = (v >> 16) & 0xff;
         out[out_off++] = (v >>  8) & 0xff;
     }
-- 
2.43.0


From fc3e530a30cdfa6c57936fc8e02bfac4f6889ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:35 +0000
Subject: [PATCH 02/25] fix: hex_decode: Refuse letters which are not
 hexadecimal digits

---
 encode/hex.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/encode/hex.c b/encode/hex.c
index 7a3e6db..45213eb 100644
--- a/encode/hex.c
+++ b/encode/hex.c
@@ -87,9 +87,9 @@ hex_decode(const char* in_buf, unsigned in_size, void* out_buf, unsigned out_siz
     while(in < in_end  &&  out < out_end) {
         if('0' <= *in  &&  *in <= '9')
             *out = (*in - '0') << 4;
-        else if('a' <= *in  &&  *in <= 'z')
+        else if('a' <= *in  &&  *in <= 'f')
             *out = (*in - 'a' + 10) << 4;
-        else if('A' <= *in  &&  *in <= 'Z')
+        else if('A' <= *in  &&  *in <= 'F')
             *out = (*in - 'A' + 10) << 4;
         else
             return -1;
@@ -97,9 +97,9 @@ hex_decode(const char* in_buf, unsigned in_size, void* out_buf, unsigned out_siz
 
         if('0' <= *in  &&  *in <= '9')
             *out |= (*in - '0');
-        else if('a' <= *in  &&  *in <= 'z')
+        else if('a' <= *in  &&  *in <= 'f')
             *out |= (*in - 'a' + 10);
-        else if('A' <= *in  &&  *in <= 'Z')
+        else if('A' <= *in  &&  *in <= 'F')
             *out |= (*in - 'A' + 10);
         else
             return -1;
-- 
2.43.0


From b002ba7ab46e3801738a16587d57ce450b04c64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:35 +0000
Subject: [PATCH 03/25] fix: buffer: Refuse sizes whose sum overflows

buffer_reserve() and the functions built on top of it could wrap around, report
success without providing the memory, and so let the caller write out of the
buffer; or loop forever when rounding the size.
---
 data/buffer.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/data/buffer.c b/data/buffer.c
index 548d355..90ba24b 100644
--- a/data/buffer.c
+++ b/data/buffer.c
@@ -37,6 +37,9 @@ buffer_good_alloc_size(size_t requested_alloc)
         good_alloc = 16;
         while(good_alloc < requested_alloc)
             good_alloc *= 2;
+    } else if(requested_alloc > SIZE_MAX / 2) {
+        /* No place for any rounding. */
+        good_alloc = requested_alloc;
     } else {
         /* For larger buffers we subtract 32 bytes as the libc heap allocator
          * needs some space for internal bookkeeping, and these would cause
@@ -86,6 +89,9 @@ buffer_reserve(BUFFER* buf, size_t n)
 {
     size_t alloc;
 
+    if(n > SIZE_MAX - buf->size)
+        return -1;
+
     if(buf->size + n < buf->alloc)
         return 0;
 
@@ -108,7 +114,7 @@ buffer_shrink(BUFFER* buf)
 void*
 buffer_insert_raw(BUFFER* buf, size_t off, size_t n)
 {
-    if(buf->size + n > buf->alloc) {
+    if(n > buf->alloc - buf->size) {
         if(buffer_reserve(buf, n) != 0)
             return NULL;
     }
-- 
2.43.0


From 1f097eaec1e5d6112f0adf768ab72c8ea171198e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:35 +0000
Subject: [PATCH 04/25] fix: buffer_remove: Do not overflow when n is huge

---
 data/buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/buffer.c b/data/buffer.c
index 90ba24b..66e04e2 100644
--- a/data/buffer.c
+++ b/data/buffer.c
@@ -142,7 +142,7 @@ buffer_insert(BUFFER* buf, size_t off, const void* data, size_t n)
 void
 buffer_remove(BUFFER* buf, size_t off, size_t n)
 {
-    if(off + n < buf->size) {
+    if(off < buf->size  &&  n < buf->size - off) {
         memmove((uint8_t*)buf->data + off, (uint8_t*)buf->data + off + n, buf->size - off - n);
         buf->size -= n;
     } else {
-- 
2.43.0


From b62e92765efd94a43d93decb06ee21a6e9d19ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:35 +0000
Subject: [PATCH 05/25] fix: buffer_insert: Inserting 0 bytes into an empty
 buffer is not a failure

---
 data/buffer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/data/buffer.c b/data/buffer.c
index 66e04e2..4389e84 100644
--- a/data/buffer.c
+++ b/data/buffer.c
@@ -131,6 +131,9 @@ buffer_insert(BUFFER* buf, size_t off, const void* data, size_t n)
 {
     void* ptr;
 
+    if(n == 0)
+        return 0;
+
     ptr = buffer_insert_raw(buf, off, n);
     if(ptr == NULL)
         return -1;
-- 
2.43.0


From bfd9ef48b98bc4372ae97fba7929e19b75be16e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 06/25] fix: memchunk_alloc: Refuse huge sizes instead of
 overflowing

The sums and products wrapped around, so a huge request could be answered with
a pointer to few (or no) bytes.
---
 mem/memchunk.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mem/memchunk.c b/mem/memchunk.c
index 7682ed3..c223e79 100644
--- a/mem/memchunk.c
+++ b/mem/memchunk.c
@@ -46,10 +46,11 @@ void*
 memchunk_alloc(MEMCHUNK* chunk, size_t size)
 {
     void* ptr;
+    size_t free_size = (chunk->head != NULL) ? chunk->block_size - chunk->free_off : 0;
 
     /* Not enough free space in the head block? */
-    if(chunk->head == NULL  ||  chunk->free_off + size > chunk->block_size) {
-        if(4 * size > chunk->block_size) {
+    if(chunk->head == NULL  ||  size > free_size) {
+        if(size > chunk->block_size / 4) {
             /* A big allocation.
              *
              * If application asks for more memory than the block size, we
@@ -63,6 +64,9 @@ memchunk_alloc(MEMCHUNK* chunk, size_t size)
              * future smaller requests. */
             MEMCHUNK_BLOCK* block;
 
+            if(size > (size_t) -1 - sizeof(MEMCHUNK_BLOCK))
+                return NULL;
+
             block = malloc(sizeof(MEMCHUNK_BLOCK) + size);
             if(block == NULL)
                 return NULL;
-- 
2.43.0


From 1efd45a7f5f7bf39e34cb40a9b41944ba008345e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 07/25] fix: MALLOCA: Do not overflow when the size is close to
 SIZE_MAX

---
 mem/malloca.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/mem/malloca.h b/mem/malloca.h
index b9fa607..1d03264 100644
--- a/mem/malloca.h
+++ b/mem/malloca.h
@@ -70,6 +70,23 @@ malloca_set_mark__(void* ptr, int mark)
     return ptr;
 }
 
+/* Helper. Do not use directly. */
+static
+#if defined __STDC_VERSION__ && __STDC_VERSION__ >= 199901L
+    inline
+#elif defined __GNUC__
+    __inline__
+#elif defined _MSC_VER
+    __inline
+#endif
+void*
+malloca_malloc__(size_t size)
+{
+    if(size > (size_t) -1 - sizeof(void*))
+        return NULL;
+    return malloca_set_mark__(malloc(size + sizeof(void*)), 0xdddd);
+}
+
 
 /* Allocate block of memory via malloc() or alloca(), depending on the
  * requested amount of memory.
@@ -84,7 +101,7 @@ malloca_set_mark__(void* ptr, int mark)
 #define MALLOCA_(size, threshold)                                           \
     ((size) < (threshold) - sizeof(void*)                                   \
         ? malloca_set_mark__(CRE_alloca__(size + sizeof(void*)), 0xcccc)    \
-        : malloca_set_mark__(malloc(size + sizeof(void*)), 0xdddd))
+        : malloca_malloc__(size))
 
 #define MALLOCA(size)       MALLOCA_((size), MALLOCA_THRESHOLD)
 
-- 
2.43.0


From 8173facae3c4ba028a389ab339c04ed4651adb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 08/25] fix: MALLOCA_: Handle small thresholds and arguments
 which are expressions

A threshold below sizeof(void*) wrapped around so that anything was allocated
on the stack; and the size was not parenthesized in the macro.
---
 mem/malloca.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mem/malloca.h b/mem/malloca.h
index 1d03264..4f9a168 100644
--- a/mem/malloca.h
+++ b/mem/malloca.h
@@ -99,8 +99,8 @@ malloca_malloc__(size_t size)
  * anymore, release it with FREEA().
  */
 #define MALLOCA_(size, threshold)                                           \
-    ((size) < (threshold) - sizeof(void*)                                   \
-        ? malloca_set_mark__(CRE_alloca__(size + sizeof(void*)), 0xcccc)    \
+    (((threshold) > sizeof(void*)  &&  (size) < (threshold) - sizeof(void*))\
+        ? malloca_set_mark__(CRE_alloca__((size) + sizeof(void*)), 0xcccc)  \
         : malloca_malloc__(size))
 
 #define MALLOCA(size)       MALLOCA_((size), MALLOCA_THRESHOLD)
-- 
2.43.0


From c553d9ca2a77da088bd7689bd0825b0b86d374e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 09/25] fix: FREEA: Do not clash with a variable of the caller
 called x

FREEA(x) initialized the inner variable from itself.
---
 mem/malloca.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mem/malloca.h b/mem/malloca.h
index 4f9a168..88fe3a6 100644
--- a/mem/malloca.h
+++ b/mem/malloca.h
@@ -110,9 +110,9 @@ malloca_malloc__(size_t size)
 #define FREEA(ptr)                                                          \
     do {                                                                    \
         if((ptr) != NULL) {                                                 \
-            int* x = (int*)((char*)(ptr) - sizeof(void*));                  \
-            if(*x == 0xdddd)                                                \
-                free(x);                                                    \
+            int* freea_mark__ = (int*)((char*)(ptr) - sizeof(void*));       \
+            if(*freea_mark__ == 0xdddd)                                     \
+                free(freea_mark__);                                         \
         }                                                                   \
     } while(0)
 
-- 
2.43.0


From 28d5451e542fe168dee1977bd7134cce3c0b5c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 10/25] fix: cmdline_read: Ignore short names of compiler-like
 options in groups

The short name of such option is documented to be ignored.
---
 misc/cmdline.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misc/cmdline.c b/misc/cmdline.c
index bf518b7..6791894 100644
--- a/misc/cmdline.c
+++ b/misc/cmdline.c
@@ -49,7 +49,8 @@ cmdline_handle_short_opt_group(const CMDLINE_OPTION* options, const char* arggro
 
     for(i = 0; arggroup[i] != '\0'; i++) {
         for(opt = options; opt->id != 0; opt++) {
-            if(arggroup[i] == opt->shortname)
+            if(arggroup[i] == opt->shortname  &&
+               !(opt->flags & CMDLINE_OPTFLAG_COMPILERLIKE))
                 break;
         }
 
-- 
2.43.0


From b6ae3275d9d798a358830689bcb72b63c20b4277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 11/25] fix: memstream: Do not overflow in CopyTo() when asked
 to copy everything

---
 win32/memstream.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/win32/memstream.c b/win32/memstream.c
index 98acb22..78ca42d 100644
--- a/win32/memstream.c
+++ b/win32/memstream.c
@@ -180,8 +180,10 @@ memstream_CopyTo(IStream* self, IStream* other, ULARGE_INTEGER n,
     ULONG written;
     HRESULT hr;
 
-    if(s->pos + n.QuadPart >= s->size)
-        n.QuadPart = (s->pos < s->size ? s->size - s->pos : 0);
+    if(s->pos >= s->size)
+        n.QuadPart = 0;
+    else if(n.QuadPart > s->size - s->pos)
+        n.QuadPart = s->size - s->pos;
 
     hr = IStream_Write(other, s->buffer + s->pos, (ULONG) n.QuadPart, &written);
 
-- 
2.43.0


From cae001a9474ca4709b9b859a844a25c996b217c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 12/25] fix: memstream: Return a failing HRESULT when out of
 memory

ERROR_OUTOFMEMORY is a Win32 error code; as HRESULT it means success.
---
 win32/memstream.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/win32/memstream.c b/win32/memstream.c
index 78ca42d..92e4754 100644
--- a/win32/memstream.c
+++ b/win32/memstream.c
@@ -291,7 +291,7 @@ memstream_create(const BYTE* buffer, ULONG size, IStream** p_stream)
     s = (MEMSTREAM*) malloc(sizeof(MEMSTREAM));
     if(s == NULL) {
         *p_stream = NULL;
-        return ERROR_OUTOFMEMORY;
+        return E_OUTOFMEMORY;
     }
 
     s->buffer = buffer;
-- 
2.43.0


From 9f197bd4a1238fb0a840842f4647d16d5eaf5435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 13/25] fix: value_dict_add: Fail for a key which is present
 but not initialized yet

---
 data/value.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/data/value.c b/data/value.c
index 36ad911..5d367cc 100644
--- a/data/value.c
+++ b/data/value.c
@@ -1144,9 +1144,11 @@ VALUE*
 value_dict_add_(VALUE* v, const char* key, size_t key_len)
 {
     VALUE* res;
+    size_t old_size;
 
+    old_size = value_dict_size(v);
     res = value_dict_get_or_add_(v, key, key_len);
-    return (value_is_new(res) ? res : NULL);
+    return (value_dict_size(v) > old_size ? res : NULL);
 }
 
 VALUE*
-- 
2.43.0


From 279913c00da06a69b4bf8cf54975549e19d5e00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 14/25] fix: value_array_remove_range: Do not overflow in the
 range check

---
 data/value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/value.c b/data/value.c
index 5d367cc..f199006 100644
--- a/data/value.c
+++ b/data/value.c
@@ -846,7 +846,7 @@ value_array_remove_range(VALUE* v, size_t index, size_t count)
     ARRAY* a = value_array_payload(v);
     size_t i;
 
-    if(a == NULL  ||  index + count > a->size)
+    if(a == NULL  ||  index > a->size  ||  count > a->size - index)
         return -1;
 
     for(i = index; i < index + count; i++)
-- 
2.43.0


From b79544c01192d268fda2655a6401bc03d7c002c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 15/25] fix: value_path: Do not wrap around when an array index
 is huge

---
 data/value.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/data/value.c b/data/value.c
index f199006..c5b2ecb 100644
--- a/data/value.c
+++ b/data/value.c
@@ -265,6 +265,8 @@ value_path_ex(VALUE* root, const char* path, int allow_build)
             }
 
             while('0' <= *token_beg  &&  *token_beg <= '9') {
+                if(index > (SIZE_MAX - 9) / 10)
+                    return NULL;    /* Surely out of bounds. */
                 index = index * 10 + (*token_beg - '0');
                 token_beg++;
             }
-- 
2.43.0


From bc7e457a0495491211e31ac2e38614d7e234f797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 16/25] fix: value_build_path: Keep the value new if its
 initialization fails

Without that, a path which could not be built because of lack of memory could
never be built later as it was blocked by the half-created value.
---
 data/value.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/data/value.c b/data/value.c
index c5b2ecb..fde733e 100644
--- a/data/value.c
+++ b/data/value.c
@@ -232,6 +232,8 @@ value_is_new(const VALUE* v)
 }
 
 
+static void value_init_new(VALUE* v);
+
 static VALUE*
 value_path_ex(VALUE* root, const char* path, int allow_build)
 {
@@ -274,8 +276,10 @@ value_path_ex(VALUE* root, const char* path, int allow_build)
                 return NULL;
 
             if(allow_build  &&  value_is_new(v)) {
-                if(value_init_array(v) != 0)
+                if(value_init_array(v) != 0) {
+                    value_init_new(v);
                     return NULL;
+                }
             }
 
             if(sign < 0) {
@@ -296,8 +300,10 @@ value_path_ex(VALUE* root, const char* path, int allow_build)
         } else if(token_end - token_beg > 0) {
             if(allow_build) {
                 if(value_is_new(v)) {
-                    if(value_init_dict(v) != 0)
+                    if(value_init_dict(v) != 0) {
+                        value_init_new(v);
                         return NULL;
+                    }
                 }
                 v = value_dict_get_or_add_(v, token_beg, token_end - token_beg);
             } else {
-- 
2.43.0


From c4747e61b76a4bbf4d3d96e8626e09cafa74c650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:57 +0000
Subject: [PATCH 17/25] fix: crc32: Do not overflow the counter when there are
 more than INT_MAX bytes

---
 hash/crc32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/crc32.c b/hash/crc32.c
index 09398c7..7738aff 100644
--- a/hash/crc32.c
+++ b/hash/crc32.c
@@ -122,7 +122,7 @@ crc32(const void* data, size_t n)
 {
     const uint8_t* bytes = (const uint8_t*) data;
     uint32_t crcreg = CRC32_INITXOR;
-    int i;
+    size_t i;
 
     for(i = 0; i < n; i++)
         crcreg = (crcreg >> 8) ^ crc32_table[((crcreg ^ bytes[i]) & 0xffU)];
-- 
2.43.0


From a984a9754f7ee313f274e951c5e48ab06f4e4960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:57 +0000
Subject: [PATCH 18/25] fix: value_string_length: Do not overflow for strings
 longer than 2 GiB

---
 data/value.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/value.c b/data/value.c
index fde733e..c8fd46c 100644
--- a/data/value.c
+++ b/data/value.c
@@ -715,11 +715,11 @@ value_string_length(const VALUE* v)
 
     payload = value_payload((VALUE*) v);
     while(payload[off] & 0x80) {
-        len |= (payload[off] & 0x7f) << shift;
+        len |= (size_t) (payload[off] & 0x7f) << shift;
         shift += 7;
         off++;
     }
-    len |= payload[off] << shift;
+    len |= (size_t) payload[off] << shift;
 
     return len;
 }
-- 
2.43.0


From f119cbfc7416cef6bcfff19d54060326a67f752e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:18 +0000
Subject: [PATCH 19/25] fix: array_XXX_insert_n_raw/append_n: Refuse counts
 whose size in bytes overflows

Such a request was reported as successful although only few items were added.
---
 data/buffer.h | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/data/buffer.h b/data/buffer.h
index a15d99c..60a364d 100644
--- a/data/buffer.h
+++ b/data/buffer.h
@@ -511,24 +511,32 @@ BUFFER_INLINE__ int array_ptr_insert(ARRAY_uint64* array, size_t index, void* pt
             return (addr != NULL) ? 0 : -1;
         }
 
+/* Helper. Do not use directly. */
+BUFFER_INLINE__ int array_insert_n_raw__(BUFFER* buf, size_t index, size_t n, size_t item_size)
+        {
+            if(n > (size_t) -1 / item_size)
+                return -1;
+            return (buffer_insert_raw(buf, index * item_size, n * item_size) != NULL ? 0 : -1);
+        }
+
 BUFFER_INLINE__ int array_int8_insert_n_raw(ARRAY_int8* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(int8_t), n * sizeof(int8_t)) != NULL ? 0 : -1); }
+        { return array_insert_n_raw__(&array->buf, index, n, sizeof(int8_t)); }
 BUFFER_INLINE__ int array_uint8_insert_n_raw(ARRAY_uint8* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(uint8_t), n * sizeof(uint8_t)) != NULL ? 0 : -1); }
+        { return array_insert_n_raw__(&array->buf, index, n, sizeof(uint8_t)); }
 BUFFER_INLINE__ int array_int16_insert_n_raw(ARRAY_int16* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(int16_t), n * sizeof(int16_t)) != NULL ? 0 : -1); }
+        { return array_insert_n_raw__(&array->buf, index, n, sizeof(int16_t)); }
 BUFFER_INLINE__ int array_uint16_insert_n_raw(ARRAY_uint16* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(uint16_t), n * sizeof(uint16_t)) != NULL ? 0 : -1); }
+        { return array_insert_n_raw__(&array->buf, index, n, sizeof(uint16_t)); }
 BUFFER_INLINE__ int array_int32_insert_n_raw(ARRAY_int32* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(int32_t), n * sizeof(int32_t)) != NULL ? 0 : -1); }
+        { return array_insert_n_raw__(&array->buf, index, n, sizeof(int32_t)); }
 BUFFER_INLINE__ int array_uint32_insert_n_raw(ARRAY_uint32* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(uint32_t), n * sizeof(uint32_t)) != NULL ? 0 : -1); }
+        { return array_insert_n_raw__(&array->buf, index, n, sizeof(uint32_t)); }
 BUFFER_INLINE__ int array_int64_insert_n_raw(ARRAY_int64* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(int64_t), n * sizeof(int64_t)) != NULL ? 0 : -1); }
+        { return array_insert_n_raw__(&array->buf, index, n, sizeof(int64_t)); }
 BUFFER_INLINE__ int array_uint64_insert_n_raw(ARRAY_uint64* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(uint64_t), n * sizeof(uint64_t)) != NULL ? 0 : -1); }
+        { return array_insert_n_raw__(&array->buf, index, n, sizeof(uint64_t)); }
 BUFFER_INLINE__ int array_ptr_insert_n_raw(ARRAY_ptr* array, size_t index, size_t n)
-        { return (buffer_insert_raw(&array->buf, index * sizeof(void*), n * sizeof(void*)) != NULL ? 0 : -1); }
+        { return array_insert_n_raw__(&array->buf, index, n, sizeof(void*)); }
 
 BUFFER_INLINE__ int array_int8_append_raw(ARRAY_int8* array)
         { return (buffer_append_raw(&array->buf, sizeof(int8_t)) != NULL ? 0 : -1); }
@@ -623,23 +631,23 @@ BUFFER_INLINE__ int array_ptr_append(ARRAY_ptr* array, void* ptr)
         }
 
 BUFFER_INLINE__ int array_int8_append_n(ARRAY_int8* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(int8_t)) != NULL ? 0 : -1); }
+        { return array_insert_n_raw__(&array->buf, array_int8_size(array), n, sizeof(int8_t)); }
 BUFFER_INLINE__ int array_uint8_append_n(ARRAY_uint8* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(uint8_t)) != NULL ? 0 : -1); }
+        { return array_insert_n_raw__(&array->buf, array_uint8_size(array), n, sizeof(uint8_t)); }
 BUFFER_INLINE__ int array_int16_append_n(ARRAY_int16* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(int16_t)) != NULL ? 0 : -1); }
+        { return array_insert_n_raw__(&array->buf, array_int16_size(array), n, sizeof(int16_t)); }
 BUFFER_INLINE__ int array_uint16_append_n(ARRAY_uint16* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(uint16_t)) != NULL ? 0 : -1); }
+        { return array_insert_n_raw__(&array->buf, array_uint16_size(array), n, sizeof(uint16_t)); }
 BUFFER_INLINE__ int array_int32_append_n(ARRAY_int32* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(int32_t)) != NULL ? 0 : -1); }
+        { return array_insert_n_raw__(&array->buf, array_int32_size(array), n, sizeof(int32_t)); }
 BUFFER_INLINE__ int array_uint32_append_n(ARRAY_uint32* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(uint32_t)) != NULL ? 0 : -1); }
+        { return array_insert_n_raw__(&array->buf, array_uint32_size(array), n, sizeof(uint32_t)); }
 BUFFER_INLINE__ int array_int64_append_n(ARRAY_int64* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(int64_t)) != NULL ? 0 : -1); }
+        { return array_insert_n_raw__(&array->buf, array_int64_size(array), n, sizeof(int64_t)); }
 BUFFER_INLINE__ int array_uint64_append_n(ARRAY_uint64* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(uint64_t)) != NULL ? 0 : -1); }
+        { return array_insert_n_raw__(&array->buf, array_uint64_size(array), n, sizeof(uint64_t)); }
 BUFFER_INLINE__ int array_ptr_append_n(ARRAY_ptr* array, size_t n)
-        { return (buffer_append_raw(&array->buf, n * sizeof(void*)) != NULL ? 0 : -1); }
+        { return array_insert_n_raw__(&array->buf, array_ptr_size(array), n, sizeof(void*)); }
 
 BUFFER_INLINE__ void array_int8_remove(ARRAY_int8* array, size_t index)
         { buffer_remove(&array->buf, index * sizeof(int8_t), sizeof(int8_t)); }
-- 
2.43.0


From d4161d09ca48cffb4c96b12eacb2069b0054cd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:18 +0000
Subject: [PATCH 20/25] fix: base64: Refuse inputs whose output size is not
 representable

base64_encode() with more than 3 GiB of input wrote far behind the end of
the output buffer, as the computation of the needed size overflowed.
---
 encode/base64.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/encode/base64.c b/encode/base64.c
index 31976be..b6dcd8b 100644
--- a/encode/base64.c
+++ b/encode/base64.c
@@ -26,6 +26,7 @@
 #include "base64.h"
 
 #include <errno.h>
+#include <limits.h>
 #include <stdint.h>
 #include <string.h>
 
@@ -52,6 +53,10 @@ base64_encode(const void* in_buf, unsigned in_size,
     if(options == NULL)
         options = &base64_def_options;
 
+    /* The output size has to be representable as int. */
+    if(in_size > (INT_MAX - 1) / 4 * 3)
+        return -EINVAL;
+
     /* Every three bytes are encoded into 4 characters of output.
      * Finally add +1 for zero terminator. */
     out_size_needed = ((in_size + 2) / 3) * 4;
@@ -187,6 +192,10 @@ base64_decode(const char* in_buf, unsigned in_size,
             break;
     }
 
+    /* The output size has to be representable as int. */
+    if(out_size_needed > INT_MAX)
+        return -EINVAL;
+
     if(out_buf == NULL)
         return out_size_needed;
 
-- 
2.43.0


From 74c594c0397489b686a301955c15698a2f7128ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:18 +0000
Subject: [PATCH 21/25] fix: hex_encode: Refuse inputs whose output size is not
 representable

The check of the output buffer size overflowed for 2 GiB or more of input.
---
 encode/hex.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/encode/hex.c b/encode/hex.c
index 45213eb..e788df2 100644
--- a/encode/hex.c
+++ b/encode/hex.c
@@ -25,6 +25,8 @@
 
 #include "hex.h"
 
+#include <limits.h>
+
 
 int
 hex_encode(const void* in_buf, unsigned in_size,
@@ -39,6 +41,10 @@ hex_encode(const void* in_buf, unsigned in_size,
     char* out;
     char* out_end;
 
+    /* The output size has to be representable as int. */
+    if(in_size > (INT_MAX - 1) / 2)
+        return -1;
+
     if(out_buf == NULL)
         return in_size * 2 + 1;
 
-- 
2.43.0


From d65589118d73674bba30d12f2291fd99cdffcc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:57 +0000
Subject: [PATCH 22/25] fix: value_path: Refuse malformed array indexes

An index without any digits ("[+]") or with garbage between the digits and
the final bracket ("[1]]", "[1]x]") was resolved as if it was valid.
---
 data/value.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/data/value.c b/data/value.c
index c8fd46c..b1648bb 100644
--- a/data/value.c
+++ b/data/value.c
@@ -256,6 +256,7 @@ value_path_ex(VALUE* root, const char* path, int allow_build)
         if(token_end - token_beg >= 2  &&  token_beg[0] == '['  &&  token_end[-1] == ']') {
             int sign;
             size_t index = 0;
+            const char* digits;
 
             token_beg++;
 
@@ -266,14 +267,15 @@ value_path_ex(VALUE* root, const char* path, int allow_build)
                 sign = (token_end-1 - token_beg > 0) ? +1 : 0;
             }
 
+            digits = token_beg;
             while('0' <= *token_beg  &&  *token_beg <= '9') {
                 if(index > (SIZE_MAX - 9) / 10)
                     return NULL;    /* Surely out of bounds. */
                 index = index * 10 + (*token_beg - '0');
                 token_beg++;
             }
-            if(*token_beg != ']')
-                return NULL;
+            if(token_beg != token_end-1  ||  (sign != 0  &&  token_beg == digits))
+                return NULL;    /* Malformed index. */
 
             if(allow_build  &&  value_is_new(v)) {
                 if(value_init_array(v) != 0) {
-- 
2.43.0


From 7d6fec046064f39ec1413ad4154a10b40dad5a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:56 +0000
Subject: [PATCH 23/25] fix: memchunk_alloc: Refuse block sizes which overflow
 together with the header

With a block size close to SIZE_MAX, the size of a standard block wrapped
around and the block was smaller than its own header.
---
 mem/memchunk.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mem/memchunk.c b/mem/memchunk.c
index c223e79..7015a60 100644
--- a/mem/memchunk.c
+++ b/mem/memchunk.c
@@ -85,6 +85,9 @@ memchunk_alloc(MEMCHUNK* chunk, size_t size)
             /* Allocate a standard new block. */
             MEMCHUNK_BLOCK* block;
 
+            if(chunk->block_size > (size_t) -1 - sizeof(MEMCHUNK_BLOCK))
+                return NULL;
+
             block = malloc(sizeof(MEMCHUNK_BLOCK) + chunk->block_size);
             if(block == NULL)
                 return NULL;
-- 
2.43.0


From f73cdb9807a9af22ac98b44868d86e5288363bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 24/25] fix: Do not lose precision when rounding float/double
 values to integers

---
 data/value.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/data/value.c b/data/value.c
index b1648bb..f8e27e0 100644
--- a/data/value.c
+++ b/data/value.c
@@ -92,8 +92,26 @@ struct DICT_tag {
 /* We don't want to include <math.h> just because of roundf() and round().
  * Especially as on some systems it requires explicit linking with math
  * library (-lm). */
-#define ROUNDF(inttype, x)   ((inttype)((x) >= 0.0f ? (x) + 0.5f : (x) - 0.5f))
-#define ROUNDD(inttype, x)   ((inttype)((x) >= 0.0 ? (x) + 0.5 : (x) - 0.5))
+#define ROUNDF(inttype, x)   ((inttype) value_round(x))
+#define ROUNDD(inttype, x)   ((inttype) value_round(x))
+
+static double
+value_round(double x)
+{
+    /* Doubles of larger magnitude have no fraction. We cannot just add 0.5
+     * and truncate as the addition itself may have to round its result. */
+    if(-4503599627370496.0 < x  &&  x < 4503599627370496.0) {
+        double trunc = (double) (int64_t) x;
+
+        if(x - trunc >= 0.5)
+            return trunc + 1.0;
+        if(x - trunc <= -0.5)
+            return trunc - 1.0;
+        return trunc;
+    }
+
+    return x;
+}
 
 
 static void*
-- 
2.43.0


From 2c45e36befc78975ae55662c921123fb33899c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:07 +0000
Subject: [PATCH 25/25] fix: value_fini: Do not recurse into nested arrays and
 dictionaries

Releasing a value nested in tens of thousands of others (a dictionary in less
than ten thousand, e.g. after value_build_path() with a path of 20 KB) overran
the call stack.
---
 data/value.c | 88 +++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 76 insertions(+), 12 deletions(-)

diff --git a/data/value.c b/data/value.c
index f8e27e0..a3c03f9 100644
--- a/data/value.c
+++ b/data/value.c
@@ -529,6 +529,50 @@ value_init_dict_ex(VALUE* v,
     return 0;
 }
 
+/* Arrays and dictionaries may be nested very deeply. To not depend on the size
+ * of the call stack, the nested ones are not released recursively. Instead, we
+ * chain up their payloads (reusing a member which is not needed anymore) and
+ * release them one after another. The lowest bit marks payloads of VALUE_DICT. */
+static void
+value_fini_nested(VALUE* v, uintptr_t* p_pending)
+{
+    if(!(v->data[0] & IS_MALLOCED)) {
+        value_fini(v);
+    } else if(value_type(v) == VALUE_ARRAY) {
+        ARRAY* a = (ARRAY*) value_payload_ex(v, sizeof(void*));
+
+        a->alloc = *p_pending;
+        *p_pending = (uintptr_t) a;
+    } else if(value_type(v) == VALUE_DICT) {
+        DICT* d = (DICT*) value_payload_ex(v, sizeof(void*));
+
+        d->size = *p_pending;
+        *p_pending = (uintptr_t) d | 1;
+    } else {
+        value_fini(v);
+    }
+}
+
+static void value_array_release(ARRAY* a, uintptr_t* p_pending);
+static void value_dict_release(DICT* d, uintptr_t* p_pending);
+
+static void
+value_release_pending(uintptr_t pending)
+{
+    while(pending != 0) {
+        void* payload = (void*) (pending & ~(uintptr_t) 1);
+
+        if(pending & 1) {
+            pending = ((DICT*) payload)->size;
+            value_dict_release((DICT*) payload, &pending);
+        } else {
+            pending = ((ARRAY*) payload)->alloc;
+            value_array_release((ARRAY*) payload, &pending);
+        }
+        free(payload);
+    }
+}
+
 void
 value_fini(VALUE* v)
 {
@@ -892,20 +936,30 @@ value_array_remove_range(VALUE* v, size_t index, size_t count)
     return 0;
 }
 
+static void
+value_array_release(ARRAY* a, uintptr_t* p_pending)
+{
+    size_t i;
+
+    for(i = 0; i < a->size; i++)
+        value_fini_nested(&a->value_buf[i], p_pending);
+
+    free(a->value_buf);
+}
+
 void
 value_array_clean(VALUE* v)
 {
     ARRAY* a = value_array_payload(v);
-    size_t i;
+    uintptr_t pending = 0;
 
     if(a == NULL)
         return;
 
-    for(i = 0; i < a->size; i++)
-        value_fini(&a->value_buf[i]);
-
-    free(a->value_buf);
+    value_array_release(a, &pending);
     memset(a, 0, sizeof(ARRAY));
+
+    value_release_pending(pending);
 }
 
 
@@ -1524,18 +1578,14 @@ value_dict_walk_sorted(const VALUE* v, int (*visit_func)(const VALUE*, VALUE*, v
     return 0;
 }
 
-void
-value_dict_clean(VALUE* v)
+static void
+value_dict_release(DICT* d, uintptr_t* p_pending)
 {
-    DICT* d = value_dict_payload((VALUE*) v);
     RBTREE* stack[RBTREE_MAX_HEIGHT];
     int stack_size;
     RBTREE* node;
     RBTREE* right;
 
-    if(d == NULL)
-        return;
-
     stack_size = value_dict_leftmost_path(stack, d->root);
 
     while(stack_size > 0) {
@@ -1543,16 +1593,30 @@ value_dict_clean(VALUE* v)
         right = node->right;
 
         value_fini(&node->key);
-        value_fini(&node->value);
+        value_fini_nested(&node->value, p_pending);
         free(node);
 
         stack_size += value_dict_leftmost_path(stack + stack_size, right);
     }
+}
+
+void
+value_dict_clean(VALUE* v)
+{
+    DICT* d = value_dict_payload((VALUE*) v);
+    uintptr_t pending = 0;
+
+    if(d == NULL)
+        return;
+
+    value_dict_release(d, &pending);
 
     if(v->data[0] & HAS_ORDERLIST)
         memset(d, 0, OFFSETOF(DICT, cmp_func));
     else
         memset(d, 0, OFFSETOF(DICT, order_head));
+
+    value_release_pending(pending);
 }
 
 
-- 
2.43.0

