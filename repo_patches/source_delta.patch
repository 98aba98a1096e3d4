From 3a33a10303b2480f826dbce710ca388891ddeca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:09 +0000
Subject: [PATCH 01/87] fix: do not mistake bytes above 127 for the end of the
 stream

---
 src/message.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/message.c b/src/message.c
index 8be8510..c0566f2 100644
--- a/src/message.c
+++ b/src/message.c
@@ -74,7 +74,7 @@ int __is_valid_key(char* c, int len) {
     if (len > MAX_KEY_LENGTH) return 0;
 
     for (i = 0; i < len; i++) {
-        if (!(isalnum(c[i]) || c[i] == '.' || c[i] == '_')) return 0;
+        if (!(isalnum((unsigned char) c[i]) || c[i] == '.' || c[i] == '_')) return 0;
     }
 
     return 1;
@@ -295,7 +295,7 @@ static __INLINE int read_character(message_stream* stream) {
 
     stream->buffer_position++;
 
-    return chr;
+    return (unsigned char) chr;
 
 }
 
@@ -321,7 +321,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
         switch (stream->input.state) {
             case PARSE_STATE_TYPE: { // Parsing message type
 
-                if (isalnum(chr)) {
+                if (isalnum((unsigned char) chr)) {
 
                     buffer_push(stream->input.key_buffer, chr);
 
-- 
2.43.0


From 8c498f9f1eeeb497c98662b064ed1ac4fa4e7759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:09 +0000
Subject: [PATCH 02/87] fix: do not report a message at the end of the stream

---
 src/message.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/message.c b/src/message.c
index c0566f2..8353b3f 100644
--- a/src/message.c
+++ b/src/message.c
@@ -304,6 +304,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
 	VALIDATE_MESSAGE_STREAM(stream);
 
     list_reset(arguments);
+    stream->input.message_type = -1;
 
     while (!stream->input.complete) {
 
@@ -311,9 +312,8 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
     	int val = read_character(stream);
 
     	if (val < 0) {
-    		if (stream->input.message_type == -1) break;
-    		chr = '\n';
-    		stream->input.complete = TRUE;
+    		stream->input.message_type = -1; // An unfinished line is not a message
+    		break;
     	} else chr = (char) val;
 
         LOG_CHAR(log, chr);
-- 
2.43.0


From 70eabc6dd7e0b1576f3b659ee5dc0a6571987971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 03/87] fix: resume at the next line after a malformed line

---
 src/message.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/message.c b/src/message.c
index 8353b3f..9e80da9 100644
--- a/src/message.c
+++ b/src/message.c
@@ -348,7 +348,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                     free(key_tmp);
 
                     if (stream->input.message_type == -1) {
-                		stream->input.state = PARSE_STATE_PASS;
+                		stream->input.state = -prefix_length;
                 		stream->input.message_type = -1;
                     } else {
                         stream->input.complete = TRUE;
@@ -474,8 +474,8 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                 } else if (chr != '\n') {
                 	buffer_push(stream->input.key_buffer, chr);
                     stream->input.state = PARSE_STATE_UNQUOTED_KEY;
-                } else {
-                    stream->input.state = PARSE_STATE_PASS;
+                } else { // The line ends here, continue with the next one
+                    stream->input.state = -prefix_length;
                     stream->input.message_type = -1;
                     buffer_reset(stream->input.key_buffer);
                     buffer_reset(stream->input.value_buffer);
@@ -493,8 +493,8 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                 } else if (chr != '\n') {
                     buffer_push(stream->input.value_buffer, chr);
                     stream->input.state = PARSE_STATE_UNQUOTED_VALUE;
-                } else {
-                    stream->input.state = PARSE_STATE_PASS;
+                } else { // The line ends here, continue with the next one
+                    stream->input.state = -prefix_length;
                     stream->input.message_type = -1;
                     buffer_reset(stream->input.key_buffer);
                     buffer_reset(stream->input.value_buffer);
@@ -508,6 +508,11 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
 
                 if (chr == '\\') {
                     stream->input.state = PARSE_STATE_QUOTED_ESCAPE_KEY;
+                } else if (chr == '\n') { // Unterminated argument, continue with the next line
+                    stream->input.state = -prefix_length;
+                    stream->input.message_type = -1;
+                    buffer_reset(stream->input.key_buffer);
+                    buffer_reset(stream->input.value_buffer);
                 } else if (chr == '"') { // append arg and move on
                     char *key_tmp;
                     key_tmp = buffer_extract(stream->input.key_buffer);            
@@ -532,6 +537,11 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
 
                 if (chr == '\\') {
                     stream->input.state = PARSE_STATE_QUOTED_ESCAPE_VALUE;
+                } else if (chr == '\n') { // Unterminated argument, continue with the next line
+                    stream->input.state = -prefix_length;
+                    stream->input.message_type = -1;
+                    buffer_reset(stream->input.key_buffer);
+                    buffer_reset(stream->input.value_buffer);
                 } else if (chr == '"') {
                     char *key_tmp, *value_tmp;
                     key_tmp = buffer_extract(stream->input.key_buffer);
@@ -557,8 +567,8 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                 } else if (chr != '\n') {
                 	buffer_push(stream->input.key_buffer, chr);
                     stream->input.state = PARSE_STATE_QUOTED_KEY;
-                } else {
-                    stream->input.state = PARSE_STATE_PASS;
+                } else { // The line ends here, continue with the next one
+                    stream->input.state = -prefix_length;
                     stream->input.message_type = -1;
                     buffer_reset(stream->input.key_buffer);
                     buffer_reset(stream->input.value_buffer);
@@ -576,8 +586,8 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                 } else if (chr != '\n') {
                     buffer_push(stream->input.value_buffer, chr);
                     stream->input.state = PARSE_STATE_QUOTED_VALUE;
-                } else {
-                    stream->input.state = PARSE_STATE_PASS;
+                } else { // The line ends here, continue with the next one
+                    stream->input.state = -prefix_length;
                     stream->input.message_type = -1;
                     buffer_reset(stream->input.key_buffer);
                     buffer_reset(stream->input.value_buffer);
-- 
2.43.0


From 41b8fb64693ff4fd5809c0651903f6900d728440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 04/87] fix: do not carry arguments of a rejected line into the
 next message

---
 src/message.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/message.c b/src/message.c
index 9e80da9..33879d8 100644
--- a/src/message.c
+++ b/src/message.c
@@ -607,10 +607,13 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
             default: { // Parsing prefix
 
                 if (stream->input.state < 0) {
-                    if (chr == TRAX_PREFIX[prefix_length + stream->input.state])
+                    if (chr == TRAX_PREFIX[prefix_length + stream->input.state]) {
                     	// When done, go to type parsing
                         stream->input.state++; 
-                    else 
+                        // Nothing of an earlier rejected line belongs to this message
+                        list_reset(arguments);
+                        trax_properties_clear(properties);
+                    } else 
                     	// Not a message
                         stream->input.state = chr == '\n' ? -prefix_length : PARSE_STATE_PASS; 
                 }
@@ -621,6 +624,11 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
 
     }
 
+    if (stream->input.message_type == -1) { // Nothing of a rejected line is reported
+        list_reset(arguments);
+        trax_properties_clear(properties);
+    }
+
     LOG_BUFFER(log, NULL, 0) // Flush the log stream
 
     stream->input.state = -prefix_length;
-- 
2.43.0


From 9050a3ca81fa8916b1c96f3431be9f817e1d68d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 05/87] fix: an argument that starts with = is not a property
 with an empty name

---
 src/message.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message.c b/src/message.c
index 33879d8..18046eb 100644
--- a/src/message.c
+++ b/src/message.c
@@ -71,7 +71,7 @@ const int prefix_length = sizeof(TRAX_PREFIX) - 1;
 int __is_valid_key(char* c, int len) {
     int i;
 
-    if (len > MAX_KEY_LENGTH) return 0;
+    if (len < 1 || len > MAX_KEY_LENGTH) return 0; // A key has to have a name
 
     for (i = 0; i < len; i++) {
         if (!(isalnum((unsigned char) c[i]) || c[i] == '.' || c[i] == '_')) return 0;
-- 
2.43.0


From 8bee2e8b506adbb3bf0e939599ebab5e7177e8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 06/87] fix: decode an escape sequence at the start of an
 unquoted argument

---
 src/message.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/message.c b/src/message.c
index 18046eb..1713145 100644
--- a/src/message.c
+++ b/src/message.c
@@ -391,6 +391,10 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                     stream->input.state = PARSE_STATE_QUOTED_KEY;
                     buffer_reset(stream->input.key_buffer);
                     buffer_reset(stream->input.value_buffer);
+                } else if (chr == '\\') { // The argument starts with an escape sequence
+                    stream->input.state = PARSE_STATE_UNQUOTED_ESCAPE_KEY;
+                    buffer_reset(stream->input.key_buffer);
+                    buffer_reset(stream->input.value_buffer);
                 } else {
                 	stream->input.state = PARSE_STATE_UNQUOTED_KEY;
                     buffer_reset(stream->input.key_buffer);
-- 
2.43.0


From 62e9188d427cd2d8d9adf9e15ba5c3750f9c77f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 07/87] fix: do not prepend a byte of a malformed line to the
 next message name

---
 src/message.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/message.c b/src/message.c
index 1713145..807a105 100644
--- a/src/message.c
+++ b/src/message.c
@@ -375,7 +375,6 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                 	stream->input.state = PARSE_STATE_PASS;
                     buffer_reset(stream->input.key_buffer);
                     buffer_reset(stream->input.value_buffer);
-                    buffer_push(stream->input.key_buffer, chr);             	
                 }
 
                 break;
-- 
2.43.0


From caf2316ff33ffec3286bb9f6f72158574e2bc2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:02 +0000
Subject: [PATCH 08/87] fix: compute the decoded base64 length from the
 characters that are decoded

---
 src/base64.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/base64.c b/src/base64.c
index b432bf3..2534df8 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -87,15 +87,14 @@ static const unsigned char pr2six[256] =
 
 int base64decodelen(const char *bufcoded) {
 
-    size_t len = strlen(bufcoded),
-        padding = 0;
+    // Only the valid characters are decoded, see base64decode
+    const unsigned char *bufin = (const unsigned char *) bufcoded;
+    size_t nprbytes;
 
-    if (bufcoded[len-1] == '=' && bufcoded[len-2] == '=') //last two chars are =
-        padding = 2;
-    else if (bufcoded[len-1] == '=') //last char is =
-        padding = 1;
+    while (pr2six[*(bufin++)] <= 63);
+    nprbytes = (bufin - (const unsigned char *) bufcoded) - 1;
 
-    return ((len*3)/4 - padding) + 1;
+    return (nprbytes * 3) / 4 + 1;
 }
 
 int base64decode(unsigned char *bufplain, const char *bufcoded) {
-- 
2.43.0


From d23bc6d2ea2c93438f82026ca7012472f4fd792b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 09/87] fix: address image rows by the full row length

---
 src/trax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 9e8286f..7140706 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1663,7 +1663,7 @@ char* trax_image_write_memory_row(trax_image* image, int row) {
     depth = MEMORY_DEPTH(image);
     channels = MEMORY_CHANNELS(image);
 
-    return &(image->data[depth * channels * row]);
+    return &(image->data[(size_t) image->width * depth * channels * row]);
 }
 
 const char* trax_image_get_memory_row(const trax_image* image, int row) {
@@ -1676,7 +1676,7 @@ const char* trax_image_get_memory_row(const trax_image* image, int row) {
     depth = MEMORY_DEPTH(image);
     channels = MEMORY_CHANNELS(image);
 
-    return &(image->data[depth * channels * row]);
+    return &(image->data[(size_t) image->width * depth * channels * row]);
 }
 
 const char* trax_image_get_buffer(const trax_image* image, int* length, int* format) {
-- 
2.43.0


From c8add7121a56c830e29d2db84f9e470b577ff8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 10/87] fix: reject raw image text whose size or format is
 illegal and fit the decoder's terminator

---
 src/trax.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 7140706..87aa884 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -4,6 +4,7 @@
 #include <string.h>
 #include <assert.h>
 #include <float.h>
+#include <limits.h>
 
 #define _TRAX_BUILDING
 
@@ -312,7 +313,8 @@ trax_image* image_decode(char* buffer) {
     if (strcmp(buffer, "file") == 0) {
         result = trax_image_create_path(buffer + (compare_prefix(resource, "//") ? 7 : 5));
     } else if (strcmp(buffer, "image") == 0) {
-        int outlen, width, height, depth, format, channels, allocated, verify;
+        int outlen, depth, format, channels, allocated, verify;
+        long width, height;
         char* token;
 
         width = strtol(resource, &resource, 10);
@@ -324,6 +326,7 @@ trax_image* image_decode(char* buffer) {
 
         if (!resource) return NULL;
         format = decode_memory_format(token);
+        if (format == TRAX_IMAGE_MEMORY_ILLEGAL) return NULL;
 
         outlen = base64decodelen(resource) - 1;
 
@@ -331,16 +334,19 @@ trax_image* image_decode(char* buffer) {
                 (format == TRAX_IMAGE_MEMORY_GRAY8 ? 1 :
                  (format == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 0));
         channels = format == TRAX_IMAGE_MEMORY_RGB ? 3 : 1;
-        allocated =  (width * height * depth * channels);
 
-        if (width < 1 || height < 1 || outlen != allocated) return result;
+        if (width < 1 || height < 1 || width > INT_MAX / (depth * channels) || height > INT_MAX / (width * depth * channels)) return result;
+
+        allocated =  (int) (width * height * depth * channels);
+
+        if (outlen != allocated) return result;
 
         result = (trax_image*) malloc(sizeof(trax_image));
         result->type = TRAX_IMAGE_MEMORY;
-        result->width = width;
-        result->height = height;
+        result->width = (int) width;
+        result->height = (int) height;
         result->format = format;
-        result->data = (char*) malloc(sizeof(char) * allocated);
+        result->data = (char*) malloc(sizeof(char) * (allocated + 1)); // Decoder appends a terminator
         verify = base64decode((unsigned char*)result->data, resource);
 
         assert(verify == allocated);
-- 
2.43.0


From dbbdce63aaf837d596c389486ff811a1ff538a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 11/87] fix: report the exact length of a received image buffer
 and accept its documented header

---
 src/trax.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index 87aa884..31e3362 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -359,11 +359,13 @@ trax_image* image_decode(char* buffer) {
         resource = strntok(token, ';', 32);
         if (!resource) return NULL;
         format = decode_buffer_format(token);
+        if (format == TRAX_IMAGE_BUFFER_ILLEGAL) return NULL;
+        if (compare_prefix(resource, "base64;")) resource += 7; // Optional encoding name
         outlen = base64decodelen(resource);
 
         result = (trax_image*) malloc(sizeof(trax_image));
         result->type = TRAX_IMAGE_BUFFER;
-        result->width = outlen;
+        result->width = outlen - 1; // Without the decoder's terminator
         result->height = 1;
         result->format = format;
 
-- 
2.43.0


From d5b5771a500e97212207eae6dd3023b2bdbeb7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:04 +0000
Subject: [PATCH 12/87] fix: keep the whole URL when an image is received

---
 src/trax.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index 31e3362..c7828b2 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -372,7 +372,7 @@ trax_image* image_decode(char* buffer) {
         result->data = (char*) malloc(sizeof(char) * (outlen));
         base64decode((unsigned char*)result->data, resource);
     } else {
-        *(resource--) = ':'; // Restore the semicolon and use the buffer as URL
+        *(--resource) = ':'; // Restore the semicolon and use the buffer as URL
         result = trax_image_create_url(buffer);
     }
     return result;
-- 
2.43.0


From 56a83271df608972f7393fb3c3857ba431fadb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 13/87] fix: append properties without overwriting when not
 asked to

---
 src/trax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index c7828b2..28769dc 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -528,8 +528,8 @@ void channels_encode(int channels, char *key) {
 void copy_properties(const trax_properties* source, trax_properties* dest, int flags) {
 
     trax_enumerator f = (flags & COPY_ALL) ?
-     ((flags && COPY_OVERWRITE) ? copy_property_overwrite : copy_property_safe) :
-     ((flags && COPY_OVERWRITE) ? copy_property_external_overwrite : copy_property_external_safe);
+     ((flags & COPY_OVERWRITE) ? copy_property_overwrite : copy_property_safe) :
+     ((flags & COPY_OVERWRITE) ? copy_property_external_overwrite : copy_property_external_safe);
     
     trax_properties_enumerate(source, f, dest);
 
-- 
2.43.0


From d146b4375c81b50b732233f32e31cdabffeabb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 14/87] fix: return the default for an empty numeric property

---
 src/trax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 28769dc..140ad6e 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -2006,7 +2006,7 @@ int trax_properties_has(const trax_properties* properties, const char* key) {
 int trax_properties_get_int(const trax_properties* properties, const char* key, int def) {
 
     char* end;
-    long ret;
+    long ret = def;
     char* value = trax_properties_get(properties, key);
 
     if (value == NULL) return def;
@@ -2025,7 +2025,7 @@ int trax_properties_get_int(const trax_properties* properties, const char* key,
 float trax_properties_get_float(const trax_properties* properties, const char* key, float def) {
 
     char* end;
-    float ret;
+    float ret = def;
     char* value = trax_properties_get(properties, key);
 
     if (value == NULL) return def;
-- 
2.43.0


From f720faeaca21752a1f295ba511a28d58a7997ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 15/87] fix: format the arguments of an error message

---
 src/trax.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 140ad6e..0837569 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -546,22 +546,21 @@ void clear_error(trax_handle* handle) {
 
 void set_error(trax_handle* handle, const char *format, ...) {
 	va_list args;
-
-    string_buffer* buffer = buffer_create(100);
+    int length;
 
 	va_start(args, format);
-	
-    buffer_append(buffer, format, args);
-
+    length = vsnprintf(NULL, 0, format, args);
 	va_end(args);
 
     if (handle->error) {
         free(handle->error);
     }
 
-    handle->error = buffer_extract(buffer);
+    handle->error = (char*) malloc(sizeof(char) * (length + 1));
 
-    buffer_destroy(&buffer);
+	va_start(args, format);
+    vsnprintf(handle->error, length + 1, format, args);
+	va_end(args);
 
 }
 
-- 
2.43.0


From 560ef440240bc535ddd9e0204aa25edb0125b0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 16/87] fix: initialize metadata flags of a server older than
 version 4

---
 src/trax.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 0837569..6ef96bd 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -654,7 +654,7 @@ trax_handle* server_setup(trax_metadata *metadata, message_stream* stream, const
     trax_properties* properties;
     trax_handle* server = (trax_handle*) malloc(sizeof(trax_handle));
     string_list* arguments;
-    int flags;
+    int flags = 0;
     char tmp[BUFFER_LENGTH];
 
     server->flags = (TRAX_FLAG_SERVER) | TRAX_FLAG_VALID;
@@ -694,7 +694,6 @@ trax_handle* server_setup(trax_metadata *metadata, message_stream* stream, const
         trax_properties_set(properties, "trax.family", metadata->tracker_family);
 
     if (IS_VERSION_4(server)) {
-        flags = 0;
         if (metadata->flags & TRAX_METADATA_MULTI_OBJECT) {
             flags |= TRAX_METADATA_MULTI_OBJECT;
             trax_properties_set_int(properties, "trax.multiobject", 1);
-- 
2.43.0


From b25adbf017491962d61fb0744e09abbb5a19f2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 17/87] fix: assume documented defaults for capabilities absent
 from the introduction

---
 src/trax.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 6ef96bd..570239a 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -597,19 +597,23 @@ trax_handle* client_setup(message_stream* stream, const trax_logging log) {
     client->version = trax_properties_get_int(tmp_properties, "trax.version", 1);
 
     tmp = trax_properties_get(tmp_properties, "trax.region");
-    region_formats = region_formats_decode(tmp);
+    region_formats = tmp ? region_formats_decode(tmp) : 0;
     free(tmp);
+    if (region_formats == 0)
+        region_formats = TRAX_REGION_RECTANGLE;
 
     tmp = trax_properties_get(tmp_properties, "trax.image");
-    image_formats = image_formats_decode(tmp);
+    image_formats = tmp ? image_formats_decode(tmp) : 0;
     free(tmp);
+    if (image_formats == 0)
+        image_formats = TRAX_IMAGE_PATH;
 
     // Multiple channels are only supported in TraX protocol version 2
     if (client->version < 2) {
         channels = TRAX_CHANNEL_COLOR;
     } else {
         tmp = trax_properties_get(tmp_properties, "trax.channels");
-        channels = channels_decode(tmp);
+        channels = tmp ? channels_decode(tmp) : 0;
         free(tmp);
         if (channels == 0)
             channels = TRAX_CHANNEL_COLOR;
-- 
2.43.0


From 578a02c34780f31a083f81f440aeb05fdfe6e666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 18/87] fix: release the stream when the introduction fails

---
 src/trax.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/trax.c b/src/trax.c
index 570239a..0bd7515 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -648,6 +648,7 @@ failure:
 
     list_destroy(&arguments);
     trax_properties_release(&tmp_properties);
+    destroy_message_stream(&stream);
     free(client);
     return NULL;
 
-- 
2.43.0


From d385d6606699424ee2eecc3a3839ec5400c02e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:21 +0000
Subject: [PATCH 19/87] fix: accept the documented comma separated list of
 channels

---
 src/trax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 0bd7515..bac909e 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -487,7 +487,7 @@ int channels_decode(char *str) {
     int channels = 0;
 
     char *pch;
-    pch = strtok (str, " ;");
+    pch = strtok (str, " ;,");
     while (pch != NULL) {
 
         if (strcmp(pch, "color") == 0)
@@ -501,7 +501,7 @@ int channels_decode(char *str) {
             continue; // Skip empty
         else return -1;
 
-        pch = strtok (NULL, ";");
+        pch = strtok (NULL, ";,");
     }
 
     return channels;
-- 
2.43.0


From 4f13c4cb407a4d00e4969c0235197dfbd70ed7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:21 +0000
Subject: [PATCH 20/87] fix: refuse unexpected messages while the client waits
 for results

---
 src/trax.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index bac909e..23fbd0c 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -788,11 +788,18 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
 
     VALIDATE_CLIENT_HANDLE(client);
 
+    clear_error(client);
+
     if (!HANDLE_ALIVE(client)) {
         set_error(client, "Tracker not alive");
         return TRAX_ERROR;
     }
 
+    if (client->objects < 1) {
+        set_error(client, "No objects are being tracked");
+        return TRAX_ERROR;
+    }
+
     (*objects) = trax_object_list_create(client->objects);
 
     for (int i = 0; i < client->objects; i++) {
@@ -806,6 +813,7 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
             region_container *_region = NULL;
 
             if (list_size(arguments) != 1) {
+                set_error(client, "Protocol error, illegal argument number %d != %d", list_size(arguments), 1);
                 list_destroy(&arguments);
                 trax_properties_release(&tmp_properties);
                 trax_object_list_release(objects);
@@ -813,7 +821,8 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
                 break;
             }
             
-            if (!region_parse(arguments->buffer[0], &_region)) {
+            if (!region_parse(arguments->buffer[0], &_region) || !_region) {
+                set_error(client, "Protocol error, unable to parse region");
                 list_destroy(&arguments);
                 trax_properties_release(&tmp_properties);
                 trax_object_list_release(objects);
@@ -828,6 +837,7 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
         } else if (result == TRAX_QUIT) {
 
             if (list_size(arguments) != 0) {
+                set_error(client, "Protocol error, illegal argument number %d != %d", list_size(arguments), 0);
                 list_destroy(&arguments);
                 trax_properties_release(&tmp_properties);
                 trax_object_list_release(objects);
@@ -844,10 +854,12 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
             trax_properties_release(&tmp_properties);
             trax_object_list_release(objects);
             break;
-        } else if (result == TRAX_ERROR) {
+        } else {
+            set_error(client, (result == TRAX_ERROR) ? "Unable to receive a message" : "Protocol error, unexpected message");
             list_destroy(&arguments);
             trax_properties_release(&tmp_properties);
             trax_object_list_release(objects);
+            result = TRAX_ERROR;
             break;
         }
 
-- 
2.43.0


From 3ca5f93ba46608a087c68e836eb0a14a41d4a918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:21 +0000
Subject: [PATCH 21/87] fix: report every failed wait of a single-object server
 with an error text

---
 src/trax.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index 23fbd0c..fec16a5 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1114,6 +1114,9 @@ int trax_server_wait_sot(trax_handle* server, trax_image_list** images, trax_reg
         return TRAX_ERROR;
     }
 
+    *images = NULL;
+    *region = NULL;
+
     int argument_count = trax_image_list_count(server->metadata->channels);
 
     tmp_properties = trax_properties_create();
@@ -1183,7 +1186,7 @@ int trax_server_wait_sot(trax_handle* server, trax_image_list** images, trax_reg
 
         }
 
-        if (!region_parse(arguments->buffer[j], (region_container**)region)) {
+        if (!region_parse(arguments->buffer[j], (region_container**)region) || !*region) {
             goto failure;
         }
 
@@ -1197,6 +1200,9 @@ int trax_server_wait_sot(trax_handle* server, trax_image_list** images, trax_reg
 
 failure:
 
+    if (!server->error)
+        set_error(server, (result == TRAX_ERROR) ? "Unable to receive a message" : "Protocol error, illegal message");
+
     result = TRAX_ERROR;
 
     if (*images) {
-- 
2.43.0


From b184a88e2fd0593dd35da42ea28610855c867abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:21 +0000
Subject: [PATCH 22/87] fix: release everything when a multi-object server
 waits

---
 src/trax.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index fec16a5..b65020c 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1231,8 +1231,8 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
     trax_properties* tmp_properties;
     int object_capacity = 1;
     int object_count = 0;
-    trax_region** object_regions = (trax_region**) malloc(sizeof(trax_region*) * object_capacity);
-    trax_properties** object_properties = (trax_properties**) malloc(sizeof(trax_properties*) * object_capacity);
+    trax_region** object_regions;
+    trax_properties** object_properties;
 
     VALIDATE_SERVER_HANDLE(server);
 
@@ -1245,6 +1245,9 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
         return TRAX_ERROR;
     }
 
+    object_regions = (trax_region**) malloc(sizeof(trax_region*) * object_capacity);
+    object_properties = (trax_properties**) malloc(sizeof(trax_properties*) * object_capacity);
+
     int argument_count = trax_image_list_count(server->metadata->channels);
 
     while (1) {
@@ -1311,6 +1314,8 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
             if (list_size(arguments) == 0) {
                 result = TRAX_INITIALIZE;
                 server->objects = 0;
+                list_destroy(&arguments);
+                trax_properties_release(&tmp_properties);
                 continue;
             }
 
-- 
2.43.0


From 4896e335a1c797b8f953c6c27dcbab0ba8e916bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:21 +0000
Subject: [PATCH 23/87] fix: end the wait of a multi-object server without
 objects on quit or unexpected messages

---
 src/trax.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index b65020c..809160d 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1245,6 +1245,8 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
         return TRAX_ERROR;
     }
 
+    *images = NULL;
+
     object_regions = (trax_region**) malloc(sizeof(trax_region*) * object_capacity);
     object_properties = (trax_properties**) malloc(sizeof(trax_properties*) * object_capacity);
 
@@ -1272,7 +1274,7 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
 
             result = TRAX_QUIT;
             server->flags |= TRAX_FLAG_TERMINATED;
-            goto end;
+            goto discard;
         }
 
         if (code == TRAX_FRAME) {
@@ -1332,7 +1334,7 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
                 object_properties = (trax_properties**) realloc(object_properties, sizeof(trax_properties*) * object_capacity);
             }
 
-            if (!region_parse(arguments->buffer[0], (region_container**)(&object_regions[object_count-1]))) {
+            if (!region_parse(arguments->buffer[0], (region_container**)(&object_regions[object_count-1])) || !object_regions[object_count-1]) {
                 object_count--;
                 goto failure;
             }
@@ -1341,6 +1343,10 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
             copy_properties(tmp_properties, object_properties[object_count-1], COPY_ALL | COPY_OVERWRITE);
 
             result = TRAX_INITIALIZE;
+
+        } else {
+            set_error(server, "Protocol error, unexpected message");
+            goto failure;
         }
 
         list_destroy(&arguments);
@@ -1350,6 +1356,9 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
 
 failure:
 
+    if (!server->error)
+        set_error(server, "Unable to receive a valid message");
+
     result = TRAX_ERROR;
 
     if (*images) {
@@ -1359,6 +1368,8 @@ failure:
         trax_image_list_release(images);
     }
 
+discard:
+
     for (i = 0; i < object_count; i++) {
         trax_region_release(&(object_regions[i]));
         trax_properties_release(&(object_properties[i]));
-- 
2.43.0


From 67df5f7bd5439bb7341b06f390b7c32d4fafcb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 24/87] fix: deliver nothing from a refused wait

---
 src/trax.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 809160d..e233492 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1104,6 +1104,9 @@ int trax_server_wait_sot(trax_handle* server, trax_image_list** images, trax_reg
 
     clear_error(server);
 
+    *images = NULL;
+    *region = NULL;
+
     if (!HANDLE_ALIVE(server)) {
         set_error(server, "Server not alive");
         return TRAX_ERROR;
@@ -1114,9 +1117,6 @@ int trax_server_wait_sot(trax_handle* server, trax_image_list** images, trax_reg
         return TRAX_ERROR;
     }
 
-    *images = NULL;
-    *region = NULL;
-
     int argument_count = trax_image_list_count(server->metadata->channels);
 
     tmp_properties = trax_properties_create();
@@ -1238,6 +1238,7 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
 
     clear_error(server);
 
+    *images = NULL;
     *objects = NULL;
 
     if (!HANDLE_ALIVE(server)) {
@@ -1245,8 +1246,6 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
         return TRAX_ERROR;
     }
 
-    *images = NULL;
-
     object_regions = (trax_region**) malloc(sizeof(trax_region*) * object_capacity);
     object_properties = (trax_properties**) malloc(sizeof(trax_properties*) * object_capacity);
 
-- 
2.43.0


From 40c417f833d7e1d74fba33e571c01a50973e5901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 25/87] fix: report a region that cannot be encoded

---
 src/trax.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index e233492..e60eb93 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1418,7 +1418,10 @@ int trax_server_reply_sot(trax_handle* server, trax_region* region, trax_propert
 
     data = region_string(REGION(region));
 
-    if (!data) return TRAX_ERROR;
+    if (!data) {
+        set_error(server, "Unable to encode region");
+        return TRAX_ERROR;
+    }
 
     arguments = list_create(1);
 
-- 
2.43.0


From bba2c0231780f2279ed68e558f3a8710bc868f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 26/87] fix: clone an object region before releasing the one it
 replaces

---
 src/trax.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index e60eb93..d55aaac 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -2133,9 +2133,11 @@ void trax_object_list_set(trax_object_list* list, int index, trax_region* region
 
     if (index < 0 || index >= list->size) return;
 
+    trax_region* clone = trax_region_clone(region);
+
     trax_region_release(&(list->regions[index]));
 
-    list->regions[index] = trax_region_clone(region);
+    list->regions[index] = clone;
 
 }
 
-- 
2.43.0


From b8c49155a7856302c363bbb33687399f437ff395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 27/87] fix: append an object list to itself

---
 src/trax.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index d55aaac..3c8e8e6 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -2160,17 +2160,18 @@ int trax_object_list_count(const trax_object_list* list) {
 
 int trax_object_list_append(trax_object_list* list, const trax_object_list* src) {
 
-    int i, o;
+    int i, o, n;
 
     assert(list && src);
 
     o = list->size;
-    list->size += src->size;
+    n = src->size;
+    list->size += n;
 
     list->regions = (trax_region**) realloc(list->regions, sizeof(trax_region*) * list->size);
     list->properties = (trax_properties**) realloc(list->properties, sizeof(trax_properties*) * list->size);
 
-    for (i = 0; i < src->size; i++) {
+    for (i = 0; i < n; i++) {
         list->regions[i + o] = trax_region_clone(src->regions[i]);
         list->properties[i + o] = trax_properties_create();
         copy_properties(src->properties[i], list->properties[i + o], COPY_ALL | COPY_OVERWRITE);
-- 
2.43.0


From dcfc0431343c18e7aa7d55a332a4aae6f03eed06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 28/87] fix: check the index of a polygon point

---
 src/trax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 3c8e8e6..f4a44bc 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1875,7 +1875,7 @@ void trax_region_set_polygon_point(trax_region* region, int index, float x, floa
 
     assert(REGION(region)->type == POLYGON);
 
-    assert(index >= 0 || index < (REGION(region)->data.polygon.count));
+    assert(index >= 0 && index < (REGION(region)->data.polygon.count));
 
     REGION(region)->data.polygon.x[index] = x;
     REGION(region)->data.polygon.y[index] = y;
@@ -1885,7 +1885,7 @@ void trax_region_get_polygon_point(const trax_region* region, int index, float*
 
     assert(REGION(region)->type == POLYGON);
 
-    assert (index >= 0 || index < (REGION(region)->data.polygon.count));
+    assert (index >= 0 && index < (REGION(region)->data.polygon.count));
 
     if (x) *x = REGION(region)->data.polygon.x[index];
     if (y) *y = REGION(region)->data.polygon.y[index];
-- 
2.43.0


From 3bb9e64c1364bab4a691688db487daea96a12fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 29/87] fix: check the required images of a client request
 before anything is sent

---
 src/trax.c | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index f4a44bc..d5885e1 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -872,6 +872,21 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
 
 }
 
+static int client_check_images(trax_handle* client, const trax_image_list* images) {
+
+    int i;
+
+    for (i = 0; i < TRAX_CHANNELS; i++) {
+        if (TRAX_SUPPORTS(client->metadata->channels, TRAX_CHANNEL_ID(i)) && (!images || !images->images[i])) {
+            set_error(client, "Required image channel not provided (ID: %d)", TRAX_CHANNEL_ID(i));
+            return 0;
+        }
+    }
+
+    return 1;
+
+}
+
 int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_object_list* objects, trax_properties* properties) {
 
     char* data = NULL;
@@ -902,6 +917,9 @@ int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_ob
         return TRAX_ERROR;
     }
 
+    if (!client_check_images(client, images))
+        return TRAX_ERROR;
+
     if (IS_VERSION_4(client)) {
         if (client->objects > 0) {
             // Reset object count with an empty initialize message
@@ -924,10 +942,6 @@ int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_ob
     for (i = 0; i < TRAX_CHANNELS; i++) {
         if (TRAX_SUPPORTS(client->metadata->channels, TRAX_CHANNEL_ID(i))) {
 
-            if (!images->images[i]) {
-                set_error(client, "Required image channel not provided (ID: %d)", TRAX_CHANNEL_ID(i));
-                goto failure;
-            }
             char* buffer = image_encode(images->images[i]);
             list_append_direct(arguments, buffer);
 
@@ -959,12 +973,6 @@ int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_ob
 
     return TRAX_OK;
 
-failure:
-
-    list_destroy(&arguments);
-
-    return TRAX_ERROR;
-
 }
 
 int trax_client_frame(trax_handle* client, trax_image_list* images, trax_object_list* objects, trax_properties* properties) {
@@ -979,6 +987,9 @@ int trax_client_frame(trax_handle* client, trax_image_list* images, trax_object_
         return TRAX_ERROR;
     }
 
+    if (!client_check_images(client, images))
+        return TRAX_ERROR;
+
     if (IS_VERSION_4(client)) {
 
         int n = (objects) ? trax_object_list_count(objects) : 0;
@@ -1034,11 +1045,6 @@ int trax_client_frame(trax_handle* client, trax_image_list* images, trax_object_
 
         for (i = 0; i < TRAX_CHANNELS; i++) {
             if (TRAX_SUPPORTS(client->metadata->channels, TRAX_CHANNEL_ID(i))) {
-                if (!images->images[i]) {
-                    set_error(client, "Required image channel not provided (ID: %d)", TRAX_CHANNEL_ID(i));
-                    list_destroy(&arguments);
-                    return TRAX_ERROR;
-                }
                 char* buffer = image_encode(images->images[i]);
                 list_append_direct(arguments, buffer);
             } 
-- 
2.43.0


From d04c70de307324854353aefa58ed016ee132a6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 30/87] fix: allocate room for every number of a region text

---
 src/region.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/region.c b/src/region.c
index cae061b..7e2ec4c 100644
--- a/src/region.c
+++ b/src/region.c
@@ -289,7 +289,7 @@ int _parse_sequence(const char* buffer, float** data) {
 
 	int i;
 
-	float* numbers = (float*) malloc(sizeof(float) * (strlen(buffer)));
+	float* numbers = (float*) malloc(sizeof(float) * (strlen(buffer) + 1));
 
 	const char* pch = buffer;
 	for (i = 0; ; i++) {
-- 
2.43.0


From ce5c8bb9d11483dbe6be08ff8996973082d6052b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 31/87] fix: do not round integers of a region text to floats

---
 src/region.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/region.c b/src/region.c
index 7e2ec4c..82a7266 100644
--- a/src/region.c
+++ b/src/region.c
@@ -51,7 +51,7 @@ int region_clear_flags(int mask) {
 
 }
 
-int __is_valid_sequence(float* sequence, int len) {
+int __is_valid_sequence(double* sequence, int len) {
 	int i;
 
 	for (i = 0; i < len; i++) {
@@ -285,11 +285,11 @@ static inline const char* _str_find(const char* in, const char delimiter) {
 
 }
 
-int _parse_sequence(const char* buffer, float** data) {
+int _parse_sequence(const char* buffer, double** data) {
 
 	int i;
 
-	float* numbers = (float*) malloc(sizeof(float) * (strlen(buffer) + 1));
+	double* numbers = (double*) malloc(sizeof(double) * (strlen(buffer) + 1));
 
 	const char* pch = buffer;
 	for (i = 0; ; i++) {
@@ -299,10 +299,10 @@ int _parse_sequence(const char* buffer, float** data) {
 			if (tolower(pch[0]) == 'n' && tolower(pch[1]) == 'a' && tolower(pch[2]) == 'n') {
 				numbers[i] = NAN;
 			} else {
-				numbers[i] = (float) atof(pch);
+				numbers[i] = atof(pch);
 			}
 #else
-			numbers[i] = (float) atof(pch);
+			numbers[i] = atof(pch);
 #endif
 		} else
 			break;
@@ -312,7 +312,7 @@ int _parse_sequence(const char* buffer, float** data) {
 
 	if (i > 0) {
 		int j;
-		*data = (float*) malloc(sizeof(float) * i);
+		*data = (double*) malloc(sizeof(double) * i);
 		for (j = 0; j < i; j++) { (*data)[j] = numbers[j]; }
 		free(numbers);
 	} else {
@@ -325,7 +325,7 @@ int _parse_sequence(const char* buffer, float** data) {
 
 int region_parse(const char* buffer, region_container** region) {
 
-	float* data = NULL;
+	double* data = NULL;
 	const char* strdata = NULL;
 	int num;
 
-- 
2.43.0


From 358d14f81dfc510b07eb4cabd3baf8fac24a6427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 32/87] fix: refuse region text with a wrong number of values
 or an illegal mask size

---
 src/region.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/region.c b/src/region.c
index 82a7266..ef660a6 100644
--- a/src/region.c
+++ b/src/region.c
@@ -1,6 +1,7 @@
 
 #include <stdio.h>
 #include <float.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include <math.h>
@@ -323,6 +324,12 @@ int _parse_sequence(const char* buffer, double** data) {
 	return i;
 }
 
+static int __clamp_int(double value) {
+
+	return (int) MAX(INT_MIN, MIN(INT_MAX, value));
+
+}
+
 int region_parse(const char* buffer, region_container** region) {
 
 	double* data = NULL;
@@ -349,7 +356,7 @@ int region_parse(const char* buffer, region_container** region) {
 		// Preserve legacy support: if four values are given and the fourth one is a number
 		// then this number is taken as a code.
 		if (num == 4 && !isnan(data[3])) {
-			(*region) = region_create_special(-(int) data[3]);
+			(*region) = region_create_special(__clamp_int(-data[3]));
 		} else {
 			(*region) = region_create_special(TRAX_DEFAULT_CODE);
 		}
@@ -368,16 +375,16 @@ int region_parse(const char* buffer, region_container** region) {
 
 	switch (prefix_type) {
 	case SPECIAL: {
-		assert(num == 1);
+		if (num != 1) break;
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = SPECIAL;
-		(*region)->data.special = (int) data[0];
+		(*region)->data.special = __clamp_int(data[0]);
 		free(data);
 		return 1;
 
 	}
 	case RECTANGLE: {
-		assert(num == 4);
+		if (num != 4) break;
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = RECTANGLE;
 
@@ -393,7 +400,7 @@ int region_parse(const char* buffer, region_container** region) {
 	case POLYGON: {
 		int j;
 
-		assert(num >= 6 && num % 2 == 0);
+		if (num < 6 || num % 2 != 0) break;
 
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = POLYGON;
@@ -416,13 +423,13 @@ int region_parse(const char* buffer, region_container** region) {
 		int position, length;
 		char value;
 
-		assert(num > 4);
+		if (num < 4 || data[2] < 1 || data[3] < 1 || floor(data[2]) * floor(data[3]) > INT_MAX) break;
 
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = MASK;
 
-		(*region)->data.mask.x = (int) data[0];
-		(*region)->data.mask.y = (int) data[1];
+		(*region)->data.mask.x = __clamp_int(data[0]);
+		(*region)->data.mask.y = __clamp_int(data[1]);
 		(*region)->data.mask.width = (int) data[2];
 		(*region)->data.mask.height = (int) data[3];
 
@@ -435,8 +442,8 @@ int region_parse(const char* buffer, region_container** region) {
 		// Mask is compressed with alternating RLE encoding
 		for (i = 4; i < num; i++) {
 
-			int count = (int) data[i];
-			while (count && position < length) {
+			int count = (int) MIN(data[i], length);
+			while (count > 0 && position < length) {
 				(*region)->data.mask.data[position++] = value;
 				count--;
 			}
-- 
2.43.0


From a30a0f50756faeeb69a413f0c8bd156fe41ba25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 33/87] fix: bound polygons with negative coordinates

---
 src/region.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/region.c b/src/region.c
index ef660a6..d0017f2 100644
--- a/src/region.c
+++ b/src/region.c
@@ -559,9 +559,9 @@ region_container* region_convert(const region_container* region, region_type typ
 		case POLYGON: {
 
 			float top = FLT_MAX;
-			float bottom = FLT_MIN;
+			float bottom = -FLT_MAX;
 			float left = FLT_MAX;
-			float right = FLT_MIN;
+			float right = -FLT_MAX;
 			int i;
 
 			for (i = 0; i < region->data.polygon.count; i++) {
-- 
2.43.0


From b967c52a2f508c0eb72d952e87277a591d5e21e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 34/87] fix: include the last row and column when a polygon is
 converted to a rectangle

---
 src/region.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/region.c b/src/region.c
index d0017f2..b16a5cd 100644
--- a/src/region.c
+++ b/src/region.c
@@ -575,6 +575,13 @@ region_container* region_convert(const region_container* region, region_type typ
 			reg->data.rectangle.y = top;
 			reg->data.rectangle.width = right - left;
 			reg->data.rectangle.height = bottom - top;
+
+			// The last row and column belong to the rectangle
+			if (!(__flags & REGION_LEGACY_RASTERIZATION)) {
+				reg->data.rectangle.width += 1;
+				reg->data.rectangle.height += 1;
+			}
+
 			break;
 			}
 		case MASK: {
-- 
2.43.0


From 0cc6e1531275bbcb737d9de38b49816fc9e570a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 35/87] fix: place a polygon mask at the top of the polygon and
 cover all of it

---
 src/region.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/region.c b/src/region.c
index b16a5cd..43888f4 100644
--- a/src/region.c
+++ b/src/region.c
@@ -684,14 +684,11 @@ region_container* region_convert(const region_container* region, region_type typ
 		}
 		case POLYGON: {
 
-			reg = (region_container*) malloc(sizeof(region_container));
-			reg->type = type;
+			region_bounds b = bounds_round(compute_bounds_polygon(&(region->data.polygon)));
 
-			region_bounds b = compute_bounds_polygon(&(region->data.polygon));
+			reg = region_create_mask(b.left, b.top, b.right - b.left + 1, b.bottom - b.top + 1);
 
-			reg = region_create_mask(b.left, b.right, b.right - b.left, b.bottom - b.top);
-
-			region_get_mask_offset(region, reg->data.mask.data, b.left, b.right, b.right - b.left, b.bottom - b.top);
+			region_get_mask_offset(region, reg->data.mask.data, b.left, b.top, b.right - b.left + 1, b.bottom - b.top + 1);
 
 			break;
 		}
-- 
2.43.0


From b23f3ea36af827de514c5e74d5896760db77dd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 36/87] fix: do not abort when an empty rectangle is converted
 to a mask

---
 src/region.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/region.c b/src/region.c
index 43888f4..a221ba9 100644
--- a/src/region.c
+++ b/src/region.c
@@ -677,6 +677,8 @@ region_container* region_convert(const region_container* region, region_type typ
 		switch (region->type) {
 		case RECTANGLE: {
 
+			if (!(region->data.rectangle.width >= 1 && region->data.rectangle.height >= 1)) break; // No pixels
+
 			reg = region_create_mask((int)region->data.rectangle.x, (int)region->data.rectangle.y, (int)region->data.rectangle.width, (int)region->data.rectangle.height);
 			memset(reg->data.mask.data, 255, reg->data.mask.width * reg->data.mask.height);
 
-- 
2.43.0


From ab4fa6d39f0dd62039fd76cc53f02cf20333c86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 37/87] fix: find the mask pixel of a point with negative or
 extreme coordinates

---
 src/region.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/region.c b/src/region.c
index a221ba9..6ba7d9a 100644
--- a/src/region.c
+++ b/src/region.c
@@ -827,10 +827,13 @@ int point_in_polygon(const region_polygon* polygon, float x, float y) {
 
 int point_in_mask(const region_mask* mask, float x, float y) {
 	
-	if (x < mask->x || y < mask->y || x >= mask->x + mask->width || y >= mask->y + mask->height)
+	double column = floor((double) x) - mask->x;
+	double row = floor((double) y) - mask->y;
+
+	if (!(column >= 0 && row >= 0 && column < mask->width && row < mask->height))
 		return 0;
 
-	return mask->data[((int)x - mask->x) + ((int)y - mask->y) * mask->width] != 0;
+	return mask->data[(int) column + (int) row * mask->width] != 0;
 }
 
 
-- 
2.43.0


From 50301ddd30bcc4fecf5e6f1811f679a61e2d72a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 38/87] fix: do not rasterize a region without a shape

---
 src/region.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/region.c b/src/region.c
index 6ba7d9a..65f91c0 100644
--- a/src/region.c
+++ b/src/region.c
@@ -1266,6 +1266,10 @@ void region_get_mask_offset(const region_container* r, char* mask, int x, int y,
 		}
 
 		return;
+	} else if (r->type != RECTANGLE && r->type != POLYGON) {
+
+		memset(mask, 0, width * height * sizeof(char));
+
 	} else {
 
 		region_polygon p;
-- 
2.43.0


From 66c7def5c9dc58352fa008a2a3939621eb3f85fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:49 +0000
Subject: [PATCH 39/87] fix: clamp run lengths of a mask text

---
 src/region.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/region.c b/src/region.c
index 65f91c0..f166925 100644
--- a/src/region.c
+++ b/src/region.c
@@ -442,7 +442,7 @@ int region_parse(const char* buffer, region_container** region) {
 		// Mask is compressed with alternating RLE encoding
 		for (i = 4; i < num; i++) {
 
-			int count = (int) MIN(data[i], length);
+			int count = __clamp_int(data[i]);
 			while (count > 0 && position < length) {
 				(*region)->data.mask.data[position++] = value;
 				count--;
-- 
2.43.0


From cda27642df38b6ad3a4c628b8ce7f454c0deca14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:49 +0000
Subject: [PATCH 40/87] fix: do not convert regions that are too large for a
 mask to a mask

---
 src/region.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/region.c b/src/region.c
index f166925..e8aa37d 100644
--- a/src/region.c
+++ b/src/region.c
@@ -187,6 +187,17 @@ region_bounds bounds_round(region_bounds bounds) {
 
 }
 
+/* Can the pixels within the bounds be rendered to a mask */
+static int bounds_renderable(region_bounds bounds) {
+
+	const double limit = INT_MAX / 4;
+
+	return bounds.left >= -limit && bounds.right <= limit && bounds.top >= -limit && bounds.bottom <= limit &&
+		bounds.left <= bounds.right && bounds.top <= bounds.bottom &&
+		((double) bounds.right - bounds.left + 1) * ((double) bounds.bottom - bounds.top + 1) <= INT_MAX;
+
+}
+
 region_bounds bounds_intersection(region_bounds a, region_bounds b) {
 
 	region_bounds result;
@@ -679,6 +690,9 @@ region_container* region_convert(const region_container* region, region_type typ
 
 			if (!(region->data.rectangle.width >= 1 && region->data.rectangle.height >= 1)) break; // No pixels
 
+			if (!bounds_renderable(region_create_bounds(region->data.rectangle.x, region->data.rectangle.y,
+				region->data.rectangle.x + region->data.rectangle.width, region->data.rectangle.y + region->data.rectangle.height))) break;
+
 			reg = region_create_mask((int)region->data.rectangle.x, (int)region->data.rectangle.y, (int)region->data.rectangle.width, (int)region->data.rectangle.height);
 			memset(reg->data.mask.data, 255, reg->data.mask.width * reg->data.mask.height);
 
@@ -688,6 +702,8 @@ region_container* region_convert(const region_container* region, region_type typ
 
 			region_bounds b = bounds_round(compute_bounds_polygon(&(region->data.polygon)));
 
+			if (!bounds_renderable(b)) break;
+
 			reg = region_create_mask(b.left, b.top, b.right - b.left + 1, b.bottom - b.top + 1);
 
 			region_get_mask_offset(region, reg->data.mask.data, b.left, b.top, b.right - b.left + 1, b.bottom - b.top + 1);
-- 
2.43.0


From 08b536666e65bdb2548e383985a81e6067da1aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:49 +0000
Subject: [PATCH 41/87] fix: compute the overlap of regions that are one pixel
 wide, empty or without a shape

---
 src/region.c | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/region.c b/src/region.c
index e8aa37d..c5cb8cb 100644
--- a/src/region.c
+++ b/src/region.c
@@ -1135,7 +1135,6 @@ region_overlap region_compute_overlap(const region_container* ra, const region_c
 	int x, y;
 	int width, height;
 	region_bounds b1, b2;
-	double a1, a2;
 	int vol_1 = 0;
 	int vol_2 = 0;
 	int mask_1 = 0;
@@ -1158,23 +1157,18 @@ region_overlap region_compute_overlap(const region_container* ra, const region_c
 		b2 = bounds_intersection(bounds_round(region_compute_bounds(rb)), bounds);
 	}
 
+	// Regions without pixels or shape have no overlap, the ones that are too
+	// large cannot be rendered.
+	if (!bounds_renderable(b1) || !bounds_renderable(b2))
+		return overlap;
+
 	x = MIN(b1.left, b2.left);
 	y = MIN(b1.top, b2.top);
 
 	width = (int) (MAX(b1.right, b2.right) - x) + 1;
 	height = (int) (MAX(b1.bottom, b2.bottom) - y) + 1;
 
-	// Fixing crashes due to overflowed regions, a simple check if the ratio
-	// between the two bounding boxes is simply too big and the overlap would
-	// be 0 anyway.
-	
-	a1 = (b1.right - b1.left) * (b1.bottom - b1.top);
-	a2 = (b2.right - b2.left) * (b2.bottom - b2.top);
-
-	if (a1 / a2 < 1e-10 || a2 / a1 < 1e-10 || width < 1 || height < 1) 
-		return overlap;
-
-	if (bounds_overlap(b1, b2) == 0) {
+	if (MAX(b1.left, b2.left) > MIN(b1.right, b2.right) || MAX(b1.top, b2.top) > MIN(b1.bottom, b2.bottom)) {
 
 		int i;
 
@@ -1192,10 +1186,12 @@ region_overlap region_compute_overlap(const region_container* ra, const region_c
 			if (tb->data.mask.data[i]) vol_2++;
 		}
 
-		overlap.only1 = (float) vol_1 / (float) (vol_1 + vol_2);
-		overlap.only2 = (float) vol_2 / (float) (vol_1 + vol_2);
+		if (vol_1 + vol_2 > 0) {
+			overlap.only1 = (float) vol_1 / (float) (vol_1 + vol_2);
+			overlap.only2 = (float) vol_2 / (float) (vol_1 + vol_2);
+		}
 
-	} else {
+	} else if ((double) width * height <= INT_MAX) {
 
 		int i;
 		char* mask1;
@@ -1219,9 +1215,11 @@ region_overlap region_compute_overlap(const region_container* ra, const region_c
 			else if (mask2[i]) mask_2++;
 		}
 
-		overlap.only1 = (float) mask_1 / (float) (mask_1 + mask_2 + mask_intersect);
-		overlap.only2 = (float) mask_2 / (float) (mask_1 + mask_2 + mask_intersect);
-		overlap.overlap = mask_intersect / (float) (mask_1 + mask_2 + mask_intersect);
+		if (mask_1 + mask_2 + mask_intersect > 0) {
+			overlap.only1 = (float) mask_1 / (float) (mask_1 + mask_2 + mask_intersect);
+			overlap.only2 = (float) mask_2 / (float) (mask_1 + mask_2 + mask_intersect);
+			overlap.overlap = mask_intersect / (float) (mask_1 + mask_2 + mask_intersect);
+		}
 
 	}
 
-- 
2.43.0


From 15cc65b0a63bfbf3fe78abf61181985212df5c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 42/87] fix: refuse objects whose region cannot be converted
 for the server instead of aborting

---
 src/trax.c | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index d5885e1..7ad0bfa 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -887,6 +887,30 @@ static int client_check_images(trax_handle* client, const trax_image_list* image
 
 }
 
+static int client_check_objects(trax_handle* client, trax_object_list* objects) {
+
+    int i, n = (objects) ? trax_object_list_count(objects) : 0;
+
+    for (i = 0; i < n; i++) {
+        trax_region* region = trax_object_list_get(objects, i);
+
+        if (!TRAX_SUPPORTS(client->metadata->format_region, REGION_TYPE(region))) {
+
+            trax_region* converted = region_autoconvert(region, client->metadata->format_region);
+
+            if (!converted) {
+                set_error(client, "Unable to convert region to a supported format (object: %d)", i);
+                return 0;
+            }
+
+            trax_region_release(&converted);
+        }
+    }
+
+    return 1;
+
+}
+
 int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_object_list* objects, trax_properties* properties) {
 
     char* data = NULL;
@@ -917,7 +941,7 @@ int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_ob
         return TRAX_ERROR;
     }
 
-    if (!client_check_images(client, images))
+    if (!client_check_images(client, images) || !client_check_objects(client, objects))
         return TRAX_ERROR;
 
     if (IS_VERSION_4(client)) {
@@ -999,6 +1023,9 @@ int trax_client_frame(trax_handle* client, trax_image_list* images, trax_object_
             return TRAX_ERROR;
         }
 
+        if (!client_check_objects(client, objects))
+            return TRAX_ERROR;
+
         for (i = 0; i < n; i++) {
             char* data = NULL;
             string_list* arguments;
-- 
2.43.0


From ff9be7ff5a7f3f4a846b6c34bbf8764646b0ddc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:31 +0000
Subject: [PATCH 43/87] fix: keep a wrapper alive when it is assigned to
 itself, keep copies of empty wrappers empty

---
 src/traxpp.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 67c2b27..a7e1bac 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -59,7 +59,7 @@ Wrapper::Wrapper() : pn(NULL) {
 }
 
 Wrapper::Wrapper(const Wrapper& count) : pn(count.pn) {
-	acquire();
+	if (pn) acquire();
 }
 
 
@@ -72,9 +72,10 @@ Wrapper::~Wrapper() {
 }
 
 void Wrapper::acquire(const Wrapper& lhs) {
+	if (pn == lhs.pn) return; // Already sharing (self-assignment included)
 	release();
 	pn = lhs.pn;
-	acquire();
+	if (pn) acquire();
 }
 
 void Wrapper::swap(Wrapper& lhs) {
-- 
2.43.0


From 57f66ac3fc266eb9043e177dbccac6c74fe69db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:31 +0000
Subject: [PATCH 44/87] fix: detach shared properties when they are cleared

---
 src/traxpp.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index a7e1bac..547bed4 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -1057,9 +1057,10 @@ int Properties::size() const {
 
 void Properties::clear()  {
 	if (!properties) return;
-	if (claims() > 1)
+	if (claims() > 1) {
 		release();
-	else
+		properties = NULL;
+	} else
 		trax_properties_clear(properties);
 }
 
-- 
2.43.0


From 42404a4439da1c74a830e91623ecf67bb29a6af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:31 +0000
Subject: [PATCH 45/87] fix: define the move assignment of properties

---
 src/traxpp.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 547bed4..60a2177 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -1046,6 +1046,12 @@ Properties& Properties::operator=(const Properties& original) throw() {
 	return *this;
 }
 
+Properties& Properties::operator=(Properties&& lhs) throw() {
+	swap(lhs);
+	std::swap(properties, lhs.properties);
+	return *this;
+}
+
 Properties::~Properties() {
 	release();
 }
-- 
2.43.0


From 0122c9cddc90e5c3de9b100964b13d312d775c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:31 +0000
Subject: [PATCH 46/87] fix: leave wrappers that were moved from empty

---
 src/traxpp.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 60a2177..aebca56 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -115,6 +115,7 @@ Metadata::Metadata() {
 
 Metadata::Metadata(Metadata&& original) : Wrapper(std::move(original)) {
 	metadata = original.metadata;
+	original.metadata = NULL;
 }
 
 Metadata::Metadata(const Metadata& original) : Wrapper(original) {
@@ -520,6 +521,7 @@ Image::Image(const Image& original) : Wrapper(original) {
 
 Image::Image(Image&& original) : Wrapper(std::move(original)) {
 	image = original.image;
+	original.image = NULL;
 }
 
 Image& Image::operator=(const Image& lhs) throw() {
@@ -622,7 +624,7 @@ ObjectList::ObjectList(const ObjectList& original) : Wrapper(original) {
 	_properties = original._properties;
 }
 
-ObjectList::ObjectList(ObjectList&& original) : Wrapper(std::move(original)) {
+ObjectList::ObjectList(ObjectList&& original) : Wrapper(std::move(original)), list(NULL) {
 	std::swap(list, original.list);
 	std::swap(_regions, original._regions);
 	std::swap(_properties, original._properties);
@@ -707,7 +709,7 @@ ImageList::ImageList(const ImageList& original)  : Wrapper(original) {
 	images = original.images;
 }
 
-ImageList::ImageList(ImageList&& original)  : Wrapper(std::move(original)) {
+ImageList::ImageList(ImageList&& original)  : Wrapper(std::move(original)), images(TRAX_CHANNELS), list(NULL) {
 	std::swap(list, original.list);
 	std::swap(images, original.images);
 }
@@ -790,7 +792,7 @@ Region::Region(const Region& original) : Wrapper(original) {
 	region = original.region;
 }
 
-Region::Region(Region&& original) : Wrapper(std::move(original)) {
+Region::Region(Region&& original) : Wrapper(std::move(original)), region(NULL) {
 	std::swap(region, original.region);
 }
 
@@ -1036,7 +1038,7 @@ Properties::Properties(const Properties& original) : Wrapper(original) {
 	properties = original.properties;
 }
 
-Properties::Properties(Properties&& original) : Wrapper(std::move(original)) {
+Properties::Properties(Properties&& original) : Wrapper(std::move(original)), properties(NULL) {
 	std::swap(properties, original.properties);
 }
 
-- 
2.43.0


From c64d3dbc17094f64cf3a5a6cc0b4a675e983c099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:31 +0000
Subject: [PATCH 47/87] fix: keep custom properties of the metadata of a handle

---
 src/traxpp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index aebca56..0020680 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -139,6 +139,8 @@ Metadata::Metadata(trax_metadata* metadata) {
     wrap(trax_metadata_create(metadata->format_region, metadata->format_image, metadata->channels,
 		metadata->tracker_name, metadata->tracker_description, metadata->tracker_family, metadata->flags));
 
+	trax_properties_append(metadata->custom, this->metadata->custom, 1);
+
 }
 
 Metadata::~Metadata() {
-- 
2.43.0


From 29bfcf5542061d08981e29ffffd5d0e93b310fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:31 +0000
Subject: [PATCH 48/87] fix: refuse calls on a handle without a session

---
 src/traxpp.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 0020680..d3d8654 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -246,10 +246,12 @@ void Handle::cleanup() {
 }
 
 int Handle::set_parameter(int id, int value) {
+	if (!claims()) return TRAX_ERROR;
 	return trax_set_parameter(handle, id, value);
 }
 
 int Handle::get_parameter(int id, int* value) {
+	if (!claims()) return TRAX_ERROR;
 	return trax_get_parameter(handle, id, value);
 }
 
@@ -269,7 +271,7 @@ const Metadata Handle::metadata() {
 }
 
 bool Handle::terminate(const std::string reason) {
-	if (!claims()) return -1;
+	if (!claims()) return false;
 	return trax_terminate(handle, reason.c_str()) == TRAX_OK;
 }
 
@@ -485,6 +487,8 @@ int ServerMOT::reply(const Region& region, const Properties& properties) {
 
 int ServerMOT::wait(ImageList& image, ObjectList& objects, Properties& properties) {
 
+	if (!claims()) return -1;
+
 	trax_object_list* tobjects = NULL;
     trax_image_list* timagelist = NULL;
 
-- 
2.43.0


From e96fd096c75ed505082f7effaeed1d0355148093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:31 +0000
Subject: [PATCH 49/87] fix: send the properties of a single-region reply,
 release the list of a single-region wait

---
 src/traxpp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index d3d8654..2166cb8 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -463,6 +463,7 @@ int ServerMOT::wait(ImageList& image, Region& region, Properties& properties) {
 			region.wrap(tregion);
 			trax_properties_append(trax_object_list_properties(tobjects, 0), properties.properties, 0);
 		}
+		trax_object_list_release(&tobjects);
 	}
 
 	return result;
@@ -475,7 +476,8 @@ int ServerMOT::reply(const Region& region, const Properties& properties) {
 
 	trax_object_list* objects = trax_object_list_create(1);
 	trax_object_list_set(objects, 0, region.region);
-	trax_properties_append(trax_object_list_properties(objects, 0), properties.properties, 0);
+	if (properties.properties)
+		trax_properties_append(properties.properties, trax_object_list_properties(objects, 0), 0);
 
 	int result = trax_server_reply_mot(handle, objects);
 
-- 
2.43.0


From 809b8cadf2bf9cbe17de3eae87b0d7d11c32883b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:06 +0000
Subject: [PATCH 50/87] fix: own the structure of lists created in C++, forget
 elements of a replaced list

---
 src/traxpp.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 2166cb8..765776b 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -620,10 +620,8 @@ ObjectList::ObjectList() {
 	list = NULL;
 }
 
-ObjectList::ObjectList(int count) {
-	list = trax_object_list_create(count);
-	_regions.resize(count);
-	_properties.resize(count);
+ObjectList::ObjectList(int count) : list(NULL) {
+	wrap(trax_object_list_create(count));
 }
 
 ObjectList::ObjectList(const ObjectList& original) : Wrapper(original) {
@@ -697,8 +695,8 @@ void ObjectList::wrap(trax_object_list* obj) {
 	list = obj;
 	if (list) acquire();
 
-	_regions.resize(trax_object_list_count(obj));
-	_properties.resize(trax_object_list_count(obj));
+	_regions.assign(trax_object_list_count(obj), Region());
+	_properties.assign(trax_object_list_count(obj), Properties());
 
 	for (int i = 0; i < trax_object_list_count(obj); i++) {
 		_regions[i].wrap(obj->regions[i]);
@@ -707,9 +705,8 @@ void ObjectList::wrap(trax_object_list* obj) {
 }
 
 
-ImageList::ImageList()  {
-	list = trax_image_list_create();
-	images.resize(TRAX_CHANNELS);
+ImageList::ImageList() : images(TRAX_CHANNELS), list(NULL) {
+	wrap(trax_image_list_create());
 }
 
 ImageList::ImageList(const ImageList& original)  : Wrapper(original) {
@@ -786,8 +783,10 @@ void ImageList::wrap(trax_image_list* obj) {
 	list = obj;
 	if (list) acquire();
 
-	for (int i = 0; i < TRAX_CHANNELS; i++)
+	for (int i = 0; i < TRAX_CHANNELS; i++) {
+		images[i] = Image();
 		images[i].wrap(obj->images[i]);
+	}
 
 }
 
-- 
2.43.0


From 3bcdcc23aa931f7934efe4eb66d6c349fa0074d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:06 +0000
Subject: [PATCH 51/87] fix: refuse unknown channels and indices in C++ lists

---
 src/traxpp.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 765776b..2dde789 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -658,10 +658,12 @@ ObjectList::~ObjectList() {
 }
 
 Region ObjectList::get(int index) const {
+	if (index < 0 || index >= size()) return Region();
 	return _regions[index];
 }
 
 void ObjectList::set(int index, Region region) {
+	if (index < 0 || index >= size()) return;
 	_regions[index] = region;
 	list->regions[index] = region.region;
 	// Do not use C function as it will try to free old region
@@ -669,6 +671,7 @@ void ObjectList::set(int index, Region region) {
 }
 
 Properties ObjectList::properties(int index) const {
+	if (index < 0 || index >= size()) return Properties();
 	return _properties[index];
 }
 
@@ -739,18 +742,24 @@ ImageList::~ImageList() {
 
 Image ImageList::get(int channel) const {
 
+	if (TRAX_CHANNEL_INDEX(channel) < 0) return Image();
+
 	return images[TRAX_CHANNEL_INDEX(channel)];
 
 }
 
 bool ImageList::has(int channel) const {
 
+	if (TRAX_CHANNEL_INDEX(channel) < 0) return false;
+
 	return !images[TRAX_CHANNEL_INDEX(channel)].empty();
 
 }
 
 void ImageList::set(Image image, int channel) {
 
+	if (TRAX_CHANNEL_INDEX(channel) < 0) return;
+
 	images[TRAX_CHANNEL_INDEX(channel)] = image;
 	list->images[TRAX_CHANNEL_INDEX(channel)] = image.image;
 
-- 
2.43.0


From 7c44fb569a2914df548ecf6eedb90599775c7fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:06 +0000
Subject: [PATCH 52/87] fix: do not change the copies of a list when an element
 is set

---
 src/traxpp.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 2dde789..83db530 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -664,6 +664,17 @@ Region ObjectList::get(int index) const {
 
 void ObjectList::set(int index, Region region) {
 	if (index < 0 || index >= size()) return;
+	if (claims() > 1) {
+		// Other proxies refer to the same structure, continue with a copy
+		std::vector<Region> regions(_regions);
+		std::vector<Properties> properties(_properties);
+		wrap(trax_object_list_create((int) regions.size()));
+		for (size_t i = 0; i < regions.size(); i++) {
+			_regions[i] = regions[i];
+			list->regions[i] = regions[i].region;
+			trax_properties_append(properties[i].properties, _properties[i].properties, 1);
+		}
+	}
 	_regions[index] = region;
 	list->regions[index] = region.region;
 	// Do not use C function as it will try to free old region
@@ -760,6 +771,16 @@ void ImageList::set(Image image, int channel) {
 
 	if (TRAX_CHANNEL_INDEX(channel) < 0) return;
 
+	if (claims() != 1) {
+		// Other proxies refer to the same structure, continue with a copy
+		std::vector<Image> original(images);
+		wrap(trax_image_list_create());
+		for (int i = 0; i < TRAX_CHANNELS; i++) {
+			images[i] = original[i];
+			list->images[i] = original[i].image;
+		}
+	}
+
 	images[TRAX_CHANNEL_INDEX(channel)] = image;
 	list->images[TRAX_CHANNEL_INDEX(channel)] = image.image;
 
-- 
2.43.0


From 7078040406ddfa13b50c397a4efa9ef31eea2c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:51 +0000
Subject: [PATCH 53/87] fix: refuse an initialization without objects or
 without a region instead of crashing

---
 src/trax.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 7ad0bfa..af3df0e 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -894,6 +894,11 @@ static int client_check_objects(trax_handle* client, trax_object_list* objects)
     for (i = 0; i < n; i++) {
         trax_region* region = trax_object_list_get(objects, i);
 
+        if (!region) {
+            set_error(client, "Region not provided (object: %d)", i);
+            return 0;
+        }
+
         if (!TRAX_SUPPORTS(client->metadata->format_region, REGION_TYPE(region))) {
 
             trax_region* converted = region_autoconvert(region, client->metadata->format_region);
@@ -927,9 +932,9 @@ int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_ob
         return TRAX_ERROR;
     }
 
-    assert(images && objects);
+    assert(images);
 
-    n = trax_object_list_count(objects);
+    n = (objects) ? trax_object_list_count(objects) : 0;
 
     if (n < 1) {
         set_error(client, "At least one object required");
-- 
2.43.0


From 6afaf436b3c37f5010b8025843e96b4976c2c1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:09 +0000
Subject: [PATCH 54/87] fix: refuse a multi-object reply without objects or
 without a region before anything is sent

---
 src/trax.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index af3df0e..c587019 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1488,9 +1488,7 @@ int trax_server_reply_mot(trax_handle* server, trax_object_list* objects) {
         return TRAX_ERROR;
     }
 
-    assert(objects);
-
-    n = trax_object_list_count(objects);
+    n = (objects) ? trax_object_list_count(objects) : 0;
 
     if (!IS_MULTI_OBJECT(server) && n != 1) {
         set_error(server, "Invalid mode");
@@ -1502,6 +1500,13 @@ int trax_server_reply_mot(trax_handle* server, trax_object_list* objects) {
         return TRAX_ERROR;
     }
 
+    for (i = 0; i < n; i++) {
+        if (!trax_object_list_get(objects, i)) {
+            set_error(server, "Unable to encode region (object: %d)", i);
+            return TRAX_ERROR;
+        }
+    }
+
     for (i = 0; i < n; i++) {
         data = region_string(REGION(trax_object_list_get(objects, i)));
         if (!data) return TRAX_ERROR;
-- 
2.43.0


From ea02f74b72889b8a2bc3b0727cdaaae3e54b1896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:32 +0000
Subject: [PATCH 55/87] fix: release object lists in which an object has no
 region

---
 src/region.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/region.c b/src/region.c
index c5cb8cb..cc5e018 100644
--- a/src/region.c
+++ b/src/region.c
@@ -743,6 +743,8 @@ region_container* region_convert(const region_container* region, region_type typ
 
 void region_release(region_container** region) {
 
+	if (!*region) return;
+
 	switch ((*region)->type) {
 	case RECTANGLE:
 		break;
-- 
2.43.0


From e1824fbfe58ae628b0cfcd9f7397aea7b7974852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 56/87] fix: report commands that cannot be parsed and accept
 spaces at the end of a command

---
 support/client/process.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/support/client/process.cpp b/support/client/process.cpp
index b0265d6..f15c21b 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -110,7 +110,7 @@ char** parse_command(const char* command) {
         position = __next_token(command, position, buffer, 1024);
 
         if (position < 0) {
-            for (int j = 0; j < i; j++) delete[] tokens[j];
+            for (int j = 0; j < i; j++) free(tokens[j]);
             delete [] tokens;
             delete [] buffer;
             return NULL;
@@ -121,6 +121,10 @@ char** parse_command(const char* command) {
         strcpy(tmp, buffer);
         tokens[i++] = tmp;
 
+        // Spaces after the last argument do not start another one
+        while (position < length && command[position] == ' ')
+            position++;
+
         if (position >= length)
             break;
 
@@ -152,7 +156,7 @@ Process::Process(string command, bool explicit_mode) : running(false), explicit_
 
     char** tokens = parse_command(command.c_str());
 
-    if (!tokens[0])
+    if (!tokens)
         throw std::runtime_error("Unable to parse command string");
 
     program = tokens[0];
-- 
2.43.0


From 8c367e00f4492b5d1093b7e87aef458e05f33957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 57/87] fix: accept command arguments of any length

---
 support/client/process.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/client/process.cpp b/support/client/process.cpp
index f15c21b..3768356 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -107,7 +107,7 @@ char** parse_command(const char* command) {
 
     while (1) {
 
-        position = __next_token(command, position, buffer, 1024);
+        position = __next_token(command, position, buffer, length + 1);
 
         if (position < 0) {
             for (int j = 0; j < i; j++) free(tokens[j]);
-- 
2.43.0


From da33ed41a359a422ae83d349eed5de3d0dac7e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 58/87] fix: do not close descriptors of a process that was
 never started, nor leak them when it cannot be

---
 support/client/process.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/support/client/process.cpp b/support/client/process.cpp
index 3768356..5c4312f 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -152,6 +152,11 @@ Process::Process(string command, bool explicit_mode) : running(false), explicit_
     piProcInfo.hProcess = 0;
 #else
     pid = 0;
+
+    out[0] = out[1] = -1;
+    in[0] = in[1] = -1;
+    err[0] = err[1] = -1;
+    action_initialized = false;
 #endif
 
     char** tokens = parse_command(command.c_str());
@@ -320,12 +325,11 @@ bool Process::start() {
 
 #else
 
-        action_initialized = false;
-
         if (pid) return false;
 
         if (pipe(out) == -1 || pipe(in) == -1 || pipe(err) == -1) {
             std::cerr << "Error: unable to configure process streams" << std::endl;
+            cleanup();
             return false;
         }
 
-- 
2.43.0


From dc00c01d6f08dc600e18ac66732ebdef2649951b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 59/87] fix: wait for a condition until a valid point in time

---
 support/client/threads.cpp | 491 +++++++++++++++++++------------------
 1 file changed, 246 insertions(+), 245 deletions(-)

diff --git a/support/client/threads.cpp b/support/client/threads.cpp
index 24e3298..777238d 100644
--- a/support/client/threads.cpp
+++ b/support/client/threads.cpp
@@ -1,245 +1,246 @@
-
-#include "threads.h"
-
-#if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER)
-
-int simple_threads_cond_wait(THREAD h, HANDLE m, long milisec) {
-	if (milisec < 0)
-		return WaitForSingleObject(h, INFINITE);
-
-	return WaitForSingleObject(h, milisec);
-}
-
-int WINAPI simple_threads_create_thread(THREAD* h, LPTHREAD_START_ROUTINE lpStartAddress, LPVOID lpParameter) {
-
-	HANDLE hn = CreateThread(NULL, 0, lpStartAddress, lpParameter, 0, NULL);
-
-	if (hn == 0)
-		return -1;
-	*h = hn;
-
-	return 0;
-}
-
-void* simple_threads_release_thread(THREAD t) {
-
-	void* result = simple_threads_join_thread(t);
-
-	CloseHandle(t);
-
-	return result;
-}
-
-void* simple_threads_join_thread(THREAD t) {
-
-	WaitForSingleObject(t, INFINITE);
-
-	return NULL; // TODO: also get thread exit status
-
-}
-
-#else
-
-int simple_threads_cond_wait(pthread_cond_t * h, pthread_mutex_t *m, long milisec) {
-	struct timespec waittime;
-	struct timeval curtime;
-	int retcode;
-
-	if (milisec < 0) {
-		return pthread_cond_wait(h, m);
-
-	}
-
-	/*
-	 * We calculate the delay time (representing the desired frame
-	 * rate).  This delay time is in *nanoseconds*.
-	 * We will wait 0.5 seconds which gives a practical minimum
-	 * framerate of 2 which is desired for the motion_loop to
-	 * function.
-	 */
-	gettimeofday(&curtime, NULL);
-	curtime.tv_usec += milisec * 1000;
-
-	if (curtime.tv_usec > 1000000) {
-		curtime.tv_usec -= 1000000;
-		curtime.tv_sec++;
-	}
-
-	waittime.tv_sec = curtime.tv_sec;
-	waittime.tv_nsec = 1000L * curtime.tv_usec;
-
-	do {
-		retcode = pthread_cond_timedwait(h, m, &waittime);
-	} while (retcode == EINTR);
-
-	return retcode;
-}
-
-int simple_threads_create_thread(THREAD* t, void *(*start_routine)(void*), void *arg) {
-
-	pthread_attr_init(&(t->attr));
-
-	//pthread_attr_setdetachstate(&(t->attr), PTHREAD_CREATE_DETACHED);
-
-	return pthread_create(&(t->thread), &(t->attr), start_routine, arg);
-}
-
-void* simple_threads_release_thread(THREAD t) {
-
-	void* result = simple_threads_join_thread(t);
-
-	pthread_attr_destroy(&(t.attr));
-
-	return result;
-}
-
-void* simple_threads_join_thread(THREAD t) {
-
-	void* result;
-
-	pthread_join(t.thread, &result);
-
-	return result;
-
-}
-
-#endif
-
-Mutex::Mutex() {
-	MUTEX_INIT(mutex);
-
-	owner = THREAD_NONE;
-
-	counter = 0;
-
-	recursive = false;
-}
-
-Mutex::~Mutex() {
-	MUTEX_DESTROY(mutex);
-}
-
-void Mutex::acquire() {
-
-	if (!recursive) {
-    	MUTEX_LOCK(mutex);		
-	} else {
-		THREAD_IDENTIFIER tid = THREAD_GET_IDENTIFIER();
-
-	    if (!THREAD_EQUALS(tid, owner)) {
-	    	MUTEX_LOCK(mutex);
-	    	owner = tid;
-	    	counter = 0;
-	    }
-
-	    counter++;
-	}
-
-}
-
-void Mutex::release() {
-
-	if (!recursive) {
-    	MUTEX_UNLOCK(mutex);
-	} else {
-
-		THREAD_IDENTIFIER tid = THREAD_GET_IDENTIFIER();
-
-		if (THREAD_EQUALS(tid, owner)) {
-			counter--;
-
-			if (counter < 1) {
-				owner = THREAD_NONE;
-	    		MUTEX_UNLOCK(mutex);
-	    	}
-	    }
-	}
-
-
-}
-
-RecursiveMutex::RecursiveMutex() : Mutex() {
-	recursive = true;
-}
-
-RecursiveMutex::~RecursiveMutex() {
-
-}
-
-Lock::Lock(Mutex& mutex) : mutex(mutex), locked(false)
-{
-	lock();
-}
-
-Lock::Lock(Synchronized& mutex) : mutex(mutex.object_mutex), locked(false) {
-	
-	lock();
-
-}
-
-Lock::~Lock()
-{
-	unlock();
-}
-
-
-Lock::operator bool () const
-{
-	return locked;
-}
-
-void Lock::lock() {
-	if (!locked) {
-		mutex.acquire();
-		locked = true;
-	}
-}
-
-void Lock::unlock() {
-	if (locked) {
-		locked = false;
-		mutex.release();
-
-	}
-}
-
-
-Signal::Signal() {
-
-	CONDITION_INIT(condition);
-	MUTEX_INIT(mutex);
-}
-
-Signal::~Signal() {
-
-	CONDITION_DESTROY(condition);
-	MUTEX_DESTROY(mutex);
-}
-
-void Signal::wait(long timeout) {
-	MUTEX_LOCK(mutex);
-
-	if (timeout > 0) {
-		CONDITION_TIMEDWAIT(condition, mutex, timeout);
-	} else {
-		CONDITION_WAIT(condition, mutex);
-	}
-	MUTEX_UNLOCK(mutex);
-}
-
-void Signal::notify() {
-	
-	MUTEX_LOCK(mutex);
-	CONDITION_SIGNAL(condition);
-	MUTEX_UNLOCK(mutex);
-
-}
-
-
-Synchronized::Synchronized() {
-
-}
-
-Synchronized::~Synchronized() {
-
-}
+
+#include "threads.h"
+
+#if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER)
+
+int simple_threads_cond_wait(THREAD h, HANDLE m, long milisec) {
+	if (milisec < 0)
+		return WaitForSingleObject(h, INFINITE);
+
+	return WaitForSingleObject(h, milisec);
+}
+
+int WINAPI simple_threads_create_thread(THREAD* h, LPTHREAD_START_ROUTINE lpStartAddress, LPVOID lpParameter) {
+
+	HANDLE hn = CreateThread(NULL, 0, lpStartAddress, lpParameter, 0, NULL);
+
+	if (hn == 0)
+		return -1;
+	*h = hn;
+
+	return 0;
+}
+
+void* simple_threads_release_thread(THREAD t) {
+
+	void* result = simple_threads_join_thread(t);
+
+	CloseHandle(t);
+
+	return result;
+}
+
+void* simple_threads_join_thread(THREAD t) {
+
+	WaitForSingleObject(t, INFINITE);
+
+	return NULL; // TODO: also get thread exit status
+
+}
+
+#else
+
+int simple_threads_cond_wait(pthread_cond_t * h, pthread_mutex_t *m, long milisec) {
+	struct timespec waittime;
+	struct timeval curtime;
+	int retcode;
+
+	if (milisec < 0) {
+		return pthread_cond_wait(h, m);
+
+	}
+
+	/*
+	 * We calculate the delay time (representing the desired frame
+	 * rate).  This delay time is in *nanoseconds*.
+	 * We will wait 0.5 seconds which gives a practical minimum
+	 * framerate of 2 which is desired for the motion_loop to
+	 * function.
+	 */
+	gettimeofday(&curtime, NULL);
+	curtime.tv_sec += milisec / 1000;
+	curtime.tv_usec += (milisec % 1000) * 1000;
+
+	if (curtime.tv_usec >= 1000000) {
+		curtime.tv_usec -= 1000000;
+		curtime.tv_sec++;
+	}
+
+	waittime.tv_sec = curtime.tv_sec;
+	waittime.tv_nsec = 1000L * curtime.tv_usec;
+
+	do {
+		retcode = pthread_cond_timedwait(h, m, &waittime);
+	} while (retcode == EINTR);
+
+	return retcode;
+}
+
+int simple_threads_create_thread(THREAD* t, void *(*start_routine)(void*), void *arg) {
+
+	pthread_attr_init(&(t->attr));
+
+	//pthread_attr_setdetachstate(&(t->attr), PTHREAD_CREATE_DETACHED);
+
+	return pthread_create(&(t->thread), &(t->attr), start_routine, arg);
+}
+
+void* simple_threads_release_thread(THREAD t) {
+
+	void* result = simple_threads_join_thread(t);
+
+	pthread_attr_destroy(&(t.attr));
+
+	return result;
+}
+
+void* simple_threads_join_thread(THREAD t) {
+
+	void* result;
+
+	pthread_join(t.thread, &result);
+
+	return result;
+
+}
+
+#endif
+
+Mutex::Mutex() {
+	MUTEX_INIT(mutex);
+
+	owner = THREAD_NONE;
+
+	counter = 0;
+
+	recursive = false;
+}
+
+Mutex::~Mutex() {
+	MUTEX_DESTROY(mutex);
+}
+
+void Mutex::acquire() {
+
+	if (!recursive) {
+    	MUTEX_LOCK(mutex);		
+	} else {
+		THREAD_IDENTIFIER tid = THREAD_GET_IDENTIFIER();
+
+	    if (!THREAD_EQUALS(tid, owner)) {
+	    	MUTEX_LOCK(mutex);
+	    	owner = tid;
+	    	counter = 0;
+	    }
+
+	    counter++;
+	}
+
+}
+
+void Mutex::release() {
+
+	if (!recursive) {
+    	MUTEX_UNLOCK(mutex);
+	} else {
+
+		THREAD_IDENTIFIER tid = THREAD_GET_IDENTIFIER();
+
+		if (THREAD_EQUALS(tid, owner)) {
+			counter--;
+
+			if (counter < 1) {
+				owner = THREAD_NONE;
+	    		MUTEX_UNLOCK(mutex);
+	    	}
+	    }
+	}
+
+
+}
+
+RecursiveMutex::RecursiveMutex() : Mutex() {
+	recursive = true;
+}
+
+RecursiveMutex::~RecursiveMutex() {
+
+}
+
+Lock::Lock(Mutex& mutex) : mutex(mutex), locked(false)
+{
+	lock();
+}
+
+Lock::Lock(Synchronized& mutex) : mutex(mutex.object_mutex), locked(false) {
+	
+	lock();
+
+}
+
+Lock::~Lock()
+{
+	unlock();
+}
+
+
+Lock::operator bool () const
+{
+	return locked;
+}
+
+void Lock::lock() {
+	if (!locked) {
+		mutex.acquire();
+		locked = true;
+	}
+}
+
+void Lock::unlock() {
+	if (locked) {
+		locked = false;
+		mutex.release();
+
+	}
+}
+
+
+Signal::Signal() {
+
+	CONDITION_INIT(condition);
+	MUTEX_INIT(mutex);
+}
+
+Signal::~Signal() {
+
+	CONDITION_DESTROY(condition);
+	MUTEX_DESTROY(mutex);
+}
+
+void Signal::wait(long timeout) {
+	MUTEX_LOCK(mutex);
+
+	if (timeout > 0) {
+		CONDITION_TIMEDWAIT(condition, mutex, timeout);
+	} else {
+		CONDITION_WAIT(condition, mutex);
+	}
+	MUTEX_UNLOCK(mutex);
+}
+
+void Signal::notify() {
+	
+	MUTEX_LOCK(mutex);
+	CONDITION_SIGNAL(condition);
+	MUTEX_UNLOCK(mutex);
+
+}
+
+
+Synchronized::Synchronized() {
+
+}
+
+Synchronized::~Synchronized() {
+
+}
-- 
2.43.0


From 4a7af11024f43d0aa4ac05100a184075209b45e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:29 +0000
Subject: [PATCH 60/87] fix: announce the streams of a process even if the
 environment already names others

---
 support/client/process.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/support/client/process.cpp b/support/client/process.cpp
index 5c4312f..22c9490 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -338,6 +338,8 @@ bool Process::start() {
         map<string, string>::iterator iter;
         for (iter = env.begin(); iter != env.end(); ++iter) {
             // if (iter->first == "PWD") continue;
+            // The streams of this process are announced below, a variable must not appear twice
+            if (explicit_mode && (iter->first == "TRAX_OUT" || iter->first == "TRAX_IN")) continue;
             vars.push_back(iter->first + string("=") + iter->second);
         }
 
-- 
2.43.0


From 2554576fab441db83147f8da2472a2672370640a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:29 +0000
Subject: [PATCH 61/87] fix: do not leave a killed process behind as a zombie

---
 support/client/process.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/support/client/process.cpp b/support/client/process.cpp
index 22c9490..9b220c8 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -173,6 +173,12 @@ Process::~Process() {
 
     kill();
 
+#ifndef WIN32
+    // The process may need some time to end, do not leave it behind as a zombie
+    if (is_alive())
+        waitpid(pid, NULL, 0);
+#endif
+
     cleanup();
 
     int i = 0;
-- 
2.43.0


From 5c060494e3ea08006d23611504fb9a9606bcffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:32 +0000
Subject: [PATCH 62/87] fix: a tracker that was just started or reset is not
 tracking yet

---
 support/client/client.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 083fc91..7dfe4c5 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -226,7 +226,7 @@ class TrackerProcess::State : public Synchronized {
 public:
 	State(const string& command, const map<std::string, std::string> environment, ConnectionMode connection, VerbosityMode verbosity, int timeout, string directory, ostream *log):
 		client(NULL), process(NULL), command(command), environment(environment), socket_id(-1), socket_port(-1),
-		connection(connection), verbosity(verbosity), timeout(timeout), directory(directory) {
+		tracking(false), connection(connection), verbosity(verbosity), timeout(timeout), directory(directory) {
 
 		timer_init();
 
@@ -298,6 +298,8 @@ public:
 
 		if (process_running()) return false;
 
+		tracking = false;
+
 		if (client) {
 			delete client;
 			client = NULL;
-- 
2.43.0


From 74245a9cfcb1db3043d917bb80a55e401c3d32cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:32 +0000
Subject: [PATCH 63/87] fix: protect the process against removal by the
 watchdog while it is being started

---
 support/client/client.cpp | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 7dfe4c5..cc0e40e 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -300,21 +300,30 @@ public:
 
 		tracking = false;
 
+		bool started = false;
+
+		// The watchdog removes a process that is not running, it has to wait until this one does
+		MUTEX_SYNCHRONIZE(process_state_mutex) {
+
 		if (client) {
 			delete client;
 			client = NULL;
 			print_debug("Deleted stale client");
 		}
 
+		if (process) {
+			delete process;
+			process = NULL;
+			print_debug("Deleted stale process");
+		}
+
 		print_debug("Creating process %s", command.c_str());
 
-		process_state_mutex.acquire();
 		process = new Process(command, connection == CONNECTION_EXPLICIT);
 		if (!directory.empty()) {
 			print_debug("Working directory is %s", directory.c_str());
 			process->set_directory(directory);
 		}
-		process_state_mutex.release();
 
 		process->copy_environment();
 
@@ -331,17 +340,18 @@ public:
 
 		reset_logger();
 
-		bool started = false;
 		print_debug("Starting process");
 		started = process->start();
 
+		}
+
 		if (!started) {
 			print_debug("Unable to start process");
 			throw std::runtime_error("Unable to start the tracker process");
 		} else {
 
 			sleepf(0.1);
-			if (!process->is_alive()) {
+			if (!process_running()) {
 				print_debug("Unable to start process");
 				throw std::runtime_error("Unable to start the tracker process");
 			}
@@ -358,7 +368,18 @@ public:
 				client = new Client(socket_id, logger, timeout);
 			} else {
 				print_debug("Setting up TraX with %s streams connection", (connection == CONNECTION_EXPLICIT) ? "dedicated" : "standard");
-				client = new Client(process->get_output(), process->get_input(), logger);
+				int output = -1, input = -1;
+				MUTEX_SYNCHRONIZE(process_state_mutex) {
+					if (process) {
+						output = process->get_output();
+						input = process->get_input();
+					}
+				}
+				if (output < 0 || input < 0) {
+					print_debug("Unable to establish connection.");
+					throw std::runtime_error("Unable to establish connection.");
+				}
+				client = new Client(output, input, logger);
 			}
 			// TODO: check tracker exit state
 			if (!(*client)) {
@@ -368,7 +389,9 @@ public:
 
 			stop_watchdog();
 
-			print_debug("Tracker process ID: %d", process->get_handle());
+			MUTEX_SYNCHRONIZE(process_state_mutex) {
+				print_debug("Tracker process ID: %d", process ? process->get_handle() : 0);
+			}
 			int server_version = 0;
 
 			client->get_parameter(TRAX_PARAMETER_VERSION, &server_version);
-- 
2.43.0


From f5667dc37add63a884c41012b3e90c1f8497f7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:34 +0000
Subject: [PATCH 64/87] fix: protect the process against removal while the
 logger looks for its error stream

---
 support/client/client.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index cc0e40e..68f799f 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -622,15 +622,18 @@ flush_condition.wait(1000);
 
 			if (err == -1) {
 
-				if (state->process_running()) {
+				bool running = false;
 
-					err = state->process->get_error();
+				MUTEX_SYNCHRONIZE(state->process_state_mutex) {
 
-				} else {
+					running = state->process && state->process->is_alive();
 
-					state->flush_condition.notify();
+					if (running) err = state->process->get_error();
 
 				}
+
+				if (!running) state->flush_condition.notify();
+
 				if (err == -1) {
 					sleep(0);
 					continue;
-- 
2.43.0


From 0f45248762c0d20e15941fa1f01c9767161d43a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:47 +0000
Subject: [PATCH 65/87] fix: stop a tracker whose protocol version is not
 supported

---
 support/client/client.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 68f799f..278b7dd 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -396,7 +396,10 @@ public:
 
 			client->get_parameter(TRAX_PARAMETER_VERSION, &server_version);
 
-			if (server_version > TRAX_VERSION) throw std::runtime_error("Unsupported protocol version");
+			if (server_version > TRAX_VERSION) {
+				stop_process();
+				throw std::runtime_error("Unsupported protocol version");
+			}
 
 			print_debug("Connection with tracker established.");
 
-- 
2.43.0


From 1aea0adfcfc83972f80912a60ef1fe0aa8f2d240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:00 +0000
Subject: [PATCH 66/87] fix: the logger reads the error stream of a process
 through its own descriptor

---
 support/client/client.cpp | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 278b7dd..f7bd0ea 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -27,6 +27,7 @@ private:
 
 #if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER)
 #include <ctype.h>
+#include <io.h>
 #include <winsock2.h>
 #include <windows.h>
 
@@ -219,6 +220,30 @@ int read_stream(int fd, char* buffer, int len) {
 
 }
 
+int duplicate_stream(int fd) {
+
+	if (fd < 0) return -1;
+
+#if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER)
+	return _dup(fd);
+#else
+	return dup(fd);
+#endif
+
+}
+
+void close_stream(int fd) {
+
+	if (fd < 0) return;
+
+#if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER)
+	_close(fd);
+#else
+	close(fd);
+#endif
+
+}
+
 namespace trax {
 
 int next_available_socket_port = TRAX_DEFAULT_PORT;
@@ -631,7 +656,8 @@ flush_condition.wait(1000);
 
 					running = state->process && state->process->is_alive();
 
-					if (running) err = state->process->get_error();
+					// The stream of the process may be closed at any time, so use another descriptor for it
+					if (running) err = duplicate_stream(state->process->get_error());
 
 				}
 
@@ -650,7 +676,8 @@ flush_condition.wait(1000);
 
 			if (read != 1) {
 
-				if (state->process_running()) err =  -1;
+				close_stream(err);
+				err = -1;
 				flush = true;
 
 			} else {
@@ -673,6 +700,8 @@ flush_condition.wait(1000);
 
 		}
 
+		close_stream(err);
+
 		state->print_debug("Stopping logger thread");
 
 		return 0;
-- 
2.43.0


From 53d2bca9b2da98ba2a8943403b1e77d89118fd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:34 +0000
Subject: [PATCH 67/87] fix: keep the output of a tracker in order and complete
 in the log, also when it ends

---
 support/client/client.cpp | 79 +++++++++++++++++++++++++++------------
 1 file changed, 55 insertions(+), 24 deletions(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index f7bd0ea..6e19968 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -282,8 +282,12 @@ public:
 		watchdog_active = true;
 		logger_active = true;
 
+		RESET_LINE_BUFFER(stderr_buffer);
+		RESET_LINE_BUFFER(stdout_buffer);
+
+		line_truncate = 256;
+
 		stop_watchdog();
-		reset_logger();
 
 		CREATE_THREAD(watchdog_thread, watchdog_loop, this);
 		CREATE_THREAD(logger_thread, logger_loop, this);
@@ -519,12 +523,18 @@ public:
 
 	void reset_logger() {
 
-		Lock lock(logger_mutex);
+		// Lines that were not finished still belong to the log
+		MUTEX_SYNCHRONIZE(stderr_mutex) {
 
-		RESET_LINE_BUFFER(stderr_buffer);
-		RESET_LINE_BUFFER(stdout_buffer);
+			error_logger(NULL, 0, this);
 
-		line_truncate = 256;
+			RESET_LINE_BUFFER(stderr_buffer);
+
+		}
+
+		client_logger(NULL, 0, this);
+
+		RESET_LINE_BUFFER(stdout_buffer);
 
 	}
 
@@ -541,11 +551,17 @@ flush_condition.wait(1000);
 
 		for (int i = 0; i < 10; i++) {
 
-			int read = read_stream(process->get_error(), buffer, LOGGER_BUFFER_SIZE);
+			int read = 0;
 
-			if (read <= 0) break;
+			MUTEX_SYNCHRONIZE(stderr_mutex) {
+
+				read = read_stream(process->get_error(), buffer, LOGGER_BUFFER_SIZE);
+
+				if (read > 0) error_logger(buffer, read, this);
+
+			}
 
-			client_logger(buffer, read, this);
+			if (read <= 0) break;
 
 			sleepf(0.05);
 
@@ -671,30 +687,23 @@ flush_condition.wait(1000);
 			}
 
 			char chr;
-			bool flush = false;
-			int read = read_stream(err, &chr, 1);
+			int read = 0;
 
-			if (read != 1) {
+			// The stream is also read when the process is stopped, the order of what was read must not change
+			MUTEX_SYNCHRONIZE(state->stderr_mutex) {
 
-				close_stream(err);
-				err = -1;
-				flush = true;
+				read = read_stream(err, &chr, 1);
 
-			} else {
-
-				flush = line_buffer_push(state->stderr_buffer, chr, state->line_truncate);
+				error_logger((read == 1) ? &chr : NULL, 1, state);
 
 			}
 
-			if (flush) {
-
-				MUTEX_SYNCHRONIZE(state->logger_mutex) {
-
-					line_buffer_flush(state->stderr_buffer, (state->verbosity != VERBOSITY_SILENT) ? state->logger_stream : NULL);
+			if (read != 1) {
 
-				}
+				close_stream(err);
+				err = -1;
 
-				if (err == -1) state->flush_condition.notify();
+				state->flush_condition.notify();
 
 			}
 
@@ -708,6 +717,27 @@ flush_condition.wait(1000);
 
 	}
 
+	// Has to be called with the stderr mutex locked
+	static void error_logger(const char *string, int length, State* state) {
+
+		ostream* out = (state->verbosity != VERBOSITY_SILENT) ? state->logger_stream : NULL;
+
+		for (int i = 0; i < ((string) ? length : 1); i++) {
+
+			if (!string || line_buffer_push(state->stderr_buffer, string[i], state->line_truncate)) {
+
+				MUTEX_SYNCHRONIZE(state->logger_mutex) {
+
+					line_buffer_flush(state->stderr_buffer, out);
+
+				}
+
+			}
+
+		}
+
+	}
+
 	static void client_logger(const char *string, int length, void* obj) {
 
 		State* state  = (State*) obj;
@@ -774,6 +804,7 @@ flush_condition.wait(1000);
 	ostream* logger_stream;
 
 	Mutex logger_mutex;
+	Mutex stderr_mutex;
 	Mutex watchdog_mutex;
 
 	Mutex process_state_mutex;
-- 
2.43.0


From e3068545bdf356c1e2ec72a19ab1f0113eb5020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:46 +0000
Subject: [PATCH 68/87] fix: the last error output of a process was lost when
 it ended

---
 support/client/process.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/support/client/process.cpp b/support/client/process.cpp
index 9b220c8..85d402e 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -146,7 +146,7 @@ char** parse_command(const char* command) {
 }
 
 
-Process::Process(string command, bool explicit_mode) : running(false), explicit_mode(explicit_mode) {
+Process::Process(string command, bool explicit_mode) : running(false), explicit_mode(explicit_mode), p_stderr(-1) {
 
 #ifdef WIN32
     piProcInfo.hProcess = 0;
@@ -565,7 +565,8 @@ int Process::get_error() {
         return -1;
 #endif
 
-        if (running) return p_stderr;
+        // What a process has written can be read after it has ended as well
+        return p_stderr;
 
     }
 
-- 
2.43.0


From 534d9f440198b22141b27d60827e78a12d57f29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:13 +0000
Subject: [PATCH 69/87] fix: use the format codes of the library for encoded
 images in Python

---
 support/python/trax/image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/support/python/trax/image.py b/support/python/trax/image.py
index 375c46b..cfa7979 100644
--- a/support/python/trax/image.py
+++ b/support/python/trax/image.py
@@ -314,8 +314,8 @@ class MemoryImage(Image):
             raise TraxException("NumPy is not installed")
 
 
-IMAGE_BUFFER_JPEG = 1
-IMAGE_BUFFER_PNG = 2
+IMAGE_BUFFER_PNG = 1
+IMAGE_BUFFER_JPEG = 2
 
 _image_buffer_map_string = {IMAGE_BUFFER_JPEG : "jpeg", IMAGE_BUFFER_PNG: "png"}
 
-- 
2.43.0


From 83258cce99c20c5c2b38b193ade474b5a5938300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:13 +0000
Subject: [PATCH 70/87] fix: copy masks from array views (transposed, strided)
 correctly in Python

---
 support/python/trax/region.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/support/python/trax/region.py b/support/python/trax/region.py
index 230dc2a..ae77783 100644
--- a/support/python/trax/region.py
+++ b/support/python/trax/region.py
@@ -344,6 +344,8 @@ class Mask(Region):
         """
         assert(len(source.shape) == 2 and source.dtype == np.uint8)
 
+        source = np.ascontiguousarray(source)
+
         mask = cast(trax_region_create_mask(x, y, source.shape[1], source.shape[0]), c_void_p)
 
         data = trax_region_write_mask_row(mask, 0)
-- 
2.43.0


From 881c4c80f429aa696168f573666ba7ff3c19b567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:13 +0000
Subject: [PATCH 71/87] fix: reading a property with brackets always failed in
 Python

---
 support/python/trax/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/python/trax/__init__.py b/support/python/trax/__init__.py
index 20beec5..a7040c2 100644
--- a/support/python/trax/__init__.py
+++ b/support/python/trax/__init__.py
@@ -423,7 +423,7 @@ class Properties(object):
         Args:
             key (str): property key
         """
-        return trax_properties_get(self._ref.reference, key)
+        return self.get(key)
 
     def __setitem__(self, key: str, value: str):
         """ Set a property value.
-- 
2.43.0


From 59e939503a63490daf4aaf4ed263d4de955d1eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:13 +0000
Subject: [PATCH 72/87] fix: a Python client without a log could not be created

---
 support/python/trax/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/python/trax/client.py b/support/python/trax/client.py
index 6251107..16731ed 100644
--- a/support/python/trax/client.py
+++ b/support/python/trax/client.py
@@ -45,7 +45,7 @@ class Client(object):
         else:
             self._logger = None
 
-        self._clogger = trax_logger(self._logger) if not self._logger is None else None
+        self._clogger = trax_logger(self._logger) if not self._logger is None else trax_logger()
 
         logger = trax_logger_setup(self._clogger, 0, 0)
 
-- 
2.43.0


From 8eda220fcb80cf8d4d8607ed601121f4b539fda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:13 +0000
Subject: [PATCH 73/87] fix: report a failed introduction of a Python client
 and release its handle

---
 support/python/trax/client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/support/python/trax/client.py b/support/python/trax/client.py
index 16731ed..bf1140c 100644
--- a/support/python/trax/client.py
+++ b/support/python/trax/client.py
@@ -74,13 +74,13 @@ class Client(object):
         if not handle:
             raise TraxException("Unable to connect to tracker")
 
+        self._handle = HandleWrapper(handle)
+
         if trax_is_alive(handle) == 0:
-            message = trax_get_error(handle.reference)
+            message = trax_get_error(handle)
             message = message.decode('utf-8') if not message is None else "Unknown"
             raise TraxException("Exception when connecting to tracker: {}".format(message))
 
-        self._handle = HandleWrapper(handle)
-
         metadata = self._handle.reference.contents.metadata
 
         self._format_region = Region.decode_list(metadata.contents.format_region)
-- 
2.43.0


From 5824461f519633b03f5c8bbbec7ef76f76a86d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:13 +0000
Subject: [PATCH 74/87] fix: report a failed introduction of a Python server
 and release its handle

---
 support/python/trax/server.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/support/python/trax/server.py b/support/python/trax/server.py
index b969e5d..1bd93a4 100644
--- a/support/python/trax/server.py
+++ b/support/python/trax/server.py
@@ -78,13 +78,13 @@ class Server(object):
         if not handle:
             raise TraxException("Exception when setting up.")
 
+        self._handle = HandleWrapper(handle)
+
         if trax_is_alive(handle) == 0:
-            message = trax_get_error(handle.reference)
+            message = trax_get_error(handle)
             message = message.decode('utf-8') if not message is None else "Unknown"
             raise TraxException("Exception when setting up: {}".format(message))
 
-        self._handle = HandleWrapper(handle)
-
     def wait(self):
         """ Wait for client message request. Recognize it and parse them when received .
 
-- 
2.43.0


From 4483b0e311e9504e055a37892897014482466d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:13 +0000
Subject: [PATCH 75/87] fix: a frame without new objects could not be sent in
 Python

---
 support/python/trax/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/python/trax/client.py b/support/python/trax/client.py
index bf1140c..25acc95 100644
--- a/support/python/trax/client.py
+++ b/support/python/trax/client.py
@@ -233,7 +233,7 @@ class Client(object):
         """
 
         timage = wrap_images(images)
-        tobjects = wrap_objects(objects)
+        tobjects = wrap_objects(objects if not objects is None else [])
         tproperties = Properties(properties)
 
         status = TraxStatus.decode(trax_client_frame(self._handle.reference, timage.reference, tobjects.reference, tproperties.reference))
-- 
2.43.0


From 14244002d289edad8e6c84152a83b69b7b267e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:13 +0000
Subject: [PATCH 76/87] fix: correct the exported names of the Python server
 module

---
 support/python/trax/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/python/trax/server.py b/support/python/trax/server.py
index 1bd93a4..2fe0c8f 100644
--- a/support/python/trax/server.py
+++ b/support/python/trax/server.py
@@ -8,7 +8,7 @@ import collections
 from ctypes import byref, cast, py_object
 
 __all__ = \
-    ['Server', 'Rquest']
+    ['Server', 'Request']
 
 from .image import ImageChannel, Image
 from .region import Region
-- 
2.43.0


From 988f756d648db7f71e7facf49eefafc81bb2ae91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:13 +0000
Subject: [PATCH 77/87] fix: the optional properties of a Python server's
 status were lost

---
 support/python/trax/server.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/support/python/trax/server.py b/support/python/trax/server.py
index 2fe0c8f..cf1b7e2 100644
--- a/support/python/trax/server.py
+++ b/support/python/trax/server.py
@@ -20,7 +20,8 @@ from ._ctypes import \
         trax_server_wait, trax_server_reply, \
         trax_image_list_release,  \
         trax_logger, trax_terminate, \
-        trax_is_alive, trax_get_error, trax_object_list_release
+        trax_is_alive, trax_get_error, trax_object_list_release, \
+        trax_object_list_properties, trax_properties_append
 
 
 class Request(collections.namedtuple('Request', ['type', 'image', 'objects', 'properties'])):
@@ -136,7 +137,9 @@ class Server(object):
         assert(isinstance(objects, list))
         tproperties = Properties(properties)
         tobjects = wrap_objects(objects)
-        status = TraxStatus.decode(trax_server_reply(self._handle.reference, tobjects.reference, tproperties.reference))
+        for i in range(len(objects)):
+            trax_properties_append(tproperties.reference, trax_object_list_properties(tobjects.reference, i), 0)
+        status = TraxStatus.decode(trax_server_reply(self._handle.reference, tobjects.reference))
 
         if status == TraxStatus.ERROR:
             message = trax_get_error(self._handle.reference)
-- 
2.43.0


From 10b98b4ae8c8db79896cef699d474b38d98e711c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:08 +0000
Subject: [PATCH 78/87] fix: a tracker whose socket cannot be set up tried to
 connect with a closed socket forever

---
 src/message.c | 1 +
 src/trax.c    | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/message.c b/src/message.c
index 807a105..37e8e84 100644
--- a/src/message.c
+++ b/src/message.c
@@ -148,6 +148,7 @@ message_stream* create_message_stream_socket_connect(int port) {
 						 (const char *)&one, sizeof(int)) == -1) {
         perror("nodelay");
         closesocket(sid);
+        return NULL;
     }
 
 	while (1) {
diff --git a/src/trax.c b/src/trax.c
index c587019..4127f59 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1100,6 +1100,8 @@ trax_handle* trax_server_setup_v(trax_metadata *metadata, const trax_logging log
 
         stream = create_message_stream_socket_connect(atoi(env_socket));
 
+        if (!stream) return NULL;
+
     } else {
 
         int fin = fileno(stdin);
-- 
2.43.0


From 603e6b8792e478bc326f9fa969417222821d4c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:08 +0000
Subject: [PATCH 79/87] fix: accepting a connection waited without a limit or
 left it open when a system call failed

---
 src/message.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/message.c b/src/message.c
index 37e8e84..05e9802 100644
--- a/src/message.c
+++ b/src/message.c
@@ -204,9 +204,8 @@ message_stream* create_message_stream_socket_accept(int server, int timeout) {
 	FD_SET(server,&readfds);
 	FD_SET(server,&exceptfds);
 
-    select(server+1,&readfds,&writefds,&exceptfds,&tv);
-	
-	if(FD_ISSET(server,&readfds)) {
+    // The sets are only valid if select succeeds
+    if(select(server+1,&readfds,&writefds,&exceptfds,&tv) > 0 && FD_ISSET(server,&readfds)) {
 		struct sockaddr_in pin;
 		int addrlen = sizeof(struct sockaddr_in);
 #if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER) 
@@ -220,9 +219,15 @@ message_stream* create_message_stream_socket_accept(int server, int timeout) {
         return NULL;
     }
 
+    if (asock < 0) {
+        perror("accept");
+        return NULL;
+    }
+
 	if (setsockopt(asock, IPPROTO_TCP , TCP_NODELAY,
 						 (const char *)&one, sizeof(int)) == -1) {
         perror("nodelay");
+        closesocket(asock);
         return NULL;
     }
 
-- 
2.43.0


From ef0de4713c47e9cb5b4bdc8923c4454341bd1227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:08 +0000
Subject: [PATCH 80/87] fix: a listening socket that cannot be configured was
 left open

---
 support/client/client.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 6e19968..4132075 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -99,6 +99,7 @@ int create_server_socket(int port) {
 		const int enable = 1;
 		if (setsockopt(sid, SOL_SOCKET, SO_REUSEADDR, (const char*) &enable, sizeof(int)) < 0) {
 			perror("setsockopt");
+			closesocket(sid);
 			return -1;
 		}
 	}
@@ -108,6 +109,7 @@ int create_server_socket(int port) {
 		const int enable = 1;
 		if (setsockopt(sid, SOL_SOCKET, SO_NOSIGPIPE, (const char*) &enable, sizeof(int)) < 0) {
 			perror("setsockopt");
+			closesocket(sid);
 			return -1;
 		}
 	}
-- 
2.43.0


From 5b1d59ba25d04f67f628c7e57d4dd0122cf47b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:08 +0000
Subject: [PATCH 81/87] fix: the tracker was told a wrong port when the last
 one of the range was used

---
 support/client/client.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 4132075..fd2bda6 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -266,7 +266,8 @@ public:
 			// Try to create a listening socket by looking for a free port number.
 			int attempts = 10;
 			while (attempts--) {
-				socket_id = create_server_socket(next_available_socket_port++);
+				socket_port = next_available_socket_port++;
+				socket_id = create_server_socket(socket_port);
 				if (next_available_socket_port > 65535)
 					next_available_socket_port = TRAX_DEFAULT_PORT;
 
@@ -275,8 +276,6 @@ public:
 			if (socket_id < 0)
 				throw std::runtime_error("Unable to configure TCP server socket.");
 
-			socket_port = next_available_socket_port-1;
-
 			print_debug("Socket opened successfully on port %d.", socket_port);
 
 		}
-- 
2.43.0


From e6d1b3f1c4d67b9ae26aefdb995f3c64bf56ef00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:08 +0000
Subject: [PATCH 82/87] fix: a connection that came too late was taken for the
 one of the next tracker process

---
 support/client/client.cpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index fd2bda6..8ca1f38 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -137,6 +137,31 @@ int create_server_socket(int port) {
 
 }
 
+// Drops the connections that wait to be accepted
+void refuse_connections(int server) {
+
+	while (true) {
+
+		fd_set readfds;
+		struct timeval tv;
+		tv.tv_sec = 0;
+		tv.tv_usec = 0;
+
+		FD_ZERO(&readfds);
+		FD_SET(server, &readfds);
+
+		if (select(server + 1, &readfds, NULL, NULL, &tv) < 1) return;
+
+		int sid = (int) accept(server, NULL, NULL);
+
+		if (sid < 0) return;
+
+		closesocket(sid);
+
+	}
+
+}
+
 void destroy_server_socket(int server) {
 
 	if (server < 0) return;
@@ -347,6 +372,10 @@ public:
 			print_debug("Deleted stale process");
 		}
 
+		// A process before may have connected when nobody waited for it any more
+		if (connection == CONNECTION_SOCKETS)
+			refuse_connections(socket_id);
+
 		print_debug("Creating process %s", command.c_str());
 
 		process = new Process(command, connection == CONNECTION_EXPLICIT);
-- 
2.43.0


From 442f844212f9b795e67ac036f1154740b55592ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:17 +0000
Subject: [PATCH 83/87] fix: the client left out the last image if its line
 lacks a newline

---
 support/client/cli.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index d47e39c..63b22d3 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -311,8 +311,8 @@ void read_images(const string& file, vector<vector<string> >& list) {
     while (true) {
         string line;
         vector<string> images;
-        getline(input, line);
-        if (!input.good()) break;
+        // The last line may lack a newline.
+        if (!getline(input, line)) break;
 
         size_t pos = 0;
         std::string token;
-- 
2.43.0


From 31da5ac74f753973e1c2becab36bf2feedd99cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:17 +0000
Subject: [PATCH 84/87] fix: the client wrote no time for frames it skips,
 which shifted all later ones

---
 support/client/cli.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index 63b22d3..3855779 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -627,6 +627,7 @@ int main( int argc, char** argv) {
                     if (!initialization[frame].empty()) break;
                     print_debug("Skipping frame %d, no initialization data. \n", (int) frame);
                     output.push_back(Region::create_special(0));
+                    timings.push_back(0);
                 }
 
                 if (frame == images.size()) break;
-- 
2.43.0


From d8085d594aa8182038979043a154c1b56f2531ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:17 +0000
Subject: [PATCH 85/87] fix: the client read past the end of an initialization
 file that is shorter than the sequence

---
 support/client/cli.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index 3855779..ad1b6f8 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -608,6 +608,8 @@ int main( int argc, char** argv) {
             if (!initialization_file.empty()) {
                 load_trajectory(initialization_file, initialization);
                 print_debug("Initialization loaded from file %s.\n", initialization_file.c_str());
+                // There is one for every image, an empty one if the file ends before.
+                initialization.resize(images.size());
             } else {
                 initialization = vector<Region>(groundtruth.begin(), groundtruth.end());
             }
-- 
2.43.0


From f4c331583c851a5ed2bec785f9bea9a78b4af995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:18 +0000
Subject: [PATCH 86/87] fix: the client mixed up the image formats and the
 channels of a tracker

---
 support/client/cli.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index ad1b6f8..ba2908f 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -643,7 +643,7 @@ int main( int argc, char** argv) {
                 Metadata metadata = tracker.metadata();
 
                 Region initialize = initialization[frame];
-                ImageList image = load_images(images[frame], metadata.image_formats(), metadata.channels());
+                ImageList image = load_images(images[frame], metadata.channels(), metadata.image_formats());
 
                 // Start timing a frame
                 double timing_elapsed;
@@ -713,7 +713,7 @@ int main( int argc, char** argv) {
                     if (frame >= images.size()) break;
 
                     print_debug("Loading frame images.\n");
-                    ImageList image = load_images(images[frame], metadata.image_formats(), metadata.channels());
+                    ImageList image = load_images(images[frame], metadata.channels(), metadata.image_formats());
 
                     // Start timing a frame
                     timing_start = timer_clock();
-- 
2.43.0


From 1aa69d96c2e114b2feb70ce5a9ca6678419e3c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:39 +0000
Subject: [PATCH 87/87] fix: the client died of an uncaught exception if an
 image file is missing

---
 support/client/cli.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index ba2908f..b424c67 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -376,6 +376,8 @@ Image load_image(string& path, int formats) {
     case TRAX_IMAGE_BUFFER: {
         // Read the file to memory
         std::ifstream t(path.c_str());
+        if (!t.is_open())
+            throw std::runtime_error("Image file not available.");
         t.seekg(0, std::ios::end);
         size_t size = t.tellg();
         std::string buffer(size, ' ');
-- 
2.43.0

