From 10967085b6fe74b2f9324ec5666d4aa98383d19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 01/20] fix: report a process parameter value without tag as
 parse error

sml_proc_par_value_parse() returned NULL without setting the error flag, so
the caller went on in the middle of the element.
---
 sml/src/sml_tree.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_tree.c b/sml/src/sml_tree.c
index e54561e..a1e3a40 100644
--- a/sml/src/sml_tree.c
+++ b/sml/src/sml_tree.c
@@ -231,8 +231,10 @@ sml_proc_par_value *sml_proc_par_value_parse(sml_buffer *buf) {
 	}
 
 	ppv->tag = sml_u8_parse(buf);
-	if (sml_buf_has_errors(buf) || !(ppv->tag))
+	if (sml_buf_has_errors(buf) || !(ppv->tag)) {
+		buf->error = 1;
 		goto error;
+	}
 
 	switch (*(ppv->tag)) {
 	case SML_PROC_PAR_VALUE_TAG_VALUE:
-- 
2.43.0


From 31b0914b036081963633865c87713567be816d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 02/20] fix: report a message body without tag as parse error

A message whose body tag was skipped was accepted with message_body == NULL;
sml_file_print() and the example server crash on it.
---
 sml/src/sml_message.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index de91085..4816419 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -166,8 +166,10 @@ sml_message_body *sml_message_body_parse(sml_buffer *buf) {
 	}
 
 	msg_body->tag = sml_u32_parse(buf);
-	if (sml_buf_has_errors(buf) || msg_body->tag == NULL)
+	if (sml_buf_has_errors(buf) || msg_body->tag == NULL) {
+		buf->error = 1;
 		goto error;
+	}
 
 	switch (*(msg_body->tag)) {
 	case SML_MESSAGE_OPEN_REQUEST:
-- 
2.43.0


From 87f5ae3ca6d8b55c7e32baf72473a527ccb91f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 03/20] fix: report an unknown message type as parse error

The body was accepted although its data had not been consumed, so parsing
went on inside of it.
---
 sml/src/sml_message.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index 4816419..25f8b22 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -215,7 +215,9 @@ sml_message_body *sml_message_body_parse(sml_buffer *buf) {
 		msg_body->data = sml_attention_response_parse(buf);
 		break;
 	default:
+		// the data cannot be skipped without knowing its structure
 		fprintf(stderr, "libsml: error: message type %04X not yet implemented\n", *(msg_body->tag));
+		buf->error = 1;
 		break;
 	}
 
-- 
2.43.0


From e6020978aac72741cfffae578f02d6a212698c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 04/20] fix: report a malformed time as parse error

A time value of unexpected type was rejected without setting the error flag,
and a time given as list was accepted whatever its number of elements.
---
 sml/src/sml_time.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_time.c b/sml/src/sml_time.c
index 6e7beba..dd9af56 100644
--- a/sml/src/sml_time.c
+++ b/sml/src/sml_time.c
@@ -70,7 +70,10 @@ sml_time *sml_time_parse(sml_buffer *buf) {
 		// Some meters (e.g. FROETEC Multiflex ZG22) giving not one uint32
 		// as timestamp, but a list of 3 values.
 		// Ignoring these values, so that parsing does not fail.
-		sml_buf_get_next_length(buf); // should we check the length here?
+		if (sml_buf_get_next_length(buf) != 3) {
+			buf->error = 1;
+			goto error;
+		}
 		u32 *t1 = sml_u32_parse(buf);
 		if (sml_buf_has_errors(buf)) {
 			if (t1)
@@ -107,6 +110,7 @@ sml_time *sml_time_parse(sml_buffer *buf) {
 			sml_number_free(t3);
 		break;
 	default:
+		buf->error = 1;
 		goto error;
 	}
 
-- 
2.43.0


From 2c823710b58e24ce8ba1d4557effcda179b6c472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 05/20] fix: reject integers of more than 8 bytes in values and
 status words

The size 16 does not fit the length nibble of the type: the value got the
type of something else.
---
 sml/src/sml_status.c | 4 ++++
 sml/src/sml_value.c  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/sml/src/sml_status.c b/sml/src/sml_status.c
index 11939da..0af242d 100644
--- a/sml/src/sml_status.c
+++ b/sml/src/sml_status.c
@@ -42,6 +42,10 @@ sml_status *sml_status_parse(sml_buffer *buf) {
 		while (max < ((byte & SML_LENGTH_FIELD) - 1)) {
 			max <<= 1;
 		}
+		if (max > (int)SML_TYPE_NUMBER_64) {
+			buf->error = 1;
+			break;
+		}
 
 		status->data.status8 = sml_number_parse(buf, type, max);
 		status->type |= max;
diff --git a/sml/src/sml_value.c b/sml/src/sml_value.c
index fab9d0e..b57921e 100644
--- a/sml/src/sml_value.c
+++ b/sml/src/sml_value.c
@@ -45,6 +45,10 @@ sml_value *sml_value_parse(sml_buffer *buf) {
 		while (max < ((byte & SML_LENGTH_FIELD) - 1)) {
 			max <<= 1;
 		}
+		if (max > (int)SML_TYPE_NUMBER_64) {
+			buf->error = 1;
+			break;
+		}
 
 		value->data.uint8 = sml_number_parse(buf, type, max);
 		value->type |= max;
-- 
2.43.0


From 30303a48ae2b5ee0499d2f84916810558d925b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 06/20] fix: apply the DZG workaround to integers only

An octet string or boolean in place of the power value was turned into an
integer of wrong type, which leaks or is freed as something else.
---
 sml/src/sml_list.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sml/src/sml_list.c b/sml/src/sml_list.c
index 3662d38..7400f7a 100644
--- a/sml/src/sml_list.c
+++ b/sml/src/sml_list.c
@@ -251,6 +251,7 @@ sml_list *sml_list_entry_parse(sml_buffer *buf, struct workarounds *workarounds)
 	} else if (workarounds->old_dzg_dvs74 && l->obj_name &&
 			   l->obj_name->len == sizeof(dzg_power_name) &&
 			   memcmp(l->obj_name->str, dzg_power_name, sizeof(dzg_power_name)) == 0 && l->value &&
+			   (l->value->type & SML_TYPE_FIELD) == SML_TYPE_INTEGER &&
 			   (value_len_more == 1 || value_len_more == 2 || value_len_more == 3)) {
 		l->value->type &= ~SML_TYPE_FIELD;
 		l->value->type |= SML_TYPE_UNSIGNED;
-- 
2.43.0


From 9bcaea5375dd77c28952f4b13c850dd21f6ea82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 07/20] fix: write an empty tree path as empty list

Nothing was written at all, which breaks the enclosing list.
---
 sml/src/sml_tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sml/src/sml_tree.c b/sml/src/sml_tree.c
index a1e3a40..4dba650 100644
--- a/sml/src/sml_tree.c
+++ b/sml/src/sml_tree.c
@@ -73,9 +73,9 @@ void sml_tree_path_write(sml_tree_path *tree_path, sml_buffer *buf) {
 		return;
 	}
 
-	if (tree_path->path_entries && tree_path->path_entries_len > 0) {
-		sml_buf_set_type_and_length(buf, SML_TYPE_LIST, tree_path->path_entries_len);
+	sml_buf_set_type_and_length(buf, SML_TYPE_LIST, tree_path->path_entries_len);
 
+	if (tree_path->path_entries && tree_path->path_entries_len > 0) {
 		int i;
 		for (i = 0; i < tree_path->path_entries_len; i++) {
 			sml_octet_string_write(tree_path->path_entries[i], buf);
-- 
2.43.0


From 937324089aa60666cc181b9af2bf7a80cfced45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 08/20] fix: write the last entry of an object list

The header announced one element more than was written.
---
 sml/src/sml_get_profile_pack_request.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sml/src/sml_get_profile_pack_request.c b/sml/src/sml_get_profile_pack_request.c
index 6729b08..5020037 100644
--- a/sml/src/sml_get_profile_pack_request.c
+++ b/sml/src/sml_get_profile_pack_request.c
@@ -56,7 +56,7 @@ void sml_get_profile_pack_request_write(sml_get_profile_pack_request *msg, sml_b
 			len++;
 		}
 		sml_buf_set_type_and_length(buf, SML_TYPE_LIST, len);
-		for (l = msg->object_list; l->next; l = l->next) {
+		for (l = msg->object_list; l; l = l->next) {
 			sml_obj_req_entry_write(l->object_list_entry, buf);
 		}
 	} else {
-- 
2.43.0


From 1421700b3afc84bc5302a7edafd851c1778a27de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 09/20] fix: do not leak the previous checksum when writing a
 message

---
 sml/src/sml_message.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index 25f8b22..9c9f669 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -135,6 +135,7 @@ void sml_message_write(sml_message *msg, sml_buffer *buf) {
 	sml_u8_write(msg->abort_on_error, buf);
 	sml_message_body_write(msg->message_body, buf);
 
+	sml_number_free(msg->crc);
 	msg->crc =
 		sml_u16_init(sml_crc16_calculate(&(buf->buffer[msg_start]), buf->cursor - msg_start));
 	sml_u16_write(msg->crc, buf);
-- 
2.43.0


From 1bb5c8c81f1026c539802eca113ddaadad96e84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 10/20] fix: reject lengths that do not fit an int

The length overflowed silently and wrapped to an arbitrary value.
---
 sml/src/sml_shared.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sml/src/sml_shared.c b/sml/src/sml_shared.c
index d7cad9d..c766cb0 100644
--- a/sml/src/sml_shared.c
+++ b/sml/src/sml_shared.c
@@ -17,6 +17,7 @@
 // along with libSML.  If not, see <http://www.gnu.org/licenses/>.
 
 #include <sml/sml_shared.h>
+#include <limits.h>
 #include <stdio.h>
 #include <string.h>
 
@@ -33,6 +34,10 @@ int sml_buf_get_next_length(sml_buffer *buf) {
 
 	for (; buf->cursor < buf->buffer_len;) {
 		byte = sml_buf_get_current_byte(buf);
+		if (length > (INT_MAX >> 4)) { // does not fit
+			buf->error = 1;
+			return -1;
+		}
 		length <<= 4;
 		length |= (byte & SML_LENGTH_FIELD);
 
-- 
2.43.0


From 04dc50125e494f1f25dc2e0c05a0b1c8c6a54a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 11/20] fix: do not take the sign of an empty integer from the
 next element

---
 sml/src/sml_number.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sml/src/sml_number.c b/sml/src/sml_number.c
index 706a4c6..dd6c383 100644
--- a/sml/src/sml_number.c
+++ b/sml/src/sml_number.c
@@ -107,7 +107,7 @@ void *sml_number_parse(sml_buffer *buf, unsigned char type, int max_size) {
 	}
 
 	b = sml_buf_get_current_byte(buf);
-	if (type == SML_TYPE_INTEGER && (b & 128)) {
+	if (type == SML_TYPE_INTEGER && l > 0 && (b & 128)) {
 		negative_int = 1;
 	}
 
-- 
2.43.0


From 154927b80bbb03e6950760451634534a9741ed16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 12/20] fix: do not crash on comparing with a hex string of odd
 length

---
 sml/src/sml_octet_string.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sml/src/sml_octet_string.c b/sml/src/sml_octet_string.c
index f7db408..e9df992 100644
--- a/sml/src/sml_octet_string.c
+++ b/sml/src/sml_octet_string.c
@@ -131,6 +131,9 @@ int sml_octet_string_cmp(octet_string *s1, octet_string *s2) {
 
 int sml_octet_string_cmp_with_hex(octet_string *str, char *hex) {
 	octet_string *hstr = sml_octet_string_init_from_hex(hex);
+	if (hstr == NULL) {
+		return -1;
+	}
 	if (str->len != hstr->len) {
 		sml_octet_string_free(hstr);
 		return -1;
-- 
2.43.0


From f7527ed8d1474f72595596dd9c30cf1723f7d79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 13/20] fix: do not overflow the message count of a file

At 32768 messages the count became negative and the storage was written out
of bounds. The structure has padding there, so its layout is unchanged.
---
 sml/include/sml/sml_file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sml/include/sml/sml_file.h b/sml/include/sml/sml_file.h
index d864d40..b6cd76f 100644
--- a/sml/include/sml/sml_file.h
+++ b/sml/include/sml/sml_file.h
@@ -30,7 +30,7 @@ extern "C" {
 // a SML file consist of multiple SML messages
 typedef struct {
 	sml_message **messages;
-	short messages_len;
+	int messages_len;
 	sml_buffer *buf;
 } sml_file;
 
-- 
2.43.0


From 6d5eaa6d4fd7760d66f152b83e019103817d5843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:24 +0000
Subject: [PATCH 14/20] fix: encode multi-byte type-length fields correctly

Lists of 16 or more elements were announced with the bytes of the header
counted as elements, lengths that need one more header byte only because of
the header itself (e.g. 254) lost their most significant digit, and the
second and following bytes were mixed with what was in the buffer before.
---
 sml/src/sml_shared.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/sml/src/sml_shared.c b/sml/src/sml_shared.c
index c766cb0..de11db3 100644
--- a/sml/src/sml_shared.c
+++ b/sml/src/sml_shared.c
@@ -73,7 +73,7 @@ void sml_buf_set_type_and_length(sml_buffer *buf, unsigned int type, unsigned in
 		int mask_pos = (sizeof(unsigned int) * 2) - 1;
 
 		// the 4 most significant bits of l (1111 0000 0000 ...)
-		unsigned int mask = 0xF0 << (8 * (sizeof(unsigned int) - 1));
+		unsigned int mask = 0xF0U << (8 * (sizeof(unsigned int) - 1));
 
 		// select the next 4 most significant bits with a bit set until there
 		// is something
@@ -82,13 +82,16 @@ void sml_buf_set_type_and_length(sml_buffer *buf, unsigned int type, unsigned in
 			mask_pos--;
 		}
 
-		l += mask_pos; // for every TL-field
+		if (type != SML_TYPE_LIST) {
+			l += mask_pos; // for every TL-field
 
-		if ((0x0F << (4 * (mask_pos + 1))) & l) {
-			// for the rare case that the addition of the number of TL-fields
-			// result in another TL-field.
-			mask_pos++;
-			l++;
+			if (mask_pos < 7 && ((0x0FU << (4 * (mask_pos + 1))) & l)) {
+				// for the rare case that the addition of the number of TL-fields
+				// result in another TL-field.
+				mask <<= 4;
+				mask_pos++;
+				l++;
+			}
 		}
 
 		// copy 4 bits of the number to the buffer
@@ -98,6 +101,7 @@ void sml_buf_set_type_and_length(sml_buffer *buf, unsigned int type, unsigned in
 			mask >>= 4;
 			mask_pos--;
 			buf->cursor++;
+			buf->buffer[buf->cursor] = 0;
 		}
 	}
 
-- 
2.43.0


From 0e225eefec2d97540d9f74a865c26457b404b277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:24 +0000
Subject: [PATCH 15/20] fix: find a start sequence that follows further escape
 bytes

After e.g. five escape bytes the search started over and missed the frame.
---
 sml/src/sml_transport.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index 17f868c..5766e6a 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -79,6 +79,9 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 
 		if ((buf[len] == 0x1b && len < 4) || (buf[len] == 0x01 && len >= 4)) {
 			len++;
+		} else if (buf[len] == 0x1b) {
+			// may still be (part of) the escape sequence of a start sequence
+			len = (len == 4) ? 4 : 1;
 		} else {
 			len = 0;
 		}
-- 
2.43.0


From c04e3757cd1268dae782a6456f6ff9fda0dc2037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:24 +0000
Subject: [PATCH 16/20] fix: do not leak a descriptor for each generated
 transaction id

Without libuuid, /dev/urandom was never closed, and uninitialised bytes were
used once opening it failed.
---
 sml/src/sml_octet_string.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sml/src/sml_octet_string.c b/sml/src/sml_octet_string.c
index e9df992..0279b5d 100644
--- a/sml/src/sml_octet_string.c
+++ b/sml/src/sml_octet_string.c
@@ -108,14 +108,20 @@ octet_string *sml_octet_string_generate_uuid() {
 
 // TODO add support for WIN32 systems
 #ifdef __linux__
+	ssize_t n = -1;
 	int fd = open("/dev/urandom", O_RDONLY);
-	read(fd, uuid, 16);
-#else
-	int i;
-	for (i = 0; i < 16; i++) {
-		uuid[i] = rand() % 0xFF;
+	if (fd >= 0) {
+		n = read(fd, uuid, 16);
+		close(fd);
 	}
+	if (n != 16)
 #endif /* __linux__ */
+	{
+		int i;
+		for (i = 0; i < 16; i++) {
+			uuid[i] = rand() % 0xFF;
+		}
+	}
 	uuid[6] = (uuid[6] & 0x0F) | 0x40; // set version
 	uuid[8] = (uuid[8] & 0x3F) | 0x80; // set reserved bits
 #endif /* SML_NO_UUID_LIB */
-- 
2.43.0


From 52e17e90dee60a1f7a50a19923f88b0ea424356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:24 +0000
Subject: [PATCH 17/20] fix: limit the nesting depth of trees

A telegram of deeply nested trees exhausted the stack.
---
 sml/src/sml_tree.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sml/src/sml_tree.c b/sml/src/sml_tree.c
index 4dba650..64562e3 100644
--- a/sml/src/sml_tree.c
+++ b/sml/src/sml_tree.c
@@ -20,6 +20,8 @@
 #include <sml/sml_value.h>
 #include <stdio.h>
 
+#define SML_TREE_MAX_DEPTH 64
+
 // sml_tree_path;
 
 sml_tree_path *sml_tree_path_init() {
@@ -108,11 +110,16 @@ sml_tree *sml_tree_init() {
 	return tree;
 }
 
-sml_tree *sml_tree_parse(sml_buffer *buf) {
+static sml_tree *sml_tree_parse_depth(sml_buffer *buf, int depth) {
 	if (sml_buf_optional_is_skipped(buf)) {
 		return NULL;
 	}
 
+	if (depth >= SML_TREE_MAX_DEPTH) { // do not let the input exhaust the stack
+		buf->error = 1;
+		return NULL;
+	}
+
 	sml_tree *tree = sml_tree_init();
 
 	if (sml_buf_get_next_type(buf) != SML_TYPE_LIST) {
@@ -142,7 +149,7 @@ sml_tree *sml_tree_parse(sml_buffer *buf) {
 		sml_tree *c;
 		int elems;
 		for (elems = sml_buf_get_next_length(buf); elems > 0; elems--) {
-			c = sml_tree_parse(buf);
+			c = sml_tree_parse_depth(buf, depth + 1);
 			if (sml_buf_has_errors(buf)) {
 				if (c)
 					sml_tree_free(c);
@@ -161,6 +168,8 @@ error:
 	return NULL;
 }
 
+sml_tree *sml_tree_parse(sml_buffer *buf) { return sml_tree_parse_depth(buf, 0); }
+
 void sml_tree_add_tree(sml_tree *base_tree, sml_tree *tree) {
 	base_tree->child_list_len++;
 	base_tree->child_list =
-- 
2.43.0


From e0f9cc7a3c9326122dd1084564eef8f1f826de3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:24 +0000
Subject: [PATCH 18/20] fix: enlarge the output buffer instead of writing
 beyond it

Files of more than 512 bytes (or larger than what they were parsed from) were
written out of bounds.
---
 sml/include/sml/sml_shared.h |  5 +++++
 sml/src/sml_boolean.c        |  3 +++
 sml/src/sml_message.c        |  3 +++
 sml/src/sml_number.c         |  3 +++
 sml/src/sml_octet_string.c   |  3 +++
 sml/src/sml_shared.c         | 25 +++++++++++++++++++++++++
 sml/src/sml_transport.c      |  6 ++++++
 7 files changed, 48 insertions(+)

diff --git a/sml/include/sml/sml_shared.h b/sml/include/sml/sml_shared.h
index 86dec36..15abead 100644
--- a/sml/include/sml/sml_shared.h
+++ b/sml/include/sml/sml_shared.h
@@ -65,6 +65,7 @@ typedef int64_t i64;
 // Writing: At the beginning the buffer field is malloced and zeroed with
 //          a default length, this default length is stored in buffer_len
 //          (i.e. the maximum bytes one can write to this buffer)
+//          The write functions enlarge it if necessary.
 //          cursor points to the position, where on can write during the
 //          writing process. If a file is completely written to the buffer,
 //          cursor is the number of bytes written to the buffer.
@@ -84,6 +85,10 @@ void sml_buffer_free(sml_buffer *buf);
 // the value field.
 int sml_buf_get_next_length(sml_buffer *buf);
 
+// Makes sure that a number of bytes can be written at the cursor position, enlarges the
+// buffer if necessary. Returns 0 (and sets the error flag) if there is no memory.
+int sml_buf_reserve(sml_buffer *buf, size_t bytes);
+
 void sml_buf_set_type_and_length(sml_buffer *buf, unsigned int type, unsigned int l);
 
 // Checks if a error is occured.
diff --git a/sml/src/sml_boolean.c b/sml/src/sml_boolean.c
index b1a8548..f247f07 100644
--- a/sml/src/sml_boolean.c
+++ b/sml/src/sml_boolean.c
@@ -62,6 +62,9 @@ void sml_boolean_write(sml_boolean *boolean, sml_buffer *buf) {
 	}
 
 	sml_buf_set_type_and_length(buf, SML_TYPE_BOOLEAN, 1);
+	if (!sml_buf_reserve(buf, 1)) {
+		return;
+	}
 	if (*boolean == SML_BOOLEAN_FALSE) {
 		buf->buffer[buf->cursor] = SML_BOOLEAN_FALSE;
 	} else {
diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index 9c9f669..49054f4 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -141,6 +141,9 @@ void sml_message_write(sml_message *msg, sml_buffer *buf) {
 	sml_u16_write(msg->crc, buf);
 
 	// end of message
+	if (!sml_buf_reserve(buf, 1)) {
+		return;
+	}
 	buf->buffer[buf->cursor] = 0x0;
 	buf->cursor++;
 }
diff --git a/sml/src/sml_number.c b/sml/src/sml_number.c
index dd6c383..d0107a7 100644
--- a/sml/src/sml_number.c
+++ b/sml/src/sml_number.c
@@ -135,6 +135,9 @@ void sml_number_write(void *np, unsigned char type, int size, sml_buffer *buf) {
 	}
 
 	sml_buf_set_type_and_length(buf, type, size);
+	if (!sml_buf_reserve(buf, size)) {
+		return;
+	}
 	memcpy(sml_buf_get_current_buf(buf), np, size);
 
 	if (!(sml_number_endian() == SML_BIG_ENDIAN)) {
diff --git a/sml/src/sml_octet_string.c b/sml/src/sml_octet_string.c
index 0279b5d..669840a 100644
--- a/sml/src/sml_octet_string.c
+++ b/sml/src/sml_octet_string.c
@@ -95,6 +95,9 @@ void sml_octet_string_write(octet_string *str, sml_buffer *buf) {
 	}
 
 	sml_buf_set_type_and_length(buf, SML_TYPE_OCTET_STRING, (unsigned int)str->len);
+	if (!sml_buf_reserve(buf, str->len)) {
+		return;
+	}
 	memcpy(sml_buf_get_current_buf(buf), str->str, str->len);
 	buf->cursor += str->len;
 }
diff --git a/sml/src/sml_shared.c b/sml/src/sml_shared.c
index de11db3..64d3cc0 100644
--- a/sml/src/sml_shared.c
+++ b/sml/src/sml_shared.c
@@ -59,7 +59,29 @@ int sml_buf_get_next_length(sml_buffer *buf) {
 	return length + list;
 }
 
+int sml_buf_reserve(sml_buffer *buf, size_t bytes) {
+	if (buf->cursor <= buf->buffer_len && bytes <= buf->buffer_len - buf->cursor) {
+		return 1;
+	}
+
+	size_t len = 2 * (buf->cursor + bytes);
+	unsigned char *p = (unsigned char *)realloc(buf->buffer, len);
+	if (p == NULL) {
+		buf->error = 1;
+		return 0;
+	}
+	memset(&(p[buf->buffer_len]), 0, len - buf->buffer_len);
+	buf->buffer = p;
+	buf->buffer_len = len;
+	return 1;
+}
+
 void sml_buf_set_type_and_length(sml_buffer *buf, unsigned int type, unsigned int l) {
+	// a TL-field has at most 2 * sizeof(l) bytes
+	if (!sml_buf_reserve(buf, 2 * sizeof(l))) {
+		return;
+	}
+
 	// set the type
 	buf->buffer[buf->cursor] = type;
 
@@ -137,6 +159,9 @@ sml_buffer *sml_buffer_init(size_t length) {
 }
 
 void sml_buf_optional_write(sml_buffer *buf) {
+	if (!sml_buf_reserve(buf, 1)) {
+		return;
+	}
 	buf->buffer[buf->cursor] = SML_OPTIONAL_SKIPPED;
 	buf->cursor++;
 }
diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index 5766e6a..16a7890 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -132,6 +132,9 @@ int sml_transport_write(int fd, sml_file *file) {
 	buf->cursor = 0;
 
 	// add start sequence
+	if (!sml_buf_reserve(buf, 8)) {
+		return 0;
+	}
 	memcpy(sml_buf_get_current_buf(buf), start_seq, 8);
 	buf->cursor += 8;
 
@@ -140,6 +143,9 @@ int sml_transport_write(int fd, sml_file *file) {
 
 	// add padding bytes
 	int padding = (buf->cursor % 4) ? (4 - buf->cursor % 4) : 0;
+	if (!sml_buf_reserve(buf, padding + 8)) {
+		return 0;
+	}
 	if (padding) {
 		// write zeroed bytes
 		memset(sml_buf_get_current_buf(buf), 0, padding);
-- 
2.43.0


From 695c3c932b8c44772ad2cf354a0ee8ce15def8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:20 +0000
Subject: [PATCH 19/20] fix: release the tag when a message body cannot be
 parsed

---
 sml/src/sml_message.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index 49054f4..9313788 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -228,6 +228,7 @@ sml_message_body *sml_message_body_parse(sml_buffer *buf) {
 	return msg_body;
 
 error:
+	sml_number_free(msg_body->tag);
 	free(msg_body);
 	return NULL;
 }
-- 
2.43.0


From 4cc20b22cf9eadfbe5f2779b500b87a9bd98d8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:20 +0000
Subject: [PATCH 20/20] fix: release a path entry parsed while an error is
 pending

---
 sml/src/sml_tree.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_tree.c b/sml/src/sml_tree.c
index 64562e3..63b6f20 100644
--- a/sml/src/sml_tree.c
+++ b/sml/src/sml_tree.c
@@ -46,8 +46,10 @@ sml_tree_path *sml_tree_path_parse(sml_buffer *buf) {
 	int elems;
 	for (elems = sml_buf_get_next_length(buf); elems > 0; elems--) {
 		s = sml_octet_string_parse(buf);
-		if (sml_buf_has_errors(buf))
+		if (sml_buf_has_errors(buf)) {
+			sml_octet_string_free(s);
 			goto error;
+		}
 		if (s) {
 			sml_tree_path_add_path_entry(tree_path, s);
 		}
-- 
2.43.0

