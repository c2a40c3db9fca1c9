From 8256ea109bc4b5c797be0a0ec3c0a9a97a56b840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:28 +0000
Subject: [PATCH 1/6] fix: reject varints longer than 10 bytes when decoding

The shift count was not bounded, so a malformed message could make the
decoder shift a 64-bit value by 64 or more (undefined behaviour) and then
accept whatever came out of it.
---
 src/pomp_decoder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pomp_decoder.c b/src/pomp_decoder.c
index e9039f0..b7326b8 100644
--- a/src/pomp_decoder.c
+++ b/src/pomp_decoder.c
@@ -163,6 +163,10 @@ static int decoder_read_varint(struct pomp_decoder *dec, uint8_t type,
 		res = pomp_buffer_readb(dec->msg->buf, &dec->pos, &b);
 		if (res < 0)
 			return res;
+		if (shift >= 64) {
+			POMP_LOGW("decoder : invalid varint (too long)");
+			return -EINVAL;
+		}
 		*v |= (((uint64_t)(b & 0x7f)) << shift);
 		shift += 7;
 	} while (b & 0x80);
-- 
2.43.0


From c190f9741983764c9a1bed19e3c74ccc526976d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:28 +0000
Subject: [PATCH 2/6] fix: reject string and buffer sizes that do not fit their
 type

The size was decoded on 64 bits and then silently truncated to 16 (string)
or 32 (buffer) bits, so a malformed argument was accepted with a wrong size
and the arguments after it were read from a wrong position.
---
 src/pomp_decoder.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pomp_decoder.c b/src/pomp_decoder.c
index b7326b8..de5160c 100644
--- a/src/pomp_decoder.c
+++ b/src/pomp_decoder.c
@@ -185,6 +185,10 @@ static int decoder_read_size_u16(struct pomp_decoder *dec, uint16_t *n)
 	int res = 0;
 	uint64_t d = 0;
 	res = decoder_read_varint(dec, 0, &d);
+	if (res == 0 && d > UINT16_MAX) {
+		POMP_LOGW("decoder : invalid size (too big)");
+		res = -EINVAL;
+	}
 	*n = (uint16_t)d;
 	return res;
 }
@@ -200,6 +204,10 @@ static int decoder_read_size_u32(struct pomp_decoder *dec, uint32_t *n)
 	int res = 0;
 	uint64_t d = 0;
 	res = decoder_read_varint(dec, 0, &d);
+	if (res == 0 && d > UINT32_MAX) {
+		POMP_LOGW("decoder : invalid size (too big)");
+		res = -EINVAL;
+	}
 	*n = (uint32_t)d;
 	return res;
 }
-- 
2.43.0


From d338a04ac698dfd21b909391bf291b9d6f767351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:35 +0000
Subject: [PATCH 3/6] fix: keep parsing after a message buffer could not be
 allocated

---
 src/pomp_prot.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pomp_prot.c b/src/pomp_prot.c
index 4e891ba..826467d 100644
--- a/src/pomp_prot.c
+++ b/src/pomp_prot.c
@@ -103,7 +103,13 @@ static int pomp_prot_alloc_msg(struct pomp_prot *prot, uint32_t msgid,
 	res = pomp_msg_init(prot->msg, msgid);
 	if (res < 0)
 		return res;
-	return pomp_buffer_ensure_capacity(prot->msg->buf, size);
+	res = pomp_buffer_ensure_capacity(prot->msg->buf, size);
+	if (res < 0) {
+		/* Message will be initialized again for next header */
+		(void)pomp_msg_clear(prot->msg);
+		return res;
+	}
+	return 0;
 }
 
 /**
-- 
2.43.0


From 7f973ae552527a141091a2974517727c0b379051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:05 +0000
Subject: [PATCH 4/6] fix: integer overflows in buffer position and capacity
 computations

---
 src/pomp_buffer.c | 16 ++++++++++++----
 src/pomp_buffer.h |  3 ++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/pomp_buffer.c b/src/pomp_buffer.c
index 028e537..b7f5e40 100644
--- a/src/pomp_buffer.c
+++ b/src/pomp_buffer.c
@@ -52,7 +52,8 @@ int pomp_buffer_get_fd(const struct pomp_buffer *buf, size_t off)
 {
 	int32_t v = 0;
 	POMP_RETURN_ERR_IF_FAILED(buf != NULL, -EINVAL);
-	POMP_RETURN_ERR_IF_FAILED(off + sizeof(v) <= buf->len, -EINVAL);
+	POMP_RETURN_ERR_IF_FAILED(off <= buf->len, -EINVAL);
+	POMP_RETURN_ERR_IF_FAILED(sizeof(v) <= buf->len - off, -EINVAL);
 
 	/* Read value, don't care about byte order, it can only be used with
 	 * local unix sockets */
@@ -76,7 +77,8 @@ int pomp_buffer_register_fd(struct pomp_buffer *buf, size_t off, int fd)
 	int32_t v = 0;
 	POMP_RETURN_ERR_IF_FAILED(buf != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(buf->refcount <= 1, -EPERM);
-	POMP_RETURN_ERR_IF_FAILED(off + sizeof(v) <= buf->len, -EINVAL);
+	POMP_RETURN_ERR_IF_FAILED(off <= buf->len, -EINVAL);
+	POMP_RETURN_ERR_IF_FAILED(sizeof(v) <= buf->len - off, -EINVAL);
 
 	/* Make sure there isn't too many fds already put in buffer */
 	if (buf->fdcount >= POMP_BUFFER_MAX_FD_COUNT) {
@@ -397,6 +399,9 @@ int pomp_buffer_ensure_capacity(struct pomp_buffer *buf, size_t capacity)
 
 	/* Resize internal data if needed */
 	if (capacity > buf->capacity) {
+		/* Make sure alignment will not overflow */
+		if (capacity > SIZE_MAX - POMP_BUFFER_ALLOC_STEP)
+			return -ENOMEM;
 		capacity = POMP_BUFFER_ALIGN_ALLOC_SIZE(capacity);
 		return pomp_buffer_set_capacity(buf, capacity);
 	}
@@ -415,6 +420,7 @@ int pomp_buffer_write(struct pomp_buffer *buf, size_t *pos,
 	POMP_RETURN_ERR_IF_FAILED(pos != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(p != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(buf->refcount <= 1, -EPERM);
+	POMP_RETURN_ERR_IF_FAILED(n <= SIZE_MAX - *pos, -EINVAL);
 
 	/* Make sure there is enough room in data buffer */
 	res = pomp_buffer_ensure_capacity(buf, *pos + n);
@@ -499,7 +505,8 @@ int pomp_buffer_read(const struct pomp_buffer *buf, size_t *pos,
 	POMP_RETURN_ERR_IF_FAILED(p != NULL, -EINVAL);
 
 	/* Make sure there is enough room in data buffer */
-	POMP_RETURN_ERR_IF_FAILED(*pos + n <= buf->len, -EINVAL);
+	POMP_RETURN_ERR_IF_FAILED(*pos <= buf->len, -EINVAL);
+	POMP_RETURN_ERR_IF_FAILED(n <= buf->len - *pos, -EINVAL);
 
 	/* Copy data */
 	memcpy(p, buf->data + *pos, n);
@@ -518,7 +525,8 @@ int pomp_buffer_cread(const struct pomp_buffer *buf, size_t *pos,
 	POMP_RETURN_ERR_IF_FAILED(p != NULL, -EINVAL);
 
 	/* Make sure there is enough room in data buffer */
-	POMP_RETURN_ERR_IF_FAILED(*pos + n <= buf->len, -EINVAL);
+	POMP_RETURN_ERR_IF_FAILED(*pos <= buf->len, -EINVAL);
+	POMP_RETURN_ERR_IF_FAILED(n <= buf->len - *pos, -EINVAL);
 
 	/* Simply set start of data */
 	*p = buf->data + *pos;
diff --git a/src/pomp_buffer.h b/src/pomp_buffer.h
index b2d55be..18d94b0 100644
--- a/src/pomp_buffer.h
+++ b/src/pomp_buffer.h
@@ -48,7 +48,8 @@
 
 /** Align size up to next allocation step */
 #define POMP_BUFFER_ALIGN_ALLOC_SIZE(_x) \
-	(((_x) + POMP_BUFFER_ALLOC_STEP - 1) & (~(POMP_BUFFER_ALLOC_STEP - 1)))
+	(((_x) + POMP_BUFFER_ALLOC_STEP - 1) & \
+		(~((size_t)POMP_BUFFER_ALLOC_STEP - 1)))
 
 /** Maximum number of file descriptor that can be put in a buffer */
 #define POMP_BUFFER_MAX_FD_COUNT	4
-- 
2.43.0


From f281e9b9afa0bd07dd300d690d08a589f4a0bb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:05 +0000
Subject: [PATCH 5/6] fix: dangling data after setting the capacity of a buffer
 to 0

---
 src/pomp_buffer.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pomp_buffer.c b/src/pomp_buffer.c
index b7f5e40..3f1a5cd 100644
--- a/src/pomp_buffer.c
+++ b/src/pomp_buffer.c
@@ -296,6 +296,14 @@ int pomp_buffer_set_capacity(struct pomp_buffer *buf, size_t capacity)
 	POMP_RETURN_ERR_IF_FAILED(capacity >= buf->len, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(buf->refcount <= 1, -EPERM);
 
+	/* Release internal data (avoid unspecified 'realloc' with size 0) */
+	if (capacity == 0) {
+		free(buf->data);
+		buf->data = NULL;
+		buf->capacity = 0;
+		return 0;
+	}
+
 	/* Resize internal data */
 	data = realloc(buf->data, capacity);
 	if (data == NULL)
-- 
2.43.0


From 7a38a6653026f3cdb58d73ac220f6c70dca0d37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:05 +0000
Subject: [PATCH 6/6] fix: use after free when a buffer is appended to itself

---
 src/pomp_buffer.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pomp_buffer.c b/src/pomp_buffer.c
index 3f1a5cd..6a2c993 100644
--- a/src/pomp_buffer.c
+++ b/src/pomp_buffer.c
@@ -394,6 +394,16 @@ int pomp_buffer_append_buffer(struct pomp_buffer *buf,
 	if (src_len == 0)
 		return 0;
 
+	/* Internal data will move if buffer is appended to itself */
+	if (src == buf) {
+		if (src_len > SIZE_MAX - src_len)
+			return -ENOMEM;
+		res = pomp_buffer_ensure_capacity(buf, 2 * src_len);
+		if (res < 0)
+			return res;
+		src_cdata = buf->data;
+	}
+
 	return pomp_buffer_append_data(buf, src_cdata, src_len);
 }
 
-- 
2.43.0

