From 03718a87545ee3bd928b7cdc226806b9a4d28804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 01/54] fix: select the SSE block decoder only when SSE4.1 is
 available

The SSE decoder is compiled for SSE4.1 and uses SSSE3 byte shuffles, but it was
selected on HAS_SSE3, unlike the encoder which tests HAS_SSE41.
---
 stenos/internal/block_compress.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index 7e0f42a..5e3ade7 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -2183,7 +2183,7 @@ namespace stenos
 	{
 		STENOS_ASSERT_DEBUG(bytesoftype < STENOS_MAX_BYTESOFTYPE, "invalid bytesoftype");
 #ifdef __SSE4_1__
-		if (cpu_features().HAS_SSE3)
+		if (cpu_features().HAS_SSE41)
 			return block_decompress_sse(src, size, bytesoftype, bytes, dst);
 #endif
 		return block_decompress(src, size, bytesoftype, bytes, dst);
-- 
2.43.0


From d478d76c4b7c3c806c939e7bbb4d2d6f12673f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 02/54] fix: do not let an allocation failure throw through
 stenos_decompress_generic

---
 stenos/internal/stenos.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 524d348..567cc58 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -1151,7 +1151,13 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 	// Multithread decompression
 
 	const int threads = (int)std::min((size_t)opts->threads, super_block_count);
-	std::vector<Block> blocks((size_t)threads);
+	std::vector<Block> blocks;
+	try {
+		blocks.resize((size_t)threads);
+	}
+	catch (...) {
+		return STENOS_ERROR_ALLOC;
+	}
 	if STENOS_UNLIKELY (stenos::has_error(opts->ensure_has_buffers(threads)))
 		return STENOS_ERROR_ALLOC;
 
-- 
2.43.0


From de12bcebcd08cf264bb538c9c339a03d0378d449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 03/54] fix: stenos_make_context returns NULL when its
 allocation fails

---
 stenos/internal/stenos.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 567cc58..e40d0af 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -231,6 +231,8 @@ struct stenos_context_s
 stenos_context* stenos_make_context()
 {
 	stenos_context* ctx = (stenos_context*)malloc(sizeof(stenos_context_s));
+	if STENOS_UNLIKELY (!ctx)
+		return nullptr;
 	return new (ctx) stenos_context_s();
 }
 
-- 
2.43.0


From a73fbff10ccba6ecc5dcb36aa368f4fd1d2ff2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 04/54] fix: thread pool task allocation failure is reported
 instead of dereferencing NULL

---
 stenos/internal/tiny_pool.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index 5768792..1e53aa3 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -84,8 +84,9 @@ namespace stenos
 
 				// Allocate
 				TaskBuffer* res = (TaskBuffer*)malloc(s + sizeof(TaskBuffer));
-				if (res)
-					new (res) TaskBuffer{ nullptr, s };
+				if STENOS_UNLIKELY (!res)
+					return nullptr;
+				new (res) TaskBuffer{ nullptr, s };
 				return res->data();
 			}
 
@@ -179,6 +180,8 @@ namespace stenos
 			{
 				try {
 					Task<U>* t = (Task<U>*)allocate_task(sizeof(Task<U>));
+					if STENOS_UNLIKELY (!t)
+						return nullptr;
 					return new (t) Task<U>(std::forward<U>(u));
 				}
 				catch (...) {
-- 
2.43.0


From 7d39d8a010f7cdeb9b0aaed87f4c2909e0be47e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 05/54] fix: do not record the size of a failed scratch buffer
 allocation

---
 stenos/internal/block_compress.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index 5e3ade7..ff93e9f 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -939,7 +939,7 @@ namespace stenos
 			if (buf.buffer)
 				stenos::aligned_free(buf.buffer);
 			buf.buffer = stenos::aligned_malloc(size, 16);
-			buf.size = size;
+			buf.size = buf.buffer ? size : 0;
 		}
 		return buf.buffer;
 	}
-- 
2.43.0


From bee0af899748f6100c1d4bb8c95c4411866dba9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 06/54] fix: a zstd superblock that decompresses to an
 unexpected size is an error

---
 stenos/internal/stenos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index e40d0af..b7515d1 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -696,7 +696,7 @@ namespace stenos
 			case STENOS_FRAME_HEADER_ZSTD: {
 				// Direct zstd compression
 				auto r = ZSTD_decompress(dst, dsize, src, csize);
-				if STENOS_UNLIKELY (ZSTD_isError(r))
+				if STENOS_UNLIKELY (ZSTD_isError(r) || r != dsize)
 					return STENOS_ERROR_INVALID_INPUT;
 			} break;
 			case STENOS_FRAME_HEADER_TRANSPOSED_ZSTD: {
-- 
2.43.0


From 0550ea4fc5b3bfcb14f6074ab27416103e14e914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 07/54] fix: errors of the copy tasks of a multithreaded level
 0 compression are reported

---
 stenos/internal/stenos.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index b7515d1..18c0c86 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -912,7 +912,7 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 
 	const bool raw_memcpy = !opts->t.nanoseconds && opts->level == 0;	     // Check for direct memcpy (level 0)
 	const int threads = (int)std::min((size_t)opts->threads, super_block_count); // Compute number of threads
-	size_t res_code = 0;
+	std::atomic<size_t> res_code{ 0 }; // Might be set by several tasks
 
 	if (!raw_memcpy) {
 		if STENOS_UNLIKELY (stenos::has_error(opts->ensure_has_buffers(threads)))
@@ -945,7 +945,9 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 					    // Direct memcpy
 					    size_t in_size = (size_t)(src_end - in) < opts->superblock_size ? (size_t)(src_end - in) : opts->superblock_size;
 					    uint8_t* out = dst + idx * (opts->superblock_size + 4);
-					    stenos::compress_memcpy(in, in_size, out, dst_end - out);
+					    size_t r = stenos::compress_memcpy(in, in_size, out, dst_end - out);
+					    if STENOS_UNLIKELY (stenos::has_error(r))
+						    res_code = r;
 					    memcpy_size.fetch_add(in_size);
 				    }
 				    else {
@@ -968,6 +970,8 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 		stenos::pool->wait();
 
 		if (raw_memcpy) {
+			if STENOS_UNLIKELY (res_code)
+				goto end;
 			src += memcpy_size.load();
 			dst += memcpy_size.load() + (size_t)thread_count * 4;
 			if (dst > dst_end)
-- 
2.43.0


From 3fb8b13fa0ec2bbe40739492076a333215b6c2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 08/54] fix: stop decoding a block as soon as one of its lines
 is invalid

---
 stenos/internal/block_compress.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index ff93e9f..6f4e07d 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -1684,7 +1684,11 @@ namespace stenos
 			uint32_t lines2 = lines & (~1u);
 			for (uint32_t i = 0; i < lines2; i += 2) {
 				src = decode_line(headers[i], src, end, dst, i, inner_stride, outer_stride, mins);
+				if STENOS_UNLIKELY (!src)
+					return nullptr;
 				src = decode_line(headers[i + 1], src, end, dst, i + 1, inner_stride, outer_stride, mins);
+				if STENOS_UNLIKELY (!src)
+					return nullptr;
 			}
 			if (lines != lines2) {
 				src = decode_line(headers[lines2], src, end, dst, lines2, inner_stride, outer_stride, mins);
-- 
2.43.0


From e4d4c9678b24b58903fdbdda519b7327c1d1c200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 09/54] fix: check that a copied block fits in the input

---
 stenos/internal/block_compress.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index 6f4e07d..d0fdec3 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -1826,6 +1826,8 @@ namespace stenos
 
 			if (*anchor == __STENOS_BLOCK_COPY) {
 				src = anchor + 1;
+				if STENOS_UNLIKELY ((size_t)(end - src) < block_size)
+					return STENOS_ERROR_SRC_OVERFLOW;
 				memcpy(dst, src, block_size);
 				src += block_size;
 				continue;
@@ -2121,6 +2123,8 @@ namespace stenos
 
 			if (*anchor == __STENOS_BLOCK_COPY) {
 				src = anchor + 1;
+				if STENOS_UNLIKELY ((size_t)(end - src) < block_size)
+					return STENOS_ERROR_SRC_OVERFLOW;
 				memcpy(dst, src, block_size);
 				src += block_size;
 				continue;
-- 
2.43.0


From 964c08186c98fe25acef236cc46ea9f1b9b98e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 10/54] fix: decode_rle_flat read one byte past the end of the
 input

---
 stenos/internal/block_compress.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index d0fdec3..68b0407 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -1961,7 +1961,7 @@ namespace stenos
 			uint8_t has_first;
 			if STENOS_UNLIKELY (remaining < 16) {
 				has_first = (mask & 1);
-				memcpy(&buff, src - (mask & 1), remaining + 1);
+				memcpy(&buff, src - (mask & 1), remaining + (mask & 1));
 			}
 			else {
 				has_first = (mask & 1);
-- 
2.43.0


From b41823e084262f5c070fcc0c6a15ba2d4370402f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 11/54] fix: decode_block_rle read the line headers without
 checking the input size

---
 stenos/internal/block_compress.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index 68b0407..30695d4 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -1732,6 +1732,9 @@ namespace stenos
 							      const uint8_t* STENOS_RESTRICT end,
 							      uint32_t lines = 16) noexcept
 		{
+			if STENOS_UNLIKELY ((uint32_t)(lines / 2 + (lines & 1)) > (size_t)(end - src))
+				return nullptr;
+
 			// read compressed mins
 			vector16 headers, mins;
 			auto lines2 = lines & (~1u);
-- 
2.43.0


From f0e2dc7c0f48a78f108fc13d3901ec23173d50c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 12/54] fix: lz_decompress did not check the input end and the
 match offset

---
 stenos/internal/lz_compress.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stenos/internal/lz_compress.h b/stenos/internal/lz_compress.h
index fcdb889..8606fe4 100644
--- a/stenos/internal/lz_compress.h
+++ b/stenos/internal/lz_compress.h
@@ -255,13 +255,16 @@ namespace stenos
 			for (uint8_t j = 0; j < 8; ++j) {
 				if ((anchor >> j) & 1) {
 					// Copy Bytes from offset in dst
+					if STENOS_UNLIKELY (in >= end)
+						return nullptr;
 					uint16_t offset = *in & 127U;
 					if (*in++ > 127U) {
 						if STENOS_UNLIKELY (in == end)
 							return nullptr;
 						offset |= ((*in++) << 7U);
 					}
-					STENOS_ASSERT_DEBUG(dst - offset * Bytes >= _dst, "");
+					if STENOS_UNLIKELY ((size_t)offset * Bytes > (size_t)(dst - _dst))
+						return nullptr;
 					dst = inline_memcpy<Bytes>(dst, dst - offset * Bytes);
 				}
 				else {
-- 
2.43.0


From 21900818b7c66b685510a4b04c78908f72143360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 13/54] fix: hash_8<3> read one byte past the end of the last
 block

---
 stenos/internal/lz_compress.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/lz_compress.h b/stenos/internal/lz_compress.h
index 8606fe4..6240b9b 100644
--- a/stenos/internal/lz_compress.h
+++ b/stenos/internal/lz_compress.h
@@ -95,7 +95,7 @@ namespace stenos
 		out[4] = hash_val(read_32(in + 12));
 		out[5] = hash_val(read_32(in + 15));
 		out[6] = hash_val(read_32(in + 18));
-		out[7] = hash_val(read_32(in + 21));
+		out[7] = hash_val(read_24(in + 21));
 	}
 	template<>
 	STENOS_ALWAYS_INLINE void hash_8<6>(const uint8_t* in, unsigned* out) noexcept
-- 
2.43.0


From 79629d6260dfbf9efed20231d586042f9d4255f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 14/54] fix: stenos_private_decompress_block overflowed its
 scratch buffer when dst_size exceeds the superblock size

---
 stenos/internal/stenos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 18c0c86..c3640fe 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -798,7 +798,7 @@ size_t stenos_private_decompress_block(stenos_context* ctx, const void* _src, si
 	unsigned csize = stenos::read_uint32_3(src);
 	unsigned dsize = (unsigned)dst_size;
 	src += 3;
-	if STENOS_UNLIKELY (src + csize > end_src || dst + dsize > end_dst)
+	if STENOS_UNLIKELY (src + csize > end_src || dst + dsize > end_dst || dst_size > super_block_size)
 		return STENOS_ERROR_INVALID_INPUT;
 	if STENOS_UNLIKELY (stenos::has_error(ctx->ensure_has_buffers(1)))
 		return STENOS_ERROR_ALLOC;
-- 
2.43.0


From 7efa940edc7dddf5caea98af2da86f8457f51e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 15/54] fix: delta_inv read the byte before its output for
 inputs smaller than a SIMD register

---
 stenos/internal/delta.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stenos/internal/delta.cpp b/stenos/internal/delta.cpp
index 0ce4ded..00780f6 100644
--- a/stenos/internal/delta.cpp
+++ b/stenos/internal/delta.cpp
@@ -299,7 +299,7 @@ namespace stenos
 				dst += 16;
 			}
 			while (src < end) {
-				*dst = dst[-1] + *src;
+				*dst = (dst == (char*)_dst ? 0 : dst[-1]) + *src;
 				++src;
 				++dst;
 			}
@@ -406,7 +406,7 @@ namespace stenos
 				dst += 32;
 			}
 			while (src < end) {
-				*dst = dst[-1] + *src;
+				*dst = (dst == (char*)_dst ? 0 : dst[-1]) + *src;
 				++src;
 				++dst;
 			}
-- 
2.43.0


From 2ef468c8e460213c3af2a4d344c7c45622b2c935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 16/54] fix: reject a null custom superblock size instead of
 dividing by it

---
 stenos/internal/stenos.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index c3640fe..bc719dd 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -1107,6 +1107,8 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 			return STENOS_ERROR_SRC_OVERFLOW;
 		superblock_size = stenos::read_LE_32(src);
 		src += 4;
+		if STENOS_UNLIKELY (superblock_size == 0)
+			return STENOS_ERROR_INVALID_INPUT;
 	}
 	else
 		// Default superblock size
-- 
2.43.0


From 5f831b7e404dc63b47406351d507865e8f423593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 17/54] fix: stenos_get_info divided by zero for an invalid
 bytesoftype

---
 stenos/internal/stenos.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index bc719dd..742d837 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -1026,6 +1026,10 @@ size_t stenos_get_info(const void* _src, size_t bytesoftype, size_t bytes, steno
 {
 	// Retrieve information on a compressed frame
 
+	// Check bytesoftype validity
+	if STENOS_UNLIKELY (bytesoftype == 0 || bytesoftype >= STENOS_MAX_BYTESOFTYPE)
+		return STENOS_ERROR_INVALID_BYTESOFTYPE;
+
 	const uint8_t* src = (const uint8_t*)_src;
 	const uint8_t* end_src = src + bytes;
 
-- 
2.43.0


From 6043cc79a99df4b2b740d22c248e863350752090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 18/54] fix: integer overflow of the required superblock count
 for a huge thread count

---
 stenos/internal/stenos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 742d837..fb1a459 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -125,7 +125,7 @@ struct stenos_context_s
 
 		if (t.nanoseconds) {
 			// try to have at least thread * 32 super block
-			size_t required_superblock_count = threads * 32;
+			size_t required_superblock_count = (size_t)threads * 32;
 			size_t required_superblock_size = bytes / required_superblock_count;
 
 			size_t block_count = required_superblock_size / block_size;
-- 
2.43.0


From 56586794ed5069e121fc9a2fe1de80566bf68d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 19/54] fix: the last superblock is full when the input size is
 a multiple of the superblock size

---
 stenos/internal/stenos.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index fb1a459..9aecefe 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -855,6 +855,9 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 	// Compute number of superblocks
 	size_t super_block_remaining = bytes % opts->superblock_size;
 	size_t super_block_count = bytes / opts->superblock_size + (super_block_remaining ? 1 : 0);
+	if (super_block_remaining == 0)
+		// The last superblock is a full one
+		super_block_remaining = opts->superblock_size;
 	uint8_t* dst = (uint8_t*)_dst;
 	uint8_t* dst_end = dst + dst_size;
 	const uint8_t* src = (const uint8_t*)_src;
@@ -1126,6 +1129,9 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 	// Compute superblock count
 	size_t super_block_remaining = decompressed % opts->superblock_size;
 	size_t super_block_count = decompressed / opts->superblock_size + (super_block_remaining ? 1 : 0);
+	if (super_block_remaining == 0)
+		// The last superblock is a full one
+		super_block_remaining = opts->superblock_size;
 
 	if (opts->threads <= 1 || super_block_count == 1) {
 		// Mono thread decompression
-- 
2.43.0


From 93be8135a9a4b501d1f6670b2b20944a48e429cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 20/54] fix: the superblock size is part of the header exactly
 when the shift is 255

---
 stenos/internal/stenos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 9aecefe..ad3ceed 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -870,7 +870,7 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 	stenos::write_uint64_7(dst, bytes);
 	dst += 7;
 
-	if (opts->custom_blocksize_shift != STENOS_NO_BLOCK_SHIFT) {
+	if (opts->shift == 255) {
 		// Write custom superblock size
 		if STENOS_UNLIKELY (dst + 4 > dst_end)
 			return STENOS_ERROR_DST_OVERFLOW;
-- 
2.43.0


From 02cd2369a11dd90303f3d995d2e36a38aa7117ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 21/54] fix: a time limit that expired once must not turn the
 next compressions into copies

---
 stenos/internal/stenos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index ad3ceed..003a929 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -175,9 +175,9 @@ struct stenos_context_s
 		}
 
 		// Initialize the time constraint
+		t.finish_memcpy.store(false);
 		if (t.nanoseconds) {
 			t.total_bytes = bytes;
-			t.finish_memcpy.store(false);
 			t.processed_bytes.store(0);
 			t.timer.tick();
 		}
-- 
2.43.0


From 5584fdf2155191a2a761a9c06fafc636666080f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 22/54] fix: stenos_reset_context did not reset the custom
 block size

---
 stenos/internal/stenos.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 003a929..de90d02 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -246,11 +246,8 @@ void stenos_destroy_context(stenos_context* ctx)
 
 void stenos_reset_context(stenos_context* ctx)
 {
-	if (ctx) {
-		ctx->level = 1;
-		ctx->threads = 1;
-		ctx->t.nanoseconds = 0;
-	}
+	if (ctx)
+		ctx->reset_parameters();
 }
 
 size_t stenos_set_level(stenos_context* ctx, int level)
-- 
2.43.0


From 0f04d0f8c4faf848522c395b536025c5d8dc633b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 23/54] fix: an empty superblock is valid in multithreaded
 decompression too

---
 stenos/internal/stenos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index de90d02..8b0c815 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -1186,7 +1186,7 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 		// Build blocks;
 		for (int i = 0; i < thread_count; ++i) {
 
-			if STENOS_UNLIKELY (src + 4 >= end_src)
+			if STENOS_UNLIKELY (src + 4 > end_src)
 				return STENOS_ERROR_SRC_OVERFLOW;
 
 			uint8_t code = *src++;
-- 
2.43.0


From 5d5a518a78fc7fd3e3f1c68a493bb7b2aa01679f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 24/54] fix: initialize the LZ hash table, the compressed
 output depended on uninitialized memory

---
 stenos/internal/block_compress.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index 30695d4..d78f351 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -1208,7 +1208,7 @@ namespace stenos
 
 			// Test LZ compression for level 2
 			if (level == 2 && bytesoftype % 4 == 0 && full_size * 3 > block_size) {
-				uint16_t buffer[256];
+				uint16_t buffer[256] = {};
 
 				// To avoid dst overflow, we need at least 8 * bytesoftype + 1 bytes above full_size
 				if STENOS_UNLIKELY (dst_end > dst + (full_size + bytesoftype * 8u + 2u)) { // add one byte for __STENOS_BLOCK_LZ
-- 
2.43.0


From e0306c0bdaf1d71fa7c96d75ef3f289da16d87e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 25/54] fix: an allocation failure of ensure_has_buffers left
 buffer vectors of different sizes

---
 stenos/internal/stenos.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 8b0c815..f0ddbe9 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -189,6 +189,10 @@ struct stenos_context_s
 		// Ensure that we have the requested number of buffers
 		try {
 			if (thread_buffers.size() < (size_t)size) {
+				// Reserve first to keep the same size for all vectors in case of failure
+				thread_buffers.reserve((size_t)size);
+				tmp_buffers1.reserve((size_t)size);
+				tmp_buffers2.reserve((size_t)size);
 				thread_buffers.resize((size_t)size, nullptr);
 				tmp_buffers1.resize((size_t)size, nullptr);
 				tmp_buffers2.resize((size_t)size, nullptr);
-- 
2.43.0


From 606f377af0f33a248a4b029fff3ed62dbcbd56a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 26/54] fix: wait for the tasks already pushed before returning
 when a task cannot be pushed

---
 stenos/internal/stenos.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index f0ddbe9..771052a 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -968,8 +968,10 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 							    opts->t.processed_bytes.fetch_add(in_size);
 					    }
 				    }
-			    }))
+			    })) {
+				stenos::pool->wait(); // Pushed tasks use local variables
 				return STENOS_ERROR_ALLOC;
+			}
 		}
 		stenos::pool->wait();
 
@@ -1008,8 +1010,10 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 					    else {
 						    memcpy(opts->thread_buffers[i]->dst, opts->thread_buffers[i]->bytes, opts->thread_buffers[i]->dst_size);
 					    }
-				    }))
+				    })) {
+					stenos::pool->wait(); // Pushed tasks use local variables
 					return STENOS_ERROR_ALLOC;
+				}
 			}
 			stenos::pool->wait();
 
@@ -1211,8 +1215,10 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 			if (!stenos::pool->push([&, i]() {
 				    Block& bl = blocks[(size_t)i];
 				    bl.ret = stenos::decompress_generic_superblock(opts, bl.code, bl.src, bytesoftype, bl.csize, bl.dst, bl.dsize, opts->thread_buffers[(size_t)i]);
-			    }))
+			    })) {
+				stenos::pool->wait(); // Pushed tasks use local variables
 				return STENOS_ERROR_ALLOC;
+			}
 		}
 		stenos::pool->wait();
 
-- 
2.43.0


From ba0e43c20313826a1a0a271137fa9acf39c6d7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 27/54] fix: tiny_pool::finish was read without holding the
 mutex

---
 stenos/internal/tiny_pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index 1e53aa3..458aa67 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -240,7 +240,7 @@ namespace stenos
 
 		void do_work() noexcept
 		{
-			while (!finish) {
+			for (;;) {
 				std::unique_lock<std::mutex> lock(mutex);
 				--processing;
 
-- 
2.43.0


From abef810a4fff8d984090305345a5ba2b9c75a1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 28/54] fix: tiny_pool::wait lost wakeups when several threads
 wait

---
 stenos/internal/tiny_pool.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index 458aa67..a5ac3e4 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -235,7 +235,7 @@ namespace stenos
 		detail::TaskList list;
 		std::vector<std::thread> threads;
 		bool finish = false;
-		bool waiting = false;
+		unsigned waiting = 0;
 		unsigned processing = 0;
 
 		void do_work() noexcept
@@ -287,9 +287,9 @@ namespace stenos
 		void wait() noexcept
 		{
 			std::unique_lock<std::mutex> lock(mutex);
-			waiting = true;
+			++waiting;
 			wait_condition.wait(lock, [this] { return (this->processing == 0) && this->list.empty(); });
-			waiting = false;
+			--waiting;
 		}
 
 		template<class U>
-- 
2.43.0


From c8df6287bace6e6fed8f33f26b1e759d0b843574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 29/54] fix: start the single thread of a tiny_pool when
 hardware concurrency is unknown

---
 stenos/internal/tiny_pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index a5ac3e4..5fe6e2d 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -270,7 +270,7 @@ namespace stenos
 				processing = 1;
 				threads.resize(1);
 			}
-			for (unsigned i = 0; i < nthreads; ++i)
+			for (size_t i = 0; i < threads.size(); ++i)
 				threads[i] = std::thread([this]() { this->do_work(); });
 		}
 		~tiny_pool() noexcept
-- 
2.43.0


From 59361052b01dc34fbda13ba5fef33ac1e4e4496c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 30/54] fix: ABA problem of the task allocation list

---
 stenos/internal/tiny_pool.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index 5fe6e2d..f7f30d0 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -52,7 +52,8 @@ namespace stenos
 		struct TaskAllocation
 		{
 
-			std::atomic<TaskBuffer*> first{ nullptr };
+			std::mutex mutex;
+			TaskBuffer* first{ nullptr };
 
 			~TaskAllocation() noexcept
 			{
@@ -64,9 +65,10 @@ namespace stenos
 			TaskBuffer* pop() noexcept
 			{
 				// Extract a buffer from the list
-				auto f = first.load(std::memory_order_relaxed);
-				while (f && !first.compare_exchange_strong(f, f->next))
-					;
+				std::lock_guard<std::mutex> lock(mutex);
+				auto f = first;
+				if (f)
+					first = f->next;
 				return f;
 			}
 
@@ -94,11 +96,9 @@ namespace stenos
 			{
 				// Insert the buffer in the list
 				TaskBuffer* b = (TaskBuffer*)((uint8_t*)p - sizeof(TaskBuffer));
-				auto f = first.load(std::memory_order_relaxed);
-				b->next = f;
-				while (!first.compare_exchange_strong(f, b)) {
-					b->next = f;
-				}
+				std::lock_guard<std::mutex> lock(mutex);
+				b->next = first;
+				first = b;
 			}
 
 			static STENOS_ALWAYS_INLINE TaskAllocation& instance()
-- 
2.43.0


From 6ea2bdeb4664f2c557c6b3a6be6af2555f0f6b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 31/54] fix: the compressed output depended on the number of
 threads through the size of the superblock destination

---
 stenos/internal/stenos.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 771052a..0d64b5e 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -421,6 +421,8 @@ namespace stenos
 		static const bool no_sse = !stenos::cpu_features().HAS_SSE41;
 
 		size_t result = 0;
+		// The output size is at most bytes + 4: do not let the output depend on a bigger destination
+		dst_size = std::min(dst_size, bytes + 4);
 		uint8_t* dst = (uint8_t*)_dst;
 		uint8_t* dst_end = dst + dst_size;
 		const bool time_limited = ctx->t.nanoseconds != 0;
-- 
2.43.0


From afef591c3e8b3079e453476abcda67f35fe598c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:26 +0000
Subject: [PATCH 32/54] fix: the time constraint state of a previous call
 decided the result of stenos_private_compress_block

---
 stenos/internal/stenos.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 0d64b5e..6c3f5a1 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -174,6 +174,12 @@ struct stenos_context_s
 			clear_buffers();
 		}
 
+		start_time_constraint(bytes);
+		return 0;
+	}
+
+	STENOS_ALWAYS_INLINE void start_time_constraint(size_t bytes) noexcept
+	{
 		// Initialize the time constraint
 		t.finish_memcpy.store(false);
 		if (t.nanoseconds) {
@@ -181,7 +187,6 @@ struct stenos_context_s
 			t.processed_bytes.store(0);
 			t.timer.tick();
 		}
-		return 0;
 	}
 
 	STENOS_ALWAYS_INLINE size_t ensure_has_buffers(int size) noexcept
@@ -779,6 +784,7 @@ size_t stenos_private_compress_block(stenos_context* ctx, const void* src, size_
 	}
 	if STENOS_UNLIKELY (stenos::has_error(ctx->ensure_has_buffers(1)))
 		return STENOS_ERROR_ALLOC;
+	ctx->start_time_constraint(bytes);
 	return stenos::compress_generic_superblock(ctx, src, bytesoftype, bytes, dst, dst_size, ctx->tmp_buffers1[0], ctx->tmp_buffers2[0]);
 }
 
-- 
2.43.0


From 33c03b1b2f5b3460e450a242329e9b3eb5c6e3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:43 +0000
Subject: [PATCH 33/54] fix: cvector: a new decompression context belongs to no
 bucket

A context created for the back bucket kept block index 0 when inserting the
bucket threw, and its content was later written over the first bucket.
---
 stenos/cvector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index a910398..dce73a4 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -702,7 +702,7 @@ namespace stenos
 			RawBuffer<T, block_size>* res = reinterpret_cast<RawBuffer<T, block_size>*>(al.allocate(sizeof(RawBuffer<T, block_size>)));
 			res->size = 0;
 			res->dirty = 0;
-			res->block_index = 0;
+			res->block_index = RawBuffer<T, block_size>::invalid_index;
 			res->buffer = nullptr;
 			res->left = res->right = nullptr;
 			return res;
@@ -1843,17 +1843,17 @@ namespace stenos
 				if (d_buckets.empty() || d_buckets.back().data.compressed()) {
 					// no buckets or the back buffer is compressed, create a new one
 					RawType* raw = make_or_find_free_context();
-					raw->mark_dirty();
 					// might throw, fine as we did not specify yet the block index
 					d_buckets.push_back(BucketType(raw));
 					raw->block_index = d_buckets.size() - 1;
+					raw->mark_dirty();
 				}
 				else if (d_buckets.back().load_decompressed()->size == elems_per_block) {
 					RawType* raw = compress_bucket(d_buckets.size() - 1);
-					raw->mark_dirty();
 					// might throw, fine as we did not specify yet the block index
 					d_buckets.push_back(BucketType(raw));
 					raw->block_index = d_buckets.size() - 1;
+					raw->mark_dirty();
 				}
 			}
 
-- 
2.43.0


From dc5c7dcdb22c8c560674f0d2f80aee89965ef0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:43 +0000
Subject: [PATCH 34/54] fix: cvector: publish a decompressed bucket after its
 bookkeeping is complete

A concurrent reader could mark the bucket dirty (or release its compressed
image) between the publication and the stores to dirty/buffer/size, which then
erased the mark.
---
 stenos/cvector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index dce73a4..5300169 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1869,14 +1869,14 @@ namespace stenos
 
 					BucketType* pack = &d_buckets[index];
 					RawType* raw = make_or_find_free_context(exclude == static_cast<size_t>(-1) ? nullptr : d_buckets[exclude].load_decompressed());
-					raw->block_index = index;
 
 					this->decompress(pack, raw->storage);
-					char* buffer = pack->data.find_compressed();
-					pack->data.set(raw, Raw);
-					raw->buffer = buffer;
+					raw->block_index = index;
+					raw->buffer = pack->data.find_compressed();
 					raw->dirty = 0;
 					raw->size = block_size;
+					// Publish the context last: it can be used by other threads as soon as it is visible
+					pack->data.set(raw, Raw);
 					decompressed = raw;
 				}
 				return decompressed;
-- 
2.43.0


From 0538d99c043da6d424d4072a2a92589f190aec83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:43 +0000
Subject: [PATCH 35/54] fix: cvector: use an atomic pointer to publish
 decompressed buckets

The pointer is read without holding the container lock. A volatile does not
order the stores that fill the context before its publication.
---
 stenos/cvector.hpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 5300169..aaeb593 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -627,8 +627,8 @@ namespace stenos
 		template<class T, unsigned block_size>
 		class TagPointer
 		{
-			volatile uintptr_t d_ptr = 0; // Not certain volatile is mandatory
-			STENOS_ALWAYS_INLINE uintptr_t load() const noexcept { return d_ptr; }
+			std::atomic<uintptr_t> d_ptr{ 0 };
+			STENOS_ALWAYS_INLINE uintptr_t load() const noexcept { return d_ptr.load(std::memory_order_acquire); }
 
 		public:
 			constexpr TagPointer() = default;
@@ -636,15 +636,29 @@ namespace stenos
 			  : d_ptr((uintptr_t)p | type)
 			{
 			}
-			STENOS_ALWAYS_INLINE RawBuffer<T, block_size>* raw() const noexcept { return (d_ptr & Compressed) ? nullptr : reinterpret_cast<RawBuffer<T, block_size>*>(d_ptr); }
-			STENOS_ALWAYS_INLINE char* compressed() const noexcept { return (d_ptr & Compressed) ? reinterpret_cast<char*>(d_ptr & ~1ull) : nullptr; }
+			STENOS_ALWAYS_INLINE RawBuffer<T, block_size>* raw() const noexcept
+			{
+				const uintptr_t ptr = load();
+				return (ptr & Compressed) ? nullptr : reinterpret_cast<RawBuffer<T, block_size>*>(ptr);
+			}
+			STENOS_ALWAYS_INLINE char* compressed() const noexcept
+			{
+				const uintptr_t ptr = load();
+				return (ptr & Compressed) ? reinterpret_cast<char*>(ptr & ~1ull) : nullptr;
+			}
 			STENOS_ALWAYS_INLINE char* find_compressed() const noexcept
 			{
-				return d_ptr ? ((d_ptr & Compressed) ? reinterpret_cast<char*>(d_ptr & ~1ull) : reinterpret_cast<RawBuffer<T, block_size>*>(d_ptr)->buffer) : nullptr;
+				const uintptr_t ptr = load();
+				return ptr ? ((ptr & Compressed) ? reinterpret_cast<char*>(ptr & ~1ull) : reinterpret_cast<RawBuffer<T, block_size>*>(ptr)->buffer) : nullptr;
+			}
+			STENOS_ALWAYS_INLINE void set(void* p, BufferType type) noexcept { d_ptr.store((uintptr_t)p | type, std::memory_order_release); }
+			STENOS_ALWAYS_INLINE void swap(TagPointer& other) noexcept
+			{
+				const uintptr_t ptr = load();
+				d_ptr.store(other.load(), std::memory_order_release);
+				other.d_ptr.store(ptr, std::memory_order_release);
 			}
-			STENOS_ALWAYS_INLINE void set(void* p, BufferType type) noexcept { d_ptr = (uintptr_t)p | type; }
-			STENOS_ALWAYS_INLINE void swap(TagPointer& other) noexcept { std::swap(d_ptr, other.d_ptr); }
-			STENOS_ALWAYS_INLINE operator bool() const noexcept { return d_ptr != 0; }
+			STENOS_ALWAYS_INLINE operator bool() const noexcept { return load() != 0; }
 		};
 
 		/// @brief Compressed buffer class
-- 
2.43.0


From 7cde1e482e149a1e6e72d362becf6bd206085165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:43 +0000
Subject: [PATCH 36/54] fix: cvector: mark elements dirty before they are
 modified

for_each() and for_each_backward() lost the modifications of a bucket when the
functor stopped early or threw; an element assignment that throws may have
modified the element as well.
---
 stenos/cvector.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index aaeb593..1b65c91 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -937,14 +937,14 @@ namespace stenos
 			STENOS_ALWAYS_INLINE void set(const T& obj)
 			{
 				auto raw = this->decompress_if_needed();
-				raw->at(this->bpos) = obj;
 				raw->mark_dirty();
+				raw->at(this->bpos) = obj;
 			}
 			STENOS_ALWAYS_INLINE void set(T&& obj)
 			{
 				auto raw = this->decompress_if_needed();
-				raw->at(this->bpos) = std::move(obj);
 				raw->mark_dirty();
+				raw->at(this->bpos) = std::move(obj);
 			}
 
 			STENOS_ALWAYS_INLINE operator const T&() const { return this->get(); }
@@ -2313,6 +2313,8 @@ namespace stenos
 					if (!cur) {
 						cur = this->decompress_bucket(bindex);
 					}
+					// mark as dirty now: the functor might stop early or throw
+					cur->mark_dirty(this);
 					remaining -= to_process;
 					size_t en = pos + to_process;
 					for (size_t p = pos; p != en; ++p, ++res)
@@ -2320,7 +2322,6 @@ namespace stenos
 							return res;
 					pos = 0;
 					++bindex;
-					cur->mark_dirty(this);
 				}
 				return res;
 			}
@@ -2377,12 +2378,13 @@ namespace stenos
 					if (!cur) {
 						cur = this->decompress_bucket(bindex);
 					}
+					// mark as dirty now: the functor might stop early or throw
+					cur->mark_dirty(this);
 					difference_type low = bindex == first_bucket ? first_index : 0;
 					difference_type high = bindex == last_bucket ? last_index : static_cast<difference_type>(block_size - 1);
 					for (difference_type i = high; i >= low; --i, ++res)
 						if (!eval_functor(std::forward<Functor>(fun), cur->at((unsigned)i)))
 							return res;
-					cur->mark_dirty(this);
 				}
 
 				return res;
-- 
2.43.0


From e993612f04e64dd0a911cef18157f3760641ba85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:33 +0000
Subject: [PATCH 37/54] fix: cvector: a failed compression buffer allocation no
 longer destroys the bucket

When the allocation threw, the handler unlocked a bucket that its callers may
not have locked, destroyed an image of the bucket older than its current
values, removed the bucket without updating the size, and left the other
locked bucket locked. The context and its bucket are still valid at this point:
keep them and release the lock.
---
 stenos/cvector.hpp | 96 +++++++++++++---------------------------------
 1 file changed, 27 insertions(+), 69 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 1b65c91..90617f6 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1625,17 +1625,8 @@ namespace stenos
 						// Find the corresponding PackBuffer, excluding front and back buckets
 						size_t index = raw->block_index;
 						STENOS_ASSERT_DEBUG(index != RawType::invalid_index, "raw block must belong to an existing bucket");
-						// Compress
-						size_t r = compress(raw->storage);
-						if (r != stenos_private_block_csize(raw->buffer)) {
-							// Free old buffer, alloc new one, update compressed size, might throw (fine)
-							char* buff = this->allocate_buffer_for_compression((unsigned)r, &d_buckets[index], index, raw);
-
-							if (raw->buffer)
-								RebindAlloc<char>(*this).deallocate(raw->buffer, stenos_private_block_csize(raw->buffer));
-							raw->buffer = buff;
-						}
-						memcpy(raw->buffer, compression_buffer(), r);
+						// Compress, might throw
+						compress_context(raw);
 					}
 
 					// Unlink this decompression context with its compressed buffer
@@ -1685,41 +1676,19 @@ namespace stenos
 					return d_buckets[raw->block_index].ref_count.unlock();
 			}
 
-			/// @brief Allocate and return buffer of given size.
-			/// In case of exception, decompress and destroy values, deallocate previous buffer, remove bucket, remove decompression context and rethrow.
-			auto allocate_buffer_for_compression(unsigned size, BucketType* bucket, size_t bucket_index, RawType* context) -> char*
+			/// @brief Compress the content of given context into its compressed buffer.
+			/// Might throw, in which case the context and its previous compressed buffer are left untouched.
+			void compress_context(RawType* raw)
 			{
-				char* buff = nullptr;
-				try {
-					buff = RebindAlloc<char>(*this).allocate(size); //(char*)malloc(r);
+				size_t r = compress(raw->storage);
+				if (r != stenos_private_block_csize(raw->buffer)) {
+					// Free old buffer, alloc new one
+					char* buff = RebindAlloc<char>(*this).allocate(r);
+					if (raw->buffer)
+						RebindAlloc<char>(*this).deallocate(raw->buffer, stenos_private_block_csize(raw->buffer));
+					raw->buffer = buff;
 				}
-				catch (...) {
-					// unlock bucket
-					unlock(context);
-					// deallocate
-					if (bucket->data) {
-						// first destroy values
-						char* buffer = bucket->data.find_compressed();
-						if (!std::is_trivially_destructible<T>::value) {
-							context->size = block_size;
-							this->decompress(bucket, context->storage);
-							context->clear_values();
-						}
-						RebindAlloc<char>(*this).deallocate(buffer, stenos_private_block_csize(buffer));
-					}
-					// remove context
-					erase_context(context);
-					// remove bucket
-					d_buckets.erase(d_buckets.begin() + static_cast<difference_type>(bucket_index));
-
-					// update indexes
-					for (size_t i = bucket_index; i < d_buckets.size(); ++i)
-						if (auto raw = d_buckets[i].load_decompressed())
-							raw->block_index = i;
-
-					throw;
-				}
-				return buff;
+				memcpy(raw->buffer, compression_buffer(), r);
 			}
 
 			/// @brief Returns a decompression context either by creating a new one, or by reusing an existing one
@@ -1775,30 +1744,26 @@ namespace stenos
 
 				RawType* found_raw = *found;
 				BucketType* found_bucket = (*found)->block_index == RawType::invalid_index ? nullptr : &d_buckets[(*found)->block_index];
-				size_t saved_index = (*found)->block_index;
 
 				// Compress context if dirty
 				if (found_raw->dirty) {
 					// find the corresponding PackBuffer, excluding front and back buckets
 					STENOS_ASSERT_DEBUG(found_bucket, "context must belong to an existing bucket");
 
-					size_t r = compress(found_raw->storage);
+					try {
+						compress_context(found_raw);
 
-					if (r != stenos_private_block_csize(found_raw->buffer)) {
-						// Free old memory, alloc new one
-						char* buff = allocate_buffer_for_compression((unsigned)r, found_bucket, saved_index, found_raw);
-						if (found_raw->buffer)
-							RebindAlloc<char>(*this).deallocate(found_raw->buffer, stenos_private_block_csize(found_raw->buffer));
-						found_raw->buffer = buff;
+						// Use this opportunity to free another context if possible
+						if (!start && d_contexts.size() > d_buckets.size() / 16) {
+							RawType* raw = find_free_context(exclude, &found);
+							if (raw)
+								erase_context(raw);
+						}
 					}
-
-					memcpy(found_raw->buffer, compression_buffer(), r);
-
-					// Use this opportunity to free another context if possible
-					if (!start && d_contexts.size() > d_buckets.size() / 16) {
-						RawType* raw = find_free_context(exclude, &found);
-						if (raw)
-							erase_context(raw);
+					catch (...) {
+						// The context still belongs to its bucket
+						unlock(found_raw);
+						throw;
 					}
 				}
 
@@ -1836,15 +1801,8 @@ namespace stenos
 				BucketType* bucket = &d_buckets[index];
 				RawType* decompressed = bucket->load_decompressed();
 
-				// Compress
-				size_t r = compress(decompressed->storage);
-				if (r != stenos_private_block_csize(decompressed->buffer)) {
-					char* buff = allocate_buffer_for_compression((unsigned)r, bucket, index, decompressed);
-					if (decompressed->buffer)
-						RebindAlloc<char>(*this).deallocate(decompressed->buffer, stenos_private_block_csize(decompressed->buffer));
-					decompressed->buffer = buff;
-				}
-				memcpy(decompressed->buffer, compression_buffer(), r);
+				// Compress, might throw
+				compress_context(decompressed);
 
 				bucket->data.set(decompressed->buffer, Compressed);
 				decompressed->reset();
-- 
2.43.0


From 0b82ffd33889337e989bf39d60d58241de76de59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:33 +0000
Subject: [PATCH 38/54] fix: cvector: shrink_to_fit() left freed contexts in
 the list when it threw

Compress the dirty buckets before relinking the contexts.
---
 stenos/cvector.hpp | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 90617f6..96ec089 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1598,6 +1598,16 @@ namespace stenos
 			/// @brief Compress dirty blocks and release all unnecessary decompssion contexts
 			void shrink_to_fit()
 			{
+				// Compress dirty full buckets: might throw, in which case all contexts are still valid
+				for (auto it = d_contexts.begin(); it != d_contexts.end(); ++it) {
+					RawType* raw = *it;
+					if (raw->dirty && raw->size == elems_per_block) {
+						STENOS_ASSERT_DEBUG(raw->block_index != RawType::invalid_index, "raw block must belong to an existing bucket");
+						compress_context(raw);
+						raw->mark_not_dirty();
+					}
+				}
+
 				ContextType new_contexts;
 
 				const size_t max_buffers = 1;
@@ -1611,24 +1621,6 @@ namespace stenos
 						new_contexts.push_back(raw);
 						continue;
 					}
-					else if (new_contexts.size() < max_buffers && !raw->dirty) {
-						// Reuse a non dirty decompression context
-						new_contexts.push_back(raw);
-						if (raw->block_index != RawType::invalid_index)
-							d_buckets[raw->block_index].data.set(raw->buffer, Compressed);
-						raw->reset();
-						continue;
-					}
-
-					// If the context is dirty, compress it
-					if (raw->dirty) {
-						// Find the corresponding PackBuffer, excluding front and back buckets
-						size_t index = raw->block_index;
-						STENOS_ASSERT_DEBUG(index != RawType::invalid_index, "raw block must belong to an existing bucket");
-						// Compress, might throw
-						compress_context(raw);
-					}
-
 					// Unlink this decompression context with its compressed buffer
 					if (raw->block_index != RawType::invalid_index)
 						d_buckets[raw->block_index].data.set(raw->buffer, Compressed);
-- 
2.43.0


From 60015c355f095b5eab57f0237d423f9b891a8c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:33 +0000
Subject: [PATCH 39/54] fix: cvector: the compression context was never
 destroyed

---
 stenos/cvector.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 96ec089..f06d53c 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1469,7 +1469,11 @@ namespace stenos
 				stenos_set_level(d_ctx, level);
 			}
 
-			~CompressedVectorInternal() noexcept { clear(); }
+			~CompressedVectorInternal() noexcept
+			{
+				clear();
+				stenos_destroy_context(d_ctx);
+			}
 
 			/// @brief Deallocate compressed memory for given bucket
 			void dealloc_bucket(size_t index) noexcept
-- 
2.43.0


From 5e3966e0e5edb2b62c1088c94b2652c4049df36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:33 +0000
Subject: [PATCH 40/54] fix: cvector: copy assignment to an empty vector and
 exceptions in copy assignment

The assignment dereferenced the null data of a default constructed vector. When
copying an element threw, the temporary was destroyed twice and the exception
swallowed.
---
 stenos/cvector.hpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index f06d53c..0cbedc7 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2570,7 +2570,7 @@ namespace stenos
 			if (this != std::addressof(other)) {
 
 				if STENOS_CONSTEXPR (assign_alloc<Allocator>::value) {
-					if (get_allocator() != other.get_allocator()) {
+					if (d_data && get_allocator() != other.get_allocator()) {
 						destroy_internal(d_data);
 						d_data = nullptr;
 					}
@@ -2582,19 +2582,15 @@ namespace stenos
 				else {
 					internal_type* tmp = make_internal(get_allocator());
 					try {
-						try {
-							other.for_each(0, other.size(), [tmp](const T& v) { tmp->push_back(v); });
-						}
-						catch (...) {
-							destroy_internal(tmp);
-							throw;
-						}
-						destroy_internal(d_data);
-						d_data = tmp;
+						other.for_each(0, other.size(), [tmp](const T& v) { tmp->push_back(v); });
 					}
 					catch (...) {
 						destroy_internal(tmp);
+						throw;
 					}
+					if (d_data)
+						destroy_internal(d_data);
+					d_data = tmp;
 				}
 			}
 			return *this;
-- 
2.43.0


From d1ad74deaccfc3533365b57bea3ddda62979b0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:33 +0000
Subject: [PATCH 41/54] fix: cvector: constructors leaked their content when an
 element copy threw

---
 stenos/cvector.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 0cbedc7..862f719 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2468,8 +2468,7 @@ namespace stenos
 		/// @param value the value to initialize elements of the container with
 		/// @param alloc allocator object
 		cvector(size_type count, const T& value, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_data(make_internal(alloc))
+		  : cvector(alloc)
 		{
 			resize(count, value);
 		}
@@ -2477,8 +2476,7 @@ namespace stenos
 		/// @param count new cvector size
 		/// @param alloc allocator object
 		explicit cvector(size_type count, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_data(make_internal(alloc))
+		  : cvector(alloc)
 		{
 			resize(count);
 		}
@@ -2496,9 +2494,11 @@ namespace stenos
 		  , d_data(nullptr)
 		{
 			if (other.size()) {
-				d_data = make_internal(alloc);
+				// use a temporary: the destructor is not called if the copy throws
+				cvector tmp(alloc);
 				// calling push_back is faster than resize + copy
-				other.for_each(0, other.size(), [this](const T& v) { this->push_back(v); });
+				other.for_each(0, other.size(), [&tmp](const T& v) { tmp.push_back(v); });
+				std::swap(d_data, tmp.d_data);
 			}
 		}
 		/// @brief Move constructor. Constructs the container with the contents of other using move semantics. Allocator is obtained by move-construction from the allocator belonging to other.
@@ -2514,8 +2514,7 @@ namespace stenos
 		/// @param other another container to be used as source to initialize the elements of the container with
 		/// @param alloc allocator object
 		cvector(cvector&& other, const Allocator& alloc)
-		  : Allocator(alloc)
-		  , d_data(make_internal(alloc))
+		  : cvector(alloc)
 		{
 			if (alloc == other.get_allocator()) {
 				std::swap(d_data, other.d_data);
@@ -2532,8 +2531,7 @@ namespace stenos
 		/// @param alloc allocator object
 		template<class Iter, detail::IfIsInputIterator<Iter> = true>
 		cvector(Iter first, Iter last, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_data(make_internal(alloc))
+		  : cvector(alloc)
 		{
 			assign(first, last);
 		}
-- 
2.43.0


From bfa5854e796dedf36c1901aa4f462c0f1fe98210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:33 +0000
Subject: [PATCH 42/54] fix: cvector: resize() leaked the elements of a chunk
 when constructing one of them threw

---
 stenos/cvector.hpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 862f719..e95299c 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2021,16 +2021,16 @@ namespace stenos
 
 						while (size() < new_size - block_size) {
 							size_t r = 0;
-							// Generic way to compress one value repeated
-							raw.size = block_size;
-							// construct, might throw, fine
-							for (unsigned i = 0; i < block_size; ++i)
-								construct_ptr(&raw.at(i));
-							// compress
-							r = compress(raw.storage);
+							raw.size = 0;
 
 							char* buff = nullptr;
 							try {
+								// construct, might throw, see below
+								for (; raw.size < block_size; ++raw.size)
+									construct_ptr(&raw.at(raw.size));
+								// compress
+								r = compress(raw.storage);
+
 								// might throw, see below
 								buff = RebindAlloc<char>(*this).allocate(r);
 								d_buckets.push_back(BucketType(nullptr, buff, (unsigned)r));
@@ -2076,15 +2076,16 @@ namespace stenos
 
 						while (size() < new_size - block_size) {
 							size_t r = 0;
-							raw.size = block_size;
-							// construct, might throw, fine
-							for (unsigned i = 0; i < block_size; ++i)
-								construct_ptr(&raw.at(i), val);
-							// compress
-							r = compress(raw.storage);
+							raw.size = 0;
 
 							char* buff = nullptr;
 							try {
+								// construct, might throw, see below
+								for (; raw.size < block_size; ++raw.size)
+									construct_ptr(&raw.at(raw.size), val);
+								// compress
+								r = compress(raw.storage);
+
 								buff = RebindAlloc<char>(*this).allocate(r);
 								d_buckets.push_back(BucketType(nullptr, buff, (unsigned)r));
 								memcpy(buff, compression_buffer(), r);
-- 
2.43.0


From 9a9e6a2cb57973dc19fc81ee3f032b5140b6e0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:56 +0000
Subject: [PATCH 43/54] fix: cvector: push_back() reused the buffer of a
 referenced bucket

vec.push_back(vec[i]) constructed the new element over the referenced one when
the back bucket was full.
---
 stenos/cvector.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index e95299c..5ee4e00 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1817,7 +1817,15 @@ namespace stenos
 					raw->mark_dirty();
 				}
 				else if (d_buckets.back().load_decompressed()->size == elems_per_block) {
-					RawType* raw = compress_bucket(d_buckets.size() - 1);
+					RawType* raw = nullptr;
+					{
+						// reuse the context of the back bucket, unless one of its elements is referenced
+						std::unique_lock<SharedSpinner> lock(d_buckets.back().ref_count, std::try_to_lock);
+						if (lock.owns_lock())
+							raw = compress_bucket(d_buckets.size() - 1);
+					}
+					if (!raw)
+						raw = make_or_find_free_context();
 					// might throw, fine as we did not specify yet the block index
 					d_buckets.push_back(BucketType(raw));
 					raw->block_index = d_buckets.size() - 1;
-- 
2.43.0


From dded219539707a170ec8fe71bdc35555cec552ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:56 +0000
Subject: [PATCH 44/54] fix: cvector: serialize() dropped a full compressed
 last bucket and wrote stale images

A full last bucket that is not decompressed was skipped, and the compressed
image of a full last bucket was written even if its elements were modified
since.
---
 stenos/cvector.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 5ee4e00..be05933 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -3024,16 +3024,19 @@ namespace stenos
 					// check if last bucket is empty
 					auto* buffer = &d_data->d_buckets.back();
 					auto* raw = buffer->load_decompressed();
-					if (!raw || raw->size == 0)
+					if (raw && raw->size == 0)
 						goto end;
 
 					// check if last bucket is full and compressed
-					if (raw->size == block_size && raw->buffer) {
-						size_t csize = stenos_private_block_csize(raw->buffer);
+					const char* compressed = buffer->data.compressed();
+					if (raw && raw->size == block_size && !raw->dirty)
+						compressed = raw->buffer;
+					if (compressed) {
+						size_t csize = stenos_private_block_csize(compressed);
 						if STENOS_UNLIKELY (dst + csize > dst_end)
 							return STENOS_ERROR_DST_OVERFLOW;
 
-						memcpy(dst, raw->buffer, csize);
+						memcpy(dst, compressed, csize);
 						dst += csize;
 						goto end;
 					}
@@ -3235,12 +3238,15 @@ namespace stenos
 				// check if last bucket is empty
 				auto* buffer = &d_data->d_buckets.back();
 				auto* raw = buffer->data.raw();
-				if (!raw || raw->size == 0)
+				if (raw && raw->size == 0)
 					goto end;
 
 				// check if last bucket is full and compressed
-				if (raw->size == block_size && raw->buffer) {
-					oss.write((char*)raw->buffer, stenos_private_block_csize(raw->buffer));
+				const char* compressed = buffer->data.compressed();
+				if (raw && raw->size == block_size && !raw->dirty)
+					compressed = raw->buffer;
+				if (compressed) {
+					oss.write(compressed, stenos_private_block_csize(compressed));
 					if STENOS_UNLIKELY (!oss)
 						return STENOS_ERROR_DST_OVERFLOW;
 					goto end;
-- 
2.43.0


From 714e3cd15db9fee6c05fdc547f481f2937311992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 45/54] fix: cvector: deserialize() accepted malformed full
 blocks

Only the last partial block was checked: a malformed full block was stored as
is, and the process was aborted on the first access to one of its elements.
---
 stenos/cvector.hpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index be05933..73d79fb 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1475,6 +1475,13 @@ namespace stenos
 				stenos_destroy_context(d_ctx);
 			}
 
+			/// @brief Check that given compressed block can be decompressed, using a free decompression context. Might throw.
+			bool check_block(const void* block, size_t bytes)
+			{
+				RawType* raw = make_or_find_free_context();
+				return stenos_private_decompress_block(d_ctx, block, sizeof(T), block_bytes, bytes, raw->storage, block_bytes) == block_bytes;
+			}
+
 			/// @brief Deallocate compressed memory for given bucket
 			void dealloc_bucket(size_t index) noexcept
 			{
@@ -3113,6 +3120,9 @@ namespace stenos
 					return bsize;
 				if STENOS_UNLIKELY (src + bsize > src_end)
 					return STENOS_ERROR_SRC_OVERFLOW;
+				// might throw, fine
+				if STENOS_UNLIKELY (!d_data->check_block(src, bsize))
+					return STENOS_ERROR_INVALID_INPUT;
 
 				// might throw, fine
 				char* data = al.allocate(bsize);
@@ -3325,13 +3335,17 @@ namespace stenos
 			iss.seekg(-4, std::ios::cur);
 			// might throw, fine
 			char* data = al.allocate(bsize);
-			iss.read(data, bsize);
-			if STENOS_UNLIKELY (!iss) {
-				al.deallocate(data, bsize);
-				return STENOS_ERROR_SRC_OVERFLOW;
-			}
-
 			try {
+				iss.read(data, bsize);
+				if STENOS_UNLIKELY (!iss) {
+					al.deallocate(data, bsize);
+					return STENOS_ERROR_SRC_OVERFLOW;
+				}
+				if STENOS_UNLIKELY (!d_data->check_block(data, bsize)) {
+					al.deallocate(data, bsize);
+					return STENOS_ERROR_INVALID_INPUT;
+				}
+
 				d_data->d_buckets.push_back(bucket_type());
 			}
 			catch (...) {
-- 
2.43.0


From 874b03dda7fc033002cca834b35fa05cb2a0e70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 46/54] fix: cvector: members and iterators that could not be
 instantiated

front_size(), back_size(), compression_ratio(), insert(pos, count, value),
assignment between references of two iterators (std::copy), assignment from a
value_type of the iterator, iterator::operator->, dereferencing a
const_reverse_iterator and moving an istreambuf_iterator did not compile.
---
 stenos/cvector.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 73d79fb..6c0dac8 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -960,6 +960,7 @@ namespace stenos
 				}
 				return *this;
 			}
+			STENOS_ALWAYS_INLINE auto operator=(const RefWrapper& other) -> RefWrapper& { return *this = static_cast<const base_type&>(other); }
 			STENOS_ALWAYS_INLINE auto operator=(RefWrapper&& other) -> RefWrapper&
 			{
 				if STENOS_LIKELY (std::addressof(other) != this) {
@@ -984,7 +985,7 @@ namespace stenos
 			}
 			STENOS_ALWAYS_INLINE auto operator=(const ValueWrapper<T>& other) -> RefWrapper&
 			{
-				set(other.value);
+				set(other.get());
 				return *this;
 			}
 			STENOS_ALWAYS_INLINE auto operator=(ValueWrapper<T>&& other) -> RefWrapper&
@@ -1101,7 +1102,7 @@ namespace stenos
 		public:
 			using T = typename Compressed::value_type;
 			using value_type = ValueWrapper<T>;
-			using reference = ref_type;
+			using reference = const_ref_type&;
 			using const_reference = const_ref_type&;
 			using pointer = const T*;
 			using const_pointer = const T*;
@@ -1249,7 +1250,7 @@ namespace stenos
 				return *this;
 			}
 			STENOS_ALWAYS_INLINE auto operator*() const noexcept -> reference { return reinterpret_cast<reference>(const_cast<this_type*>(this)->base_type::operator*()); }
-			STENOS_ALWAYS_INLINE auto operator->() const noexcept -> const_pointer { return base_type::operator->(); }
+			STENOS_ALWAYS_INLINE auto operator->() const noexcept -> typename base_type::const_pointer { return base_type::operator->(); }
 			STENOS_ALWAYS_INLINE auto operator++() noexcept -> CompressedIter&
 			{
 				base_type::operator++();
@@ -1568,7 +1569,7 @@ namespace stenos
 			STENOS_ALWAYS_INLINE auto back_size() const noexcept -> size_t
 			{
 				if (d_buckets.size()) {
-					if (d_buckets.back().buffer)
+					if (d_buckets.back().data.compressed())
 						return static_cast<size_t>(elems_per_block);
 					return static_cast<size_t>(d_buckets.back().load_decompressed()->size);
 				}
@@ -1579,7 +1580,7 @@ namespace stenos
 			STENOS_ALWAYS_INLINE auto front_size() const noexcept -> size_t
 			{
 				if (d_buckets.size()) {
-					if (d_buckets.front().buffer)
+					if (d_buckets.front().data.compressed())
 						return static_cast<size_t>(elems_per_block);
 					return static_cast<size_t>(d_buckets.size() > 1 ? block_size : d_buckets.front().load_decompressed()->size);
 				}
@@ -1598,8 +1599,7 @@ namespace stenos
 				decompressed_size *= block_size * sizeof(T);
 				size_t compress_size = 0;
 				for (size_t i = 0; i < d_buckets.size(); ++i)
-					if (d_buckets[i].buffer)
-						compress_size += stenos_private_block_csize(d_buckets[i].data.find_compressed());
+					compress_size += stenos_private_block_csize(d_buckets[i].data.find_compressed());
 				return (compress_size && decompressed_size) ? decompressed_size / static_cast<float>(compress_size) : 0.f;
 			}
 
@@ -2765,7 +2765,7 @@ namespace stenos
 
 		/// @brief Inserts count copies of the value before pos
 		/// Basic exception guarantee.
-		void insert(size_type pos, size_type count, const T& value) { insert(pos, cvalue_iterator<T>(0, value), cvalue_iterator<T>(count, value)); }
+		void insert(size_type pos, size_type count, const T& value) { insert(cbegin() + static_cast<difference_type>(pos), count, value); }
 
 		/// @brief Inserts count copies of the value before pos
 		/// @return Iterator pointing to the first element inserted, or it if count==0
@@ -3433,7 +3433,7 @@ namespace stenos
 		}
 
 		istreambuf_iterator(istreambuf_iterator&& other) noexcept
-		  : d_in(&other.d_in)
+		  : d_in(other.d_in)
 		  , d_has_value(other.d_has_value)
 		{
 			if (d_has_value)
-- 
2.43.0


From a449d947d471e06e15cd62efa97caf09d1cfd5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:54 +0000
Subject: [PATCH 47/54] fix: cvector: copying a const reference wrapper by
 assignment unbalanced the bucket reference counts

The implicit copy assignment retargeted the wrapper without releasing its
bucket nor acquiring the new one, which was then released twice.
---
 stenos/cvector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 6c0dac8..f5af1c0 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -877,6 +877,8 @@ namespace stenos
 			{
 				_bucket()->ref();
 			}
+			// The reference count of the bucket belongs to the wrapper
+			ConstRefWrapper& operator=(const ConstRefWrapper& other) = delete;
 			STENOS_ALWAYS_INLINE ~ConstRefWrapper() noexcept { _bucket()->unref(); }
 
 			STENOS_ALWAYS_INLINE auto bucket_index() const noexcept -> size_t { return bucket; }
-- 
2.43.0


From ea3673b3ddf104df6b8fdacc7cb52b3a8b9eace6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:54 +0000
Subject: [PATCH 48/54] fix: cvector: a const_iterator was implicitly converted
 to an iterator

Elements of a const vector could be modified through the converted iterator.
---
 stenos/cvector.hpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index f5af1c0..270a7e1 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1234,10 +1234,6 @@ namespace stenos
 			  : base_type()
 			{
 			}
-			STENOS_ALWAYS_INLINE CompressedIter(const base_type& other) noexcept
-			  : base_type(other)
-			{
-			}
 			STENOS_ALWAYS_INLINE CompressedIter(const CompressedIter& other) noexcept
 			  : base_type(other)
 			{
@@ -2128,27 +2124,26 @@ namespace stenos
 			}
 
 			/// @brief Erase range
-			auto erase(const_iterator first, const_iterator last) -> const_iterator
+			auto erase(const_iterator first, const_iterator last) -> iterator
 			{
 				STENOS_ASSERT_DEBUG(last >= first && first >= const_iterator(this, 0) && last <= const_iterator(this, size()), "cvector erase iterator outside range");
+				difference_type off = first - const_iterator(this, 0);
 				if (first == last)
-					return last;
+					return iterator(this, 0) + off;
 
-				difference_type off = first - const_iterator(this, 0);
 				size_t count = static_cast<size_t>(last - first);
 
-				auto it = iterator(first);
-				std::move(iterator(last), iterator(this, size()), iterator(first));
+				std::move(iterator(this, 0) + (off + static_cast<difference_type>(count)), iterator(this, size()), iterator(this, 0) + off);
 				if (count == 1)
 					pop_back();
 				else
 					resize(size() - count);
 
-				return const_iterator(this, 0) + off;
+				return iterator(this, 0) + off;
 			}
 
 			/// @brief Erase middle
-			auto erase(const_iterator pos) -> const_iterator { return erase(pos, pos + 1); }
+			auto erase(const_iterator pos) -> iterator { return erase(pos, pos + 1); }
 
 			/// @brief Insert middle
 			template<class... Args>
-- 
2.43.0


From 7d53bdeca55141deb32d1ee5d1ebdda04909e8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:54 +0000
Subject: [PATCH 49/54] fix: cvector: reverse iterators returned a reference
 into a destroyed iterator

A cvector iterator holds the reference wrapper it returns, and
std::reverse_iterator dereferences a local copy of its iterator.
---
 stenos/cvector.hpp | 65 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 63 insertions(+), 2 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 270a7e1..c018afb 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1340,6 +1340,67 @@ namespace stenos
 			return a.abspos >= b.abspos;
 		}
 
+		/// @brief reverse iterator type for cvector.
+		/// The wrapper returned by a cvector iterator belongs to this iterator, while std::reverse_iterator
+		/// dereferences a local copy of its iterator. Therefore keep the last dereferenced iterator.
+		template<class Iter>
+		class CompressedReverseIter : public std::reverse_iterator<Iter>
+		{
+			using base_type = std::reverse_iterator<Iter>;
+			mutable Iter d_last;
+
+		public:
+			using reference = typename base_type::reference;
+			using difference_type = typename base_type::difference_type;
+
+			CompressedReverseIter() = default;
+			explicit CompressedReverseIter(const Iter& it) noexcept
+			  : base_type(it)
+			{
+			}
+			template<class Other, typename std::enable_if<std::is_convertible<Other, Iter>::value, bool>::type = true>
+			CompressedReverseIter(const CompressedReverseIter<Other>& it) noexcept
+			  : base_type(it.base())
+			{
+			}
+			CompressedReverseIter(const CompressedReverseIter&) = default;
+			CompressedReverseIter& operator=(const CompressedReverseIter&) = default;
+
+			auto operator*() const noexcept -> reference
+			{
+				d_last = this->base();
+				return *--d_last;
+			}
+			auto operator->() const noexcept { return (operator*(), d_last.operator->()); }
+			auto operator++() noexcept -> CompressedReverseIter& { return *this += 1; }
+			auto operator--() noexcept -> CompressedReverseIter& { return *this -= 1; }
+			auto operator++(int) noexcept -> CompressedReverseIter
+			{
+				CompressedReverseIter tmp = *this;
+				++(*this);
+				return tmp;
+			}
+			auto operator--(int) noexcept -> CompressedReverseIter
+			{
+				CompressedReverseIter tmp = *this;
+				--(*this);
+				return tmp;
+			}
+			auto operator+=(difference_type diff) noexcept -> CompressedReverseIter&
+			{
+				base_type::operator+=(diff);
+				return *this;
+			}
+			auto operator-=(difference_type diff) noexcept -> CompressedReverseIter&
+			{
+				base_type::operator-=(diff);
+				return *this;
+			}
+			auto operator+(difference_type diff) const noexcept -> CompressedReverseIter { return CompressedReverseIter(this->base() - diff); }
+			auto operator-(difference_type diff) const noexcept -> CompressedReverseIter { return CompressedReverseIter(this->base() + diff); }
+			auto operator[](difference_type diff) const noexcept { return this->base()[-diff - 1]; }
+		};
+
 		template<unsigned block_bytes>
 		static STENOS_ALWAYS_INLINE void* get_compression_buffer() noexcept
 		{
@@ -2452,8 +2513,8 @@ namespace stenos
 		using allocator_type = Allocator;
 		using iterator = typename internal_type::iterator;
 		using const_iterator = typename internal_type::const_iterator;
-		using reverse_iterator = std::reverse_iterator<iterator>;
-		using const_reverse_iterator = std::reverse_iterator<const_iterator>;
+		using reverse_iterator = detail::CompressedReverseIter<iterator>;
+		using const_reverse_iterator = detail::CompressedReverseIter<const_iterator>;
 		using lock_type = detail::SharedSpinner;
 
 		// Value type returned by at() and operator[]
-- 
2.43.0


From 71dcf7dff1fae8019d93f1336703aab2d9d0013f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:41 +0000
Subject: [PATCH 50/54] fix: cvector: for_each() gave a copy of each element to
 functors that return a value

The modifications were lost, and a functor taking a reference did not compile.
---
 stenos/cvector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index c018afb..7e54126 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -409,7 +409,7 @@ namespace stenos
 		struct ResultOf
 		{
 			template<class F, class... Args>
-			static STENOS_ALWAYS_INLINE bool apply(F&& f, Args... args)
+			static STENOS_ALWAYS_INLINE bool apply(F&& f, Args&&... args)
 			{
 				return std::forward<F>(f)(std::forward<Args>(args)...);
 			}
-- 
2.43.0


From 5acdfa3442a0283fe7c78e2efb1a0b9cae8c0597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:59 +0000
Subject: [PATCH 51/54] fix: cvector: element accesses that need memory were
 declared noexcept

Accessing an element decompresses its bucket, which allocates: a failed
allocation terminated the process instead of reaching the caller.
---
 stenos/cvector.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 7e54126..f559bb9 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -784,7 +784,7 @@ namespace stenos
 			template<class C>
 			ValueWrapper(const ConstRefWrapper<C>& v);
 			template<class C>
-			ValueWrapper(RefWrapper<C>&& v) noexcept;
+			ValueWrapper(RefWrapper<C>&& v);
 
 			STENOS_ALWAYS_INLINE ValueWrapper& operator=(const T& v)
 			{
@@ -809,7 +809,7 @@ namespace stenos
 			template<class C>
 			ValueWrapper& operator=(const ConstRefWrapper<C>& v);
 			template<class C>
-			ValueWrapper& operator=(RefWrapper<C>&& v) noexcept;
+			ValueWrapper& operator=(RefWrapper<C>&& v);
 
 			STENOS_ALWAYS_INLINE const T& get() const { return value; }
 			STENOS_ALWAYS_INLINE operator T&() noexcept { return value; }
@@ -928,7 +928,7 @@ namespace stenos
 			}
 			STENOS_ALWAYS_INLINE RefWrapper(const RefWrapper& other) noexcept = default;
 
-			STENOS_ALWAYS_INLINE auto move() noexcept -> T&&
+			STENOS_ALWAYS_INLINE auto move() -> T&&
 			{
 				auto raw = this->decompress_if_needed();
 				if (!std::is_trivially_move_assignable<T>::value)
@@ -1015,7 +1015,7 @@ namespace stenos
 		}
 		template<class T>
 		template<class C>
-		STENOS_ALWAYS_INLINE ValueWrapper<T>::ValueWrapper(RefWrapper<C>&& v) noexcept
+		STENOS_ALWAYS_INLINE ValueWrapper<T>::ValueWrapper(RefWrapper<C>&& v)
 		  : value(std::move(v.move()))
 		{
 		}
@@ -1029,7 +1029,7 @@ namespace stenos
 		}
 		template<class T>
 		template<class C>
-		STENOS_ALWAYS_INLINE ValueWrapper<T>& ValueWrapper<T>::operator=(RefWrapper<C>&& v) noexcept
+		STENOS_ALWAYS_INLINE ValueWrapper<T>& ValueWrapper<T>::operator=(RefWrapper<C>&& v)
 		{
 			value = std::move(v.move());
 			return *this;
@@ -1038,13 +1038,13 @@ namespace stenos
 		// Overload swap function for RefWrapper
 
 		template<class Compressed>
-		STENOS_ALWAYS_INLINE void swap(RefWrapper<Compressed>&& a, RefWrapper<Compressed>&& b) noexcept
+		STENOS_ALWAYS_INLINE void swap(RefWrapper<Compressed>&& a, RefWrapper<Compressed>&& b)
 		{
 			using wrapper = RefWrapper<Compressed>;
 			const_cast<wrapper&>(a).swap(const_cast<wrapper&>(b));
 		}
 		template<class Compressed>
-		STENOS_ALWAYS_INLINE void swap(RefWrapper<Compressed>& a, RefWrapper<Compressed>& b) noexcept
+		STENOS_ALWAYS_INLINE void swap(RefWrapper<Compressed>& a, RefWrapper<Compressed>& b)
 		{
 			(a).swap((b));
 		}
@@ -1183,7 +1183,7 @@ namespace stenos
 					new (as_ref()) const_ref_type(c()->cat(static_cast<size_t>(abspos)));
 				return *as_ref();
 			}
-			STENOS_ALWAYS_INLINE auto operator->() const noexcept -> const T* { return &((operator*()).get()); }
+			STENOS_ALWAYS_INLINE auto operator->() const -> const T* { return &((operator*()).get()); }
 			STENOS_ALWAYS_INLINE auto operator+=(difference_type diff) noexcept -> CompressedConstIter&
 			{
 				this->abspos += diff;
@@ -1248,7 +1248,7 @@ namespace stenos
 				return *this;
 			}
 			STENOS_ALWAYS_INLINE auto operator*() const noexcept -> reference { return reinterpret_cast<reference>(const_cast<this_type*>(this)->base_type::operator*()); }
-			STENOS_ALWAYS_INLINE auto operator->() const noexcept -> typename base_type::const_pointer { return base_type::operator->(); }
+			STENOS_ALWAYS_INLINE auto operator->() const -> typename base_type::const_pointer { return base_type::operator->(); }
 			STENOS_ALWAYS_INLINE auto operator++() noexcept -> CompressedIter&
 			{
 				base_type::operator++();
@@ -1371,7 +1371,7 @@ namespace stenos
 				d_last = this->base();
 				return *--d_last;
 			}
-			auto operator->() const noexcept { return (operator*(), d_last.operator->()); }
+			auto operator->() const { return (operator*(), d_last.operator->()); }
 			auto operator++() noexcept -> CompressedReverseIter& { return *this += 1; }
 			auto operator--() noexcept -> CompressedReverseIter& { return *this -= 1; }
 			auto operator++(int) noexcept -> CompressedReverseIter
@@ -3265,7 +3265,7 @@ namespace std
 	///////////////////////////
 
 	template<class Compress>
-	STENOS_ALWAYS_INLINE typename Compress::value_type move(stenos::detail::RefWrapper<Compress>& other) noexcept
+	STENOS_ALWAYS_INLINE typename Compress::value_type move(stenos::detail::RefWrapper<Compress>& other)
 	{
 		return stenos_detail::MoveObject<typename Compress::value_type>::apply(other.move());
 	}
-- 
2.43.0


From 54fcbd513865aa94a6b2bd32efb4e2c6bbcb3533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:30 +0000
Subject: [PATCH 52/54] fix: cvector: a thread holding a bucket could deadlock
 with a waiting writer

lock_shared() waited for any waiting writer. When the thread already holds the same bucket in shared mode (nested const_for_each(),
two references into the same bucket), the writer itself waits for this thread: both waited forever. Give priority to writers for a while only.
---
 stenos/cvector.hpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index f559bb9..7dabd6c 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -332,6 +332,7 @@ namespace stenos
 			static constexpr lock_type need_lock = 2;
 			static constexpr lock_type read = 4;
 			static constexpr lock_type max_read_mask = 1ull << (sizeof(lock_type) * 8u - 1u);
+			static constexpr unsigned max_attempts = 32;
 
 			bool failed_lock(lock_type& expect) noexcept
 			{
@@ -347,6 +348,13 @@ namespace stenos
 				}
 				return true;
 			}
+			STENOS_ALWAYS_INLINE bool try_lock_shared(lock_type writers) noexcept
+			{
+				// This version might be slightly slower in some situations (low concurrency).
+				// However it works for very small lock type (like uint8_t) by avoiding overflows.
+				lock_type content = d_lock.load(std::memory_order_relaxed);
+				return (!(content & (writers | write | max_read_mask)) && d_lock.compare_exchange_strong(content, content + read));
+			}
 
 			std::atomic<lock_type> d_lock;
 
@@ -378,8 +386,13 @@ namespace stenos
 			}
 			STENOS_ALWAYS_INLINE void lock_shared() noexcept
 			{
-				while (!try_lock_shared())
+				// Give priority to waiting writers, but for a while only: if this thread already
+				// holds the lock in shared mode (on this or another bucket), the writer waits for it.
+				unsigned attempts = 0;
+				while (!try_lock_shared(attempts < max_attempts ? need_lock : 0)) {
+					++attempts;
 					std::this_thread::yield();
+				}
 			}
 			STENOS_ALWAYS_INLINE void unlock_shared() noexcept
 			{
@@ -394,13 +407,7 @@ namespace stenos
 				lock_type expect = 0;
 				return d_lock.compare_exchange_strong(expect, write, std::memory_order_acq_rel);
 			}
-			STENOS_ALWAYS_INLINE bool try_lock_shared() noexcept
-			{
-				// This version might be slightly slower in some situations (low concurrency).
-				// However it works for very small lock type (like uint8_t) by avoiding overflows.
-				lock_type content = d_lock.load(std::memory_order_relaxed);
-				return (!(content & (need_lock | write | max_read_mask)) && d_lock.compare_exchange_strong(content, content + read));
-			}
+			STENOS_ALWAYS_INLINE bool try_lock_shared() noexcept { return try_lock_shared(need_lock); }
 
 			STENOS_ALWAYS_INLINE lock_type value() const noexcept { return d_lock.load(); }
 		};
-- 
2.43.0


From 90c548dded4093ddae1faf81453586ef14c92c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:26 +0000
Subject: [PATCH 53/54] fix: unshuffle of 12-byte elements with SSE2 stored the
 wrong bytes of the last element

The store mask of unshuffle12_sse2 selected bytes 4..15 of the last vector
instead of bytes 0..11: the last four bytes of the last element of each group
were garbage and 4 bytes past the block were written.
---
 stenos/internal/shuffle-sse2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/shuffle-sse2.cpp b/stenos/internal/shuffle-sse2.cpp
index 9644f40..fb64915 100644
--- a/stenos/internal/shuffle-sse2.cpp
+++ b/stenos/internal/shuffle-sse2.cpp
@@ -378,7 +378,7 @@ static void unshuffle12_sse2(uint8_t* const dest, const uint8_t* const src, cons
 	int j;
 	__m128i xmm1[16], xmm2[16];
 
-	__m128i mask = setr_epi8(0x0, 0x0, 0x0, 0x0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff);
+	__m128i mask = setr_epi8(0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x0, 0x0, 0x0, 0x0);
 
 	for (i = 0; i < vectorizable_elements; i += sizeof(__m128i)) {
 		/* Load 16 elements (256 bytes) into 16 XMM registers. */
-- 
2.43.0


From adc423dd69c7ebecd964abfb0a97fb8b74268f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:22 +0000
Subject: [PATCH 54/54] fix: the padding of a partial block overflowed the
 compression buffer for elements of 19 bytes and more

---
 stenos/internal/block_compress.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index d78f351..ada4742 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -319,15 +319,15 @@ namespace stenos
 				buffer = align_buffer(buffer);
 				this->arrays = reinterpret_cast<vector256*>(buffer);
 				this->partial_buffer = static_cast<char*>(buffer) + 256 * bytesoftype;
-				this->packs = reinterpret_cast<PackBits*>(static_cast<char*>(buffer) + 256 * bytesoftype + 256);
-				this->firsts = (static_cast<char*>(buffer) + 256 * bytesoftype + 256 + sizeof(PackBits) * bytesoftype);
+				this->packs = reinterpret_cast<PackBits*>(static_cast<char*>(buffer) + 256 * bytesoftype + 256 * bytesoftype);
+				this->firsts = (static_cast<char*>(buffer) + 256 * bytesoftype + 256 * bytesoftype + sizeof(PackBits) * bytesoftype);
 			}
 		};
 
 		// Size of internal compression buffer for given bytesoftype
 		static STENOS_ALWAYS_INLINE size_t compression_buffer_size(size_t bytesoftype) noexcept
 		{
-			return 256 * bytesoftype + 256 + sizeof(PackBits) * bytesoftype + bytesoftype + 16; // Add 16 for alignment
+			return 256 * bytesoftype + 256 * bytesoftype + sizeof(PackBits) * bytesoftype + bytesoftype + 16; // Add 16 for alignment
 		}
 
 		// Bit scan reverse on 2 * 16 bytes
-- 
2.43.0

