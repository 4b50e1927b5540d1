From 5321be2689a0737a19be7aba637c6a587780f73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:52 +0000
Subject: [PATCH 01/28] fix: EncodeBrunsli: treat a short write of the sink as
 an error

The documented contract says any return value not equal to the input size
is an error; only 0 was.
---
 c/enc/encode.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/enc/encode.cc b/c/enc/encode.cc
index 944641e..3cec696 100644
--- a/c/enc/encode.cc
+++ b/c/enc/encode.cc
@@ -28,8 +28,8 @@ int EncodeBrunsli(size_t insize, const unsigned char* in, void* outdata,
     return 0;
   }
   output.resize(output_size);
-  if (!outfun(outdata, reinterpret_cast<const unsigned char*>(output.data()),
-      output.size())) {
+  if (outfun(outdata, reinterpret_cast<const unsigned char*>(output.data()),
+      output.size()) != output.size()) {
     return 0;
   }
   return 1;  /* ok */
-- 
2.43.0


From 214878e998af71e59843e2ddf01f751275a63249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:52 +0000
Subject: [PATCH 02/28] fix: BrunsliEstimateDecoderPeakMemoryUsage: return 0 if
 there is no data

It returned a status code, where 0 is documented to mean failure.
---
 c/dec/brunsli_decode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index 2f96aa4..0b8f605 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -2469,7 +2469,7 @@ BrunsliStatus BrunsliDecodeJpeg(const uint8_t* data, const size_t len,
 
 size_t BrunsliEstimateDecoderPeakMemoryUsage(const uint8_t* data,
                                              const size_t len) {
-  if (!data) return BRUNSLI_INVALID_PARAM;
+  if (!data) return 0;
 
   State state;
   state.data = data;
-- 
2.43.0


From b24bc8b4fc750263046a31375ff31be5b6280c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:52 +0000
Subject: [PATCH 03/28] fix: decoder: reject a known header value that is
 stored as a section

The failure was recorded, but not returned; decoding went on with the value
of the missing item left at zero.
---
 c/dec/brunsli_decode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index 0b8f605..06a402e 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -1146,7 +1146,7 @@ Stage DecodeHeader(State* state, JPEGData* jpg) {
         const uint32_t tag_bit = 1u << hs.section.tag;
         if (hs.section.is_section) {
           if (kKnownHeaderVarintTags & tag_bit) {
-            Fail(state, BRUNSLI_INVALID_BRN);
+            return Fail(state, BRUNSLI_INVALID_BRN);
           }
           hs.stage = HeaderState::ITEM_ENTER_SECTION;
           break;
-- 
2.43.0


From 31092bc7964439cac2b91091adffd6f899d6099b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 04/28] fix: streaming decoder: output bypassed JPEG as soon as
 it is complete

Decode returned NEEDS_MORE_OUTPUT without having used the output space it
was given (and tripped over its own BRUNSLI_DCHECK).
---
 c/dec/jpeg_data_writer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/dec/jpeg_data_writer.cc b/c/dec/jpeg_data_writer.cc
index de6304c..3dad8e3 100644
--- a/c/dec/jpeg_data_writer.cc
+++ b/c/dec/jpeg_data_writer.cc
@@ -1022,6 +1022,7 @@ SerializationStatus SerializeJpeg(State* state, const JPEGData& jpg,
           //               file is passed to parser, but it is impossible to
           //               push complete output.
           ss.output_queue.emplace_back(jpg.original_jpg, jpg.original_jpg_size);
+          maybe_push_output();
           ss.stage = SerializationState::DONE;
           break;
         }
-- 
2.43.0


From f6b710161734fd4816d616cf926e4c4fbe9ad160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 05/28] fix: JPEG writer: accept an empty bypass payload

BrunsliEncodeJpegBypass and the decoder accept it, but the writer failed,
so the stream could not be turned back into the (empty) original.
---
 c/dec/jpeg_data_writer.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/c/dec/jpeg_data_writer.cc b/c/dec/jpeg_data_writer.cc
index 3dad8e3..c616fcc 100644
--- a/c/dec/jpeg_data_writer.cc
+++ b/c/dec/jpeg_data_writer.cc
@@ -1014,15 +1014,19 @@ SerializationStatus SerializeJpeg(State* state, const JPEGData& jpg,
         }
         // JpegBypass is a very simple / special case.
         if (jpg.version == kFallbackVersion) {
-          if (jpg.original_jpg == nullptr) {
+          if (jpg.original_jpg == nullptr && jpg.original_jpg_size != 0) {
             ss.stage = SerializationState::ERROR;
             break;
           }
           // TODO(eustas): investigate if bad things can happen when complete
           //               file is passed to parser, but it is impossible to
           //               push complete output.
-          ss.output_queue.emplace_back(jpg.original_jpg, jpg.original_jpg_size);
-          maybe_push_output();
+          // Edge case - empty payload.
+          if (jpg.original_jpg_size != 0) {
+            ss.output_queue.emplace_back(jpg.original_jpg,
+                                         jpg.original_jpg_size);
+            maybe_push_output();
+          }
           ss.stage = SerializationState::DONE;
           break;
         }
-- 
2.43.0


From 08dd0b069827ef795487e747b179a29b716a4264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 06/28] fix: streaming decoder: copy bypassed JPEG instead of
 referring to consumed input

When the whole payload arrived in one call, the decoder kept a pointer to
the input that it had reported as consumed, and read it in later calls.
---
 c/dec/brunsli_decode.cc | 3 ++-
 c/dec/state_internal.h  | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index 06a402e..6b6be5d 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -2013,7 +2013,7 @@ static Stage DecodeOriginalJpg(State* state, JPEGData* jpg) {
         }
         // Check if it is possible to avoid copy.
         const uint8_t* src = state->data + state->pos;
-        if (fs.storage.empty()) {
+        if (fs.storage.empty() && !fs.copy_contents) {
           if (chunk_size >= jpg->original_jpg_size) {
             jpg->original_jpg = src;
             SkipBytes(state, jpg->original_jpg_size);
@@ -2502,6 +2502,7 @@ size_t BrunsliEstimateDecoderPeakMemoryUsage(const uint8_t* data,
 BrunsliDecoder::BrunsliDecoder() {
   jpg_.reset(new JPEGData);
   state_.reset(new State);
+  state_->internal->fallback.copy_contents = true;
 }
 
 BrunsliDecoder::~BrunsliDecoder() {}
diff --git a/c/dec/state_internal.h b/c/dec/state_internal.h
index eabf543..b74f054 100644
--- a/c/dec/state_internal.h
+++ b/c/dec/state_internal.h
@@ -115,6 +115,9 @@ struct FallbackState {
 
   size_t stage = READ_TAG;
 
+  // Never refer to the input, as it does not outlive the call (streaming).
+  bool copy_contents = false;
+
   // Storage for original JPEG contents.
   std::vector<uint8_t> storage;
 };
-- 
2.43.0


From 985036dc4d1c24a8bd9785b67146a6cc125d8be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:20 +0000
Subject: [PATCH 07/28] fix: streaming decoder: do not start output before DC
 contents

The serializer was started as soon as the tag of DC (or AC) section was met,
i.e. before it is known that the sections it depends on are in place. With an
out-of-order stream that caused access to not allocated coefficients; metadata
that follows DC was ignored, if input was supplied in small portions.
---
 c/dec/jpeg_data_writer.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/c/dec/jpeg_data_writer.cc b/c/dec/jpeg_data_writer.cc
index c616fcc..edec7d7 100644
--- a/c/dec/jpeg_data_writer.cc
+++ b/c/dec/jpeg_data_writer.cc
@@ -1003,10 +1003,12 @@ SerializationStatus SerializeJpeg(State* state, const JPEGData& jpg,
       case SerializationState::INIT: {
         // If parsing is complete, serialization is possible.
         bool can_start_serialization = (state->stage == Stage::DONE);
-        // Parsing of AC/DC has started; i.e. quant/huffman/metadata is ready
-        // to be used.
-        if (HasSection(state, kBrunsliDCDataTag) ||
-            HasSection(state, kBrunsliACDataTag)) {
+        // Parsing of DC contents has started; i.e. quant/huffman is ready to be
+        // used and storage for coefficients is allocated. Metadata might follow
+        // DC, but not AC.
+        if (state->internal->is_meta_warm &&
+            (HasSection(state, kBrunsliMetaDataTag) ||
+             HasSection(state, kBrunsliACDataTag))) {
           can_start_serialization = true;
         }
         if (!can_start_serialization) {
-- 
2.43.0


From c83d4673f10e640d7dcc1ffde2e054acd06d0f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:03 +0000
Subject: [PATCH 08/28] fix: streaming decoder: report DONE only when all the
 sections are parsed

The image without AC scans is serialized before AC section is parsed. DONE was
reported at that point: truncated AC section was not noticed, and the rest of
the input was left unprocessed.
---
 c/dec/brunsli_decode.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index 6b6be5d..89a30d1 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -2540,8 +2540,8 @@ BrunsliDecoder::Status BrunsliDecoder::Decode(size_t* available_in,
 
   switch (serialization_status) {
     case SerializationStatus::DONE:
-      // Should be impossible to finish serialization without finishing parsing.
-      BRUNSLI_DCHECK(parse_status == BRUNSLI_OK);
+      // JPEG without AC scans is complete before AC section is parsed.
+      if (parse_status != BRUNSLI_OK) return BrunsliDecoder::NEEDS_MORE_INPUT;
       return BrunsliDecoder::DONE;
 
     case SerializationStatus::NEEDS_MORE_INPUT:
-- 
2.43.0


From b5e01b0b3347e5fa4b98ebfb23b34a7d0aa1825d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:14 +0000
Subject: [PATCH 09/28] fix: streaming decoder: reject garbage that is not
 visible in internal buffer

If stream ends exactly at the end of the (buffered + borrowed) window, then
Decode reported DONE despite the unprocessed rest of input.
---
 c/dec/brunsli_decode.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index 89a30d1..f6928c2 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -2450,6 +2450,11 @@ BrunsliStatus ProcessJpeg(State* state, JPEGData* jpg) {
     if (!UnloadInput(state, result)) break;
   }
   UnchargeBuffer(state);
+  // Only a part of input might have been visible to parser.
+  if (result == BRUNSLI_OK && state->pos != state->len) {
+    result = BRUNSLI_INVALID_BRN;
+    state->stage = Fail(state, result);
+  }
   return result;
 }
 
-- 
2.43.0


From 50d87e5f871169911d533a16aff720e4df18ccb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 10/28] fix: GetMaximumBrunsliEncodedSize: use correct bound
 for block size

High-entropy coefficients take up to 96 bytes per block (not 82). For big images
the difference exceeded the slack, and encoder wrote past the end of the
buffer of the suggested size.
---
 c/enc/brunsli_encode.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/enc/brunsli_encode.cc b/c/enc/brunsli_encode.cc
index 0f991e7..35acd01 100644
--- a/c/enc/brunsli_encode.cc
+++ b/c/enc/brunsli_encode.cc
@@ -80,8 +80,9 @@ size_t GetMaximumBrunsliEncodedSize(const JPEGData& jpg) {
   for (const auto& component : jpg.components) {
     num_blocks += component.num_blocks;
   }
-  // Currently established upper bound is 82 bytes per block.
-  constexpr size_t kBytesPerBlock = 82 + 2;
+  // JPEG coefficients carry up to 12 bits each, i.e. 96 bytes per block; the
+  // rest covers entropy coding overhead.
+  constexpr size_t kBytesPerBlock = 96 + 8;
   size_t entropy_size = num_blocks * kBytesPerBlock;
   return entropy_size + hdr_size;
 }
-- 
2.43.0


From d779cffb8af8caf89247bff54cf478614eceb6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:55 +0000
Subject: [PATCH 11/28] fix: encoder: never write past the end of the output
 buffer

If output buffer was smaller than GetMaximumBrunsliEncodedSize, then encoder
either wrote past the end of it, or aborted. Now it returns false, unless
output fits.
---
 c/enc/brunsli_encode.cc | 46 ++++++++++++++++++++++++++++++++++-------
 c/enc/state.h           |  2 +-
 2 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/c/enc/brunsli_encode.cc b/c/enc/brunsli_encode.cc
index 35acd01..7322f7a 100644
--- a/c/enc/brunsli_encode.cc
+++ b/c/enc/brunsli_encode.cc
@@ -693,7 +693,7 @@ void DataStream::AddBit(Prob* const p, int bit) {
   }
 }
 
-void DataStream::EncodeCodeWords(EntropyCodes* s, Storage* storage) {
+bool DataStream::EncodeCodeWords(EntropyCodes* s, Storage* storage) {
   FlushBitWriter();
   FlushArithmeticCoder();
   ANSCoder ans;
@@ -706,6 +706,11 @@ void DataStream::EncodeCodeWords(EntropyCodes* s, Storage* storage) {
     }
   }
   const uint32_t state = ans.GetState();
+  size_t num_words = 2;
+  for (int i = 0; i < pos_; ++i) {
+    if (code_words_[i].nbits) ++num_words;
+  }
+  if (storage->length < 2 * num_words) return false;
   uint16_t* out = reinterpret_cast<uint16_t*>(storage->data);
   const uint16_t* out_start = out;
   // Mixed-endian for historical reasons.
@@ -718,6 +723,7 @@ void DataStream::EncodeCodeWords(EntropyCodes* s, Storage* storage) {
     }
   }
   storage->pos += (out - out_start) * 16;
+  return true;
 }
 
 void EncodeNumNonzeros(size_t val, Prob* p, DataStream* data_stream) {
@@ -824,12 +830,16 @@ bool EncodeHeader(const JPEGData& jpg, State* state, uint8_t* data,
   size_t version_comp = (jpg.components.size() - 1) | (version << 2);
   size_t subsampling = FrameTypeCode(jpg);
 
+  // Each value takes up to 1 + 10 bytes.
+  uint8_t header[44];
   size_t pos = 0;
-  EncodeValue(kBrunsliHeaderWidthTag, jpg.width, data, &pos);
-  EncodeValue(kBrunsliHeaderHeightTag, jpg.height, data, &pos);
-  EncodeValue(kBrunsliHeaderVersionCompTag, version_comp, data, &pos);
-  EncodeValue(kBrunsliHeaderSubsamplingTag, subsampling, data, &pos);
+  EncodeValue(kBrunsliHeaderWidthTag, jpg.width, header, &pos);
+  EncodeValue(kBrunsliHeaderHeightTag, jpg.height, header, &pos);
+  EncodeValue(kBrunsliHeaderVersionCompTag, version_comp, header, &pos);
+  EncodeValue(kBrunsliHeaderSubsamplingTag, subsampling, header, &pos);
 
+  if (pos > *len) return false;
+  memcpy(data, header, pos);
   *len = pos;
   return true;
 }
@@ -942,9 +952,12 @@ bool EncodeHistogramData(const JPEGData& jpg, State* state, uint8_t* data,
 bool EncodeDCData(const JPEGData& jpg, State* state, uint8_t* data,
                   size_t* len) {
   BRUNSLI_UNUSED(jpg);
+  if (*len == 0) return false;
   Storage storage(data, *len);
 
-  state->data_stream_dc.EncodeCodeWords(state->entropy_codes, &storage);
+  if (!state->data_stream_dc.EncodeCodeWords(state->entropy_codes, &storage)) {
+    return false;
+  }
 
   *len = storage.GetBytesUsed();
   return true;
@@ -953,9 +966,12 @@ bool EncodeDCData(const JPEGData& jpg, State* state, uint8_t* data,
 bool EncodeACData(const JPEGData& jpg, State* state, uint8_t* data,
                   size_t* len) {
   BRUNSLI_UNUSED(jpg);
+  if (*len == 0) return false;
   Storage storage(data, *len);
 
-  state->data_stream_ac.EncodeCodeWords(state->entropy_codes, &storage);
+  if (!state->data_stream_ac.EncodeCodeWords(state->entropy_codes, &storage)) {
+    return false;
+  }
 
   *len = storage.GetBytesUsed();
   return true;
@@ -967,6 +983,8 @@ typedef bool (*EncodeSectionDataFn)(const JPEGData& jpg, State* state,
 bool EncodeSection(const JPEGData& jpg, State* s, uint8_t tag,
                    EncodeSectionDataFn write_section, size_t section_size_bytes,
                    size_t len, uint8_t* data, size_t* pos) {
+  if (len < *pos || len - *pos < 1 + section_size_bytes) return false;
+
   // Write the marker byte for the section.
   const size_t pos_start = *pos;
   const uint8_t marker = SectionMarker(tag);
@@ -1476,7 +1494,19 @@ bool BrunsliEncodeJpeg(const JPEGData& jpg, uint8_t* data, size_t* len) {
   // Groups workflow: distribute codes.
 
   // Groups workflow: apply corresponding skip masks.
-  return BrunsliSerialize(&state, jpg, 0, data, len);
+  const size_t max_size = GetMaximumBrunsliEncodedSize(jpg);
+  if (*len >= max_size) {
+    return BrunsliSerialize(&state, jpg, 0, data, len);
+  }
+
+  // Serializer requires a buffer with a slack.
+  std::vector<uint8_t> buffer(max_size);
+  size_t size = max_size;
+  if (!BrunsliSerialize(&state, jpg, 0, buffer.data(), &size)) return false;
+  if (size > *len) return false;
+  memcpy(data, buffer.data(), size);
+  *len = size;
+  return true;
 }
 
 #if defined(BRUNSLI_EXTRA_API)
diff --git a/c/enc/state.h b/c/enc/state.h
index ef6dc6c..b10f7d4 100644
--- a/c/enc/state.h
+++ b/c/enc/state.h
@@ -102,7 +102,7 @@ class DataStream {
   // Encodes the next bit to the bit stream, based on the 8-bit precision
   // probability, i.e. P(bit = 0) = prob / 256. Statistics are updated in 'p'.
   void AddBit(Prob* const p, int bit);
-  void EncodeCodeWords(EntropyCodes* s, Storage* storage);
+  bool EncodeCodeWords(EntropyCodes* s, Storage* storage);
 
  private:
   struct CodeWord {
-- 
2.43.0


From dd234303b78aacb36f76c0123b99bae90aa556e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:02 +0000
Subject: [PATCH 12/28] fix: JPEG reader: skip contents of APP / COM markers in
 JPEG_READ_TABLES mode

Contents of the segment was parsed as if it consisted of markers.
---
 c/enc/jpeg_data_reader.cc | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/c/enc/jpeg_data_reader.cc b/c/enc/jpeg_data_reader.cc
index 0ece595..ae8691b 100644
--- a/c/enc/jpeg_data_reader.cc
+++ b/c/enc/jpeg_data_reader.cc
@@ -419,6 +419,17 @@ bool ProcessCOM(const uint8_t* data, const size_t len, size_t* pos,
   return true;
 }
 
+// Skips the contents of APP / COM marker.
+bool SkipMarkerContents(const uint8_t* data, const size_t len, size_t* pos,
+                        JPEGData* jpg) {
+  BRUNSLI_VERIFY_LEN(2);
+  size_t marker_len = ReadUint16(data, pos);
+  BRUNSLI_VERIFY_INPUT(marker_len, 2, 65535, MARKER_LEN);
+  BRUNSLI_VERIFY_LEN(marker_len - 2);
+  *pos += marker_len - 2;
+  return true;
+}
+
 // Helper structure to read bits from the entropy coded data segment.
 struct BitReaderState {
   BitReaderState(const uint8_t* data, const size_t len, size_t pos)
@@ -1106,14 +1117,14 @@ bool ReadJpeg(const uint8_t* data, const size_t len, JpegReadMode mode,
       case 0xed:
       case 0xee:
       case 0xef:
-        if (mode != JPEG_READ_TABLES) {
-          ok = ProcessAPP(data, len, &pos, jpg);
-        }
+        ok = (mode == JPEG_READ_TABLES)
+                 ? SkipMarkerContents(data, len, &pos, jpg)
+                 : ProcessAPP(data, len, &pos, jpg);
         break;
       case 0xfe:
-        if (mode != JPEG_READ_TABLES) {
-          ok = ProcessCOM(data, len, &pos, jpg);
-        }
+        ok = (mode == JPEG_READ_TABLES)
+                 ? SkipMarkerContents(data, len, &pos, jpg)
+                 : ProcessCOM(data, len, &pos, jpg);
         break;
       default:
         BRUNSLI_LOG_INFO() << "Unsupported marker: " << marker << " pos=" << pos
-- 
2.43.0


From 366f16943aecd31e03d86c4b03753e6179cd2dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:48 +0000
Subject: [PATCH 13/28] fix: groups: wake up workers in ParallelExecutor
 destructor

Wake-up condition (next_task < num_tasks) never held, so destructor was always
waiting forever.
---
 c/experimental/groups.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/experimental/groups.cc b/c/experimental/groups.cc
index b1075bd..de41d72 100644
--- a/c/experimental/groups.cc
+++ b/c/experimental/groups.cc
@@ -84,7 +84,7 @@ ParallelExecutor::ParallelExecutor(size_t num_threads)
 ParallelExecutor::~ParallelExecutor() {
   std::unique_lock<std::mutex> lock(this->lock);
   terminate = true;
-  next_task.store(1);
+  next_task.store(0);
   this->num_tasks = 1;
   this->runnable = nullptr;
   start_latch.notify_all();
-- 
2.43.0


From 99a491803d1b35dd8a99a5cc5545a7c22f0cac6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:48 +0000
Subject: [PATCH 14/28] fix: groups: do not share decoding status between tasks

Tasks running in parallel were writing it without synchronization.
---
 c/experimental/groups.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/experimental/groups.cc b/c/experimental/groups.cc
index de41d72..4b485fa 100644
--- a/c/experimental/groups.cc
+++ b/c/experimental/groups.cc
@@ -483,8 +483,8 @@ bool DecodeGroups(const uint8_t* data, size_t len, brunsli::JPEGData* jpg,
       m.height_in_blocks = last_y - first_y;
     }
 
-    status = ProcessJpeg(&dc_state, jpg);
-    if (status != BrunsliStatus::BRUNSLI_OK) failed.store(true);
+    BrunsliStatus dc_status = ProcessJpeg(&dc_state, jpg);
+    if (dc_status != BrunsliStatus::BRUNSLI_OK) failed.store(true);
   };
   (*executor)(decode_dc, dc_section_start.size());
   if (failed.load()) return false;
@@ -526,8 +526,8 @@ bool DecodeGroups(const uint8_t* data, size_t len, brunsli::JPEGData* jpg,
       m.height_in_blocks = last_y - first_y;
     }
 
-    status = ProcessJpeg(&ac_state, jpg);
-    if (status != BrunsliStatus::BRUNSLI_OK) failed.store(true);
+    BrunsliStatus ac_status = ProcessJpeg(&ac_state, jpg);
+    if (ac_status != BrunsliStatus::BRUNSLI_OK) failed.store(true);
   };
   (*executor)(decode_ac, ac_section_start.size());
   if (failed.load()) return false;
-- 
2.43.0


From 0b5e19bc0afc883cccbacb36e6528a7d083f04c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:48 +0000
Subject: [PATCH 15/28] fix: groups: check that all common sections are present

Otherwise groups are decoded with uninitialized entropy codes.
---
 c/experimental/groups.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/c/experimental/groups.cc b/c/experimental/groups.cc
index 4b485fa..03df3d5 100644
--- a/c/experimental/groups.cc
+++ b/c/experimental/groups.cc
@@ -380,6 +380,7 @@ bool DecodeGroups(const uint8_t* data, size_t len, brunsli::JPEGData* jpg,
   using ::brunsli::BrunsliStatus;
   using ::brunsli::internal::dec::BlockI32;
   using ::brunsli::internal::dec::ComponentMeta;
+  using ::brunsli::internal::dec::HasSection;
   using ::brunsli::internal::dec::PrepareMeta;
   using ::brunsli::internal::dec::ProcessJpeg;
   using ::brunsli::internal::dec::Stage;
@@ -406,6 +407,13 @@ bool DecodeGroups(const uint8_t* data, size_t len, brunsli::JPEGData* jpg,
 
   BrunsliStatus status = ProcessJpeg(&state, jpg);
   if (status != BrunsliStatus::BRUNSLI_NOT_ENOUGH_DATA) return false;
+  // Groups rely on the contents of all of those.
+  if (!HasSection(&state, brunsli::kBrunsliMetaDataTag) ||
+      !HasSection(&state, brunsli::kBrunsliJPEGInternalsTag) ||
+      !HasSection(&state, brunsli::kBrunsliQuantDataTag) ||
+      !HasSection(&state, brunsli::kBrunsliHistogramDataTag)) {
+    return false;
+  }
   WarmupMeta(jpg, &state);
 
   if ((ac_group_dim % jpg->max_h_samp_factor) != 0) return false;
-- 
2.43.0


From 5338fae26286261031204e7772455094be2ab76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 16/28] fix: groups: reserve enough space for encoded parts

Size of a part depends on the group size, and on the amount of auxiliary data
in the common part. Images with dense coefficients, or groups bigger than
32x32 / 128x128 blocks could not be encoded.
---
 c/experimental/groups.cc | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/c/experimental/groups.cc b/c/experimental/groups.cc
index 03df3d5..60481b5 100644
--- a/c/experimental/groups.cc
+++ b/c/experimental/groups.cc
@@ -299,18 +299,7 @@ bool EncodeGroups(const brunsli::JPEGData& jpg, uint8_t* data, size_t* len,
   {
     std::vector<uint8_t>& part = output[0];
     state.entropy_codes = entropy_codes.get();
-    size_t part_size = 20480;
-    for (size_t i = 0; i < jpg.inter_marker_data.size(); ++i) {
-      part_size += 5 + jpg.inter_marker_data[i].size();
-    }
-    for (const std::vector<uint8_t>& chunk : jpg.app_data) {
-      part_size += chunk.size();
-    }
-    for (const std::vector<uint8_t>& chunk : jpg.com_data) {
-      part_size += chunk.size();
-    }
-    part_size += jpg.tail_data.size();
-    // TODO(eustas): take into account histograms.
+    size_t part_size = GetMaximumBrunsliEncodedSize(jpg);
     part.resize(part_size);
     uint32_t skip_flags =
         (1u << brunsli::kBrunsliDCDataTag) | (1u << brunsli::kBrunsliACDataTag);
@@ -320,6 +309,15 @@ bool EncodeGroups(const brunsli::JPEGData& jpg, uint8_t* data, size_t* len,
     part.resize(part_size);
   }
 
+  // See GetMaximumBrunsliEncodedSize.
+  const auto max_group_size = [](const State& s) {
+    size_t num_blocks = 0;
+    for (const ComponentMeta& m : s.meta) {
+      num_blocks += m.width_in_blocks * m.height_in_blocks;
+    }
+    return 1024 + (96 + 8) * num_blocks;
+  };
+
   const auto serialize = [&](size_t idx) {
     if (failed.load()) return;
     std::vector<uint8_t>& part = output[idx];
@@ -327,8 +325,7 @@ bool EncodeGroups(const brunsli::JPEGData& jpg, uint8_t* data, size_t* len,
     idx--;
     if (idx < dc_state.size()) {
       State& s = dc_state[idx];
-      // TODO(eustas): reduce for subsampled
-      size_t part_size = 128 * (128 + 16) * jpg.components.size();
+      size_t part_size = max_group_size(s);
       part.resize(part_size);
       s.entropy_codes = entropy_codes.get();
       uint32_t skip_flags = ~(1u << brunsli::kBrunsliDCDataTag);
@@ -343,8 +340,7 @@ bool EncodeGroups(const brunsli::JPEGData& jpg, uint8_t* data, size_t* len,
     idx -= dc_state.size();
     if (idx < ac_state.size()) {
       State& s = ac_state[idx];
-      // TODO(eustas): reduce for subsampled
-      size_t part_size = 32 * 32 * 63 * jpg.components.size();
+      size_t part_size = max_group_size(s);
       part.resize(part_size);
       s.entropy_codes = entropy_codes.get();
       uint32_t skip_flags = ~(1u << brunsli::kBrunsliACDataTag);
-- 
2.43.0


From 6f11ac7bb6c147deda62e36e8ef444df5437eac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:40 +0000
Subject: [PATCH 17/28] fix: tools: reject input whose size can not be
 represented

ftell result was truncated to int: directories (LONG_MAX) aborted the tool
with std::length_error, and of files over 4GiB only the tail of the size was
read.
---
 c/tools/cbrunsli.cc | 7 ++++++-
 c/tools/dbrunsli.cc | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/c/tools/cbrunsli.cc b/c/tools/cbrunsli.cc
index ac3ca79..e225e25 100644
--- a/c/tools/cbrunsli.cc
+++ b/c/tools/cbrunsli.cc
@@ -4,6 +4,7 @@
 // license that can be found in the LICENSE file or at
 // https://opensource.org/licenses/MIT.
 
+#include <climits>
 #include <cstdio>
 #include <cstdlib>
 #include <string>
@@ -31,7 +32,11 @@ bool ReadFileInternal(FILE* file, std::string* content) {
     fprintf(stderr, "Failed to seek end of input file.\n");
     return false;
   }
-  int input_size = ftell(file);
+  const long input_size = ftell(file);
+  if (input_size < 0 || input_size > INT_MAX) {
+    fprintf(stderr, "Failed to get the size of input file.\n");
+    return false;
+  }
   if (input_size == 0) {
     fprintf(stderr, "Input file is empty.\n");
     return false;
diff --git a/c/tools/dbrunsli.cc b/c/tools/dbrunsli.cc
index 7d15c2a..35db67f 100644
--- a/c/tools/dbrunsli.cc
+++ b/c/tools/dbrunsli.cc
@@ -4,6 +4,7 @@
 // license that can be found in the LICENSE file or at
 // https://opensource.org/licenses/MIT.
 
+#include <climits>
 #include <cstdio>
 #include <cstdlib>
 #include <string>
@@ -38,7 +39,11 @@ bool ReadFileInternal(FILE* file, std::string* content) {
     fprintf(stderr, "Failed to seek end of input file.\n");
     return false;
   }
-  int input_size = ftell(file);
+  const long input_size = ftell(file);
+  if (input_size < 0 || input_size > INT_MAX) {
+    fprintf(stderr, "Failed to get the size of input file.\n");
+    return false;
+  }
   if (input_size == 0) {
     fprintf(stderr, "Input file is empty.\n");
     return false;
-- 
2.43.0


From 2a6833525a8c9f28116107825f87459d94a707dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:40 +0000
Subject: [PATCH 18/28] fix: wasm: release malloc'ed buffers with free

---
 wasm/codec.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wasm/codec.cc b/wasm/codec.cc
index 7a3743a..2468a24 100644
--- a/wasm/codec.cc
+++ b/wasm/codec.cc
@@ -102,9 +102,9 @@ void BrunsliDecoderCleanup(uint32_t* instance) {
       reinterpret_cast<brunsli::BrunsliDecoder*>(instance[0]);
   delete decoder;
   uint8_t* in = reinterpret_cast<uint8_t*>(instance[2]);
-  delete[] in;
+  free(in);
   uint8_t* out = reinterpret_cast<uint8_t*>(instance[4]);
-  delete[] out;
+  free(out);
   delete[] instance;
 }
 
-- 
2.43.0


From 7ac5bb7926e660e63b412f7643f7e3094e004832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:24 +0000
Subject: [PATCH 19/28] fix: ngx_brunsli: find media type anywhere in Accept
 header

---
 .../src/ngx_http_brunsli_static_module.c      | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c b/contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c
index 9de7018..b997bd9 100644
--- a/contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c
+++ b/contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c
@@ -294,22 +294,27 @@ static ngx_int_t ngx_http_brunsli_ok(ngx_http_request_t *r) {
 
 static ngx_int_t ngx_http_brunsli_accept(ngx_str_t *ae) {
   u_char *p;
+  u_char before;
 
-  p = ngx_strcasestrn(ae->data, (char *)ngx_http_brunsli_mime_type.data,
-                      ngx_http_brunsli_mime_type.len);
-  if (p == NULL) {
-    return NGX_DECLINED;
-  }
+  p = ae->data;
 
-  if (p == ae->data || (*(p - 1) == ',' || *p == ';' || *(p - 1) == ' ')) {
+  for (;;) {
+    /* The last argument of ngx_strcasestrn() is the length minus one. */
+    p = ngx_strcasestrn(p, (char *)ngx_http_brunsli_mime_type.data,
+                        ngx_http_brunsli_mime_type.len - 1);
+    if (p == NULL) {
+      return NGX_DECLINED;
+    }
+
+    before = (p == ae->data) ? ',' : *(p - 1);
     p += ngx_http_brunsli_mime_type.len;
 
-    if (p == ae->data + ae->len || *p == ',' || *p == ';' || *p == ' ') {
-      return NGX_OK;
+    if (before == ',' || before == ' ') {
+      if (p == ae->data + ae->len || *p == ',' || *p == ';' || *p == ' ') {
+        return NGX_OK;
+      }
     }
   }
-
-  return NGX_DECLINED;
 }
 
 static void *ngx_http_brunsli_static_create_conf(ngx_conf_t *cf) {
-- 
2.43.0


From a6fecc0231a71839a23ed809a85e82b0c0bbfd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:24 +0000
Subject: [PATCH 20/28] fix: mod_brunsli: do not crash on empty media type

---
 contrib/mod_brunsli/mod_brunsli.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/contrib/mod_brunsli/mod_brunsli.c b/contrib/mod_brunsli/mod_brunsli.c
index c0a2988..8701c4f 100644
--- a/contrib/mod_brunsli/mod_brunsli.c
+++ b/contrib/mod_brunsli/mod_brunsli.c
@@ -18,6 +18,7 @@ static int accept_brunsli(char* const accept) {
        token = apr_strtok(NULL, sep, &last)) {
     char* qlast;
     char* const mime_type = apr_strtok(token, qsep, &qlast);
+    if (mime_type == NULL) continue;
     apr_collapse_spaces(mime_type, mime_type);
     if (strcmp(mime_type, brunsli_mime_type) == 0) {
       return 1;
-- 
2.43.0


From 5f83379f4677216a3678f875781b947807b7e46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 21/28] fix: python patches: skip None in sys.modules

---
 contrib/py/jxl_library_patches/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contrib/py/jxl_library_patches/__init__.py b/contrib/py/jxl_library_patches/__init__.py
index 9b15f38..aa74b78 100644
--- a/contrib/py/jxl_library_patches/__init__.py
+++ b/contrib/py/jxl_library_patches/__init__.py
@@ -200,7 +200,7 @@ def _try_patch_all(debug=False):
   # imports PIL as needed, e.g. for jpeg. We address this by loading PIL
   # straightaway if we find that matplotlib.image has been loaded. Afterwards,
   # we patch up all modules (including PIL).
-  if any(m.__name__ == _MATPLOTLIB_IMAGE_SELF_NAME
+  if any(m is not None and m.__name__ == _MATPLOTLIB_IMAGE_SELF_NAME
          for m in sys.modules.values()):
     # Just make sure the PIL image module gets entered into sys.modules.
     # It is actually OK to do this even if we are not quite sure that
-- 
2.43.0


From 70488addd567cc4eaaa860c2e7cb041252c2bb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 22/28] fix: python patches: pass positional arguments of
 cv2.imread

---
 contrib/py/jxl_library_patches/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/contrib/py/jxl_library_patches/__init__.py b/contrib/py/jxl_library_patches/__init__.py
index aa74b78..de7fe2d 100644
--- a/contrib/py/jxl_library_patches/__init__.py
+++ b/contrib/py/jxl_library_patches/__init__.py
@@ -63,18 +63,18 @@ def _get_opencv_wrapped_imread(cv2_imread, debug=False):
   if wrapper:
     return wrapper
   # Otherwise, there was not yet a wrapper-function. Create one.
-  def imread(filename, **kwargs):  # Has same name as replaced function.
+  def imread(filename, *args, **kwargs):  # Has same name as replaced function.
     """[Docstring will get replaced]."""
     # For now, this wrapper does nothing - it just wraps the original imread().
     if debug:
       sys.stderr.write(
-          'DDD wrapped OpenCV imread(filename=%r, **kwargs=%r)\n' % (
-              filename, kwargs))
+          'DDD wrapped OpenCV imread(filename=%r, *args=%r, **kwargs=%r)\n' % (
+              filename, args, kwargs))
     if jxl_utils.is_jpegxl_recompressed_jpeg_file(filename):
       return jxl_utils.call_with_jxl_filename_arg1_replaced_by_temp_jpeg_file(
-          cv2_imread, filename, **kwargs)
+          cv2_imread, filename, *args, **kwargs)
     else:
-      return cv2_imread(filename, **kwargs)
+      return cv2_imread(filename, *args, **kwargs)
   # We even fake the docstring.
   imread.__doc__ = cv2_imread.__doc__
   # Make both the old and the new function point to the wrapper in the global
-- 
2.43.0


From 2784e0cf1b7667289c4748b325287aab9460d5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:33 +0000
Subject: [PATCH 23/28] fix: JPEG writer: do not shift by 32 bits for a DC
 difference of -32768

---
 c/dec/jpeg_data_writer.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c/dec/jpeg_data_writer.cc b/c/dec/jpeg_data_writer.cc
index edec7d7..5a36f79 100644
--- a/c/dec/jpeg_data_writer.cc
+++ b/c/dec/jpeg_data_writer.cc
@@ -518,7 +518,9 @@ bool EncodeDCTBlockSequential(const coeff_t* coeffs,
     temp = -temp;
     temp2--;
   }
-  int dc_nbits = (temp == 0) ? 0 : (Log2FloorNonZero(temp) + 1);
+  // Cast is required for -32768, whose absolute value is not representable.
+  uint16_t dc_abs = static_cast<uint16_t>(temp);
+  int dc_nbits = (dc_abs == 0) ? 0 : (Log2FloorNonZero(dc_abs) + 1);
   WriteBits(bw, dc_huff.depth[dc_nbits], dc_huff.code[dc_nbits]);
   if (dc_nbits > 0) {
     WriteBits(bw, dc_nbits, temp2 & ((1u << dc_nbits) - 1));
@@ -573,7 +575,9 @@ bool EncodeDCTBlockProgressive(const coeff_t* coeffs,
       temp = -temp;
       temp2--;
     }
-    int nbits = (temp == 0) ? 0 : (Log2FloorNonZero(temp) + 1);
+    // Cast is required for -32768, whose absolute value is not representable.
+    uint16_t dc_abs = static_cast<uint16_t>(temp);
+    int nbits = (dc_abs == 0) ? 0 : (Log2FloorNonZero(dc_abs) + 1);
     WriteBits(bw, dc_huff.depth[nbits], dc_huff.code[nbits]);
     if (nbits > 0) {
       WriteBits(bw, nbits, temp2 & ((1 << nbits) - 1));
-- 
2.43.0


From 894cfa555f93f9c8a16cbe8505c248959e00f07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:33 +0000
Subject: [PATCH 24/28] fix: JPEG writer: forget symbols of a redefined Huffman
 code

---
 c/dec/jpeg_data_writer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/dec/jpeg_data_writer.cc b/c/dec/jpeg_data_writer.cc
index 5a36f79..f1b8a2f 100644
--- a/c/dec/jpeg_data_writer.cc
+++ b/c/dec/jpeg_data_writer.cc
@@ -265,6 +265,8 @@ static BRUNSLI_INLINE bool BufferEndOfBand(DCTCodingState* s,
 bool BuildHuffmanCodeTable(const JPEGHuffmanCode& huff,
                            HuffmanCodeTable* table) {
   int huff_code[kJpegHuffmanAlphabetSize];
+  // Symbols of the replaced code (if any) do not exist any more.
+  *table = HuffmanCodeTable();
   // +1 for a sentinel element.
   uint32_t huff_size[kJpegHuffmanAlphabetSize + 1];
   int p = 0;
-- 
2.43.0


From 29b082b1287235aae6d9d5fc1a2a423c3e205fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:14 +0000
Subject: [PATCH 25/28] fix: streaming decoder: accept a null pointer if there
 is no input

---
 c/dec/brunsli_decode.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index f6928c2..71c8616 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -2521,7 +2521,9 @@ BrunsliDecoder::Status BrunsliDecoder::Decode(size_t* available_in,
   State* state = state_.get();
   BRUNSLI_DCHECK(state);
 
-  state->data = *next_in;
+  // Parser requires a valid pointer, even if there is no input.
+  static const uint8_t kNoInput[1] = {0};
+  state->data = (*available_in == 0) ? kNoInput : *next_in;
   state->pos = 0;
   state->len = *available_in;
   BrunsliStatus parse_status = internal::dec::ProcessJpeg(state, jpg);
-- 
2.43.0


From 9e04a8d3005f8a90d0e0d0e3068ee5ab5a0752b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:10 +0000
Subject: [PATCH 26/28] fix: decoder: refuse version numbers beyond 32 bits

---
 c/dec/brunsli_decode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/dec/brunsli_decode.cc b/c/dec/brunsli_decode.cc
index 71c8616..4fb763f 100644
--- a/c/dec/brunsli_decode.cc
+++ b/c/dec/brunsli_decode.cc
@@ -1205,7 +1205,7 @@ Stage DecodeHeader(State* state, JPEGData* jpg) {
           return Fail(state, BRUNSLI_INVALID_BRN);
         }
         // Unknown mode - only 3 bits are defined.
-        if ((version & ~0x7u) != 0) {
+        if (version > 0x7u) {
           return Fail(state, BRUNSLI_INVALID_BRN);
         }
 
-- 
2.43.0


From 2a6baa3c3d2123d46460ff19a7a73e9eeca782fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:29 +0000
Subject: [PATCH 27/28] fix: reader: skip scan headers by their length in the
 cheaper reading modes

---
 c/enc/jpeg_data_reader.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/enc/jpeg_data_reader.cc b/c/enc/jpeg_data_reader.cc
index ae8691b..ea68f45 100644
--- a/c/enc/jpeg_data_reader.cc
+++ b/c/enc/jpeg_data_reader.cc
@@ -1090,10 +1090,10 @@ bool ReadJpeg(const uint8_t* data, const size_t len, JpegReadMode mode,
         // Found end marker.
         break;
       case 0xda:
-        if (mode == JPEG_READ_ALL) {
-          ok = ProcessScan(data, len, dc_huff_lut, ac_huff_lut,
-                           scan_progression, is_progressive, &pos, jpg);
-        }
+        ok = (mode == JPEG_READ_ALL)
+                 ? ProcessScan(data, len, dc_huff_lut, ac_huff_lut,
+                               scan_progression, is_progressive, &pos, jpg)
+                 : SkipMarkerContents(data, len, &pos, jpg);
         break;
       case 0xdb:
         ok = ProcessDQT(data, len, &pos, jpg);
-- 
2.43.0


From ecc87cdc1f18ec47651e7c106613bd8ab3ec5374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:03 +0000
Subject: [PATCH 28/28] fix: encoder: refuse a representation without
 components before using it

---
 c/enc/brunsli_encode.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/enc/brunsli_encode.cc b/c/enc/brunsli_encode.cc
index 7322f7a..732e104 100644
--- a/c/enc/brunsli_encode.cc
+++ b/c/enc/brunsli_encode.cc
@@ -1082,6 +1082,7 @@ bool PredictDCCoeffs(State* state) {
 
 bool CalculateMeta(const JPEGData& jpg, State* state) {
   const size_t num_components = jpg.components.size();
+  if (num_components == 0) return false;
   std::vector<ComponentMeta>& meta = state->meta;
   meta.resize(num_components);
   for (size_t i = 0; i < num_components; ++i) {
-- 
2.43.0

