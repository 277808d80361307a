From 068bdf9ff8b602d72a47d76d7db99c35b64cc945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:11 +0000
Subject: [PATCH 01/26] fix: scaling_list(): reject malformed lists, and record
 the 8x8 default flags as 8x8

An out-of-range or truncated delta_scale was ignored, and the SPS/PPS parse
went on misaligned; and the 8x8 lists (i >= 6) overwrote
UseDefaultScalingMatrix4x4Flag instead of setting UseDefaultScalingMatrix8x8Flag.
---
 src/h264_pps_parser.cc | 12 ++++++++----
 src/h264_sps_parser.cc | 16 ++++++++++------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/h264_pps_parser.cc b/src/h264_pps_parser.cc
index 9c135cf..3fc0422 100644
--- a/src/h264_pps_parser.cc
+++ b/src/h264_pps_parser.cc
@@ -309,11 +309,15 @@ std::shared_ptr<H264PpsParser::PpsState> H264PpsParser::ParsePps(
         if (pps->pic_scaling_list_present_flag[i]) {
           // scaling_list()
           if (i < 6) {
-            (void)pps->scaling_list(bit_buffer, i, pps->ScalingList4x4, 16,
-                                    pps->UseDefaultScalingMatrix4x4Flag);
+            if (!pps->scaling_list(bit_buffer, i, pps->ScalingList4x4, 16,
+                                   pps->UseDefaultScalingMatrix4x4Flag)) {
+              return nullptr;
+            }
           } else {
-            (void)pps->scaling_list(bit_buffer, i - 6, pps->ScalingList8x8, 64,
-                                    pps->UseDefaultScalingMatrix4x4Flag);
+            if (!pps->scaling_list(bit_buffer, i - 6, pps->ScalingList8x8, 64,
+                                   pps->UseDefaultScalingMatrix8x8Flag)) {
+              return nullptr;
+            }
           }
         }
       }
diff --git a/src/h264_sps_parser.cc b/src/h264_sps_parser.cc
index 90cfe3a..1f8216d 100644
--- a/src/h264_sps_parser.cc
+++ b/src/h264_sps_parser.cc
@@ -192,13 +192,17 @@ H264SpsDataParser::ParseSpsData(BitBuffer* bit_buffer) noexcept {
         if (sps_data->seq_scaling_list_present_flag[i]) {
           // scaling_list()
           if (i < 6) {
-            (void)sps_data->scaling_list(
-                bit_buffer, i, sps_data->ScalingList4x4, 16,
-                sps_data->UseDefaultScalingMatrix4x4Flag);
+            if (!sps_data->scaling_list(
+                    bit_buffer, i, sps_data->ScalingList4x4, 16,
+                    sps_data->UseDefaultScalingMatrix4x4Flag)) {
+              return nullptr;
+            }
           } else {
-            (void)sps_data->scaling_list(
-                bit_buffer, i - 6, sps_data->ScalingList8x8, 64,
-                sps_data->UseDefaultScalingMatrix4x4Flag);
+            if (!sps_data->scaling_list(
+                    bit_buffer, i - 6, sps_data->ScalingList8x8, 64,
+                    sps_data->UseDefaultScalingMatrix8x8Flag)) {
+              return nullptr;
+            }
           }
         }
       }
-- 
2.43.0


From b2dd02966d489d7059c1bbde0bc198177657bd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:11 +0000
Subject: [PATCH 02/26] fix: ParseBitstreamNALULength: report the NAL unit
 length, not the size of the length field

---
 src/h264_bitstream_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h264_bitstream_parser.cc b/src/h264_bitstream_parser.cc
index 8758315..1f7b125 100644
--- a/src/h264_bitstream_parser.cc
+++ b/src/h264_bitstream_parser.cc
@@ -237,7 +237,7 @@ H264BitstreamParser::ParseBitstreamNALULength(
     }
     // store the offset
     nal_unit->offset = i;
-    nal_unit->length = nalu_length_bytes;
+    nal_unit->length = nalu_length;
 
     bitstream->nal_units.push_back(std::move(nal_unit));
 
-- 
2.43.0


From d4e3dd96def6d1ff377ada83b6663cb3886271ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:22 +0000
Subject: [PATCH 03/26] fix: ParseBitstreamNALULength: a huge length field must
 not wrap past the end-of-buffer check

---
 src/h264_bitstream_parser.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/h264_bitstream_parser.cc b/src/h264_bitstream_parser.cc
index 1f7b125..e5f2f8b 100644
--- a/src/h264_bitstream_parser.cc
+++ b/src/h264_bitstream_parser.cc
@@ -35,6 +35,10 @@ bool read_nalu_length(const uint8_t* data, size_t data_length,
   }
   *nalu_length = 0;
   for (size_t i = 0; i < nalu_length_bytes; ++i) {
+    if (*nalu_length > (SIZE_MAX >> 8)) {
+      // the length does not fit in a size_t
+      return false;
+    }
     *nalu_length = (*nalu_length << 8) + data[i];
   }
   return true;
@@ -216,7 +220,7 @@ H264BitstreamParser::ParseBitstreamNALULength(
         break;
       }
       i += nalu_length_bytes;
-      if (nalu_length == 0 || i + nalu_length > length) {
+      if (nalu_length == 0 || nalu_length > length - i) {
         break;
       }
     } else {
-- 
2.43.0


From b1f00bab766bc8e4eed12bb6dd625461ea2ac104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:35 +0000
Subject: [PATCH 04/26] fix: BitstreamState/NalUnitState fdump: no null
 checksum dereference

The overloads taking a caller-owned parser state never recorded the parsing
options, so fdump() on their result asked for a checksum that was not computed.
---
 src/h264_bitstream_parser.cc | 2 ++
 src/h264_nal_unit_parser.cc  | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/h264_bitstream_parser.cc b/src/h264_bitstream_parser.cc
index e5f2f8b..64d36ad 100644
--- a/src/h264_bitstream_parser.cc
+++ b/src/h264_bitstream_parser.cc
@@ -134,6 +134,7 @@ H264BitstreamParser::ParseBitstream(
     H264BitstreamParserState* bitstream_parser_state,
     ParsingOptions parsing_options) noexcept {
   auto bitstream = std::make_unique<BitstreamState>();
+  bitstream->parsing_options_ = parsing_options;
 
   // (1) split the input string into a vector of NAL units
   std::vector<NaluIndex> nalu_indices = FindNaluIndices(data, length);
@@ -199,6 +200,7 @@ H264BitstreamParser::ParseBitstreamNALULength(
     H264BitstreamParserState* bitstream_parser_state,
     ParsingOptions parsing_options) noexcept {
   auto bitstream = std::make_unique<BitstreamState>();
+  bitstream->parsing_options_ = parsing_options;
 
   size_t i = 0;
 
diff --git a/src/h264_nal_unit_parser.cc b/src/h264_nal_unit_parser.cc
index 1c5abb5..87021e3 100644
--- a/src/h264_nal_unit_parser.cc
+++ b/src/h264_nal_unit_parser.cc
@@ -113,7 +113,7 @@ void H264NalUnitParser::NalUnitState::fdump(
   }
 
   // nal unit checksum
-  if (parsing_options.add_checksum) {
+  if (parsing_options.add_checksum && checksum != nullptr) {
     fdump_indent_level(outfp, indent_level);
     char checksum_printable[64] = {};
     checksum->fdump(checksum_printable, 64);
-- 
2.43.0


From e8864a2ddd4ea5d806fa66ab545b0ef903a5ebe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:13 +0000
Subject: [PATCH 05/26] fix: slice_layer_extension_rbsp(): propagate a failed
 slice_header_in_scalable_extension()

A type 20 NAL unit whose slice header was rejected counted as parsed.
---
 src/h264_slice_layer_extension_rbsp_parser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/h264_slice_layer_extension_rbsp_parser.cc b/src/h264_slice_layer_extension_rbsp_parser.cc
index 1b53d6c..3407801 100644
--- a/src/h264_slice_layer_extension_rbsp_parser.cc
+++ b/src/h264_slice_layer_extension_rbsp_parser.cc
@@ -61,6 +61,10 @@ H264SliceLayerExtensionRbspParser::ParseSliceLayerExtensionRbsp(
         H264SliceHeaderInScalableExtensionParser::
             ParseSliceHeaderInScalableExtension(bit_buffer, nal_unit_header,
                                                 bitstream_parser_state);
+    if (slice_layer_extension_rbsp->slice_header_in_scalable_extension ==
+        nullptr) {
+      return nullptr;
+    }
     // if (!slice_skip_flag) {
     //   slice_data_in_scalable_extension()  // specified in Annex G
     // }
-- 
2.43.0


From 9b9e88f4484b5af1522e531a79b7f1666673d19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:13 +0000
Subject: [PATCH 06/26] fix: slice_header_in_scalable_extension(): infer
 num_ref_idx_lX_active_minus1 from the PPS

Without num_ref_idx_active_override_flag the counts stayed 0, so a
pred_weight_table() with more than one reference was read short.
---
 src/h264_slice_header_in_scalable_extension_parser.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/h264_slice_header_in_scalable_extension_parser.cc b/src/h264_slice_header_in_scalable_extension_parser.cc
index 58e3c17..575c877 100644
--- a/src/h264_slice_header_in_scalable_extension_parser.cc
+++ b/src/h264_slice_header_in_scalable_extension_parser.cc
@@ -341,6 +341,12 @@ H264SliceHeaderInScalableExtensionParser::ParseSliceHeaderInScalableExtension(
             return nullptr;
           }
         }
+      } else {
+        // same inference as slice_header() (Section 7.4.3)
+        shise->num_ref_idx_l0_active_minus1 =
+            pps->num_ref_idx_l0_default_active_minus1;
+        shise->num_ref_idx_l1_active_minus1 =
+            pps->num_ref_idx_l1_default_active_minus1;
       }
     }
 
-- 
2.43.0


From 550b7fd60c9deaad1b41fcdfedfaf3dd489792c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:13 +0000
Subject: [PATCH 07/26] fix: prefix_nal_unit_svc(): the 'else if
 (more_rbsp_data())' belongs to nal_ref_idc == 0 (Section G.7.3.2.12.1)

---
 src/h264_prefix_nal_unit_parser.cc | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/h264_prefix_nal_unit_parser.cc b/src/h264_prefix_nal_unit_parser.cc
index 11c3d79..9541eaa 100644
--- a/src/h264_prefix_nal_unit_parser.cc
+++ b/src/h264_prefix_nal_unit_parser.cc
@@ -78,19 +78,19 @@ H264PrefixNalUnitSvcParser::ParsePrefixNalUnitSvc(
           return nullptr;
         }
       }
-      rbsp_trailing_bits(bit_buffer);
-
-    } else if (more_rbsp_data(bit_buffer)) {
-      while (more_rbsp_data(bit_buffer)) {
-        // additional_prefix_nal_unit_extension_data_flag  u(1)
-        if (!bit_buffer->ReadBits(
-                1, prefix_nal_unit_svc
-                       ->additional_prefix_nal_unit_extension_data_flag)) {
-          return nullptr;
-        }
+    }
+    rbsp_trailing_bits(bit_buffer);
+
+  } else if (more_rbsp_data(bit_buffer)) {
+    while (more_rbsp_data(bit_buffer)) {
+      // additional_prefix_nal_unit_extension_data_flag  u(1)
+      if (!bit_buffer->ReadBits(
+              1, prefix_nal_unit_svc
+                     ->additional_prefix_nal_unit_extension_data_flag)) {
+        return nullptr;
       }
-      rbsp_trailing_bits(bit_buffer);
     }
+    rbsp_trailing_bits(bit_buffer);
   }
 
   return prefix_nal_unit_svc;
-- 
2.43.0


From 08b8b46f3a10f9aab5475c6e21a0643ffea8a9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:45 +0000
Subject: [PATCH 08/26] fix: RTP STAP-A: bound and advance by each NALU size,
 and unescape each NALU on its own

The aggregated NAL units were parsed from the shared, already unescaped
buffer: a NAL unit whose parser does not consume all its bytes (slices, SEI,
AUD) made the next NALU size be read from the middle of it, an inner parser
could read past its NALU, and emulation prevention bytes shifted the sizes.
---
 src/h264_rtp_parser.cc       |  5 +++++
 src/h264_rtp_stapa_parser.cc | 27 ++++++++++++++++++++++-----
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/h264_rtp_parser.cc b/src/h264_rtp_parser.cc
index 8fc684f..0802247 100644
--- a/src/h264_rtp_parser.cc
+++ b/src/h264_rtp_parser.cc
@@ -24,6 +24,11 @@ namespace h264nal {
 std::unique_ptr<H264RtpParser::RtpState> H264RtpParser::ParseRtp(
     const uint8_t* data, size_t length,
     struct H264BitstreamParserState* bitstream_parser_state) noexcept {
+  if (length > 0 && (data[0] & 0x1f) == RTP_STAPA_NUT) {
+    // the NALU sizes in a STAP-A packet count the escaped bytes
+    BitBuffer bit_buffer(data, length);
+    return ParseRtp(&bit_buffer, bitstream_parser_state);
+  }
   std::vector<uint8_t> unpacked_buffer = UnescapeRbsp(data, length);
   BitBuffer bit_buffer(unpacked_buffer.data(), unpacked_buffer.size());
   return ParseRtp(&bit_buffer, bitstream_parser_state);
diff --git a/src/h264_rtp_stapa_parser.cc b/src/h264_rtp_stapa_parser.cc
index 257c01f..130dd62 100644
--- a/src/h264_rtp_stapa_parser.cc
+++ b/src/h264_rtp_stapa_parser.cc
@@ -21,13 +21,14 @@ namespace h264nal {
 // You can find it on this page:
 // https://tools.ietf.org/html/rfc6184#section-5.6
 
-// Unpack RBSP and parse RTP STAP-A state from the supplied buffer.
+// Parse RTP STAP-A state from the supplied buffer. The NALU sizes count
+// the bytes on the wire, so each aggregated NAL unit is unescaped on its own
+// instead of unescaping the whole packet.
 std::unique_ptr<H264RtpStapAParser::RtpStapAState>
 H264RtpStapAParser::ParseRtpStapA(
     const uint8_t* data, size_t length,
     struct H264BitstreamParserState* bitstream_parser_state) noexcept {
-  std::vector<uint8_t> unpacked_buffer = UnescapeRbsp(data, length);
-  BitBuffer bit_buffer(unpacked_buffer.data(), unpacked_buffer.size());
+  BitBuffer bit_buffer(data, length);
   return ParseRtpStapA(&bit_buffer, bitstream_parser_state);
 }
 
@@ -63,9 +64,25 @@ H264RtpStapAParser::ParseRtpStapA(
     }
     rtp_stapa->nal_unit_sizes.push_back(nalu_size);
 
+    // NALU: exactly nalu_size bytes, whatever its parser consumes. A last
+    // byte that cannot hold another NALU size goes with the last NALU.
+    size_t nalu_bytes = nalu_size;
+    if (bit_buffer->RemainingBitCount() / 8 - nalu_bytes == 1) {
+      nalu_bytes += 1;
+    }
+    std::vector<uint8_t> nalu(nalu_bytes);
+    for (uint8_t& nalu_byte : nalu) {
+      if (!bit_buffer->ReadUInt8(nalu_byte)) {
+        return nullptr;
+      }
+    }
+    std::vector<uint8_t> unpacked_nalu =
+        UnescapeRbsp(nalu.data(), nalu.size());
+    BitBuffer nalu_bit_buffer(unpacked_nalu.data(), unpacked_nalu.size());
+
     // NALU header
     rtp_stapa->nal_unit_headers.push_back(
-        H264NalUnitHeaderParser::ParseNalUnitHeader(bit_buffer));
+        H264NalUnitHeaderParser::ParseNalUnitHeader(&nalu_bit_buffer));
     if (rtp_stapa->nal_unit_headers.back() == nullptr) {
 #ifdef FPRINT_ERRORS
       fprintf(stderr, "error: cannot ParseNalUnitHeader in rtp ap\n");
@@ -76,7 +93,7 @@ H264RtpStapAParser::ParseRtpStapA(
     // NALU payload
     rtp_stapa->nal_unit_payloads.push_back(
         H264NalUnitPayloadParser::ParseNalUnitPayload(
-            bit_buffer, *(rtp_stapa->nal_unit_headers.back()),
+            &nalu_bit_buffer, *(rtp_stapa->nal_unit_headers.back()),
             bitstream_parser_state));
     if (rtp_stapa->nal_unit_payloads.back() == nullptr) {
       return nullptr;
-- 
2.43.0


From a694d5515713bc3aa465199039c07a61673117e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:12 +0000
Subject: [PATCH 09/26] fix: more_rbsp_data(): zero bytes after the stop bit
 are not RBSP data

A PPS followed by trailing_zero_8bits (legal in Annex B) was parsed as if it
had the transform_8x8_mode_flag extension.
---
 src/h264_common.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/h264_common.cc b/src/h264_common.cc
index 0cd4c46..2c322a6 100644
--- a/src/h264_common.cc
+++ b/src/h264_common.cc
@@ -295,10 +295,22 @@ bool more_rbsp_data(BitBuffer* bit_buffer) {
   // >   }
   // where byte_aligned() is a Bool stating whether the position of the
   // bitstream is in a byte boundary. So, if there is more than 1 byte
-  // left (8 bits left), clearly "there is more data in the RBSP before the
-  // rbsp_trailing_bits()"
+  // left (8 bits left), "there is more data in the RBSP before the
+  // rbsp_trailing_bits()", unless all there is after the stop bit are zeros
+  // (e.g. the trailing_zero_8bits of the byte stream format in Annex B).
   if (remaining_bitcount > 8) {
-    return true;
+    size_t byte_offset, bit_offset;
+    bit_buffer->GetCurrentOffset(&byte_offset, &bit_offset);
+    uint32_t bits_tmp = 0;
+    bool only_trailing = bit_buffer->ReadBits(1, bits_tmp) && (bits_tmp == 1);
+    while (only_trailing && bit_buffer->RemainingBitCount() > 0) {
+      uint64_t left = bit_buffer->RemainingBitCount();
+      size_t bit_count = (left < 32) ? static_cast<size_t>(left) : 32;
+      only_trailing =
+          bit_buffer->ReadBits(bit_count, bits_tmp) && (bits_tmp == 0);
+    }
+    bit_buffer->Seek(byte_offset, bit_offset);
+    return !only_trailing;
   }
 
   // (2) if we are indeed in the last byte, we just need to know whether the
-- 
2.43.0


From cfc0f2c2430992fc7da081d8c0b8356586119973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:33 +0000
Subject: [PATCH 10/26] fix: BitBuffer: zero-width WriteBits and single-value
 ReadNonSymmetric

WriteBits(val, 0) shifted by 64 and touched the byte at the cursor even at the
end of the buffer; ReadNonSymmetric(1) failed instead of returning 0.
---
 src/rtc_common.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index 2cff42a..c6fd89b 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -219,6 +219,12 @@ bool BitBuffer::ReadNonSymmetric(uint32_t num_values, uint32_t& val) {
   size_t count_bits = CountBits(num_values);
   uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
 
+  if (count_bits == 1) {
+    // a single possible value takes no bits
+    val = 0;
+    return true;
+  }
+
   if (!ReadBits(count_bits - 1, val)) {
     return false;
   }
@@ -321,9 +327,13 @@ bool BitBufferWriter::WriteUInt32(uint32_t val) {
 }
 
 bool BitBufferWriter::WriteBits(uint64_t val, size_t bit_count) {
-  if (bit_count > RemainingBitCount()) {
+  if (bit_count > 64 || bit_count > RemainingBitCount()) {
     return false;
   }
+  if (bit_count == 0) {
+    // nothing to write: the current byte may be past the end of the buffer
+    return true;
+  }
   size_t total_bits = bit_count;
 
   // For simplicity, push the bits we want to read from val to the highest bits.
-- 
2.43.0


From f83f5c1322cbfe1c85bed7fe0ebb875a5c401b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:49 +0000
Subject: [PATCH 11/26] fix: fdump: print the signed (se(v)) elements of slice
 headers and the SPS SVC extension as signed

---
 ...ice_header_in_scalable_extension_parser.cc | 20 +++++++++----------
 src/h264_slice_header_parser.cc               |  4 ++--
 src/h264_sps_svc_extension_parser.cc          |  8 ++++----
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/h264_slice_header_in_scalable_extension_parser.cc b/src/h264_slice_header_in_scalable_extension_parser.cc
index 575c877..a11d6cc 100644
--- a/src/h264_slice_header_in_scalable_extension_parser.cc
+++ b/src/h264_slice_header_in_scalable_extension_parser.cc
@@ -769,7 +769,7 @@ void H264SliceHeaderInScalableExtensionParser::
 
     if (bottom_field_pic_order_in_frame_present_flag && !field_pic_flag) {
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "delta_pic_order_cnt_bottom: %u",
+      fprintf(outfp, "delta_pic_order_cnt_bottom: %i",
               delta_pic_order_cnt_bottom);
     }
   }
@@ -858,7 +858,7 @@ void H264SliceHeaderInScalableExtensionParser::
   }
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "slice_qp_delta: %u", slice_qp_delta);
+  fprintf(outfp, "slice_qp_delta: %i", slice_qp_delta);
 
   if (deblocking_filter_control_present_flag) {
     fdump_indent_level(outfp, indent_level);
@@ -867,11 +867,11 @@ void H264SliceHeaderInScalableExtensionParser::
 
     if (disable_deblocking_filter_idc != 1) {
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "slice_alpha_c0_offset_div2: %u",
+      fprintf(outfp, "slice_alpha_c0_offset_div2: %i",
               slice_alpha_c0_offset_div2);
 
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "slice_beta_offset_div2: %u", slice_beta_offset_div2);
+      fprintf(outfp, "slice_beta_offset_div2: %i", slice_beta_offset_div2);
     }
   }
 
@@ -892,10 +892,10 @@ void H264SliceHeaderInScalableExtensionParser::
 
       if (disable_inter_layer_deblocking_filter_idc != 1) {
         fdump_indent_level(outfp, indent_level);
-        fprintf(outfp, "inter_layer_slice_alpha_c0_offset_div2: %u",
+        fprintf(outfp, "inter_layer_slice_alpha_c0_offset_div2: %i",
                 inter_layer_slice_alpha_c0_offset_div2);
         fdump_indent_level(outfp, indent_level);
-        fprintf(outfp, "inter_layer_slice_beta_offset_div2: %u",
+        fprintf(outfp, "inter_layer_slice_beta_offset_div2: %i",
                 inter_layer_slice_beta_offset_div2);
       }
     }
@@ -915,16 +915,16 @@ void H264SliceHeaderInScalableExtensionParser::
       }
 
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "scaled_ref_layer_left_offset: %u",
+      fprintf(outfp, "scaled_ref_layer_left_offset: %i",
               scaled_ref_layer_left_offset);
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "scaled_ref_layer_top_offset: %u",
+      fprintf(outfp, "scaled_ref_layer_top_offset: %i",
               scaled_ref_layer_top_offset);
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "scaled_ref_layer_right_offset: %u",
+      fprintf(outfp, "scaled_ref_layer_right_offset: %i",
               scaled_ref_layer_right_offset);
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "scaled_ref_layer_bottom_offset: %u",
+      fprintf(outfp, "scaled_ref_layer_bottom_offset: %i",
               scaled_ref_layer_bottom_offset);
     }
   }
diff --git a/src/h264_slice_header_parser.cc b/src/h264_slice_header_parser.cc
index 9055bd5..1ad5e4b 100644
--- a/src/h264_slice_header_parser.cc
+++ b/src/h264_slice_header_parser.cc
@@ -694,11 +694,11 @@ void H264SliceHeaderParser::SliceHeaderState::fdump(FILE* outfp,
 
     if (disable_deblocking_filter_idc != 1) {
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "slice_alpha_c0_offset_div2: %u",
+      fprintf(outfp, "slice_alpha_c0_offset_div2: %i",
               slice_alpha_c0_offset_div2);
 
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "slice_beta_offset_div2: %u", slice_beta_offset_div2);
+      fprintf(outfp, "slice_beta_offset_div2: %i", slice_beta_offset_div2);
     }
   }
 
diff --git a/src/h264_sps_svc_extension_parser.cc b/src/h264_sps_svc_extension_parser.cc
index a126e96..0d9197e 100644
--- a/src/h264_sps_svc_extension_parser.cc
+++ b/src/h264_sps_svc_extension_parser.cc
@@ -166,19 +166,19 @@ void H264SpsSvcExtensionParser::SpsSvcExtensionState::fdump(
     }
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "seq_scaled_ref_layer_left_offset: %u",
+    fprintf(outfp, "seq_scaled_ref_layer_left_offset: %i",
             seq_scaled_ref_layer_left_offset);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "seq_scaled_ref_layer_top_offset: %u",
+    fprintf(outfp, "seq_scaled_ref_layer_top_offset: %i",
             seq_scaled_ref_layer_top_offset);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "seq_scaled_ref_layer_right_offset: %u",
+    fprintf(outfp, "seq_scaled_ref_layer_right_offset: %i",
             seq_scaled_ref_layer_right_offset);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "seq_scaled_ref_layer_bottom_offset: %u",
+    fprintf(outfp, "seq_scaled_ref_layer_bottom_offset: %i",
             seq_scaled_ref_layer_bottom_offset);
   }
 
-- 
2.43.0


From 3010705f992efc6498cae8a07a1144422755b591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:49 +0000
Subject: [PATCH 12/26] fix: hrd_parameters() fdump: cpb_size_scale was missing

---
 src/h264_hrd_parameters_parser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/h264_hrd_parameters_parser.cc b/src/h264_hrd_parameters_parser.cc
index 28f4737..76d5e58 100644
--- a/src/h264_hrd_parameters_parser.cc
+++ b/src/h264_hrd_parameters_parser.cc
@@ -123,6 +123,9 @@ void H264HrdParametersParser::HrdParametersState::fdump(
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "bit_rate_scale: %u", bit_rate_scale);
 
+  fdump_indent_level(outfp, indent_level);
+  fprintf(outfp, "cpb_size_scale: %u", cpb_size_scale);
+
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "bit_rate_value_minus1 {");
   for (const uint32_t& v : bit_rate_value_minus1) {
-- 
2.43.0


From d7de255fa2b55d37c668573660d89ef425eabab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:50 +0000
Subject: [PATCH 13/26] fix: rtp fdump: separate the packet structure from the
 NAL unit header

---
 src/h264_rtp_parser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/h264_rtp_parser.cc b/src/h264_rtp_parser.cc
index 0802247..cec31e8 100644
--- a/src/h264_rtp_parser.cc
+++ b/src/h264_rtp_parser.cc
@@ -90,12 +90,15 @@ void H264RtpParser::RtpState::fdump(FILE* outfp, int indent_level,
 
   if (nal_unit_header->nal_unit_type <= 23) {
     // rtp_single()
+    fdump_indent_level(outfp, indent_level);
     rtp_single->fdump(outfp, indent_level, parsing_options);
   } else if (nal_unit_header->nal_unit_type == RTP_STAPA_NUT) {
     // rtp_stapa()
+    fdump_indent_level(outfp, indent_level);
     rtp_stapa->fdump(outfp, indent_level, parsing_options);
   } else if (nal_unit_header->nal_unit_type == RTP_FUA_NUT) {
     // rtp_fua()
+    fdump_indent_level(outfp, indent_level);
     rtp_fua->fdump(outfp, indent_level, parsing_options);
   }
 
-- 
2.43.0


From 6f33f542858937e26c2a8ced56ec7e1361dd55fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:50 +0000
Subject: [PATCH 14/26] fix: prefix_nal_unit_svc() fdump:
 additional_prefix_nal_unit_extension_flag was missing

---
 src/h264_prefix_nal_unit_parser.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/h264_prefix_nal_unit_parser.cc b/src/h264_prefix_nal_unit_parser.cc
index 9541eaa..a5f7d1d 100644
--- a/src/h264_prefix_nal_unit_parser.cc
+++ b/src/h264_prefix_nal_unit_parser.cc
@@ -152,6 +152,12 @@ void H264PrefixNalUnitSvcParser::PrefixNalUnitSvcState::fdump(
       // dec_ref_base_pic_marking()
     }
 
+    fdump_indent_level(outfp, indent_level);
+    fprintf(outfp, "additional_prefix_nal_unit_extension_flag: %u",
+            additional_prefix_nal_unit_extension_flag);
+  }
+
+  if (nal_ref_idc == 0 || additional_prefix_nal_unit_extension_flag) {
     fdump_indent_level(outfp, indent_level);
     fprintf(outfp, "additional_prefix_nal_unit_extension_data_flag: %u",
             additional_prefix_nal_unit_extension_data_flag);
-- 
2.43.0


From 29ae5dad8db7dbc7c4aa8cf202b20bebfb56b431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:00 +0000
Subject: [PATCH 15/26] fix: h264nal-split.py: do not take sar_width/sar_height
 for the resolution

The SPS dump prints the VUI (whose sar_width and sar_height come first) before
width and height, so a stream with an extended SAR was split by its sample
aspect ratio.
---
 tools/h264nal-split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/h264nal-split.py b/tools/h264nal-split.py
index ba4c9d8..da2eba5 100755
--- a/tools/h264nal-split.py
+++ b/tools/h264nal-split.py
@@ -64,8 +64,8 @@ def parse_nal_units(content):
         if type_m:
             nal["nal_unit_type"] = int(type_m.group(1))
 
-        width_m = re.search(r"width: (\d+)", nal_text)
-        height_m = re.search(r"height: (\d+)", nal_text)
+        width_m = re.search(r"\bwidth: (\d+)", nal_text)
+        height_m = re.search(r"\bheight: (\d+)", nal_text)
         if width_m and height_m:
             nal["width"] = int(width_m.group(1))
             nal["height"] = int(height_m.group(1))
-- 
2.43.0


From fb5cf359e4677d0028d72ca76934396f4c703f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:12 +0000
Subject: [PATCH 16/26] fix: h264nal tool: build with H264NAL_SMALL_FOOTPRINT

outfp and must_close_fp only exist when FDUMP_DEFINE is set, but the clean-up
that uses them was outside the #ifdef, so the small footprint build failed.
---
 tools/h264nal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/h264nal.cc b/tools/h264nal.cc
index 5370fa5..9f643b2 100644
--- a/tools/h264nal.cc
+++ b/tools/h264nal.cc
@@ -555,12 +555,12 @@ int main(int argc, char** argv) {
       }
     }
   }
-#endif  // FDUMP_DEFINE
 
   // clean-up FD
   if (must_close_fp) {
     fclose(outfp);
   }
+#endif  // FDUMP_DEFINE
 
   // 5. report how the parse went
   //   kExitOk: every NAL unit parsed
-- 
2.43.0


From 0afef0d35aa64f3068b82ac7f51c32022416a0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:09 +0000
Subject: [PATCH 17/26] fix: h264nal-dpb_parse.py: slice_type 5 to 9

slice_type 5 to 9 mean the same as 0 to 4 (Table 7-6), but were shown as "?N"
and, as P pictures, without references. SP pictures use list 0 as well.
---
 tools/h264nal-dpb_parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 77daa00..4b751f6 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -72,7 +72,7 @@ def parse_frames(content):
 
         frame = {
             "nal_type": nal_type,
-            "slice_type": slice_type,
+            "slice_type": slice_type % 5,
             "frame_num": frame_num,
             "nal_ref_idc": nal_ref_idc,
             "is_idr": nal_type == 5,
@@ -302,7 +302,7 @@ def simulate_dpb(sps, frames, outfile):
 
         dpb_before = dpb_str(dpb)
 
-        if frame["slice_type"] in (0, 1) and dpb:
+        if frame["slice_type"] in (0, 1, 3) and dpb:
             ref_list = build_ref_pic_list0(dpb, frame)
             ref_list = apply_rplm(ref_list, frame, max_frame_num)
             num_active = frame.get("num_ref_idx_l0_active", 1)
-- 
2.43.0


From 709e6c8152b0b5ee50d658541bc113a27bcf8a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:09 +0000
Subject: [PATCH 18/26] fix: h264nal-dpb_parse.py: use the PPS the slice refers
 to

num_ref_idx_l0_default_active_minus1 was taken from the last PPS of the stream
so far, whatever pic_parameter_set_id said.
---
 tools/h264nal-dpb_parse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 4b751f6..5640d27 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -52,7 +52,8 @@ def parse_frames(content):
             continue
 
         if nal_type == 8:
-            pps["num_ref_idx_l0_default_active_minus1"] = int(
+            pps_id = int(re.search(r"pic_parameter_set_id: (\d+)", nal_text).group(1))
+            pps[pps_id] = int(
                 re.search(
                     r"num_ref_idx_l0_default_active_minus1: (\d+)", nal_text
                 ).group(1)
@@ -84,9 +85,8 @@ def parse_frames(content):
             l0_m = re.search(r"num_ref_idx_l0_active_minus1: (\d+)", nal_text)
             frame["num_ref_idx_l0_active"] = int(l0_m.group(1)) + 1
         else:
-            frame["num_ref_idx_l0_active"] = (
-                pps.get("num_ref_idx_l0_default_active_minus1", 0) + 1
-            )
+            pps_id = int(re.search(r"pic_parameter_set_id: (\d+)", nal_text).group(1))
+            frame["num_ref_idx_l0_active"] = pps.get(pps_id, 0) + 1
 
         if nal_type == 5:
             ltr_m = re.search(r"long_term_reference_flag: (\d+)", nal_text)
-- 
2.43.0


From 5b659c6186a8bfa899b038fcd764c12f781fcc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:10 +0000
Subject: [PATCH 19/26] fix: h264nal-dpb_parse.py: frame_num wraps around

A picture named by difference_of_pic_nums_minus1 has frame_num modulo
MaxFrameNum, and list 0 is in order of FrameNumWrap, not of frame_num
(8.2.4.1).
---
 tools/h264nal-dpb_parse.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 5640d27..9c1970d 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -169,10 +169,15 @@ def dpb_str(dpb):
     return ";".join(entry_str(e) for e in dpb)
 
 
-def build_ref_pic_list0(dpb, frame):
+def build_ref_pic_list0(dpb, frame, max_frame_num):
+    def frame_num_wrap(e):
+        if e["frame_num"] > frame["frame_num"]:
+            return e["frame_num"] - max_frame_num
+        return e["frame_num"]
+
     strs = sorted(
         [e for e in dpb if not e["is_ltr"]],
-        key=lambda e: e["frame_num"],
+        key=frame_num_wrap,
         reverse=True,
     )
     ltrs = sorted(
@@ -237,7 +242,7 @@ def refs_used_str(ref_list, num_active):
     return ";".join(entry_str(e) for e in active)
 
 
-def mmco_str(frame):
+def mmco_str(frame, max_frame_num):
     if frame.get("is_idr"):
         if frame.get("long_term_reference_flag", 0):
             return "IDR:LTR[0]"
@@ -257,14 +262,14 @@ def mmco_str(frame):
         elif op == 1:
             diff = frame["diff_pic_nums"][diff_idx]
             diff_idx += 1
-            pic_num = frame["frame_num"] - (diff + 1)
+            pic_num = (frame["frame_num"] - (diff + 1)) % max_frame_num
             parts.append(f"MMCO1:rm_STR(fn={pic_num})")
         elif op == 2:
             parts.append("MMCO2:rm_LTR")
         elif op == 3:
             diff = frame["diff_pic_nums"][diff_idx]
             diff_idx += 1
-            pic_num = frame["frame_num"] - (diff + 1)
+            pic_num = (frame["frame_num"] - (diff + 1)) % max_frame_num
             ltf = frame["long_term_frame_idx"][ltfi_idx]
             ltfi_idx += 1
             parts.append(f"MMCO3:STR(fn={pic_num})->LTR[{ltf}]")
@@ -303,7 +308,7 @@ def simulate_dpb(sps, frames, outfile):
         dpb_before = dpb_str(dpb)
 
         if frame["slice_type"] in (0, 1, 3) and dpb:
-            ref_list = build_ref_pic_list0(dpb, frame)
+            ref_list = build_ref_pic_list0(dpb, frame, max_frame_num)
             ref_list = apply_rplm(ref_list, frame, max_frame_num)
             num_active = frame.get("num_ref_idx_l0_active", 1)
             refs = refs_used_str(ref_list, num_active)
@@ -312,7 +317,7 @@ def simulate_dpb(sps, frames, outfile):
 
         ft = frame_type_str(frame)
         ref_mark = "Y" if frame["is_ref"] else "N"
-        mmco = mmco_str(frame)
+        mmco = mmco_str(frame, max_frame_num)
 
         if frame["is_idr"]:
             if frame.get("long_term_reference_flag", 0):
@@ -346,7 +351,9 @@ def simulate_dpb(sps, frames, outfile):
                 elif op == 1:
                     diff = frame["diff_pic_nums"][diff_idx]
                     diff_idx += 1
-                    pic_num_to_remove = frame["frame_num"] - (diff + 1)
+                    pic_num_to_remove = (
+                        frame["frame_num"] - (diff + 1)
+                    ) % max_frame_num
                     dpb = [
                         e
                         for e in dpb
@@ -357,7 +364,7 @@ def simulate_dpb(sps, frames, outfile):
                 elif op == 3:
                     diff = frame["diff_pic_nums"][diff_idx]
                     diff_idx += 1
-                    pic_num = frame["frame_num"] - (diff + 1)
+                    pic_num = (frame["frame_num"] - (diff + 1)) % max_frame_num
                     ltf_idx = frame["long_term_frame_idx"][ltfi_idx]
                     ltfi_idx += 1
                     for e in dpb:
-- 
2.43.0


From ef0fb9d1f202f3baafb653c1d196452ca9f98add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:10 +0000
Subject: [PATCH 20/26] fix: h264nal-dpb_parse.py: keep the current picture
 after memory management

A reference picture with adaptive marking was only kept if it made itself a
long-term one. Without that it stays as a short-term reference (8.2.5.1), and
after memory_management_control_operation 5 with frame_num 0 (7.4.3).
---
 tools/h264nal-dpb_parse.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 9c1970d..95f9f33 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -343,6 +343,8 @@ def simulate_dpb(sps, frames, outfile):
             ltfi_idx = 0
             mltfi_idx = 0
             ops = frame["mmco"]
+            frame_num = frame["frame_num"]
+            is_ltr = False
             i = 0
             while i < len(ops):
                 op = ops[i]
@@ -385,6 +387,7 @@ def simulate_dpb(sps, frames, outfile):
                         ]
                 elif op == 5:
                     dpb = []
+                    frame_num = 0
                 elif op == 6:
                     ltf_idx = frame["long_term_frame_idx"][ltfi_idx]
                     ltfi_idx += 1
@@ -393,13 +396,23 @@ def simulate_dpb(sps, frames, outfile):
                     ]
                     dpb.append(
                         {
-                            "frame_num": frame["frame_num"],
+                            "frame_num": frame_num,
                             "is_ltr": True,
                             "ltr_idx": ltf_idx,
                             "abs_frame": abs_frame,
                         }
                     )
+                    is_ltr = True
                 i += 1
+            if not is_ltr:
+                dpb.append(
+                    {
+                        "frame_num": frame_num,
+                        "is_ltr": False,
+                        "ltr_idx": -1,
+                        "abs_frame": abs_frame,
+                    }
+                )
         elif frame["is_ref"]:
             dpb.append(
                 {
-- 
2.43.0


From ec5582ac329a1c6df10eb891cf9d8ee15e0069a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:10 +0000
Subject: [PATCH 21/26] fix: h264nal-dpb_parse.py:
 memory_management_control_operation 2

Operation 2 (mark a long-term picture as unused) was ignored. Its
long_term_pic_num is the one of dec_ref_pic_marking(), not the one of
ref_pic_list_modification().
---
 tools/h264nal-dpb_parse.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 95f9f33..cb15472 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -98,6 +98,11 @@ def parse_frames(content):
                 r"memory_management_control_operation \{ ([^}]*)\}", nal_text
             )
             diff_m = re.search(r"difference_of_pic_nums_minus1 \{ ([^}]*)\}", nal_text)
+            ltpn_m = re.search(
+                r"dec_ref_pic_marking \{.*?long_term_pic_num \{ ([^}]*)\}",
+                nal_text,
+                flags=re.DOTALL,
+            )
             ltfi_m = re.search(r"long_term_frame_idx \{ ([^}]*)\}", nal_text)
             mltfi_m = re.search(r"max_long_term_frame_idx_plus1 \{ ([^}]*)\}", nal_text)
             frame["mmco"] = [int(x) for x in mmco_m.group(1).split()] if mmco_m else []
@@ -106,6 +111,11 @@ def parse_frames(content):
                 if diff_m and diff_m.group(1).strip()
                 else []
             )
+            frame["long_term_pic_num"] = (
+                [int(x) for x in ltpn_m.group(1).split()]
+                if ltpn_m and ltpn_m.group(1).strip()
+                else []
+            )
             frame["long_term_frame_idx"] = (
                 [int(x) for x in ltfi_m.group(1).split()]
                 if ltfi_m and ltfi_m.group(1).strip()
@@ -340,6 +350,7 @@ def simulate_dpb(sps, frames, outfile):
                 )
         elif frame["mmco"]:
             diff_idx = 0
+            ltpn_idx = 0
             ltfi_idx = 0
             mltfi_idx = 0
             ops = frame["mmco"]
@@ -362,7 +373,13 @@ def simulate_dpb(sps, frames, outfile):
                         if not (not e["is_ltr"] and e["frame_num"] == pic_num_to_remove)
                     ]
                 elif op == 2:
-                    pass
+                    lt_pic_num = frame["long_term_pic_num"][ltpn_idx]
+                    ltpn_idx += 1
+                    dpb = [
+                        e
+                        for e in dpb
+                        if not (e["is_ltr"] and e["ltr_idx"] == lt_pic_num)
+                    ]
                 elif op == 3:
                     diff = frame["diff_pic_nums"][diff_idx]
                     diff_idx += 1
-- 
2.43.0


From 7b320b8a2dac4d63744df5cd5716afcd155defc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:10 +0000
Subject: [PATCH 22/26] fix: h264nal-dpb_parse.py: a long-term index has one
 owner

memory_management_control_operation 3 frees the LongTermFrameIdx it assigns
when another frame has it (8.2.5.4.3).
---
 tools/h264nal-dpb_parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index cb15472..f3d9ccd 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -386,6 +386,9 @@ def simulate_dpb(sps, frames, outfile):
                     pic_num = (frame["frame_num"] - (diff + 1)) % max_frame_num
                     ltf_idx = frame["long_term_frame_idx"][ltfi_idx]
                     ltfi_idx += 1
+                    dpb = [
+                        e for e in dpb if not (e["is_ltr"] and e["ltr_idx"] == ltf_idx)
+                    ]
                     for e in dpb:
                         if not e["is_ltr"] and e["frame_num"] == pic_num:
                             e["is_ltr"] = True
-- 
2.43.0


From 54242f8a04797e16a0ea5b20bdefcb501551dfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:10 +0000
Subject: [PATCH 23/26] fix: h264nal-dpb_parse.py: sliding window

There is room for Max(max_num_ref_frames, 1) frames (8.2.5.3), and the picture
just decoded is not the one to remove. With max_num_ref_frames equal to 0 and a
long-term IDR picture, the loop did not end.
---
 tools/h264nal-dpb_parse.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index f3d9ccd..bf5f721 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -434,6 +434,14 @@ def simulate_dpb(sps, frames, outfile):
                     }
                 )
         elif frame["is_ref"]:
+            str_count = sum(1 for e in dpb if not e["is_ltr"])
+            ltr_count = sum(1 for e in dpb if e["is_ltr"])
+            while str_count > 0 and str_count + ltr_count >= max(max_num_ref_frames, 1):
+                for j, e in enumerate(dpb):
+                    if not e["is_ltr"]:
+                        dpb.pop(j)
+                        str_count -= 1
+                        break
             dpb.append(
                 {
                     "frame_num": frame["frame_num"],
@@ -442,14 +450,6 @@ def simulate_dpb(sps, frames, outfile):
                     "abs_frame": abs_frame,
                 }
             )
-            str_count = sum(1 for e in dpb if not e["is_ltr"])
-            ltr_count = sum(1 for e in dpb if e["is_ltr"])
-            while str_count + ltr_count > max_num_ref_frames:
-                for j, e in enumerate(dpb):
-                    if not e["is_ltr"]:
-                        dpb.pop(j)
-                        str_count -= 1
-                        break
 
         dpb_after = dpb_str(dpb)
 
-- 
2.43.0


From 93e06588a0d1643b56a8e067d290b3ca1f33cdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:10 +0000
Subject: [PATCH 24/26] fix: h264nal-dpb_parse.py: a picture may be in list 0
 more than once

ref_pic_list_modification() inserts the picture it names and removes its later
entries only (8.2.4.3.1), it does not move it.
---
 tools/h264nal-dpb_parse.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index bf5f721..3439775 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -228,8 +228,10 @@ def apply_rplm(ref_list, frame, max_frame_num):
                     found = i
                     break
             if found is not None:
-                entry = ref_list.pop(found)
-                ref_list.insert(ref_idx, entry)
+                entry = ref_list[found]
+                ref_list[ref_idx:] = [entry] + [
+                    e for e in ref_list[ref_idx:] if e is not entry
+                ]
                 ref_idx += 1
         elif idc == 2:
             lt_num = lt_pic_nums[lt_idx]
@@ -240,8 +242,10 @@ def apply_rplm(ref_list, frame, max_frame_num):
                     found = i
                     break
             if found is not None:
-                entry = ref_list.pop(found)
-                ref_list.insert(ref_idx, entry)
+                entry = ref_list[found]
+                ref_list[ref_idx:] = [entry] + [
+                    e for e in ref_list[ref_idx:] if e is not entry
+                ]
                 ref_idx += 1
 
     return ref_list
-- 
2.43.0


From 0a973068889b7b75c3de6e3e75d5ace04495541b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:28 +0000
Subject: [PATCH 25/26] fix: shift by 32 in the non-symmetric codes of 2^31
 values

---
 src/rtc_common.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index c6fd89b..560d9f2 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -217,7 +217,8 @@ bool BitBuffer::ReadNonSymmetric(uint32_t num_values, uint32_t& val) {
   RTC_DCHECK_GT(num_values, 0);
   RTC_DCHECK_LE(num_values, uint32_t{1} << 31);
   size_t count_bits = CountBits(num_values);
-  uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
+  uint32_t num_min_bits_values =
+      static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
 
   if (count_bits == 1) {
     // a single possible value takes no bits
@@ -379,7 +380,8 @@ bool BitBufferWriter::WriteNonSymmetric(uint32_t val, uint32_t num_values) {
   RTC_DCHECK_LT(val, num_values);
   RTC_DCHECK_LE(num_values, uint32_t{1} << 31);
   size_t count_bits = CountBits(num_values);
-  uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
+  uint32_t num_min_bits_values =
+      static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
 
   return val < num_min_bits_values
              ? WriteBits(val, count_bits - 1)
@@ -391,7 +393,8 @@ size_t BitBufferWriter::SizeNonSymmetricBits(uint32_t val,
   RTC_DCHECK_LT(val, num_values);
   RTC_DCHECK_LE(num_values, uint32_t{1} << 31);
   size_t count_bits = CountBits(num_values);
-  uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
+  uint32_t num_min_bits_values =
+      static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
 
   return val < num_min_bits_values ? (count_bits - 1) : count_bits;
 }
-- 
2.43.0


From ee0d4d06fe11364fc305a5517b3de024821e23d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:26 +0000
Subject: [PATCH 26/26] fix: explicit framing index wraps around at a unit of
 almost 4 GiB

4 + nal_unit_size was computed in 32 bits: for sizes from 2^32 - 4 on the
next length field was read from inside the unit (or the loop never ended).
---
 src/h264_bitstream_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h264_bitstream_parser.cc b/src/h264_bitstream_parser.cc
index 64d36ad..18172e6 100644
--- a/src/h264_bitstream_parser.cc
+++ b/src/h264_bitstream_parser.cc
@@ -116,7 +116,7 @@ H264BitstreamParser::FindNaluIndicesExplicitFraming(const uint8_t* data,
     // This is a start sequence
     NaluIndex index = {i, i + 4, nal_unit_size};
     sequences.push_back(index);
-    i += (4 + nal_unit_size);
+    i += 4 + static_cast<size_t>(nal_unit_size);
   }
 
   return sequences;
-- 
2.43.0

