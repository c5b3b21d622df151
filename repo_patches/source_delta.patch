From ed95af718d125f9aa87f2a461868342743a71726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:28 +0000
Subject: [PATCH 01/28] fix: do not let a huge NALU length field wrap around
 the bounds check

With 8-byte NALU length fields, i + nalu_length could wrap around and pass
the bounds check, so the parser read past the end of the buffer.
---
 src/h264_bitstream_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h264_bitstream_parser.cc b/src/h264_bitstream_parser.cc
index 8758315..01f3609 100644
--- a/src/h264_bitstream_parser.cc
+++ b/src/h264_bitstream_parser.cc
@@ -216,7 +216,7 @@ H264BitstreamParser::ParseBitstreamNALULength(
         break;
       }
       i += nalu_length_bytes;
-      if (nalu_length == 0 || i + nalu_length > length) {
+      if (nalu_length == 0 || nalu_length > length - i) {
         break;
       }
     } else {
-- 
2.43.0


From e97a3754e9ba16d2ceb6d518af0d96d96d6588a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:28 +0000
Subject: [PATCH 02/28] fix: report the NAL unit length in explicit length
 framing

ParseBitstreamNALULength() reported the size of the length field instead of
the length of the NAL unit.
---
 src/h264_bitstream_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h264_bitstream_parser.cc b/src/h264_bitstream_parser.cc
index 01f3609..afbf66a 100644
--- a/src/h264_bitstream_parser.cc
+++ b/src/h264_bitstream_parser.cc
@@ -237,7 +237,7 @@ H264BitstreamParser::ParseBitstreamNALULength(
     }
     // store the offset
     nal_unit->offset = i;
-    nal_unit->length = nalu_length_bytes;
+    nal_unit->length = nalu_length;
 
     bitstream->nal_units.push_back(std::move(nal_unit));
 
-- 
2.43.0


From 9379ac0dd4da5dda40e75f111347f8315ab2155e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:20 +0000
Subject: [PATCH 03/28] fix: report an error reading stdin instead of treating
 it as the end of the input

---
 src/h264_utils.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/h264_utils.cc b/src/h264_utils.cc
index 1f0beee..65e357a 100644
--- a/src/h264_utils.cc
+++ b/src/h264_utils.cc
@@ -22,6 +22,10 @@ int ReadStdinToBuffer(std::vector<uint8_t>& buffer) {
     if (bytes_read <= 0) break;
     buffer.insert(buffer.end(), temp, temp + bytes_read);
   }
+  if (std::cin.bad() || ferror(stdin)) {
+    fprintf(stderr, "Could not read stdin\n");
+    return -1;
+  }
   return 0;
 }
 }  // namespace
-- 
2.43.0


From b1d5191f738d1d5dd9983c5844745d1b44c5807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:00 +0000
Subject: [PATCH 04/28] fix: report a failure to write the dump instead of
 exiting with success

---
 tools/h264nal.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tools/h264nal.cc b/tools/h264nal.cc
index 5370fa5..b94d054 100644
--- a/tools/h264nal.cc
+++ b/tools/h264nal.cc
@@ -557,9 +557,16 @@ int main(int argc, char** argv) {
   }
 #endif  // FDUMP_DEFINE
 
-  // clean-up FD
+  // clean-up FD, making sure the whole dump reached the output
+  bool output_error = (fflush(outfp) != 0);
+  output_error |= (ferror(outfp) != 0);
   if (must_close_fp) {
-    fclose(outfp);
+    output_error |= (fclose(outfp) != 0);
+  }
+  if (output_error) {
+    fprintf(stderr, "Could not write output file: \"%s\"\n",
+            must_close_fp ? options.outfile : "-");
+    return -1;
   }
 
   // 5. report how the parse went
-- 
2.43.0


From 5a74071630dcb984ae29093b99936c41451179f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:21 +0000
Subject: [PATCH 05/28] fix: keep each NAL unit of an RTP STAP-A packet inside
 its own size

---
 include/h264_rtp_stapa_parser.h |  2 +-
 src/h264_rtp_parser.cc          |  5 +++++
 src/h264_rtp_stapa_parser.cc    | 26 +++++++++++++++++++++-----
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/include/h264_rtp_stapa_parser.h b/include/h264_rtp_stapa_parser.h
index 2e2a76e..8b71d03 100644
--- a/include/h264_rtp_stapa_parser.h
+++ b/include/h264_rtp_stapa_parser.h
@@ -46,7 +46,7 @@ class H264RtpStapAParser {
         nal_unit_payloads;
   };
 
-  // Unpack RBSP and parse RTP AP state from the supplied buffer.
+  // Parse RTP AP state from the supplied (escaped) buffer.
   static std::unique_ptr<RtpStapAState> ParseRtpStapA(
       const uint8_t* data, size_t length,
       struct H264BitstreamParserState* bitstream_parser_state) noexcept;
diff --git a/src/h264_rtp_parser.cc b/src/h264_rtp_parser.cc
index 8fc684f..d9b746b 100644
--- a/src/h264_rtp_parser.cc
+++ b/src/h264_rtp_parser.cc
@@ -24,6 +24,11 @@ namespace h264nal {
 std::unique_ptr<H264RtpParser::RtpState> H264RtpParser::ParseRtp(
     const uint8_t* data, size_t length,
     struct H264BitstreamParserState* bitstream_parser_state) noexcept {
+  if (length > 0 && (data[0] & 0x1f) == RTP_STAPA_NUT) {
+    // the STAP-A parser unescapes each of the aggregated NAL units
+    BitBuffer bit_buffer(data, length);
+    return ParseRtp(&bit_buffer, bitstream_parser_state);
+  }
   std::vector<uint8_t> unpacked_buffer = UnescapeRbsp(data, length);
   BitBuffer bit_buffer(unpacked_buffer.data(), unpacked_buffer.size());
   return ParseRtp(&bit_buffer, bitstream_parser_state);
diff --git a/src/h264_rtp_stapa_parser.cc b/src/h264_rtp_stapa_parser.cc
index 257c01f..f6d4b80 100644
--- a/src/h264_rtp_stapa_parser.cc
+++ b/src/h264_rtp_stapa_parser.cc
@@ -21,13 +21,14 @@ namespace h264nal {
 // You can find it on this page:
 // https://tools.ietf.org/html/rfc6184#section-5.6
 
-// Unpack RBSP and parse RTP STAP-A state from the supplied buffer.
+// Parse RTP STAP-A state from the supplied (escaped) buffer.
 std::unique_ptr<H264RtpStapAParser::RtpStapAState>
 H264RtpStapAParser::ParseRtpStapA(
     const uint8_t* data, size_t length,
     struct H264BitstreamParserState* bitstream_parser_state) noexcept {
-  std::vector<uint8_t> unpacked_buffer = UnescapeRbsp(data, length);
-  BitBuffer bit_buffer(unpacked_buffer.data(), unpacked_buffer.size());
+  // the emulation prevention bytes belong to the aggregated NAL units, which
+  // are unescaped one by one: the sizes count the escaped bytes
+  BitBuffer bit_buffer(data, length);
   return ParseRtpStapA(&bit_buffer, bitstream_parser_state);
 }
 
@@ -63,9 +64,24 @@ H264RtpStapAParser::ParseRtpStapA(
     }
     rtp_stapa->nal_unit_sizes.push_back(nalu_size);
 
+    // keep the parsing inside the NALU. A byte left at the end cannot be
+    // another NALU size: it belongs to the last NALU
+    size_t nalu_length = nalu_size;
+    if (bit_buffer->RemainingBitCount() == (nalu_length + 1) * 8) {
+      nalu_length += 1;
+    }
+    std::vector<uint8_t> nalu(nalu_length);
+    for (uint8_t& nalu_byte : nalu) {
+      if (!bit_buffer->ReadUInt8(nalu_byte)) {
+        return nullptr;
+      }
+    }
+    std::vector<uint8_t> unpacked_nalu = UnescapeRbsp(nalu.data(), nalu.size());
+    BitBuffer nalu_bit_buffer(unpacked_nalu.data(), unpacked_nalu.size());
+
     // NALU header
     rtp_stapa->nal_unit_headers.push_back(
-        H264NalUnitHeaderParser::ParseNalUnitHeader(bit_buffer));
+        H264NalUnitHeaderParser::ParseNalUnitHeader(&nalu_bit_buffer));
     if (rtp_stapa->nal_unit_headers.back() == nullptr) {
 #ifdef FPRINT_ERRORS
       fprintf(stderr, "error: cannot ParseNalUnitHeader in rtp ap\n");
@@ -76,7 +92,7 @@ H264RtpStapAParser::ParseRtpStapA(
     // NALU payload
     rtp_stapa->nal_unit_payloads.push_back(
         H264NalUnitPayloadParser::ParseNalUnitPayload(
-            bit_buffer, *(rtp_stapa->nal_unit_headers.back()),
+            &nalu_bit_buffer, *(rtp_stapa->nal_unit_headers.back()),
             bitstream_parser_state));
     if (rtp_stapa->nal_unit_payloads.back() == nullptr) {
       return nullptr;
-- 
2.43.0


From 2e023655957a4f8f5c93e71e51b3eb3135a36fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:55 +0000
Subject: [PATCH 06/28] fix: reject a parameter set whose scaling list does not
 parse

---
 src/h264_pps_parser.cc | 12 ++++++++----
 src/h264_sps_parser.cc | 16 ++++++++++------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/h264_pps_parser.cc b/src/h264_pps_parser.cc
index 9c135cf..3fc0422 100644
--- a/src/h264_pps_parser.cc
+++ b/src/h264_pps_parser.cc
@@ -309,11 +309,15 @@ std::shared_ptr<H264PpsParser::PpsState> H264PpsParser::ParsePps(
         if (pps->pic_scaling_list_present_flag[i]) {
           // scaling_list()
           if (i < 6) {
-            (void)pps->scaling_list(bit_buffer, i, pps->ScalingList4x4, 16,
-                                    pps->UseDefaultScalingMatrix4x4Flag);
+            if (!pps->scaling_list(bit_buffer, i, pps->ScalingList4x4, 16,
+                                   pps->UseDefaultScalingMatrix4x4Flag)) {
+              return nullptr;
+            }
           } else {
-            (void)pps->scaling_list(bit_buffer, i - 6, pps->ScalingList8x8, 64,
-                                    pps->UseDefaultScalingMatrix4x4Flag);
+            if (!pps->scaling_list(bit_buffer, i - 6, pps->ScalingList8x8, 64,
+                                   pps->UseDefaultScalingMatrix8x8Flag)) {
+              return nullptr;
+            }
           }
         }
       }
diff --git a/src/h264_sps_parser.cc b/src/h264_sps_parser.cc
index 90cfe3a..1f8216d 100644
--- a/src/h264_sps_parser.cc
+++ b/src/h264_sps_parser.cc
@@ -192,13 +192,17 @@ H264SpsDataParser::ParseSpsData(BitBuffer* bit_buffer) noexcept {
         if (sps_data->seq_scaling_list_present_flag[i]) {
           // scaling_list()
           if (i < 6) {
-            (void)sps_data->scaling_list(
-                bit_buffer, i, sps_data->ScalingList4x4, 16,
-                sps_data->UseDefaultScalingMatrix4x4Flag);
+            if (!sps_data->scaling_list(
+                    bit_buffer, i, sps_data->ScalingList4x4, 16,
+                    sps_data->UseDefaultScalingMatrix4x4Flag)) {
+              return nullptr;
+            }
           } else {
-            (void)sps_data->scaling_list(
-                bit_buffer, i - 6, sps_data->ScalingList8x8, 64,
-                sps_data->UseDefaultScalingMatrix4x4Flag);
+            if (!sps_data->scaling_list(
+                    bit_buffer, i - 6, sps_data->ScalingList8x8, 64,
+                    sps_data->UseDefaultScalingMatrix8x8Flag)) {
+              return nullptr;
+            }
           }
         }
       }
-- 
2.43.0


From dbc75d8ab21971d5c422881f4dfc98ac7a12e774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:37 +0000
Subject: [PATCH 07/28] fix: use the PPS default reference counts in slice
 headers in scalable extension

---
 src/h264_slice_header_in_scalable_extension_parser.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/h264_slice_header_in_scalable_extension_parser.cc b/src/h264_slice_header_in_scalable_extension_parser.cc
index 58e3c17..ca9b899 100644
--- a/src/h264_slice_header_in_scalable_extension_parser.cc
+++ b/src/h264_slice_header_in_scalable_extension_parser.cc
@@ -341,6 +341,12 @@ H264SliceHeaderInScalableExtensionParser::ParseSliceHeaderInScalableExtension(
             return nullptr;
           }
         }
+      } else {
+        // use the default values from the PPS
+        shise->num_ref_idx_l0_active_minus1 =
+            pps->num_ref_idx_l0_default_active_minus1;
+        shise->num_ref_idx_l1_active_minus1 =
+            pps->num_ref_idx_l1_default_active_minus1;
       }
     }
 
-- 
2.43.0


From b37bb21480392b6933fcb668c2a1f5212a497e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:40 +0000
Subject: [PATCH 08/28] fix: reject a slice layer extension whose slice header
 does not parse

---
 src/h264_slice_layer_extension_rbsp_parser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/h264_slice_layer_extension_rbsp_parser.cc b/src/h264_slice_layer_extension_rbsp_parser.cc
index 1b53d6c..3407801 100644
--- a/src/h264_slice_layer_extension_rbsp_parser.cc
+++ b/src/h264_slice_layer_extension_rbsp_parser.cc
@@ -61,6 +61,10 @@ H264SliceLayerExtensionRbspParser::ParseSliceLayerExtensionRbsp(
         H264SliceHeaderInScalableExtensionParser::
             ParseSliceHeaderInScalableExtension(bit_buffer, nal_unit_header,
                                                 bitstream_parser_state);
+    if (slice_layer_extension_rbsp->slice_header_in_scalable_extension ==
+        nullptr) {
+      return nullptr;
+    }
     // if (!slice_skip_flag) {
     //   slice_data_in_scalable_extension()  // specified in Annex G
     // }
-- 
2.43.0


From be8ba3f1c52b4ebd69c2fe086a00cadb5b54ab3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:00 +0000
Subject: [PATCH 09/28] fix: leave the zero bytes after a NAL unit out of it

---
 src/h264_bitstream_parser.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/h264_bitstream_parser.cc b/src/h264_bitstream_parser.cc
index afbf66a..a6f0af2 100644
--- a/src/h264_bitstream_parser.cc
+++ b/src/h264_bitstream_parser.cc
@@ -87,6 +87,15 @@ H264BitstreamParser::FindNaluIndices(const uint8_t* data,
   if (it != sequences.rend())
     it->payload_size = length - it->payload_start_offset;
 
+  // A NAL unit cannot end in a zero byte: any zero byte before the next start
+  // sequence (trailing_zero_8bits, Annex B) is not part of it.
+  for (NaluIndex& index : sequences) {
+    while (index.payload_size > 0 &&
+           data[index.payload_start_offset + index.payload_size - 1] == 0) {
+      --index.payload_size;
+    }
+  }
+
   return sequences;
 }
 
-- 
2.43.0


From d5dba123633a5a033f926b546b6d073e2605b5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:30 +0000
Subject: [PATCH 10/28] fix: dump the signed slice header and SVC extension
 fields as signed

---
 ...ice_header_in_scalable_extension_parser.cc | 20 +++++++++----------
 src/h264_slice_header_parser.cc               |  4 ++--
 src/h264_sps_svc_extension_parser.cc          |  8 ++++----
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/h264_slice_header_in_scalable_extension_parser.cc b/src/h264_slice_header_in_scalable_extension_parser.cc
index ca9b899..c2dc9a2 100644
--- a/src/h264_slice_header_in_scalable_extension_parser.cc
+++ b/src/h264_slice_header_in_scalable_extension_parser.cc
@@ -769,7 +769,7 @@ void H264SliceHeaderInScalableExtensionParser::
 
     if (bottom_field_pic_order_in_frame_present_flag && !field_pic_flag) {
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "delta_pic_order_cnt_bottom: %u",
+      fprintf(outfp, "delta_pic_order_cnt_bottom: %i",
               delta_pic_order_cnt_bottom);
     }
   }
@@ -858,7 +858,7 @@ void H264SliceHeaderInScalableExtensionParser::
   }
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "slice_qp_delta: %u", slice_qp_delta);
+  fprintf(outfp, "slice_qp_delta: %i", slice_qp_delta);
 
   if (deblocking_filter_control_present_flag) {
     fdump_indent_level(outfp, indent_level);
@@ -867,11 +867,11 @@ void H264SliceHeaderInScalableExtensionParser::
 
     if (disable_deblocking_filter_idc != 1) {
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "slice_alpha_c0_offset_div2: %u",
+      fprintf(outfp, "slice_alpha_c0_offset_div2: %i",
               slice_alpha_c0_offset_div2);
 
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "slice_beta_offset_div2: %u", slice_beta_offset_div2);
+      fprintf(outfp, "slice_beta_offset_div2: %i", slice_beta_offset_div2);
     }
   }
 
@@ -892,10 +892,10 @@ void H264SliceHeaderInScalableExtensionParser::
 
       if (disable_inter_layer_deblocking_filter_idc != 1) {
         fdump_indent_level(outfp, indent_level);
-        fprintf(outfp, "inter_layer_slice_alpha_c0_offset_div2: %u",
+        fprintf(outfp, "inter_layer_slice_alpha_c0_offset_div2: %i",
                 inter_layer_slice_alpha_c0_offset_div2);
         fdump_indent_level(outfp, indent_level);
-        fprintf(outfp, "inter_layer_slice_beta_offset_div2: %u",
+        fprintf(outfp, "inter_layer_slice_beta_offset_div2: %i",
                 inter_layer_slice_beta_offset_div2);
       }
     }
@@ -915,16 +915,16 @@ void H264SliceHeaderInScalableExtensionParser::
       }
 
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "scaled_ref_layer_left_offset: %u",
+      fprintf(outfp, "scaled_ref_layer_left_offset: %i",
               scaled_ref_layer_left_offset);
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "scaled_ref_layer_top_offset: %u",
+      fprintf(outfp, "scaled_ref_layer_top_offset: %i",
               scaled_ref_layer_top_offset);
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "scaled_ref_layer_right_offset: %u",
+      fprintf(outfp, "scaled_ref_layer_right_offset: %i",
               scaled_ref_layer_right_offset);
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "scaled_ref_layer_bottom_offset: %u",
+      fprintf(outfp, "scaled_ref_layer_bottom_offset: %i",
               scaled_ref_layer_bottom_offset);
     }
   }
diff --git a/src/h264_slice_header_parser.cc b/src/h264_slice_header_parser.cc
index 9055bd5..1ad5e4b 100644
--- a/src/h264_slice_header_parser.cc
+++ b/src/h264_slice_header_parser.cc
@@ -694,11 +694,11 @@ void H264SliceHeaderParser::SliceHeaderState::fdump(FILE* outfp,
 
     if (disable_deblocking_filter_idc != 1) {
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "slice_alpha_c0_offset_div2: %u",
+      fprintf(outfp, "slice_alpha_c0_offset_div2: %i",
               slice_alpha_c0_offset_div2);
 
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "slice_beta_offset_div2: %u", slice_beta_offset_div2);
+      fprintf(outfp, "slice_beta_offset_div2: %i", slice_beta_offset_div2);
     }
   }
 
diff --git a/src/h264_sps_svc_extension_parser.cc b/src/h264_sps_svc_extension_parser.cc
index a126e96..0d9197e 100644
--- a/src/h264_sps_svc_extension_parser.cc
+++ b/src/h264_sps_svc_extension_parser.cc
@@ -166,19 +166,19 @@ void H264SpsSvcExtensionParser::SpsSvcExtensionState::fdump(
     }
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "seq_scaled_ref_layer_left_offset: %u",
+    fprintf(outfp, "seq_scaled_ref_layer_left_offset: %i",
             seq_scaled_ref_layer_left_offset);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "seq_scaled_ref_layer_top_offset: %u",
+    fprintf(outfp, "seq_scaled_ref_layer_top_offset: %i",
             seq_scaled_ref_layer_top_offset);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "seq_scaled_ref_layer_right_offset: %u",
+    fprintf(outfp, "seq_scaled_ref_layer_right_offset: %i",
             seq_scaled_ref_layer_right_offset);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "seq_scaled_ref_layer_bottom_offset: %u",
+    fprintf(outfp, "seq_scaled_ref_layer_bottom_offset: %i",
             seq_scaled_ref_layer_bottom_offset);
   }
 
-- 
2.43.0


From 899a27b2d65a045da52868e46431e1d66a7a2b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:26 +0000
Subject: [PATCH 11/28] fix: parse a PPS with the chroma format of the SPS it
 refers to

---
 src/h264_nal_unit_payload_parser.cc | 33 ++++++++++++++++-------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/h264_nal_unit_payload_parser.cc b/src/h264_nal_unit_payload_parser.cc
index 2db5073..1f3244e 100644
--- a/src/h264_nal_unit_payload_parser.cc
+++ b/src/h264_nal_unit_payload_parser.cc
@@ -101,22 +101,25 @@ H264NalUnitPayloadParser::ParseNalUnitPayload(
     }
     case PPS_NUT: {
       // pic_parameter_set_rbsp()
-      // TODO(chemag): Fix this
-      // This is a big pita in the h264 standard. The dependency on
-      // this field (`chroma_format_idc`, defined in the SPS) forces the
-      // parser to pass the full SPS map to the PPS parser: This would
-      // allow the PPS parser to first read the `seq_parameter_set_id`
-      // field, and then uses it with the SPS map to get the right
-      // `chroma_format_idc` value tp use.
-      // Unfortunately the SPS map is part of the BitstreamParserState,
-      // which itself depends on the PPS. This creates a circular
-      // dependency.
-      // A better solution would be to pass the SPS map to the PPS
-      // parser. This increases significantly the complexity of the
-      // parser, and the usage of the `chroma_format_idc` field
-      // For now, let's use the most common value, which corresponds
-      // to 4:2:0 subsampling.
+      // The PPS depends on the `chroma_format_idc` of the SPS it refers to.
+      // Peek the PPS and SPS identifiers, and use the SPS if we have seen it.
+      // Otherwise, use the most common value (4:2:0 subsampling).
       uint32_t chroma_format_idc = 1;
+      size_t byte_offset, bit_offset;
+      bit_buffer->GetCurrentOffset(&byte_offset, &bit_offset);
+      uint32_t peek_pps_id, peek_sps_id;
+      if (bit_buffer->ReadExponentialGolomb(peek_pps_id) &&
+          bit_buffer->ReadExponentialGolomb(peek_sps_id)) {
+        auto sps = bitstream_parser_state->GetSps(peek_sps_id);
+        auto subset_sps = bitstream_parser_state->GetSubsetSps(peek_sps_id);
+        if (sps != nullptr) {
+          chroma_format_idc = sps->sps_data->chroma_format_idc;
+        } else if (subset_sps != nullptr) {
+          chroma_format_idc =
+              subset_sps->seq_parameter_set_data->chroma_format_idc;
+        }
+      }
+      bit_buffer->Seek(byte_offset, bit_offset);
       nal_unit_payload->pps =
           H264PpsParser::ParsePps(bit_buffer, chroma_format_idc);
       if (nal_unit_payload->pps != nullptr) {
-- 
2.43.0


From a3f34b7ef8ea675c815cfd03f956cdf40f84dfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:24 +0000
Subject: [PATCH 12/28] fix: end a NAL unit at a start code that is cut right
 after it

A stream cut right after a start code had that start code reported as part
of the previous, complete NAL unit.
---
 src/h264_bitstream_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h264_bitstream_parser.cc b/src/h264_bitstream_parser.cc
index a6f0af2..d8be727 100644
--- a/src/h264_bitstream_parser.cc
+++ b/src/h264_bitstream_parser.cc
@@ -60,7 +60,7 @@ H264BitstreamParser::FindNaluIndices(const uint8_t* data,
   }
 
   const size_t end = length - kNaluShortStartSequenceSize;
-  for (size_t i = 0; i < end;) {
+  for (size_t i = 0; i <= end;) {
     if (data[i + 2] > 1) {
       i += 3;
     } else if (data[i + 2] == 0x01 && data[i + 1] == 0x00 && data[i] == 0x00) {
-- 
2.43.0


From cf5f3cc5f3a7baec418b5544df8dcefdc0b0d132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:34 +0000
Subject: [PATCH 13/28] fix: do not drop the high bytes of a NALU length field
 over 8 bytes

With more than 8 length bytes the length was read modulo 2^64, so that a
huge (damaged) length was taken for a small one.
---
 src/h264_bitstream_parser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/h264_bitstream_parser.cc b/src/h264_bitstream_parser.cc
index d8be727..9ae8903 100644
--- a/src/h264_bitstream_parser.cc
+++ b/src/h264_bitstream_parser.cc
@@ -35,6 +35,10 @@ bool read_nalu_length(const uint8_t* data, size_t data_length,
   }
   *nalu_length = 0;
   for (size_t i = 0; i < nalu_length_bytes; ++i) {
+    if (*nalu_length > (SIZE_MAX >> 8)) {
+      // the length does not fit: it cannot be inside the buffer either
+      return false;
+    }
     *nalu_length = (*nalu_length << 8) + data[i];
   }
   return true;
-- 
2.43.0


From 55fe7cda1fec052bc9b8d151ea9fc99a4f62fa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:54 +0000
Subject: [PATCH 14/28] fix: do not dereference a missing checksum when dumping
 a NAL unit

A NAL unit parsed without add_checksum has no checksum: dumping it with
add_checksum (e.g. using BitstreamState::fdump(), whose options default to
everything) crashed.
---
 src/h264_nal_unit_parser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/h264_nal_unit_parser.cc b/src/h264_nal_unit_parser.cc
index 1c5abb5..6ee4fac 100644
--- a/src/h264_nal_unit_parser.cc
+++ b/src/h264_nal_unit_parser.cc
@@ -112,8 +112,8 @@ void H264NalUnitParser::NalUnitState::fdump(
     fprintf(outfp, "parsed_length: 0x%08zx", parsed_length);
   }
 
-  // nal unit checksum
-  if (parsing_options.add_checksum) {
+  // nal unit checksum (only there if it was requested when parsing)
+  if (parsing_options.add_checksum && checksum != nullptr) {
     fdump_indent_level(outfp, indent_level);
     char checksum_printable[64] = {};
     checksum->fdump(checksum_printable, 64);
-- 
2.43.0


From f36e5d8dad3a59ff2169e39c8cb6e82828afce4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:59 +0000
Subject: [PATCH 15/28] fix: dump a bitstream with the options it was parsed
 with

The overloads that take a parser state never stored them, so that
BitstreamState::fdump() dumped with the default options instead.
---
 src/h264_bitstream_parser.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/h264_bitstream_parser.cc b/src/h264_bitstream_parser.cc
index 9ae8903..b61071d 100644
--- a/src/h264_bitstream_parser.cc
+++ b/src/h264_bitstream_parser.cc
@@ -143,6 +143,7 @@ H264BitstreamParser::ParseBitstream(
     H264BitstreamParserState* bitstream_parser_state,
     ParsingOptions parsing_options) noexcept {
   auto bitstream = std::make_unique<BitstreamState>();
+  bitstream->parsing_options_ = parsing_options;
 
   // (1) split the input string into a vector of NAL units
   std::vector<NaluIndex> nalu_indices = FindNaluIndices(data, length);
@@ -208,6 +209,7 @@ H264BitstreamParser::ParseBitstreamNALULength(
     H264BitstreamParserState* bitstream_parser_state,
     ParsingOptions parsing_options) noexcept {
   auto bitstream = std::make_unique<BitstreamState>();
+  bitstream->parsing_options_ = parsing_options;
 
   size_t i = 0;
 
-- 
2.43.0


From b75290028c5ebfb9c991a43fe27282661064ccc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:17 +0000
Subject: [PATCH 16/28] fix: compute code lengths without floating point

getSliceGroupIdLen and getSliceGroupChangeCycleLen used ceil(log2(x)) on
doubles. With the caller's rounding mode set to anything but to-nearest
the logarithm of a power of two comes out slightly off, the length is one
bit too long and the rest of the unit is misread.
---
 src/h264_pps_parser.cc                                |  8 ++++++--
 src/h264_slice_header_in_scalable_extension_parser.cc | 11 ++++++++---
 src/h264_slice_header_parser.cc                       |  9 +++++++--
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/h264_pps_parser.cc b/src/h264_pps_parser.cc
index 3fc0422..86c3af3 100644
--- a/src/h264_pps_parser.cc
+++ b/src/h264_pps_parser.cc
@@ -342,8 +342,12 @@ uint32_t H264PpsParser::PpsState::getSliceGroupIdLen() noexcept {
   // syntax element is `Ceil(Log2(num_slice_groups_minus1 + 1))` bits.
   // The value of slice_group_id[i] shall be in the range of 0 to
   // num_slice_groups_minus1, inclusive.
-  return static_cast<uint32_t>(
-      std::ceil(std::log2(1.0 * num_slice_groups_minus1 + 1)));
+  // Integers only: floating point depends on the caller's rounding mode.
+  uint32_t len = 0;
+  while ((uint64_t{1} << len) < uint64_t{num_slice_groups_minus1} + 1) {
+    ++len;
+  }
+  return len;
 }
 
 // Section 7.3.2.1.1.1
diff --git a/src/h264_slice_header_in_scalable_extension_parser.cc b/src/h264_slice_header_in_scalable_extension_parser.cc
index c2dc9a2..bf71606 100644
--- a/src/h264_slice_header_in_scalable_extension_parser.cc
+++ b/src/h264_slice_header_in_scalable_extension_parser.cc
@@ -686,14 +686,19 @@ uint32_t H264SliceHeaderInScalableExtensionParser::
   // Dividing the integers first truncates the ratio to 0 whenever
   // PicSizeInMapUnits < SliceGroupChangeRate, which makes the whole
   // expression Ceil(Log2(1)) == 0, and a zero bit read is not something
-  // BitBuffer accepts. Promote before dividing, as the non-scalable
+  // BitBuffer accepts. Compare without dividing, as the non-scalable
   // slice header parser does.
   uint32_t PicSizeInMapUnits = getPicSizeInMapUnits(
       pic_width_in_mbs_minus1, pic_height_in_map_units_minus1);
   uint32_t SliceGroupChangeRate =
       getSliceGroupChangeRate(slice_group_change_rate_minus1);
-  return std::ceil(
-      std::log2(((1.0 * PicSizeInMapUnits) / SliceGroupChangeRate) + 1));
+  // Integers only: floating point depends on the caller's rounding mode.
+  uint32_t len = 0;
+  while (len < 32 && ((uint64_t{1} << len) - 1) * SliceGroupChangeRate <
+                         PicSizeInMapUnits) {
+    ++len;
+  }
+  return len;
 }
 
 uint32_t H264SliceHeaderInScalableExtensionParser::
diff --git a/src/h264_slice_header_parser.cc b/src/h264_slice_header_parser.cc
index 1ad5e4b..ebf6da9 100644
--- a/src/h264_slice_header_parser.cc
+++ b/src/h264_slice_header_parser.cc
@@ -529,8 +529,13 @@ uint32_t H264SliceHeaderParser::SliceHeaderState::getSliceGroupChangeCycleLen(
       pic_width_in_mbs_minus1, pic_height_in_map_units_minus1);
   uint32_t SliceGroupChangeRate =
       getSliceGroupChangeRate(slice_group_change_rate_minus1);
-  return std::ceil(
-      std::log2(((1.0 * PicSizeInMapUnits) / SliceGroupChangeRate) + 1));
+  // Integers only: floating point depends on the caller's rounding mode.
+  uint32_t len = 0;
+  while (len < 32 && ((uint64_t{1} << len) - 1) * SliceGroupChangeRate <
+                         PicSizeInMapUnits) {
+    ++len;
+  }
+  return len;
 }
 
 uint32_t H264SliceHeaderParser::SliceHeaderState::getPicWidthInMbs(
-- 
2.43.0


From d6ca27e25acbe982a73d6a09e4309387732a182d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:27 +0000
Subject: [PATCH 17/28] fix: do not take a failed seek for the size of the
 input file

---
 src/h264_utils.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/h264_utils.cc b/src/h264_utils.cc
index 65e357a..675d1d6 100644
--- a/src/h264_utils.cc
+++ b/src/h264_utils.cc
@@ -47,14 +47,18 @@ int H264Utils::ReadFile(const char* filename, std::vector<uint8_t>& buffer) {
     fprintf(stderr, "Could not open input file: \"%s\"\n", filename);
     return -1;
   }
-  fseek(infp, 0, SEEK_END);
-  int64_t size = ftell(infp);
+  // a failed seek leaves the position anywhere: do not take it for the size
+  int64_t size = (fseek(infp, 0, SEEK_END) == 0) ? ftell(infp) : -1;
   if (size <= 0) {
     fprintf(stderr, "Could not determine file size: \"%s\"\n", filename);
     fclose(infp);
     return -1;
   }
-  fseek(infp, 0, SEEK_SET);
+  if (fseek(infp, 0, SEEK_SET) != 0) {
+    fprintf(stderr, "Could not rewind file: \"%s\"\n", filename);
+    fclose(infp);
+    return -1;
+  }
   // read file into buffer
   buffer.resize(static_cast<size_t>(size));
   size_t bytes_read = fread(reinterpret_cast<char*>(buffer.data()), 1,
-- 
2.43.0


From fb8ee5e06cda83178e87b61a1adb18bd70098ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:58 +0000
Subject: [PATCH 18/28] fix: do not take the sample aspect ratio for the
 resolution when splitting

h264nal-split.py searched for "width:" and "height:" anywhere in an SPS, so
that sar_width and sar_height, which come first, were taken for the picture
size: streams were cut where the resolution does not change, and not cut
where it does.
---
 tools/h264nal-split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/h264nal-split.py b/tools/h264nal-split.py
index ba4c9d8..da2eba5 100755
--- a/tools/h264nal-split.py
+++ b/tools/h264nal-split.py
@@ -64,8 +64,8 @@ def parse_nal_units(content):
         if type_m:
             nal["nal_unit_type"] = int(type_m.group(1))
 
-        width_m = re.search(r"width: (\d+)", nal_text)
-        height_m = re.search(r"height: (\d+)", nal_text)
+        width_m = re.search(r"\bwidth: (\d+)", nal_text)
+        height_m = re.search(r"\bheight: (\d+)", nal_text)
         if width_m and height_m:
             nal["width"] = int(width_m.group(1))
             nal["height"] = int(height_m.group(1))
-- 
2.43.0


From 6f4f6e4270cb2e16d322f2a7f252343fd1db007b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:58 +0000
Subject: [PATCH 19/28] fix: end the sliding window when only long-term
 pictures are left

With as many long-term pictures as max_num_ref_frames allows or more,
h264nal-dpb_parse.py looped forever looking for a short-term one to drop.
---
 tools/h264nal-dpb_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 77daa00..32e5f78 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -404,7 +404,7 @@ def simulate_dpb(sps, frames, outfile):
             )
             str_count = sum(1 for e in dpb if not e["is_ltr"])
             ltr_count = sum(1 for e in dpb if e["is_ltr"])
-            while str_count + ltr_count > max_num_ref_frames:
+            while str_count > 0 and str_count + ltr_count > max_num_ref_frames:
                 for j, e in enumerate(dpb):
                     if not e["is_ltr"]:
                         dpb.pop(j)
-- 
2.43.0


From a9e40d3d908fe83edfd6121816bcf8972736754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:14 +0000
Subject: [PATCH 20/28] fix: list slice types 5-9 like 0-4 in the DPB script

Slice types 5-9 only add that all the slices of the picture have the same
type. They were shown as "?5" and their references were left out.
---
 tools/h264nal-dpb_parse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 32e5f78..5d95828 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -147,7 +147,8 @@ def parse_frames(content):
 
 
 def slice_type_str(st):
-    return {0: "P", 1: "B", 2: "I", 3: "SP", 4: "SI"}.get(st, f"?{st}")
+    # slice types 5-9 are 0-4 for all the slices of the picture
+    return {0: "P", 1: "B", 2: "I", 3: "SP", 4: "SI"}.get(st % 5, f"?{st}")
 
 
 def frame_type_str(frame):
@@ -302,7 +303,7 @@ def simulate_dpb(sps, frames, outfile):
 
         dpb_before = dpb_str(dpb)
 
-        if frame["slice_type"] in (0, 1) and dpb:
+        if frame["slice_type"] % 5 in (0, 1, 3) and dpb:
             ref_list = build_ref_pic_list0(dpb, frame)
             ref_list = apply_rplm(ref_list, frame, max_frame_num)
             num_active = frame.get("num_ref_idx_l0_active", 1)
-- 
2.43.0


From a5ac2a3165eada472af0f9da803ba938c1570dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:29 +0000
Subject: [PATCH 21/28] fix: keep a picture with adaptive marking in the DPB

A reference picture with memory management control operations is itself
marked as a short-term reference unless operation 6 makes it a long-term
one (8.2.5.1). It was dropped, and with operation 5 its frame_num is
inferred to be 0.
---
 tools/h264nal-dpb_parse.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 5d95828..5c131a5 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -339,6 +339,12 @@ def simulate_dpb(sps, frames, outfile):
             ltfi_idx = 0
             mltfi_idx = 0
             ops = frame["mmco"]
+            current = {
+                "frame_num": frame["frame_num"],
+                "is_ltr": False,
+                "ltr_idx": -1,
+                "abs_frame": abs_frame,
+            }
             i = 0
             while i < len(ops):
                 op = ops[i]
@@ -379,21 +385,20 @@ def simulate_dpb(sps, frames, outfile):
                         ]
                 elif op == 5:
                     dpb = []
+                    # the picture is inferred to have had frame_num 0
+                    current["frame_num"] = 0
                 elif op == 6:
                     ltf_idx = frame["long_term_frame_idx"][ltfi_idx]
                     ltfi_idx += 1
                     dpb = [
                         e for e in dpb if not (e["is_ltr"] and e["ltr_idx"] == ltf_idx)
                     ]
-                    dpb.append(
-                        {
-                            "frame_num": frame["frame_num"],
-                            "is_ltr": True,
-                            "ltr_idx": ltf_idx,
-                            "abs_frame": abs_frame,
-                        }
-                    )
+                    current["is_ltr"] = True
+                    current["ltr_idx"] = ltf_idx
                 i += 1
+            # the current picture is a reference as well: a short-term one
+            # unless it was made a long-term one
+            dpb.append(current)
         elif frame["is_ref"]:
             dpb.append(
                 {
-- 
2.43.0


From 037a7b5e655a9810355d64ff60db24f5b106b392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:32 +0000
Subject: [PATCH 22/28] fix: remove the long-term reference named by operation
 2 in the DPB script

memory_management_control_operation 2 (8.2.5.4.2) was ignored.
---
 tools/h264nal-dpb_parse.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 5c131a5..9397509 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -98,6 +98,8 @@ def parse_frames(content):
                 r"memory_management_control_operation \{ ([^}]*)\}", nal_text
             )
             diff_m = re.search(r"difference_of_pic_nums_minus1 \{ ([^}]*)\}", nal_text)
+            # the last one: ref_pic_list_modification() has a list of that name
+            ltpn_m = re.findall(r"long_term_pic_num \{ ([^}]*)\}", nal_text)
             ltfi_m = re.search(r"long_term_frame_idx \{ ([^}]*)\}", nal_text)
             mltfi_m = re.search(r"max_long_term_frame_idx_plus1 \{ ([^}]*)\}", nal_text)
             frame["mmco"] = [int(x) for x in mmco_m.group(1).split()] if mmco_m else []
@@ -106,6 +108,9 @@ def parse_frames(content):
                 if diff_m and diff_m.group(1).strip()
                 else []
             )
+            frame["long_term_pic_num"] = (
+                [int(x) for x in ltpn_m[-1].split()] if ltpn_m else []
+            )
             frame["long_term_frame_idx"] = (
                 [int(x) for x in ltfi_m.group(1).split()]
                 if ltfi_m and ltfi_m.group(1).strip()
@@ -338,6 +343,7 @@ def simulate_dpb(sps, frames, outfile):
             diff_idx = 0
             ltfi_idx = 0
             mltfi_idx = 0
+            ltpn_idx = 0
             ops = frame["mmco"]
             current = {
                 "frame_num": frame["frame_num"],
@@ -360,7 +366,11 @@ def simulate_dpb(sps, frames, outfile):
                         if not (not e["is_ltr"] and e["frame_num"] == pic_num_to_remove)
                     ]
                 elif op == 2:
-                    pass
+                    lt_num = frame["long_term_pic_num"][ltpn_idx]
+                    ltpn_idx += 1
+                    dpb = [
+                        e for e in dpb if not (e["is_ltr"] and e["ltr_idx"] == lt_num)
+                    ]
                 elif op == 3:
                     diff = frame["diff_pic_nums"][diff_idx]
                     diff_idx += 1
-- 
2.43.0


From 0ca7b13b852718e6330f066e179275315a9d7776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:39 +0000
Subject: [PATCH 23/28] fix: free the long-term index that operation 3 assigns
 again

The picture that had the index is no longer a reference (8.2.5.4.3); the
DPB script listed two pictures with one index.
---
 tools/h264nal-dpb_parse.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 9397509..5f84090 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -379,6 +379,12 @@ def simulate_dpb(sps, frames, outfile):
                     ltfi_idx += 1
                     for e in dpb:
                         if not e["is_ltr"] and e["frame_num"] == pic_num:
+                            # free the index if another picture has it
+                            dpb = [
+                                o
+                                for o in dpb
+                                if not (o["is_ltr"] and o["ltr_idx"] == ltf_idx)
+                            ]
                             e["is_ltr"] = True
                             e["ltr_idx"] = ltf_idx
                             break
-- 
2.43.0


From 652822d93142ec0f28c706c8633f210b6f5a643a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:44 +0000
Subject: [PATCH 24/28] fix: follow frame_num when it wraps around in the DPB
 script

Picture numbers are relative to the current picture, modulo MaxFrameNum
(8.2.4.1). After a wrap the operations 1 and 3 did not find the picture
they name, and the initial list was in the wrong order.
---
 tools/h264nal-dpb_parse.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 5f84090..c6adbbf 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -175,11 +175,11 @@ def dpb_str(dpb):
     return ";".join(entry_str(e) for e in dpb)
 
 
-def build_ref_pic_list0(dpb, frame):
+def build_ref_pic_list0(dpb, frame, max_frame_num):
     strs = sorted(
         [e for e in dpb if not e["is_ltr"]],
-        key=lambda e: e["frame_num"],
-        reverse=True,
+        # the most recent first: frame_num counts modulo max_frame_num
+        key=lambda e: (frame["frame_num"] - e["frame_num"]) % max_frame_num,
     )
     ltrs = sorted(
         [e for e in dpb if e["is_ltr"]],
@@ -243,7 +243,7 @@ def refs_used_str(ref_list, num_active):
     return ";".join(entry_str(e) for e in active)
 
 
-def mmco_str(frame):
+def mmco_str(frame, max_frame_num):
     if frame.get("is_idr"):
         if frame.get("long_term_reference_flag", 0):
             return "IDR:LTR[0]"
@@ -263,14 +263,14 @@ def mmco_str(frame):
         elif op == 1:
             diff = frame["diff_pic_nums"][diff_idx]
             diff_idx += 1
-            pic_num = frame["frame_num"] - (diff + 1)
+            pic_num = (frame["frame_num"] - (diff + 1)) % max_frame_num
             parts.append(f"MMCO1:rm_STR(fn={pic_num})")
         elif op == 2:
             parts.append("MMCO2:rm_LTR")
         elif op == 3:
             diff = frame["diff_pic_nums"][diff_idx]
             diff_idx += 1
-            pic_num = frame["frame_num"] - (diff + 1)
+            pic_num = (frame["frame_num"] - (diff + 1)) % max_frame_num
             ltf = frame["long_term_frame_idx"][ltfi_idx]
             ltfi_idx += 1
             parts.append(f"MMCO3:STR(fn={pic_num})->LTR[{ltf}]")
@@ -309,7 +309,7 @@ def simulate_dpb(sps, frames, outfile):
         dpb_before = dpb_str(dpb)
 
         if frame["slice_type"] % 5 in (0, 1, 3) and dpb:
-            ref_list = build_ref_pic_list0(dpb, frame)
+            ref_list = build_ref_pic_list0(dpb, frame, max_frame_num)
             ref_list = apply_rplm(ref_list, frame, max_frame_num)
             num_active = frame.get("num_ref_idx_l0_active", 1)
             refs = refs_used_str(ref_list, num_active)
@@ -318,7 +318,7 @@ def simulate_dpb(sps, frames, outfile):
 
         ft = frame_type_str(frame)
         ref_mark = "Y" if frame["is_ref"] else "N"
-        mmco = mmco_str(frame)
+        mmco = mmco_str(frame, max_frame_num)
 
         if frame["is_idr"]:
             if frame.get("long_term_reference_flag", 0):
@@ -359,7 +359,9 @@ def simulate_dpb(sps, frames, outfile):
                 elif op == 1:
                     diff = frame["diff_pic_nums"][diff_idx]
                     diff_idx += 1
-                    pic_num_to_remove = frame["frame_num"] - (diff + 1)
+                    pic_num_to_remove = (
+                        frame["frame_num"] - (diff + 1)
+                    ) % max_frame_num
                     dpb = [
                         e
                         for e in dpb
@@ -374,7 +376,7 @@ def simulate_dpb(sps, frames, outfile):
                 elif op == 3:
                     diff = frame["diff_pic_nums"][diff_idx]
                     diff_idx += 1
-                    pic_num = frame["frame_num"] - (diff + 1)
+                    pic_num = (frame["frame_num"] - (diff + 1)) % max_frame_num
                     ltf_idx = frame["long_term_frame_idx"][ltfi_idx]
                     ltfi_idx += 1
                     for e in dpb:
-- 
2.43.0


From 273717ed9af259a92d97bb91d62bcc7c931dac3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:49 +0000
Subject: [PATCH 25/28] fix: let a reference list name a picture twice in the
 DPB script

Modification commands insert a picture and remove its later occurrences
only (8.2.4.3), so an encoder can list one picture several times, e.g.
with different weights. The earlier occurrence was moved away.
---
 tools/h264nal-dpb_parse.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index c6adbbf..0884603 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -188,6 +188,12 @@ def build_ref_pic_list0(dpb, frame, max_frame_num):
     return strs + ltrs
 
 
+def move_to(ref_list, ref_idx, entry):
+    # only later occurrences are removed: a picture may be listed twice
+    rest = [e for e in ref_list[ref_idx:] if e is not entry]
+    return ref_list[:ref_idx] + [entry] + rest
+
+
 def apply_rplm(ref_list, frame, max_frame_num):
     if not frame.get("rplm_l0"):
         return ref_list
@@ -219,8 +225,7 @@ def apply_rplm(ref_list, frame, max_frame_num):
                     found = i
                     break
             if found is not None:
-                entry = ref_list.pop(found)
-                ref_list.insert(ref_idx, entry)
+                ref_list = move_to(ref_list, ref_idx, ref_list[found])
                 ref_idx += 1
         elif idc == 2:
             lt_num = lt_pic_nums[lt_idx]
@@ -231,8 +236,7 @@ def apply_rplm(ref_list, frame, max_frame_num):
                     found = i
                     break
             if found is not None:
-                entry = ref_list.pop(found)
-                ref_list.insert(ref_idx, entry)
+                ref_list = move_to(ref_list, ref_idx, ref_list[found])
                 ref_idx += 1
 
     return ref_list
-- 
2.43.0


From 4db0be087ef149e2ff0518cb801286a76b4be2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:53 +0000
Subject: [PATCH 26/28] fix: read each picture with its own parameter sets in
 the DPB script

The last SPS of the stream and the last PPS before the picture were used,
whatever the picture refers to: a change of the SPS altered the listing
of everything before it.
---
 tools/h264nal-dpb_parse.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 0884603..9fa4827 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -27,10 +27,15 @@ def run_h264nal(input_path, h264nal_path):
     return result.stdout
 
 
+def get_id(name, nal_text):
+    return int(re.search(rf"\b{name}: (\d+)", nal_text).group(1))
+
+
 def parse_frames(content):
     nal_units = re.split(r"^nal_unit \{", content, flags=re.MULTILINE)
     sps = {}
-    pps = {}
+    all_sps = {}
+    all_pps = {}
     frames = []
 
     for nal_text in nal_units[1:]:
@@ -40,6 +45,7 @@ def parse_frames(content):
         nal_type = int(nal_type_m.group(1))
 
         if nal_type == 7:
+            sps = {}
             sps["log2_max_frame_num_minus4"] = int(
                 re.search(r"log2_max_frame_num_minus4: (\d+)", nal_text).group(1)
             )
@@ -49,14 +55,18 @@ def parse_frames(content):
             sps["pic_order_cnt_type"] = int(
                 re.search(r"pic_order_cnt_type: (\d+)", nal_text).group(1)
             )
+            all_sps[get_id("seq_parameter_set_id", nal_text)] = sps
             continue
 
         if nal_type == 8:
+            pps = {}
+            pps["sps_id"] = get_id("seq_parameter_set_id", nal_text)
             pps["num_ref_idx_l0_default_active_minus1"] = int(
                 re.search(
                     r"num_ref_idx_l0_default_active_minus1: (\d+)", nal_text
                 ).group(1)
             )
+            all_pps[get_id("pic_parameter_set_id", nal_text)] = pps
             continue
 
         if nal_type not in (1, 5):
@@ -79,6 +89,10 @@ def parse_frames(content):
             "is_ref": nal_ref_idc > 0,
         }
 
+        # the parameter sets of this picture
+        pps = all_pps[get_id("pic_parameter_set_id", nal_text)]
+        frame["sps"] = all_sps[pps["sps_id"]]
+
         override_m = re.search(r"num_ref_idx_active_override_flag: (\d+)", nal_text)
         if override_m and int(override_m.group(1)) == 1:
             l0_m = re.search(r"num_ref_idx_l0_active_minus1: (\d+)", nal_text)
@@ -291,10 +305,7 @@ def mmco_str(frame, max_frame_num):
     return ";".join(parts)
 
 
-def simulate_dpb(sps, frames, outfile):
-    max_frame_num = 1 << (sps["log2_max_frame_num_minus4"] + 4)
-    max_num_ref_frames = sps["max_num_ref_frames"]
-
+def simulate_dpb(frames, outfile):
     dpb = []
     gop_num = 0
     gop_frame = 0
@@ -305,6 +316,9 @@ def simulate_dpb(sps, frames, outfile):
     )
 
     for abs_frame, frame in enumerate(frames):
+        max_frame_num = 1 << (frame["sps"]["log2_max_frame_num_minus4"] + 4)
+        max_num_ref_frames = frame["sps"]["max_num_ref_frames"]
+
         if frame["is_idr"]:
             dpb = []
             gop_num += 1 if abs_frame > 0 else 0
@@ -502,10 +516,10 @@ def main():
 
     if args.output:
         with open(args.output, "w") as f:
-            simulate_dpb(sps, frames, f)
+            simulate_dpb(frames, f)
         print(f"Wrote {args.output}", file=sys.stderr)
     else:
-        simulate_dpb(sps, frames, sys.stdout)
+        simulate_dpb(frames, sys.stdout)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 74b54806039a93c551ccc3343a676a7454f489f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:36 +0000
Subject: [PATCH 27/28] fix: report a failure to write the listing to standard
 output

The interpreter drops an error of its own flush at the end of a script: with
4 to 8 KB of output on a full disk (or /dev/full) the DPB and conformance
scripts ended with success.
---
 tools/h264nal-conformance.py | 2 ++
 tools/h264nal-dpb_parse.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/tools/h264nal-conformance.py b/tools/h264nal-conformance.py
index 21f5634..2fb8d0c 100755
--- a/tools/h264nal-conformance.py
+++ b/tools/h264nal-conformance.py
@@ -280,6 +280,8 @@ def main(argv):
 
     if options.outfile is None:
         write_csv(sys.stdout, rows)
+        # an error that shows up only at exit may go unnoticed
+        sys.stdout.flush()
     else:
         with open(options.outfile, "w", newline="") as fout:
             write_csv(fout, rows)
diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 9fa4827..35b007b 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -520,6 +520,8 @@ def main():
         print(f"Wrote {args.output}", file=sys.stderr)
     else:
         simulate_dpb(frames, sys.stdout)
+        # an error that shows up only at exit may go unnoticed
+        sys.stdout.flush()
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 35881eef558f9eb206ba6ec0171dbceb0d71b0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:51 +0000
Subject: [PATCH 28/28] fix: conformance: file names that are not valid UTF-8
 ended the whole summary

The tool's messages quote the name, and so do the rows: decoding and encoding
both raised, and no row of any file was written.
---
 tools/h264nal-conformance.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/h264nal-conformance.py b/tools/h264nal-conformance.py
index 2fb8d0c..d99a3ef 100755
--- a/tools/h264nal-conformance.py
+++ b/tools/h264nal-conformance.py
@@ -86,6 +86,8 @@ def run_h264nal(input_path, h264nal_path, timeout):
             ],
             capture_output=True,
             text=True,
+            # messages quote the file name, which may not be valid UTF-8
+            errors="surrogateescape",
             timeout=timeout,
         )
     except subprocess.TimeoutExpired:
@@ -278,12 +280,15 @@ def main(argv):
         rows.append(analyze_file(input_path, options.h264nal_path,
                                  options.timeout))
 
+    # file names that are not valid UTF-8 go out as they came in
     if options.outfile is None:
+        sys.stdout.reconfigure(errors="surrogateescape")
         write_csv(sys.stdout, rows)
         # an error that shows up only at exit may go unnoticed
         sys.stdout.flush()
     else:
-        with open(options.outfile, "w", newline="") as fout:
+        with open(options.outfile, "w", newline="",
+                  errors="surrogateescape") as fout:
             write_csv(fout, rows)
 
     if not options.quiet:
-- 
2.43.0

