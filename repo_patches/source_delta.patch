From 549c67f82652840ee62c39371bdba2268a9ab5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 01/16] fix: report an error when a temporary or output wav
 file cannot be opened while panning

WavWriter::Create returns null on failure; ConvertFromObjectsTo3OA dereferenced it.
---
 .../cli/adm_to_user_metadata/adm/wav_file_splicer.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
index 742cd50..3ab22b0 100644
--- a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
@@ -322,6 +322,10 @@ absl::Status ConvertFromObjectsTo3OA(
   auto output_wav_writer = WavWriter::Create(
       output_file.string(), kOutputWavChannels, wav_file_fmt.samples_per_sec,
       wav_file_fmt.bits_per_sample, kMaxNumSamplesPerFrame);
+  if (output_wav_writer == nullptr) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("Failed to create wav writer for ", output_file.string()));
+  }
 
   // Calculate number of bytes per sample based on bits per sample.
   const int32_t bytes_per_sample =
@@ -403,6 +407,10 @@ absl::Status ConvertFromObjectsTo3OA(
           input_file.string(), wav_file_fmt.num_channels,
           wav_file_fmt.samples_per_sec, wav_file_fmt.bits_per_sample,
           kMaxNumSamplesPerFrame);
+      if (wav_writer == nullptr) {
+        return absl::InvalidArgumentError(absl::StrCat(
+            "Failed to create wav writer for ", input_file.string()));
+      }
       // Compute the length of audio samples corresponding to the current
       // segment duration. The samples excluded due the rounding error at each
       // segment is accounted in the next segment.
@@ -465,6 +473,10 @@ absl::Status ConvertFromObjectsTo3OA(
           input_file.string(), wav_file_fmt.num_channels,
           wav_file_fmt.samples_per_sec, wav_file_fmt.bits_per_sample,
           kMaxNumSamplesPerFrame);
+      if (wav_writer == nullptr) {
+        return absl::InvalidArgumentError(absl::StrCat(
+            "Failed to create wav writer for ", input_file.string()));
+      }
       RETURN_IF_NOT_OK(SpliceWavSegment(input_stream, sample_count_drift,
                                         total_channel_size, samples_buffer,
                                         *wav_writer));
-- 
2.43.0


From a348d7a1326a5ad6c732100fab3f63003dda429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 02/16] fix: initialise ReadBitBuffer::is_position_valid_

It was read by Seek() before anything assigned it.
---
 iamf/common/read_bit_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iamf/common/read_bit_buffer.h b/iamf/common/read_bit_buffer.h
index f73c561..8165a10 100644
--- a/iamf/common/read_bit_buffer.h
+++ b/iamf/common/read_bit_buffer.h
@@ -299,7 +299,7 @@ class ReadBitBuffer {
   int64_t source_bit_offset_ = 0;
 
   // Specifies whether a position returned by Tell() is valid.
-  bool is_position_valid_;
+  bool is_position_valid_ = true;
 };
 
 /*!\brief Memory-based read bit buffer.
-- 
2.43.0


From 18553d16050cfd0df0aca7c3a29603c192a300ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 03/16] fix: initialise CartesianPosition

Audio blocks without coordinates kept indeterminate positions that the panner then read.
---
 iamf/cli/adm_to_user_metadata/adm/adm_elements.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/iamf/cli/adm_to_user_metadata/adm/adm_elements.h b/iamf/cli/adm_to_user_metadata/adm/adm_elements.h
index da90e4a..af8ecb0 100644
--- a/iamf/cli/adm_to_user_metadata/adm/adm_elements.h
+++ b/iamf/cli/adm_to_user_metadata/adm/adm_elements.h
@@ -108,9 +108,9 @@ struct AudioPackFormat {
 
 // This structure holds cartesian position associated with an audio block.
 struct CartesianPosition {
-  float x;
-  float y;
-  float z;
+  float x = 0.0f;
+  float y = 0.0f;
+  float z = 0.0f;
 };
 
 struct BlockTime {
-- 
2.43.0


From 799bf9ff153bb53800047247ea9292be7f48287f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 04/16] fix: report an error when an output wav file cannot be
 opened while splicing

The writers were stored in a vector and dereferenced without a check.
---
 iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
index 3ab22b0..e4c1cae 100644
--- a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
@@ -516,12 +516,18 @@ absl::Status SeparateLfeChannels(const std::filesystem::path& output_file_path,
   nonlfe_lfe_wav_writer.emplace_back(
       WavWriter::Create(non_lfe_file_path, non_lfe_count, samples_per_sec,
                         bits_per_sample, kMaxNumSamplesPerFrame));
+  if (nonlfe_lfe_wav_writer.back() == nullptr) {
+    return absl::InvalidArgumentError("Failed to create wav writer.");
+  }
   for (size_t lfe_index = 1; lfe_index <= lfe_ids.size(); ++lfe_index) {
     nonlfe_lfe_wav_writer.emplace_back(WavWriter::Create(
         (output_file_path /
          absl::StrCat(file_prefix, "_converted", lfe_index + 1, ".wav"))
             .string(),
         1, samples_per_sec, bits_per_sample, kMaxNumSamplesPerFrame));
+    if (nonlfe_lfe_wav_writer.back() == nullptr) {
+      return absl::InvalidArgumentError("Failed to create wav writer.");
+    }
   }
 
   // The samples in the input wav are packed in a channel-interleaved fashion.
@@ -674,6 +680,9 @@ absl::Status SpliceWavFilesFromAdm(
           audio_tracks_for_audio_objects[audio_object_index].size(),
           wav_file_fmt.samples_per_sec, wav_file_fmt.bits_per_sample,
           kMaxNumSamplesPerFrame));
+      if (audio_object_index_to_wav_writer.back() == nullptr) {
+        return absl::InvalidArgumentError("Failed to create wav writer.");
+      }
     }
 
     // Write audio samples into the corresponding output wav file(s).
-- 
2.43.0


From 74fe57f1cb549758962a30745e24e83044bf7ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:01 +0000
Subject: [PATCH 05/16] fix: list OBUs in probe reports in ascending ID order

They were listed in the iteration order of an unordered map, which differs between runs.
---
 iamf/cli/probe.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/iamf/cli/probe.cc b/iamf/cli/probe.cc
index 5dd8e41..213e395 100644
--- a/iamf/cli/probe.cc
+++ b/iamf/cli/probe.cc
@@ -1345,12 +1345,21 @@ absl::StatusOr<ProbeReport> ProbeFromBuffer(ReadBitBuffer& read_bit_buffer,
   for (const auto& [id, obu] : descriptors.codec_config_obus) {
     report.codec_configs.push_back(BuildCodecConfigReport(id, obu));
   }
+  // The OBUs are held in an unordered map. Sort for a reproducible report.
+  std::sort(report.codec_configs.begin(), report.codec_configs.end(),
+            [](const CodecConfigReport& lhs, const CodecConfigReport& rhs) {
+              return lhs.id < rhs.id;
+            });
 
   report.audio_elements.reserve(descriptors.audio_elements.size());
   for (const auto& [id, element_with_data] : descriptors.audio_elements) {
     report.audio_elements.push_back(
         BuildAudioElementReport(element_with_data.obu));
   }
+  std::sort(report.audio_elements.begin(), report.audio_elements.end(),
+            [](const AudioElementReport& lhs, const AudioElementReport& rhs) {
+              return lhs.id < rhs.id;
+            });
 
   report.mix_presentations.reserve(descriptors.mix_presentation_obus.size());
   for (const auto& mp : descriptors.mix_presentation_obus) {
-- 
2.43.0


From c1c4e2b55f885fc621c0f7e0d212f208afc07267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:01 +0000
Subject: [PATCH 06/16] fix: list opus_hoa results in ascending audio element
 ID order

They were listed in the iteration order of an unordered map, which differs between runs.
---
 validation/opus_hoa/opus_hoa.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/validation/opus_hoa/opus_hoa.cc b/validation/opus_hoa/opus_hoa.cc
index 9f39d57..085ed1f 100644
--- a/validation/opus_hoa/opus_hoa.cc
+++ b/validation/opus_hoa/opus_hoa.cc
@@ -11,6 +11,7 @@
  */
 #include "validation/opus_hoa/opus_hoa.h"
 
+#include <algorithm>
 #include <cstdint>
 #include <sstream>
 #include <string>
@@ -160,6 +161,12 @@ absl::StatusOr<std::vector<AudioElementVerificationResult>> VerifyAudioElements(
     results.push_back(result);
   }
 
+  // The OBUs are held in an unordered map. Sort for a reproducible report.
+  std::sort(results.begin(), results.end(),
+            [](const AudioElementVerificationResult& lhs,
+               const AudioElementVerificationResult& rhs) {
+              return lhs.audio_element_id < rhs.audio_element_id;
+            });
   return results;
 }
 
-- 
2.43.0


From 90e5dbe89907def673da1e6d25dabdb5cc1e7f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:20 +0000
Subject: [PATCH 07/16] fix: Do not wrap the header size when computing the OBU
 payload size.

The sum of the field sizes and `extension_header_size` was computed in 32 bits. An
`extension_header_size` near 2^32 wrapped it to a small number, so the header was
accepted and a buffer of that size was allocated.
---
 iamf/obu/obu_header.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iamf/obu/obu_header.cc b/iamf/obu/obu_header.cc
index e2444f2..c150e1e 100644
--- a/iamf/obu/obu_header.cc
+++ b/iamf/obu/obu_header.cc
@@ -194,7 +194,8 @@ int64_t GetObuPayloadSize(DecodedUleb128 obu_size,
                           DecodedUleb128 extension_header_bytes_size) {
   return static_cast<int64_t>(obu_size) -
          (num_samples_to_trim_at_end_size + num_samples_to_trim_at_start_size +
-          extension_header_size_size + extension_header_bytes_size);
+          extension_header_size_size +
+          static_cast<int64_t>(extension_header_bytes_size));
 }
 
 absl::Status FillHeaderMetadata(ReadBitBuffer& rb,
-- 
2.43.0


From d84f81966fc727115f3fd1dc8f5978988e3d306a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:20 +0000
Subject: [PATCH 08/16] fix: Validate parameter definitions read in mode 1.

`ParamDefinition::ReadAndValidate` returned early when the schedule is in the parameter
blocks, so a `parameter_rate` of zero, or a demixing or recon gain definition in mode 1,
was accepted although writing the same definition is refused.
---
 iamf/obu/param_definitions/param_definition_base.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iamf/obu/param_definitions/param_definition_base.cc b/iamf/obu/param_definitions/param_definition_base.cc
index 9934629..6c5e884 100644
--- a/iamf/obu/param_definitions/param_definition_base.cc
+++ b/iamf/obu/param_definitions/param_definition_base.cc
@@ -124,7 +124,7 @@ absl::Status ParamDefinition::ReadAndValidate(ReadBitBuffer& rb) {
   RETURN_IF_NOT_OK(rb.ReadUnsignedLiteral(7, reserved_));
   if (mode != kModeScheduleInParamDefinition) {
     schedule_ = std::nullopt;
-    return absl::OkStatus();
+    return Validate();
   }
 
   auto temp_schedule = SubblockSchedule::CreateFromBuffer(rb);
-- 
2.43.0


From e638584f7b31049808236199f5ff779a9a5590a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:51 +0000
Subject: [PATCH 09/16] fix: Keep the extension config read from an audio
 element.

---
 iamf/obu/audio_element.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iamf/obu/audio_element.cc b/iamf/obu/audio_element.cc
index 6da0505..98c728f 100644
--- a/iamf/obu/audio_element.cc
+++ b/iamf/obu/audio_element.cc
@@ -594,6 +594,7 @@ absl::Status AudioElementObu::ReadAndValidatePayloadDerived(
         RETURN_IF_NOT_OK(rb.ReadUnsignedLiteral(8, config_bytes));
         extension_config.audio_element_config_bytes.push_back(config_bytes);
       }
+      config_.emplace<ExtensionConfig>(std::move(extension_config));
 
       return absl::OkStatus();
     }
-- 
2.43.0


From 6a2e38f319fca54ea8b2c7aea7ebf664e7720f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:51 +0000
Subject: [PATCH 10/16] fix: Require exactly one substream in object-based
 audio elements.

---
 iamf/obu/audio_element.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/iamf/obu/audio_element.cc b/iamf/obu/audio_element.cc
index 98c728f..74e507f 100644
--- a/iamf/obu/audio_element.cc
+++ b/iamf/obu/audio_element.cc
@@ -578,6 +578,8 @@ absl::Status AudioElementObu::ReadAndValidatePayloadDerived(
       return absl::OkStatus();
     }
     case kAudioElementObjectBased: {
+      RETURN_IF_NOT_OK(ValidateEqual<DecodedUleb128>(
+          GetNumSubstreams(), 1, "OBU and `ObjectsConfig` substream count"));
       auto objects_config = ObjectsConfig::CreateFromBuffer(rb);
       if (!objects_config.ok()) {
         return objects_config.status();
-- 
2.43.0


From 1e27f27910ea13ddf0dee3757a7f5d9bc3fe7e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:02 +0000
Subject: [PATCH 11/16] fix: Refuse an ambisonics_mode that cannot be
 represented.

---
 iamf/obu/ambisonics_config.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iamf/obu/ambisonics_config.cc b/iamf/obu/ambisonics_config.cc
index 716f16b..9848ae0 100644
--- a/iamf/obu/ambisonics_config.cc
+++ b/iamf/obu/ambisonics_config.cc
@@ -295,7 +295,8 @@ absl::Status AmbisonicsConfig::ReadAndValidate(ReadBitBuffer& rb) {
       return absl::OkStatus();
     }
     default:
-      return absl::OkStatus();
+      return absl::InvalidArgumentError(
+          absl::StrCat("Unsupported ambisonics_mode= ", ambisonics_mode_uleb));
   }
 }
 
-- 
2.43.0


From 0ebaa55de49ce9c467cd42cc3e8bbe4e3ddc7c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:17 +0000
Subject: [PATCH 12/16] fix: Keep the temporal unit that did not fit the output
 buffer.

`GetOutputTemporalUnit()` decoded the next temporal unit over the one it
failed to write, so the user who retried with a larger buffer silently lost
audio.
---
 iamf/api/decoder/iamf_decoder.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/iamf/api/decoder/iamf_decoder.cc b/iamf/api/decoder/iamf_decoder.cc
index 4c4d980..a092c76 100644
--- a/iamf/api/decoder/iamf_decoder.cc
+++ b/iamf/api/decoder/iamf_decoder.cc
@@ -449,9 +449,12 @@ IamfStatus IamfDecoder::GetOutputTemporalUnit(uint8_t* output_buffer,
   IamfStatus status = WriteFrameToSpan(
       state_->rendered_samples, output_sample_type,
       absl::MakeSpan(output_buffer, output_buffer_size), bytes_written);
-  if (status.ok()) {
-    state_->rendered_samples.clear();
+  if (!status.ok()) {
+    // Keep the temporal unit. The next one must not replace it before it was
+    // output.
+    return status;
   }
+  state_->rendered_samples.clear();
 
   // Refill the rendered samples with the next temporal unit.
   auto decode_status = DecodeOneTemporalUnit(
@@ -459,10 +462,7 @@ IamfStatus IamfDecoder::GetOutputTemporalUnit(uint8_t* output_buffer,
       state_->created_from_descriptors ||
           state_->status == DecoderStatus::kEndOfStream,
       state_->rendered_samples, state_->channel_reorderer);
-  if (!decode_status.ok()) {
-    return decode_status;
-  }
-  return status;
+  return decode_status;
 }
 
 bool IamfDecoder::IsTemporalUnitAvailable() const {
-- 
2.43.0


From 42fd0fa8c1ee8494482433398ab4493e09fd3667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:17 +0000
Subject: [PATCH 13/16] fix: Apply the channel ordering to every temporal unit.

The reorderer was created in a later `Decode()` than the one that completed
the descriptors. When all data comes with the descriptors and
`SignalEndOfDecoding()` follows, the audio was output in the wrong order.
---
 iamf/api/decoder/iamf_decoder.cc | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/iamf/api/decoder/iamf_decoder.cc b/iamf/api/decoder/iamf_decoder.cc
index a092c76..d12e7e8 100644
--- a/iamf/api/decoder/iamf_decoder.cc
+++ b/iamf/api/decoder/iamf_decoder.cc
@@ -173,6 +173,16 @@ absl::Status IamfDecoder::DecoderState::CreateObuProcessor() {
   }
   actual_layout = *new_layout;
 
+  channel_reorderer = std::nullopt;
+  if (std::holds_alternative<LoudspeakersSsConventionLayout>(
+          actual_layout.specific_layout)) {
+    auto sound_system = std::get<LoudspeakersSsConventionLayout>(
+                            actual_layout.specific_layout)
+                            .sound_system;
+    channel_reorderer =
+        ChannelReorderer::Create(sound_system, channel_rearrangement_scheme);
+  }
+
   // Copy over fields at the end, now that everything is successful.
   obu_processor = std::move(temp_obu_processor);
 
@@ -417,14 +427,6 @@ IamfStatus IamfDecoder::Decode(const uint8_t* input_buffer,
   }
 
   // At this stage, we know that we've processed all descriptor OBUs.
-  if (std::holds_alternative<LoudspeakersSsConventionLayout>(
-          state_->actual_layout.specific_layout)) {
-    auto sound_system = std::get<LoudspeakersSsConventionLayout>(
-                            state_->actual_layout.specific_layout)
-                            .sound_system;
-    state_->channel_reorderer = ChannelReorderer::Create(
-        sound_system, state_->channel_rearrangement_scheme);
-  }
   if (state_->rendered_samples.empty()) {
     // We only try to actually decode a temporal unit if we have no currently
     // decoded temporal units. If we do, we'll decode the next temporal unit in
-- 
2.43.0


From 9bbb7dfb946706e837945926968205f234882eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:17 +0000
Subject: [PATCH 14/16] fix: Do not abort on a temporal unit without audio
 frames.

Such a unit (a parameter block between two temporal delimiters) renders to
no channels. Reordering those for Android fails, which aborted the process.
---
 iamf/api/decoder/iamf_decoder.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/iamf/api/decoder/iamf_decoder.cc b/iamf/api/decoder/iamf_decoder.cc
index d12e7e8..16cfabb 100644
--- a/iamf/api/decoder/iamf_decoder.cc
+++ b/iamf/api/decoder/iamf_decoder.cc
@@ -23,7 +23,6 @@
 #include <vector>
 
 #include "absl/container/flat_hash_set.h"
-#include "absl/log/absl_check.h"
 #include "absl/memory/memory.h"
 #include "absl/status/status.h"
 #include "absl/status/statusor.h"
@@ -243,8 +242,12 @@ IamfStatus DecodeOneTemporalUnit(
     }
     rendered_samples = std::vector(rendered_samples_for_temporal_unit->begin(),
                                    rendered_samples_for_temporal_unit->end());
-    if (channel_reorderer.has_value()) {
-      ABSL_CHECK_OK(channel_reorderer->Reorder(rendered_samples));
+    // Nothing is rendered for a temporal unit without audio frames.
+    if (channel_reorderer.has_value() && !rendered_samples.empty()) {
+      const auto reorder_status = channel_reorderer->Reorder(rendered_samples);
+      if (!reorder_status.ok()) {
+        return AbslToIamfStatus(reorder_status);
+      }
     }
   }
   // Empty the buffer of the data that was processed thus far.
-- 
2.43.0


From 8c4760fb21cb58494ebf2f92db966b2aa3f82353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:44 +0000
Subject: [PATCH 15/16] fix: Keep a parameter block until every audio element
 that shares its ID has used it.

---
 iamf/cli/parameters_manager.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/iamf/cli/parameters_manager.cc b/iamf/cli/parameters_manager.cc
index eeded8b..b99fac6 100644
--- a/iamf/cli/parameters_manager.cc
+++ b/iamf/cli/parameters_manager.cc
@@ -84,7 +84,15 @@ absl::Status UpdateParameterState(
                    " parameters: ")));
 
   // Clear out the parameter block, which should not be used before a new
-  // one is added via `Add*ParameterBlock()`.
+  // one is added via `Add*ParameterBlock()`. Other audio elements may share the
+  // parameter ID; keep the block until all of them have been updated.
+  for (const auto& [unused_id, other_state] : parameter_states) {
+    if (other_state.param_definition->GetParameterId() ==
+            (*parameter_state)->param_definition->GetParameterId() &&
+        other_state.next_timestamp != (*parameter_state)->next_timestamp) {
+      return absl::OkStatus();
+    }
+  }
   parameter_block = nullptr;
 
   return absl::OkStatus();
-- 
2.43.0


From 49da975c1945eb256cd77e867e2a2beec734a42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:44 +0000
Subject: [PATCH 16/16] fix: Do not let the sum of the trims of an audio frame
 wrap around.

---
 iamf/cli/temporal_unit_view.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/iamf/cli/temporal_unit_view.cc b/iamf/cli/temporal_unit_view.cc
index b9922a1..e78d9b2 100644
--- a/iamf/cli/temporal_unit_view.cc
+++ b/iamf/cli/temporal_unit_view.cc
@@ -68,12 +68,15 @@ ComputeTemporalUnitStatisticsFromAudioFrame(
   };
 
   // Check the trim in the first frame is plausible. I.e. there are not at least
-  // 0 samples. This also prevents underflow when subtracting later.
-  const uint32_t cumulative_trim = statistics.num_samples_to_trim_at_start +
-                                   statistics.num_samples_to_trim_at_end;
-  RETURN_IF_NOT_OK(Validate(cumulative_trim, std::less_equal<uint32_t>(),
-                            statistics.num_samples_per_frame,
-                            "cumulative trim is <= `num_samples_per_frame`"));
+  // 0 samples. This also prevents underflow when subtracting later. The sum is
+  // wider than its operands, so that it cannot wrap.
+  const uint64_t cumulative_trim =
+      static_cast<uint64_t>(statistics.num_samples_to_trim_at_start) +
+      statistics.num_samples_to_trim_at_end;
+  RETURN_IF_NOT_OK(
+      Validate(cumulative_trim, std::less_equal<uint64_t>(),
+               static_cast<uint64_t>(statistics.num_samples_per_frame),
+               "cumulative trim is <= `num_samples_per_frame`"));
   statistics.num_untrimmed_samples =
       statistics.num_samples_per_frame - cumulative_trim;
 
-- 
2.43.0

