#pragma once
namespace obr { enum class AudioElementType { kInvalidType, k1OA, k2OA, k3OA, k4OA, kObjectMono, kLayoutMono, kLayoutStereo, kLayout3_1_2_ch, kLayout5_1_0_ch, kLayout5_1_2_ch, kLayout5_1_4_ch, kLayout7_1_0_ch, kLayout7_1_2_ch, kLayout7_1_4_ch, kLayout9_1_0_ch, kLayout9_1_2_ch, kLayout9_1_4_ch, kLayout9_1_6_ch, kPassthroughMono, kPassthroughStereo }; }
