#pragma once
#include <stddef.h>
#include <stdint.h>
typedef struct ReadWavInfo { int num_channels; int sample_rate_hz; size_t remaining_samples; int bit_depth; int destination_alignment_bytes; int encoding; enum SampleFormat { kInt16, kInt32, kFloat } sample_format; } ReadWavInfo;
