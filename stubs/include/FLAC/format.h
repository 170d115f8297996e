#pragma once
#include "include/FLAC/ordinals.h"
typedef enum { FLAC__METADATA_TYPE_STREAMINFO = 0, FLAC__METADATA_TYPE_PADDING = 1 } FLAC__MetadataType;
typedef struct { uint32_t min_blocksize, max_blocksize, min_framesize, max_framesize, sample_rate, channels, bits_per_sample; FLAC__uint64 total_samples; FLAC__byte md5sum[16]; } FLAC__StreamMetadata_StreamInfo;
typedef struct { FLAC__MetadataType type; FLAC__bool is_last; uint32_t length; union { FLAC__StreamMetadata_StreamInfo stream_info; } data; } FLAC__StreamMetadata;
typedef struct { uint32_t blocksize, sample_rate, channels; int channel_assignment; uint32_t bits_per_sample; } FLAC__FrameHeader;
typedef struct { FLAC__FrameHeader header; } FLAC__Frame;
