#pragma once
#include <stdint.h>
typedef int8_t FLAC__int8; typedef uint8_t FLAC__uint8; typedef int16_t FLAC__int16; typedef int32_t FLAC__int32;
typedef int64_t FLAC__int64; typedef uint16_t FLAC__uint16; typedef uint32_t FLAC__uint32; typedef uint64_t FLAC__uint64;
typedef int FLAC__bool; typedef FLAC__uint8 FLAC__byte;
