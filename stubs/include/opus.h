#pragma once
#include "include/opus_defines.h"
extern "C" {
typedef struct OpusEncoder OpusEncoder; typedef struct OpusDecoder OpusDecoder;
OpusEncoder* opus_encoder_create(opus_int32, int, int, int*);
void opus_encoder_destroy(OpusEncoder*);
int opus_encoder_ctl(OpusEncoder*, int, ...);
opus_int32 opus_encode(OpusEncoder*, const opus_int16*, int, unsigned char*, opus_int32);
opus_int32 opus_encode_float(OpusEncoder*, const float*, int, unsigned char*, opus_int32);
OpusDecoder* opus_decoder_create(opus_int32, int, int*);
void opus_decoder_destroy(OpusDecoder*);
int opus_decode_float(OpusDecoder*, const unsigned char*, opus_int32, float*, int, int);
const char* opus_strerror(int);
}
