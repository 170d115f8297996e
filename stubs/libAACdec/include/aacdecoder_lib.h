#pragma once
#include "libSYS/include/FDK_audio.h"
typedef enum { AAC_DEC_OK = 0, AAC_DEC_OUT_OF_MEMORY = 2, AAC_DEC_UNKNOWN = 5, AAC_DEC_TRANSPORT_SYNC_ERROR = 0x1001, AAC_DEC_NOT_ENOUGH_BITS, AAC_DEC_INVALID_HANDLE = 0x2001, AAC_DEC_UNSUPPORTED_AOT, AAC_DEC_UNSUPPORTED_FORMAT, AAC_DEC_UNSUPPORTED_ER_FORMAT, AAC_DEC_UNSUPPORTED_EPCONFIG, AAC_DEC_UNSUPPORTED_MULTILAYER, AAC_DEC_UNSUPPORTED_CHANNELCONFIG, AAC_DEC_UNSUPPORTED_SAMPLINGRATE, AAC_DEC_INVALID_SBR_CONFIG, AAC_DEC_SET_PARAM_FAIL, AAC_DEC_NEED_TO_RESTART, AAC_DEC_OUTPUT_BUFFER_TOO_SMALL, AAC_DEC_TRANSPORT_ERROR = 0x4001, AAC_DEC_PARSE_ERROR, AAC_DEC_UNSUPPORTED_EXTENSION_PAYLOAD, AAC_DEC_DECODE_FRAME_ERROR, AAC_DEC_CRC_ERROR, AAC_DEC_INVALID_CODE_BOOK, AAC_DEC_UNSUPPORTED_PREDICTION, AAC_DEC_UNSUPPORTED_CCE, AAC_DEC_UNSUPPORTED_LFE, AAC_DEC_UNSUPPORTED_GAIN_CONTROL_DATA, AAC_DEC_UNSUPPORTED_SBA, AAC_DEC_TNS_READ_ERROR, AAC_DEC_RVLC_ERROR, AAC_DEC_ANC_DATA_ERROR = 0x8001, AAC_DEC_TOO_SMALL_ANC_BUFFER, AAC_DEC_TOO_MANY_ANC_ELEMENTS } AAC_DECODER_ERROR;
typedef enum { AAC_PCM_MAX_OUTPUT_CHANNELS = 0x0012 } AACDEC_PARAM;
typedef struct { INT sampleRate; INT frameSize; INT numChannels; } CStreamInfo;
struct AAC_DECODER_INSTANCE; typedef struct AAC_DECODER_INSTANCE* HANDLE_AACDECODER;
extern "C" {
HANDLE_AACDECODER aacDecoder_Open(TRANSPORT_TYPE, UINT);
AAC_DECODER_ERROR aacDecoder_ConfigRaw(HANDLE_AACDECODER, UCHAR*[], const UINT[]);
AAC_DECODER_ERROR aacDecoder_SetParam(const HANDLE_AACDECODER, const AACDEC_PARAM, const INT);
AAC_DECODER_ERROR aacDecoder_Fill(HANDLE_AACDECODER, UCHAR*[], const UINT[], UINT*);
AAC_DECODER_ERROR aacDecoder_DecodeFrame(HANDLE_AACDECODER, INT_PCM*, const INT, const UINT);
void aacDecoder_Close(HANDLE_AACDECODER);
CStreamInfo* aacDecoder_GetStreamInfo(HANDLE_AACDECODER);
}
