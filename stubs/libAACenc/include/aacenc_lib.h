#pragma once
#include "libSYS/include/FDK_audio.h"
typedef enum { AACENC_OK = 0, AACENC_INVALID_HANDLE = 0x20, AACENC_MEMORY_ERROR, AACENC_UNSUPPORTED_PARAMETER, AACENC_INVALID_CONFIG, AACENC_INIT_ERROR = 0x40, AACENC_INIT_AAC_ERROR, AACENC_INIT_SBR_ERROR, AACENC_INIT_TP_ERROR, AACENC_INIT_META_ERROR, AACENC_INIT_MPS_ERROR, AACENC_ENCODE_ERROR = 0x60, AACENC_ENCODE_EOF = 0x80 } AACENC_ERROR;
typedef enum { IN_AUDIO_DATA = 0, OUT_BITSTREAM_DATA = 3 } AACENC_BufferIdentifier;
typedef enum { AACENC_AOT = 0x100, AACENC_BITRATE, AACENC_BITRATEMODE, AACENC_SAMPLERATE, AACENC_CHANNELMODE = 0x106, AACENC_AFTERBURNER = 0x200, AACENC_TRANSMUX = 0x300, AACENC_SIGNALING_MODE = 0x302, AACENC_METADATA_MODE = 0x600 } AACENC_PARAM;
typedef struct AACENCODER AACENCODER; typedef AACENCODER* HANDLE_AACENCODER;
typedef struct { UINT maxOutBufBytes; UINT maxAncBytes; UINT inBufFillLevel; UINT inputChannels; UINT frameLength; UINT nDelay; UINT nDelayCore; UCHAR confBuf[64]; UINT confSize; } AACENC_InfoStruct;
typedef struct { INT numBufs; void** bufs; INT* bufferIdentifiers; INT* bufSizes; INT* bufElSizes; } AACENC_BufDesc;
typedef struct { INT numInSamples; INT numAncBytes; } AACENC_InArgs;
typedef struct { INT numOutBytes; INT numInSamples; INT numAncBytes; INT bitResState; } AACENC_OutArgs;
extern "C" {
AACENC_ERROR aacEncOpen(HANDLE_AACENCODER*, const UINT, const UINT);
AACENC_ERROR aacEncClose(HANDLE_AACENCODER*);
AACENC_ERROR aacEncEncode(const HANDLE_AACENCODER, const AACENC_BufDesc*, const AACENC_BufDesc*, const AACENC_InArgs*, AACENC_OutArgs*);
AACENC_ERROR aacEncInfo(const HANDLE_AACENCODER, AACENC_InfoStruct*);
AACENC_ERROR aacEncoder_SetParam(const HANDLE_AACENCODER, const AACENC_PARAM, const UINT);
}
