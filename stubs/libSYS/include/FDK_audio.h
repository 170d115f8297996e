#pragma once
#include "libSYS/include/machine_type.h"
typedef enum { TT_UNKNOWN = -1, TT_MP4_RAW = 0, TT_MP4_ADTS = 2 } TRANSPORT_TYPE;
typedef enum { AOT_NONE = -1, AOT_AAC_LC = 2 } AUDIO_OBJECT_TYPE;
typedef enum { MODE_INVALID = -1, MODE_UNKNOWN = 0, MODE_1 = 1, MODE_2 = 2 } CHANNEL_MODE;
