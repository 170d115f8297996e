#pragma once
#include <stdio.h>
#include "src/dsp/read_wav_info.h"
extern "C" {
int ReadWavHeader(FILE*, ReadWavInfo*);
size_t ReadWavSamples(FILE*, ReadWavInfo*, void*, size_t);
}
