#pragma once
#include <stdio.h>
#include <stdint.h>
extern "C" {
int WriteWavHeader(FILE*, size_t, int, int);
int WriteWavHeader24Bit(FILE*, size_t, int, int);
int WriteWavHeader32Bit(FILE*, size_t, int, int);
}
