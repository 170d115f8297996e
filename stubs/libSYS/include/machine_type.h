#pragma once
typedef int INT; typedef unsigned int UINT; typedef short SHORT; typedef unsigned short USHORT; typedef signed char SCHAR; typedef unsigned char UCHAR; typedef short INT_PCM;
