#include <expat.h>
