#include <expat_external.h>
