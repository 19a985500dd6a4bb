#include <zlib.h>
