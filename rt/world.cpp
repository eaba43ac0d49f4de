#include "world.h"
namespace w { uint64_t g_stamp; Registry g_reg; }
