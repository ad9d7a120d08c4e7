// The one translation unit with HART's implementation; dr_wav allocates through the simulator
#include "sim.hpp"
#include <stdlib.h>
#define DRWAV_MALLOC(n) sim::libAlloc (n)
#define DRWAV_REALLOC(p, n) sim::libRealloc ((p), (n))
#define DRWAV_FREE(p) sim::libFree (p)
#define HART_IMPLEMENTATION
#include "hart.hpp"
