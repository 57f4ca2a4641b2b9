#include "huge.hpp"
using namespace sim;
HUGE_FLEX(u32, mp_gc, 4, 3)
SCN("huge.gc.all", false, 1ull << 19)
