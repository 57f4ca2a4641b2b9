#include "huge.hpp"
using namespace sim;
// as shipped, with more elements than 32 bits can count
HUGE_FLEX(u32, mp_default)
SCN("huge.int.all", false, 1ull << 34)
SCN("huge.int.fault", true, 1ull << 34)
