#include "huge.hpp"
using namespace sim;
// vectors with more elements than 32 bits can count
HUGE_VEC(u32, mp_default)
SCN("hugev.int.all", false, 1ull << 34)
SCN("hugev.int.fault", true, 1ull << 34)
