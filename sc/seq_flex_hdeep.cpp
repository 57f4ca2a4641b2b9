#include "huge.hpp"
using namespace sim;
// tiny nodes, so trees of many levels
HUGE_FLEX(Elem<false>, mp_sized, 2, 2)
SCN("huge.deep.all", false, 1ull << 26)
SCN("huge.deep.fault", true, 1ull << 22)
