#include "atom.hpp"
using namespace sim;
ATOM(Cell<false>, mp_unsafe)
ASCN("unsafe.box", AF_BOX, 1)
ASCN("unsafe.boxf", AF_BOXF, 1)
