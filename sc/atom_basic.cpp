#include "atom.hpp"
using namespace sim;
ATOM(Cell<false>, mp_basic)
ASCN("basic.lin", AF_ATOM, 4)
ASCN("basic.linf", AF_FAULT, 3)
ASCN("basic.box", AF_BOX, 1)
ASCN("basic.boxf", AF_BOXF, 1)
ASCN("basic.share", AF_SHARE, 3)
