#include "atom.hpp"
using namespace sim;
ATOM(Cell<true>, mp_tiny)
ASCN("tm.lin", AF_ATOM, 4)
ASCN("tm.linf", AF_FAULT, 3)
ASCN("tm.box", AF_BOX, 1)
ASCN("tm.boxf", AF_BOXF, 1)
ASCN("tm.share", AF_SHARE, 3)
