#include "atom.hpp"
using namespace sim;
ATOM(Cell<false>, mp_gc)
ASCN("gc.lin", AF_ATOM, 4)
ASCN("gc.linf", AF_FAULT, 3)
ASCN("gc.box", AF_BOX, 1)
ASCN("gc.boxf", AF_BOXF, 1)
ASCN("gc.share", AF_SHARE, 3)
