#include "atom.hpp"
using namespace sim;
ATOM(Cell<false>, mp_default)
ASCN("def.lin", AF_ATOM, 4)
ASCN("def.linf", AF_FAULT, 3)
ASCN("def.box", AF_BOX, 1)
ASCN("def.boxf", AF_BOXF, 1)
ASCN("def.share", AF_SHARE, 3)
