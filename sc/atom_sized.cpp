#include "atom.hpp"
using namespace sim;
ATOM(Cell<false>, mp_sized)
ASCN("sized.lin", AF_ATOM, 4)
ASCN("sized.linf", AF_FAULT, 3)
ASCN("sized.box", AF_BOX, 1)
ASCN("sized.boxf", AF_BOXF, 1)
ASCN("sized.share", AF_SHARE, 3)
