#include "seq_inst.hpp"
// many small elements to a leaf
SEQ_FLEX(unsigned char, mp_basic, 2, 4)
SCN("flex.char.all", FO_ALL, 1, 1200)
SCN("flex.char.cat", FO_CAT, 1, 1200)
SCN("flex.char.trans", FO_TRANS, 1, 1200)
SCN("flex.char.read", FO_READ, 1, 1200)
