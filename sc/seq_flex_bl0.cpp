#include "seq_inst.hpp"
// a single element to a leaf
SEQ_FLEX(Elem<false>, mp_basic, 2, 0)
SCN("flex.bl0.all", FO_ALL, 1, 150)
SCN("flex.bl0.cat", FO_CAT, 1, 150)
SCN("flex.bl0.trans", FO_TRANS, 1, 150)
SCN("flex.bl0.fault", FO_FAULT, 1, 80)
SCN("flex.bl0.faultm", FO_FAULTM, 1, 80)
SCN("flex.bl0.steal", FO_STEAL, 3, 80)
