#include "seq_inst.hpp"
// rvalues are not updated in place
SEQ_FLEX(Elem<false>, mp_norv, 2, 3)
SCN("flex.norv.all", FO_ALL, 1, 300)
SCN("flex.norv.fault", FO_FAULT, 1, 200)
SCN("flex.norv.trans", FO_TRANS, 1, 300)
