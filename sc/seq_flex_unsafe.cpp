#include "seq_inst.hpp"
// single threaded policy: plain counts, unsafe free lists
SEQ_FLEX(Elem<false>, mp_unsafe, 3, 2)
SCN("flex.unsafe.all", FO_ALL, 1, 300)
SCN("flex.unsafe.trans", FO_TRANS, 1, 300)
SCN("flex.unsafe.fault", FO_FAULT, 1, 200)
SCN("flex.unsafe.faultm", FO_FAULTM, 1, 40)
SCN("flex.unsafe.mcat.faultm", FO_MCATF, 1, 60)
