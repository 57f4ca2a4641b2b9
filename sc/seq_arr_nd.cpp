#include "nd.hpp"
#include "seq_inst.hpp"
SEQ_ARR(Elem<false>, mp_basic)
SCN("arr.nd.all", FO_ALL, 1, 60)
SCN("arr.nd.trans", FO_TRANS, 1, 60)
SCN("arr.nd.faultm", FO_FAULTM, 1, 30)
