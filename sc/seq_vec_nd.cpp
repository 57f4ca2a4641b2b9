#include "nd.hpp"
#include "seq_inst.hpp"
SEQ_VEC(Elem<false>, mp_basic, 1, 1)
SCN("vec.nd.all", FO_ALL, 1, 400)
SCN("vec.nd.trans", FO_TRANS, 1, 400)
SCN("vec.nd.fault", FO_FAULT, 1, 200)
SCN("vec.nd.faultm", FO_FAULTM, 1, 200)
SCN("vec.nd.steal", FO_STEAL, 3, 100)
