#include "seq_inst.hpp"
SEQ_ARR(Big, mp_sized)
SCN("arr.sized.all", FO_ALL, 1, 60)
SCN("arr.sized.trans", FO_TRANS, 1, 60)
SCN("arr.sized.faultm", FO_FAULTM, 1, 30)
SCN("arr.sized.fault", FO_FAULT, 1, 30)
