#include "seq_inst.hpp"
SEQ_ARR(Elem<true>, mp_default)
SCN("arr.tm.all", FO_ALL, 1, 60)
SCN("arr.tm.trans", FO_TRANS, 1, 60)
SCN("arr.tm.share", FO_SHARE, 4, 30)
SCN("arr.tm.fault", FO_FAULT, 1, 30)
SCN("arr.tm.faultm", FO_FAULTM, 1, 30)
SCN("arr.tm.steal", FO_STEAL, 3, 100)
