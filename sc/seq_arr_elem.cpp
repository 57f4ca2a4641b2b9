#include "seq_inst.hpp"
SEQ_ARR(Elem<false>, mp_basic)
SCN("arr.elem.all", FO_ALL, 1, 60)
SCN("arr.elem.trans", FO_TRANS, 1, 60)
SCN("arr.elem.share", FO_SHARE, 4, 30)
SCN("arr.elem.fault", FO_FAULT, 1, 30)
SCN("arr.elem.faultm", FO_FAULTM, 1, 30)
SCN("arr.elem.read", FO_READ, 1, 60)
SCN("arr.elem.steal", FO_STEAL, 3, 100)
