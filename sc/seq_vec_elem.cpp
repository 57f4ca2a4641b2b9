#include "seq_inst.hpp"
SEQ_VEC(Elem<false>, mp_basic, 2, 1)
SCN("vec.elem.all", FO_ALL, 1, 400)
SCN("vec.elem.trans", FO_TRANS, 1, 400)
SCN("vec.elem.share", FO_SHARE, 4, 100)
SCN("vec.elem.fault", FO_FAULT, 1, 200)
SCN("vec.elem.faultm", FO_FAULTM, 1, 200)
SCN("vec.elem.read", FO_READ, 1, 400)
SCN("vec.elem.steal", FO_STEAL, 3, 100)
