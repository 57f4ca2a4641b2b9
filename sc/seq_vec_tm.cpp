#include "seq_inst.hpp"
SEQ_VEC(Elem<true>, mp_sizede, 3, 2)
SCN("vec.tm.all", FO_ALL, 1, 400)
SCN("vec.tm.trans", FO_TRANS, 1, 400)
SCN("vec.tm.share", FO_SHARE, 4, 100)
SCN("vec.tm.fault", FO_FAULT, 1, 200)
SCN("vec.tm.faultm", FO_FAULTM, 1, 200)
SCN("vec.tm.steal", FO_STEAL, 3, 100)
