#include "seq_inst.hpp"
SEQ_VEC(u32, mp_default)
SCN("vec.int.all", FO_ALL, 1, 2400)
SCN("vec.int.trans", FO_TRANS, 1, 2400)
SCN("vec.int.share", FO_SHARE, 4, 400)
SCN("vec.int.read", FO_READ, 1, 2400)
SCN("vec.int.steal", FO_STEAL, 3, 100)
