#include "seq_inst.hpp"
using gcbox = immer::box<u32, mp_gc>;
SEQ_VEC(gcbox, mp_gc, 2, 2)
SCN("vec.gc.all", FO_ALL, 1, 300)
SCN("vec.gc.trans", FO_TRANS, 1, 300)
SCN("vec.gc.share", FO_SHARE, 4, 100)
SCN("vec.gc.faultm", FO_FAULTM, 1, 200)
