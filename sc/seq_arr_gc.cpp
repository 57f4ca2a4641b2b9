#include "seq_inst.hpp"

SEQ_ARR(u32, mp_gc)
SCN("arr.gc.all", FO_ALL, 1, 60)
SCN("arr.gc.trans", FO_TRANS, 1, 60)
SCN("arr.gc.share", FO_SHARE, 4, 30)
SCN("arr.gc.faultm", FO_FAULTM, 1, 30)
SCN("arr.gc.fault", FO_FAULT, 1, 30)
