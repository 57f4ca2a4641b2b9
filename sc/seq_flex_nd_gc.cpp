#include "nd.hpp"
#include "seq_inst.hpp"
using gcbox = immer::box<u32, mp_gc>;
SEQ_FLEX(gcbox, mp_gc, 2, 2)
SCN("flex.nd.gc.all", FO_ALL, 1, 300)
SCN("flex.nd.gc.trans", FO_TRANS, 1, 300)
SCN("flex.nd.gc.faultm", FO_FAULTM, 1, 200)
SCN("flex.nd.gc.mcat", FO_MCAT, 1, 200)
