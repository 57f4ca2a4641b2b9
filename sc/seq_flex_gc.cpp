#include "seq_inst.hpp"
// garbage collected nodes and elements, transients by owner tokens
using gcbox = immer::box<u32, mp_gc>;
SEQ_FLEX(gcbox, mp_gc, 2, 1)
SCN("flex.gc.all", FO_ALL, 1, 300)
SCN("flex.gc.cat", FO_CAT, 1, 300)
SCN("flex.gc.trans", FO_TRANS, 1, 300)
SCN("flex.gc.share", FO_SHARE, 4, 100)
SCN("flex.gc.fault", FO_FAULT, 1, 200)
SCN("flex.gc.faultm", FO_FAULTM, 1, 200)
SCN("flex.gc.steal", FO_STEAL, 3, 100)
SCN("flex.gc.token", FO_TOKEN, 1, 100)
SCN("flex.gc.mcat", FO_MCAT, 1, 200)
SCN("flexgc.abort", FO_ABORT, 1, 200)
