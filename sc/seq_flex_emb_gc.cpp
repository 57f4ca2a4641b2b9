// garbage collected, what relaxed nodes need is embedded in them
#include "seq_inst.hpp"
using mp_gce = immer::memory_policy<immer::heap_policy<immer::gc_heap>, immer::no_refcount_policy, immer::default_lock_policy, immer::gc_transience_policy, true>; using gcbox = immer::box<u32, mp_gce>;
SEQ_FLEX(gcbox, mp_gce, 2, 2)
SCN("flex.gc.emb.all", FO_ALL, 1, 300)
SCN("flex.gc.emb.trans", FO_TRANS, 1, 300)
SCN("flex.gc.emb.faultm", FO_FAULTM, 1, 200)
SCN("flex.gc.emb.mcat", FO_MCAT, 1, 200)
