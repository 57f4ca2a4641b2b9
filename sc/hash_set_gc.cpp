#include "hash.hpp"
using namespace sim;
using gcbox = immer::box<u32, mp_gc>;
HASH_SET(gcbox, mp_gc, 3)
HSCN("set.gc.all", HF_ALL, 1, 200)
HSCN("set.gc.trans", HF_TRANS, 1, 200)
HSCN("set.gc.diff", HF_DIFF, 1, 200)
HSCN("set.gc.fault", HF_FAULT, 1, 200)
HSCN("set.gc.faultm", HF_FAULTM, 1, 200)
HSCN("set.gc.share", HF_SHARE, 4, 60)
HSCN("set.gc.steal", HF_STEAL, 3, 60)
