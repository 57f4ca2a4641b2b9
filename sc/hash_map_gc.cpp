#include "hash.hpp"
using namespace sim;
using gcbox = immer::box<u32, mp_gc>;
HASH_MAP(u32, gcbox, mp_gc, 3)
HSCN("map.gc.all", HF_ALL, 1, 200)
HSCN("map.gc.trans", HF_TRANS, 1, 200)
HSCN("map.gc.diff", HF_DIFF, 1, 200)
HSCN("map.gc.fault", HF_FAULT, 1, 200)
HSCN("map.gc.faultm", HF_FAULTM, 1, 200)
HSCN("map.gc.share", HF_SHARE, 4, 60)
HSCN("map.gc.steal", HF_STEAL, 3, 60)
