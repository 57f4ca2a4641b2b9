#include "hash.hpp"
using namespace sim;
using gcbox = immer::box<u32, mp_gc>;
HASH_TAB(u32, gcbox, mp_gc, 3)
HSCN("tab.gc.all", HF_ALL, 1, 200)
HSCN("tab.gc.trans", HF_TRANS, 1, 200)
HSCN("tab.gc.diff", HF_DIFF, 1, 200)
HSCN("tab.gc.share", HF_SHARE, 4, 60)
HSCN("tab.gc.steal", HF_STEAL, 3, 60)
