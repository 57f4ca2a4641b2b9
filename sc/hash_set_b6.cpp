#include "hash.hpp"
using namespace sim;
// 64 branches: the bitmaps are 64 bit
HASH_SET(Elem<false>, mp_sized, 6)
HSCN("set.b6.all", HF_ALL, 1, 300)
HSCN("set.b6.trans", HF_TRANS, 1, 300)
HSCN("set.b6.fault", HF_FAULT, 1, 60)
HSCN("set.b6.faultm", HF_FAULTM, 1, 60)
HSCN("set.b6.diff", HF_DIFF, 1, 300)
