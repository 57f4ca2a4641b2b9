#include "hash.hpp"
using namespace sim;
HASH_SET(u32, mp_default, 5)
HSCN("set.int.all", HF_ALL, 1, 1000)
HSCN("set.int.trans", HF_TRANS, 1, 1000)
HSCN("set.int.diff", HF_DIFF, 1, 1000)
HSCN("set.int.share", HF_SHARE, 4, 60)
HSCN("set.int.steal", HF_STEAL, 3, 60)
