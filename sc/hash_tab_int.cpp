#include "hash.hpp"
using namespace sim;
HASH_TAB(u32, u32, mp_tiny, 5)
HSCN("tab.int.all", HF_ALL, 1, 1000)
HSCN("tab.int.trans", HF_TRANS, 1, 1000)
HSCN("tab.int.diff", HF_DIFF, 1, 1000)
HSCN("tab.int.share", HF_SHARE, 4, 60)
HSCN("tab.int.steal", HF_STEAL, 3, 60)
