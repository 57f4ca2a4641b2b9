#include "hash.hpp"
using namespace sim;
HASH_MAP(u32, Big, mp_default, 5)
HSCN("map.int.all", HF_ALL, 1, 1000)
HSCN("map.int.trans", HF_TRANS, 1, 1000)
HSCN("map.int.diff", HF_DIFF, 1, 1000)
HSCN("map.int.share", HF_SHARE, 4, 60)
HSCN("map.int.steal", HF_STEAL, 3, 60)
