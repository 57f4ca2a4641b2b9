#include "hash.hpp"
using namespace sim;
using E = Elem<false>;
HASH_MAP(E, u32, mp_norv, 2)
HSCN("map.norv.all", HF_ALL, 1, 200)
HSCN("map.norv.trans", HF_TRANS, 1, 200)
HSCN("map.norv.diff", HF_DIFF, 1, 200)
HSCN("map.norv.share", HF_SHARE, 4, 60)
HSCN("map.norv.steal", HF_STEAL, 3, 60)
