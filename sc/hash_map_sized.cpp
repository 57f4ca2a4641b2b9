#include "hash.hpp"
using namespace sim;
using E = Elem<false>;
HASH_MAP(u32, E, mp_sized, 4)
HSCN("map.sized.all", HF_ALL, 1, 400)
HSCN("map.sized.trans", HF_TRANS, 1, 400)
HSCN("map.sized.diff", HF_DIFF, 1, 400)
HSCN("map.sized.fault", HF_FAULT, 1, 200)
HSCN("map.sized.faultm", HF_FAULTM, 1, 200)
HSCN("map.sized.share", HF_SHARE, 4, 60)
HSCN("map.sized.steal", HF_STEAL, 3, 60)
