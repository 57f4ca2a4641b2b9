#include "hash.hpp"
using namespace sim;
using E = Elem<false>;
HASH_MAP(E, E, mp_basic, 3)
HSCN("map.elem.all", HF_ALL, 1, 200)
HSCN("map.elem.trans", HF_TRANS, 1, 200)
HSCN("map.elem.diff", HF_DIFF, 1, 200)
HSCN("map.elem.fault", HF_FAULT, 1, 200)
HSCN("map.elem.faultm", HF_FAULTM, 1, 200)
HSCN("map.elem.share", HF_SHARE, 4, 60)
HSCN("map.elem.steal", HF_STEAL, 3, 60)
