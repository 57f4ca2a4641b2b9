#include "hash.hpp"
using namespace sim;
using E = Elem<false>;
HASH_MAP(E, E, mp_basic, 6)
HSCN("map.b6.all", HF_ALL, 1, 300)
HSCN("map.b6.trans", HF_TRANS, 1, 300)
HSCN("map.b6.faultm", HF_FAULTM, 1, 60)
HSCN("map.b6.diff", HF_DIFF, 1, 300)
