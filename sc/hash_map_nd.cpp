#include "nd.hpp"
#include "hash.hpp"
using namespace sim;
using E = Elem<false>;
HASH_MAP(E, E, mp_sized, 3)
HSCN("map.nd.all", HF_ALL, 1, 200)
HSCN("map.nd.trans", HF_TRANS, 1, 200)
HSCN("map.nd.diff", HF_DIFF, 1, 200)
HSCN("map.nd.fault", HF_FAULT, 1, 200)
HSCN("map.nd.faultm", HF_FAULTM, 1, 200)
HSCN("map.nd.share", HF_SHARE, 4, 60)
HSCN("map.nd.steal", HF_STEAL, 3, 60)
