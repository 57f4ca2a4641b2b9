#include "hash.hpp"
using namespace sim;
using E = Elem<false>;
HASH_MAP(u32, E, mp_unsafe, 3)
HSCN("map.unsafe.all", HF_ALL, 1, 200)
HSCN("map.unsafe.trans", HF_TRANS, 1, 200)
HSCN("map.unsafe.diff", HF_DIFF, 1, 200)
HSCN("map.unsafe.fault", HF_FAULT, 1, 200)
HSCN("map.unsafe.faultm", HF_FAULTM, 1, 200)
