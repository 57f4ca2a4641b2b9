#include "hash.hpp"
using namespace sim;
// vectors as values of a map
using row = sim::Nested<mp_tiny>;
HASH_MAP(u32, row, mp_tiny, 2)
HSCN("map.nest.all", HF_ALL, 1, 200)
HSCN("map.nest.trans", HF_TRANS, 1, 200)
HSCN("map.nest.diff", HF_DIFF, 1, 200)
HSCN("map.nest.fault", HF_FAULT, 1, 100)
HSCN("map.nest.faultm", HF_FAULTM, 1, 100)
HSCN("map.nest.share", HF_SHARE, 4, 60)
HSCN("map.nest.steal", HF_STEAL, 3, 60)
