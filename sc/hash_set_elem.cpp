#include "hash.hpp"
using namespace sim;
// small nodes, elements that notice being lost or relocated
HASH_SET(Elem<false>, mp_basic, 3)
HSCN("set.elem.all", HF_ALL, 1, 200)
HSCN("set.elem.trans", HF_TRANS, 1, 200)
HSCN("set.elem.diff", HF_DIFF, 1, 200)
HSCN("set.elem.fault", HF_FAULT, 1, 200)
HSCN("set.elem.faultm", HF_FAULTM, 1, 200)
HSCN("set.elem.share", HF_SHARE, 4, 60)
HSCN("set.elem.steal", HF_STEAL, 3, 60)
