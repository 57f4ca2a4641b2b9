#include "hash.hpp"
using namespace sim;
using E = Elem<false>;
HASH_TAB(E, E, mp_basic, 3)
HSCN("tab.elem.all", HF_ALL, 1, 200)
HSCN("tab.elem.trans", HF_TRANS, 1, 200)
HSCN("tab.elem.diff", HF_DIFF, 1, 200)
HSCN("tab.elem.fault", HF_FAULT, 1, 200)
HSCN("tab.elem.faultm", HF_FAULTM, 1, 200)
HSCN("tab.elem.share", HF_SHARE, 4, 60)
HSCN("tab.elem.steal", HF_STEAL, 3, 60)
