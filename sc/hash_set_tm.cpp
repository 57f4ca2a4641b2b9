#include "hash.hpp"
using namespace sim;
HASH_SET(Elem<true>, mp_basic, 3)
HSCN("set.tm.fault", HF_FAULT, 1, 200)
HSCN("set.tm.faultm", HF_FAULTM, 1, 200)
