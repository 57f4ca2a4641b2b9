#include "nd.hpp"
#include "hash.hpp"
using namespace sim;
using E = Elem<false>;
HASH_SET(E, mp_basic, 2)
HSCN("set.nd.all", HF_ALL, 1, 200)
HSCN("set.nd.trans", HF_TRANS, 1, 200)
HSCN("set.nd.faultm", HF_FAULTM, 1, 200)
