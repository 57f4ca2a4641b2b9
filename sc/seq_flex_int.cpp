#include "seq_inst.hpp"
// the container as it is shipped: default bits and policy
SEQ_FLEX(u32, mp_default)
SCN("flex.int.all", FO_ALL, 1, 2400)
SCN("flex.int.cat", FO_CAT, 1, 2400)
SCN("flex.int.trans", FO_TRANS, 1, 2400)
SCN("flex.int.share", FO_SHARE, 4, 400)
SCN("flex.int.read", FO_READ, 1, 2400)
SCN("flex.int.steal", FO_STEAL, 3, 100)
