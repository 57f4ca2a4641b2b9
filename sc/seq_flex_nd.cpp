#include "nd.hpp"
#include "seq_inst.hpp"
SEQ_FLEX(Elem<false>, mp_sized, 2, 2)
SCN("flex.nd.all", FO_ALL, 1, 400)
SCN("flex.nd.cat", FO_CAT, 1, 400)
SCN("flex.nd.trans", FO_TRANS, 1, 400)
SCN("flex.nd.share", FO_SHARE, 4, 100)
SCN("flex.nd.fault", FO_FAULT, 1, 200)
SCN("flex.nd.faultm", FO_FAULTM, 1, 60)
SCN("flex.nd.read", FO_READ, 1, 400)
SCN("flex.nd.steal", FO_STEAL, 3, 100)
SCN("flex.nd.mcat", FO_MCAT, 1, 200)
SCN("flex.nd.mcat.faultm", FO_MCATF, 1, 60)
