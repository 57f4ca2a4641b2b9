#include "seq_inst.hpp"
// elements whose move throws, the default policy, leaves of four
SEQ_FLEX(Elem<true>, mp_sizede, 2, 2)
SCN("flex.tm.all", FO_ALL, 1, 400)
SCN("flex.tm.trans", FO_TRANS, 1, 400)
SCN("flex.tm.share", FO_SHARE, 4, 100)
SCN("flex.tm.fault", FO_FAULT, 1, 200)
SCN("flex.tm.faultm", FO_FAULTM, 1, 200)
SCN("flex.tm.steal", FO_STEAL, 3, 100)
SCN("flex.tm.mcat.faultm", FO_MCATF, 1, 60)
