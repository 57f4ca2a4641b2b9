#include "seq_inst.hpp"
// every block is freed with the size it was allocated with
SEQ_FLEX(Big, mp_sized, 3, 2)
SCN("flex.sized.all", FO_ALL, 1, 600)
SCN("flex.sized.cat", FO_CAT, 1, 600)
SCN("flex.sized.trans", FO_TRANS, 1, 600)
SCN("flex.sized.fault", FO_FAULT, 1, 300)
SCN("flex.sized.faultm", FO_FAULTM, 1, 300)
SCN("flex.sized.share", FO_SHARE, 3, 150)
SCN("flex.sized.steal", FO_STEAL, 3, 100)
SCN("flex.sized.mcat", FO_MCAT, 1, 300)
SCN("flex.sized.mcat.faultm", FO_MCATF, 1, 60)
