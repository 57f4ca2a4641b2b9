#include "seq_inst.hpp"
// tiny nodes, elements that notice being lost or relocated, plain heap
SEQ_FLEX(Elem<false>, mp_basic, 2, 1)
SCN("flex.elem.all", FO_ALL, 1, 400)
SCN("flex.elem.cat", FO_CAT, 1, 400)
SCN("flex.elem.trans", FO_TRANS, 1, 400)
SCN("flex.elem.share", FO_SHARE, 4, 100)
SCN("flex.elem.fault", FO_FAULT, 1, 200)
SCN("flex.elem.faultm", FO_FAULTM, 1, 200)
SCN("flex.elem.read", FO_READ, 1, 400)
SCN("flex.elem.steal", FO_STEAL, 3, 100)
SCN("flex.elem.mcat", FO_MCAT, 1, 200)
SCN("flex.elem.mcat.faultm", FO_MCATF, 1, 60)
