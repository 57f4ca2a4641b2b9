#include "seq_inst.hpp"
// tiny free lists: blocks keep crossing the thread local and global lists
SEQ_FLEX(Elem<false>, mp_tiny, 2, 2)
SCN("flex.tiny.all", FO_ALL, 1, 300)
SCN("flex.tiny.trans", FO_TRANS, 1, 300)
SCN("flex.tiny.share", FO_SHARE, 4, 100)
SCN("flex.tiny.faultm", FO_FAULTM, 1, 40)
SCN("flex.tiny.steal", FO_STEAL, 3, 100)
SCN("flex.tiny.mcat.faultm", FO_MCATF, 1, 60)
