#include "seq_inst.hpp"
// more levels than the positions that are unrolled
SEQ_VEC(u32, mp_basic, 2, 1)
SCN("vec.deep.all", FO_ALL, 1, 10500)
