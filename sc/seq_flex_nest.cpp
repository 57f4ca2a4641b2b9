#include "seq_inst.hpp"
// vectors as elements of a vector: releasing a node releases other nodes
using row = sim::Nested<mp_tiny>;
SEQ_FLEX(row, mp_tiny, 2, 1)
SCN("flex.nest.all", FO_ALL, 1, 200)
SCN("flex.nest.cat", FO_CAT, 1, 200)
SCN("flex.nest.trans", FO_TRANS, 1, 200)
SCN("flex.nest.fault", FO_FAULT, 1, 100)
SCN("flex.nest.faultm", FO_FAULTM, 1, 100)
SCN("flex.nest.share", FO_SHARE, 4, 60)
SCN("flex.nest.steal", FO_STEAL, 3, 60)
SCN("flex.nest.read", FO_READ, 1, 100)
SCN("flex.nest.mcat.faultm", FO_MCATF, 1, 60)
