#include "cost_hash.hpp"
using namespace sim;
COST_HASH("setgc", CostSet, mp_gc, 5)
COST_HASH("mapnorv", CostMap, mp_norv, 3)
COST_HASH("tablegc", CostTab, mp_gc, 3)
