#include "cost_hash.hpp"
using namespace sim;
COST_HASH("set", CostSet, mp_basic, 3)
COST_HASH("map", CostMap, mp_sized, 5)
COST_HASH("table", CostTab, mp_basic, 4)
