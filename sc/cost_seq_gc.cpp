#include <immer/algorithm.hpp>
#include "cost.hpp"
using namespace sim;
COST_FLEX("flexgc.3", u32, mp_gc, 3, 3)
COST_VEC("vecgc.2", u32, mp_gc, 2, 1)
using box = immer::box<u32, mp_basic>;
COST_FLEX("flexnorv.3", u32, mp_norv, 3, 1)
