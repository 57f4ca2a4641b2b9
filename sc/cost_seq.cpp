#include <immer/algorithm.hpp>
#include "cost.hpp"
using namespace sim;
COST_FLEX("flex.2", u32, mp_basic, 2, 2)
COST_FLEX("flex.5", u32, mp_sized, 5, 4)
COST_VEC("vec.2", u32, mp_basic, 2, 2)
COST_VEC("vec.3", u32, mp_norv, 3, 2)
