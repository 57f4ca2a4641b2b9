#include "dvek.hpp"
using namespace sim;
using E = Elem<false>;
DVSCN(1, "elem.all", E, 1, mp_basic, false, 1, 200)
DVSCN(2, "elem.fault", E, 1, mp_basic, true, 1, 100)
DVSCN(3, "elem.share", E, 1, mp_basic, false, 3, 60)
DVSCN(4, "int.all", u32, 5, mp_default, false, 1, 2500)
DVSCN(5, "int.share", u32, 2, mp_default, false, 4, 200)
DVSCN(6, "b2.all", E, 2, mp_sized, false, 1, 500)
DVSCN(7, "b2.fault", E, 2, mp_sized, true, 1, 300)
DVSCN(8, "gc.all", u32, 2, mp_gc, false, 1, 300)
DVSCN(9, "unsafe.fault", u32, 3, mp_unsafe, true, 1, 300)
