// Included first in a translation unit that takes the library as released
// programs do: without its assertions.  The namespace gets another name, so
// that nothing is merged with the instantiations of the other units.
#define NDEBUG 1
#define immer immer_nd
