// linked into every scenario executable
#include "sim.h"
extern "C" {
extern char __data_start, _end;
}
int main(int argc, char** argv)
{
    return sim::sim_main(argc, argv, &__data_start, &_end);
}
