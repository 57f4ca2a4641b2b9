#include "heap.hpp"
using namespace sim;
using namespace immer;
namespace {
using dbg_cpp    = debug_size_heap<cpp_heap>;
using dbg_malloc = debug_size_heap<malloc_heap>;
using global3    = with_free_list_node<free_list_heap<64, 3, dbg_cpp>>;
using global1    = with_free_list_node<free_list_heap<24, 1, malloc_heap>>;
using local3     = with_free_list_node<thread_local_free_list_heap<48, 3, dbg_malloc>>;
using unsafe2    = with_free_list_node<unsafe_free_list_heap<40, 2, dbg_cpp>>;
using policy2    = free_list_heap_policy<cpp_heap, 2>::optimized<56>::type;
using policyU    = unsafe_free_list_heap_policy<malloc_heap, 3>::optimized<32>::type;
struct stamp
{
    u64 a = 0x1122334455667788ull, b = 1;
    ~stamp()
    {
        if (a != 0x1122334455667788ull || b != 1)
            fail("bad-block", "data next to a block was overwritten");
    }
};
using stamped = with_data<stamp, dbg_cpp>;
using split   = split_heap<32, stamped, dbg_malloc>;
} // namespace
HEAPSCN("global3", 4, false, global3, 64, 64, 3, 0)
HEAPSCN("global3.fault", 3, true, global3, 64, 64, 3, 0)
HEAPSCN("global3.st", 1, false, global3, 64, 64, 3, 0)
HEAPSCN("global1", 3, false, global1, 24, 24, 1, 0)
HEAPSCN("local3", 4, false, local3, 48, 48, 0, 3)
HEAPSCN("local3.fault", 2, true, local3, 48, 48, 0, 3)
HEAPSCN("policy2", 4, false, policy2, 120, 56, 2, 2)
HEAPSCN("policy2.fault", 3, true, policy2, 120, 56, 2, 2)
HEAPSCN("policy2.st", 1, true, policy2, 120, 56, 2, 2)
HEAPSCN("unsafe2", 1, true, unsafe2, 40, 40, 2, 0)
HEAPSCN("policyU", 1, true, policyU, 100, 32, 3, 0)
HEAPSCN("split", 3, true, split, 100, 0, 0, 0)
