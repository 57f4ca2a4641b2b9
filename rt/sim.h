// Deterministic simulator for immer: interface between the simulator runtime
// (libsimrt.so, never instrumented) and the scenarios (instrumented TUs that
// include the real immer headers).
#pragma once
#include <cstddef>
#include <cstdint>
#include <exception>
#include <string>
#include <utility>
#include <vector>

#define SIM_API __attribute__((visibility("default")))

namespace sim {

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;

constexpr int MAXT = 8; // main fiber + up to 7 simulated threads

struct Rng
{
    u64 s;
    explicit Rng(u64 seed = 1)
        : s(seed)
    {}
    u64 next()
    {
        u64 z = (s += 0x9e3779b97f4a7c15ull);
        z     = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z     = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    u32 below(u32 n) { return n ? (u32) ((next() >> 11) % n) : 0; }
    u32 range(u32 lo, u32 hi) { return lo + below(hi - lo + 1); }
    bool chance(u32 num, u32 den) { return below(den) < num; }
};

struct Op
{
    u16 kind = 0;
    u16 id   = 0; // stable over minimisation
    u32 a[4] = {0, 0, 0, 0};
};

struct Program
{
    u32 cfg[16] = {0}; // scenario defined; 12.. reserved by the runtime
    int nth     = 1;   // threads are th[1..nth]; th[0] is run by main first
    std::vector<Op> th[MAXT];
};
// runtime configuration slots of Program::cfg
enum
{
    CFG_ALLOC = 12, // allocator: 0 never reuses addresses, 1 reuses LIFO
    CFG_FILL  = 13, // byte pattern fresh memory is filled with
    CFG_RACE  = 14, // 1: data race detection on
    CFG_FREE  = 15
};

// what the simulator may inject inside a fault scope
enum : u32
{
    FM_ALLOC = 1, // an allocation fails
    FM_THROW = 2, // an element's / key's / user function's code throws
};

// bits of what a generated run may use, chosen by the scenario
struct RunShape
{
    u32 fault_mask   = 0;   // FM_*
    u32 fault_pct    = 0;   // percentage of runs in which faults are injected
    bool use_gc      = false;
    u32 est_steps    = 400; // rough length of a run, for change point placement
};

struct Scenario
{
    const char* name;
    explicit Scenario(const char* n)
        : name(n)
    {}
    virtual ~Scenario() {}
    virtual void gen(Rng&, Program&)             = 0;
    virtual RunShape shape()                     = 0;
    virtual const char* op_name(int kind)        = 0;
    virtual void setup(const Program&)           = 0; // main, before th[0]
    virtual void run_op(int tid, const Op&)      = 0;
    virtual void thread_begin(int) {}
    virtual void thread_end(int) {}                   // before TLS destructors
    virtual void finish()                        = 0; // main, after the joins
};

SIM_API void register_scenario(Scenario*);
SIM_API int sim_main(int argc, char** argv, void* data0, void* data1);

// ---- reporting ---------------------------------------------------------
[[noreturn]] SIM_API void fail(const char* cls, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
SIM_API void note(u64 v);              // mixes an observation into the hash
SIM_API void probe(const char* name);  // counts a named rare situation
SIM_API void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
SIM_API u64 now();                     // simulated time: steps so far
SIM_API int self();                    // simulated thread

// ---- scopes ------------------------------------------------------------
// code inside a Sut scope is "the system": its accesses are checked, its
// atomics are scheduling points, its allocations come from the arena
SIM_API int sut_set(int on); // returns the previous value
struct Sut
{
    int o;
    Sut() { o = sut_set(1); }
    ~Sut() { sut_set(o); }
};
struct NoSut
{
    int o;
    NoSut() { o = sut_set(0); }
    ~NoSut() { sut_set(o); }
};

// ---- faults ------------------------------------------------------------
struct Injected // what user code throws
{
    int what;
};
SIM_API void fault_begin(u32 mask); // starts an attempt of the current op
SIM_API void may_terminate(bool); // a failure may end the process by design
SIM_API int fault_end();            // how many faults fired in the attempt
SIM_API int fault_suspend();        // for user code run in between
SIM_API void fault_resume(int);
SIM_API bool throw_here(); // called by user code at each point it may throw
inline void maybe_throw(int what)
{
    if (throw_here())
        throw Injected{what};
}

// ---- memory ------------------------------------------------------------
SIM_API void* root_alloc(size_t n); // arena memory that holds handles: a root
SIM_API void root_free(void*);
SIM_API bool in_arena(const void*);
SIM_API bool addressable(const void*, size_t);
SIM_API u64 live_blocks();  // arena blocks the system holds
SIM_API u64 total_allocs(); // allocations the system made so far
SIM_API u64 live_bytes();
// what the current thread cost so far
SIM_API u64 my_allocs();
SIM_API u64 my_bytes(); // what these allocations asked for
SIM_API u64 my_work();  // accesses to memory
SIM_API void check_leaks(); // unreachable (non gc) blocks are a violation
SIM_API void gc_collect();  // force a collection
SIM_API void check_block(const void* p, size_t n, const char* what);

// ---- elements ----------------------------------------------------------
SIM_API void elem_born(const void*);
SIM_API void elem_dead(const void*);
SIM_API void elem_use(const void*);
SIM_API long elem_live();
SIM_API void set_elem_registry(bool on);

// ---- threads -----------------------------------------------------------
SIM_API void preempt(); // an explicit scheduling point
struct SIM_API Mutex
{
    int owner = 0;
    u32 vc[MAXT];
    Mutex();
    void lock();
    void unlock();
};
struct Lock
{
    Mutex& m;
    explicit Lock(Mutex& m_)
        : m(m_)
    {
        m.lock();
    }
    ~Lock() { m.unlock(); }
};
SIM_API bool race_on();

template <class S>
struct Reg
{
    S s;
    template <class... A>
    explicit Reg(A&&... a)
        : s(std::forward<A>(a)...)
    {
        register_scenario(&s);
    }
};

} // namespace sim
