// internal interface between runtime.cpp and driver.cpp
#pragma once
#include "sim.h"

namespace sim {

enum : u8
{
    D_SW = 0, // preempt at the k-th scheduling point of (thread, op)
    D_NX = 1, // whom the k-th forced switch of (thread, op) goes to
    D_AF = 2, // the k-th allocation of (thread, op) fails
    D_TH = 3, // the k-th throw point of (thread, op) throws
    D_GC = 4, // the k-th gc allocation of (thread, op) collects first
    D_N  = 5
};
extern const char* dec_names[D_N];

struct Dec
{
    u8 kind;
    u8 tid;
    u16 op;
    u32 k;
    u32 val; // D_SW, D_NX: target | stall << 8
};

constexpr u32 MAXDEC = 8192;

struct Result
{
    int status; // 0 did not finish, 1 held, 2 violation, 3 simulator error
    char cls[48];
    char msg[2048];
    u64 hash;       // every event and observation
    u64 sched_hash; // schedule: who executed which kind of step
    u64 steps;
    u32 switches;
    u32 preempts;
    u32 stalls;
    u32 gcs;
    u32 vtid, vop, vkind;
    u32 fired_alloc, fired_throw;
    u64 allocs;
    u32 ops;
    u32 nprobe;
    struct
    {
        char name[40];
        u32 n;
    } probes[64];
    u32 npc;
    void* pcs[24];
    u32 ndec;
    Dec dec[MAXDEC];
};

struct RunSpec
{
    Scenario* sc;
    Program prog;
    bool gen; // generate decisions from seed; otherwise take them from decs
    u64 seed;
    std::vector<Dec> decs;
    bool verbose = false;
};

void hostmem_fresh();
void hostmem_fresh();
void execute(const RunSpec&, Result*); // in a forked child; does not return
std::vector<Scenario*>& scenarios();
void init_regions(void* data0, void* data1);

} // namespace sim
