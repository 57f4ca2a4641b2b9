// The simulator runtime.  Built without instrumentation into libsimrt.so; the
// instrumented scenario objects call it through the compiler's hooks
// (__tsan_*), through --wrap'ed libc / libstdc++ / libgcc entry points, and
// through GC_*.
#include "rt.h"

#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <execinfo.h>
#include <new>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

typedef uintptr_t uptr;

namespace sim {

const char* dec_names[D_N] = {"switch", "next", "alloc-fail", "throw", "gc"};

// ------------------------------------------------------------------ regions
static const uptr A0    = 0x100000000000ull; // arena
static const uptr ASZ   = 256ull << 20;
static const uptr STK0  = 0x200000000000ull; // fiber stacks
static const uptr STKSZ = 512 << 10;
static uptr G0, G1; // .data/.bss of the executable
static uptr GN;     // shadow cells of the globals

struct Cell // race state of 4 bytes
{
    u32 w, r, ext, wpc;
    u8 wm, rm;
    u16 pad;
};
struct Ext
{
    u32 r[MAXT], ar[MAXT], aw[MAXT], L[MAXT];
    u8 rm[MAXT];
};
static Cell* cells; // arena cells then global cells
static u8* ash;     // addressability: 0 none, 1..7 first bytes, 8 all
static u32* blk;    // block id of every 16 bytes
static Ext* exts;
static u32 next_ext;
static const u32 MAXEXT = 1 << 20;

enum
{
    K_NEW = 1,
    K_MALLOC,
    K_GC,
    K_GCA,
    K_ROOT,
    K_TLS
};
enum
{
    B_LIVE = 1,
    B_FREED,
    B_COLLECTED
};
struct Block
{
    uptr addr;
    size_t size;
    u8 kind, state, tid, ftid;
    u16 op, fop;
    bool mark;
    u32 pc;
};

struct TlsObj
{
    void* ctl;
    void* p;
};
struct Dtor
{
    void (*fn)(void*);
    void* obj;
};
enum
{
    T_NONE,
    T_RUN,
    T_BLOCKED,
    T_DONE
};
struct Fiber
{
    int tid = 0;
    void* sp = nullptr;
    int state = T_NONE;
    int sut   = 0;
    const void* waits = nullptr;
    u64 stall_until   = 0;
    u32 prio          = 0;
    u32 consec        = 0;
    // position
    u16 op     = 0;
    u16 opkind = 0;
    u32 opp = 0, nxt = 0, cum_alloc = 0, cum_throw = 0, cum_gc = 0;
    // faults
    int fscope = 0;
    u32 fmask  = 0;
    u32 attempt = 0;
    int fired   = 0;
    bool term_ok = false;
    int plan = 0; // 0 none 1 single 2 sweep 3 random
    int plan_kind = 0;
    u32 plan_at = 0, plan_den = 0;
    u32 att_cnt[2] = {0, 0};
    // what it cost so far
    u64 work = 0, allocs = 0, abytes = 0;
    // happens-before
    u32 vc[MAXT]      = {0};
    u32 pending[MAXT] = {0};
    u32 frel[MAXT]    = {0};
    // c++ runtime state
    void* eh[2] = {nullptr, nullptr};
    std::vector<TlsObj> tls;
    std::vector<Dtor> dtors;
    const char* strat = "";
};

enum
{
    S_SEQ,
    S_RW,
    S_PCT,
    S_WIN
};

static struct Globals
{
    bool on      = false; // a simulation is running in this process
    bool threads = false; // threads [1..] are running
    bool race    = false;
    bool race_cfg = false;
    bool gen = false, verbose = false;
    Scenario* sc = nullptr;
    const RunSpec* spec = nullptr;
    Result* res = nullptr;
    Fiber f[MAXT];
    Fiber* cur = nullptr;
    void* host_sp = nullptr;
    int nth = 0;
    u64 hash = 0, shash = 0, steps = 0;
    u64 step_cap = 3000000;
    Rng rng;
    int strat = S_SEQ;
    u32 den = 8, opden = 2, stallmax = 100;
    std::vector<u64> change;
    u32 lowprio = 1000;
    u32 gc_den  = 0;
    u32 fault_den = 0; // 0: none
    bool use_gc = false;
    RunShape shape;
    std::unordered_map<u64, u32> decs;
    // memory
    uptr bump = A0 + 64;
    std::vector<Block> blocks;
    std::unordered_map<u64, std::vector<u32>> bins;
    int alloc_policy = 0;
    u8 fill = 0xcd;
    u64 allocs = 0;
    long live = 0;
    u64 live_bytes = 0;
    std::vector<u32> live_list;
    bool elem_on = true;
    std::unordered_map<uptr, u32> elems;
    std::unordered_map<std::string, u32> probes;
} G;

std::vector<Scenario*>& scenarios()
{
    static std::vector<Scenario*> v;
    return v;
}
void register_scenario(Scenario* s) { scenarios().push_back(s); }

static void* map_at(uptr a, size_t n, bool fixed = true)
{
    void* p = mmap((void*) a, n, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                       (fixed ? MAP_FIXED_NOREPLACE : 0),
                   -1, 0);
    if (p == MAP_FAILED || (fixed && p != (void*) a)) {
        fprintf(stderr, "simrt: mmap failed at %lx\n", (long) a);
        _exit(3);
    }
    return p;
}

void init_regions(void* d0, void* d1)
{
    G0 = (uptr) d0 & ~7ull;
    G1 = ((uptr) d1 + 7) & ~7ull;
    GN = (G1 - G0) / 4;
    map_at(A0, ASZ);
    for (int i = 0; i < MAXT; ++i)
        map_at(STK0 + i * (STKSZ * 2) + STKSZ, STKSZ);
    cells = (Cell*) map_at(0, (ASZ / 4 + GN + 16) * sizeof(Cell), false);
    ash   = (u8*) map_at(0, ASZ / 8 + 64, false);
    blk   = (u32*) map_at(0, (ASZ / 16 + 64) * 4, false);
    exts  = (Ext*) map_at(0, (size_t) MAXEXT * sizeof(Ext), false);
}

static inline bool in_ar(uptr a) { return a - A0 < ASZ; }
static inline bool in_gl(uptr a) { return a - G0 < G1 - G0; }
static inline Cell* cell_of(uptr a)
{
    return in_ar(a) ? &cells[(a - A0) >> 2]
                    : &cells[ASZ / 4 + ((a - G0) >> 2)];
}
static inline void mixh(u64& h, u64 v)
{
    h = (h ^ v) * 0x9fb21c651e98df25ull;
    h ^= h >> 29;
}
static inline u64 rel(uptr a)
{
    return in_ar(a) ? a - A0 + 1 : in_gl(a) ? (a - G0) | (1ull << 40) : 0;
}

// ------------------------------------------------------------------ failing
static void finish_result(int status)
{
    Result* r     = G.res;
    r->hash       = G.hash;
    r->sched_hash = G.shash;
    r->steps      = G.steps;
    r->allocs     = G.allocs;
    u32 n = 0;
    for (auto& p : G.probes) {
        if (n == 64)
            break;
        snprintf(r->probes[n].name, sizeof(r->probes[n].name), "%s",
                 p.first.c_str());
        r->probes[n++].n = p.second;
    }
    r->nprobe = n;
    r->status = status;
}

static void vfail(const char* cls, const char* fmt, va_list ap)
{
    Result* r = G.res;
    snprintf(r->cls, sizeof(r->cls), "%s", cls);
    vsnprintf(r->msg, sizeof(r->msg), fmt, ap);
    Fiber* f = G.cur;
    r->vtid  = f ? f->tid : 0;
    r->vop   = f ? f->op : 0;
    r->vkind = f ? f->opkind : 0;
    if (f)
        f->sut = 0;
    mixh(G.hash, 0xfa11);
    for (const char* p = cls; *p; ++p)
        mixh(G.hash, *p);
    finish_result(2);
    if (G.verbose) {
        fprintf(stderr, "FAIL %s: %s\n", r->cls, r->msg);
        fflush(stderr);
    }
    if (G.verbose || !G.gen)
        r->npc = backtrace(r->pcs, 24);
    _exit(0);
}

void fail(const char* cls, const char* fmt, ...)
{
    G.on = false;
    va_list ap;
    va_start(ap, fmt);
    vfail(cls, fmt, ap);
    _exit(0);
}

void note(u64 v)
{
    mixh(G.hash, v);
    if (G.verbose && getenv("SIM_TRACE"))
        fprintf(stderr, "  note %lx\n", (long) v);
}
void probe(const char* name) { G.probes[name]++; }
void trace(const char* fmt, ...)
{
    if (!G.verbose)
        return;
    va_list ap;
    va_start(ap, fmt);
    fprintf(stderr, "[%7lu t%d op%u] ", (long) G.steps,
            G.cur ? G.cur->tid : -1, G.cur ? G.cur->op : 0);
    vfprintf(stderr, fmt, ap);
    fputc('\n', stderr);
    va_end(ap);
}
u64 now() { return G.steps; }
int self() { return G.cur ? G.cur->tid : 0; }
int sut_set(int on)
{
    if (!G.cur)
        return 0;
    int o      = G.cur->sut;
    G.cur->sut = on;
    return o;
}
bool race_on() { return G.race; }

// ------------------------------------------------------------- decisions
static inline u64 dkey(int kind, int tid, u32 op, u32 k)
{
    return (u64) kind << 56 | (u64) tid << 48 | (u64) op << 32 | k;
}
static bool record(int kind, Fiber* f, u32 k, u32 val)
{
    Result* r = G.res;
    if (r->ndec >= MAXDEC)
        return false;
    r->dec[r->ndec++] = Dec{(u8) kind, (u8) f->tid, f->op, k, val};
    return true;
}
static const u32* lookup(int kind, Fiber* f, u32 k)
{
    if (G.decs.empty())
        return nullptr;
    auto it = G.decs.find(dkey(kind, f->tid, f->op, k));
    return it == G.decs.end() ? nullptr : &it->second;
}

// ---------------------------------------------------------------- fibers
extern "C" void simrt_swap(void** save, void* load);
asm(R"(
.text
.globl simrt_swap
.hidden simrt_swap
.type simrt_swap,@function
simrt_swap:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size simrt_swap,.-simrt_swap
.globl simrt_entry
.hidden simrt_entry
.type simrt_entry,@function
simrt_entry:
  .cfi_startproc
  .cfi_undefined rip
  movq %r12, %rdi
  call simrt_fiber_main
  ud2
  .cfi_endproc
.size simrt_entry,.-simrt_entry
)");
extern "C" void simrt_entry();

extern "C" void* __cxa_get_globals();

static void switch_to(Fiber* t)
{
    Fiber* f = G.cur;
    if (f == t)
        return;
    G.res->switches++;
    mixh(G.shash, 0x5000 + t->tid);
    mixh(G.hash, 0x5000 + t->tid);
    void** eh = (void**) __cxa_get_globals();
    f->eh[0] = eh[0];
    f->eh[1] = eh[1];
    eh[0] = t->eh[0];
    eh[1] = t->eh[1];
    t->consec = 0;
    G.cur     = t;
    simrt_swap(&f->sp, t->sp);
}

static bool runnable(Fiber* f, bool ignore_stall = false)
{
    return f->state == T_RUN && (ignore_stall || f->stall_until <= G.steps);
}

static int candidates(Fiber* me, bool with_me, Fiber** out)
{
    for (int pass = 0; pass < 2; ++pass) {
        int n = 0;
        for (int i = 1; i <= G.nth; ++i) {
            Fiber* t = &G.f[i];
            if ((t != me || with_me) && runnable(t, pass == 1))
                out[n++] = t;
        }
        if (n)
            return n;
    }
    return 0;
}

static void strat_pick_init()
{
    u32 r = G.rng.below(100);
    if (r < 15)
        G.strat = S_SEQ;
    else if (r < 50) {
        static const u32 dens[] = {2, 3, 5, 9, 17, 33, 65};
        G.strat = S_RW;
        G.den   = dens[G.rng.below(7)];
    } else if (r < 75) {
        G.strat = S_PCT;
        u32 est = G.shape.est_steps;
        u32 d   = 1 + G.rng.below(6);
        for (u32 i = 0; i < d; ++i)
            G.change.push_back(1 + G.rng.below(est));
        for (int i = 1; i < MAXT; ++i)
            G.f[i].prio = 1000000 + G.rng.below(1000000);
    } else {
        static const u32 dens[] = {8, 20, 50, 120};
        G.strat    = S_WIN;
        G.den      = dens[G.rng.below(4)];
        G.stallmax = 10 << G.rng.below(7);
    }
    G.opden = 1 + G.rng.below(4);
}

// Decisions are made in different ways when a run is generated and when it is
// replayed.  They run on a stack of their own, so that what their frames leave
// behind never reaches the conservative collector through holes in later
// frames of a thread's stack.
static char side_stack[1 << 16] __attribute__((aligned(64)));
static __attribute__((noinline)) void on_side(void (*fn)(void*), void* arg)
{
    asm volatile("movq %%rsp, %%rbx\n\t"
                 "movq %2, %%rsp\n\t"
                 "callq *%0\n\t"
                 "movq %%rbx, %%rsp"
                 : "+a"(fn), "+D"(arg)
                 : "r"(side_stack + sizeof side_stack - 64)
                 : "rbx", "rcx", "rdx", "rsi", "r8", "r9", "r10", "r11",
                   "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6",
                   "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13",
                   "xmm14", "xmm15", "memory", "cc");
}
template <typename F>
static inline void aside(F fn)
{
    on_side([](void* p) { (*(F*) p)(); }, &fn);
}

static Fiber* choose_next(Fiber* f, u32 k, Fiber** c, int n, Fiber* def)
{
    Fiber* to = def;
    if (G.gen) {
        if (G.strat == S_PCT) {
            for (int i = 0; i < n; ++i)
                if (c[i]->prio > to->prio)
                    to = c[i];
        } else
            to = c[G.rng.below(n)];
        if (to != def && !record(D_NX, f, k, to->tid))
            to = def;
    } else if (auto v = lookup(D_NX, f, k)) {
        for (int i = 0; i < n; ++i)
            if (c[i]->tid == (int) (*v & 0xff))
                to = c[i];
    }
    return to;
}

// the running thread cannot or will not continue: who goes on?
static void forced_switch(bool with_me)
{
    Fiber* f = G.cur;
    Fiber* c[MAXT];
    int n = candidates(f, with_me, c);
    if (!n) {
        if (f->state == T_RUN)
            return;
        int live = 0;
        for (int i = 1; i <= G.nth; ++i)
            live += G.f[i].state != T_DONE;
        if (!live) {
            switch_to(&G.f[0]);
            return;
        }
        fail("deadlock", "every live thread is blocked");
    }
    Fiber* def = nullptr;
    for (int d = 1; d <= G.nth && !def; ++d) {
        int t = (f->tid - 1 + d) % G.nth + 1;
        for (int i = 0; i < n; ++i)
            if (c[i]->tid == t)
                def = c[i];
    }
    if (!def)
        def = c[0];
    Fiber* to = def;
    u32 k     = f->nxt++;
    if (n > 1)
        aside([&] { to = choose_next(f, k, c, n, def); });
    to->stall_until = 0;
    if (to != f)
        switch_to(to);
}

static u32 choose_preemption(Fiber* f, u32 k, int ev)
{
    u32 val = 0;
    bool sw = false;
    if (G.gen) {
        switch (ev == 1 && G.strat != S_PCT ? S_SEQ : G.strat) {
        case S_SEQ:
            if (ev == 1 && G.rng.below(G.opden + 1) == 0)
                sw = true;
            break;
        case S_RW:
            sw = G.rng.below(G.den) == 0;
            break;
        case S_WIN:
            if (G.rng.below(G.den) == 0) {
                sw  = true;
                val = (1 + G.rng.below(G.stallmax)) << 8;
            }
            break;
        case S_PCT:
            for (u64 c : G.change)
                if (c == G.steps) {
                    f->prio = G.lowprio--;
                    sw      = true;
                }
            break;
        }
        if (!sw)
            return 0;
        Fiber* c[MAXT];
        int n = candidates(f, false, c);
        if (!n)
            return 0;
        Fiber* to = c[0];
        if (G.strat == S_PCT) {
            for (int i = 0; i < n; ++i)
                if (c[i]->prio > to->prio)
                    to = c[i];
            if (to->prio < f->prio)
                return 0;
        } else
            to = c[G.rng.below(n)];
        val |= to->tid;
        if (!record(D_SW, f, k, val))
            return 0;
    } else {
        auto v = lookup(D_SW, f, k);
        if (!v)
            return 0;
        val = *v;
    }
    return val;
}

static void sched_point(int ev, uptr addr)
{
    Fiber* f = G.cur;
    G.steps++;
    u32 k = f->opp++;
    mixh(G.hash, (u64) f->tid << 8 | ev);
    mixh(G.hash, rel(addr));
    if (!G.threads)  {
        if (G.steps > G.step_cap)
            fail("no-progress", "more than %lu steps", (long) G.step_cap);
        return;
    }
    mixh(G.shash, (u64) f->tid << 8 | ev);
    if (G.steps > G.step_cap)
        fail("no-progress", "no end in sight after %lu steps",
             (long) G.steps);
    if (G.nth == 1)
        return;
    if (++f->consec > 4000) {
        forced_switch(false);
        return;
    }
    u32 val = 0;
    aside([&] { val = choose_preemption(f, k, ev); });
    int tid = val & 0xff;
    if (tid < 1 || tid > G.nth || tid == f->tid)
        return;
    Fiber* to = &G.f[tid];
    if (to->state != T_RUN)
        return;
    G.res->preempts++;
    if (val >> 8) {
        f->stall_until = G.steps + (val >> 8);
        G.res->stalls++;
    }
    to->stall_until = 0;
    switch_to(to);
}

void preempt()
{
    if (G.on && G.cur && G.cur->sut)
        sched_point(2, 0);
}

static void do_yield()
{
    Fiber* f = G.cur;
    G.steps++;
    mixh(G.hash, 0x77);
    if (G.steps > G.step_cap)
        fail("no-progress", "spinning after %lu steps", (long) G.steps);
    if (!G.threads)
        return;
    if (G.gen && G.strat == S_PCT)
        f->prio = G.lowprio--;
    forced_switch(false);
}

// ------------------------------------------------------- happens-before
static inline void vjoin(u32* a, const u32* b)
{
    for (int i = 0; i < MAXT; ++i)
        if (b[i] > a[i])
            a[i] = b[i];
}
static inline u32 ep(int tid, u32 c) { return (u32) tid << 28 | c; }
static inline bool hb(u32 e, Fiber* f)
{
    return !e || (e & 0xfffffff) <= f->vc[e >> 28];
}

static const char* where(uptr a, char* buf, size_t n)
{
    if (in_ar(a)) {
        u32 b = blk[(a - A0) >> 4];
        if (b) {
            Block& B = G.blocks[b];
            static const char* ks[] = {"",   "new",  "malloc", "gc",
                                       "gc-norefs", "root", "tls"};
            static const char* ss[] = {"", "live", "freed", "collected"};
            snprintf(buf, n,
                     "%ld bytes into a %s %s block of %zu bytes (allocated by "
                     "t%d in op %u at pc 0x%x, released by t%d in op %u)",
                     (long) (a - B.addr), ss[B.state], ks[B.kind], B.size,
                     B.tid, B.op, B.pc, B.ftid, B.fop);
            return buf;
        }
        snprintf(buf, n, "unallocated arena memory");
        return buf;
    }
    if (in_gl(a))
        snprintf(buf, n, "a global at 0x%lx", (long) a);
    else
        snprintf(buf, n, "0x%lx", (long) a);
    return buf;
}

static void bad_access(uptr a, size_t n, bool w, void* pc)
{
    char buf[300];
    u32 b           = blk[(a - A0) >> 4];
    const char* cls = "wild-access";
    if (b) {
        Block& B = G.blocks[b];
        cls      = B.state == B_FREED       ? "use-after-free"
                   : B.state == B_COLLECTED ? "gc-premature-reclaim"
                                            : "out-of-bounds";
    }
    fail(cls, "%s of %zu bytes, %s, at pc %p", w ? "write" : "read", n,
         where(a, buf, sizeof buf), pc);
}

static void race(uptr a, const char* what, const char* other, int otid,
                 u32 opc, void* pc)
{
    char buf[300];
    fail("data-race", "%s at pc %p races with %s by t%d (pc 0x%x): %s", what,
         pc, other, otid, opc, where(a, buf, sizeof buf));
}

static inline Ext* ext_of(Cell* c)
{
    if (!c->ext) {
        if (next_ext + 1 >= MAXEXT) {
            static Ext dummy;
            memset(&dummy, 0, sizeof dummy);
            return &dummy;
        }
        c->ext = ++next_ext;
    }
    return &exts[c->ext];
}

enum
{
    A_R = 0,
    A_W = 1,
    A_AR = 2,
    A_AW = 3
};

static void race_gran(uptr g, u8 mask, int kind, void* pc)
{
    Fiber* f = G.cur;
    Cell* c  = cell_of(g);
    if (c->w && (c->wm & mask) && !hb(c->w, f))
        race(g,
             kind == A_R    ? "read"
             : kind == A_W  ? "write"
             : kind == A_AR ? "atomic read"
                            : "atomic write",
             "write", c->w >> 28, c->wpc, pc);
    Ext* x = c->ext ? &exts[c->ext] : nullptr;
    if (kind == A_R || kind == A_W) {
        if (x)
            for (int i = 0; i < MAXT; ++i)
                if (x->aw[i] > f->vc[i])
                    race(g, kind == A_R ? "read" : "write", "atomic write", i,
                         0, pc);
    }
    if (kind == A_W || kind == A_AW) {
        if (c->r && (c->rm & mask) && !hb(c->r, f))
            race(g, kind == A_W ? "write" : "atomic write", "read",
                 c->r >> 28, 0, pc);
        if (x) {
            for (int i = 0; i < MAXT; ++i)
                if (x->r[i] > f->vc[i] && (x->rm[i] & mask))
                    race(g, kind == A_W ? "write" : "atomic write", "read", i,
                         0, pc);
            if (kind == A_W)
                for (int i = 0; i < MAXT; ++i)
                    if (x->ar[i] > f->vc[i])
                        race(g, "write", "atomic read", i, 0, pc);
        }
    }
    u32 e = ep(f->tid, f->vc[f->tid]);
    switch (kind) {
    case A_R:
        if (c->r == e)
            c->rm |= mask;
        else if (!c->r || (int) (c->r >> 28) == f->tid || hb(c->r, f)) {
            c->r  = e;
            c->rm = mask;
        } else {
            x = ext_of(c);
            if (x->r[f->tid] == f->vc[f->tid])
                x->rm[f->tid] |= mask;
            else {
                x->r[f->tid]  = f->vc[f->tid];
                x->rm[f->tid] = mask;
            }
        }
        break;
    case A_W:
        if (c->w == e)
            c->wm |= mask;
        else {
            c->w  = e;
            c->wm = mask;
        }
        c->wpc = (u32) (uptr) pc;
        break;
    case A_AR:
        ext_of(c)->ar[f->tid] = f->vc[f->tid];
        break;
    case A_AW:
        ext_of(c)->aw[f->tid] = f->vc[f->tid];
        break;
    }
}

static inline void check_addr(uptr a, size_t n, bool w, void* pc)
{
    uptr o = a - A0;
    if (o >= ASZ || !n)
        return;
    uptr e = o + n; // exclusive
    uptr g = o >> 3, ge = (e - 1) >> 3;
    for (; g < ge; ++g)
        if (__builtin_expect(ash[g] != 8, 0))
            bad_access(a > A0 + g * 8 ? a : A0 + g * 8, n, w, pc);
    u8 lastbyte = (e - 1) & 7;
    if (__builtin_expect(ash[ge] <= lastbyte, 0))
        bad_access(a > A0 + ge * 8 ? a : A0 + ge * 8, n, w, pc);
}

static inline void race_range(uptr a, size_t n, int kind, void* pc)
{
    if (!in_ar(a) && !in_gl(a))
        return;
    uptr e = a + n;
    while (a < e) {
        uptr g   = a & ~3ull;
        uptr lim = g + 4 < e ? g + 4 : e;
        u8 m     = (u8) (((1u << (lim - g)) - 1) & ~((1u << (a - g)) - 1));
        race_gran(g, m, kind, pc);
        a = g + 4;
    }
}

static inline void access(uptr a, size_t n, bool w, void* pc)
{
    Fiber* f = G.cur;
    if (!f || !f->sut)
        return;
    f->work += 1 + (n >> 4);
    check_addr(a, n, w, pc);
    if (G.race)
        race_range(a, n, w ? A_W : A_R, pc);
}

// ------------------------------------------------------------- atomics
static void at_load(uptr a, size_t n, int mo, void* pc)
{
    Fiber* f = G.cur;
    if (!G.race || (!in_ar(a) && !in_gl(a)))
        return;
    race_range(a, n, A_AR, pc);
    Cell* c = cell_of(a & ~3ull);
    if (!c->ext)
        return;
    Ext* x = &exts[c->ext];
    vjoin(mo == __ATOMIC_RELAXED ? f->pending : f->vc, x->L);
}
static void bump_clk(Fiber* f) { f->vc[f->tid]++; }
static void at_store(uptr a, size_t n, int mo, void* pc)
{
    Fiber* f = G.cur;
    if (!G.race || (!in_ar(a) && !in_gl(a)))
        return;
    race_range(a, n, A_AW, pc);
    Ext* x = ext_of(cell_of(a & ~3ull));
    if (mo == __ATOMIC_RELAXED)
        memcpy(x->L, f->frel, sizeof x->L);
    else {
        memcpy(x->L, f->vc, sizeof x->L);
        bump_clk(f);
    }
}
static void at_rmw(uptr a, size_t n, int mo, void* pc)
{
    Fiber* f = G.cur;
    if (!G.race || (!in_ar(a) && !in_gl(a)))
        return;
    race_range(a, n, A_AW, pc);
    Ext* x   = ext_of(cell_of(a & ~3ull));
    bool acq = mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME ||
               mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
    bool rls = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL ||
               mo == __ATOMIC_SEQ_CST;
    vjoin(acq ? f->vc : f->pending, x->L);
    vjoin(x->L, rls ? f->vc : f->frel);
    if (rls)
        bump_clk(f);
}
static void at_fence(int mo)
{
    Fiber* f = G.cur;
    if (!G.race)
        return;
    if (mo != __ATOMIC_RELEASE && mo != __ATOMIC_RELAXED)
        vjoin(f->vc, f->pending);
    if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL ||
        mo == __ATOMIC_SEQ_CST) {
        memcpy(f->frel, f->vc, sizeof f->vc);
        bump_clk(f);
    }
}

// --------------------------------------------------------------- memory
static void set_shadow(uptr a, size_t n, bool on)
{
    uptr g = (a - A0) >> 3;
    for (size_t i = 0; i < n; i += 8, ++g)
        ash[g] = on ? (n - i >= 8 ? 8 : (u8) (n - i)) : 0;
}

static bool choose_fault(Fiber* f, int kind, u32 cum, u32 n)
{
    bool fire = false;
    if (G.gen) {
        if (f->plan == 3)
            fire = G.rng.below(f->plan_den) == 0;
        else if (f->plan)
            fire = f->plan_kind == kind && n == f->plan_at;
        if (fire && !record(kind ? D_TH : D_AF, f, cum, 1))
            fire = false;
    } else
        fire = lookup(kind ? D_TH : D_AF, f, cum) != nullptr;
    return fire;
}
static bool fault_fires(int kind, u32 cum);

static void* arena_alloc(size_t n, int kind, void* pc, size_t align = 16)
{
    Fiber* f = G.cur;
    u32 b    = 0;
    if (kind != K_ROOT && kind != K_TLS) {
        G.allocs++;
        if (f)
            f->allocs++, f->abytes += n;
        mixh(G.hash, 0xa110c000ull + n);
    }
    size_t asz = (n + 15) & ~15ull;
    if (!asz)
        asz = 16;
    if (G.alloc_policy == 1 && align <= 16) {
        auto it = G.bins.find(asz);
        if (it != G.bins.end() && !it->second.empty()) {
            b = it->second.back();
            it->second.pop_back();
        }
    }
    uptr a;
    if (b) {
        a = G.blocks[b].addr;
    } else {
        a = (G.bump + align - 1) & ~(align - 1);
        if (a + asz + 64 > A0 + ASZ) {
            fprintf(stderr, "simrt: arena exhausted\n");
            finish_result(3);
            _exit(0);
        }
        G.bump = a + asz + 16 + (n > 4096 ? 256 : 0);
        b      = G.blocks.size();
        G.blocks.push_back(Block{});
    }
    Block& B = G.blocks[b];
    B        = Block{a,    n,     (u8) kind, B_LIVE, (u8) (f ? f->tid : 0),
              0,    (u16) (f ? f->op : 0), 0, false, (u32) (uptr) pc};
    for (uptr p = a; p <= a + n; p += 16)
        blk[(p - A0) >> 4] = b;
    blk[(a + n - A0) >> 4] = b;
    set_shadow(a, n, true);
    memset((void*) a, kind == K_GC || kind == K_GCA || kind >= K_ROOT ? 0 : G.fill, n);
    if (G.race_cfg)
        memset(cell_of(a), 0, (asz / 4) * sizeof(Cell));
    if (kind < K_ROOT) {
        G.live++;
        G.live_bytes += n;
    }
    return (void*) a;
}

static void arena_free(void* p, int kind, void* pc)
{
    uptr a = (uptr) p;
    char buf[300];
    u32 b = blk[(a - A0) >> 4];
    if (!b || G.blocks[b].addr != a)
        fail("bad-free", "release of %s, which is not the start of a block, pc %p",
             where(a, buf, sizeof buf), pc);
    Block& B = G.blocks[b];
    if (B.state != B_LIVE)
        fail(B.state == B_COLLECTED ? "gc-premature-reclaim" : "double-free",
             "release of %s at pc %p", where(a, buf, sizeof buf), pc);
    bool same = B.kind == kind || (kind == K_GC && B.kind == K_GCA);
    if (!same)
        fail("bad-free",
             "a block is released through another allocator than it came "
             "from: %s, pc %p",
             where(a, buf, sizeof buf), pc);
    Fiber* f = G.cur;
    if (f && f->sut && G.race)
        race_range(a, B.size, A_W, pc);
    B.state = B_FREED;
    B.ftid  = f ? f->tid : 0;
    B.fop   = f ? f->op : 0;
    mixh(G.hash, 0xf4ee0000ull + b);
    set_shadow(a, B.size, false);
    memset(p, 0xdd, B.size);
    if (B.kind < K_ROOT) {
        G.live--;
        G.live_bytes -= B.size;
    }
    if (G.alloc_policy == 1) {
        size_t asz = (B.size + 15) & ~15ull;
        G.bins[asz ? asz : 16].push_back(b);
    }
}

void* root_alloc(size_t n) { return arena_alloc(n, K_ROOT, nullptr); }
void root_free(void* p)
{
    int o = sut_set(0);
    arena_free(p, K_ROOT, nullptr);
    sut_set(o);
}
bool in_arena(const void* p) { return in_ar((uptr) p); }
bool addressable(const void* p, size_t n)
{
    uptr a = (uptr) p;
    for (size_t i = 0; i < n; ++i) {
        uptr o = a + i - A0;
        if (o >= ASZ || ash[o >> 3] <= (o & 7))
            return false;
    }
    return true;
}
u64 live_blocks() { return G.live; }
u64 live_bytes() { return G.live_bytes; }
u64 total_allocs() { return G.allocs; }
u64 my_allocs() { return G.cur->allocs; }
u64 my_bytes() { return G.cur->abytes; }
u64 my_work() { return G.cur->work; }
void check_block(const void* p, size_t n, const char* what)
{
    uptr a = (uptr) p;
    char buf[300];
    if (!in_ar(a))
        fail("bad-block", "%s: %p is not memory obtained from the base heap",
             what, p);
    u32 b = blk[(a - A0) >> 4];
    if (!b || G.blocks[b].state != B_LIVE)
        fail("bad-block", "%s: %s", what, where(a, buf, sizeof buf));
    Block& B = G.blocks[b];
    if (a < B.addr || a + n > B.addr + B.size)
        fail("bad-block", "%s: %zu bytes do not fit: %s", what, n,
             where(a, buf, sizeof buf));
}

// conservative marking
static std::vector<u32> mark_work;
static inline void mark_word(uptr w)
{
    if (!in_ar(w))
        return;
    u32 b = blk[(w - A0) >> 4];
    if (!b)
        return;
    Block& B = G.blocks[b];
    if (B.mark || B.state != B_LIVE || w < B.addr || w > B.addr + B.size)
        return;
    B.mark = true;
    mark_work.push_back(b);
}
static void mark_range(uptr a, uptr e)
{
    a = (a + 7) & ~7ull;
    for (; a + 8 <= e; a += 8)
        mark_word(*(volatile uptr*) a);
}
static void mark_drain(bool leakmode)
{
    while (!mark_work.empty()) {
        u32 b = mark_work.back();
        mark_work.pop_back();
        Block& B = G.blocks[b];
        bool scan = B.kind == K_GC || B.kind == K_ROOT || B.kind == K_TLS ||
                    (leakmode && (B.kind == K_NEW || B.kind == K_MALLOC));
        if (scan)
            mark_range(B.addr, B.addr + B.size);
    }
}
static void mark_roots(bool leakmode)
{
    for (auto& B : G.blocks)
        B.mark = false;
    mark_work.clear();
    for (size_t b = 1; b < G.blocks.size(); ++b) {
        Block& B = G.blocks[b];
        if ((B.kind == K_ROOT || B.kind == K_TLS) && B.state == B_LIVE &&
            !B.mark) {
            B.mark = true;
            mark_work.push_back(b);
        }
    }
    mark_range(G0, G1);
    mark_drain(leakmode);
}

static __attribute__((noinline)) void do_collect()
{
    jmp_buf jb;
    __builtin_unwind_init();
    setjmp(jb);
    G.res->gcs++;
    mixh(G.hash, 0x6c6c);
    mark_roots(false);
    for (int i = 0; i <= G.nth; ++i) {
        Fiber* f = &G.f[i];
        if (f->state == T_NONE || f->state == T_DONE)
            continue;
        uptr top = STK0 + i * (STKSZ * 2) + STKSZ * 2;
        uptr sp  = f == G.cur ? (uptr) &jb & ~7ull : (uptr) f->sp; // jb: below the saved registers
        mark_range(sp, top);
    }
    mark_drain(false);
    u32 n = 0;
    for (size_t b = 1; b < G.blocks.size(); ++b) {
        Block& B = G.blocks[b];
        if ((B.kind == K_GC || B.kind == K_GCA) && B.state == B_LIVE &&
            !B.mark) {
            B.state = B_COLLECTED;
            B.ftid  = G.cur->tid;
            B.fop   = G.cur->op;
            set_shadow(B.addr, B.size, false);
            memset((void*) B.addr, 0xdd, B.size);
            G.live--;
            G.live_bytes -= B.size;
            if (G.alloc_policy == 1) {
                size_t asz = (B.size + 15) & ~15ull;
                G.bins[asz ? asz : 16].push_back(b);
            }
            ++n;
        }
    }
    if (n)
        probe("gc-reclaimed-something");
    trace("gc reclaimed %u blocks", n);
}
void gc_collect()
{
    if (G.use_gc)
        do_collect();
}

void check_leaks()
{
    char buf[300];
    mark_roots(true);
    u32 n = 0;
    uptr first = 0;
    for (size_t b = 1; b < G.blocks.size(); ++b) {
        Block& B = G.blocks[b];
        if ((B.kind == K_NEW || B.kind == K_MALLOC) && B.state == B_LIVE &&
            !B.mark) {
            if (!first)
                first = B.addr;
            ++n;
        }
    }
    if (n)
        fail("leak", "%u blocks are lost; the first: %s", n,
             where(first, buf, sizeof buf));
}

// --------------------------------------------------------------- elements
// objects with static storage duration outlive the run
static bool is_static(const void* p) { return (uptr) p - G0 < G1 - G0; }
void set_elem_registry(bool on) { G.elem_on = on; }
void elem_born(const void* p)
{
    if (!G.elem_on || is_static(p))
        return;
    auto r = G.elems.emplace((uptr) p, 1);
    if (!r.second) {
        char buf[300];
        fail("elem-overwritten",
             "an object is constructed on top of a live one: %s",
             where((uptr) p, buf, sizeof buf));
    }
}
void elem_dead(const void* p)
{
    if (!G.elem_on || is_static(p))
        return;
    if (!G.elems.erase((uptr) p)) {
        char buf[300];
        fail("elem-double-destroy", "an object that is not alive is destroyed: %s",
             where((uptr) p, buf, sizeof buf));
    }
}
void elem_use(const void* p)
{
    if (!G.elem_on || is_static(p))
        return;
    if (!G.elems.count((uptr) p)) {
        char buf[300];
        fail("elem-use-dead", "an object that is not alive is used: %s",
             where((uptr) p, buf, sizeof buf));
    }
}
long elem_live() { return G.elems.size(); }

// ----------------------------------------------------------------- faults
static void plan_faults(Fiber* f, u32 a)
{
    if (!G.gen || !G.fault_den || !f->fmask)
        return;
    if (a == 0) {
        f->plan = 0;
        if (G.rng.below(G.fault_den) == 0) {
            u32 r   = G.rng.below(10);
            f->plan = r < 5 ? 1 : r < 9 ? 2 : 3;
            int ks[2], n = 0;
            if (f->fmask & FM_ALLOC)
                ks[n++] = 0;
            if (f->fmask & FM_THROW)
                ks[n++] = 1;
            f->plan_kind = ks[G.rng.below(n)];
            f->plan_at   = 1;
            if (f->plan == 1) {
                u32 m      = 1 << G.rng.below(6);
                f->plan_at = 1 + G.rng.below(m);
            }
            f->plan_den = 2 + G.rng.below(20);
        }
    } else {
        if (f->plan == 1)
            f->plan = 0;
        if (f->plan == 2)
            f->plan_at = a + 1;
        if (f->plan == 3 && a > 4)
            f->plan = 0;
        if (a > 64)
            f->plan = 0;
    }
}
void fault_begin(u32 mask)
{
    Fiber* f = G.cur;
    f->fscope = 1;
    f->fmask  = mask & G.shape.fault_mask;
    f->fired  = 0;
    f->att_cnt[0] = f->att_cnt[1] = 0;
    u32 a = f->attempt++;
    aside([&] { plan_faults(f, a); });
}
int fault_end()
{
    G.cur->fscope = 0;
    return G.cur->fired;
}
int fault_suspend()
{
    int o         = G.cur->fscope;
    G.cur->fscope = 0;
    return o;
}
void fault_resume(int o) { G.cur->fscope = o; }

static bool fault_fires(int kind, u32 cum)
{
    Fiber* f  = G.cur;
    u32 mask  = kind ? FM_THROW : FM_ALLOC;
    if (!f->fscope || !(f->fmask & mask))
        return false;
    bool fire = false;
    u32 n     = ++f->att_cnt[kind];
    aside([&] { fire = choose_fault(f, kind, cum, n); });
    if (fire) {
        f->fired++;
        mixh(G.hash, 0xfau + kind);
        if (kind)
            G.res->fired_throw++;
        else
            G.res->fired_alloc++;
        trace("%s fires", kind ? "throw" : "allocation failure");
    }
    return fire;
}
bool throw_here()
{
    Fiber* f = G.cur;
    if (!G.on || !f || !f->fscope)
        return false;
    u32 c = f->cum_throw++;
    return fault_fires(1, c);
}
static bool alloc_fails()
{
    Fiber* f = G.cur;
    if (!f->fscope)
        return false;
    u32 c = f->cum_alloc++;
    return fault_fires(0, c);
}

// ---------------------------------------------------------------- threads
Mutex::Mutex() { memset(vc, 0, sizeof vc); }
void Mutex::lock()
{
    Fiber* f = G.cur;
    int o    = f->sut;
    f->sut   = 0;
    sched_point(3, 0);
    while (owner) {
        f->state = T_BLOCKED;
        f->waits = this;
        forced_switch(false);
    }
    owner = f->tid + 1;
    vjoin(f->vc, vc);
    f->sut = o;
}
void Mutex::unlock()
{
    Fiber* f = G.cur;
    memcpy(vc, f->vc, sizeof vc);
    bump_clk(f);
    owner = 0;
    for (int i = 0; i <= G.nth; ++i)
        if (G.f[i].state == T_BLOCKED && G.f[i].waits == this) {
            G.f[i].state = T_RUN;
            G.f[i].waits = nullptr;
        }
}

static void run_tls_dtors(Fiber* f)
{
    f->sut = 1;
    while (!f->dtors.empty()) {
        Dtor d = f->dtors.back();
        f->dtors.pop_back();
        d.fn(d.obj);
    }
    f->sut = 0;
}

static void begin_op(Fiber* f, u16 id, u16 kind)
{
    f->op     = id;
    f->opkind = kind;
    f->opp = f->nxt = f->cum_alloc = f->cum_throw = f->cum_gc = 0;
    f->attempt = 0;
    f->plan    = 0;
    f->fscope  = 0;
}

static void run_ops(Fiber* f)
{
    const Program& p = G.spec->prog;
    for (auto& op : p.th[f->tid]) {
        begin_op(f, op.id, op.kind);
        sched_point(1, 0);
        G.res->ops++;
        if (G.verbose)
            trace("%s(%u,%u,%u,%u)", G.sc->op_name(op.kind), op.a[0], op.a[1],
                  op.a[2], op.a[3]);
        G.sc->run_op(f->tid, op);
    }
}

static void free_tls(Fiber* f)
{
    for (auto& t : f->tls) {
        uptr hdr = ((uptr*) t.p)[-1];
        arena_free((void*) hdr, K_TLS, nullptr);
    }
    f->tls.clear();
}

static void thread_body(Fiber* f)
{
    begin_op(f, 0xfff0, 0xffff);
    G.sc->thread_begin(f->tid);
    run_ops(f);
    begin_op(f, 0xfff1, 0xffff);
    G.sc->thread_end(f->tid);
    begin_op(f, 0xfff2, 0xffff);
    run_tls_dtors(f);
    free_tls(f);
    f->state = T_DONE;
}

static void init_fiber(Fiber* f, int tid);

static void main_body(Fiber* f)
{
    begin_op(f, 0xfff3, 0xffff);
    G.sc->setup(G.spec->prog);
    run_ops(f);
    if (G.nth > 0) {
        for (int i = 1; i <= G.nth; ++i) {
            init_fiber(&G.f[i], i);
            memcpy(G.f[i].vc, f->vc, sizeof f->vc);
            G.f[i].vc[i] = 1;
        }
        bump_clk(f);
        G.threads = true;
        G.race    = G.race_cfg && G.nth > 1;
        f->state  = T_BLOCKED;
        f->waits  = nullptr;
        begin_op(f, 0xfff4, 0xffff);
        forced_switch(false);
        f->state  = T_RUN;
        G.threads = false;
        G.race    = false;
        for (int i = 1; i <= G.nth; ++i)
            vjoin(f->vc, G.f[i].vc);
    }
    begin_op(f, 0xfff5, 0xffff);
    G.sc->finish();
    begin_op(f, 0xfff6, 0xffff);
    run_tls_dtors(f);
    free_tls(f);
    if (G.elem_on && elem_live()) {
        char buf[300];
        uptr a = ~0ull;
        for (auto& e : G.elems)
            if (e.first < a)
                a = e.first;
        fail("elem-leak",
             "%ld objects were never destroyed; the first: %s", elem_live(),
             where(a, buf, sizeof buf));
    }
    check_leaks();
    finish_result(1);
    _exit(0);
}

extern "C" __attribute__((visibility("hidden"))) void simrt_fiber_main(Fiber* f)
{
    try {
        if (f->tid == 0)
            main_body(f);
        else
            thread_body(f);
    } catch (Injected&) {
        fail("escaped-exception", "an injected exception escaped");
    } catch (std::bad_alloc&) {
        fail("escaped-exception", "bad_alloc escaped");
    } catch (std::exception& e) {
        fail("escaped-exception", "unexpected exception: %s", e.what());
    } catch (...) {
        fail("escaped-exception", "unexpected exception");
    }
    forced_switch(false);
    _exit(3);
}

static void init_fiber(Fiber* f, int tid)
{
    f->tid   = tid;
    f->state = T_RUN;
    uptr top = STK0 + tid * (STKSZ * 2) + STKSZ * 2;
    uptr* sp = (uptr*) top;
    *--sp    = 0;
    *--sp    = 0;
    *--sp    = (uptr) &simrt_entry; // ret
    *--sp    = 0;                   // rbp
    *--sp    = 0;                   // rbx
    *--sp    = (uptr) f;            // r12
    *--sp    = 0;
    *--sp    = 0;
    *--sp    = 0; // r15
    f->sp    = sp;
}

static void on_signal(int sig, siginfo_t* si, void*)
{
    if (!G.res || G.res->status)
        _exit(3);
    uptr a = (uptr) si->si_addr;
    const char* what = sig == SIGSEGV ? "SIGSEGV"
                       : sig == SIGBUS ? "SIGBUS"
                       : sig == SIGILL ? "SIGILL"
                       : sig == SIGFPE ? "SIGFPE"
                       : sig == SIGALRM || sig == SIGVTALRM || sig == SIGPROF ? "timeout" : "SIGABRT";
    if (what[0] == 't')
        fail("hang", "the run used up its processor time without reaching a scheduling point");
    if (a >= STK0 && a < STK0 + MAXT * STKSZ * 2)
        fail("crash", "%s: stack overflow", what);
    if ((a & 0xffffffff) == 0xdddddddd || (a & 0xffff00000000) == 0xdddd00000000)
        fail("crash", "%s through a pointer read from released memory", what);
    fail("crash", "%s", what);
}
// some operations document that a failure ends the process
static void on_terminate()
{
    Fiber* f = G.cur;
    if (f && f->term_ok && f->fired) {
        probe("failure-ends-the-process");
        finish_result(1);
        _exit(0);
    }
    fail("terminate", "std::terminate was called");
}
void may_terminate(bool on) { G.cur->term_ok = on; }

void execute(const RunSpec& spec, Result* res)
{
    static char alt[65536];
    stack_t ss{};
    ss.ss_sp   = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa
    {};
    sa.sa_sigaction = on_signal;
    sa.sa_flags     = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGVTALRM})
        sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);

    const Program& p = spec.prog;
    memset(res, 0, offsetof(Result, dec));
    G.res     = res;
    G.spec    = &spec;
    G.sc      = spec.sc;
    G.gen     = spec.gen;
    G.verbose = spec.verbose;
    G.nth     = p.nth;
    G.shape   = spec.sc->shape();
    G.use_gc  = G.shape.use_gc;
    G.alloc_policy = p.cfg[CFG_ALLOC];
    G.fill         = p.cfg[CFG_FILL] ? p.cfg[CFG_FILL] : 0xcd;
    G.race_cfg     = p.cfg[CFG_RACE] && p.nth > 1;
    G.rng          = Rng(spec.seed ^ 0x51ed2701);
    if (spec.gen) {
        strat_pick_init();
        if (G.rng.below(100) < G.shape.fault_pct) {
            static const u32 d[] = {1, 2, 4, 10};
            G.fault_den = d[G.rng.below(4)];
        }
        if (G.use_gc) {
            static const u32 d[] = {0, 1, 3, 10, 30, 100};
            G.gc_den = d[G.rng.below(6)];
        }
    } else
        for (auto& d : spec.decs)
            G.decs[dkey(d.kind, d.tid, d.op, d.k)] = d.val;
    hostmem_fresh(); // from here on nothing depends on how decisions are made
    G.blocks.reserve(4096);
    G.blocks.push_back(Block{});
    G.elems.reserve(1024);
    init_fiber(&G.f[0], 0);
    for (int i = 1; i < MAXT; ++i)
        G.f[i].tid = i;
    G.f[0].vc[0] = 1;
    G.on  = true;
    G.cur = &G.f[0];
    simrt_swap(&G.host_sp, G.f[0].sp);
    _exit(3);
}

static inline Fiber* insut()
{
    Fiber* f = G.cur;
    return G.on && f && f->sut ? f : nullptr;
}

} // namespace sim

using namespace sim;
#define PC __builtin_return_address(0)
#define X extern "C" SIM_API

// ------------------------------------------------------------ tsan hooks
X void __tsan_init() {}
#define RW(n)                                                                  \
    X void __tsan_read##n(void* a) { access((uptr) a, n, false, PC); }         \
    X void __tsan_write##n(void* a) { access((uptr) a, n, true, PC); }         \
    X void __tsan_read_write##n(void* a) { access((uptr) a, n, true, PC); }    \
    X void __tsan_unaligned_read##n(void* a)                                   \
    {                                                                          \
        access((uptr) a, n, false, PC);                                        \
    }                                                                          \
    X void __tsan_unaligned_write##n(void* a)                                  \
    {                                                                          \
        access((uptr) a, n, true, PC);                                         \
    }                                                                          \
    X void __tsan_unaligned_read_write##n(void* a)                             \
    {                                                                          \
        access((uptr) a, n, true, PC);                                         \
    }                                                                          \
    X void __tsan_volatile_read##n(void* a) { access((uptr) a, n, false, PC); } \
    X void __tsan_volatile_write##n(void* a) { access((uptr) a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
X void __tsan_vptr_update(void** a, void*) { access((uptr) a, 8, true, PC); }
X void __tsan_vptr_read(void** a) { access((uptr) a, 8, false, PC); }
X void __tsan_read_range(void* a, size_t n) { access((uptr) a, n, false, PC); }
X void __tsan_write_range(void* a, size_t n) { access((uptr) a, n, true, PC); }
X void __tsan_func_entry(void*) {}
X void __tsan_func_exit() {}
X void __tsan_ignore_thread_begin() {}
X void __tsan_ignore_thread_end() {}
X void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    if (n) {
        access((uptr) s, n, false, PC);
        access((uptr) d, n, true, PC);
    }
    return memcpy(d, s, n);
}
X void* __tsan_memmove(void* d, const void* s, size_t n)
{
    if (n) {
        access((uptr) s, n, false, PC);
        access((uptr) d, n, true, PC);
    }
    return memmove(d, s, n);
}
X void* __tsan_memset(void* d, int c, size_t n)
{
    if (n)
        access((uptr) d, n, true, PC);
    return memset(d, c, n);
}

#define ATOMIC(bits, T)                                                        \
    X T __tsan_atomic##bits##_load(const volatile T* a, int mo)                \
    {                                                                          \
        if (insut()) {                                                         \
            sched_point(16, (uptr) a);                                         \
            check_addr((uptr) a, sizeof(T), false, PC);                        \
            at_load((uptr) a, sizeof(T), mo, PC);                              \
        }                                                                      \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                           \
    }                                                                          \
    X void __tsan_atomic##bits##_store(volatile T* a, T v, int mo)             \
    {                                                                          \
        if (insut()) {                                                         \
            sched_point(17, (uptr) a);                                         \
            check_addr((uptr) a, sizeof(T), true, PC);                         \
            at_store((uptr) a, sizeof(T), mo, PC);                             \
        }                                                                      \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                              \
    }                                                                          \
    X T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo)             \
    {                                                                          \
        if (insut()) {                                                         \
            sched_point(18, (uptr) a);                                         \
            check_addr((uptr) a, sizeof(T), true, PC);                         \
            at_rmw((uptr) a, sizeof(T), mo, PC);                               \
        }                                                                      \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                    \
    }                                                                          \
    FETCH(bits, T, add, 19) FETCH(bits, T, sub, 20) FETCH(bits, T, and, 21)    \
    FETCH(bits, T, or, 22) FETCH(bits, T, xor, 23) FETCH(bits, T, nand, 24)    \
    X T __tsan_atomic##bits##_compare_exchange_val(                            \
        volatile T* a, T c, T v, int mo, int fmo)                              \
    {                                                                          \
        if (insut()) {                                                         \
            sched_point(25, (uptr) a);                                         \
            check_addr((uptr) a, sizeof(T), true, PC);                         \
            if (__atomic_load_n(a, __ATOMIC_SEQ_CST) == c)                     \
                at_rmw((uptr) a, sizeof(T), mo, PC);                           \
            else {                                                             \
                at_load((uptr) a, sizeof(T), fmo, PC);                         \
                if (G.threads)                                                 \
                    probe("cas-failed");                                       \
            }                                                                  \
        }                                                                      \
        T e = c;                                                               \
        __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST,         \
                                    __ATOMIC_SEQ_CST);                         \
        return e;                                                              \
    }                                                                          \
    X int __tsan_atomic##bits##_compare_exchange_strong(                       \
        volatile T* a, T* c, T v, int mo, int fmo)                             \
    {                                                                          \
        T e = *c;                                                              \
        T r = __tsan_atomic##bits##_compare_exchange_val(a, e, v, mo, fmo);    \
        *c  = r;                                                               \
        return r == e;                                                         \
    }                                                                          \
    X int __tsan_atomic##bits##_compare_exchange_weak(                         \
        volatile T* a, T* c, T v, int mo, int fmo)                             \
    {                                                                          \
        return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo,      \
                                                             fmo);             \
    }
#define FETCH(bits, T, op, ev)                                                 \
    X T __tsan_atomic##bits##_fetch_##op(volatile T* a, T v, int mo)           \
    {                                                                          \
        if (insut()) {                                                         \
            sched_point(ev, (uptr) a);                                         \
            check_addr((uptr) a, sizeof(T), true, PC);                         \
            at_rmw((uptr) a, sizeof(T), mo, PC);                               \
        }                                                                      \
        return __atomic_fetch_##op(a, v, __ATOMIC_SEQ_CST);                    \
    }
ATOMIC(8, u8)
ATOMIC(16, u16)
ATOMIC(32, u32)
ATOMIC(64, u64)
X void __tsan_atomic_thread_fence(int mo)
{
    if (insut()) {
        sched_point(26, 0);
        at_fence(mo);
    }
}
X void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------ allocation
X void* __real_malloc(size_t) __attribute__((weak));
static void* sut_alloc(size_t n, int kind, void* pc, size_t align = 16)
{
    if (alloc_fails())
        return nullptr;
    return arena_alloc(n, kind, pc, align);
}
X void* __wrap_malloc(size_t n)
{
    return insut() ? sut_alloc(n, K_MALLOC, PC) : malloc(n);
}
X void* __wrap_calloc(size_t a, size_t b)
{
    if (!insut())
        return calloc(a, b);
    void* p = sut_alloc(a * b, K_MALLOC, PC);
    if (p)
        memset(p, 0, a * b);
    return p;
}
X void* __wrap_aligned_alloc(size_t al, size_t n)
{
    return insut() ? sut_alloc(n, K_MALLOC, PC, al) : aligned_alloc(al, n);
}
X int __wrap_posix_memalign(void** out, size_t al, size_t n)
{
    if (!insut())
        return posix_memalign(out, al, n);
    void* p = sut_alloc(n, K_MALLOC, PC, al);
    if (!p)
        return 12;
    *out = p;
    return 0;
}
X void __wrap_free(void* p)
{
    if (!p)
        return;
    if (in_ar((uptr) p))
        arena_free(p, K_MALLOC, PC);
    else
        free(p);
}
X void* __wrap_realloc(void* p, size_t n)
{
    if (!p)
        return insut() ? sut_alloc(n, K_MALLOC, PC) : malloc(n);
    if (!in_ar((uptr) p))
        return realloc(p, n);
    u32 b   = blk[((uptr) p - A0) >> 4];
    size_t o = b ? G.blocks[b].size : 0;
    void* q = sut_alloc(n, K_MALLOC, PC);
    if (!q)
        return nullptr;
    memcpy(q, p, o < n ? o : n);
    arena_free(p, K_MALLOC, PC);
    return q;
}
static void* do_new(size_t n, void* pc, size_t al = 16)
{
    if (!insut())
        return al > 16 ? ::operator new(n, std::align_val_t(al))
                       : ::operator new(n);
    void* p = sut_alloc(n, K_NEW, pc, al);
    if (!p)
        throw std::bad_alloc();
    return p;
}
static void do_delete(void* p, void* pc, size_t al = 16)
{
    if (!p)
        return;
    if (in_ar((uptr) p))
        arena_free(p, K_NEW, pc);
    else if (al > 16)
        ::operator delete(p, std::align_val_t(al));
    else
        ::operator delete(p);
}
X void* __wrap__Znwm(size_t n) { return do_new(n, PC); }
X void* __wrap__Znam(size_t n) { return do_new(n, PC); }
X void* __wrap__ZnwmSt11align_val_t(size_t n, size_t al)
{
    return do_new(n, PC, al);
}
X void* __wrap__ZnwmRKSt9nothrow_t(size_t n, const std::nothrow_t&)
{
    return insut() ? sut_alloc(n, K_NEW, PC) : ::operator new(n, std::nothrow);
}
X void __wrap__ZdlPv(void* p) { do_delete(p, PC); }
X void __wrap__ZdaPv(void* p) { do_delete(p, PC); }
X void __wrap__ZdlPvm(void* p, size_t n)
{
    if (p && in_ar((uptr) p)) {
        u32 b = blk[((uptr) p - A0) >> 4];
        if (b && G.blocks[b].addr == (uptr) p && G.blocks[b].state == B_LIVE &&
            G.blocks[b].size != n)
            fail("bad-free", "sized delete of %zu bytes for a block of %zu", n,
                 G.blocks[b].size);
    }
    do_delete(p, PC);
}
X void __wrap__ZdlPvSt11align_val_t(void* p, size_t al) { do_delete(p, PC, al); }
X void __wrap__ZdlPvmSt11align_val_t(void* p, size_t, size_t al)
{
    do_delete(p, PC, al);
}

// --------------------------------------------------------------- libgc
static bool choose_collection(Fiber* f, u32 k)
{
    bool go = false;
    if (G.gen) {
        go = G.gc_den && G.rng.below(G.gc_den) == 0;
        if (go && !record(D_GC, f, k, 1))
            go = false;
    } else
        go = lookup(D_GC, f, k) != nullptr;
    return go;
}
static void* gc_alloc(size_t n, int kind, void* pc)
{
    Fiber* f = G.cur;
    if (!f) {
        // static initialisation of the library (owner tokens nobody follows)
        static char early[1 << 14] __attribute__((aligned(16)));
        static size_t used = 0;
        n = (n + 15) & ~(size_t) 15;
        if (n > sizeof early - used) {
            fprintf(stderr, "simrt: out of memory before the simulation\n");
            _exit(3);
        }
        used += n;
        return early + used - n;
    }
    if (f->sut)
        sched_point(4, 0);
    if (alloc_fails())
        return nullptr;
    u32 k   = f->cum_gc++;
    bool go = false;
    if (f->sut)
        aside([&] { go = choose_collection(f, k); });
    if (go)
        do_collect();
    return arena_alloc(n, kind, pc);
}
X void* GC_malloc(size_t n) { return gc_alloc(n, K_GC, PC); }
X void* GC_malloc_atomic(size_t n) { return gc_alloc(n, K_GCA, PC); }
X void* GC_malloc_uncollectable(size_t n) { return arena_alloc(n, K_ROOT, PC); }
X void GC_free(void* p)
{
    if (p)
        arena_free(p, K_GC, PC);
}
X void GC_init() {}
X void GC_gcollect() {}

// -------------------------------------------------------------- threads
X int __wrap_sched_yield()
{
    if (insut())
        do_yield();
    return 0;
}
X int __wrap_nanosleep(const struct timespec*, struct timespec*)
{
    if (insut())
        do_yield();
    return 0;
}
X int __wrap_clock_nanosleep(int, int, const struct timespec*, struct timespec*)
{
    if (insut())
        do_yield();
    return 0;
}
X int __wrap_usleep(unsigned)
{
    if (insut())
        do_yield();
    return 0;
}
static std::unordered_map<void*, Mutex>& mutexes()
{
    static std::unordered_map<void*, Mutex> m;
    return m;
}
X int __wrap_pthread_mutex_lock(void* m)
{
    if (insut())
        mutexes()[m].lock();
    return 0;
}
X int __wrap_pthread_mutex_trylock(void* m)
{
    if (insut()) {
        sched_point(5, 0);
        Mutex& x = mutexes()[m];
        if (x.owner)
            return 16;
        x.lock();
    }
    return 0;
}
X int __wrap_pthread_mutex_unlock(void* m)
{
    if (insut())
        mutexes()[m].unlock();
    return 0;
}

struct EmuCtl
{
    size_t size, align;
    void* loc;
    void* templ;
};
X void* __wrap___emutls_get_address(EmuCtl* c)
{
    Fiber* f = G.cur ? G.cur : &G.f[0];
    for (auto& t : f->tls)
        if (t.ctl == c)
            return t.p;
    size_t al  = c->align < 16 ? 16 : c->align;
    char* base = (char*) arena_alloc(c->size + al + 16, K_TLS, PC, al);
    char* p    = base + (al < 16 ? 16 : al);
    ((uptr*) p)[-1] = (uptr) base;
    if (c->templ)
        memcpy(p, c->templ, c->size);
    else
        memset(p, 0, c->size);
    f->tls.push_back(TlsObj{c, p});
    return p;
}
X int __wrap___cxa_thread_atexit(void (*fn)(void*), void* o, void*)
{
    Fiber* f = G.cur ? G.cur : &G.f[0];
    f->dtors.push_back(Dtor{fn, o});
    return 0;
}
X int __wrap___cxa_guard_acquire(u8* g)
{
    if (!G.on) {
        if (g[0])
            return 0;
        g[1] = 1;
        return 1;
    }
    Fiber* f = G.cur;
    if (f->sut)
        sched_point(6, (uptr) g);
    while (g[1] && !g[0]) {
        probe("static-init-contended");
        do_yield();
    }
    if (g[0]) {
        if (G.race) {
            Cell* c = cell_of((uptr) g & ~3ull);
            if (c->ext)
                vjoin(f->vc, exts[c->ext].L);
        }
        return 0;
    }
    g[1] = 1;
    return 1;
}
X void __wrap___cxa_guard_release(u8* g)
{
    if (G.on) {
        Fiber* f = G.cur;
        if (f->sut)
            sched_point(7, (uptr) g);
        if (G.race && (in_gl((uptr) g) || in_ar((uptr) g))) {
            Ext* x = ext_of(cell_of((uptr) g & ~3ull));
            vjoin(x->L, f->vc);
            bump_clk(f);
        }
    }
    g[0] = 1;
    g[1] = 0;
}
X void __wrap___cxa_guard_abort(u8* g) { g[1] = 0; }

X void __wrap___assert_fail(const char* e, const char* file, unsigned line,
                            const char*)
{
    const char* b = strrchr(file, '/');
    fail("assertion", "%s:%u: %s", b ? b + 1 : file, line, e);
}
X void __wrap_abort() { fail("abort", "abort() was called"); }
X void __wrap_exit(int) { fail("abort", "exit() was called"); }
