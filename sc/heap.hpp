// the heaps, used directly: blocks never overlap, keep what is written to them,
// go back to the parent heap, and stay within the limits of the free lists
#pragma once
#include "common.hpp"

#include <immer/heap/debug_size_heap.hpp>
#include <immer/heap/free_list_heap.hpp>
#include <immer/heap/split_heap.hpp>
#include <immer/heap/thread_local_free_list_heap.hpp>
#include <immer/heap/unsafe_free_list_heap.hpp>
#include <immer/heap/with_data.hpp>

#include <string>

namespace sim {

namespace heapop {
enum
{
    ALLOC,
    FREE,
    ALLOCN,
    FREEN,
    CHURN,
    PUB,
    RECV,
    CHECK,
    NOPS
};
inline const char* const names[] = {"alloc",   "free",    "alloc-n", "free-n",
                                    "churn",   "publish", "receive", "check"};
}

// H: heap with static allocate/deallocate; sizes up to Max; of these, blocks of
// up to Pool bytes are pooled, at most Cap of them (0: nothing is pooled) plus
// TCap per thread that is alive
template <class H, size_t Max, size_t Pool, size_t Cap, size_t TCap>
struct HeapScenario : Scenario
{
    static constexpr int NS  = 12;
    static constexpr int NMB = 3;
    struct Blk
    {
        unsigned char* p = nullptr;
        u32 n            = 0;
        u32 seed         = 0;
    };
    struct Thread
    {
        Blk b[NS];
    };
    struct Mail
    {
        Mutex mu;
        Blk b;
    };
    bool faults;
    int maxth;
    int nth    = 0;
    Thread* th = nullptr;
    Mail* mb   = nullptr;
    u32 sizes[3];
    u64 base = 0;
    u64 held = 0; // blocks the program holds

    HeapScenario(const char* n, int t, bool f)
        : Scenario(n)
        , faults(f)
        , maxth(t)
    {}
    RunShape shape() override
    {
        RunShape s;
        s.fault_mask = faults ? FM_ALLOC : 0;
        s.fault_pct  = 90;
        s.est_steps  = 150;
        return s;
    }
    const char* op_name(int k) override
    {
        return k >= 0 && k < heapop::NOPS ? heapop::names[k] : nullptr;
    }
    void gen(Rng& r, Program& p) override
    {
        using namespace heapop;
        static const int wt[NOPS] = {6, 6, 2, 2, 4, 4, 4, 1};
        int w[NOPS], tot = 0;
        for (int k = 0; k < NOPS; ++k) {
            w[k] = wt[k];
            if (r.chance(1, 4))
                w[k] = 0;
            tot += w[k];
        }
        if (!tot)
            tot = w[CHURN] = 1;
        p.nth    = maxth > 1 ? 2 + r.below(maxth - 1) : 1;
        p.cfg[0] = r.next();
        for (int t = 1; t <= p.nth; ++t) {
            int n = p.nth == 1 ? 3 + r.below(30) : 2 + r.below(r.chance(1, 3) ? 16 : 7);
            for (int i = 0; i < n; ++i) {
                Op op;
                int x = r.below(tot), k = 0;
                while (x >= w[k])
                    x -= w[k++];
                op.kind = k;
                for (auto& a : op.a)
                    a = r.below(1 << 16);
                p.th[t].push_back(op);
            }
        }
    }
    void setup(const Program& p) override
    {
        nth = p.nth;
        th  = new Thread[nth + 1];
        mb  = new Mail[NMB];
        Rng r(p.cfg[0]);
        sizes[0] = Pool ? Pool : Max;
        sizes[1] = 1 + r.below(Max);
        sizes[2] = 1 + r.below(Pool ? Pool : Max);
        base     = live_blocks();
        held     = 0;
    }
    static unsigned char pat(u32 seed, u32 i)
    {
        return (unsigned char) (seed * 31 + i * 7 + (seed >> 5));
    }
    void get(Blk& b, u32 n, u32 seed)
    {
        void* q = nullptr;
        attempt(
            FM_ALLOC, [&] { q = H::allocate(n); }, [&] {});
        b = Blk{(unsigned char*) q, n, seed};
        ++held;
        check_block(q, n, "an allocated block");
        if ((size_t) q % alignof(void*))
            fail("bad-block", "a block is not aligned");
        Sut s;
        for (u32 i = 0; i < n; ++i)
            b.p[i] = pat(seed, i);
    }
    void check(Blk& b)
    {
        if (!b.p)
            return;
        Sut s;
        for (u32 i = 0; i < b.n; ++i)
            if (b.p[i] != pat(b.seed, i))
                fail("bad-block", "byte %u of a block of %u was overwritten: "
                                  "%02x, not %02x", i, b.n, b.p[i],
                     pat(b.seed, i));
    }
    void put(Blk& b)
    {
        if (!b.p)
            return;
        check(b);
        {
            Sut s;
            H::deallocate(b.n, b.p);
        }
        --held;
        b.p = nullptr;
    }
    void thread_begin(int) override {}
    void thread_end(int tid) override
    {
        for (auto& b : th[tid].b)
            put(b);
    }
    // blocks that no one holds and that still are not free
    size_t retained() { return live_blocks() - base - held; }
    void finish() override
    {
        for (int i = 0; i < NMB; ++i)
            put(mb[i].b);
        // threads that look at a counter at the same time may each add one
        if (retained() > Cap + TCap + (Cap ? nth : 0))
            fail("retention", "%zu free blocks are kept when %zu at most may "
                              "be", retained(), Cap + TCap);
        if (!Pool)
            return;
        // empty the lists, then let go of more than they may keep
        const size_t N = Cap + TCap + 4;
        std::vector<Blk> v(N + 8);
        for (int round = 0; round < 2; ++round) {
            for (auto& b : v)
                get(b, Pool, round);
            if (retained())
                fail("retention", "%zu free blocks are never used again",
                     retained());
            for (auto& b : v)
                put(b);
            if (retained() != Cap + TCap)
                fail("retention", "%zu free blocks are kept where the limit "
                                  "is %zu", retained(), Cap + TCap);
        }
    }
    void run_op(int tid, const Op& op) override
    {
        using namespace heapop;
        Thread& x = th[tid];
        Blk& b    = x.b[op.a[0] % NS];
        u32 n     = sizes[op.a[1] % 3];
        u32 seed  = op.id * 131 + 7;
        switch (op.kind) {
        case ALLOC:
            put(b);
            get(b, n, seed);
            break;
        case FREE: put(b); break;
        case ALLOCN:
            for (u32 i = 0; i < 1 + op.a[2] % NS; ++i)
                if (!x.b[i].p)
                    get(x.b[i], n, seed + i);
            break;
        case FREEN:
            for (u32 i = 0; i < 1 + op.a[2] % NS; ++i)
                put(x.b[(op.a[0] + i) % NS]);
            break;
        case CHURN:
            for (u32 i = 0; i < 1 + op.a[2] % 6; ++i) {
                Blk c[2];
                get(c[0], n, seed + i);
                if (op.a[3] & 1)
                    get(c[1], n, seed + i + 100);
                u64 a0 = total_allocs();
                put(c[0]);
                put(c[1]);
                if (Pool && n <= Pool && nth == 1) {
                    // what was just let go of is what is used next
                    get(c[0], n, seed + i);
                    if (total_allocs() != a0)
                        fail("retention", "a block goes to the parent heap "
                                          "while the free list has room");
                    put(c[0]);
                }
            }
            break;
        case PUB: {
            Mail& m = mb[op.a[1] % NMB];
            Lock l(m.mu);
            std::swap(m.b, b);
            break;
        }
        case RECV: {
            Mail& m = mb[op.a[1] % NMB];
            {
                Lock l(m.mu);
                std::swap(m.b, b);
            }
            check(b);
            break;
        }
        case CHECK:
            for (auto& y : x.b)
                check(y);
            break;
        }
    }
};

} // namespace sim
#define HEAPSCN(name, threads, faults, H, Max, Pool, Cap, TCap)                \
    static sim::Reg<sim::HeapScenario<H, Max, Pool, Cap, TCap>>                \
        HPCAT1(hp_, __LINE__)("heap." name, threads, faults);
#define HPCAT2(a, b) a##b
#define HPCAT1(a, b) HPCAT2(a, b)
