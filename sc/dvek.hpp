// The experimental dvektor: histories of values against a plain model, with
// faults, and with values that cross threads.
#pragma once
#include "common.hpp"
#include <immer/experimental/dvektor.hpp>
#include <iterator>

namespace sim {

namespace dvop {
enum
{
    NEW,
    COPY,
    MOVE,
    PUSH,
    PUSHN,
    ASSOC,
    UPDATE,
    WALK,
    PUB,
    RECV,
    SHARED,
    CHECK,
    CHECK_ALL,
    NOPS
};
inline const char* names[] = {"new",  "copy", "move",   "push",  "pushn",    "assoc", "update",
                              "walk", "pub",  "recv", "shared", "check", "check-all"};
} // namespace dvop

template <class T, int B, class MP>
struct DvekScenario : Scenario
{
    using C = immer::dvektor<T, B, MP>;
    using E = ET<T>;
    static constexpr int NS = 4, NSH = 2, NMB = 2;
    bool faulty;
    int maxth;
    u32 maxn;

    struct Thread
    {
        Slot<C> s[NS];
    };
    struct Box
    {
        Slot<C> s;
        Mutex mu;
    };
    Thread* th      = nullptr;
    Slot<C>* shared = nullptr;
    Box* mb         = nullptr;
    u32 faults      = 0;
    int nth         = 1;
    u32 profile     = 0;

    DvekScenario(const char* n, bool f, int mt, u32 mx)
        : Scenario(n)
        , faulty(f)
        , maxth(mt)
        , maxn(mx)
    {}

    const char* op_name(int k) override
    {
        return k < dvop::NOPS ? dvop::names[k] : nullptr;
    }
    RunShape shape() override
    {
        RunShape s;
        s.use_gc     = is_gc_v<MP>;
        s.fault_mask = faulty ? FM_ALLOC | FM_THROW : 0;
        s.fault_pct  = 90;
        s.est_steps  = 300;
        return s;
    }
    void gen(Rng& r, Program& p) override
    {
        static const int w1[] = {1, 3, 2, 8, 8, 6, 5, 4, 1, 1, 1, 2, 1};
        static const int wt[] = {1, 6, 2, 5, 3, 5, 4, 3, 6, 6, 8, 1, 1};
        int w[dvop::NOPS], tot = 0;
        for (int k = 0; k < dvop::NOPS; ++k) {
            w[k] = (maxth > 1 ? wt : w1)[k];
            if (k != dvop::PUSHN && r.chance(1, 4))
                w[k] = 0;
            tot += w[k];
        }
        p.nth    = maxth > 1 ? 2 + r.below(maxth - 1) : 1;
        p.cfg[0] = r.below(5);
        for (int t = 1; t <= p.nth; ++t) {
            int n = p.nth > 1 ? 2 + r.below(10) : 4 + r.below(40);
            for (int i = 0; i < n; ++i) {
                Op op;
                if (i == 0 && maxth > 1)
                    op.kind = r.chance(1, 2) ? dvop::RECV : dvop::SHARED;
                else if (i == 0)
                    op.kind = dvop::PUSHN;
                else {
                    int x = r.below(tot), k = 0;
                    while (x >= w[k])
                        x -= w[k++];
                    op.kind = k;
                }
                for (auto& a : op.a)
                    a = r.below(1 << 16);
                p.th[t].push_back(op);
            }
        }
    }

    u32 len(u32 a)
    {
        static const u32 big[] = {5, 12, 40, 130, 400};
        constexpr u32 k = 1u << B;
        switch (a % 4) {
        case 0: return (1 + a / 4 % 4) * k; // whole leaves
        case 1: return k * k;
        default: return a / 4 % big[profile % 5];
        }
    }
    void fill(Slot<C>& s, u32 base, u32 n)
    {
        Sut q;
        for (u32 i = 0; i < n; ++i)
            s.c() = s.c().push_back(E::make(base + i));
        NoSut z;
        for (u32 i = 0; i < n; ++i)
            s.m.push_back(mv<T>(base + i));
    }
    void reset(Slot<C>& s)
    {
        s.init();
        Sut q;
        s.emplace();
        NoSut z;
        s.m.clear();
    }
    void setup(const Program& p) override
    {
        nth     = p.nth;
        profile = p.cfg[0];
        faults  = 0;
        set_elem_registry(E::tracked);
        th     = new Thread[nth + 1];
        shared = new Slot<C>[NSH];
        mb     = new Box[NMB];
        for (int i = 0; i < NSH; ++i) {
            reset(shared[i]);
            fill(shared[i], 900000 + 10000 * i, len(p.cfg[0] * 977 + 35 + i * 11) % (maxn / 2));
        }
        for (int i = 0; i < NMB; ++i) {
            reset(mb[i].s);
            if (maxth > 1) {
                // shares its leaves with the other, but not the focus
                Sut q;
                auto& c = shared[1].c();
                mb[i].s.c() =
                    c.size() ? c.assoc(i * (c.size() - 1), E::make(77)) : c;
                NoSut z;
                mb[i].s.m = shared[1].m;
                if (shared[1].m.size())
                    mb[i].s.m[i * (shared[1].m.size() - 1)] = mv<T>(77);
            }
        }
    }
    void thread_begin(int tid) override
    {
        for (auto& s : th[tid].s)
            reset(s);
    }
    void thread_end(int tid) override
    {
        u32 i = 0;
        for (auto& s : th[tid].s)
            check(s, i++ + tid);
        for (auto& s : th[tid].s)
            s.done();
    }
    void finish() override
    {
        for (int i = 0; i < NSH; ++i)
            check(shared[i], i), shared[i].done();
        for (int i = 0; i < NMB; ++i)
            check(mb[i].s, i), mb[i].s.done();
        delete[] th;
        delete[] shared;
        delete[] mb;
    }

    void bad(const char* how, const Model& m, size_t i, u32 got)
    {
        fail("wrong-content", "%s: element %zu of %zu is %u, the model says %u",
             how, i, m.size(), got, i < m.size() ? m[i] : 0);
    }
    void check(Slot<C>& s, u32 how)
    {
        const C& c = s.c();
        auto& m    = s.m;
        Sut q;
        size_t n = m.size();
        if (c.size() != n || c.empty() != (n == 0))
            fail("wrong-size", "size %zu, the model says %zu", c.size(), n);
        note(n);
        size_t i = 0;
        switch (how % 4) {
        case 0:
            for (; i < n; ++i)
                if (u32 g = E::get(c[i]); g != m[i])
                    bad("index", m, i, g);
            break;
        case 1:
            for (auto& x : c) {
                u32 g = E::get(x);
                if (i >= n || g != m[i])
                    bad("forward", m, i, g);
                ++i;
            }
            if (i != n)
                fail("wrong-content", "forward: %zu of %zu elements", i, n);
            break;
        case 2:
            for (i = n; i-- > 0;)
                if (u32 g = E::get(c[i]); g != m[i])
                    bad("index backward", m, i, g);
            break;
        case 3: {
            i      = n;
            auto e = c.rend();
            for (auto it = c.rbegin(); it != e; ++it) {
                u32 g = E::get(*it);
                if (!i || g != m[i - 1])
                    bad("backward", m, i - 1, g);
                --i;
            }
            if (i)
                fail("wrong-content", "backward: %zu missing", i);
            break;
        }
        }
    }
    // an iterator that wanders, and copies of it
    void walk(Slot<C>& s, u32 seed)
    {
        Rng r(seed);
        const C& c = s.c();
        auto& m    = s.m;
        long n     = m.size();
        Sut q;
        auto it  = r.chance(1, 2) ? c.begin() : c.end();
        long pos = it == c.begin() ? 0 : n;
        for (u32 k = 12; k--;) {
            switch (r.below(6)) {
            case 0:
                if (pos < n)
                    ++it, ++pos;
                break;
            case 1:
                if (pos > 0)
                    --it, --pos;
                break;
            case 2: {
                long to = r.below(n + 1);
                it += to - pos;
                pos = to;
                break;
            }
            case 3: {
                auto jt = it;
                if (pos < n)
                    ++jt;
                it = jt;
                pos += pos < n;
                break;
            }
            case 4: {
                long to = r.below(n + 1);
                it      = c.end() - (n - to);
                pos     = to;
                break;
            }
            case 5: {
                long to = r.below(n + 1);
                it      = c.begin() + to;
                pos     = to;
            }
            }
            if (it - c.begin() != pos || c.end() - it != n - pos ||
                (it == c.end()) != (pos == n))
                fail("wrong-position", "an iterator at %ld says %ld", pos,
                     (long) (it - c.begin()));
            if (pos < n)
                if (u32 g = E::get(*it); g != m[pos])
                    bad("iterator", m, pos, g);
        }
    }
    void check_all(int tid, u32 how)
    {
        for (auto& s : th[tid].s)
            check(s, how);
        for (int i = 0; i < NSH; ++i)
            check(shared[i], how);
    }
    template <class F>
    void derive(int tid, Slot<C>& d, const Model& want, u32 how, F&& f)
    {
        alignas(C) char buf[sizeof(C)];
        C* out   = (C*) buf;
        u64 a    = 0;
        u32 high = 1;
        for (size_t n = want.size(); n >>= B;)
            ++high;
        attempt(
            faulty ? FM_ALLOC | FM_THROW : 0,
            [&] {
                a = my_allocs();
                new (out) C(f());
                a = my_allocs() - a;
            },
            [&] { check_all(tid, how); });
        if (a > 2 * high)
            fail("too-many-allocations",
                 "%llu nodes for one operation on a tree of %u levels",
                 (unsigned long long) a, high);
        {
            Sut q;
            if (how & 1)
                d.c() = std::move(*out);
            else
                d.c() = *out;
            out->~C();
        }
        d.m = want;
        check(d, how >> 2);
    }
    void run_op(int tid, const Op& op) override
    {
        using namespace dvop;
        Thread& x  = th[tid];
        Slot<C>& s = x.s[op.a[0] % NS];
        Slot<C>& d = x.s[op.a[1] % NS];
        u32 base   = (u32) op.id * 1000;
        u32 how    = op.a[3];
        Model m    = s.m;
        size_t n   = m.size();
        size_t idx = n ? op.a[2] % n : 0;
        switch (op.kind) {
        case NEW: {
            Sut q;
            s.c() = C{};
            NoSut z;
            s.m.clear();
            break;
        }
        case COPY: {
            Sut q;
            if (how & 1)
                d.c() = s.c();
            else {
                C copy(s.c());
                d.c() = std::move(copy);
            }
            NoSut z;
            d.m = m;
            break;
        }
        case MOVE: {
            if (&s == &d)
                break;
            Sut q;
            d.c() = std::move(s.c());
            s.c() = C{};
            NoSut z;
            d.m = m;
            s.m.clear();
            break;
        }
        case PUSH: {
            if (n >= maxn)
                break;
            T v     = E::make(base);
            Model w = m;
            w.push_back(mv<T>(base));
            derive(tid, d, w, how, [&] { return s.c().push_back(v); });
            break;
        }
        case PUSHN: {
            u32 k = len(op.a[2]);
            for (u32 i = 0; i < k && s.m.size() < maxn; ++i) {
                T v     = E::make(base + i);
                Model w = s.m;
                w.push_back(mv<T>(base + i));
                alignas(C) char buf[sizeof(C)];
                C* out = (C*) buf;
                attempt(
                    faulty ? FM_ALLOC | FM_THROW : 0,
                    [&] { new (out) C(s.c().push_back(v)); },
                    [&] { check(s, how); });
                Sut q;
                s.c() = std::move(*out);
                out->~C();
                NoSut z;
                s.m = w;
            }
            check(s, how);
            break;
        }
        case ASSOC: {
            if (!n)
                break;
            T v     = E::make(base);
            Model w = m;
            w[idx]  = mv<T>(base);
            derive(tid, d, w, how, [&] { return s.c().assoc(idx, v); });
            break;
        }
        case UPDATE: {
            if (!n)
                break;
            Model w = m;
            w[idx]  = mv<T>(base + 1);
            derive(tid, d, w, how, [&] {
                return s.c().update(idx, [&](auto&& v) {
                    if (E::get(v) != m[idx])
                        bad("update", m, idx, E::get(v));
                    maybe_throw(9);
                    return E::make(base + 1);
                });
            });
            break;
        }
        case WALK: walk(s, op.a[2] * 65536 + how); break;
        case PUB: {
            Box& b = mb[op.a[1] % NMB];
            Lock l(b.mu);
            Sut q;
            b.s.c() = s.c();
            NoSut z;
            b.s.m = m;
            break;
        }
        case RECV: {
            Box& b = mb[op.a[1] % NMB];
            Lock l(b.mu);
            Sut q;
            if (how & 1) {
                s.c()   = std::move(b.s.c());
                b.s.c() = C{};
                NoSut z;
                s.m = b.s.m;
                b.s.m.clear();
            } else {
                s.c() = b.s.c();
                NoSut z;
                s.m = b.s.m;
            }
            break;
        }
        case SHARED: {
            Slot<C>& h = shared[op.a[1] % NSH];
            if (how & 1)
                check(h, how >> 1);
            else if (how & 2)
                walk(h, how);
            Sut q;
            s.c() = h.c();
            NoSut z;
            s.m = h.m;
            break;
        }
        case CHECK: check(s, how); break;
        case CHECK_ALL: check_all(tid, how); break;
        }
        for (auto& o : x.s)
            if (&o != &s || how % 5 == 0)
                check(o, how % 8 ? 0 : how >> 3);
    }
};

#define DVSCN2(n) dvreg_##n
#define DVSCN1(n, ...) static Reg<DvekScenario<__VA_ARGS__>> DVSCN2(n)
#define DVSCN(line, name, T, B, MP, faulty, threads, maxn)                     \
    DVSCN1(line, T, B, MP)("dvek." name, faulty, threads, maxn);
} // namespace sim
