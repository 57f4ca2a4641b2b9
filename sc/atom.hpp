// boxes and atoms: concurrent histories checked for linearizability
#pragma once
#include "common.hpp"

#include <immer/atom.hpp>
#include <immer/box.hpp>

#include <map>
#include <set>
#include <string>

namespace sim {

enum AFocus
{
    AF_ATOM,  // histories of atoms, 2 to 4 threads
    AF_FAULT, // the same, with failing allocations and throwing user code
    AF_BOX,   // boxes in one thread
    AF_BOXF,  // with faults
    AF_SHARE  // boxes that several threads share and update
};

// what a program does when one of its values goes: it looks at its atoms
inline void (*cell_gone)() = nullptr;

// what a box holds: wide, so that a torn value shows, with a non trivial part
template <bool TM>
struct Cell
{
    using E = Elem<TM>;
    u32 a;
    E e;
    u32 b;
    Cell()
        : a(0)
        , e(0)
        , b(~0u)
    {}
    explicit Cell(u32 v)
        : a(v)
        , e(v)
        , b(~v)
    {
        maybe_throw(11);
    }
    Cell(u32 x, u32 y) // boxes are built from several arguments too
        : Cell(x + y)
    {}
    Cell(const Cell&)            = default;
    Cell(Cell&&)                 = default;
    Cell& operator=(const Cell&) = default;
    Cell& operator=(Cell&&)      = default;
    ~Cell()
    {
        if (cell_gone)
            cell_gone();
    }
    u32 get() const
    {
        e.good();
        if (e.v == MOVED && b == ~a)
            return MOVED;
        if (e.v != a || b != ~a)
            fail("wrong-content", "a boxed value is torn: %u %u %u", a, e.v,
                 ~b);
        return a;
    }
    bool operator==(const Cell& o) const { return a == o.a && e == o.e; }
    bool operator!=(const Cell& o) const { return !(*this == o); }
    bool operator<(const Cell& o) const { return a < o.a; }
};

} // namespace sim
template <bool TM>
struct std::hash<sim::Cell<TM>>
{
    size_t operator()(const sim::Cell<TM>& c) const
    {
        return c.get() * 31u + 5;
    }
};
namespace sim {

inline u32 step(u32 in, u32 id) // the pure function that updates apply
{
    u32 x = in * 2654435761u + id * 0x9e3779b9u + 0x1234567;
    x ^= x >> 15;
    return x ? x : 1;
}

namespace atomop {
enum
{
    LOAD,
    LOADV, // conversion to the value
    LOADB, // conversion to the box
    STORE,
    ASSIGN,
    STOREBACK, // stores what was loaded before
    XCHG,
    UPDATE,
    CMP,
    B_NEW,
    B_NEW2,
    B_DEF,
    B_COPY,
    B_MOVE,
    B_ASSIGN,
    B_MASSIGN,
    B_SELF,
    B_SWAP,
    B_UPDATE,
    B_RUPDATE,
    B_EQ,
    B_PUB,
    B_RECV,
    B_SHARED,
    B_MKATOM, // an atom of its own, used and dropped
    NOPS
};
inline const char* const names[] = {
    "load",   "load-value", "load-box", "store",  "assign",  "store-back",
    "xchg",   "update",     "cmp",      "new",    "new2",    "new0",
    "copy",   "move",       "assign-b", "massign", "self",   "swap",
    "b-update", "b-rupdate", "eq",      "publish", "receive", "shared",
    "own-atom"};
}

struct HEv // an operation on an atom
{
    int tid;
    u8 kind; // 0 load, 1 store, 2 exchange, 3 update
    u32 arg, ret;
    u64 inv, res;
};

// Wing and Gong with memoisation; every history here is complete
struct LinCheck
{
    const std::vector<HEv>& h;
    std::set<std::pair<u64, u32>> dead;
    u64 work = 0;
    bool run(u64 done, u32 st)
    {
        u64 all = h.size() == 64 ? ~0ull : (1ull << h.size()) - 1;
        if (done == all)
            return true;
        if (!dead.insert({done, st}).second)
            return false;
        ++work;
        u64 minres = ~0ull;
        for (size_t i = 0; i < h.size(); ++i)
            if (!(done >> i & 1) && h[i].res < minres)
                minres = h[i].res;
        for (size_t i = 0; i < h.size(); ++i) {
            if ((done >> i & 1) || h[i].inv > minres)
                continue;
            auto& e = h[i];
            u32 ns  = st;
            bool ok = true;
            switch (e.kind) {
            case 0: ok = e.ret == st; break;
            case 1: ns = e.arg; break;
            case 2: ok = e.ret == st, ns = e.arg; break;
            case 3:
                ns = step(st, e.arg);
                ok = e.ret == ns;
                break;
            }
            if (ok && run(done | 1ull << i, ns))
                return true;
        }
        return false;
    }
};

template <class T, class MP>
struct AtomScenario : Scenario
{
    using B                      = immer::box<T, MP>;
    using A                      = immer::atom<T, MP>;
    static constexpr bool gc     = is_gc_v<MP>;
    static constexpr int NA      = 2;
    static constexpr int NB      = 3;
    static constexpr int NMB     = 2;
    static constexpr int NSHARED = 2;

    struct BSlot
    {
        Slot<B> s;
        u32 m = 0; // 0xffffffff: moved from
    };
    struct Thread
    {
        BSlot b[NB];
    };
    struct Mail
    {
        Mutex mu;
        BSlot b;
    };
    AFocus focus;
    int maxth;
    int nth = 0;
    u64 tick = 0;
    Thread* th = nullptr;
    A* atoms[NA];
    std::vector<HEv>* hist = nullptr; // per atom
    u32 init[NA];
    BSlot* shared = nullptr;
    Mail* mb      = nullptr;
    static constexpr u32 GONE = 0xffffffff;

    AtomScenario(const char* n, AFocus f, int t)
        : Scenario(n)
        , focus(f)
        , maxth(t)
    {}
    bool faulty() const { return focus == AF_FAULT || focus == AF_BOXF; }
    RunShape shape() override
    {
        RunShape s;
        s.fault_mask = faulty() ? FM_ALLOC | FM_THROW : 0;
        s.fault_pct  = 90;
        s.use_gc     = gc;
        s.est_steps  = 200;
        return s;
    }
    const char* op_name(int k) override
    {
        return k >= 0 && k < atomop::NOPS ? atomop::names[k] : nullptr;
    }
    int weight(int k)
    {
        using namespace atomop;
        bool at = k <= CMP;
        switch (focus) {
        case AF_ATOM:
        case AF_FAULT:
            if (k == UPDATE)
                return 10;
            if (k == XCHG || k == STORE || k == LOAD)
                return 5;
            return at ? 2 : k == B_COPY || k == B_RUPDATE ? 1 : 0;
        case AF_SHARE:
            if (k == B_PUB || k == B_RECV || k == B_SHARED)
                return 6;
            if (k == B_RUPDATE || k == B_UPDATE)
                return 5;
            return at ? 0 : 2;
        default:
            return at ? 1 : k == B_PUB || k == B_RECV ? 1 : 3;
        }
    }
    void gen(Rng& r, Program& p) override
    {
        using namespace atomop;
        int w[NOPS], tot = 0;
        for (int k = 0; k < NOPS; ++k) {
            w[k] = weight(k);
            if (r.chance(1, 4))
                w[k] = 0;
            tot += w[k];
        }
        if (!tot)
            tot = w[UPDATE] = 1;
        p.nth    = maxth > 1 ? 2 + r.below(maxth - 1) : 1;
        p.cfg[0] = r.next();
        p.cfg[1] = r.chance(2, 3); // all on one atom
        p.cfg[2] = r.below(3);     // whether destructors use the atoms
        for (int t = 1; t <= p.nth; ++t) {
            int n = p.nth == 1 ? 3 + r.below(20) : 1 + r.below(14 / p.nth + 1);
            for (int i = 0; i < n; ++i) {
                Op op;
                int x = r.below(tot), k = 0;
                while (x >= w[k])
                    x -= w[k++];
                op.kind = k;
                for (auto& a : op.a)
                    a = r.below(1 << 16);
                if (p.cfg[1])
                    op.a[0] &= ~1u;
                p.th[t].push_back(op);
            }
        }
    }
    template <class... X>
    void put(BSlot& b, u32 m, X&&... x)
    {
        Sut q;
        b.s.init();
        b.s.emplace(std::forward<X>(x)...);
        NoSut z;
        b.m = m;
    }
    inline static AtomScenario* me = nullptr;
    bool looking[MAXT]             = {};
    // user code that runs when a value is destroyed may use the atoms too
    static void look()
    {
        int t = self();
        if (me->looking[t])
            return;
        me->looking[t] = true;
        for (int i = 0; i < NA; ++i) {
            Sut q;
            (void) me->atoms[i]->load()->get();
        }
        me->looking[t] = false;
    }
    void setup(const Program& p) override
    {
        nth  = p.nth;
        tick = 0;
        me   = this;
        set_elem_registry(!gc);
        th     = new Thread[nth + 1];
        hist   = new std::vector<HEv>[NA];
        shared = new BSlot[NSHARED];
        mb     = new Mail[NMB];
        for (int i = 0; i < NA; ++i) {
            atoms[i] = (A*) root_alloc(sizeof(A));
            Sut q;
            if (i)
                new (atoms[i]) A(), init[i] = 0;
            else
                new (atoms[i]) A(B(T(700u))), init[i] = 700;
        }
        for (int i = 0; i < NSHARED; ++i)
            put(shared[i], 500 + i, T(500 + i));
        for (int i = 0; i < NMB; ++i)
            put(mb[i].b, 500, shared[0].s.c());
        if (!gc && p.cfg[2] % 3 == 0)
            cell_gone = look;
    }
    void thread_begin(int tid) override
    {
        for (int i = 0; i < NB; ++i)
            put(th[tid].b[i], 1000 * tid + i, T(1000 * tid + i));
    }
    void thread_end(int tid) override
    {
        for (auto& b : th[tid].b) {
            check(b);
            b.s.done();
        }
    }
    void finish() override
    {
        cell_gone = nullptr;
        // the last loads are part of the history
        for (int i = 0; i < NA; ++i) {
            u64 inv = ++tick;
            u32 v;
            {
                Sut q;
                v = atoms[i]->load()->get();
            }
            hist[i].push_back(HEv{0, 0, 0, v, inv, ++tick});
            lin(i);
        }
        for (int i = 0; i < NSHARED; ++i)
            check(shared[i]), shared[i].s.done();
        for (int i = 0; i < NMB; ++i)
            check(mb[i].b), mb[i].b.s.done();
        for (int i = 0; i < NA; ++i) {
            Sut q;
            atoms[i]->~A();
            NoSut z;
            root_free(atoms[i]);
        }
    }
    void lin(int i)
    {
        LinCheck l{hist[i], {}};
        if (hist[i].size() > 60)
            fail("sim", "history too long");
        if (l.run(0, init[i]))
            return;
        std::string s;
        static const char* kn[] = {"load", "store", "exchange", "update"};
        for (auto& e : hist[i])
            s += " [" + std::to_string(e.inv) + "," + std::to_string(e.res) +
                 " t" + std::to_string(e.tid) + " " + kn[e.kind] + " " +
                 std::to_string(e.arg) + " -> " + std::to_string(e.ret) + "]";
        fail("not-linearizable",
             "no order of the operations on an atom that starts with %u "
             "explains what they returned:%s",
             init[i], s.c_str());
    }
    void check(BSlot& b)
    {
        if (!b.s.live || b.m == GONE)
            return;
        Sut q;
        u32 v = b.s.c().get().get();
        if (v != b.m)
            fail("wrong-content", "a box holds %u, the model says %u", v, b.m);
        if ((*b.s.c()).get() != v || b.s.c()->get() != v ||
            static_cast<const T&>(b.s.c()).get() != v)
            fail("wrong-content", "the ways to look into a box differ");
        note(v);
    }
    void check_all(int tid)
    {
        for (auto& b : th[tid].b)
            check(b);
        for (int i = 0; i < NSHARED; ++i)
            check(shared[i]);
    }
    u32 fmask() { return FM_ALLOC | FM_THROW; }
    void rec(int tid, int at, u8 kind, u32 arg, u32 ret, u64 inv)
    {
        hist[at].push_back(HEv{tid, kind, arg, ret, inv, ++tick});
        note(ret);
    }
    // an attempt that fails has no effect: it is retried, and only the attempt
    // that gets through is in the history
    template <class F>
    u64 on_atom(int tid, F&& f)
    {
        u64 inv = 0;
        attempt(
            fmask(),
            [&] {
                {
                    NoSut z;
                    inv = ++tick;
                }
                f();
            },
            [&] { check_all(tid); });
        return inv;
    }
    void revive(BSlot& b, u32 m) { put(b, m, T(m)); }

    void run_op(int tid, const Op& op) override
    {
        using namespace atomop;
        Thread& x = th[tid];
        int ai    = op.a[0] % NA;
        A& a      = *atoms[ai];
        BSlot& s  = x.b[op.a[1] % NB];
        BSlot& d  = x.b[op.a[2] % NB];
        u32 how   = op.a[3];
        u32 id    = 10000 + op.id;
        u32 got   = 0;
        if (s.m == GONE && op.kind != B_ASSIGN && op.kind != B_MASSIGN)
            revive(s, id + 5000);
        if (d.m == GONE && op.kind != B_ASSIGN && op.kind != B_MASSIGN &&
            op.kind != B_COPY)
            revive(d, id + 6000);
        switch (op.kind) {
        case LOAD: {
            u64 inv = on_atom(tid, [&] {
                if (how & 1) {
                    s.s.c() = a.load();
                    got     = s.s.c()->get();
                } else
                    got = a.load().get().get();
            });
            if (how & 1)
                s.m = got;
            rec(tid, ai, 0, 0, got, inv);
            break;
        }
        case LOADV: {
            u64 inv = on_atom(tid, [&] {
                T v = a;
                got = v.get();
            });
            rec(tid, ai, 0, 0, got, inv);
            break;
        }
        case LOADB: {
            u64 inv = on_atom(tid, [&] {
                B v     = a;
                s.s.c() = v;
                got     = v->get();
            });
            s.m = got;
            rec(tid, ai, 0, 0, got, inv);
            break;
        }
        case STORE: {
            u64 inv = on_atom(tid, [&] {
                if (how & 1)
                    a.store(B(T(id)));
                else
                    a.store(T(id));
            });
            rec(tid, ai, 1, id, 0, inv);
            break;
        }
        case ASSIGN: {
            u64 inv = on_atom(tid, [&] { a = B(id, 0u); });
            rec(tid, ai, 1, id, 0, inv);
            break;
        }
        case STOREBACK: {
            u32 m   = s.m;
            u64 inv = on_atom(tid, [&] { a.store(s.s.c()); });
            rec(tid, ai, 1, m, 0, inv);
            break;
        }
        case XCHG: {
            u32 m   = s.m;
            u64 inv;
            if (how & 1) {
                inv = on_atom(tid, [&] {
                    B o = a.exchange(s.s.c());
                    got = o->get();
                });
            } else {
                inv = on_atom(tid, [&] {
                    B n{id, 0u};
                    s.s.c() = a.exchange(std::move(n));
                    got     = s.s.c()->get();
                });
                m   = id;
                s.m = got;
            }
            rec(tid, ai, 2, m, got, inv);
            break;
        }
        case UPDATE: {
            u32 evals = 0;
            u64 inv   = on_atom(tid, [&] {
                B n = a.update([&](const T& v) {
                    u32 in = v.get();
                    ++evals;
                    preempt();
                    maybe_throw(12);
                    if (how & 2) // the function may look at the atom itself
                        (void) a.load()->get();
                    return T(step(in, id));
                });
                got = n->get();
                if (how & 1)
                    s.s.c() = std::move(n);
            });
            if (how & 1)
                s.m = got;
            if (evals > 1 && !faulty())
                probe("update-retried");
            rec(tid, ai, 3, id, got, inv);
            break;
        }
        case CMP: {
            // a loaded value never changes, whatever happens to the atom
            u64 inv = 0;
            B* o    = (B*) root_alloc(sizeof(B));
            inv     = on_atom(tid, [&] { new (o) B(a.load()); });
            u32 v1, v2;
            {
                Sut q;
                v1 = (*o)->get();
            }
            rec(tid, ai, 0, 0, v1, inv);
            for (int i = 0; i < 3; ++i)
                preempt();
            {
                Sut q;
                v2 = (*o)->get();
                o->~B();
            }
            root_free(o);
            if (v1 != v2)
                fail("wrong-content", "a loaded value changed: %u %u", v1, v2);
            break;
        }
        case B_NEW:
            attempt(
                fmask(), [&] { d.s.c() = B(T(id)); }, [&] { check_all(tid); });
            d.m = id;
            break;
        case B_NEW2:
            attempt(
                fmask(),
                [&] {
                    if (how & 1)
                        d.s.c() = B(id, 0u);
                    else {
                        T v(id);
                        d.s.c() = v;
                    }
                },
                [&] { check_all(tid); });
            d.m = id;
            break;
        case B_DEF:
            attempt(
                fmask(), [&] { d.s.c() = B(); }, [&] { check_all(tid); });
            d.m = 0;
            break;
        case B_COPY:
        case B_ASSIGN: {
            if (s.m == GONE)
                break;
            u64 n0 = total_allocs();
            {
                Sut q;
                if (op.kind == B_ASSIGN)
                    d.s.c() = s.s.c();
                else if (&s != &d)
                    d.s.emplace(s.s.c());
            }
            d.m = s.m;
            if (nth == 1 && total_allocs() != n0)
                fail("wrong-content", "copying a box allocates");
            break;
        }
        case B_MOVE: {
            if (&s == &d)
                break;
            {
                Sut q;
                d.s.emplace(std::move(s.s.c()));
            }
            d.m = s.m;
            s.m = GONE;
            if (how & 1)
                revive(s, id);
            break;
        }
        case B_MASSIGN: {
            if (s.m == GONE)
                break;
            {
                Sut q;
                d.s.c() = std::move(s.s.c());
            }
            d.m = s.m;
            if (&s != &d)
                s.m = GONE;
            break;
        }
        case B_SELF: {
            {
                Sut q;
                B& self = s.s.c();
                if (how & 1)
                    s.s.c() = self;
                else
                    s.s.c() = std::move(self);
            }
            break;
        }
        case B_SWAP: {
            {
                Sut q;
                swap(s.s.c(), d.s.c());
            }
            std::swap(s.m, d.m);
            break;
        }
        case B_UPDATE: {
            u32 old = s.m;
            attempt(
                fmask(),
                [&] {
                    const B& c = s.s.c();
                    B n        = c.update([&](const T& v) {
                        if (v.get() != old)
                            fail("wrong-content", "update is given %u, not %u",
                                 v.get(), old);
                        preempt();
                        maybe_throw(12);
                        return T(step(old, id));
                    });
                    d.s.c() = std::move(n);
                },
                [&] { check_all(tid); });
            d.m = step(old, id);
            break;
        }
        case B_RUPDATE: {
            // in place when nobody else holds the value; a failure leaves the
            // box with some value, and all others untouched
            u32 old = s.m;
            B* same = nullptr;
            attempt(
                fmask(),
                [&] {
                    same = nullptr;
                    auto fn = [&](auto&& v) {
                        if (v.get() != old)
                            fail("wrong-content", "update is given %u, not %u",
                                 v.get(), old);
                        preempt();
                        maybe_throw(12);
                        if (how & 2) {
                            T took = std::forward<decltype(v)>(v);
                            (void) took.get();
                        }
                        return T(step(old, id));
                    };
                    if (how & 1)
                        s.s.c() = std::move(s.s.c()).update(fn);
                    else if (&s == &d)
                        (void) std::move(s.s.c()).update(fn);
                    else
                        d.s.c() = std::move(s.s.c()).update(fn);
                },
                [&] {
                    s.m = GONE;
                    {
                        Sut q;
                        s.s.c() = B(T(old));
                    }
                    s.m = old;
                    check_all(tid);
                });
            if (how & 1 || &s == &d)
                s.m = step(old, id);
            else {
                d.m = step(old, id);
                s.m = GONE;
            }
            break;
        }
        case B_EQ: {
            bool eq = false, ne = false, lt = false;
            attempt(
                fmask(),
                [&] {
                    const B& p = s.s.c();
                    const B& q = d.s.c();
                    eq         = p == q;
                    ne         = p != q;
                    lt         = p < q;
                },
                [&] { check_all(tid); });
            if (eq != (s.m == d.m) || ne == eq || lt != (s.m < d.m))
                fail("wrong-equality", "boxes of %u and %u: == %d != %d < %d",
                     s.m, d.m, eq, ne, lt);
            attempt(
                fmask(),
                [&] {
                    B f(s.s.c().get()); // a copy of the value
                    eq = f == s.s.c();
                },
                [&] { check_all(tid); });
            if (!eq)
                fail("wrong-equality", "boxes of equal values differ");
            // with plain values on either side
            bool w[6];
            attempt(
                fmask(),
                [&] {
                    const B& p = s.s.c();
                    const T& v = d.s.c().get();
                    w[0]       = p == v;
                    w[1]       = p != v;
                    w[2]       = p < v;
                    w[3]       = v == p;
                    w[4]       = v != p;
                    w[5]       = v < p;
                },
                [&] { check_all(tid); });
            if (w[0] != (s.m == d.m) || w[1] == w[0] || w[2] != (s.m < d.m) ||
                w[3] != w[0] || w[4] == w[0] || w[5] != (d.m < s.m))
                fail("wrong-equality", "a box of %u and a value of %u: %d%d%d%d%d%d",
                     s.m, d.m, w[0], w[1], w[2], w[3], w[4], w[5]);
            {
                Sut z;
                if (std::hash<B>{}(s.s.c()) != s.m * 31u + 5)
                    fail("wrong-equality", "the hash of a box is not that of "
                                           "its value");
            }
            break;
        }
        case B_PUB: {
            Mail& m = mb[op.a[0] % NMB];
            Lock l(m.mu);
            {
                Sut q;
                if (how & 1)
                    m.b.s.c() = s.s.c();
                else {
                    m.b.s.c() = std::move(s.s.c());
                }
            }
            m.b.m = s.m;
            if (!(how & 1))
                s.m = GONE;
            break;
        }
        case B_RECV: {
            Mail& m = mb[op.a[0] % NMB];
            {
                Lock l(m.mu);
                if (m.b.m == GONE)
                    break;
                Sut q;
                if (how & 1)
                    s.s.c() = m.b.s.c();
                else {
                    s.s.c() = std::move(m.b.s.c());
                }
                NoSut z;
                s.m = m.b.m;
                if (!(how & 1))
                    m.b.m = GONE;
            }
            break;
        }
        case B_SHARED: {
            BSlot& h = shared[op.a[0] % NSHARED];
            {
                Sut q;
                s.s.c() = h.s.c();
            }
            s.m = h.m;
            break;
        }
        case B_MKATOM: {
            u32 m = s.m;
            attempt(
                fmask(),
                [&] {
                    char* buf = (char*) [&] {
                        NoSut z;
                        return root_alloc(sizeof(A));
                    }();
                    struct G
                    {
                        char* p;
                        A* a = nullptr;
                        ~G()
                        {
                            if (a)
                                a->~A();
                            NoSut z;
                            root_free(p);
                        }
                    } g{buf};
                    g.a  = new (buf) A(s.s.c());
                    B o1 = g.a->exchange(B(id, 0u));
                    B o2 = g.a->update(
                        [&](const T& v) { return T(step(v.get(), id)); });
                    if (o1->get() != m || o2->get() != step(id, id) ||
                        g.a->load()->get() != step(id, id))
                        fail("wrong-content", "a lone atom misbehaves");
                },
                [&] { check_all(tid); });
            break;
        }
        }
        check_all(tid);
    }
};

} // namespace sim

#define ATOM(T, MP) using inst = sim::AtomScenario<T, MP>;
#define ACAT2(a, b) a##b
#define ACAT1(a, b) ACAT2(a, b)
#define ASCN(name, focus, threads)                                             \
    static sim::Reg<inst> ACAT1(areg_, __LINE__)("atom." name, sim::focus,     \
                                                 threads);
