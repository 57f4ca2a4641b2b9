// Objects that carry their own reference count (enable_intrusive_ptr): shared
// by pointers of several threads, pointing to each other.
#include "common.hpp"
#include <immer/refcount/enable_intrusive_ptr.hpp>

namespace sim {

namespace ptrop {
enum
{
    NEW,
    COPY,
    MOVE,
    DROP,
    SWAP,
    LINK,
    READ,
    PUB,
    RECV,
    SHARED,
    CLONE,
    NOPS
};
inline const char* names[] = {"new",  "copy", "move",    "drop",    "swap",
                              "link", "read", "publish", "receive", "shared",
                              "clone"};
} // namespace ptrop

// what users get from boost::intrusive_ptr
template <class O>
struct Ptr
{
    O* p = nullptr;
    Ptr() {}
    explicit Ptr(O* o)
        : p(o)
    {
        if (p)
            intrusive_ptr_add_ref(p);
    }
    Ptr(const Ptr& o)
        : Ptr(o.p)
    {}
    Ptr(Ptr&& o) noexcept
        : p(o.p)
    {
        o.p = nullptr;
    }
    Ptr& operator=(Ptr o) noexcept
    {
        std::swap(p, o.p);
        return *this;
    }
    ~Ptr()
    {
        if (p)
            intrusive_ptr_release(p);
    }
};

template <class RC>
struct Obj : immer::enable_intrusive_ptr<Obj<RC>, RC>
{
    Elem<false> e;
    u32 id;
    Ptr<const Obj> next;
    Obj(u32 v, Ptr<const Obj> n)
        : e(v)
        , id(v)
        , next(std::move(n))
    {}
    Obj(const Obj&) = default;
    ~Obj()
    {
        preempt();
        e.good();
        if (e.v != id)
            fail("wrong-content", "an object is destroyed that holds %u, not %u",
                 e.v, id);
    }
};

template <class RC, bool Faulty>
struct PtrScenario : Scenario
{
    using O = Obj<RC>;
    using P = Ptr<const O>;
    static constexpr int NS = 4, NSH = 2, NMB = 2;
    struct Link
    {
        u32 v, obj; // obj tells copies apart
    };
    using Chain = std::vector<Link>; // what a pointer leads to
    struct S
    {
        P p;
        Chain m;
    };
    struct Thread
    {
        S* s = nullptr;
    };
    int maxth, nth = 1;
    Thread th[MAXT];
    S* shared = nullptr;
    S* mb     = nullptr;
    Mutex* mu = nullptr;

    PtrScenario(const char* n, int mt)
        : Scenario(n)
        , maxth(mt)
    {}
    const char* op_name(int k) override
    {
        return k < ptrop::NOPS ? ptrop::names[k] : nullptr;
    }
    RunShape shape() override
    {
        RunShape s;
        s.fault_mask = Faulty ? FM_ALLOC | FM_THROW : 0;
        s.fault_pct  = 90;
        s.est_steps  = 100;
        return s;
    }
    void gen(Rng& r, Program& p) override
    {
        static const int w[] = {5, 4, 2, 4, 1, 4, 3, 4, 5, 3, 2};
        p.nth                = maxth > 1 ? 2 + r.below(maxth - 1) : 1;
        for (int t = 1; t <= p.nth; ++t)
            for (int n = p.nth > 1 ? 2 + r.below(8) : 3 + r.below(25); n--;) {
                Op op;
                int x = r.below(37), k = 0;
                while (x >= w[k])
                    x -= w[k++];
                op.kind = k;
                for (auto& a : op.a)
                    a = r.below(1 << 16);
                p.th[t].push_back(op);
            }
    }
    S* slots(int n)
    {
        S* s = (S*) root_alloc(n * sizeof(S));
        for (int i = 0; i < n; ++i)
            new (s + i) S;
        return s;
    }
    void drop(S* s, int n)
    {
        for (int i = 0; i < n; ++i) {
            {
                Sut q;
                s[i].p = P{};
            }
            s[i].~S();
        }
        root_free(s);
    }
    void make(S& s, u32 id)
    {
        Sut q;
        P p{new O(id, P{})};
        s.p = std::move(p);
        NoSut z;
        s.m = {{id, id}};
    }
    void setup(const Program& p) override
    {
        nth = p.nth;
        set_elem_registry(true);
        shared = slots(NSH);
        mb     = slots(NMB);
        mu     = new Mutex[NMB];
        for (int i = 0; i < NSH; ++i)
            make(shared[i], 900000 + i);
    }
    void thread_begin(int tid) override { th[tid].s = slots(NS); }
    void thread_end(int tid) override
    {
        for (int i = 0; i < NS; ++i)
            check(th[tid].s[i]);
        drop(th[tid].s, NS);
    }
    void finish() override
    {
        for (int i = 0; i < NSH; ++i)
            check(shared[i]);
        for (int i = 0; i < NMB; ++i)
            check(mb[i]);
        drop(shared, NSH);
        drop(mb, NMB);
        delete[] mu;
        if (elem_live())
            fail("leak", "%ld objects nobody points to are left", elem_live());
    }
    void check(S& s)
    {
        Sut q;
        size_t i = 0;
        for (const O* o = s.p.p; o; o = o->next.p, ++i) {
            o->e.good();
            if (i >= s.m.size() || o->id != s.m[i].v || o->e.v != s.m[i].v)
                fail("wrong-content", "object %zu of %zu is %u", i, s.m.size(),
                     o->id);
            note(o->id);
        }
        if (i != s.m.size())
            fail("wrong-content", "%zu objects of %zu", i, s.m.size());
    }
    // with one thread, exactly those objects live that something points to
    void count()
    {
        if (nth != 1)
            return;
        std::vector<u32> ids;
        auto add = [&](S* s, int n) {
            for (int i = 0; i < n; ++i)
                for (auto& l : s[i].m)
                    ids.push_back(l.obj);
        };
        add(th[1].s, NS);
        add(shared, NSH);
        add(mb, NMB);
        std::sort(ids.begin(), ids.end());
        long n = std::unique(ids.begin(), ids.end()) - ids.begin();
        if (elem_live() != n)
            fail("wrong-lifetime", "%ld objects live, %ld are pointed to",
                 elem_live(), n);
    }
    void run_op(int tid, const Op& op) override
    {
        using namespace ptrop;
        S& s   = th[tid].s[op.a[0] % NS];
        S& d   = th[tid].s[op.a[1] % NS];
        u32 id = (u32) op.id + 1;
        auto put = [&](S& to, S& from, bool move) {
            Sut q;
            if (move) {
                to.p = std::move(from.p);
                if (&to != &from)
                    from.p = P{};
            } else if (op.a[2] & 1)
                to.p = from.p;
            else {
                P c{from.p};
                to.p = std::move(c);
            }
        };
        auto mput = [&](S& to, S& from, bool move) {
            if (&to == &from)
                return;
            to.m = from.m;
            if (move)
                from.m.clear();
        };
        switch (op.kind) {
        case NEW:
        case LINK: {
            // LINK: a new object that points to what s does
            alignas(P) char buf[sizeof(P)];
            P* out = (P*) buf;
            bool l = op.kind == LINK && s.m.size() < 8;
            attempt(
                Faulty ? FM_ALLOC | FM_THROW : 0,
                [&] { new (out) P{new O(id, l ? s.p : P{})}; },
                [&] {
                    check(s);
                    count();
                });
            {
                Sut q;
                d.p = std::move(*out);
                out->~P();
            }
            Chain c{{id, id}};
            if (l)
                c.insert(c.end(), s.m.begin(), s.m.end());
            d.m = c;
            break;
        }
        case CLONE: {
            // an object that is a copy of another
            if (s.m.empty())
                break;
            alignas(P) char buf[sizeof(P)];
            P* out = (P*) buf;
            attempt(
                Faulty ? FM_ALLOC | FM_THROW : 0,
                [&] { new (out) P{new O(*s.p.p)}; },
                [&] {
                    check(s);
                    count();
                });
            {
                Sut q;
                d.p = std::move(*out);
                out->~P();
            }
            if (&d != &s)
                d.m = s.m;
            d.m[0].obj = id;
            break;
        }
        case COPY:
            put(d, s, false);
            mput(d, s, false);
            break;
        case MOVE:
            put(d, s, true);
            mput(d, s, true);
            break;
        case DROP: {
            Sut q;
            s.p = P{};
            NoSut z;
            s.m.clear();
            break;
        }
        case SWAP: {
            Sut q;
            std::swap(s.p, d.p);
            NoSut z;
            std::swap(s.m, d.m);
            break;
        }
        case READ: check(s); break;
        case PUB: {
            S& b = mb[op.a[1] % NMB];
            Lock l(mu[op.a[1] % NMB]);
            put(b, s, op.a[2] & 2);
            mput(b, s, op.a[2] & 2);
            break;
        }
        case RECV: {
            S& b = mb[op.a[0] % NMB];
            Lock l(mu[op.a[0] % NMB]);
            put(d, b, op.a[2] & 2);
            mput(d, b, op.a[2] & 2);
            break;
        }
        case SHARED: {
            S& b = shared[op.a[0] % NSH];
            put(d, b, false);
            mput(d, b, false);
            break;
        }
        }
        check(d);
        count();
    }
};

static Reg<PtrScenario<immer::refcount_policy, false>> p1("ptr.count.all", 1);
static Reg<PtrScenario<immer::refcount_policy, false>> p2("ptr.count.share", 4);
static Reg<PtrScenario<immer::refcount_policy, true>> p3("ptr.count.fault", 3);
static Reg<PtrScenario<immer::unsafe_refcount_policy, true>>
    p4("ptr.unsafe.fault", 1);
} // namespace sim
