// what in-place operations cost while other threads let go of the value, and
// once they have
#include "cost.hpp"

#include <immer/box.hpp>
#include <immer/map.hpp>
#include <immer/map_transient.hpp>
#include <immer/table.hpp>
#include <immer/table_transient.hpp>

namespace sim {

struct ShHash
{
    size_t operator()(u32 k) const
    {
        return k % 7 == 0 ? k * 0x9e3779b97f4a7c15ull
                          : (k / 3 * 0x9e3779b97f4a7c15ull | 0xfff);
    }
};
struct ShFlex
{
    using C = immer::flex_vector<u32, mp_basic, 2, 2>;
    static C build(u32 n, u32 x)
    {
        C c;
        for (u32 i = 0; i < n; ++i)
            if (i && i % 13 == x % 13) {
                // relaxed, and nothing in it twice
                C d;
                for (u32 j = 0; j < 3 + x % 9; ++j)
                    d = std::move(d).push_back(j);
                c = (x & 1 ? c + d : d + c).drop(2);
            } else
                c = std::move(c).push_back(i);
        return c;
    }
    static u32 get(const C& c, u32 i) { return c[i % c.size()]; }
    static C set(C&& c, u32 i, u32 v)
    {
        auto n = c.size();
        return v & 1 ? std::move(c).set(i % n, v)
                     : std::move(c).update(i % n, [&](u32) { return v; });
    }
    template <class TR>
    static void tset(TR& c, u32 i, u32 v)
    {
        if (v & 1)
            c.set(i % c.size(), v);
        else
            c.update(i % c.size(), [&](u32) { return v; });
    }
};
struct ShVec : ShFlex
{
    using C = immer::vector<u32, mp_sized, 3, 1>;
    static C build(u32 n, u32)
    {
        C c;
        for (u32 i = 0; i < n; ++i)
            c = std::move(c).push_back(i);
        return c;
    }
    static u32 get(const C& c, u32 i) { return c[i % c.size()]; }
    static C set(C&& c, u32 i, u32 v)
    {
        auto n = c.size();
        return v & 1 ? std::move(c).set(i % n, v)
                     : std::move(c).update(i % n, [&](u32) { return v; });
    }
};
struct ShArr : ShFlex
{
    using C = immer::array<u32, mp_basic>;
    static C build(u32 n, u32 x)
    {
        C c;
        for (u32 i = 0; i < n; ++i)
            c = x & 1 ? c.push_back(i) : std::move(c).push_back(i);
        return c;
    }
    static u32 get(const C& c, u32 i) { return c[i % c.size()]; }
    static C set(C&& c, u32 i, u32 v)
    {
        auto n = c.size();
        return v & 1 ? std::move(c).set(i % n, v)
                     : std::move(c).update(i % n, [&](u32) { return v; });
    }
};
struct ShMap
{
    using C = immer::map<u32, u32, ShHash, std::equal_to<u32>, mp_basic, 3>;
    static C build(u32 n, u32 x)
    {
        C c;
        for (u32 i = 0; i < n; ++i)
            c = x & 1 ? c.set(i, i) : std::move(c).set(i, i);
        return c;
    }
    static u32 get(const C& c, u32 i) { return c[i % c.size()]; }
    static C set(C&& c, u32 i, u32 v)
    {
        auto n = c.size();
        return v & 1 ? std::move(c).set(i % n, v)
                     : std::move(c).update(i % n, [&](u32) { return v; });
    }
    template <class TR>
    static void tset(TR& c, u32 i, u32 v)
    {
        if (v & 1)
            c.set(i % c.size(), v);
        else
            c.update_if_exists(i % c.size(), [&](u32) { return v; });
    }
};
struct ShRow
{
    u32 id, val;
};
struct ShRowKey
{
    u32 operator()(const ShRow& r) const { return r.id; }
    ShRow operator()(ShRow r, u32 k) const { return {k, r.val}; }
};
struct ShTab
{
    using C = immer::table<ShRow, ShRowKey, ShHash, std::equal_to<u32>,
                           mp_sized, 4>;
    static C build(u32 n, u32)
    {
        C c;
        for (u32 i = 0; i < n; ++i)
            c = std::move(c).insert(ShRow{i, i});
        return c;
    }
    static u32 get(const C& c, u32 i) { return c[i % c.size()].val; }
    static C set(C&& c, u32 i, u32 v)
    {
        auto n = (u32) c.size();
        return v & 1 ? std::move(c).insert(ShRow{i % n, v})
                     : std::move(c).update(i % n, [&](ShRow r) {
                           r.val = v;
                           return r;
                       });
    }
    template <class TR>
    static void tset(TR& c, u32 i, u32 v)
    {
        auto n = (u32) c.size();
        if (v & 1)
            c.insert(ShRow{i % n, v});
        else
            c.update(i % n, [&](ShRow r) {
                r.val = v;
                return r;
            });
    }
};
struct ShBox
{
    using C = immer::box<u32, mp_basic>;
    static C build(u32 n, u32) { return C{n}; }
    static u32 get(const C& c, u32) { return *c; }
    static C set(C&& c, u32, u32 v)
    {
        return std::move(c).update([&](u32) { return v; });
    }
};

template <class C, class = void>
struct TransientOf
{
    using type = char;
};
template <class C>
struct TransientOf<C, std::void_t<typename C::transient_type>>
{
    using type = typename C::transient_type;
};

template <class A>
struct ShareCost : Scenario
{
    using C                     = typename A::C;
    using TR                    = typename TransientOf<C>::type;
    static constexpr bool trans = !std::is_same_v<TR, char>;
    enum
    {
        READ,
        COPY,
        DROP,
        EDIT,
        NOPS
    };
    C* h_[MAXT];
    TR* t_;
    bool gone[MAXT];
    int nth;
    bool in_transient;
    Mutex* mu;

    explicit ShareCost(const char* n)
        : Scenario(n)
    {
    }
    const char* op_name(int k) override
    {
        static const char* names[] = {
            "read", "copy", "drop", "edit", nullptr};
        return k <= NOPS ? names[k] : nullptr;
    }
    RunShape shape() override
    {
        RunShape s;
        s.est_steps = 200;
        return s;
    }
    void gen(Rng& r, Program& p) override
    {
        p.nth    = r.range(2, 4);
        p.cfg[0] = r.below(20) ? 1 + r.below(60) : 1 + r.below(400);
        p.cfg[1] = (u32) r.next();
        p.cfg[2] = trans && r.chance(1, 2);
        for (int t = 1; t <= p.nth; ++t) {
            u32 n = t == 1 ? r.range(2, 8) : r.range(1, 4);
            for (u32 i = 0; i < n; ++i) {
                Op op;
                for (auto& a : op.a)
                    a = (u32) r.next();
                op.kind = t == 1       ? r.chance(5, 6) ? EDIT : READ
                          : i + 1 == n ? DROP
                                       : r.below(2);
                p.th[t].push_back(op);
            }
        }
    }
    void setup(const Program& p) override
    {
        nth          = p.nth;
        in_transient = trans && p.cfg[2];
        mu           = new Mutex;
        t_           = nullptr;
        for (auto& g : gone)
            g = false;
        for (int t = 1; t <= nth; ++t) {
            gone[t] = t == 1;
            h_[t]   = (C*) root_alloc(sizeof(C));
            Sut q;
            if (t == 1)
                new (h_[t]) C(A::build(p.cfg[0], p.cfg[1]));
            else
                new (h_[t]) C(*h_[1]);
        }
        if constexpr (trans)
            if (in_transient) {
                t_ = (TR*) root_alloc(sizeof(TR));
                Sut q;
                new (t_) TR(std::move(*h_[1]).transient());
                *h_[1] = C();
            }
    }
    void run_op(int tid, const Op& op) override
    {
        C& c = *h_[tid];
        switch (op.kind) {
        case READ: {
            if ((tid == 1 && in_transient) || (tid > 1 && gone[tid]))
                break;
            Sut q;
            (void) A::get(c, op.a[0]);
            break;
        }
        case COPY:
            if (tid > 1 && !gone[tid]) {
                C* d = (C*) root_alloc(sizeof(C));
                {
                    Sut q;
                    new (d) C(c);
                    (void) A::get(*d, op.a[0]);
                    d->~C();
                }
                root_free(d);
            }
            break;
        case DROP:
            if (tid > 1 && !gone[tid]) {
                {
                    Sut q;
                    c = C();
                }
                Lock l(*mu);
                gone[tid] = true;
            }
            break;
        case EDIT:
            if (tid == 1) {
                bool own = true;
                {
                    Lock l(*mu);
                    for (int t = 1; t <= nth; ++t)
                        own = own && gone[t];
                }
                for (int j = 0; j < 2; ++j) {
                    u32 i  = op.a[0], v = op.a[1] + j;
                    Cost k = measure([&] {
                        if constexpr (trans) {
                            if (in_transient)
                                A::tset(*t_, i, v);
                            else
                                c = A::set(std::move(c), i, v);
                        } else
                            c = A::set(std::move(c), i, v);
                    });
                    if (own)
                        within("edit in place of what others let go",
                               0,
                               k,
                               0,
                               0,
                               400);
                    else
                        within("edit in place of what others may hold",
                               0,
                               k,
                               32,
                               32768,
                               8000);
                }
                probe(own ? "edit.alone" : "edit.shared");
            }
            break;
        }
    }
    void finish() override
    {
        delete mu;
        if constexpr (trans)
            if (t_) {
                {
                    Sut q;
                    t_->~TR();
                }
                root_free(t_);
            }
        for (int t = 1; t <= nth; ++t) {
            {
                Sut q;
                h_[t]->~C();
            }
            root_free(h_[t]);
        }
        check_leaks();
    }
};

} // namespace sim
using namespace sim;
static Reg<ShareCost<ShFlex>> r1("cost.steal.flex");
static Reg<ShareCost<ShVec>> r2("cost.steal.vec");
static Reg<ShareCost<ShArr>> r3("cost.steal.arr");
static Reg<ShareCost<ShMap>> r4("cost.steal.map");
static Reg<ShareCost<ShTab>> r5("cost.steal.table");
static Reg<ShareCost<ShBox>> r6("cost.steal.box");
