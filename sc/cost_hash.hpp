// what operations of sets, maps and tables cost
#pragma once
#include "cost.hpp"

#include <immer/algorithm.hpp>
#include <immer/map.hpp>
#include <immer/map_transient.hpp>
#include <immer/set.hpp>
#include <immer/set_transient.hpp>
#include <immer/table.hpp>
#include <immer/table_transient.hpp>

#include <algorithm>
#include <set>
#include <vector>

namespace sim {

// every eighth key has a long prefix in common with others
struct CostHash
{
    static u64 of(u32 k)
    {
        u64 z = k + 1;
        z     = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z     = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        z ^= z >> 31;
        if (k % 8 == 0)
            z = (z & ~0xfffffull) | ((k / 8) % 3) * 0x51357ull % 0xfffffull;
        return z;
    }
    size_t operator()(u32 k) const { return of(k); }
};
struct CostRow
{
    u32 id, val;
    bool operator==(const CostRow& o) const
    {
        return id == o.id && val == o.val;
    }
    bool operator!=(const CostRow& o) const { return !(*this == o); }
};
struct CostRowKey
{
    u32 operator()(const CostRow& r) const { return r.id; }
    CostRow operator()(CostRow r, u32 k) const { return {k, r.val}; }
};

template <class MP, unsigned B_>
struct CostSet
{
    using C = immer::set<u32, CostHash, std::equal_to<u32>, MP, B_>;
    using P = MP;
    static constexpr unsigned B  = B_;
    static constexpr bool values = false;
    static u32 make(u32 k, u32) { return k; }
};
template <class MP, unsigned B_>
struct CostMap
{
    using C = immer::map<u32, u32, CostHash, std::equal_to<u32>, MP, B_>;
    using P = MP;
    static constexpr unsigned B  = B_;
    static constexpr bool values = true;
    static std::pair<u32, u32> make(u32 k, u32 v) { return {k, v}; }
};
template <class MP, unsigned B_>
struct CostTab
{
    using C =
        immer::table<CostRow, CostRowKey, CostHash, std::equal_to<u32>, MP, B_>;
    using P = MP;
    static constexpr unsigned B  = B_;
    static constexpr bool values = true;
    static CostRow make(u32 k, u32 v) { return {k, v}; }
};

namespace chop {
enum
{
    FILL,
    COPY,
    INSERT,
    UPDATE,
    ERASE,
    FIND,
    WALK,
    DIFF,
    EQ,
    T_EDIT,
    R_EDIT,
    SPACE,
    THIN,
    NOPS
};
inline const char* names[] = {"fill", "copy", "insert", "update", "erase",
                              "find", "walk", "diff",   "eq",     "t-edit",
                              "r-edit", "space", "thin", nullptr};
} // namespace chop

template <class KD>
struct HashCost : Scenario
{
    using C  = typename KD::C;
    using TR = typename C::transient_type;
    using MP = typename KD::P;
    using Vt = typename C::value_type;
    static constexpr int NS     = 3;
    static constexpr unsigned B = KD::B;
    static constexpr bool gc    = is_gc_v<MP>;
    static constexpr bool rv    = MP::use_transient_rvalues && !gc;
    static constexpr u64 br     = (u64) 1 << B;
    static constexpr u64 node_bytes = br * 8 + br * sizeof(Vt) + 160;
    static constexpr u64 node_work  = 40 + 12 * br;

    C* s_[NS];
    std::set<u32> m_[NS]; // the keys

    explicit HashCost(const char* n)
        : Scenario(n)
    {}
    const char* op_name(int k) override
    {
        return k <= chop::NOPS ? chop::names[k] : nullptr;
    }
    RunShape shape() override
    {
        RunShape s;
        s.fault_mask = FM_ALLOC;
        s.fault_pct  = 40;
        return s;
    }
    void gen(Rng& r, Program& p) override
    {
        using namespace chop;
        p.nth     = 0;
        u32 style = r.below(3);
        u32 n     = r.range(6, 30);
        for (u32 i = 0; i < n; ++i) {
            Op op;
            for (auto& a : op.a)
                a = (u32) r.next();
            op.kind = i == 0 ? FILL : r.below(NOPS);
            if (style == 1 && r.chance(1, 2))
                op.kind = r.chance(1, 2) ? THIN : SPACE;
            p.th[0].push_back(op);
        }
    }
    void setup(const Program&) override
    {
        for (auto& s : s_) {
            s = (C*) root_alloc(sizeof(C));
            Sut q;
            new (s) C();
        }
        for (auto& m : m_)
            m.clear();
    }
    void finish() override
    {
        for (auto& s : s_) {
            {
                Sut q;
                s->~C();
            }
            root_free(s);
        }
        check_leaks();
    }
    // how many nodes there are on the way to a key: one more than the levels
    // on which its hash agrees with the one of another key
    static u64 depth(const std::set<u32>& m, u32 k)
    {
        u64 h = CostHash::of(k), d = 0;
        for (u32 x : m)
            if (x != k) {
                u64 y = CostHash::of(x) ^ h;
                d = std::max<u64>(d, y ? __builtin_ctzll(y) / B : 64 / B + 1);
            }
        return d + 1;
    }
    // how many nodes there are: one for every prefix that two hashes share
    static u64 nodes(const std::set<u32>& m)
    {
        std::vector<u64> h; // in the order of the tree
        for (u32 x : m) {
            u64 y = CostHash::of(x), z = 0;
            for (int i = 0; i < 64; ++i)
                z = z << 1 | (y >> i & 1);
            h.push_back(z);
        }
        std::sort(h.begin(), h.end());
        u64 sum = 1, last = 0;
        for (size_t i = 1; i < h.size(); ++i) {
            u64 y = h[i] ^ h[i - 1];
            // levels below the root that the two have in common
            u64 l = y ? __builtin_clzll(y) / B : (64 + B - 1) / B;
            sum += l - std::min(l, last);
            last = l;
        }
        return sum;
    }
    static void path(const char* what, u64 n, u64 d, const Cost& c, u64 paths)
    {
        d *= paths;
        within(what, n, c, 2 * d + 1, (d + 1) * node_bytes / 2,
               d * node_work / 2 + 100);
    }
    static void constant(const char* what, u64 n, const Cost& c)
    {
        within(what, n, c, 0, 0, 80);
    }
    u32 key(u32 a, u32 b, const std::set<u32>& m)
    {
        if (a % 3 && m.size()) { // one that is there
            auto it = m.lower_bound(b % 4096);
            return it == m.end() ? *m.begin() : *it;
        }
        return a % 5 == 0 ? b % 4096 & ~7u : b % 4096;
    }
    static C insert(const C& c, u32 k, u32 v)
    {
        return c.insert(KD::make(k, v));
    }

    void run_op(int, const Op& op) override
    {
        using namespace chop;
        int si   = op.a[0] % NS, di = op.a[1] % NS;
        C& s     = *s_[si];
        C& d     = *s_[di];
        auto m   = m_[si];
        u64 n    = m.size();
        u32 k    = key(op.a[2], op.a[3], m);
        u32 v    = op.id;
        u64 dep  = depth(m, k);
        const char* nm = names[op.kind];
        C* t     = (C*) root_alloc(sizeof(C));
        auto put = [&](std::set<u32> keys) {
            if (t->size() != keys.size())
                fail("wrong-size", "%llu instead of %llu",
                     (unsigned long long) t->size(),
                     (unsigned long long) keys.size());
            Sut q;
            d = std::move(*t);
            t->~C();
            NoSut z;
            m_[di] = keys;
        };
        auto keep = [&] {
            {
                Sut q;
                new (t) C(d);
            }
            put(std::set<u32>(m_[di]));
        };
        Cost c;
        switch (op.kind) {
        case FILL: {
            u32 cnt = op.a[2] % 8 ? op.a[2] % 200 : op.a[2] % 3000;
            std::set<u32> keys;
            u64 deps = 0;
            {
                Sut q;
                new (t) C();
            }
            for (u32 i = 0; i < cnt; ++i) {
                u32 x = (op.a[3] + i * (1 + op.a[3] % 3)) % 4096;
                C* u  = (C*) root_alloc(sizeof(C));
                c     = measure([&] { new (u) C(insert(*t, x, v)); });
                keys.insert(x);
                if (i % 16 == 0)
                    path(nm, i, depth(keys, x), c, 1);
                (void) deps;
                {
                    Sut q;
                    *t = std::move(*u);
                    u->~C();
                }
                root_free(u);
            }
            put(keys);
            break;
        }
        case COPY: {
            c = measure([&] { new (t) C(s); });
            constant("copy", n, c);
            C* u = (C*) root_alloc(sizeof(C));
            c    = measure([&] { new (u) C(std::move(*t)); });
            constant("move", n, c);
            c = measure([&] {
                t->~C();
                new (t) C();
            });
            constant("new", n, c);
            c = measure([&] { *t = *u; });
            constant("copy assignment", n, c);
            c = measure([&] { u->~C(); });
            constant("release", n, c);
            root_free(u);
            put(m);
            break;
        }
        case INSERT:
            c = measure_try([&] { new (t) C(insert(s, k, v)); });
            path(nm, n, dep, c, 1);
            m.insert(k);
            put(m);
            break;
        case UPDATE:
            if constexpr (KD::values) {
                c = measure_try([&] {
                    if constexpr (std::is_same_v<Vt, CostRow>)
                        new (t) C(s.update(k, [&](CostRow r) {
                            r.val = v;
                            return r;
                        }));
                    else
                        new (t) C(s.update(k, [&](u32) { return v; }));
                });
                path(nm, n, dep, c, 1);
                m.insert(k);
            } else {
                Sut q;
                new (t) C(s);
            }
            put(m);
            break;
        case ERASE: {
            bool was = m.count(k);
            c        = measure_try([&] { new (t) C(s.erase(k)); });
            if (was)
                path(nm, n, dep, c, 1);
            else
                within("erase nothing", n, c, 0, 0, 80 + 40 * dep + 4 * br);
            m.erase(k);
            put(m);
            break;
        }
        case FIND: {
            bool was = m.count(k), got = false;
            c        = measure([&] { got = s.find(k) != nullptr; });
            if (got != was)
                fail("wrong-content", "find(%u) says %d", k, got);
            within("find", n, c, 0, 0, 30 + 12 * dep);
            c = measure([&] { got = s.count(k); });
            within("count", n, c, 0, 0, 30 + 12 * dep);
            c = measure([&] {
                (void) s.size();
                (void) s.empty();
            });
            constant("size", n, c);
            keep();
            break;
        }
        case WALK: {
            u64 x = 0, nds = nodes(m);
            c = measure([&] {
                for (auto& y : s) {
                    (void) y;
                    ++x;
                }
            });
            within("iteration", n, c, 0, 0, 100 + 20 * n + 20 * nds);
            c = measure([&] {
                immer::for_each_chunk(s, [&](auto b, auto e) { x += e - b; });
            });
            within("for_each_chunk", n, c, 0, 0, 100 + 20 * nds);
            keep();
            break;
        }
        case DIFF: {
            // a few changes, then the difference
            u32 cnt = 1 + op.a[1] / NS % 6;
            u64 sum = 1;
            {
                Sut q;
                new (t) C(s);
            }
            for (u32 i = 0; i < cnt; ++i) {
                u32 x = key(op.a[2] + i * 7, op.a[3] + i * 977, m);
                sum += depth(m, x) + 2;
                Sut q;
                if (i % 3 == 2) {
                    *t = t->erase(x);
                    NoSut z;
                    m.erase(x);
                } else {
                    *t = insert(*t, x, v + i);
                    NoSut z;
                    m.insert(x);
                }
            }
            u64 calls = 0;
            c         = measure([&] {
                immer::diff(
                    s, *t, [&](auto&&) { ++calls; }, [&](auto&&) { ++calls; },
                    [&](auto&&, auto&&) { ++calls; });
            });
            within("diff", n, c, 0, 0, 100 + sum * node_work / 2);
            c = measure([&] { calls += s == *t; });
            within("== after changes", n, c, 0, 0, 100 + sum * node_work / 2);
            put(m);
            break;
        }
        case EQ: {
            bool eq = false;
            {
                Sut q;
                new (t) C(s);
            }
            c = measure([&] { eq = s == *t; });
            constant("== of copies", n, c);
            if (!eq)
                fail("wrong-equality", "a copy is not equal");
            put(m);
            break;
        }
        case T_EDIT: {
            TR* w = (TR*) root_alloc(sizeof(TR));
            c     = measure([&] { new (w) TR(s.transient()); });
            within("transient()", n, c, gc, gc * 64, 80);
            u32 cnt = 1 + op.a[1] / NS % 20;
            for (u32 i = 0; i < cnt; ++i) {
                u32 x  = key(op.a[2] + i * 7, op.a[3] + i * 977, m);
                u64 dx = depth(m, x);
                u64 z  = w->size();
                auto v1 = KD::make(x, v + i);
                if ((op.a[2] >> i % 24) % 3 == 0) {
                    c = measure_try([&] { w->erase(x); });
                    path("erase in place", z, dx, c, 1);
                    m.erase(x);
                    c = measure_try([&] { w->erase(x); });
                    within("erase nothing in place", z, c, 0, 0,
                           80 + 40 * dx + 4 * br);
                } else {
                    c = measure_try([&] { w->insert(v1); });
                    path("insert in place", z, dx, c, 1);
                    m.insert(x);
                    // with owner tokens, every edit owns one more level
                    for (u64 j = 0; gc && j <= depth(m, x); ++j) {
                        c = measure_try([&] { w->insert(v1); });
                        path("next insert in place", z, dx, c, 1);
                    }
                    c = measure_try([&] { w->insert(v1); });
                    within("second insert in place", z, c, 0, 0,
                           100 + 40 * dx + 4 * br);
                    if constexpr (KD::values) {
                        c = measure([&] {
                            if constexpr (std::is_same_v<Vt, CostRow>)
                                w->update(x, [&](CostRow r) {
                                    r.val = v;
                                    return r;
                                });
                            else
                                w->update(x, [&](u32) { return v; });
                        });
                        within("second update in place", z, c, 0, 0,
                               100 + 40 * dx + 4 * br);
                    }
                }
            }
            c = measure([&] { new (t) C(w->persistent()); });
            within("persistent()", n, c, gc, gc * 64, 80);
            {
                Sut q;
                w->~TR();
            }
            root_free(w);
            put(m);
            break;
        }
        case R_EDIT: {
            {
                Sut q;
                new (t) C(s);
            }
            u32 cnt = 1 + op.a[1] / NS % 20;
            for (u32 i = 0; i < cnt; ++i) {
                u32 x   = key(op.a[2] + i * 7, op.a[3] + i * 977, m);
                u64 dx  = depth(m, x);
                u64 z   = t->size();
                auto v1 = KD::make(x, v + i);
                if ((op.a[2] >> i % 24) % 3 == 0) {
                    c = measure_try([&] { *t = std::move(*t).erase(x); });
                    c.work /= 2;
                    path("erase of an rvalue", z, dx, c, 1);
                    m.erase(x);
                } else {
                    c = measure_try([&] { *t = std::move(*t).insert(v1); });
                    c.work /= 2;
                    path("insert to an rvalue", z, dx, c, 1);
                    m.insert(x);
                    c = measure_try([&] { *t = std::move(*t).insert(v1); });
                    if (rv)
                        within("second insert to an rvalue", z, c, 0, 0,
                               150 + 40 * dx + 4 * br);
                }
            }
            put(m);
            break;
        }
        case THIN: {
            // erases most of it
            {
                Sut q;
                new (t) C(s);
            }
            u32 keep = op.a[2] % 4;
            std::set<u32> rest;
            for (u32 x : m)
                if (rest.size() < keep && CostHash::of(x * 31) % 3 == 0)
                    rest.insert(x);
                else if (op.a[3] & 1) {
                    Sut q;
                    *t = std::move(*t).erase(x);
                } else {
                    Sut q;
                    *t = t->erase(x);
                }
            put(rest);
            break;
        }
        case SPACE: {
            {
                Sut q;
                new (t) C(s);
            }
            if (gc) {
                put(m);
                break;
            }
            {
                Sut q;
                for (auto p : s_)
                    *p = C{};
            }
            for (auto& x : m_)
                x.clear();
            put(m);
            c       = Cost();
            c.bytes = live_bytes();
            within("space", n, c, 0, nodes(m) * 140 + n * sizeof(Vt) + 200, 0);
            break;
        }
        }
        root_free(t);
    }
};

} // namespace sim

#define COST_HASH(name, KD, ...)                                               \
    static sim::Reg<sim::HashCost<KD<__VA_ARGS__>>> reg_##KD("cost." name);
