// what operations cost: allocations, bytes asked for and memory accesses of
// every single operation, against bounds that follow from the documented
// complexities.  Values are huge and share structure, so that an operation
// that is linear in anything stands out.
#pragma once
#include "common.hpp"

#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#include <immer/flex_vector.hpp>
#include <immer/flex_vector_transient.hpp>
#include <immer/vector.hpp>
#include <immer/vector_transient.hpp>

#include <algorithm>
#include <cstdio>
#include <cstdlib>

namespace sim {

struct Cost
{
    u64 work = 0, allocs = 0, bytes = 0;
    Cost& operator+=(const Cost& o)
    {
        work += o.work;
        allocs += o.allocs;
        bytes += o.bytes;
        return *this;
    }
};
template <class F>
Cost measure(F&& f)
{
    Cost c;
    Sut q;
    u64 w = my_work(), a = my_allocs(), b = my_bytes();
    f();
    c.work   = my_work() - w;
    c.allocs = my_allocs() - a;
    c.bytes  = my_bytes() - b;
    return c;
}
// the same for operations that may fail and are then tried again: no attempt
// may cost more than the operation may
template <class F>
Cost measure_try(F&& f)
{
    Cost c, worst;
    auto begin = [&] {
        c.work   = my_work();
        c.allocs = my_allocs();
        c.bytes  = my_bytes();
    };
    u64 div  = 2; // undoing things takes work as well
    auto end = [&] {
        worst.work   = std::max(worst.work, (my_work() - c.work) / div);
        worst.allocs = std::max(worst.allocs, my_allocs() - c.allocs);
        worst.bytes  = std::max(worst.bytes, my_bytes() - c.bytes);
    };
    begin();
    attempt(FM_ALLOC, f, [&] {
        end();
        begin();
    });
    div = 1;
    end();
    return worst;
}
inline void
within(const char* what, u64 n, const Cost& c, u64 allocs, u64 bytes, u64 work)
{
    static const bool cal = getenv("SIM_CAL");
    if (cal)
        fprintf(stderr,
                "CAL %s n=%llu a=%llu/%llu %.3f b=%.3f w=%llu/%llu %.3f\n",
                what,
                (unsigned long long) n,
                (unsigned long long) c.allocs,
                (unsigned long long) allocs,
                allocs ? double(c.allocs) / allocs : 0.,
                bytes ? double(c.bytes) / bytes : 0.,
                (unsigned long long) c.work,
                (unsigned long long) work,
                work ? double(c.work) / work : 0.);
    else if (c.allocs > allocs)
        fail("too-many-allocations",
             "%s: %llu allocations, at size %llu no more than %llu are due",
             what,
             (unsigned long long) c.allocs,
             (unsigned long long) n,
             (unsigned long long) allocs);
    else if (c.bytes > bytes)
        fail("too-much-memory",
             "%s: %llu bytes, at size %llu no more than %llu are due",
             what,
             (unsigned long long) c.bytes,
             (unsigned long long) n,
             (unsigned long long) bytes);
    else if (c.work > work)
        fail("too-much-work",
             "%s: %llu accesses to memory, at size %llu no more than %llu are "
             "due",
             what,
             (unsigned long long) c.work,
             (unsigned long long) n,
             (unsigned long long) work);
}

// ------------------------------------------------------------- sequences
namespace cop {
enum
{
    RANGE,
    COPY,
    DOUBLE,
    CONCAT,
    TAKE,
    DROP,
    SET,
    UPDATE,
    PUSH,
    PUSH_FRONT,
    INSERT,
    INSERT_V,
    ERASE,
    ERASE_R,
    READ,
    WALK,
    EQ,
    T_SET,
    T_PUSH,
    T_MIX,
    R_SET,
    R_MIX,
    SPACE,
    NOPS
};
inline const char* names[] = {
    "range",  "copy",    "double", "concat",     "take",   "drop",
    "set",    "update",  "push",   "push-front", "insert", "insert-v",
    "erase",  "erase-r", "read",   "walk",       "eq",     "t-set",
    "t-push", "t-mix",   "r-set",  "r-mix",      "space",  nullptr};
} // namespace cop

template <class T>
struct NumIt
{
    using value_type        = T;
    using difference_type   = std::ptrdiff_t;
    using reference         = T;
    using pointer           = const T*;
    using iterator_category = std::forward_iterator_tag;
    u32 i;
    T operator*() const { return ET<T>::make(i); }
    NumIt& operator++()
    {
        ++i;
        return *this;
    }
    NumIt operator++(int) { return NumIt{i++}; }
    bool operator==(const NumIt& o) const { return i == o.i; }
    bool operator!=(const NumIt& o) const { return i != o.i; }
};

template <class C, class MP, bool Flex, unsigned B, unsigned BL>
struct SeqCost : Scenario
{
    using T                  = typename C::value_type;
    using TR                 = typename C::transient_type;
    using E                  = ET<T>;
    static constexpr int NS  = 3;
    static constexpr bool gc = is_gc_v<MP>;
    static constexpr bool rv = MP::use_transient_rvalues && !gc;
    static constexpr u64 lim = !Flex   ? (u64) 1 << 16
                               : B < 3 ? (u64) 1 << 31
                                       : (u64) 1 << 40;

    C* s_[NS];

    explicit SeqCost(const char* n)
        : Scenario(n)
    {
    }
    const char* op_name(int k) override
    {
        return k <= cop::NOPS ? cop::names[k] : nullptr;
    }
    RunShape shape() override
    {
        RunShape s;
        s.fault_mask = FM_ALLOC;
        s.fault_pct  = 40;
        s.est_steps  = 300;
        return s;
    }
    void gen(Rng& r, Program& p) override
    {
        using namespace cop;
        p.nth     = 0;
        u32 style = r.below(4);
        u32 n     = r.range(6, 40);
        for (u32 i = 0; i < n; ++i) {
            Op op;
            for (auto& a : op.a)
                a = (u32) r.next();
            for (;;) {
                op.kind = i == 0 ? RANGE : r.below(NOPS);
                if (style == 1 && r.chance(1, 2)) // many small joins
                    op.kind = r.chance(2, 3) ? CONCAT : RANGE;
                if (style == 2 && r.chance(1, 2))
                    op.kind = r.chance(1, 2) ? INSERT_V : DROP;
                if (style == 3 && r.chance(1, 2))
                    op.kind = r.chance(1, 2) ? DOUBLE : PUSH;
                if (Flex || (op.kind != DOUBLE && op.kind != CONCAT &&
                             op.kind != DROP && op.kind != PUSH_FRONT &&
                             op.kind != INSERT && op.kind != INSERT_V &&
                             op.kind != ERASE && op.kind != ERASE_R))
                    break;
            }
            p.th[0].push_back(op);
        }
    }
    void setup(const Program&) override
    {
        peak = 0;
        for (auto& s : s_) {
            s = (C*) root_alloc(sizeof(C));
            Sut q;
            new (s) C();
        }
    }
    void finish() override
    {
        for (auto& s : s_) {
            {
                Sut q;
                s->~C();
            }
            root_free(s);
        }
        check_leaks();
    }

    // ---- bounds -------------------------------------------------------
    // levels of a full tree of n elements
    static u64 levels(u64 n)
    {
        u64 d = 1;
        for (unsigned s = BL; s < 64 && (n >> s) > 1; s += B)
            ++d;
        return d;
    }
    // no tree is much taller, except what is left of taller ones
    u64 peak = 0;
    u64 max_height(u64 n)
    {
        peak = std::max(peak, n);
        return levels(peak) * 2 + 5;
    }
    template <class X>
    auto height_of(X& x, int) -> decltype((u64) x.impl().shift)
    {
        u64 h = ((u64) x.impl().shift - BL) / B + 1;
        if (h > max_height(x.size()))
            fail("too-tall",
                 "%llu levels hold %llu elements",
                 (unsigned long long) h,
                 (unsigned long long) x.size());
        return h;
    }
    template <class X>
    u64 height_of(X& x, long)
    {
        return max_height(x.size());
    }
    template <class X>
    u64 height(X& x)
    {
        return height_of(x, 0);
    }
    static constexpr u64 br = (u64) 1 << B, lf = (u64) 1 << BL;
    static constexpr u64 node_bytes =
        (br * 16 + 96 > lf * sizeof(T) + 64 ? br * 16 + 96
                                            : lf * sizeof(T) + 64);
    // accesses for looking at or making all of a node
    static constexpr u64 node_work = 24 + 8 * br + 4 * lf;

    static void path(const char* what, u64 n, u64 h, const Cost& c, u64 paths)
    {
        h = (h + 1) * paths;
        within(
            what, n, c, 2 * h + 2, (h + 2) * node_bytes, h * node_work + 100);
    }
    static void wide(const char* what, u64 n, u64 h, const Cost& c, u64 joins)
    {
        h = (h + 1) * joins * (br / 2 + 2);
        within(what,
               n,
               c,
               2 * h + 4,
               (h + 4) * node_bytes,
               h * node_work * 3 + 200);
    }
    static void constant(const char* what, u64 n, const Cost& c)
    {
        within(what, n, c, 0, 0, 80);
    }
    static u64 pick(u32 a, u32 b, u64 n)
    {
        if (!n)
            return 0;
        u64 x = ((u64) a << 32 | b);
        switch (a % 5) {
        case 0:
            return x % n;
        case 1:
            return n - 1 - (b % 70) % n;
        case 2:
            return (b % 70) % n;
        case 3: {
            u64 p = (u64) 1 << (b % 41);
            p += (a >> 8) % 5;
            p -= p > 2 ? 2 : 0;
            return p % n;
        }
        default:
            return x % n;
        }
    }
    template <class X>
    u64 tallest(X& x)
    {
        u64 h = height(x);
        for (auto p : s_)
            h = std::max(h, height(*p));
        return h;
    }
    template <class F>
    void derive(C& d,
                F&& f,
                void (*bound)(const char*, u64, u64, const Cost&, u64),
                u64 k,
                const char* what)
    {
        C* t   = (C*) root_alloc(sizeof(C));
        Cost c = measure_try([&] { new (t) C(f()); });
        u64 n  = t->size();
        bound(what, n, tallest(*t), c, k);
        c = measure([&] {
            using std::swap;
            swap(d, *t);
        });
        constant("swap", n, c);
        {
            Sut q;
            t->~C();
        }
        root_free(t);
    }

    void run_op(int, const Op& op) override
    {
        using namespace cop;
        C& s           = *s_[op.a[0] % NS];
        C& d           = *s_[op.a[1] % NS];
        C& k           = *s_[(op.a[0] >> 8) % NS];
        u64 n          = s.size();
        u64 i          = pick(op.a[2], op.a[3], n);
        T v            = E::make((u32) op.id * 100);
        const char* nm = names[op.kind];
        switch (op.kind) {
        case RANGE: {
            u32 m = op.a[2] % (op.a[3] % 4 ? 4 * lf + 3 : 5 * lf * br);
            if (op.a[3] % 16 == 1)
                m = op.a[2] % 4000;
            C* t   = (C*) root_alloc(sizeof(C));
            Cost c = measure([&] { new (t) C(NumIt<T>{0}, NumIt<T>{m}); });
            u64 nd = m / lf + 1;
            nd += nd / (br - 1) + 1 + levels(m);
            within(nm,
                   m,
                   c,
                   nd + 4,
                   (nd + 4) * node_bytes,
                   200 + (u64) m * 60 + nd * node_work);
            {
                Sut q;
                d = std::move(*t);
                t->~C();
            }
            root_free(t);
            break;
        }
        case COPY: {
            C* t   = (C*) root_alloc(sizeof(C));
            Cost c = measure([&] { new (t) C(s); });
            constant("copy", n, c);
            C* u = (C*) root_alloc(sizeof(C));
            c    = measure([&] { new (u) C(std::move(*t)); });
            constant("move", n, c);
            c = measure([&] {
                t->~C();
                new (t) C();
            });
            constant("new", n, c);
            c = measure([&] { *t = *u; });
            constant("copy assignment", n, c);
            c = measure([&] {
                u->~C(); // not the last holder
            });
            constant("release", n, c);
            {
                Sut q;
                d = std::move(*t);
                t->~C();
            }
            root_free(t);
            root_free(u);
            break;
        }
        case DOUBLE:
            if constexpr (Flex) {
                u32 times = op.a[2] % 24;
                while (times-- && s.size() && 2 * s.size() <= lim)
                    derive(s, [&] { return s + s; }, wide, 1, nm);
            }
            break;
        case CONCAT:
            if constexpr (Flex)
                if (n + k.size() <= lim) {
                    derive(d, [&] { return s + k; }, wide, 1, nm);
                }
            break;
        case TAKE:
            derive(d, [&] { return s.take(n - i); }, path, 1, nm);
            break;
        case DROP:
            if constexpr (Flex)
                derive(d, [&] { return s.drop(i); }, path, 1, nm);
            break;
        case SET:
            if (n)
                derive(d, [&] { return s.set(i, v); }, path, 1, nm);
            break;
        case UPDATE:
            if (n)
                derive(
                    d,
                    [&] { return s.update(i, [&](auto&&) { return v; }); },
                    path,
                    1,
                    nm);
            break;
        case PUSH: {
            u32 m = 1 + op.a[2] % 12;
            while (m-- && s.size() < lim)
                derive(s, [&] { return s.push_back(v); }, path, 1, nm);
            break;
        }
        case PUSH_FRONT:
            if constexpr (Flex) {
                u32 m = 1 + op.a[2] % 12;
                while (m-- && s.size() < lim)
                    derive(s, [&] { return s.push_front(v); }, wide, 1, nm);
            }
            break;
        case INSERT:
            if constexpr (Flex)
                if (n < lim)
                    derive(d, [&] { return s.insert(i, v); }, wide, 2, nm);
            break;
        case INSERT_V:
            if constexpr (Flex)
                if (n + k.size() <= lim) {
                    derive(d, [&] { return s.insert(i, k); }, wide, 2, nm);
                }
            break;
        case ERASE:
            if constexpr (Flex)
                if (n)
                    derive(d, [&] { return s.erase(i); }, wide, 1, nm);
            break;
        case ERASE_R:
            if constexpr (Flex) {
                u64 j = i + pick(op.a[1], op.a[2], n - i + 1);
                derive(d, [&] { return s.erase(i, j); }, wide, 1, nm);
            }
            break;
        case READ: {
            Cost c;
            c = measure([&] {
                (void) s.size();
                (void) s.empty();
                (void) s.identity();
                (void) s.begin();
            });
            constant("size", n, c);
            if (n) {
                c = measure([&] { (void) E::get(s[i]); });
                within("index", n, c, 0, 0, 40 + 24 * height(s));
                c = measure([&] { (void) E::get(s.at(i)); });
                within("at", n, c, 0, 0, 40 + 24 * height(s));
                c = measure([&] {
                    (void) E::get(s.front());
                    (void) E::get(s.back());
                });
                within("front, back", n, c, 0, 0, 80 + 48 * height(s));
                c = measure([&] {
                    auto it = s.begin() + (std::ptrdiff_t) i;
                    (void) E::get(*it);
                });
                within("a jump", n, c, 0, 0, 150 + 30 * height(s));
            }
            break;
        }
        case WALK: {
            if (n > 20000)
                break;
            u64 h = height(s), x = 0;
            u64 leaves = 0;
            Cost c     = measure([&] {
                immer::for_each_chunk(s, [&](auto b, auto e) {
                    ++leaves;
                    for (; b != e; ++b)
                        x += E::get(*b);
                });
            });
            within("for_each_chunk",
                   n,
                   c,
                   0,
                   0,
                   200 + 10 * n + (2 * leaves + h) * (12 + 4 * br));
            c = measure([&] {
                for (auto& y : s)
                    x += E::get(y);
            });
            within("iteration",
                   n,
                   c,
                   0,
                   0,
                   300 + 40 * n + (leaves + 4) * (25 * h + 25));
            break;
        }
        case EQ: {
            C* t = (C*) root_alloc(sizeof(C));
            {
                Sut q;
                new (t) C(s);
            }
            bool eq = false;
            Cost c  = measure([&] { eq = *t == s; });
            within("== of copies", n, c, 0, 0, 80);
            if (n && !Flex) {
                {
                    Sut q;
                    *t = s.set(i, E::of(E::get(s[i])));
                }
                c = measure([&] { eq = *t == s; });
                if (!eq)
                    fail("wrong-equality",
                         "after setting an element to what "
                         "it was");
                within("== after set",
                       n,
                       c,
                       0,
                       0,
                       200 + 2 * height(s) * node_work + 20 * lf);
            }
            {
                Sut q;
                t->~C();
            }
            root_free(t);
            break;
        }
        case T_SET:
        case T_PUSH:
        case T_MIX: {
            TR* t  = (TR*) root_alloc(sizeof(TR));
            Cost c = measure([&] { new (t) TR(s.transient()); });
            // may need an owner token
            within("transient()", n, c, gc, gc * 64, 80);
            u32 cnt = 2 + op.a[1] % 40;
            if (op.kind == T_SET && n) {
                c = measure_try([&] { t->set(i, v); });
                path("first set in place", n, tallest(*t), c, 1);
                c = measure_try([&] { t->set(i, v); });
                within("second set in place", n, c, 0, 0, 100 + 40 * height(s));
                c = measure([&] { t->update(i, [&](auto&&) { return v; }); });
                within(
                    "second update in place", n, c, 0, 0, 100 + 40 * height(s));
                u64 j = i ^ 1; // same leaf, unless the tree is relaxed
                if (j < n) {
                    c = measure_try([&] { t->set(j, v); });
                    path("set in place", n, tallest(*t), c, 1);
                }
            } else if (op.kind == T_PUSH && n + cnt <= lim) {
                Cost sum;
                for (u32 j = 0; j < cnt; ++j) {
                    c = measure_try([&] { t->push_back(v); });
                    path("push in place", n + j, tallest(*t), c, 1);
                    sum += c;
                }
                // full leaves, and now and then an inner node
                u64 nd = cnt / lf + 1;
                nd += nd / (br - 1) + 1;
                u64 h = tallest(*t);
                within("pushes in place",
                       n,
                       sum,
                       2 * (nd + h) + 2,
                       (nd + 2 * h + 2) * node_bytes,
                       (nd + 2 * h) * node_work + cnt * 150 + 100);
            } else if (op.kind == T_MIX) {
                u32 h = op.a[2];
                for (u32 j = 0; j < cnt; ++j) {
                    h     = h * 1664525u + 1013904223u;
                    u64 m = t->size();
                    u64 q = pick(h >> 16, h * 40503u, m);
                    switch ((h >> 9) % 5) {
                    case 0:
                        c      = measure_try([&] { t->take(m - q); });
                        c.work = 0; // releases what it alone holds
                        path("take in place", m, tallest(*t), c, 2);
                        break;
                    case 1:
                        if constexpr (Flex) {
                            c = measure_try([&] { t->drop(q); });
                            // releases what it alone holds
                            c.work = 0;
                            path("drop in place", m, tallest(*t), c, 2);
                        }
                        break;
                    case 2:
                        if constexpr (Flex)
                            if (m + k.size() <= lim) {
                                TR* u = (TR*) root_alloc(sizeof(TR));
                                {
                                    Sut q;
                                    new (u) TR(k.transient());
                                }
                                u64 x   = m > k.size() ? m : k.size();
                                bool ap = h & 128, mv = h & 64;
                                c = measure([&] {
                                    if (ap && mv)
                                        t->append(std::move(*u));
                                    else if (ap)
                                        t->append(*u);
                                    else if (mv)
                                        t->prepend(std::move(*u));
                                    else
                                        t->prepend(*u);
                                });
                                wide("append in place", x, tallest(*t), c, 1);
                                {
                                    Sut q;
                                    u->~TR();
                                }
                                root_free(u);
                            }
                        break;
                    case 3:
                        c = measure_try([&] { t->push_back(v); });
                        path("push in place", m, tallest(*t), c, 1);
                        break;
                    default:
                        if (m) {
                            c = measure_try([&] { t->set(q, v); });
                            path("set in place", m, tallest(*t), c, 1);
                            c = measure_try([&] { t->set(q, v); });
                            within("second set in place",
                                   m,
                                   c,
                                   0,
                                   0,
                                   100 + 40 * tallest(*t));
                        }
                    }
                }
            }
            C* r = (C*) root_alloc(sizeof(C));
            c    = measure([&] { new (r) C(t->persistent()); });
            within("persistent()", n, c, gc, gc * 64, 80);
            {
                Sut q;
                t->~TR();
                d = std::move(*r);
                r->~C();
            }
            root_free(r);
            root_free(t);
            break;
        }
        case R_SET:
        case R_MIX: { // the work of releasing what was replaced is in it
            C* t = (C*) root_alloc(sizeof(C));
            {
                Sut q;
                new (t) C(s);
            }
            if (op.kind == R_SET && n) {
                Cost c = measure([&] { *t = std::move(*t).set(i, v); });
                c.work /= 2;
                path("first set of an rvalue", n, tallest(*t), c, 1);
                for (int j = 0; j < 2; ++j) {
                    c = measure([&] {
                        if (j)
                            *t = std::move(*t).update(
                                i, [&](auto&&) { return v; });
                        else
                            *t = std::move(*t).set(i, v);
                    });
                    if (rv)
                        within("second set of an rvalue",
                               n,
                               c,
                               0,
                               0,
                               200 + 40 * height(s));
                    else {
                        c.work /= 2;
                        path("set of an rvalue", n, tallest(*t), c, 1);
                    }
                }
            } else if (op.kind == R_MIX) {
                u32 h = op.a[2], cnt = 1 + op.a[1] % 20;
                for (u32 j = 0; j < cnt; ++j) {
                    h     = h * 1664525u + 1013904223u;
                    u64 m = t->size();
                    u64 q = pick(h >> 16, h * 40503u, m);
                    Cost c;
                    switch ((h >> 9) % 4) {
                    case 0:
                        c = measure([&] { *t = std::move(*t).take(m - q); });
                        c.work = 0; // releases what it alone holds
                        path("take of an rvalue", m, tallest(*t), c, 2);
                        break;
                    case 1:
                        if constexpr (Flex) {
                            c = measure([&] { *t = std::move(*t).drop(q); });
                            c.work = 0;
                            path("drop of an rvalue", m, tallest(*t), c, 2);
                        }
                        break;
                    case 2:
                        if constexpr (Flex)
                            if (m + k.size() <= lim) {
                                u64 x  = m > k.size() ? m : k.size();
                                c      = measure([&] {
                                    if (h & 64)
                                        *t = std::move(*t) + k;
                                    else
                                        *t = k + std::move(*t);
                                });
                                c.work = 0;
                                wide("concat of an rvalue",
                                     x,
                                     tallest(*t),
                                     c,
                                     1);
                            }
                        break;
                    default:
                        c = measure([&] { *t = std::move(*t).push_back(v); });
                        c.work /= 2;
                        path("push to an rvalue", m, tallest(*t), c, 1);
                    }
                }
            }
            {
                Sut q;
                d = std::move(*t);
                t->~C();
            }
            root_free(t);
            break;
        }
        case SPACE: {
            // what one value holds, alone
            if (gc || n > 20000)
                break;
            {
                Sut q;
                C c = s;
                for (auto p : s_)
                    *p = C{};
                d = std::move(c);
            }
            Cost c;
            c.bytes = live_bytes();
            // every other node is at least half full, roughly
            u64 nd = 2 * (n / lf + 1);
            within("space",
                   n,
                   c,
                   0,
                   (nd + 2 * nd / (br - 1) + height(*s_[0]) + 8 + levels(n)) *
                       node_bytes,
                   0);
            break;
        }
        }
    }
};

} // namespace sim

#define COST_FLEX(name, T, MP, B, BL)                                          \
    static sim::Reg<                                                           \
        sim::SeqCost<immer::flex_vector<T, MP, B, BL>, MP, true, B, BL>>       \
        reg_##B##BL("cost." name);
#define COST_VEC(name, T, MP, B, BL)                                           \
    static sim::Reg<                                                           \
        sim::SeqCost<immer::vector<T, MP, B, BL>, MP, false, B, BL>>           \
        regv_##B##BL("cost." name);
