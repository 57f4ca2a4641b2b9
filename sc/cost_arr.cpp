// what operations of arrays, boxes and atoms cost
#include "cost.hpp"

#include <immer/atom.hpp>
#include <immer/box.hpp>

namespace sim {

namespace caop {
enum
{
    RANGE,
    COPY,
    READ,
    EQ,
    PUSH,
    SET,
    UPDATE,
    TAKE,
    T_EDIT,
    T_PUSH,
    R_EDIT,
    R_PUSH,
    BOX,
    ATOM,
    NOPS
};
inline const char* names[] = {"range",  "copy",   "read",   "eq",
                              "push",   "set",    "update", "take",
                              "t-edit", "t-push", "r-edit", "r-push",
                              "box",    "atom",   nullptr};
} // namespace caop

template <class C, class MP>
struct ArrCost : Scenario
{
    using T                  = typename C::value_type;
    using TR                 = typename C::transient_type;
    using E                  = ET<T>;
    using Box                = immer::box<u32, MP>;
    static constexpr int NS  = 3;
    static constexpr bool gc = is_gc_v<MP>;
    static constexpr bool rv = MP::use_transient_rvalues && !gc;

    C* s_[NS];
    u64 peak; // nothing was ever larger

    explicit ArrCost(const char* n)
        : Scenario(n)
    {
    }
    const char* op_name(int k) override
    {
        return k <= caop::NOPS ? caop::names[k] : nullptr;
    }
    RunShape shape() override
    {
        RunShape s;
        s.fault_mask = FM_ALLOC;
        s.fault_pct  = 40;
        return s;
    }
    void gen(Rng& r, Program& p) override
    {
        p.nth = 0;
        u32 n = r.range(4, 40);
        for (u32 i = 0; i < n; ++i) {
            Op op;
            for (auto& a : op.a)
                a = (u32) r.next();
            op.kind = i == 0 ? caop::RANGE : r.below(caop::NOPS);
            p.th[0].push_back(op);
        }
    }
    void setup(const Program&) override
    {
        peak = 1;
        {
            Sut q; // makes the empty ones, once
            TR w;
        }
        for (auto& s : s_) {
            s = (C*) root_alloc(sizeof(C));
            Sut q;
            new (s) C();
        }
    }
    void finish() override
    {
        for (auto& s : s_) {
            {
                Sut q;
                s->~C();
            }
            root_free(s);
        }
        check_leaks();
    }
    static void constant(const char* what, u64 n, const Cost& c)
    {
        within(what, n, c, 0, 0, 40);
    }
    // a copy of everything, with as much room as anything ever had
    void linear(const char* what, u64 n, const Cost& c)
    {
        peak = std::max(peak, n);
        within(what, n, c, 1, (2 * peak + 2) * sizeof(T) + 64, 80 + 4 * n);
    }
    void put(C& d, C* t)
    {
        peak   = std::max<u64>(peak, t->size());
        Cost c = measure([&] {
            using std::swap;
            swap(d, *t);
        });
        within("swap", d.size(), c, 0, 0, 80);
        Sut q;
        t->~C();
    }
    static u64 log2(u64 n) { return n < 2 ? 0 : 63 - __builtin_clzll(n); }

    void run_op(int, const Op& op) override
    {
        using namespace caop;
        C& s           = *s_[op.a[0] % NS];
        C& d           = *s_[op.a[1] % NS];
        u64 n          = s.size();
        u64 i          = n ? op.a[2] % n : 0;
        T v            = E::make((u32) op.id * 100);
        const char* nm = names[op.kind];
        C* t           = (C*) root_alloc(sizeof(C));
        Cost c;
        auto copy = [&](const C& x) {
            Sut q;
            new (t) C(x);
        };
        switch (op.kind) {
        case RANGE: {
            u32 m = op.a[2] % (op.a[3] % 4 ? 30 : 2000);
            c     = measure([&] { new (t) C(NumIt<T>{0}, NumIt<T>{m}); });
            linear(nm, m, c);
            put(d, t);
            break;
        }
        case COPY: {
            c = measure([&] { new (t) C(s); });
            constant("copy", n, c);
            C* u = (C*) root_alloc(sizeof(C));
            c    = measure([&] { new (u) C(std::move(*t)); });
            constant("move", n, c);
            c = measure([&] {
                t->~C();
                new (t) C();
            });
            constant("new", n, c);
            c = measure([&] { *t = *u; });
            constant("copy assignment", n, c);
            c = measure([&] { u->~C(); });
            constant("release", n, c);
            root_free(u);
            put(d, t);
            break;
        }
        case READ:
            c = measure([&] {
                (void) s.size();
                (void) s.empty();
                (void) s.identity();
                (void) (s.end() - s.begin());
                (void) s.data();
            });
            constant("size", n, c);
            if (n) {
                c = measure([&] {
                    (void) E::get(s[i]);
                    (void) E::get(s.at(i));
                    (void) E::get(s.front());
                    (void) E::get(s.back());
                    (void) E::get(s.begin()[(std::ptrdiff_t) i]);
                });
                constant("access", n, c);
            }
            copy(d);
            put(d, t);
            break;
        case EQ: {
            copy(s);
            bool eq = false;
            c       = measure([&] { eq = *t == s; });
            constant("== of copies", n, c);
            put(d, t);
            break;
        }
        case PUSH:
            c = measure_try([&] { new (t) C(s.push_back(v)); });
            linear(nm, n + 1, c);
            put(d, t);
            break;
        case SET:
            if (n) {
                c = measure_try([&] { new (t) C(s.set(i, v)); });
                linear(nm, n, c);
                put(d, t);
            }
            break;
        case UPDATE:
            if (n) {
                c = measure([&] {
                    new (t) C(s.update(i, [&](auto&&) { return v; }));
                });
                linear(nm, n, c);
                put(d, t);
            }
            break;
        case TAKE:
            c = measure_try([&] { new (t) C(s.take(i)); });
            // room for as many again, at most
            within(nm, i, c, 1, (2 * i + 2) * sizeof(T) + 64, 80 + 4 * i);
            put(d, t);
            break;
        case T_EDIT: {
            TR* w = (TR*) root_alloc(sizeof(TR));
            c     = measure([&] { new (w) TR(s.transient()); });
            within("transient()", n, c, gc, gc * 64, 60);
            if (n)
                for (u32 j = 0; j < 6; ++j) {
                    u32 h  = op.a[2] >> j * 4;
                    bool f = h & 1;
                    u64 x  = (i + j) % n;
                    c      = measure_try([&] {
                        if (f)
                            w->set(x, v);
                        else
                            w->update(x, [&](auto&&) { return v; });
                    });
                    if (j)
                        constant(f ? "second set in place"
                                        : "second update in place",
                                 n,
                                 c);
                    else
                        linear("first edit in place", n, c);
                }
            if (n && op.a[3] % 2) {
                u64 m = n - op.a[3] / 2 % n;
                c     = measure_try([&] { w->take(m); });
                constant("take in place", n, c);
                c = measure([&] { w->set(m - 1, v); });
                constant("set in place after take", n, c);
            }
            c = measure([&] { new (t) C(w->persistent()); });
            if (rv)
                within("persistent()", n, c, 0, 0, 60);
            else {
                c.allocs -= std::min<u64>(c.allocs, gc);
                linear("persistent()", n, c);
            }
            {
                Sut q;
                w->~TR();
            }
            root_free(w);
            put(d, t);
            break;
        }
        case T_PUSH:
        case R_PUSH: {
            u32 cnt = 1 + op.a[1] % (op.a[3] % 8 ? 40 : 400);
            if (n + cnt > 3000)
                break;
            TR* w  = nullptr;
            bool r = op.kind == R_PUSH;
            if (r)
                copy(s);
            else {
                w = (TR*) root_alloc(sizeof(TR));
                Sut q;
                new (w) TR(s.transient());
            }
            Cost sum;
            for (u32 j = 0; j < cnt; ++j) {
                if (r)
                    c = measure_try([&] { *t = std::move(*t).push_back(v); });
                else
                    c = measure_try([&] { w->push_back(v); });
                linear("push in place", n + j + 1, c);
                sum += c;
            }
            if (!r || rv)
                within("pushes in place",
                       n,
                       sum,
                       2 + log2((n + cnt) / (n + 1)),
                       (2 * peak + 4 * (n + cnt) + 4) * sizeof(T) + 64 +
                           64 * log2(n + cnt),
                       200 + 60 * cnt + 6 * (n + cnt));
            if (!r) {
                Sut q;
                new (t) C(w->persistent());
                w->~TR();
                root_free(w);
            }
            put(d, t);
            break;
        }
        case R_EDIT:
            copy(s);
            if (n)
                for (u32 j = 0; j < 6; ++j) {
                    u32 h  = op.a[2] >> j * 4;
                    bool f = h & 1;
                    u64 x  = (i + j) % n;
                    c      = measure_try([&] {
                        if (f)
                            *t = std::move(*t).set(x, v);
                        else
                            *t = std::move(*t).update(
                                x, [&](auto&&) { return v; });
                    });
                    if (j && rv)
                        within(f ? "second set of an rvalue"
                                      : "second update of an rvalue",
                               n,
                               c,
                               0,
                               0,
                               60);
                    else
                        linear("edit of an rvalue", n, c);
                }
            put(d, t);
            break;
        case BOX: {
            Box* a = (Box*) root_alloc(sizeof(Box));
            Box* b = (Box*) root_alloc(sizeof(Box));
            c      = measure([&] { new (a) Box(op.id); });
            within("box", 1, c, 1, 64, 40);
            c = measure([&] { new (b) Box(*a); });
            constant("copy of a box", 1, c);
            c = measure([&] { *b = std::move(*b).update([](u32 x) { return x + 1; }); });
            within("update of a shared box", 1, c, 1, 64, 60);
            c = measure([&] { *b = std::move(*b).update([](u32 x) { return x + 1; }); });
            if (!gc)
                constant("update of a box in place", 1, c);
            c = measure([&] { *a = a->update([](u32 x) { return x + 1; }); });
            within("update of a box", 1, c, 1, 64, 60);
            {
                Sut q;
                a->~Box();
                b->~Box();
            }
            root_free(a);
            root_free(b);
            break;
        }
        case ATOM: {
            using Atom = immer::atom<u32, MP>;
            Atom* a    = (Atom*) root_alloc(sizeof(Atom));
            Box* b     = (Box*) root_alloc(sizeof(Box));
            c          = measure([&] { new (a) Atom(op.id); });
            within("atom", 1, c, 1, 64, 60);
            c = measure([&] { new (b) Box(a->load()); });
            constant("load", 1, c);
            c = measure([&] { a->store(*b); });
            constant("store", 1, c);
            c = measure([&] { *b = a->exchange(*b); });
            within("exchange", 1, c, 0, 0, 60);
            c = measure([&] { a->update([](u32 x) { return x + 1; }); });
            within("update of an atom", 1, c, 1, 64, 100);
            {
                Sut q;
                b->~Box();
                a->~Atom();
            }
            root_free(a);
            root_free(b);
            break;
        }
        }
        root_free(t);
    }
};

} // namespace sim
using namespace sim;
#define COST_ARR(name, MP)                                                     \
    static sim::Reg<sim::ArrCost<immer::array<u32, MP>, MP>> reg_##MP(         \
        "cost." name);
COST_ARR("arr", mp_basic)
COST_ARR("arrgc", mp_gc)
COST_ARR("arrnorv", mp_norv)
