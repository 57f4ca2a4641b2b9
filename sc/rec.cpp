// Values that contain values of the same type: trees of containers in
// containers, operated on with arguments that refer to what is inside of them.
#include "common.hpp"
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#include <immer/box.hpp>
#include <immer/flex_vector.hpp>
#include <immer/flex_vector_transient.hpp>
#include <immer/map.hpp>
#include <immer/map_transient.hpp>
#include <immer/vector.hpp>
#include <immer/vector_transient.hpp>
#include <memory>
#include <optional>

namespace sim {

namespace recop {
enum
{
    LEAF,
    NEST,
    INTO,
    SETIN,
    UPD,
    TRANS,
    TAKE,
    COPY,
    MOVE,
    SWAP,
    READ,
    PUB,
    RECV,
    SHARED,
    NOPS
};
inline const char* names[] = {"leaf",  "nest", "into",    "set-in",  "update",
                              "trans", "take", "copy",    "move",    "swap",
                              "read",  "publish", "receive", "shared"};
} // namespace recop

template <class T_, class MP_>
struct RecBase
{
    using T  = T_;
    using MP = MP_;
    static constexpr size_t max = 40;
};
// how the kinds of containers are used
template <class T, class MP, template <class> class Of>
struct RecSeq : RecBase<T, MP>
{
    static constexpr bool transients = true;
    template <class N>
    using C = typename Of<MP>::template type<N>;
    template <class N, class K>
    static auto push(K&& c, N n)
    {
        return C<N>(std::forward<K>(c).push_back(std::move(n)));
    }
    template <class N, class K>
    static auto set(K&& c, size_t i, N n)
    {
        return C<N>(std::forward<K>(c).set(i, std::move(n)));
    }
    template <class N, class F>
    static C<N> upd(C<N>&& c, size_t i, F&& f)
    {
        return std::move(c).update(i, [&](typename C<N>::value_type x) {
            return typename C<N>::value_type(f(unbox<N>(x)));
        });
    }
    template <class N>
    static C<N> take(C<N>&& c, size_t k)
    {
        return std::move(c).take(k);
    }
    template <class N>
    static const N& unbox(const typename C<N>::value_type& x)
    {
        return x;
    }
    template <class N, class K>
    static const N& at(const K& c, size_t i)
    {
        return unbox<N>(c[i]);
    }
    template <class N>
    static size_t size(const C<N>& c)
    {
        return c.size();
    }
    template <class Tr, class N>
    static void tpush(Tr& t, const N& n)
    {
        t.push_back(n);
    }
    template <class Tr, class N>
    static void tset(Tr& t, size_t i, const N& n)
    {
        t.set(i, n);
    }
};
template <class MP>
struct RecVec
{
    template <class N>
    using type = immer::vector<immer::box<N, MP>, MP, 2, 1>;
};
template <class MP>
struct RecFlex
{
    template <class N>
    using type = immer::flex_vector<immer::box<N, MP>, MP, 2, 1>;
};
template <class MP>
struct RecArr
{
    template <class N>
    using type = immer::array<N, MP>;
};
struct IdHash
{
    size_t operator()(u32 k) const { return k; }
};
template <class T, class MP>
struct RecMap : RecBase<T, MP>
{
    static constexpr bool transients = true;
    template <class N>
    using C = immer::map<u32, N, IdHash, std::equal_to<u32>, MP, 2>;
    template <class N, class K>
    static auto push(K&& c, N n)
    {
        u32 k = c.size();
        return C<N>(std::forward<K>(c).set(k, std::move(n)));
    }
    template <class N, class K>
    static auto set(K&& c, size_t i, N n)
    {
        return C<N>(std::forward<K>(c).insert({(u32) i, std::move(n)}));
    }
    template <class N, class F>
    static C<N> upd(C<N>&& c, size_t i, F&& f)
    {
        return std::move(c).update_if_exists((u32) i, std::forward<F>(f));
    }
    template <class N>
    static C<N> take(C<N>&& c, size_t k)
    {
        for (u32 i = c.size(); i > k; --i)
            c = std::move(c).erase(i - 1);
        return std::move(c);
    }
    template <class N, class K>
    static const N& at(const K& c, size_t i)
    {
        return c.at((u32) i);
    }
    template <class N>
    static size_t size(const C<N>& c)
    {
        return c.size();
    }
    template <class Tr, class N>
    static void tpush(Tr& t, const N& n)
    {
        t.set((u32) t.size(), n);
    }
    template <class Tr, class N>
    static void tset(Tr& t, size_t i, const N& n)
    {
        t.set((u32) i, n);
    }
};
template <class T, class MP>
struct RecBox : RecBase<T, MP> // a list made of boxes
{
    static constexpr bool transients = false;
    static constexpr size_t max      = 1;
    template <class N>
    using C = std::optional<immer::box<N, MP>>;
    template <class N, class K>
    static auto push(K&&, N n)
    {
        return C<N>(immer::box<N, MP>(std::move(n)));
    }
    template <class N, class K>
    static auto set(K&& c, size_t, N n)
    {
        if constexpr (std::is_lvalue_reference_v<K>)
            return C<N>((*c).update([&](const N&) { return n; }));
        else {
            *c = std::move(n);
            return C<N>(std::move(c));
        }
    }
    template <class N, class F>
    static C<N> upd(C<N>&& c, size_t, F&& f)
    {
        return C<N>(std::move(*c).update(std::forward<F>(f)));
    }
    template <class N>
    static C<N> take(C<N>&& c, size_t k)
    {
        return k ? C<N>(std::move(c)) : C<N>();
    }
    template <class N, class K>
    static const N& at(const K& c, size_t)
    {
        return c->get();
    }
    template <class N>
    static size_t size(const C<N>& c)
    {
        return c ? 1 : 0;
    }
};

template <class K, bool Faulty>
struct RecScenario : Scenario
{
    using T = typename K::T;
    using E = ET<T>;
    struct N
    {
        T e;
        typename K::template C<N> kids;
    };
    using C                 = typename K::template C<N>;
    static constexpr int NS = 3, NSH = 2, NMB = 2;
    static constexpr size_t max_total = 120, max_depth = 12;

    struct MNode;
    using Kids = std::vector<std::shared_ptr<const MNode>>;
    struct MNode
    {
        u32 id;
        Kids kids;
        size_t total, depth;
    };
    static std::shared_ptr<const MNode> mnode(u32 id, const Kids& k)
    {
        return std::make_shared<const MNode>(
            MNode{id, k, total(k) + 1, depth(k) + 1});
    }
    static size_t total(const Kids& k)
    {
        size_t n = 0;
        for (auto& x : k)
            n += x->total;
        return n;
    }
    static size_t depth(const Kids& k)
    {
        size_t n = 0;
        for (auto& x : k)
            n = std::max(n, x->depth);
        return n;
    }
    struct S
    {
        C c;
        Kids m;
    };
    struct Thread
    {
        S* s = nullptr;
        std::optional<C> given; // what an update puts in
    };
    int maxth, nth = 1;
    Thread th[MAXT];
    S* shared = nullptr;
    S* mb     = nullptr;
    Mutex* mu = nullptr;

    RecScenario(const char* n, int mt)
        : Scenario(n)
        , maxth(mt)
    {}
    const char* op_name(int k) override
    {
        return k < recop::NOPS ? recop::names[k] : nullptr;
    }
    RunShape shape() override
    {
        RunShape s;
        s.fault_mask = fmask();
        s.fault_pct  = 90;
        s.est_steps  = 1000;
        return s;
    }
    static u32 fmask()
    {
        return !Faulty ? 0 : E::throwing ? FM_ALLOC | FM_THROW : FM_ALLOC;
    }
    void gen(Rng& r, Program& p) override
    {
        static const int w[] = {6, 5, 4, 4, 4, 3, 1, 2, 1, 1, 1, 3, 4, 3};
        p.nth                = maxth > 1 ? 2 + r.below(maxth - 1) : 1;
        for (int t = 1; t <= p.nth; ++t)
            for (int n = p.nth > 1 ? 2 + r.below(8) : 3 + r.below(30); n--;) {
                Op op;
                int x = r.below(42), k = 0;
                while (x >= w[k])
                    x -= w[k++];
                op.kind = k;
                for (auto& a : op.a)
                    a = r.below(1 << 16);
                p.th[t].push_back(op);
            }
    }
    S* slots(int n)
    {
        S* s = (S*) root_alloc(n * sizeof(S));
        for (int i = 0; i < n; ++i) {
            Sut q;
            new (s + i) S;
        }
        return s;
    }
    void drop(S* s, int n)
    {
        for (int i = 0; i < n; ++i) {
            Sut q;
            s[i].~S();
        }
        root_free(s);
    }
    void setup(const Program& p) override
    {
        nth = p.nth;
        if (E::tracked)
            set_elem_registry(true);
        {
            Sut q; // what exists once per program
            C c;
            N n{E::of(1), {}};
            c = K::template push<N>(c, n);
        }
        shared = slots(NSH);
        mb     = slots(NMB);
        mu     = new Mutex[NMB];
        for (int i = 0; i < NSH; ++i)
            for (int j = 0; j < 1 + 3 * i && j < (int) K::max; ++j) {
                S& s = shared[i];
                Sut q;
                u32 id = 900000 + i * 10 + j;
                s.c    = K::template push<N>(s.c, N{E::of(id), s.c});
                NoSut z;
                s.m.push_back(mnode(id, s.m));
            }
    }
    void thread_begin(int tid) override { th[tid].s = slots(NS); }
    void thread_end(int tid) override
    {
        for (int i = 0; i < NS; ++i)
            check(th[tid].s[i]);
        drop(th[tid].s, NS);
    }
    void finish() override
    {
        for (int i = 0; i < NSH; ++i)
            check(shared[i]);
        for (int i = 0; i < NMB; ++i)
            check(mb[i]);
        drop(shared, NSH);
        drop(mb, NMB);
        delete[] mu;
        if (E::tracked && elem_live())
            fail("elem-leak", "%ld elements are left", elem_live());
    }
    void same(const C& c, const Kids& m)
    {
        size_t n = K::template size<N>(c);
        if (n != m.size())
            fail("wrong-size", "size() is %zu instead of %zu", n, m.size());
        for (size_t i = 0; i < n; ++i) {
            const N& x = K::template at<N>(c, i);
            if (E::get(x.e) != m[i]->id)
                fail("wrong-content", "element %zu of %zu is %u, not %u", i, n,
                     E::get(x.e), m[i]->id);
            same(x.kids, m[i]->kids);
        }
    }
    void check(S& s)
    {
        Sut q;
        same(s.c, s.m);
        NoSut z;
        note(s.m.size());
        note(total(s.m));
    }
    void check_all(int tid)
    {
        for (int i = 0; i < NS; ++i)
            check(th[tid].s[i]);
    }
    static bool fits(const Kids& k)
    {
        return k.size() <= K::max && total(k) <= max_total &&
               depth(k) <= max_depth;
    }
    // d = f(s.c), or s = f(std::move(s.c))
    template <class F>
    void derive(int tid, S& s, S& d, bool r, const Kids& w, F&& f)
    {
        if (r) {
            {
                Sut q;
                s.c = f(std::true_type{});
            }
            s.m = w;
            check(s);
            return;
        }
        alignas(C) char buf[sizeof(C)];
        C* out = (C*) buf;
        attempt(
            fmask(), [&] { new (out) C(f(std::false_type{})); },
            [&] { check_all(tid); });
        {
            Sut q;
            d.c = std::move(*out);
            out->~C();
        }
        d.m = w;
        check(d);
    }
    static C& pass(std::false_type, C& c) { return c; }
    static C&& pass(std::true_type, C& c) { return std::move(c); }

    void run_op(int tid, const Op& op) override
    {
        using namespace recop;
        Thread& x = th[tid];
        S& s      = x.s[op.a[0] % NS];
        S& d      = x.s[op.a[1] % NS];
        u32 id    = (u32) op.id + 1;
        bool r    = op.a[3] % 3 == 0;
        size_t n  = s.m.size();
        size_t i  = n ? op.a[2] % n : 0;
        size_t j  = n ? (op.a[2] / 7) % n : 0;
        u32 how   = op.a[3] / 3;
        switch (op.kind) {
        case LEAF:
        case NEST: {
            // NEST: the new element holds what d does, maybe the container
            // itself, or what one of its elements does
            Kids w = s.m, in;
            if (op.kind == NEST)
                in = how & 1 && n ? s.m[i]->kids : d.m;
            w.push_back(mnode(id, in));
            if (!fits(w))
                break;
            derive(tid, s, d, r, w, [&](auto mv) {
                N v{E::of(id), op.kind == LEAF ? C()
                               : how & 1 && n
                                   ? K::template at<N>(s.c, i).kids
                                   : d.c};
                if (how & 2)
                    return K::template push<N>(pass(mv, s.c), v);
                return K::template push<N>(pass(mv, s.c), std::move(v));
            });
            break;
        }
        case INTO: {
            // what is assigned is inside of what is assigned to
            if (!n)
                break;
            Kids w = s.m[i]->kids;
            if (how & 1 && w.size())
                w = Kids(w[j % w.size()]->kids);
            {
                Sut q;
                const C& in = K::template at<N>(s.c, i).kids;
                const C& v  = how & 1 && s.m[i]->kids.size()
                                  ? K::template at<N>(
                                       in, j % s.m[i]->kids.size())
                                       .kids
                                  : in;
                if (how & 4) {
                    C tmp = v;
                    s.c   = std::move(tmp);
                } else
                    s.c = v;
            }
            s.m = w;
            check(s);
            break;
        }
        case SETIN: {
            // an element is replaced by one that holds the whole
            if (!n)
                break;
            Kids w = s.m;
            w[i]   = mnode(id, how & 1 ? s.m : s.m[j]->kids);
            if (!fits(w))
                break;
            derive(tid, s, d, r, w, [&](auto mv) {
                N v{E::of(id),
                    how & 1 ? s.c : K::template at<N>(s.c, j).kids};
                return K::template set<N>(pass(mv, s.c), i, std::move(v));
            });
            break;
        }
        case UPD: {
            if (!n)
                break;
            Kids w  = s.m;
            Kids in = s.m[i]->kids;
            if (how & 1 || in.size() >= K::max)
                in = d.m;
            else
                in.push_back(mnode(id, {}));
            w[i] = mnode(id, in);
            if (!fits(w))
                break;
            bool whole = how & 1 || s.m[i]->kids.size() >= K::max;
            auto fn    = [&](const N& y) {
                if (whole)
                    return N{E::of(id), *x.given};
                return N{E::of(id),
                         K::template push<N>(y.kids, N{E::of(id), C()})};
            };
            {
                Sut q;
                x.given.emplace(d.c);
                s.c = K::template upd<N>(std::move(s.c), i, fn);
                x.given.reset();
            }
            s.m = w;
            check(s);
            break;
        }
        case TRANS: {
            if constexpr (K::transients) {
                if (!n)
                    break;
                Kids w = s.m;
                w.push_back(w[i]);
                Kids w2 = w;
                w2[j]   = mnode(id, w[i]->kids);
                w2.push_back(w2[j]);
                if (!fits(w2))
                    break;
                Sut q;
                auto t = r ? std::move(s.c).transient() : s.c.transient();
                K::tpush(t, K::template at<N>(t, i));
                K::tset(t, j, N{E::of(id), K::template at<N>(t, i).kids});
                K::tpush(t, K::template at<N>(t, j));
                C c = how & 1 ? t.persistent() : std::move(t).persistent();
                S& to = r || how & 2 ? s : d;
                to.c  = std::move(c);
                NoSut z;
                to.m = w2;
            }
            break;
        }
        case TAKE: {
            size_t k = n ? op.a[2] % (n + 1) : 0;
            {
                Sut q;
                s.c = K::template take<N>(std::move(s.c), k);
            }
            s.m.resize(k);
            check(s);
            break;
        }
        case COPY:
            put(d, s, false, how);
            break;
        case MOVE:
            put(d, s, true, how);
            break;
        case SWAP: {
            Sut q;
            std::swap(s.c, d.c);
            NoSut z;
            std::swap(s.m, d.m);
            break;
        }
        case READ:
            check(s);
            break;
        case PUB: {
            S& b = mb[op.a[1] % NMB];
            Lock l(mu[op.a[1] % NMB]);
            put(b, s, r, how);
            break;
        }
        case RECV: {
            S& b = mb[op.a[0] % NMB];
            Lock l(mu[op.a[0] % NMB]);
            put(d, b, r, how);
            break;
        }
        case SHARED:
            put(d, shared[op.a[0] % NSH], false, how);
            break;
        }
        check(s);
        check(d);
    }
    void put(S& to, S& from, bool move, u32 how)
    {
        if (&to == &from)
            return;
        {
            Sut q;
            if (move) {
                to.c   = std::move(from.c);
                from.c = C();
            } else if (how & 1)
                to.c = from.c;
            else {
                C c  = from.c;
                to.c = std::move(c);
            }
        }
        to.m = from.m;
        if (move)
            from.m.clear();
    }
};

using El = Elem<false>;
#define REC(V, NAME, KIND, FAULTY, TH)                                         \
    static Reg<RecScenario<KIND, FAULTY>> V(NAME, TH);
using vecb  = RecSeq<El, mp_basic, RecVec>;
using flexb = RecSeq<El, mp_tiny, RecFlex>;
using arrb  = RecSeq<El, mp_basic, RecArr>;
using mapb  = RecMap<El, mp_basic>;
using boxb  = RecBox<El, mp_basic>;
using boxs  = RecBox<El, mp_sized>;
using maps  = RecMap<El, mp_sized>;
using flexg = RecSeq<u32, mp_gc, RecFlex>;
using mapg  = RecMap<u32, mp_gc>;
REC(a1, "rec.vec.all", vecb, false, 1)
REC(a2, "rec.vec.fault", vecb, true, 1)
REC(a3, "rec.vec.share", vecb, false, 3)
REC(b1, "rec.flex.all", flexb, false, 1)
REC(b2, "rec.flex.fault", flexb, true, 1)
REC(b3, "rec.flex.share", flexb, false, 3)
REC(c1, "rec.arr.all", arrb, false, 1)
REC(c2, "rec.arr.fault", arrb, true, 1)
REC(c3, "rec.arr.share", arrb, false, 3)
REC(d1, "rec.map.all", mapb, false, 1)
REC(d2, "rec.map.fault", maps, true, 1)
REC(d3, "rec.map.share", mapb, false, 3)
REC(e1, "rec.box.all", boxb, false, 1)
REC(e2, "rec.box.fault", boxs, true, 1)
REC(e3, "rec.box.share", boxb, false, 3)
REC(f1, "rec.gc.flex", flexg, false, 1)
REC(f2, "rec.gc.map", mapg, false, 1)
} // namespace sim
