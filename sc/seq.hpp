// vector, flex_vector, array and their transients against std::vector models
#pragma once
#include "common.hpp"

#include <immer/algorithm.hpp>
#include <immer/array.hpp>
#include <immer/array_transient.hpp>
#include <immer/flex_vector.hpp>
#include <immer/flex_vector_transient.hpp>
#include <immer/vector.hpp>
#include <immer/vector_transient.hpp>

#include <stdexcept>

namespace sim {

enum Focus
{
    FO_ALL,    // everything
    FO_POINT,  // single element operations
    FO_CAT,    // concatenation, slicing, insertion, erasure
    FO_TRANS,  // transients and rvalues
    FO_FAULT,  // everything with faults, on values
    FO_FAULTM, // faults in in-place operations
    FO_SHARE,  // values crossing threads
    FO_READ,   // traversal and comparison
    FO_STEAL,  // rvalues and transients of values other threads let go of
    FO_TOKEN,  // owner tokens that the collector reclaims and reuses
    FO_MCAT,   // in-place concatenation of trees with short nodes
    FO_MCATF,  // the same with faults
    FO_ABORT,  // failures of in-place concatenation with owner tokens
};

namespace seqop {
enum
{
    NEW,
    FILL,
    RANGE,
    COPY,
    MOVE,
    PUSH,
    PUSHN,
    SET,
    UPDATE,
    TAKE,
    DROP,
    PUSH_FRONT,
    INSERT,
    INSERT_V,
    ERASE,
    ERASE_R,
    CONCAT,
    T_OPEN,
    T_PUSH,
    T_PUSHN,
    T_SET,
    T_UPDATE,
    T_TAKE,
    T_DROP,
    T_APPEND,
    T_PREPEND,
    T_PERSIST,
    T_COPY,
    T_END,
    T_CHECK,
    PUB,
    RECV,
    SHARED,
    EQ,
    CHECK,
    IDENT,
    CONV,
    CHECK_ALL,
    NOPS
};
inline const char* names[] = {
    "new",      "fill",     "range",    "copy",     "move",      "push",
    "push-n",   "set",      "update",   "take",     "drop",      "push-front",
    "insert",   "insert-v", "erase",    "erase-r",  "concat",    "t-open",
    "t-push",   "t-push-n", "t-set",    "t-update", "t-take",    "t-drop",
    "t-append", "t-prepend", "t-persist", "t-copy", "t-end",     "t-check",
    "publish",  "receive",  "shared",   "eq",       "check",     "identity",
    "convert",  "check-all", nullptr};
} // namespace seqop

struct SeqKindArray
{
    static constexpr bool flex = false, arr = true;
};
struct SeqKindVector
{
    static constexpr bool flex = false, arr = false;
};
struct SeqKindFlex
{
    static constexpr bool flex = true, arr = false;
};

// a read only range of generated elements
template <class T>
struct GenIt
{
    using value_type        = T;
    using difference_type   = std::ptrdiff_t;
    using reference         = T;
    using pointer           = const T*;
    using iterator_category = std::forward_iterator_tag;
    u32 base, i;
    T operator*() const
    {
        maybe_throw(12);
        return ET<T>::make(base + i);
    }
    GenIt& operator++()
    {
        ++i;
        return *this;
    }
    GenIt operator++(int)
    {
        GenIt o = *this;
        ++i;
        return o;
    }
    bool operator==(const GenIt& o) const { return i == o.i; }
    bool operator!=(const GenIt& o) const { return i != o.i; }
};

// the end of a range, of another type than its iterators
struct GenEnd
{
    u32 n;
    template <class It>
    friend bool operator==(const It& i, GenEnd e)
    {
        return i.i == e.n;
    }
    template <class It>
    friend bool operator!=(const It& i, GenEnd e)
    {
        return i.i != e.n;
    }
};
// a range that can be gone through once
template <class T>
struct GenOnce
{
    using value_type        = T;
    using difference_type   = std::ptrdiff_t;
    using reference         = T;
    using pointer           = const T*;
    using iterator_category = std::input_iterator_tag;
    struct Src
    {
        u32 base, n, at;
    };
    Src* s; // null: the end
    u32 i;
    T operator*() const
    {
        if (i != s->at)
            fail("wrong-content", "a single pass range is gone over twice");
        maybe_throw(12);
        return ET<T>::make(s->base + i);
    }
    GenOnce& operator++()
    {
        if (i != s->at)
            fail("wrong-content", "a single pass range is gone over twice");
        i = ++s->at;
        return *this;
    }
    struct Was
    {
        T v;
        T operator*() const { return v; }
    };
    Was operator++(int)
    {
        Was o{**this};
        ++*this;
        return o;
    }
    bool operator==(const GenOnce& o) const
    {
        auto end = [](const GenOnce& x) { return !x.s || x.s->at >= x.s->n; };
        return end(*this) == end(o);
    }
    bool operator!=(const GenOnce& o) const { return !(*this == o); }
};

template <class C_, class K, class MP, class VecOfFlex = void>
struct SeqScenario : Scenario
{
    using C  = C_;
    using T  = typename C::value_type;
    using TR = typename C::transient_type;
    using E  = ET<T>;
    static constexpr bool flex = K::flex, arr = K::arr, gc = is_gc_v<MP>;
    static constexpr int NS = 4, NT = 2, NSH = 2, NMB = 2;

    Focus focus;
    int maxth;
    u32 maxn;
    // rvalue operations may update in place
    static constexpr bool rv = MP::use_transient_rvalues;

    struct Thread
    {
        Slot<C> s[NS];
        Slot<TR> t[NT];
    };
    Thread* th = nullptr;
    Slot<C>* shared = nullptr;
    struct Box
    {
        Slot<C> s;
        Mutex mu;
    };
    Box* mb = nullptr;
    int nth = 1;
    u32 faults = 0;

    SeqScenario(const char* n, Focus f, int mt, u32 mx)
        : Scenario(n)
        , focus(f)
        , maxth(mt)
        , maxn(mx)
    {}

    const char* op_name(int k) override
    {
        return k <= seqop::NOPS ? seqop::names[k] : nullptr;
    }
    RunShape shape() override
    {
        RunShape s;
        s.use_gc = gc;
        s.fault_mask = (focus == FO_FAULT || focus == FO_FAULTM ||
                        focus == FO_ABORT || focus == FO_MCATF)
                           ? FM_ALLOC | FM_THROW
                           : 0;
        s.fault_pct = 90;
        s.est_steps = 300;
        return s;
    }

    int weight(int k)
    {
        using namespace seqop;
        int w = 0;
        switch (k) {
        case NEW: w = 1; break;
        case FILL: w = 3; break;
        case RANGE: w = 4; break;
        case COPY: w = 3; break;
        case MOVE: w = 2; break;
        case PUSH: w = 7; break;
        case PUSHN: w = 5; break;
        case SET: w = 5; break;
        case UPDATE: w = 4; break;
        case TAKE: w = 4; break;
        case DROP: w = flex ? 4 : 0; break;
        case PUSH_FRONT: w = flex ? 3 : 0; break;
        case INSERT: w = flex ? 3 : 0; break;
        case INSERT_V: w = flex ? 3 : 0; break;
        case ERASE: w = flex ? 3 : 0; break;
        case ERASE_R: w = flex ? 3 : 0; break;
        case CONCAT: w = flex ? 8 : 0; break;
        case T_OPEN: w = 4; break;
        case T_PUSH: w = 3; break;
        case T_PUSHN: w = 3; break;
        case T_SET: w = 4; break;
        case T_UPDATE: w = 3; break;
        case T_TAKE: w = 2; break;
        case T_DROP: w = flex ? 2 : 0; break;
        case T_APPEND: w = flex ? 3 : 0; break;
        case T_PREPEND: w = flex ? 3 : 0; break;
        case T_PERSIST: w = 5; break;
        case T_COPY: w = 1; break;
        case T_END: w = 1; break;
        case T_CHECK: w = 1; break;
        case PUB: w = maxth > 1 ? 3 : 1; break;
        case RECV: w = maxth > 1 ? 3 : 1; break;
        case SHARED: w = maxth > 1 ? 5 : 1; break;
        case EQ: w = 1; break;
        case CHECK: w = 2; break;
        case IDENT: w = 1; break;
        case CONV: w = std::is_void_v<VecOfFlex> ? 0 : 1; break;
        case CHECK_ALL: w = 1; break;
        }
        bool trans = k >= T_OPEN && k <= T_CHECK;
        bool cat   = k == DROP || k == TAKE || k == INSERT || k == INSERT_V ||
                   k == ERASE || k == ERASE_R || k == CONCAT ||
                   k == PUSH_FRONT;
        switch (focus) {
        case FO_POINT:
            if (trans)
                w = 0;
            else if (cat && w)
                w = 1;
            break;
        case FO_CAT:
            if (trans)
                w = 0;
            else if (cat)
                w *= 4;
            break;
        case FO_TRANS:
            if (trans)
                w *= 4;
            break;
        case FO_FAULT:
            if (trans)
                w = w ? 1 : 0;
            break;
        case FO_FAULTM:
            if (trans)
                w *= 3;
            break;
        case FO_SHARE:
            if (k == PUB || k == RECV || k == SHARED || k == COPY)
                w *= 3;
            break;
        case FO_READ:
            if (k == EQ || k == CHECK || k == IDENT)
                w *= 10;
            if (trans && w)
                w = 1;
            break;
        case FO_STEAL:
            switch (k) {
            case RECV:
            case SHARED: w = 8; break;
            case SET:
            case UPDATE: w = 6; break;
            case PUB: w = 5; break;
            case COPY: w = 4; break;
            case TAKE: w = 8; break;
            case DROP: w = w ? 8 : 0; break;
            case PUSH:
            case PUSHN: w = 6; break;
            case CONCAT: w = w ? 3 : 0; break;
            case NEW: w = 3; break;
            case T_OPEN:
            case T_UPDATE:
            case T_TAKE:
            case T_DROP:
            case T_PUSHN: w = w ? 2 : 0; break;
            default: w = 0;
            }
            break;
        case FO_ABORT:
            w = k == RANGE || k == CONCAT || k == T_OPEN ? 3
                : k == T_APPEND || k == T_PREPEND        ? 6
                                                         : 0;
            break;
        case FO_MCAT:
        case FO_MCATF:
            switch (k) {
            case RANGE: w = 8; break;
            case CONCAT: w = 6; break;
            case T_OPEN: w = 6; break;
            case T_APPEND:
            case T_PREPEND: w = 10; break;
            case T_SET:
            case T_PUSH: w = 5; break;
            case T_PERSIST:
            case DROP: w = 3; break;
            case TAKE:
            case T_PUSHN:
            case T_DROP:
            case T_TAKE:
            case T_COPY: w = 2; break;
            case INSERT:
            case SET:
            case T_END:
            case CHECK_ALL: w = 1; break;
            default: w = 0;
            }
            break;
        case FO_TOKEN:
            switch (k) {
            case T_OPEN: w = 8; break;
            case T_PERSIST: w = 10; break;
            case T_PUSHN:
            case T_TAKE: w = 5; break;
            case T_DROP:
            case T_APPEND:
            case T_PREPEND: w = w ? 5 : 0; break;
            case T_SET: w = 2; break;
            case T_END: w = 2; break;
            case SET: w = 5; break;
            case CONCAT: w = w ? 4 : 0; break;
            case NEW:
            case COPY: w = 3; break;
            case CHECK_ALL: w = 1; break;
            default: w = 0;
            }
            break;
        default:
            break;
        }
        return w;
    }

    void gen(Rng& r, Program& p) override
    {
        int w[seqop::NOPS], tot = 0;
        for (int k = 0; k < seqop::NOPS; ++k) {
            w[k] = weight(k);
            // each run leaves some of the operations out
            if (k != seqop::RANGE && focus != FO_STEAL && r.chance(1, 4))
                w[k] = 0;
            tot += w[k];
        }
        p.nth = maxth > 1 ? 2 + r.below(maxth - 1) : 1;
        p.cfg[0] = r.below(6); // size profile
        p.cfg[1] = r.below(4); // how often a mode is an rvalue
        p.cfg[2] = r.chance(1, 2) ? 1 + r.below(1 << 16) : 0; // relaxed start
        if (focus == FO_STEAL) {
            p.cfg[0] = r.below(3);
            p.cfg[1] = 2 + r.below(2);
            p.cfg[2] |= 1;
            p.nth = 2 + (maxth > 2 && r.chance(1, 3));
            if (r.chance(1, 3)) {
                p.cfg[1] = 3;
                p.cfg[2] |= 3;
                steal_history(r, p);
                return;
            }
        }
        if (focus == FO_TOKEN) {
            p.cfg[0]         = r.below(3);
            p.cfg[CFG_ALLOC] = 1;
        }
        if (focus == FO_MCAT || focus == FO_MCATF ||
            ((focus == FO_FAULT || focus == FO_FAULTM) && r.chance(1, 3)))
            p.cfg[0] = r.below(4) / 2;
        p.cfg[3] = maxn > 5000 && r.chance(1, 40);
        for (int t = 0; t <= p.nth; ++t) {
            int n = t == 0      ? 0
                    : p.nth > 1 ? 2 + r.below(r.chance(1, 3) ? 20 : 8)
                                : 4 + r.below(r.chance(1, 4) ? 60 : 24);
            if (p.cfg[3] && n > 8)
                n = 8;
            if (focus == FO_MCAT && t)
                n += 30;
            for (int i = 0; i < n; ++i) {
                Op op;
                if (i == 0 && focus == FO_STEAL)
                    op.kind = r.chance(1, 2) ? seqop::RECV : seqop::SHARED;
                else if (i == 0 && r.chance(3, 4))
                    op.kind = seqop::RANGE;
                else {
                    int x = r.below(tot), k = 0;
                    while (x >= w[k])
                        x -= w[k++];
                    op.kind = k;
                }
                for (auto& a : op.a)
                    a = r.below(1 << 16);
                p.th[t].push_back(op);
            }
            if (focus == FO_TOKEN && t == 1 && r.chance(3, 4))
                p.th[t] = token_history(r);
        }
    }

    // two threads take over the two values that share nodes; one changes its
    // own in place at once, while the other lets go of its own
    void steal_history(Rng& r, Program& p)
    {
        using namespace seqop;
        auto add = [&](int t, int k, u32 src, u32 dst) {
            Op op;
            op.kind = k;
            op.a[0] = src + 4 * r.below(1000);
            op.a[1] = dst + 4 * r.below(1000);
            op.a[2] = r.below(1 << 16) | 1;
            op.a[3] = r.below(1 << 16);
            p.th[t].push_back(op);
        };
        static_assert(NS == 4 && NMB == 2, "");
        for (int t = 1; t <= p.nth; ++t) {
            bool edits = t == 1 || r.chance(1, 4);
            if (edits && r.chance(1, 2))
                for (u32 i = 1; i < NS; ++i)
                    add(t, RANGE, i, i);
            add(t, RECV, 0, t % 2);
            if (edits) {
                bool tr = r.chance(1, 2);
                if (tr)
                    add(t, T_OPEN, 0, 0);
                for (u32 i = 1 + r.below(3); i--;) {
                    static const int kt[] = {T_SET,  T_TAKE,   T_PUSHN,
                                             T_DROP, T_APPEND, T_PREPEND};
                    static const int kv[] = {SET,    TAKE,   PUSHN,  DROP,
                                             CONCAT, INSERT, ERASE_R};
                    if (tr)
                        add(t, kt[r.below(flex ? 6 : 3)], 0, r.below(4));
                    else
                        add(t, kv[r.below(flex ? 7 : 3)], 0, 0);
                }
                if (tr && r.chance(1, 2))
                    add(t, T_PERSIST, 0, 1);
            } else
                add(t, r.chance(1, 2) ? NEW : SET, 0, 0);
        }
    }

    // a transient that changes some nodes, copies of what it made that leave
    // fewer and fewer of them, its end, and a later transient of those copies
    std::vector<Op> token_history(Rng& r)
    {
        using namespace seqop;
        std::vector<Op> v;
        auto add = [&](int k, u32 src, u32 dst, u32 arg) {
            Op op;
            op.kind = k;
            op.a[0] = src + NS * r.below(1000);
            op.a[1] = dst + NS * r.below(1000);
            op.a[2] = arg;
            op.a[3] = r.below(1 << 16);
            v.push_back(op);
        };
        auto any = [&] { return r.below(1 << 16); };
        auto edit = [&](u32 t) {
            static const int k[] = {T_PUSH, T_PUSH, T_TAKE,
                                    T_SET,  T_PUSHN, T_APPEND};
            int n = 1 + r.below(3);
            for (int i = 0; i < n; ++i) {
                int o = k[r.below(flex ? 6 : 5)];
                add(o, t, r.below(NS), o == T_PUSHN ? r.below(6) : any());
            }
        };
        add(RANGE, 0, 0, any());
        if (flex) {
            add(RANGE, 3, 3, any());
            add(CONCAT, 0, 0, any());
            if (r.chance(1, 2))
                add(CONCAT, 3, 0, any());
        }
        int rounds = 1 + r.below(2);
        for (int i = 0; i < rounds; ++i) {
            add(T_OPEN, 0, 0, any());
            edit(0);
            add(T_PERSIST, 0, 1, any());
            int n = 1 + r.below(5);
            for (int j = 0; j < n; ++j)
                add(r.chance(3, 4) ? SET : PUSH, 1, 1, any());
            add(T_END, 0, 0, any());
            add(T_OPEN, 1, 1, any());
            if (r.chance(2, 3))
                add(T_SET, 1, 1, any());
            edit(1);
            add(CHECK_ALL, 0, 0, any());
            add(T_PERSIST, 1, 2, any());
            if (r.chance(1, 2))
                add(MOVE, 2, 0, any());
        }
        return v;
    }

    u32 profile = 0, rvmode = 0;
    bool deep   = false;
    u32 len(u32 a)
    {
        static const u32 lim[] = {5, 12, 40, 100, 200, 400};
        u32 l                  = lim[profile % 6];
        if (arr && l > 40)
            l = 40;
        u32 n = a % (l + 1);
        if (profile == 5 && (a >> 10) % 4 == 0)
            n = a % 2300;
        if (deep && (a >> 10) % 4 == 0)
            n = maxn - 2500 + a % 2500;
        return n > maxn ? n % maxn : n;
    }
    bool rval(u32 a) { return (a >> 8) % 4 < rvmode + 1 && rvmode < 3 ? (a & 1) : rvmode == 3; }

    void setup(const Program& p) override
    {
        nth     = p.nth;
        profile = p.cfg[0];
        deep    = p.cfg[3];
        rvmode  = p.cfg[1];
        set_elem_registry(E::tracked);
        th     = new Thread[nth + 1];
        shared = new Slot<C>[NSH];
        mb     = new Box[NMB];
        for (int i = 0; i < NSH; ++i) {
            shared[i].init();
            init_range(shared[i], 900000 + i * 10000, i == 0 ? 3 : len(p.cfg[0] * 977 + 35));
        }
        for (int i = 0; i < NMB; ++i) {
            mb[i].s.init();
            reset(mb[i].s);
        }
        if constexpr (flex)
            if (p.cfg[2]) {
                // a relaxed tree, and one that shares nodes with it
                Slot<C>& a = shared[1];
                Rng r(p.cfg[2]);
                for (u32 k = 1 + r.below(5); k--;) {
                    Slot<C> b;
                    b.init();
                    init_range(b, 700000 + k * 1000, r.below(12));
                    bool front = r.chance(1, 2);
                    Sut q;
                    if (front)
                        a.c() = b.c() + a.c();
                    else
                        a.c() = a.c() + b.c();
                    b.done();
                    NoSut z;
                    a.m.insert(front ? a.m.begin() : a.m.end(), b.m.begin(),
                               b.m.end());
                }
                if (!a.m.empty()) {
                    Sut q;
                    mb[0].s.c() = a.c().set(0, E::make(5));
                    NoSut z;
                    mb[0].s.m    = a.m;
                    mb[0].s.m[0] = mv<T>(5);
                    if (p.cfg[2] & 2) {
                        // and another one; the two have no other owner
                        {
                            Sut q;
                            mb[1].s.c() = a.c().set(a.m.size() - 1, E::make(6));
                            a.c()       = C{};
                        }
                        mb[1].s.m        = a.m;
                        mb[1].s.m.back() = mv<T>(6);
                        a.m.clear();
                    }
                }
            }
        if constexpr (!flex)
            if (p.cfg[2] && !shared[1].m.empty()) {
                Slot<C>& a = shared[1];
                auto n     = a.m.size();
                mb[0].s.m  = a.m;
                mb[1].s.m  = a.m;
                Sut q;
                mb[0].s.c() = a.c();
                mb[1].s.c() = a.c();
                if (p.cfg[2] & 4) {
                    mb[1].s.c() = a.c().set(n - 1, E::make(6));
                    NoSut z;
                    mb[1].s.m.back() = mv<T>(6);
                }
                if (p.cfg[2] & 2) {
                    a.c() = C{};
                    NoSut z;
                    a.m.clear();
                }
            }
    }
    void init_range(Slot<C>& s, u32 base, u32 n)
    {
        Sut q;
        s.emplace(GenIt<T>{base, 0}, GenIt<T>{base, n});
        NoSut z;
        s.m.clear();
        for (u32 i = 0; i < n; ++i)
            s.m.push_back(mv<T>(base + i));
    }
    void reset(Slot<C>& s)
    {
        s.m.clear();
        Sut q;
        s.emplace();
    }
    void thread_begin(int tid) override
    {
        for (auto& s : th[tid].s) {
            s.init();
            reset(s);
        }
        for (auto& t : th[tid].t)
            t.init();
    }
    void thread_end(int tid) override
    {
        u32 i = 0;
        for (auto& s : th[tid].s)
            check(s, i++ + tid);
        for (auto& t : th[tid].t)
            if (t.live)
                check_tr(t);
        for (auto& t : th[tid].t)
            t.done();
        for (auto& s : th[tid].s)
            s.done();
    }
    void finish() override
    {
        for (int i = 0; i < NSH; ++i)
            check(shared[i], i);
        for (int i = 0; i < NMB; ++i)
            check(mb[i].s, i);
        for (int i = 0; i < NSH; ++i)
            shared[i].done();
        for (int i = 0; i < NMB; ++i)
            mb[i].s.done();
    }

    // ------------------------------------------------------------ checking
    void bad(const char* how, const Model& m, size_t i, u32 got)
    {
        fail("wrong-content",
             "%s: element %zu of %zu is %u, the model says %u", how, i,
             m.size(), got, i < m.size() ? m[i] : 0);
    }
    template <class X>
    void check_any(const X& c, const Model& m, u32 how, const char* what)
    {
        Sut q;
        size_t n = m.size();
        if (c.size() != n)
            fail("wrong-size", "%s: size %zu, the model says %zu", what,
                 (size_t) c.size(), n);
        if (c.empty() != (n == 0))
            fail("wrong-size", "%s: empty() is wrong", what);
        if (n > most(c, 0))
            fail("wrong-size", "%s: size %zu, but max_size() is %zu", what, n,
                 (size_t) most(c, 0));
        note(n);
        size_t i = 0;
        switch (how % 4) {
        case 0:
            for (i = 0; i < n; ++i)
                if (E::get(c[i]) != m[i])
                    bad(what, m, i, E::get(c[i]));
            if constexpr (arr)
                for (i = 0; i < n; ++i)
                    if (E::get(c.data()[i]) != m[i])
                        bad("data", m, i, E::get(c.data()[i]));
            break;
        case 1:
            for (auto& x : c) {
                if (i >= n || E::get(x) != m[i])
                    bad("iteration", m, i, E::get(x));
                ++i;
            }
            if (i != n)
                fail("wrong-content", "iteration stops after %zu of %zu", i, n);
            break;
        case 2: {
            i      = n;
            auto e = c.rend();
            for (auto it = c.rbegin(); it != e; ++it) {
                --i;
                if (i >= n || E::get(*it) != m[i])
                    bad("reverse iteration", m, i, E::get(*it));
            }
            if (i != 0)
                fail("wrong-content", "reverse iteration leaves %zu", i);
            break;
        }
        case 3: {
            auto b = c.begin(), e = c.end();
            if ((size_t) (e - b) != n)
                fail("wrong-content", "end - begin is %ld for %zu elements",
                     (long) (e - b), n);
            size_t step = 1 + how / 4 % 7;
            size_t j    = 0;
            for (size_t k = 0; k < n; ++k) {
                j = (j + step * 5 + k) % n;
                auto it = b + j;
                if (E::get(*it) != m[j] || E::get(b[j]) != m[j])
                    bad("random access", m, j, E::get(*it));
                if ((size_t) (it - b) != j || (size_t) (e - it) != n - j)
                    fail("wrong-content", "iterator distance is wrong");
            }
            // walk there and back on one iterator
            auto it = b;
            for (size_t k = 0; k + 1 < n; ++k)
                ++it;
            for (size_t k = n; k-- > 1;) {
                if (E::get(*it) != m[k])
                    bad("walking back", m, k, E::get(*it));
                --it;
            }
            // and jump about with it
            size_t at = 0;
            for (size_t k = 0; k < n && k < 24; ++k) {
                j = (j + step * 3 + k * k) % n;
                if (k % 3 == 0)
                    it += (std::ptrdiff_t) j - (std::ptrdiff_t) at;
                else if (k % 3 == 1)
                    it -= (std::ptrdiff_t) at - (std::ptrdiff_t) j;
                else {
                    auto was = it;
                    it       = it + ((std::ptrdiff_t) j - (std::ptrdiff_t) at);
                    if ((was < it) != (at < j) || (was == it) != (at == j) ||
                        (was >= it) != (at >= j))
                        fail("wrong-content", "iterators compare wrongly");
                }
                at = j;
                if (E::get(*it) != m[j])
                    bad("jumping", m, j, E::get(*it));
            }
            break;
        }
        }
    }

    void check(Slot<C>& s, u32 how)
    {
        const C& c     = s.c();
        const Model& m = s.m;
        size_t n       = m.size();
        u32 meth       = how % 9;
        if (meth < 4) {
            check_any(c, m, how % 4 + (how / 9) * 4, "value");
            return;
        }
        Sut q;
        if (c.size() != n)
            fail("wrong-size", "size %zu, the model says %zu",
                 (size_t) c.size(), n);
        note(n);
        size_t i = 0;
        switch (meth) {
        case 4:
            immer::for_each_chunk(c, [&](auto b, auto e) {
                if (b == e && n)
                    probe("empty-chunk");
                for (; b != e; ++b, ++i)
                    if (i >= n || E::get(*b) != m[i])
                        bad("for_each_chunk", m, i, E::get(*b));
            });
            if (i != n)
                fail("wrong-content", "for_each_chunk visits %zu of %zu", i, n);
            break;
        case 5: {
            // stops where it is told to, and says so
            u32 stop = (how / 9) % 5, k = 0;
            bool stopped = false;
            bool r = immer::for_each_chunk_p(c, [&](auto b, auto e) {
                if (stopped)
                    fail("wrong-content", "for_each_chunk_p goes on after the end");
                for (; b != e; ++b, ++i)
                    if (i >= n || E::get(*b) != m[i])
                        bad("for_each_chunk_p", m, i, E::get(*b));
                if (k++ == stop) {
                    stopped = true;
                    return false;
                }
                return true;
            });
            if (r == stopped || (!stopped && i != n))
                fail("wrong-content", "for_each_chunk_p returns %d after %zu of %zu",
                     r, i, n);
            break;
        }
        case 6: {
            size_t a = n ? (how / 9) % (n + 1) : 0;
            size_t b = n ? a + (how / 13) % (n - a + 1) : 0;
            i        = a;
            immer::for_each_chunk(c.begin() + a, c.begin() + b,
                                  [&](auto x, auto y) {
                                      for (; x != y; ++x, ++i)
                                          if (i >= b || E::get(*x) != m[i])
                                              bad("ranged for_each_chunk", m,
                                                  i, E::get(*x));
                                  });
            if (i != b)
                fail("wrong-content",
                     "for_each_chunk over [%zu, %zu) stops at %zu", a, b, i);
            u64 sum = immer::accumulate(
                c.begin() + a, c.begin() + b, (u64) 7,
                [](u64 s, const T& x) { return s * 31 + E::get(x); });
            u64 ms = 7;
            for (size_t k = a; k < b; ++k)
                ms = ms * 31 + m[k];
            if (sum != ms)
                fail("wrong-content", "accumulate over [%zu, %zu) is wrong", a,
                     b);
            i        = a;
            auto put = [&](const T& x) {
                if (i >= b || E::get(x) != m[i])
                    bad("ranged copy", m, i, E::get(x));
                ++i;
            };
            immer::copy(c.begin() + a, c.begin() + b, OutIt<decltype(put)>{&put});
            size_t lim = b > a ? a + (how / 17) % (b - a) : 0, seen = a;
            bool some  = immer::all_of(
                c.begin() + a, c.begin() + b, [&](const T& x) {
                    if (seen >= b || E::get(x) != m[seen])
                        bad("ranged all_of", m, seen, E::get(x));
                    return seen++ < lim;
                });
            if (i != b || (b > a ? some || seen != lim + 1 : !some))
                fail("wrong-content", "copy / all_of over [%zu, %zu) is wrong",
                     a, b);
            break;
        }
        case 7: {
            u64 sum = immer::accumulate(
                c, (u64) 7,
                [](u64 s, const T& x) { return s * 31 + E::get(x); });
            u64 ms = 7;
            for (auto x : m)
                ms = ms * 31 + x;
            if (sum != ms)
                fail("wrong-content", "accumulate is wrong");
            i = 0;
            immer::for_each(c, [&](const T& x) {
                if (i >= n || E::get(x) != m[i])
                    bad("for_each", m, i, E::get(x));
                ++i;
            });
            size_t out = 0;
            auto put   = [&](const T& x) {
                if (out >= n || E::get(x) != m[out])
                    bad("copy", m, out, E::get(x));
                ++out;
            };
            immer::copy(c, OutIt<decltype(put)>{&put});
            if (out != n)
                fail("wrong-content", "copy writes %zu of %zu", out, n);
            bool all = immer::all_of(c, [&](const T& x) {
                return E::get(x) != MOVED;
            });
            if (i != n || !all)
                fail("wrong-content", "for_each / all_of is wrong");
            size_t a = n ? (how / 9) % (n + 1) : 0;
            i        = a;
            immer::for_each(c.begin() + a, c.end(), [&](const T& x) {
                if (i >= n || E::get(x) != m[i])
                    bad("ranged for_each", m, i, E::get(x));
                ++i;
            });
            if (i != n)
                fail("wrong-content", "for_each from %zu stops at %zu", a, i);
            if constexpr (std::is_arithmetic_v<T>) {
                ms = 7;
                for (size_t k = a; k < n; ++k)
                    ms += m[k];
                if (immer::accumulate(c.begin() + a, c.end(), (u64) 7) != ms)
                    fail("wrong-content", "a plain accumulate is wrong");
                for (size_t k = 0; k < a; ++k)
                    ms += m[k];
                if (immer::accumulate(c, (u64) 7) != ms)
                    fail("wrong-content", "a plain accumulate is wrong");
            }
            size_t lim = n ? (how / 9) % n : 0, seen = 0;
            bool some = immer::all_of(c, [&](const T& x) {
                if (E::get(x) != m[seen])
                    bad("all_of", m, seen, E::get(x));
                return seen++ < lim;
            });
            if (n && (some || seen != lim + 1))
                fail("wrong-content", "all_of does not stop at the first failure");
            break;
        }
        case 8: {
            for (i = 0; i < n; ++i)
                if (E::get(c.at(i)) != m[i])
                    bad("at", m, i, E::get(c.at(i)));
            for (size_t o : {(size_t) 0, (size_t) 1, (size_t) 40, ~(size_t) 0 - n}) {
                bool thrown = false;
                try {
                    (void) c.at(n + o);
                } catch (std::out_of_range&) {
                    thrown = true;
                }
                if (!thrown)
                    fail("wrong-content", "at(%zu) of %zu does not throw",
                         n + o, n);
            }
            if (n && (E::get(c.front()) != m[0] || E::get(c.back()) != m[n - 1]))
                fail("wrong-content", "front or back is wrong");
            break;
        }
        }
    }
    void check_tr(Slot<TR>& t)
    {
        const TR& c    = t.c();
        const Model& m = t.m;
        size_t n       = m.size();
        check_any(c, m, 1 + (u32) n % 3, "transient");
        Sut q;
        if (!n)
            return;
        if constexpr (arr)
            if (E::get(c.front()) != m[0] || E::get(c.back()) != m[n - 1])
                fail("wrong-content", "front or back of a transient is wrong");
        for (size_t i : {n * 5 / 7, n / 3, n - 1})
            if (E::get(c[i]) != m[i] || E::get(c.at(i)) != m[i])
                bad("transient", m, i, E::get(c[i]));
        if constexpr (arr)
            if (&c.data()[n / 2] != &c[n / 2])
                fail("wrong-content", "data() of a transient is wrong");
        bool thrown = false;
        try {
            (void) c.at(n + (n & 1));
        } catch (std::out_of_range&) {
            thrown = true;
        }
        if (!thrown)
            fail("wrong-content", "at(%zu) of a transient does not throw", n);
    }
    // every value a thread holds, other than slot j, still is what it was
    void check_others(int tid, u32 how)
    {
        Thread& x = th[tid];
        check(x.s[how % NS], how / NS);
        check(shared[how / 3 % NSH], how / 5);
        if (x.t[how % NT].live)
            check_tr(x.t[how % NT]);
    }
    void check_all(int tid, u32 how)
    {
        Thread& x = th[tid];
        for (int i = 0; i < NS; ++i)
            check(x.s[i], how + i);
        for (int i = 0; i < NT; ++i)
            if (x.t[i].live)
                check_tr(x.t[i]);
        for (int i = 0; i < NSH; ++i)
            check(shared[i], how);
    }

    u32 fmask() { return FM_ALLOC | FM_THROW; }

    // an rvalue that was given to an operation that threw may hold any valid
    // value: it can be traversed and assigned to
    void revive(Slot<C>& s)
    {
        Sut q;
        size_t n = 0;
        for (auto& x : s.c()) {
            (void) E::get(x);
            ++n;
        }
        if (n != s.c().size())
            fail("wrong-size", "a value left by a failed operation has size "
                               "%zu but %zu elements", (size_t) s.c().size(), n);
        s.c() = C{};
        for (u32 v : s.m)
            s.c() = std::move(s.c()).push_back(E::of(v));
    }

    void revive(Slot<TR>& t)
    {
        Sut q;
        size_t n = 0;
        for (auto& x : t.c()) {
            (void) E::get(x);
            ++n;
        }
        if (n != t.c().size())
            fail("wrong-size", "a transient left by a failed operation has "
                               "size %zu but %zu elements", (size_t) t.c().size(), n);
        t.c() = TR{};
        for (u32 v : t.m)
            t.c().push_back(E::of(v));
    }

    // makes a value out of slot s (as an rvalue when r) and puts it into d
    // strict: a failed operation leaves even an rvalue as it was
    template <class F>
    void derive(int tid, Slot<C>& s, Slot<C>& d, bool r, const Model& want,
                u32 how, F&& f, bool strict = true)
    {
        alignas(C) char buf[sizeof(C)];
        C* out = (C*) buf;
        attempt(
            fmask(), [&] { new (out) C(f(r)); },
            [&] {
                // what the operation was given is as it was
                if (r && !strict)
                    revive(s);
                check(s, how);
                check_all(tid, how);
            });
        // moving a value from a place to another never throws
        if (r && &s != &d) {
            // a moved-from value can be assigned to
            Sut q;
            s.c() = C{};
            NoSut z;
            s.m.clear();
        }
        {
            Sut q;
            if (how & 1)
                d.c() = std::move(*out);
            else {
                d.c() = *out;
                if (how & 2)
                    *out = C{};
            }
            out->~C();
        }
        d.m = want;
        check(d, how);
    }

    // what to put in: a value of its own, or an element of the container that
    // is operated on
    struct Own
    {
        bool at;
        size_t j;
        u32 v;
    };
    static Own own(const Model& m, const Op& op, u32 v)
    {
        Own o{!m.empty() && (op.a[3] >> 9) % 4 == 0, 0, mv<T>(v)};
        if (o.at) {
            u32 w = op.a[3] >> 11;
            o.j = w % 4 == 0 ? m.size() - 1
                             : w % 4 == 1 ? 0 : (op.a[2] * 7 + v) % m.size();
            o.v = m[o.j];
        }
        return o;
    }

    void run_op(int tid, const Op& op) override
    {
        using namespace seqop;
        Thread& x   = th[tid];
        Slot<C>& s  = x.s[op.a[0] % NS];
        Slot<C>& d  = x.s[op.a[1] % NS];
        Slot<TR>& t = x.t[op.a[0] % NT];
        u32 base    = (u32) op.id * 1000;
        u32 how     = op.a[3];
        bool r      = rval(op.a[2]);
        Model m     = s.m;
        size_t n    = m.size();
        size_t idx  = n ? (op.a[2] >> 2) % n : 0;
        auto U      = [&](auto&& v) -> decltype(auto) {
            return std::forward<decltype(v)>(v);
        };
        (void) U;
        switch (op.kind) {
        case NEW: {
            Sut q;
            if (how & 1)
                d.c() = C{};
            else
                d.emplace();
            NoSut z;
            d.m.clear();
            break;
        }
        case FILL: {
            u32 k = len(op.a[2]);
            T v   = E::make(base);
            Model w(k, mv<T>(base));
            derive(tid, s, d, false, w, how, [&](bool) { return C(k, v); });
            break;
        }
        case RANGE: {
            u32 k = len(op.a[2]);
            Model w;
            for (u32 i = 0; i < k; ++i)
                w.push_back(mv<T>(base + i));
            auto g = [&](u32 i) { return E::make(base + i); };
            typename GenOnce<T>::Src src;
            derive(tid, s, d, false, w, how, [&](bool) {
                switch (how / 4 % 8) {
                case 0:
                case 1:
                    return C(GenIt<T>{base, 0}, GenEnd{k});
                case 2:
                    if constexpr (!arr) {
                        src = {base, k, 0};
                        return C(GenOnce<T>{&src, 0}, GenOnce<T>{nullptr, 0});
                    }
                    break;
                case 3:
                    switch (k) {
                    case 0: return C(std::initializer_list<T>{});
                    case 1: return C{g(0)};
                    case 2: return C{g(0), g(1)};
                    case 3: return C{g(0), g(1), g(2)};
                    case 4: return C{g(0), g(1), g(2), g(3)};
                    case 5: return C{g(0), g(1), g(2), g(3), g(4)};
                    case 6: return C{g(0), g(1), g(2), g(3), g(4), g(5)};
                    }
                }
                return C(GenIt<T>{base, 0}, GenIt<T>{base, k});
            });
            break;
        }
        case COPY: {
            Sut q;
            if (how & 1)
                d.c() = s.c();
            else {
                C tmp{s.c()};
                d.c() = tmp;
            }
            NoSut z;
            d.m = m;
            check(d, how);
            break;
        }
        case MOVE: {
            {
                Sut q;
                if (how & 1) {
                    C tmp{std::move(s.c())};
                    if (&s != &d)
                        s.c() = C{};
                    d.c() = std::move(tmp);
                } else {
                    d.c() = std::move(s.c());
                    if (&s != &d)
                        s.c() = C{};
                }
            }
            if (&s != &d)
                s.m.clear();
            d.m = m;
            check(d, how);
            check(s, how);
            break;
        }
        case PUSH: {
            T v     = E::make(base);
            auto o  = own(m, op, base);
            Model w = m;
            w.push_back(o.v);
            if (w.size() > maxn)
                break;
            derive(tid, s, d, r, w, how, [&](bool r) {
                const T& a = o.at ? s.c()[o.j] : v;
                return r ? std::move(s.c()).push_back(a) : s.c().push_back(a);
            });
            break;
        }
        case PUSHN: {
            u32 k = len(op.a[2]);
            if (n + k > maxn || (arr && k > 12))
                k = k % 7;
            Model w = m;
            for (u32 i = 0; i < k; ++i) {
                w.push_back(mv<T>(base + i));
                T v = E::make(base + i);
                derive(tid, s, s, r, w, i + 1 < k ? 0 : how, [&](bool r) {
                    if (how & 4) {
                        T u = v;
                        return r ? std::move(s.c()).push_back(std::move(u))
                                 : s.c().push_back(std::move(u));
                    }
                    return r ? std::move(s.c()).push_back(v)
                             : s.c().push_back(v);
                });
            }
            break;
        }
        case SET: {
            if (!n)
                break;
            T v     = E::make(base);
            auto o  = own(m, op, base);
            Model w = m;
            w[idx]  = o.v;
            derive(tid, s, d, r, w, how, [&](bool r) {
                const T& a = o.at ? s.c()[o.j] : v;
                return r ? std::move(s.c()).set(idx, a) : s.c().set(idx, a);
            });
            break;
        }
        case UPDATE: {
            if (!n)
                break;
            Model w  = m;
            u32 nv   = std::is_same_v<T, unsigned char> ? mv<T>(base) : base ^ w[idx];
            u32 old  = w[idx];
            w[idx]   = nv;
            bool rr = false;
            auto fn = [&](auto&& y) -> T {
                NoSut z;
                // an rvalue whose update throws may hand its element over
                if (E::get(y) != old)
                    fail("wrong-content", "update is given %u, not %u",
                         E::get(y), old);
                preempt();
                maybe_throw(9);
                return E::make(std::is_same_v<T, unsigned char> ? base : nv);
            };
            (void) rr;
            derive(tid, s, d, r, w, how, [&](bool r) {
                return r ? std::move(s.c()).update(idx, fn)
                         : s.c().update(idx, fn);
            });
            break;
        }
        case TAKE: {
            size_t k = (op.a[2] >> 2) % (n + 3);
            Model w(m.begin(), m.begin() + (k < n ? k : n));
            derive(tid, s, d, r, w, how, [&](bool r) {
                return r ? std::move(s.c()).take(k) : s.c().take(k);
            });
            break;
        }
        case T_OPEN: {
            if (r) {
                {
                    Sut q;
                    t.emplace(std::move(s.c()).transient());
                    s.c() = C{};
                }
                s.m.clear();
            } else {
                Sut q;
                t.emplace(s.c().transient());
            }
            t.m = m;
            check_tr(t);
            break;
        }
        case T_PUSH:
        case T_PUSHN: {
            if (!t.live)
                break;
            u32 k = op.kind == T_PUSH ? 1 : len(op.a[2]);
            if (t.m.size() + k > maxn)
                k = k % 5;
            for (u32 i = 0; i < k; ++i) {
                T v    = E::make(base + i);
                auto o = own(t.m, op, base + i);
                attempt(
                    fmask(),
                    [&] {
                        const T& a = o.at ? t.c()[o.j] : v;
                        t.c().push_back(a);
                    },
                    [&] {
                        check_tr(t);
                        check_all(tid, how);
                    });
                t.m.push_back(o.v);
            }
            check_tr(t);
            break;
        }
        case T_SET: {
            if (!t.live || t.m.empty())
                break;
            idx    = (op.a[2] >> 2) % t.m.size();
            T v    = E::make(base);
            auto o = own(t.m, op, base);
            attempt(
                fmask(),
                [&] {
                    if constexpr (arr)
                        if (how & 4) {
                            T* p = t.c().data_mut();
                            if (t.m.size() && E::get(p[idx]) != t.m[idx])
                                bad("data_mut", t.m, idx, E::get(p[idx]));
                            p[idx] = o.at ? p[o.j] : v;
                            return;
                        }
                    const T& a = o.at ? t.c()[o.j] : v;
                    t.c().set(idx, a);
                },
                [&] {
                    check_tr(t);
                    check_all(tid, how);
                });
            t.m[idx] = o.v;
            check_tr(t);
            break;
        }
        case T_UPDATE: {
            if (!t.live || t.m.empty())
                break;
            idx     = (op.a[2] >> 2) % t.m.size();
            u32 old = t.m[idx];
            u32 nv  = std::is_same_v<T, unsigned char> ? mv<T>(base) : base ^ old;
            attempt(
                fmask(),
                [&] {
                    t.c().update(idx, [&](auto&& y) -> T {
                        NoSut z;
                        if (E::get(y) != old)
                            fail("wrong-content", "update is given %u, not %u",
                                 E::get(y), old);
                        preempt();
                        maybe_throw(9);
                        return E::make(std::is_same_v<T, unsigned char> ? base
                                                                       : nv);
                    });
                },
                [&] {
                    check_tr(t);
                    check_all(tid, how);
                });
            t.m[idx] = nv;
            check_tr(t);
            break;
        }
        case T_TAKE: {
            if (!t.live)
                break;
            size_t k = (op.a[2] >> 2) % (t.m.size() + 3);
            attempt(
                fmask(), [&] { t.c().take(k); },
                [&] {
                    check_tr(t);
                    check_all(tid, how);
                });
            if (k < t.m.size())
                t.m.resize(k);
            check_tr(t);
            break;
        }
        case T_PERSIST: {
            if (!t.live)
                break;
            Model w = t.m;
            if (r) {
                {
                    Sut q;
                    d.c() = std::move(t.c()).persistent();
                }
                t.clear();
            } else {
                Sut q;
                d.c() = t.c().persistent();
            }
            d.m = w;
            check(d, how);
            if (t.live)
                check_tr(t);
            break;
        }
        case T_COPY: {
            Slot<TR>& u = x.t[(op.a[0] + 1) % NT];
            if (!t.live)
                break;
            {
                Sut q;
                if (u.live && (how & 1))
                    u.c() = t.c();
                else
                    u.emplace(t.c());
            }
            u.m = t.m;
            check_tr(u);
            check_tr(t);
            break;
        }
        case T_END:
            t.clear();
            break;
        case T_CHECK:
            if (t.live)
                check_any(t.c(), t.m, how, "transient");
            break;
        case PUB: {
            Box& b = mb[op.a[1] % NMB];
            Lock l(b.mu);
            {
                Sut q;
                if (how & 1)
                    b.s.c() = s.c();
                else if (r) {
                    b.s.c() = std::move(s.c());
                    s.c()   = C{};
                } else {
                    C tmp   = s.c();
                    b.s.c() = std::move(tmp);
                }
            }
            b.s.m = m;
            if (r && !(how & 1))
                s.m.clear();
            break;
        }
        case RECV: {
            Box& b = mb[op.a[1] % NMB];
            {
                Lock l(b.mu);
                Sut q;
                if (r) {
                    s.c()   = std::move(b.s.c());
                    b.s.c() = C{};
                } else
                    s.c() = b.s.c();
                NoSut z;
                s.m = b.s.m;
                if (r)
                    b.s.m.clear();
            }
            check(s, how);
            break;
        }
        case SHARED: {
            Slot<C>& h = shared[op.a[1] % NSH];
            check(h, how);
            {
                Sut q;
                s.c() = h.c();
            }
            s.m = h.m;
            check(s, how + 1);
            break;
        }
        case EQ: {
            bool eq = false, ne = false;
            attempt(
                fmask(),
                [&] {
                    eq = s.c() == d.c();
                    ne = s.c() != d.c();
                },
                [&] { check_all(tid, how); });
            if (eq != (s.m == d.m) || ne == eq)
                fail("wrong-equality", "== says %d, != says %d, the models %d",
                     eq, ne, s.m == d.m);
            if constexpr (flex)
                if (n) { // the same contents in other shapes
                    Sut q;
                    u32 h = how * 2654435761u + op.a[2];
                    C re  = s.c();
                    for (int i = 0; i < 1 + int(h >> 3) % 4; ++i) {
                        h        = h * 1664525u + 1013904223u;
                        size_t k = (h >> 12) % (n + 1);
                        switch ((h >> 8) % 6) {
                        case 0: re = re.insert(k, E::make(1)).erase(k); break;
                        case 1: re = re.push_front(E::make(2)).drop(1); break;
                        case 2: re = re.push_back(E::make(3)).take(n); break;
                        case 3: re = s.c().take(k) + re.drop(k); break;
                        case 4: re = re.take(k) + s.c().drop(k); break;
                        default: re = re.take(k) + re.drop(k); break;
                        }
                    }
                    if (!(re == s.c()) || s.c() != re)
                        fail("wrong-equality",
                             "an equal value of another shape compares "
                             "different");
                    C other = re.set(idx, E::make(0xffffff01));
                    if (E::get(other[idx]) != m[idx] &&
                        (other == s.c() || !(s.c() != other)))
                        fail("wrong-equality",
                             "a different value of another shape compares "
                             "equal (element %zu of %zu)",
                             idx, n);
                }
            if (n < 60) {
                Sut q;
                C fresh(n, E::make(0));
                for (size_t i = 0; i < n; ++i)
                    fresh = fresh.set(i, s.c()[i]);
                if (!(fresh == s.c()) || fresh != s.c())
                    fail("wrong-equality", "an equal value compares different");
                if (n) {
                    C other = fresh.set(idx, E::make(0xffffff01));
                    if (E::get(other[idx]) != m[idx] &&
                        (other == s.c() || !(s.c() != other)))
                        fail("wrong-equality",
                             "a different value compares equal (element %zu "
                             "of %zu)",
                             idx, n);
                }
            }
            break;
        }
        case CHECK:
            check(s, how);
            break;
        case CHECK_ALL:
            check_all(tid, how);
            break;
        case IDENT: {
            Sut q;
            for (auto& y : x.s) {
                bool same = y.c().identity() == s.c().identity();
                if (same && y.m != m)
                    fail("wrong-identity",
                         "two different values have the same identity");
                C copy = y.c();
                if (copy.identity() != y.c().identity())
                    probe("copy-changes-identity");
            }
            break;
        }
        default:
            if constexpr (flex)
                flex_op(tid, op);
            break;
        }
        check_others(tid, how);
    }

    void flex_op(int tid, const Op& op)
    {
        using namespace seqop;
        Thread& x   = th[tid];
        Slot<C>& s  = x.s[op.a[0] % NS];
        Slot<C>& d  = x.s[op.a[1] % NS];
        Slot<TR>& t = x.t[op.a[0] % NT];
        u32 base    = (u32) op.id * 1000;
        u32 how     = op.a[3];
        bool r      = rval(op.a[2]);
        Model m     = s.m;
        size_t n    = m.size();
        switch (op.kind) {
        case DROP: {
            size_t k = (op.a[2] >> 2) % (n + 3);
            Model w(m.begin() + (k < n ? k : n), m.end());
            derive(tid, s, d, r, w, how, [&](bool r) {
                return r ? std::move(s.c()).drop(k) : s.c().drop(k);
            });
            break;
        }
        case PUSH_FRONT: {
            if (n >= maxn)
                break;
            T v    = E::make(base);
            auto o = own(m, op, base);
            Model w{o.v};
            w.insert(w.end(), m.begin(), m.end());
            derive(tid, s, d, false, w, how, [&](bool) {
                const T& a = o.at ? s.c()[o.j] : v;
                return s.c().push_front(a);
            });
            break;
        }
        case INSERT: {
            if (n >= maxn)
                break;
            size_t p = (op.a[2] >> 2) % (n + 1);
            T v      = E::make(base);
            auto o   = own(m, op, base);
            Model w  = m;
            w.insert(w.begin() + p, o.v);
            derive(tid, s, d, r, w, how, [&](bool r) {
                const T& a = o.at ? s.c()[o.j] : v;
                return r ? std::move(s.c()).insert(p, a) : s.c().insert(p, a);
            }, false);
            break;
        }
        case INSERT_V: {
            Slot<C>& k = x.s[(how >> 4) % NS];
            if (n + k.m.size() > maxn)
                break;
            size_t p = (op.a[2] >> 2) % (n + 1);
            Model w  = m;
            w.insert(w.begin() + p, k.m.begin(), k.m.end());
            derive(tid, s, d, r, w, how, [&](bool r) {
                if (&k == &s && r) {
                    C copy = k.c();
                    return std::move(s.c()).insert(p, copy);
                }
                return r ? std::move(s.c()).insert(p, k.c())
                         : s.c().insert(p, k.c());
            }, false);
            break;
        }
        case ERASE: {
            if (!n)
                break;
            size_t p = (op.a[2] >> 2) % n;
            Model w  = m;
            w.erase(w.begin() + p);
            derive(tid, s, d, r, w, how, [&](bool r) {
                return r ? std::move(s.c()).erase(p) : s.c().erase(p);
            }, false);
            break;
        }
        case ERASE_R: {
            size_t p = (op.a[2] >> 2) % (n + 1);
            size_t q = p + (how >> 3) % (n - p + 1);
            Model w  = m;
            w.erase(w.begin() + p, w.begin() + q);
            derive(tid, s, d, r, w, how, [&](bool r) {
                // the rvalue form only compiles where rvalues are reused
                if constexpr (rv)
                    if (r)
                        return C(std::move(s.c()).erase(p, q));
                return C(s.c().erase(p, q));
            }, false);
            break;
        }
        case CONCAT: {
            Slot<C>& k = x.s[(how >> 4) % NS];
            if (n + k.m.size() > maxn) {
                // make room instead
                derive(tid, s, s, r, Model(m.begin(), m.begin() + n / 3), how,
                       [&](bool r) {
                           return r ? std::move(s.c()).take(n / 3)
                                    : s.c().take(n / 3);
                       });
                break;
            }
            Model w = m;
            w.insert(w.end(), k.m.begin(), k.m.end());
            int mode = op.a[2] >> 3 & 3;
            if (!r || &k == &s)
                mode = 0;
            Model km = k.m;
            if (mode == 2 || mode == 3) {
                // the right operand is given away: it may be anything after
                alignas(C) char buf[sizeof(C)];
                C* out = (C*) buf;
                attempt(
                    fmask(),
                    [&] {
                        if (mode == 2)
                            new (out) C(s.c() + std::move(k.c()));
                        else
                            new (out) C(std::move(s.c()) + std::move(k.c()));
                    },
                    [&] {
                        revive(k);
                        if (mode == 3)
                            revive(s);
                        check(s, how);
                        check_all(tid, how);
                    });
                {
                    Sut q;
                    k.c() = C{};
                    if (mode == 3)
                        s.c() = C{};
                    d.c() = std::move(*out);
                    out->~C();
                }
                k.m.clear();
                if (mode == 3)
                    s.m.clear();
                d.m = w;
                check(d, how);
            } else
                derive(tid, s, d, mode == 1, w, how, [&](bool r) {
                    return r ? std::move(s.c()) + k.c() : s.c() + k.c();
                });
            break;
        }
        case T_DROP: {
            if (!t.live)
                break;
            size_t k = (op.a[2] >> 2) % (t.m.size() + 3);
            attempt(
                fmask(), [&] { t.c().drop(k); },
                [&] {
                    check_tr(t);
                    check_all(tid, how);
                });
            t.m.erase(t.m.begin(),
                      t.m.begin() + (k < t.m.size() ? k : t.m.size()));
            check_tr(t);
            break;
        }
        case T_APPEND:
        case T_PREPEND: {
            Slot<TR>& u = x.t[(op.a[0] + 1) % NT];
            if (!t.live)
                break;
            if (!u.live) {
                Sut q;
                u.emplace(d.c().transient());
                NoSut z;
                u.m = d.m;
            }
            if (t.m.size() + u.m.size() > maxn)
                break;
            bool ap = op.kind == T_APPEND;
            // with owner tokens a failure while concatenating in place ends
            // the process, or leaves both transients useless (see the known
            // findings, which FO_ABORT meets); all else stays as it was
            bool lost = false;
            if (gc)
                may_terminate(true);
            attempt(
                fmask(),
                [&] {
                    if (lost)
                        return;
                    if (ap && r)
                        t.c().append(std::move(u.c()));
                    else if (ap)
                        t.c().append(u.c());
                    else if (r)
                        t.c().prepend(std::move(u.c()));
                    else
                        t.c().prepend(u.c());
                },
                [&] {
                    if (gc && focus != FO_ABORT) {
                        lost   = true;
                        t.live = false; // not even to be destroyed
                        if (r)
                            u.live = false;
                        else
                            check_tr(u);
                        check_all(tid, how);
                        return;
                    }
                    if (r)
                        revive(u);
                    check_tr(t);
                    check_tr(u);
                    check_all(tid, how);
                });
            may_terminate(false);
            if (lost)
                break;
            if (ap)
                t.m.insert(t.m.end(), u.m.begin(), u.m.end());
            else
                t.m.insert(t.m.begin(), u.m.begin(), u.m.end());
            if (r)
                u.clear();
            check_tr(t);
            if (u.live)
                check_tr(u);
            break;
        }
        case CONV:
            if constexpr (!std::is_void_v<VecOfFlex>) {
                u32 k = len(op.a[2]);
                Sut q;
                VecOfFlex v(GenIt<T>{base, 0}, GenIt<T>{base, k});
                if (how & 4) {
                    // a transient becomes a more flexible one
                    if (how & 1)
                        t.emplace(v.transient());
                    else
                        t.emplace(std::move(v).transient());
                    NoSut z;
                    t.m.clear();
                    for (u32 i = 0; i < k; ++i)
                        t.m.push_back(mv<T>(base + i));
                    check_tr(t);
                    break;
                }
                if (how & 1) {
                    d.c() = C(v);
                    if (v.size() != k)
                        fail("wrong-size", "conversion changed its source");
                } else
                    d.c() = C(std::move(v));
                NoSut z;
                d.m.clear();
                for (u32 i = 0; i < k; ++i)
                    d.m.push_back(mv<T>(base + i));
                check(d, how);
            }
            break;
        default:
            break;
        }
    }
};

} // namespace sim
