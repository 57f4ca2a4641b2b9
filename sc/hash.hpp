// set, map, table and their transients against std::map models
#pragma once
#include "common.hpp"

#include <immer/algorithm.hpp>
#include <immer/map.hpp>
#include <immer/map_transient.hpp>
#include <immer/set.hpp>
#include <immer/set_transient.hpp>
#include <immer/table.hpp>
#include <immer/table_transient.hpp>

#include <map>
#include <stdexcept>

namespace sim {

enum HFocus
{
    HF_ALL,
    HF_TRANS,  // transients and rvalues
    HF_FAULT,  // failures, on values
    HF_FAULTM, // failures of in-place operations
    HF_SHARE,  // values crossing threads
    HF_STEAL,  // rvalues and transients of values other threads let go of
    HF_DIFF,   // diff and equality
};

namespace hashop {
enum
{
    NEW,
    RANGE,
    COPY,
    MOVE,
    INSERT,
    INSN,
    SET,
    UPDATE,
    UPDIF,
    ERASE,
    ERASEN,
    FIND,
    T_OPEN,
    T_INSERT,
    T_INSN,
    T_SET,
    T_UPDATE,
    T_UPDIF,
    T_ERASE,
    T_ERASEN,
    T_PERSIST,
    T_COPY,
    T_END,
    T_CHECK,
    PUB,
    RECV,
    SHARED,
    EQ,
    DIFF,
    CHECK,
    IDENT,
    CHECK_ALL,
    NOPS
};
inline const char* names[] = {
    "new",      "range",     "copy",      "move",    "insert",  "insert-n",
    "set",      "update",    "update-if", "erase",   "erase-n", "find",
    "t-open",   "t-insert",  "t-insert-n", "t-set",  "t-update", "t-update-if",
    "t-erase",  "t-erase-n", "t-persist", "t-copy",  "t-end",   "t-check",
    "publish",  "receive",   "shared",    "eq",      "diff",    "check",
    "identity", "check-all", nullptr};
} // namespace hashop

// how keys hash in this run: many bit patterns are chosen to collide in part
// or as a whole
inline u32 g_hash_mode = 0;
inline size_t hash_of(u32 k)
{
    switch (g_hash_mode) {
    case 0: return k;
    case 1: return 7; // all collide
    case 2: return k % 3;
    case 3: return (size_t) k << 58; // equal up to the last level
    case 4: return (k & 1) | ((size_t) (k >> 1) << 40);
    case 5: return (size_t) (k % 4) << 62 | (k / 4 % 2);
    case 6: return (size_t) k * 33; // two equal levels each
    default: {
        Rng r(k);
        return r.next();
    }
    }
}

template <class T>
struct KHash
{
    using is_transparent = void;
    size_t operator()(const T& k) const
    {
        maybe_throw(6);
        return hash_of(ET<T>::get(k));
    }
    size_t operator()(const u64& k) const { return hash_of((u32) k); }
};
template <class T>
struct KEq
{
    using is_transparent = void;
    bool operator()(const T& a, const T& b) const
    {
        maybe_throw(7);
        return ET<T>::get(a) == ET<T>::get(b);
    }
    bool operator()(const T& a, const u64& b) const
    {
        return ET<T>::get(a) == b;
    }
};

template <class K, class V>
struct Row
{
    K id;
    V val;
    bool operator==(const Row& o) const { return id == o.id && val == o.val; }
    bool operator!=(const Row& o) const { return !(*this == o); }
};
template <class K, class V>
struct RowKey
{
    const K& operator()(const Row<K, V>& r) const { return r.id; }
    template <class R, class Kf>
    Row<K, V> operator()(R&& r, Kf&& k) const
    {
        return Row<K, V>{std::forward<Kf>(k), std::forward<R>(r).val};
    }
};

template <class K, class MP, unsigned B>
struct SetKind
{
    using Key = K;
    using Val = u32;
    using C   = immer::set<K, KHash<K>, KEq<K>, MP, B>;
    using P   = MP;
    static constexpr bool set = true, map = false, table = false;
    static K make(u32 k, u32) { return ET<K>::of(k); }
    static u32 key(const K& x) { return ET<K>::get(x); }
    static const K& key_ref(const K& x) { return x; }
    static u32 val(const K&) { return 0; }
};
template <class K, class V, class MP, unsigned B>
struct MapKind
{
    using Key = K;
    using Val = V;
    using C   = immer::map<K, V, KHash<K>, KEq<K>, MP, B>;
    using P   = MP;
    static constexpr bool set = false, map = true, table = false;
    static std::pair<K, V> make(u32 k, u32 v)
    {
        return {ET<K>::of(k), ET<V>::of(v)};
    }
    static u32 key(const std::pair<K, V>& x) { return ET<K>::get(x.first); }
    static const K& key_ref(const std::pair<K, V>& x) { return x.first; }
    static u32 val(const std::pair<K, V>& x) { return ET<V>::get(x.second); }
};
template <class K, class V, class MP, unsigned B>
struct TabKind
{
    using Key = K;
    using Val = V;
    using C   = immer::table<Row<K, V>, RowKey<K, V>, KHash<K>, KEq<K>, MP, B>;
    using P   = MP;
    static constexpr bool set = false, map = false, table = true;
    static Row<K, V> make(u32 k, u32 v)
    {
        return {ET<K>::of(k), ET<V>::of(v)};
    }
    static u32 key(const Row<K, V>& x) { return ET<K>::get(x.id); }
    static const K& key_ref(const Row<K, V>& x) { return x.id; }
    static u32 val(const Row<K, V>& x) { return ET<V>::get(x.val); }
};

// generated entries, for the constructors from ranges
template <class KD>
struct EntryIt
{
    using value_type        = typename KD::C::value_type;
    using difference_type   = std::ptrdiff_t;
    using reference         = value_type;
    using pointer           = const value_type*;
    using iterator_category = std::forward_iterator_tag;
    u32 uni, mul, vbase, i;
    u32 k() const { return (i * mul) % uni; }
    value_type operator*() const
    {
        maybe_throw(12);
        return KD::make(k(), vbase + i);
    }
    EntryIt& operator++()
    {
        ++i;
        return *this;
    }
    EntryIt operator++(int)
    {
        EntryIt o = *this;
        ++i;
        return o;
    }
    bool operator==(const EntryIt& o) const { return i == o.i; }
    bool operator!=(const EntryIt& o) const { return i != o.i; }
};

struct EntryEnd
{
    u32 n;
    template <class It>
    friend bool operator==(const It& i, EntryEnd e)
    {
        return i.i == e.n;
    }
    template <class It>
    friend bool operator!=(const It& i, EntryEnd e)
    {
        return i.i != e.n;
    }
};

template <class KD>
struct HashScenario : Scenario
{
    using C   = typename KD::C;
    using TR  = typename C::transient_type;
    using Key = typename KD::Key;
    using Val = typename KD::Val;
    using EK  = ET<Key>;
    using EV  = ET<Val>;
    using MP  = typename KD::P;
    using M   = std::map<u32, u32>;
    using Vt  = typename C::value_type;
    static constexpr bool gc = is_gc_v<MP>;
    static constexpr bool rv = MP::use_transient_rvalues;
    // moves that throw leave what they moved from in pieces
    static constexpr bool strong = std::is_nothrow_move_constructible_v<Vt> &&
                                   std::is_nothrow_move_assignable_v<Vt>;
    static constexpr int NS = 4, NT = 2, NSH = 2, NMB = 2;

    template <class X>
    struct S
    {
        X* p      = nullptr;
        bool live = false;
        M m;
        void init()
        {
            if (!p)
                p = (X*) root_alloc(sizeof(X));
        }
        X& c() { return *p; }
        template <class... A>
        void emplace(A&&... a)
        {
            clear();
            new (p) X(std::forward<A>(a)...);
            live = true;
        }
        void clear()
        {
            if (live) {
                Sut s;
                p->~X();
            }
            live = false;
        }
        void done()
        {
            clear();
            if (p)
                root_free(p);
            p = nullptr;
        }
    };
    struct Thread
    {
        S<C> s[NS];
        S<TR> t[NT];
    };
    struct Box
    {
        S<C> s;
        Mutex mu;
    };

    HFocus focus;
    int maxth;
    u32 maxn;
    Thread* th   = nullptr;
    S<C>* shared = nullptr;
    Box* mb      = nullptr;
    int nth      = 1;
    u32 uni      = 10; // how many keys there are
    u32 rvmode   = 0;

    HashScenario(const char* n, HFocus f, int mt, u32 mx)
        : Scenario(n)
        , focus(f)
        , maxth(mt)
        , maxn(mx)
    {}
    const char* op_name(int k) override
    {
        return k <= hashop::NOPS ? hashop::names[k] : nullptr;
    }
    bool faulty() { return focus == HF_FAULT || focus == HF_FAULTM; }
    RunShape shape() override
    {
        RunShape s;
        s.use_gc     = gc;
        s.fault_mask = faulty() ? FM_ALLOC | FM_THROW : 0;
        s.fault_pct  = 90;
        s.est_steps  = 300;
        return s;
    }

    int weight(int k)
    {
        using namespace hashop;
        int w = 0;
        switch (k) {
        case NEW: w = 1; break;
        case RANGE: w = 4; break;
        case COPY: w = 3; break;
        case MOVE: w = 2; break;
        case INSERT: w = 8; break;
        case INSN: w = 4; break;
        case SET: w = KD::map ? 6 : 0; break;
        case UPDATE: w = KD::set ? 0 : 6; break;
        case UPDIF: w = KD::set ? 0 : 5; break;
        case ERASE: w = 10; break;
        case ERASEN: w = 5; break;
        case FIND: w = 2; break;
        case T_OPEN: w = 4; break;
        case T_INSERT: w = 4; break;
        case T_INSN: w = 3; break;
        case T_SET: w = KD::map ? 3 : 0; break;
        case T_UPDATE: w = KD::set ? 0 : 3; break;
        case T_UPDIF: w = KD::set ? 0 : 3; break;
        case T_ERASE: w = 4; break;
        case T_ERASEN: w = 3; break;
        case T_PERSIST: w = 5; break;
        case T_COPY: w = 1; break;
        case T_END: w = 1; break;
        case T_CHECK: w = 1; break;
        case PUB: w = maxth > 1 ? 3 : 1; break;
        case RECV: w = maxth > 1 ? 3 : 1; break;
        case SHARED: w = maxth > 1 ? 5 : 1; break;
        case EQ: w = 2; break;
        case DIFF: w = 2; break;
        case CHECK: w = 2; break;
        case IDENT: w = KD::table ? 0 : 1; break;
        case CHECK_ALL: w = 1; break;
        }
        bool trans = k >= T_OPEN && k <= T_CHECK;
        switch (focus) {
        case HF_TRANS:
            if (trans)
                w *= 4;
            break;
        case HF_FAULT:
            if (trans)
                w = w ? 1 : 0;
            break;
        case HF_FAULTM:
            if (trans)
                w *= 3;
            break;
        case HF_SHARE:
            if (k == PUB || k == RECV || k == SHARED || k == COPY)
                w *= 3;
            break;
        case HF_DIFF:
            if (k == EQ || k == DIFF)
                w *= 10;
            if (trans && w)
                w = 1;
            break;
        case HF_STEAL:
            switch (k) {
            case RECV:
            case SHARED: w = 8; break;
            case INSERT:
            case UPDATE:
            case UPDIF: w = w ? 5 : 0; break;
            case PUB: w = 5; break;
            case COPY: w = 4; break;
            case ERASE: w = 9; break;
            case ERASEN: w = 4; break;
            case NEW: w = 3; break;
            case T_OPEN:
            case T_ERASE:
            case T_INSERT: w = 2; break;
            default: w = 0;
            }
            break;
        default:
            break;
        }
        return w;
    }
    void gen(Rng& r, Program& p) override
    {
        using namespace hashop;
        int w[NOPS], tot = 0;
        for (int k = 0; k < NOPS; ++k) {
            w[k] = weight(k);
            if (k != RANGE && focus != HF_STEAL && r.chance(1, 4))
                w[k] = 0;
            tot += w[k];
        }
        if (!tot)
            tot = w[INSERT] = 1;
        static const u32 unis[] = {3, 5, 9, 20, 60, 200, 1000};
        p.nth    = maxth > 1 ? 2 + r.below(maxth - 1) : 1;
        p.cfg[0] = unis[r.below(7)];
        if (p.cfg[0] > maxn)
            p.cfg[0] = maxn;
        p.cfg[1] = r.below(4); // how often an operation is on an rvalue
        p.cfg[2] = r.below(8); // hash
        p.cfg[3] = r.next();   // the shared values
        if (focus == HF_STEAL) {
            p.cfg[0] = unis[r.below(3)];
            p.cfg[1] = 2 + r.below(2);
            p.nth    = 2 + (maxth > 2 && r.chance(1, 3));
            if (r.chance(1, 2)) {
                p.cfg[0] = unis[1 + r.below(4)];
                p.cfg[1] = 7;
                steal_history(r, p);
                return;
            }
        }
        for (int t = 1; t <= p.nth; ++t) {
            int n = p.nth > 1 ? 2 + r.below(r.chance(1, 3) ? 20 : 8)
                              : 4 + r.below(r.chance(1, 4) ? 60 : 24);
            for (int i = 0; i < n; ++i) {
                Op op;
                if (i == 0 && focus == HF_STEAL)
                    op.kind = r.chance(1, 2) ? RECV : SHARED;
                else if (i == 0 && r.chance(3, 4))
                    op.kind = RANGE;
                else {
                    int x = r.below(tot), k = 0;
                    while (x >= w[k])
                        x -= w[k++];
                    op.kind = k;
                }
                for (auto& a : op.a)
                    a = r.below(1 << 16);
                p.th[t].push_back(op);
            }
        }
    }
    // two threads take over two values that share nodes nobody else has; one
    // changes its own in place at once, while the other lets go of its own
    void steal_history(Rng& r, Program& p)
    {
        using namespace hashop;
        auto add = [&](int t, int k, u32 src, u32 dst) {
            Op op;
            op.kind = k;
            op.a[0] = src + 4 * r.below(1000);
            op.a[1] = dst + 4 * r.below(1000);
            op.a[2] = r.below(1 << 16) | 1;
            op.a[3] = r.below(1 << 16);
            p.th[t].push_back(op);
        };
        static_assert(NS == 4 && NT == 2 && NMB == 2, "");
        for (int t = 1; t <= p.nth; ++t) {
            bool edits = t == 1 || r.chance(1, 4);
            add(t, RECV, 0, t % 2);
            if (edits) {
                bool tr = r.chance(1, 2);
                if (tr)
                    add(t, T_OPEN, 0, 0);
                for (u32 i = 1 + r.below(3); i--;) {
                    static const int kt[] = {T_ERASE, T_INSERT, T_UPDATE,
                                             T_UPDIF, T_SET};
                    static const int kv[] = {ERASE, INSERT, UPDATE, UPDIF, SET};
                    int k = r.below(KD::set ? 2 : KD::map ? 5 : 4);
                    add(t, tr ? kt[k] : kv[k], 0, 0);
                }
                if (tr && r.chance(1, 2))
                    add(t, T_PERSIST, 0, 1);
            } else
                add(t, r.chance(1, 2) ? NEW : ERASE, 0, 0);
        }
    }

    bool rval(u32 a)
    {
        return rvmode == 3 || ((a >> 8) % 4 < rvmode + 1 && (a & 1));
    }

    // ------------------------------------------------------------- set up
    void setup(const Program& p) override
    {
        nth         = p.nth;
        uni         = p.cfg[0] ? p.cfg[0] : 1;
        rvmode      = p.cfg[1] % 4;
        g_hash_mode = p.cfg[2] % 8;
        set_elem_registry(EK::tracked || EV::tracked);
        th     = new Thread[nth + 1];
        shared = new S<C>[NSH];
        mb     = new Box[NMB];
        Rng r(p.cfg[3]);
        for (int i = 0; i < NSH; ++i) {
            shared[i].init();
            fill(shared[i], 900000 + i * 10000,
                 i == 0 ? 2 + r.below(3) : r.below(uni * 2 + 1), 1 + 2 * r.below(4));
        }
        for (int i = 0; i < NMB; ++i) {
            mb[i].s.init();
            reset(mb[i].s);
            if (p.cfg[1] == 7 || r.chance(1, 2)) {
                // shares nodes with shared[1]
                u32 k = r.below(uni);
                {
                    Sut q;
                    if (r.chance(1, 2)) {
                        mb[i].s.c() = shared[1].c().insert(KD::make(k, 5));
                        NoSut z;
                        mb[i].s.m    = shared[1].m;
                        mb[i].s.m[k] = vv(5);
                    } else {
                        mb[i].s.c() = shared[1].c().erase(EK::of(k));
                        NoSut z;
                        mb[i].s.m = shared[1].m;
                        mb[i].s.m.erase(k);
                    }
                }
            }
        }
        if (p.cfg[1] == 7 || r.chance(1, 3)) {
            Sut q;
            shared[1].c() = C{};
            NoSut z;
            shared[1].m.clear();
        }
    }
    // the model's value of what make(k, v) makes
    static u32 vv(u32 v) { return KD::set ? 0 : v; }
    void fill(S<C>& s, u32 base, u32 n, u32 mul)
    {
        {
            Sut q;
            s.emplace(EntryIt<KD>{uni, mul, base, 0},
                      EntryIt<KD>{uni, mul, base, n});
        }
        s.m = model_range(base, n, mul);
    }
    M model_range(u32 base, u32 n, u32 mul)
    {
        M m;
        for (EntryIt<KD> i{uni, mul, base, 0}; i.i < n; ++i)
            m[i.k()] = vv(base + i.i);
        return m;
    }
    void reset(S<C>& s)
    {
        s.m.clear();
        Sut q;
        s.emplace();
    }
    void thread_begin(int tid) override
    {
        for (auto& s : th[tid].s) {
            s.init();
            reset(s);
        }
        for (auto& t : th[tid].t)
            t.init();
    }
    void thread_end(int tid) override
    {
        u32 i = 0;
        for (auto& s : th[tid].s)
            check(s, i++ + tid);
        for (auto& t : th[tid].t)
            if (t.live)
                check(t, i++);
        for (auto& t : th[tid].t)
            t.done();
        for (auto& s : th[tid].s)
            s.done();
    }
    void finish() override
    {
        for (int i = 0; i < NSH; ++i)
            check(shared[i], i);
        for (int i = 0; i < NMB; ++i)
            check(mb[i].s, i);
        for (int i = 0; i < NSH; ++i)
            shared[i].done();
        for (int i = 0; i < NMB; ++i)
            mb[i].s.done();
    }

    // ------------------------------------------------------------ checking
    template <class X>
    void look(const X& c, const M& m, u32 k, u32 how)
    {
        auto it   = m.find(k);
        bool want = it != m.end();
        u64 hk    = k;
        Key key   = [&] {
            NoSut z;
            return EK::of(k);
        }();
        bool het = how & 1;
        size_t n = het ? c.count(hk) : c.count(key);
        if (n != (want ? 1 : 0))
            fail("wrong-lookup", "count(%u) is %zu, the model says %d", k, n,
                 want);
        auto* f = het ? c.find(hk) : c.find(key);
        if (!!f != want)
            fail("wrong-lookup", "find(%u) finds %d, the model says %d", k, !!f,
                 want);
        if constexpr (KD::set) {
            if (f && KD::key(*f) != k)
                fail("wrong-lookup", "find(%u) finds %u", k, KD::key(*f));
        } else {
            u32 got;
            if (f) {
                if constexpr (KD::map)
                    got = EV::get(*f);
                else {
                    got = KD::val(*f);
                    if (KD::key(*f) != k)
                        fail("wrong-lookup", "find(%u) finds %u", k,
                             KD::key(*f));
                }
                if (got != it->second)
                    fail("wrong-lookup", "find(%u) gives %u, the model says %u",
                         k, got, it->second);
            }
            auto&& e = het ? c[hk] : c[key];
            if constexpr (KD::map)
                got = EV::get(e);
            else
                got = EV::get(e.val);
            if (got != (want ? it->second : 0))
                fail("wrong-lookup", "[%u] gives %u, the model says %u", k, got,
                     want ? it->second : 0);
            bool thrown = false;
            try {
                auto&& a = het ? c.at(hk) : c.at(key);
                if constexpr (KD::map)
                    got = EV::get(a);
                else
                    got = EV::get(a.val);
                if (want && got != it->second)
                    fail("wrong-lookup", "at(%u) gives %u", k, got);
            } catch (std::out_of_range&) {
                thrown = true;
            }
            if (thrown == want)
                fail("wrong-lookup", "at(%u) %s", k,
                     thrown ? "throws" : "does not throw");
        }
    }
    template <class X>
    void check(S<X>& s, u32 how)
    {
        const X& c = s.c();
        const M& m = s.m;
        size_t n   = m.size();
        Sut q;
        if (c.size() != n)
            fail("wrong-size", "size %zu, the model says %zu",
                 (size_t) c.size(), n);
        if (c.empty() != (n == 0))
            fail("wrong-size", "empty() is wrong");
        note(n);
        size_t cnt = 0;
        u64 seen[1024 / 64 + 1];
        memset(seen, 0, sizeof seen);
        auto visit = [&](const Vt& x, const char* what) {
            u32 k   = KD::key(x);
            auto it = m.find(k);
            if (it == m.end())
                fail("wrong-content", "%s: key %u, which is not in the model",
                     what, k);
            if (k < 1024) {
                if (seen[k / 64] >> (k % 64) & 1)
                    fail("wrong-content", "%s: key %u comes up twice", what, k);
                seen[k / 64] |= 1ull << (k % 64);
            }
            if (KD::val(x) != it->second)
                fail("wrong-content", "%s: key %u has %u, the model says %u",
                     what, k, KD::val(x), it->second);
            ++cnt;
        };
        switch (how % 5) {
        case 0:
            for (auto& x : c)
                visit(x, "iteration");
            break;
        case 1:
            cnt = n;
            for (auto& e : m)
                look(c, m, e.first, how / 5);
            for (u32 i = 0; i < 5; ++i)
                look(c, m, (how * 7 + i * 13) % (uni + 7), i);
            break;
        case 2:
            immer::for_each_chunk(c, [&](auto b, auto e) {
                for (; b != e; ++b)
                    visit(*b, "for_each_chunk");
            });
            break;
        case 3: {
            immer::for_each(c, [&](const Vt& x) { visit(x, "for_each"); });
            size_t all = cnt, out = 0;
            auto put   = [&](const Vt& x) {
                auto it = m.find(KD::key(x));
                if (it == m.end() || KD::val(x) != it->second)
                    fail("wrong-content", "copy: key %u", KD::key(x));
                ++out;
            };
            immer::copy(c, OutIt<decltype(put)>{&put});
            if (all != n || out != n)
                fail("wrong-content", "for_each / copy is wrong");
            u64 sum = immer::accumulate(c, (u64) 0, [](u64 s, const Vt& x) {
                return s + KD::key(x) * 31 + KD::val(x);
            });
            u64 ms = 0;
            for (auto& e : m)
                ms += e.first * 31 + e.second;
            if (sum != ms)
                fail("wrong-content", "accumulate is wrong");
            break;
        }
        case 4: {
            auto it = c.begin(), e = c.end();
            using It = std::decay_t<decltype(it)>;
            auto old = it;
            // one taken on the way goes over the rest once more
            size_t at   = n ? how / 5 % n : 0;
            auto saved  = it;
            bool copies = how / 64 & 1;
            std::vector<const Vt*> rest;
            for (; it != e; old = it++) {
                visit(*it, "iteration");
                if (cnt - 1 == at)
                    saved = it;
                if (cnt > at)
                    rest.push_back(&*it);
                if (copies) {
                    It k{it};
                    if (!(k == it) || k != it)
                        fail("wrong-content", "a copied iterator differs");
                    it = how / 128 & 1 ? k : It{k};
                }
            }
            if (n && old == e)
                fail("wrong-content", "iterators do not compare");
            size_t i = 0;
            for (It k{saved}; k != e; ++k, ++i)
                if (i >= rest.size() || rest[i] != &*k)
                    fail("wrong-content",
                         "element %zu from a copied iterator is another one",
                         i);
            if (n && i != rest.size())
                fail("wrong-content", "%zu of %zu elements come up from a "
                     "copied iterator", i, rest.size());
            break;
        }
        }
        if (cnt != n)
            fail("wrong-content", "%zu of %zu elements come up", cnt, n);
        if (!champ_ok(c, 0))
            fail("wrong-content", "an element is not where its hash says");
    }
    // the library's own check of a tree, where there is one
    template <class X>
    static auto champ_ok(const X& c, int) -> decltype(bool(c.impl().check_champ()))
    {
        return c.impl().check_champ();
    }
    template <class X>
    static bool champ_ok(const X&, long)
    {
        return true;
    }
    void check_others(int tid, u32 how)
    {
        Thread& x = th[tid];
        check(x.s[how % NS], how / NS);
        check(shared[how / 3 % NSH], how / 5);
        if (x.t[how % NT].live)
            check(x.t[how % NT], how / 7);
    }
    void check_all(int tid, u32 how)
    {
        Thread& x = th[tid];
        for (int i = 0; i < NS; ++i)
            check(x.s[i], how + i);
        for (int i = 0; i < NT; ++i)
            if (x.t[i].live)
                check(x.t[i], how + i);
        for (int i = 0; i < NSH; ++i)
            check(shared[i], how + i);
    }
    u32 fmask() { return FM_ALLOC | FM_THROW; }

    // what an in-place operation leaves when elements throw as they move may
    // be any valid value
    template <class X>
    void revive(S<X>& s)
    {
        Sut q;
        size_t n = 0;
        for (auto& x : s.c()) {
            (void) KD::key(x);
            (void) KD::val(x);
            ++n;
        }
        if (n != s.c().size())
            fail("wrong-size", "a failed operation leaves size %zu but %zu "
                               "elements", (size_t) s.c().size(), n);
        if constexpr (std::is_same_v<X, C>) {
            s.c() = C{};
            for (auto& e : s.m)
                s.c() = std::move(s.c()).insert(KD::make(e.first, e.second));
        } else {
            C c;
            s.c() = c.transient();
            for (auto& e : s.m)
                s.c().insert(KD::make(e.first, e.second));
        }
    }

    template <class F>
    void derive(int tid, S<C>& s, S<C>& d, bool r, M want, u32 how, F&& f)
    {
        alignas(C) char buf[sizeof(C)];
        C* out = (C*) buf;
        attempt(
            fmask(), [&] { new (out) C(f(r)); },
            [&] {
                if (r && !strong)
                    revive(s);
                check(s, how);
                check_all(tid, how);
            });
        if (r && &s != &d) {
            Sut q;
            s.c() = C{};
            NoSut z;
            s.m.clear();
        }
        {
            Sut q;
            if (how & 1)
                d.c() = std::move(*out);
            else {
                d.c() = *out;
                if (how & 2)
                    *out = C{};
            }
            out->~C();
        }
        d.m = std::move(want);
        check(d, how);
    }
    template <class F>
    void mutate(int tid, S<TR>& t, u32 how, F&& f)
    {
        attempt(
            fmask(), [&] { f(); },
            [&] {
                if (!strong)
                    revive(t);
                check(t, how);
                check_all(tid, how);
            });
    }

    // the function given to update: is it given what is there?
    auto updater(u32 k, u32 old, u32 nv, bool present, u32 how)
    {
        bool moveit = !faulty() && (how & 8);
        return [=](auto&& y) {
            NoSut z;
            if constexpr (KD::map) {
                if (EV::get(y) != old)
                    fail("wrong-content", "update is given %u, not %u",
                         EV::get(y), old);
                if (moveit) {
                    Val took = std::forward<decltype(y)>(y);
                    (void) took;
                }
            } else {
                if (EV::get(y.val) != old ||
                    (present && EK::get(y.id) != k))
                    fail("wrong-content", "update is given %u %u, not %u %u",
                         EK::get(y.id), EV::get(y.val), k, old);
                if (moveit) {
                    Row<Key, Val> took = std::forward<decltype(y)>(y);
                    (void) took;
                }
            }
            preempt();
            maybe_throw(9);
            if constexpr (KD::map)
                return EV::of(nv);
            else
                return Row<Key, Val>{EK::of(k), EV::of(nv)};
        };
    }

    void run_op(int tid, const Op& op) override
    {
        using namespace hashop;
        Thread& x = th[tid];
        S<C>& s   = x.s[op.a[0] % NS];
        S<C>& d   = x.s[op.a[1] % NS];
        S<TR>& t  = x.t[op.a[0] % NT];
        u32 base  = (u32) op.id * 1000 + 1;
        u32 how   = op.a[3];
        bool r    = rval(op.a[2]);
        u32 k     = (op.a[2] >> 2) % uni;
        // half of the time a key that is there
        const M& near = op.kind >= T_OPEN && op.kind <= T_CHECK ? t.m : s.m;
        if (!near.empty() && (how & 16)) {
            auto it = near.lower_bound(k);
            k       = it == near.end() ? near.begin()->first : it->first;
        }
        switch (op.kind) {
        case NEW: {
            Sut q;
            if (how & 1)
                d.c() = C{};
            else
                d.emplace();
            NoSut z;
            d.m.clear();
            break;
        }
        case RANGE: {
            u32 n   = op.a[2] % (uni + 3);
            u32 mul = 1 + 2 * (how >> 3 & 3);
            derive(tid, s, d, false, model_range(base, n, mul), how, [&](bool) {
                EntryIt<KD> b{uni, mul, base, 0}, e{uni, mul, base, n};
                if (how & 256)
                    return C(b, EntryEnd{n});
                if (how & 512) {
                    auto g = [&](u32 i) {
                        b.i = i;
                        return *b;
                    };
                    switch (n) {
                    case 1: return C{g(0)};
                    case 2: return C{g(0), g(1)};
                    case 3: return C{g(0), g(1), g(2)};
                    case 4: return C{g(0), g(1), g(2), g(3)};
                    case 5: return C{g(0), g(1), g(2), g(3), g(4)};
                    }
                }
                return C(b, e);
            });
            break;
        }
        case COPY: {
            Sut q;
            if (how & 1)
                d.c() = s.c();
            else {
                C tmp{s.c()};
                d.c() = tmp;
            }
            NoSut z;
            d.m = M(s.m);
            check(d, how);
            break;
        }
        case MOVE: {
            M m = s.m;
            {
                Sut q;
                if (how & 1) {
                    C tmp{std::move(s.c())};
                    if (&s != &d)
                        s.c() = C{};
                    d.c() = std::move(tmp);
                } else {
                    d.c() = std::move(s.c());
                    if (&s != &d)
                        s.c() = C{};
                }
            }
            if (&s != &d)
                s.m.clear();
            d.m = m;
            check(d, how);
            check(s, how);
            break;
        }
        case INSERT: {
            if (s.m.size() >= maxn)
                break;
            Vt v = KD::make(k, base);
            M w  = s.m;
            w[k] = vv(base);
            derive(tid, s, d, r, w, how, [&](bool r) {
                return r ? C(std::move(s.c()).insert(v)) : s.c().insert(v);
            });
            break;
        }
        case INSN: {
            u32 n = 1 + op.a[2] % (uni < 30 ? uni : 30);
            M w   = s.m;
            for (u32 i = 0; i < n; ++i) {
                u32 kk = (k + i * (1 + 2 * (how & 3))) % uni;
                w[kk]  = vv(base + i);
                Vt v   = KD::make(kk, base + i);
                derive(tid, s, s, r, w, how, [&](bool r) {
                    if (how & 4) {
                        Vt u = v;
                        return r ? C(std::move(s.c()).insert(std::move(u)))
                                 : s.c().insert(std::move(u));
                    }
                    return r ? C(std::move(s.c()).insert(v)) : s.c().insert(v);
                });
            }
            break;
        }
        case ERASE: {
            M w = s.m;
            w.erase(k);
            Key mine = EK::of(k);
            derive(tid, s, d, r, w, how, [&](bool r) {
                const Key& key = own_key(s, k, mine, how);
                return r ? C(std::move(s.c()).erase(key)) : s.c().erase(key);
            });
            break;
        }
        case ERASEN: {
            u32 n = 1 + op.a[2] % (uni < 40 ? uni : 40);
            M w   = s.m;
            for (u32 i = 0; i < n; ++i) {
                u32 kk = (k + i * (1 + 2 * (how & 3))) % uni;
                w.erase(kk);
                Key key = EK::of(kk);
                derive(tid, s, s, r, w, how, [&](bool r) {
                    return r ? C(std::move(s.c()).erase(key))
                             : s.c().erase(key);
                });
            }
            break;
        }
        case FIND: {
            Key key = EK::of(k);
            bool got = false;
            attempt(
                fmask(), [&] { got = s.c().find(key) != nullptr; },
                [&] { check_all(tid, how); });
            if (got != (s.m.count(k) > 0))
                fail("wrong-lookup", "find(%u) is wrong", k);
            Sut q;
            look(s.c(), s.m, k, how);
            break;
        }
        case T_OPEN: {
            M m = s.m;
            if (r) {
                {
                    Sut q;
                    t.emplace(std::move(s.c()).transient());
                    s.c() = C{};
                }
                s.m.clear();
            } else {
                Sut q;
                t.emplace(s.c().transient());
            }
            t.m = m;
            check(t, how);
            break;
        }
        case T_INSERT:
        case T_INSN: {
            if (!t.live)
                break;
            u32 n = op.kind == T_INSERT ? 1 : 1 + op.a[2] % (uni < 40 ? uni : 40);
            for (u32 i = 0; i < n; ++i) {
                u32 kk = (k + i * (1 + 2 * (how & 3))) % uni;
                Vt v   = KD::make(kk, base + i);
                mutate(tid, t, how, [&] { t.c().insert(v); });
                t.m[kk] = vv(base + i);
            }
            check(t, how);
            break;
        }
        case T_ERASE:
        case T_ERASEN: {
            if (!t.live)
                break;
            u32 n = op.kind == T_ERASE ? 1 : 1 + op.a[2] % (uni < 40 ? uni : 40);
            for (u32 i = 0; i < n; ++i) {
                u32 kk  = (k + i * (1 + 2 * (how & 3))) % uni;
                Key mine = EK::of(kk);
                mutate(tid, t, how, [&] {
                    t.c().erase(own_key(t, kk, mine, how));
                });
                t.m.erase(kk);
            }
            check(t, how);
            break;
        }
        case T_PERSIST: {
            if (!t.live)
                break;
            M w = t.m;
            if (r) {
                {
                    Sut q;
                    d.c() = std::move(t.c()).persistent();
                }
                t.clear();
            } else {
                Sut q;
                d.c() = t.c().persistent();
            }
            d.m = w;
            check(d, how);
            if (t.live)
                check(t, how);
            break;
        }
        case T_COPY: {
            S<TR>& u = x.t[(op.a[0] + 1) % NT];
            if (!t.live)
                break;
            {
                Sut q;
                if (u.live && (how & 1))
                    u.c() = t.c();
                else
                    u.emplace(t.c());
            }
            u.m = t.m;
            check(u, how);
            check(t, how + 1);
            break;
        }
        case T_END:
            t.clear();
            break;
        case T_CHECK:
            if (t.live)
                for (u32 i = 0; i < 5; ++i)
                    check(t, how + i);
            break;
        case PUB: {
            Box& b = mb[op.a[1] % NMB];
            Lock l(b.mu);
            {
                Sut q;
                if (how & 1)
                    b.s.c() = s.c();
                else if (r) {
                    b.s.c() = std::move(s.c());
                    s.c()   = C{};
                } else {
                    C tmp   = s.c();
                    b.s.c() = std::move(tmp);
                }
            }
            b.s.m = s.m;
            if (r && !(how & 1))
                s.m.clear();
            break;
        }
        case RECV: {
            Box& b = mb[op.a[1] % NMB];
            {
                Lock l(b.mu);
                Sut q;
                if (r) {
                    s.c()   = std::move(b.s.c());
                    b.s.c() = C{};
                } else
                    s.c() = b.s.c();
                NoSut z;
                s.m = b.s.m;
                if (r)
                    b.s.m.clear();
            }
            check(s, how);
            break;
        }
        case SHARED: {
            S<C>& h = shared[op.a[1] % NSH];
            check(h, how);
            {
                Sut q;
                s.c() = h.c();
            }
            s.m = h.m;
            check(s, how + 1);
            break;
        }
        case EQ: {
            bool eq = false, ne = false;
            attempt(
                fmask(),
                [&] {
                    eq = s.c() == d.c();
                    ne = s.c() != d.c();
                },
                [&] { check_all(tid, how); });
            if (eq != (s.m == d.m) || ne == eq)
                fail("wrong-equality", "== says %d, != says %d, the models %d",
                     eq, ne, s.m == d.m);
            if (s.m.size() < 80) {
                // the same entries, inserted in another order, some of them
                // after entries that are gone again
                Sut q;
                C fresh;
                std::vector<std::pair<u32, u32>> v(s.m.begin(), s.m.end());
                Rng rr(how);
                for (size_t i = v.size(); i > 1; --i)
                    std::swap(v[i - 1], v[rr.below(i)]);
                for (auto& e : v) {
                    u32 gone = rr.below(uni);
                    bool g   = rr.chance(1, 3);
                    if (g)
                        fresh = std::move(fresh).insert(KD::make(gone, 1));
                    fresh = fresh.insert(KD::make(e.first, e.second));
                    if (g && gone != e.first) {
                        fresh = rr.chance(1, 2)
                                    ? fresh.erase(EK::of(gone))
                                    : C(std::move(fresh).erase(EK::of(gone)));
                        if (s.m.count(gone))
                            for (auto& f : v) {
                                if (f.first == gone)
                                    fresh = std::move(fresh).insert(
                                        KD::make(f.first, f.second));
                                if (&f == &e)
                                    break;
                            }
                    }
                }
                // entries an erased stray key displaced are put back
                for (auto& e : v)
                    fresh = fresh.insert(KD::make(e.first, e.second));
                for (auto& e : v)
                    if (!fresh.count((u64) e.first))
                        fail("wrong-lookup", "an inserted key is missing");
                if (fresh.size() != v.size()) {
                    std::vector<u32> extra;
                    for (auto& y : fresh)
                        if (!s.m.count(KD::key(y)))
                            extra.push_back(KD::key(y));
                    for (u32 y : extra)
                        fresh = fresh.erase(EK::of(y));
                }
                if (!(fresh == s.c()) || fresh != s.c() || !(s.c() == fresh))
                    fail("wrong-equality", "an equal value compares different");
                if (!v.empty()) {
                    u32 kk = v[rr.below(v.size())].first;
                    C other = fresh.erase(EK::of(kk));
                    if (other == s.c() || s.c() == other)
                        fail("wrong-equality", "a value without key %u "
                             "compares equal to one with it", kk);
                    if constexpr (!KD::set) {
                        other = fresh.insert(KD::make(kk, 0xfffff1));
                        if (other == s.c() || !(s.c() != other))
                            fail("wrong-equality", "different values for key "
                                 "%u compare equal", kk);
                    }
                    if (v.size() < uni) {
                        // the same size, but another key
                        u32 nk = kk;
                        while (s.m.count(nk))
                            nk = (nk + 1) % uni;
                        other = fresh.erase(EK::of(kk)).insert(KD::make(nk, s.m[kk]));
                        if (other == s.c() || s.c() == other)
                            fail("wrong-equality", "a value with key %u "
                                 "instead of %u compares equal", nk, kk);
                    }
                }
            }
            break;
        }
        case DIFF:
            do_diff(s, d, tid, how);
            do_diff(s, x.s[how % NS], tid, how);
            do_diff(shared[how % NSH], s, tid, how);
            break;
        case CHECK:
            for (u32 i = 0; i < 5; ++i)
                check(s, how + i);
            break;
        case CHECK_ALL:
            check_all(tid, how);
            break;
        default:
            value_op(tid, op, s, d, t, base, how, r, k);
        }
        check_others(tid, how);
    }

    // arguments may refer to what is inside of the container operated on
    static bool own(u32 how) { return (how >> 9) % 4 == 0; }
    static typename M::const_iterator own_value(const M& m, u32 n)
    {
        auto it = m.begin();
        std::advance(it, (n * 7) % m.size());
        return it;
    }
    template <class X>
    const Key& own_key(S<X>& s, u32 k, const Key& mine, u32 how)
    {
        if (own(how)) {
            const Key* p = nullptr;
            for (auto&& e : s.c()) {
                NoSut z;
                if (KD::key(e) == k)
                    p = &KD::key_ref(e);
            }
            if (p)
                return *p;
        }
        return mine;
    }
    template <class X>
    const Val& own_val(S<X>& s, u32 n, const Val& mine, u32 how)
    {
        if (own(how) && s.m.size()) {
            u32 k = own_value(s.m, n)->first;
            for (auto&& e : s.c()) {
                NoSut z;
                if (KD::key(e) == k)
                    return e.second;
            }
        }
        return mine;
    }

    void value_op(int tid, const Op& op, S<C>& s, S<C>& d, S<TR>& t, u32 base,
                  u32 how, bool r, u32 k)
    {
        using namespace hashop;
        Thread& x = th[tid];
        (void) x;
        if constexpr (KD::map) {
            if (op.kind == SET) {
                M w     = s.m;
                w[k]    = base;
                Key key  = EK::of(k);
                Val mine = EV::of(base);
                if (own(how) && s.m.size())
                    w[k] = own_value(s.m, base)->second;
                derive(tid, s, d, r, w, how, [&](bool r) {
                    const Val& v = own_val(s, base, mine, how);
                    return r ? C(std::move(s.c()).set(key, v))
                             : s.c().set(key, v);
                });
            }
            if (op.kind == T_SET && t.live) {
                Key key = EK::of(k);
                Val mine = EV::of(base);
                u32 now  = own(how) && t.m.size()
                               ? own_value(t.m, base)->second
                               : base;
                mutate(tid, t, how, [&] {
                    t.c().set(key, own_val(t, base, mine, how));
                });
                t.m[k] = now;
                check(t, how);
            }
        }
        if constexpr (!KD::set) {
            auto old = [](const M& m, u32 k) {
                auto it = m.find(k);
                return it == m.end() ? 0 : it->second;
            };
            if (op.kind == UPDATE || (op.kind == UPDIF)) {
                M w        = s.m;
                bool there = w.count(k);
                u32 o      = old(w, k);
                auto fn    = updater(k, o, base ^ o, there, how);
                if (there || op.kind == UPDATE)
                    w[k] = base ^ o;
                Key key = EK::of(k);
                derive(tid, s, d, r, w, how, [&](bool r) {
                    if (op.kind == UPDATE)
                        return r ? C(std::move(s.c()).update(key, fn))
                                 : s.c().update(key, fn);
                    return r ? C(std::move(s.c()).update_if_exists(key, fn))
                             : s.c().update_if_exists(key, fn);
                });
            }
            if ((op.kind == T_UPDATE || op.kind == T_UPDIF) && t.live) {
                bool there = t.m.count(k);
                u32 o      = old(t.m, k);
                auto fn    = updater(k, o, base ^ o, there, how);
                Key key    = EK::of(k);
                mutate(tid, t, how, [&] {
                    if (op.kind == T_UPDATE)
                        t.c().update(key, fn);
                    else
                        t.c().update_if_exists(key, fn);
                });
                if (there || op.kind == T_UPDATE)
                    t.m[k] = base ^ o;
                check(t, how);
            }
        }
        if constexpr (!KD::table)
            if (op.kind == IDENT) {
                Sut q;
                for (auto& y : th[tid].s)
                    if (y.c().identity() == s.c().identity() && y.m != s.m)
                        fail("wrong-identity",
                             "two different values have the same identity");
            }
    }

    void do_diff(S<C>& a, S<C>& b, int tid, u32 how)
    {
        std::map<u32, int> add, rem, chg;
        u32 fired = 0;
        bool two  = (how >> 4) % 4 == 0; // without a function for changes
        attempt(
            fmask(),
            [&] {
                {
                    NoSut z;
                    add.clear();
                    rem.clear();
                    chg.clear();
                }
                auto added = [&](const Vt& x) {
                    NoSut z;
                    u32 k   = KD::key(x);
                    auto it = b.m.find(k);
                    if (it == b.m.end() || it->second != KD::val(x))
                        fail("wrong-diff", "added %u, which the new value does "
                                           "not have", k);
                    if (add[k]++)
                        fail("wrong-diff", "added %u twice", k);
                };
                auto removed = [&](const Vt& x) {
                    NoSut z;
                    u32 k   = KD::key(x);
                    auto it = a.m.find(k);
                    if (it == a.m.end() || it->second != KD::val(x))
                        fail("wrong-diff", "removed %u, which the old value "
                                           "does not have", k);
                    if (rem[k]++)
                        fail("wrong-diff", "removed %u twice", k);
                };
                auto changed = [&](const Vt& x, const Vt& y) {
                    NoSut z;
                    u32 k = KD::key(x);
                    if (KD::key(y) != k || !a.m.count(k) || !b.m.count(k) ||
                        a.m[k] != KD::val(x) || b.m[k] != KD::val(y))
                        fail("wrong-diff", "changed %u wrongly", k);
                    if (chg[k]++)
                        fail("wrong-diff", "changed %u twice", k);
                };
                if (two && (how & 1))
                    immer::diff(a.c(), b.c(), added, removed);
                else if (two)
                    immer::diff(a.c(), b.c(),
                                immer::make_differ(added, removed));
                else if (how & 1)
                    immer::diff(a.c(), b.c(), added, removed, changed);
                else
                    immer::diff(a.c(), b.c(),
                                immer::make_differ(added, removed, changed));
            },
            [&] {
                ++fired;
                check_all(tid, how);
            });
        for (auto& e : a.m) {
            auto it = b.m.find(e.first);
            if (it == b.m.end() && !rem.count(e.first))
                fail("wrong-diff", "%u was removed, diff does not say so",
                     e.first);
            if (it != b.m.end() && rem.count(e.first))
                fail("wrong-diff", "%u was not removed", e.first);
            if (it != b.m.end() && !two &&
                (it->second != e.second) != (chg.count(e.first) > 0))
                fail("wrong-diff", "diff says changed %u: %d", e.first,
                     (int) chg.count(e.first));
        }
        for (auto& e : b.m)
            if (!a.m.count(e.first) != (add.count(e.first) > 0))
                fail("wrong-diff", "diff says added %u: %d", e.first,
                     (int) add.count(e.first));
    }
};

} // namespace sim

#define HASH_SET(K, MP, B) using inst = sim::HashScenario<sim::SetKind<K, MP, B>>;
#define HASH_MAP(K, V, MP, B)                                                  \
    using inst = sim::HashScenario<sim::MapKind<K, V, MP, B>>;
#define HASH_TAB(K, V, MP, B)                                                  \
    using inst = sim::HashScenario<sim::TabKind<K, V, MP, B>>;
#define HCAT2(a, b) a##b
#define HCAT1(a, b) HCAT2(a, b)
#define HSCN(name, focus, threads, maxn)                                       \
    static sim::Reg<inst> HCAT1(hreg_, __LINE__)("hash." name, sim::focus,     \
                                                 threads, maxn);
