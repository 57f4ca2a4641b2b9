// flex_vectors of up to billions of elements, made of shared parts, against a
// model that is a graph of the operations they were made by
#pragma once
#include "seq.hpp"

#include <memory>

namespace sim {

namespace hop {
enum
{
    NEW,
    RANGE,
    COPY,
    MOVE,
    DOUBLE,
    CAT,
    TAKE,
    DROP,
    SET,
    UPDATE,
    PUSH,
    PUSH_FRONT,
    INSERT,
    INSERT_V,
    ERASE,
    ERASE_R,
    EDIT,
    CHECK,
    EQ,
    CONV,
    BLOCK,
    NOPS
};
inline const char* names[] = {
    "new",    "range",      "copy",   "move",     "double", "concat",
    "take",   "drop",       "set",    "update",   "push",   "push-front",
    "insert", "insert-v",   "erase",  "erase-r",  "edit",   "check",
    "eq",     "as-vector",  "block",   nullptr};
} // namespace hop

// what a value holds: a range, a concatenation, a slice, or one with another
// element at a place
struct Ex;
typedef std::shared_ptr<const Ex> ExP;
struct Ex
{
    u64 n    = 0;
    int kind = 0; // 0 range, 1 cat, 2 slice, 3 put, 4 block
    u64 off  = 0;
    u32 v    = 0;
    ExP l, r;

    static ExP range(u32 base, u64 n)
    {
        auto e = std::make_shared<Ex>();
        e->n   = n;
        e->v   = base;
        return e;
    }
    static ExP block(u32 seed, u64 n)
    {
        auto e  = std::make_shared<Ex>();
        e->kind = 4;
        e->n    = n;
        e->v    = seed;
        return e;
    }
    static ExP cat(ExP a, ExP b)
    {
        if (!a->n)
            return b;
        if (!b->n)
            return a;
        auto e  = std::make_shared<Ex>();
        e->kind = 1;
        e->n    = a->n + b->n;
        e->l    = a;
        e->r    = b;
        return e;
    }
    static ExP slice(ExP a, u64 off, u64 n)
    {
        if (off == 0 && n == a->n)
            return a;
        if (!n)
            return range(0, 0);
        auto e  = std::make_shared<Ex>();
        e->kind = 2;
        e->off  = off;
        e->n    = n;
        e->l    = a;
        return e;
    }
    static ExP put(ExP a, u64 i, u32 raw)
    {
        auto e  = std::make_shared<Ex>();
        e->kind = 3;
        e->off  = i;
        e->n    = a->n;
        e->v    = raw;
        e->l    = a;
        return e;
    }
    template <class T>
    u32 at(u64 i) const
    {
        const Ex* e = this;
        for (;;)
            switch (e->kind) {
            case 0: return mv<T>(e->v + (u32) i);
            case 1:
                if (i < e->l->n)
                    e = e->l.get();
                else {
                    i -= e->l->n;
                    e = e->r.get();
                }
                break;
            case 2:
                i += e->off;
                e = e->l.get();
                break;
            case 3:
                if (i == e->off)
                    return e->v;
                e = e->l.get();
                break;
            default: return mv<T>(block_at(e->v, i));
            }
    }
    // A block repeats itself in pieces of 2^g elements, for every g from 4 up
    // to 36, of one of four kinds each, so that it can be made of few parts.
    static constexpr int top = 36;
    static u32 sub(u32 seed, u32 level, u32 kind, u32 j)
    {
        u32 h = seed * 2654435761u + level * 40503u + kind * 977u + j * 7919u;
        h ^= h >> 15;
        h *= 0x2c1b3c6du;
        return (h >> 20) & 3;
    }
    static u32 block_kind(u32 seed, u32 to, u64 i)
    {
        u32 k = 0;
        for (u32 g = top; g-- > to;)
            k = sub(seed, g, k, (i >> g) & 1);
        return k;
    }
    static u32 block_at(u32 seed, u64 i)
    {
        return seed + block_kind(seed, 3, i) * 8 + (i & 7);
    }
};

// a regular tree that shares everything that is alike in a block
template <class C>
struct Block
{
    template <class X>
    using impl_of = std::decay_t<decltype(std::declval<const X&>().impl())>;
    using impl_t  = impl_of<C>;
    using node_t  = typename impl_t::node_t;
    using T       = typename C::value_type;
    using E       = ET<T>;
    static constexpr u32 B = impl_t::node_t::bits;
    static constexpr u32 BL = impl_t::node_t::bits_leaf;
    u32 seed;
    node_t* made[64][4] = {};

    static node_t* leaf(u32 seed, u64 from, u32 n, u32 kind, bool by_kind)
    {
        auto p = node_t::make_leaf_n(n);
        for (u32 i = 0; i < n; ++i) {
            u32 v;
            if (by_kind) {
                u32 k = kind;
                for (u32 g = BL; g-- > 3;)
                    k = Ex::sub(seed, g, k, (i >> g) & 1);
                v = seed + k * 8 + (i & 7);
            } else
                v = Ex::block_at(seed, from + i);
            new (p->leaf() + i) T(E::make(v));
        }
        return p;
    }
    // all of the 2^bits elements of a kind
    node_t* full(u32 bits, u32 kind)
    {
        node_t*& p = made[bits][kind];
        if (p)
            return p->inc();
        if (bits == BL)
            return p = leaf(seed, 0, 1u << BL, kind, true);
        auto q = node_t::make_inner_n(1u << B);
        for (u32 i = 0; i < (1u << B); ++i) {
            u32 k = kind;
            for (u32 g = bits; g-- > bits - B;)
                k = Ex::sub(seed, g, k, i >> (g - (bits - B)) & 1);
            q->inner()[i] = full(bits - B, k);
        }
        return p = q;
    }
    // n elements from a multiple of 2^bits on; n is a multiple of 2^BL
    node_t* part(u32 bits, u64 from, u64 n)
    {
        if (n == (u64) 1 << bits)
            return full(bits, Ex::block_kind(seed, bits, from));
        u64 each = (u64) 1 << (bits - B);
        u32 cnt  = (u32) ((n + each - 1) / each);
        auto q   = node_t::make_inner_n(cnt);
        for (u32 i = 0; i < cnt; ++i) {
            u64 m         = std::min<u64>(each, n - i * each);
            q->inner()[i] = part(bits - B, from + i * each, m);
        }
        return q;
    }
    static impl_t make(u32 seed, u64 n)
    {
        Block b;
        b.seed   = seed;
        u64 off  = (n - 1) >> BL << BL;
        u32 bits = BL + B;
        while (off > (u64) 1 << bits)
            bits += B;
        node_t* root = b.part_root(bits, off);
        return impl_t{n, bits - B, root, leaf(seed, off, n - off, 0, false)};
    }
    node_t* part_root(u32 bits, u64 off)
    {
        if (!off)
            return impl_t::empty_root();
        if (off == (u64) 1 << bits) {
            auto p = full(bits, Ex::block_kind(seed, bits, 0));
            return p;
        }
        return part(bits, 0, off);
    }
};
template <class C, class = void>
struct has_block : std::false_type
{};
template <class C>
struct has_block<
    C,
    decltype((void) Block<C>::impl_t::node_t::make_inner_n(1u)->inner()[0]->inc(),
             (void) Block<C>::impl_t::node_t::make_leaf_n(1u)->leaf(),
             (void) Block<C>::impl_t::empty_root(),
             (void) (const_cast<typename Block<C>::impl_t&>(
                         std::declval<const C&>().impl()) =
                         typename Block<C>::impl_t{
                             (std::size_t) 1, 1u,
                             Block<C>::impl_t::empty_root(),
                             Block<C>::impl_t::empty_root()}))>
    : std::integral_constant<bool, (Block<C>::BL >= 3)>
{};
template <class C, class = void>
struct is_flex : std::false_type
{};
template <class C>
struct is_flex<C, decltype((void) std::declval<const C&>().drop(1))>
    : std::true_type
{};

template <class C_, class MP>
struct HugeScenario : Scenario
{
    using C  = C_;
    using T  = typename C::value_type;
    using TR = typename C::transient_type;
    using E  = ET<T>;
    static constexpr bool gc = is_gc_v<MP>;
    static constexpr int NS = 4;
    static constexpr bool flex = is_flex<C>::value;

    bool faulty;
    u64 cap;
    struct HSlot
    {
        C* p = nullptr;
        ExP m;
        C& c() { return *p; }
    };
    HSlot* s_ = nullptr;
    Rng rs{1};

    HugeScenario(const char* n, bool f, u64 cp)
        : Scenario(n)
        , faulty(f)
        , cap(cp)
    {}
    const char* op_name(int k) override
    {
        return k <= hop::NOPS ? hop::names[k] : nullptr;
    }
    RunShape shape() override
    {
        RunShape s;
        s.use_gc     = gc;
        s.fault_mask = faulty ? FM_ALLOC | FM_THROW : 0;
        s.fault_pct  = 90;
        s.est_steps  = 300;
        return s;
    }
    void gen(Rng& r, Program& p) override
    {
        static const int base[hop::NOPS] = {1, 3, 2, 1, 6, 8, 5, 5, 5, 3,
                                            4, 3, 3, 3, 3, 3, 6, 2, 1, 1,
                                            has_block<C>::value ? 5 : 0};
        auto off = [](int k) {
            return !flex && (k == hop::DOUBLE || k == hop::CAT ||
                             k == hop::DROP ||
                             (k >= hop::PUSH_FRONT && k <= hop::ERASE_R));
        };
        int w[hop::NOPS], tot = 0;
        for (int k = 0; k < hop::NOPS; ++k) {
            w[k] = base[k];
            if (off(k) || (k > hop::CAT && k != hop::BLOCK && r.chance(1, 4)))
                w[k] = 0;
            tot += w[k];
        }
        p.nth    = 1;
        p.cfg[0] = r.below(1 << 16);
        p.cfg[1] = r.below(4);
        p.cfg[2] = r.below(4);
        int n    = 4 + r.below(r.chance(1, 4) ? 40 : 16);
        for (int i = 0; i < n; ++i) {
            Op op;
            if (i == 0)
                op.kind = hop::RANGE;
            else if (i == 1)
                op.kind = flex ? hop::DOUBLE : hop::BLOCK;
            else {
                int x = r.below(tot), k = 0;
                while (x >= w[k])
                    x -= w[k++];
                op.kind = k;
            }
            for (auto& a : op.a)
                a = r.below(1 << 16);
            p.th[1].push_back(op);
        }
    }
    u32 rvmode = 0;
    u64 lim    = 0;
    void setup(const Program& p) override
    {
        rvmode = p.cfg[1];
        // not all runs go to the limit
        lim = p.cfg[2] == 0 ? cap : p.cfg[2] == 1 ? std::min<u64>(cap, 3000)
              : p.cfg[2] == 2 ? std::min<u64>(cap, 100000)
                              : std::min<u64>(cap, 1u << 27);
        set_elem_registry(E::tracked);
        s_ = new HSlot[NS];
        for (int i = 0; i < NS; ++i) {
            s_[i].p = (C*) root_alloc(sizeof(C));
            s_[i].m = Ex::range(0, 0);
            Sut q;
            new (s_[i].p) C();
        }
    }
    void finish() override
    {
        for (int i = 0; i < NS; ++i)
            check(s_[i], 7919 * i, 10);
        for (int i = 0; i < NS; ++i) {
            {
                Sut q;
                s_[i].p->~C();
            }
            root_free(s_[i].p);
        }
        delete[] s_;
    }
    // an index below n, often near a boundary of some node
    u64 pick(u32 a, u32 b, u64 n)
    {
        if (!n)
            return 0;
        u64 x = ((u64) a << 20) ^ ((u64) b << 3) ^ (a >> 3);
        switch (a % 5) {
        case 0: return x % n;
        case 1: return (b % 70) % n;
        case 2: return n - 1 - (b % 70) % n;
        case 3: {
            u64 y = (u64) 1 << (b % 34);
            y += (a >> 4) % 5;
            return (y >= 2 ? y - 2 : y) % n;
        }
        default: {
            u64 z = x * 0x9e3779b97f4a7c15ull;
            return (z >> 13) % n;
        }
        }
    }
    void one(const C& c, const ExP& m, u64 i, const char* how)
    {
        u32 g, w = m->template at<T>(i);
        g = E::get(c[i]);
        if (g != w)
            fail("wrong-content",
                 "%s: element %llu of %llu is %u, the model says %u", how,
                 (unsigned long long) i, (unsigned long long) m->n, g, w);
    }
    void check(HSlot& s, u32 how, int samples)
    {
        Sut q;
        const C& c = s.c();
        u64 n      = s.m->n;
        if (c.size() != n || c.empty() != (n == 0))
            fail("wrong-size", "size %llu, the model says %llu",
                 (unsigned long long) c.size(), (unsigned long long) n);
        if (n > most(c, 0))
            fail("wrong-size", "size %llu, but max_size() is %llu",
                 (unsigned long long) n, (unsigned long long) most(c, 0));
        note(n);
        if (!n)
            return;
        one(c, s.m, 0, "index");
        one(c, s.m, n - 1, "index");
        u32 h = how * 2654435761u + 12345;
        for (int k = 0; k < samples; ++k) {
            h = h * 1664525u + 1013904223u;
            one(c, s.m, pick(h >> 16, (h >> 3) & 0xffff, n), "index");
        }
        u64 a   = pick(how, h >> 16, n);
        u64 len = std::min<u64>(n - a, 40 + how % 200);
        switch (how % 6) {
        case 0: { // an iterator from there on
            auto it = c.begin() + a;
            for (u64 i = a; i < a + len; ++i, ++it)
                if (E::get(*it) != s.m->template at<T>(i))
                    fail("wrong-content", "iteration from %llu: element %llu",
                         (unsigned long long) a, (unsigned long long) i);
            if ((u64) (c.end() - it) != n - a - len)
                fail("wrong-content", "end - iterator is wrong");
            break;
        }
        case 1: { // and backwards
            auto it = c.end() - (n - a - len);
            for (u64 i = a + len; i-- > a;) {
                --it;
                if (E::get(*it) != s.m->template at<T>(i))
                    fail("wrong-content", "walking back to %llu: element %llu",
                         (unsigned long long) a, (unsigned long long) i);
            }
            if ((u64) (it - c.begin()) != a)
                fail("wrong-content", "iterator - begin is wrong");
            break;
        }
        case 2: {
            u64 i = a;
            immer::for_each_chunk(c.begin() + a, c.begin() + (a + len),
                                  [&](auto x, auto y) {
                                      for (; x != y; ++x, ++i)
                                          if (i >= a + len ||
                                              E::get(*x) !=
                                                  s.m->template at<T>(i))
                                              fail("wrong-content",
                                                   "ranged for_each_chunk: "
                                                   "element %llu",
                                                   (unsigned long long) i);
                                  });
            if (i != a + len)
                fail("wrong-content", "ranged for_each_chunk stops early");
            break;
        }
        case 3: { // the first chunks, until told to stop
            u64 i = 0;
            int k = 0;
            bool r = immer::for_each_chunk_p(c, [&](auto x, auto y) {
                for (; x != y; ++x, ++i)
                    if (i >= n || E::get(*x) != s.m->template at<T>(i))
                        fail("wrong-content", "for_each_chunk_p: element %llu",
                             (unsigned long long) i);
                return ++k < 10;
            });
            if (r != (i == n && k < 10))
                fail("wrong-content", "for_each_chunk_p returns %d", r);
            break;
        }
        case 4: {
            for (u64 o : {(u64) 0, (u64) 1, (u64) 1 << 32, (u64) ~0ull - n}) {
                bool thrown = false;
                try {
                    (void) c.at(n + o);
                } catch (std::out_of_range&) {
                    thrown = true;
                }
                if (!thrown)
                    fail("wrong-content", "at() beyond the end does not throw");
            }
            if (E::get(c.at(a)) != s.m->template at<T>(a))
                fail("wrong-content", "at(%llu)", (unsigned long long) a);
            break;
        }
        case 5: { // one iterator, far jumps
            auto it = c.begin();
            u64 j   = 0;
            for (int k = 0; k < 6; ++k) {
                u64 t = pick(how * 7 + k * 991, h >> (k + 3), n);
                if (t >= j)
                    it += (std::ptrdiff_t) (t - j);
                else
                    it -= (std::ptrdiff_t) (j - t);
                j = t;
                if (E::get(*it) != s.m->template at<T>(j))
                    fail("wrong-content", "after a jump: element %llu",
                         (unsigned long long) j);
            }
            break;
        }
        }
    }
    void check_all(u32 how)
    {
        for (int i = 0; i < NS; ++i)
            check(s_[i], how + i * 31, 4);
    }
    // what an rvalue that was given to a failed operation holds is unspecified
    void revive(HSlot& s, const C& keep)
    {
        Sut q;
        if (!s.c().empty())
            (void) E::get(s.c()[s.c().size() / 2]);
        s.c() = keep;
    }
    template <class F>
    void derive(HSlot& s, HSlot& d, bool r, ExP want, u32 how, F&& f)
    {
        alignas(C) char buf[sizeof(C)];
        C* out = (C*) buf;
        for (;;) {
            bool done = false;
            // in-place operations are only tried on a value of our own when
            // nobody else holds it; a holder for the retry would change that
            attempt(
                r ? 0 : (FM_ALLOC | FM_THROW),
                [&] {
                    new (out) C(f(r));
                    done = true;
                },
                [&] { check_all(how); });
            if (done)
                break;
        }
        Sut q;
        if (r && &s != &d) {
            s.c() = C{};
            NoSut z;
            s.m = Ex::range(0, 0);
        }
        if (how & 1)
            d.c() = std::move(*out);
        else
            d.c() = *out;
        out->~C();
        NoSut z;
        d.m = want;
        check(d, how, 16);
    }
    bool rval(u32 a)
    {
        return rvmode == 3 || (rvmode > 0 && (a & 1));
    }
    void run_op(int, const Op& op) override
    {
        using namespace hop;
        HSlot& s = s_[op.a[0] % NS];
        HSlot& d = s_[op.a[1] % NS];
        u32 base = (u32) op.id * 1000;
        u32 how  = op.a[3];
        bool r   = rval(op.a[2] >> 8);
        ExP m    = s.m;
        u64 n    = m->n;
        u64 idx  = pick(op.a[2], op.a[3], n);
        switch (op.kind) {
        case NEW: {
            {
                Sut q;
                d.c() = C{};
            }
            d.m = Ex::range(0, 0);
            break;
        }
        case BLOCK: {
            if constexpr (has_block<C>::value) {
                u32 bits = op.a[2] % 35;
                u64 k    = ((u64) 1 << bits) + 1;
                switch (op.a[3] % 4) {
                case 0: k += op.a[3] % 300; break;
                case 1: k -= std::min<u64>(k - 1, op.a[3] % 300); break;
                case 2: k += (k >> 5) * (op.a[3] % 37); break;
                default: k += (u64) op.a[3] << 3 ; break;
                }
                while (k > lim)
                    k >>= 1;
                u32 seed = base + (op.a[2] >> 6) % 16;
                {
                    Sut q;
                    C c;
                    const_cast<typename Block<C>::impl_t&>(c.impl()) =
                        Block<C>::make(seed, k);
                    d.c() = std::move(c);
                }
                d.m = Ex::block(seed, k);
                check(d, how, 16);
            }
            break;
        }
        case RANGE: {
            u32 k = op.a[2] % (op.a[2] & 0x8000 ? 600 : 70);
            if (op.a[2] >> 6 == 77) // a tree of many levels of its own
                k = 9000 + op.a[3] % 12000;
            derive(s, d, false, Ex::range(base, k), how, [&](bool) {
                return C(GenIt<T>{base, 0}, GenIt<T>{base, k});
            });
            break;
        }
        case COPY:
        case MOVE: {
            {
                Sut q;
                if (op.kind == COPY)
                    d.c() = s.c();
                else {
                    C t   = std::move(s.c());
                    s.c() = C{};
                    d.c() = std::move(t);
                }
            }
            if (op.kind == MOVE)
                s.m = Ex::range(0, 0);
            d.m = m;
            break;
        }
        case DOUBLE:
            if constexpr (flex) {
            u32 k = 1 + op.a[2] % 12;
            while (k-- && 2 * s.m->n <= lim) {
                ExP w = Ex::cat(s.m, s.m);
                bool mv = how >> (k % 8) & 1;
                derive(s, s, false, w, k ? 1 : how, [&](bool) {
                    if (mv) {
                        C c = s.c();
                        return std::move(c) + s.c();
                    }
                    return s.c() + s.c();
                });
            }
            break;
        }
        case CAT:
            if constexpr (flex) {
            HSlot& k = s_[(how >> 4) % NS];
            if (n + k.m->n > lim)
                break;
            ExP w = Ex::cat(m, k.m);
            if (r && &k != &s && (how & 8)) {
                ExP e = Ex::range(0, 0);
                bool both = how & 16;
                derive(s, s, true, w, how, [&](bool) {
                    return both ? std::move(s.c()) + std::move(k.c())
                                : s.c() + std::move(k.c());
                });
                Sut q;
                k.c() = C{};
                NoSut z;
                k.m = e;
            } else
                derive(s, d, r && &k != &s, w, how, [&](bool r) {
                    return r ? std::move(s.c()) + k.c() : s.c() + k.c();
                });
            break;
        }
        case TAKE: {
            u64 k = how & 32 ? idx : n - idx;
            derive(s, d, r, Ex::slice(m, 0, std::min(k, n)), how, [&](bool r) {
                return r ? std::move(s.c()).take(k) : s.c().take(k);
            });
            break;
        }
        case DROP:
            if constexpr (flex) {
            u64 k = how & 32 ? idx : n - idx;
            derive(s, d, r, Ex::slice(m, k, n - k), how, [&](bool r) {
                return r ? std::move(s.c()).drop(k) : s.c().drop(k);
            });
            break;
        }
        case SET: {
            if (!n)
                break;
            T v = E::make(base);
            derive(s, d, r, Ex::put(m, idx, mv<T>(base)), how, [&](bool r) {
                return r ? std::move(s.c()).set(idx, v) : s.c().set(idx, v);
            });
            one(d.c(), d.m, idx, "what was set");
            break;
        }
        case UPDATE: {
            if (!n)
                break;
            u32 old = m->template at<T>(idx);
            auto fn = [&](auto&& y) -> T {
                NoSut z;
                if (E::get(y) != old)
                    fail("wrong-content", "update is given %u, not %u",
                         E::get(y), old);
                maybe_throw(9);
                return E::make(base);
            };
            derive(s, d, r, Ex::put(m, idx, mv<T>(base)), how, [&](bool r) {
                return r ? std::move(s.c()).update(idx, fn)
                         : s.c().update(idx, fn);
            });
            one(d.c(), d.m, idx, "what was updated");
            break;
        }
        case PUSH:
        case PUSH_FRONT: {
            u32 k   = 1 + op.a[2] % 9;
            bool fr = op.kind == PUSH_FRONT;
            for (u32 i = 0; i < k && s.m->n < lim; ++i) {
                ExP one_ = Ex::range(base + i, 1);
                T v      = E::make(base + i);
                derive(s, s, r && !fr,
                       fr ? Ex::cat(one_, s.m) : Ex::cat(s.m, one_), how | 1,
                       [&](bool r) {
                           if constexpr (flex)
                               if (fr)
                                   return s.c().push_front(v);
                           return r ? std::move(s.c()).push_back(v)
                                    : s.c().push_back(v);
                       });
            }
            break;
        }
        case INSERT:
        case INSERT_V:
            if constexpr (flex) {
            HSlot& k  = s_[(how >> 4) % NS];
            bool many = op.kind == INSERT_V;
            u64 kn    = many ? k.m->n : 1;
            if (n + kn > lim || &k == &s)
                break;
            u64 p = how & 64 ? idx : n - idx;
            T v   = E::make(base);
            ExP w = Ex::cat(Ex::cat(Ex::slice(m, 0, p),
                                    many ? k.m : Ex::range(base, 1)),
                            Ex::slice(m, p, n - p));
            derive(s, d, r, w, how, [&](bool r) {
                if (many)
                    return r ? std::move(s.c()).insert(p, k.c())
                             : s.c().insert(p, k.c());
                return r ? std::move(s.c()).insert(p, v) : s.c().insert(p, v);
            });
            break;
        }
        case ERASE:
            if constexpr (flex) {
            if (!n)
                break;
            ExP w = Ex::cat(Ex::slice(m, 0, idx),
                            Ex::slice(m, idx + 1, n - idx - 1));
            derive(s, d, r, w, how, [&](bool r) {
                return r ? std::move(s.c()).erase(idx) : s.c().erase(idx);
            });
            break;
        }
        case ERASE_R:
            if constexpr (flex) {
            u64 e = idx + pick(op.a[1], how, n - idx + 1);
            ExP w = Ex::cat(Ex::slice(m, 0, idx), Ex::slice(m, e, n - e));
            derive(s, d, false, w, how,
                   [&](bool) { return C(s.c().erase(idx, e)); });
            break;
        }
        case EDIT: {
            // a transient session; the value it is of stays what it is
            HSlot& k = s_[(how >> 4) % NS];
            ExP w    = m;
            u32 h    = how * 40503u + op.a[2];
            int cnt  = 1 + op.a[1] / NS % 5;
            TR* t    = (TR*) root_alloc(sizeof(TR));
            {
                Sut q;
                new (t) TR(s.c().transient());
            }
            for (int i = 0; i < cnt; ++i) {
                h     = h * 1664525u + 1013904223u;
                u64 j = pick(h >> 16, h & 0xffff, w->n);
                T v   = E::make(base + i);
                Sut q;
                switch ((h >> 9) % 7) {
                case 0:
                    if (w->n < lim) {
                        t->push_back(v);
                        NoSut z;
                        w = Ex::cat(w, Ex::range(base + i, 1));
                    }
                    break;
                case 1:
                    if (w->n) {
                        t->set(j, v);
                        NoSut z;
                        w = Ex::put(w, j, mv<T>(base + i));
                    }
                    break;
                case 2:
                    if (w->n) {
                        t->update(j, [&](auto&& y) {
                            (void) E::get(y);
                            return v;
                        });
                        NoSut z;
                        w = Ex::put(w, j, mv<T>(base + i));
                    }
                    break;
                case 3: {
                    t->take(w->n - j);
                    NoSut z;
                    w = Ex::slice(w, 0, w->n - j);
                    break;
                }
                case 4:
                    if constexpr (flex) {
                        t->drop(j);
                        NoSut z;
                        w = Ex::slice(w, j, w->n - j);
                    }
                    break;
                case 5:
                case 6:
                    if constexpr (flex) {
                    if (w->n + k.m->n > lim)
                        break;
                    bool ap = (h >> 9) % 7 == 5;
                    auto u  = k.c().transient();
                    if (h & 4) {
                        if (ap)
                            t->append(u);
                        else
                            t->prepend(u);
                    } else {
                        if (ap)
                            t->append(std::move(u));
                        else
                            t->prepend(std::move(u));
                    }
                    NoSut z;
                    w = ap ? Ex::cat(w, k.m) : Ex::cat(k.m, w);
                    break;
                }
                }
                if (t->size() != w->n)
                    fail("wrong-size", "a transient of size %llu, the model "
                                       "says %llu",
                         (unsigned long long) t->size(),
                         (unsigned long long) w->n);
                for (u64 p : {(u64) 0, w->n / 2, w->n - 1, j})
                    if (p < w->n &&
                        E::get((*t)[p]) != w->template at<T>(p))
                        fail("wrong-content", "transient: element %llu",
                             (unsigned long long) p);
            }
            {
                Sut q;
                d.c() = how & 1 ? std::move(*t).persistent() : t->persistent();
                t->~TR();
            }
            root_free(t);
            d.m = w;
            check(d, how, 16);
            break;
        }
        case EQ: {
            if (n > 20000 || d.m->n > 20000)
                break;
            bool eq = false;
            attempt(
                FM_ALLOC | FM_THROW, [&] { eq = s.c() == d.c(); },
                [&] { check_all(how); });
            bool same = n == d.m->n;
            for (u64 i = 0; same && i < n; ++i)
                same = m->template at<T>(i) == d.m->template at<T>(i);
            if (eq != same)
                fail("wrong-equality", "== says %d, the models %d", eq, same);
            break;
        }
        default:
            check(s, how, 60);
            break;
        }
        check_all(how);
    }
};

} // namespace sim

#define HUGE_FLEX(T, MP, ...)                                                       \
    using inst = sim::HugeScenario<immer::flex_vector<T, MP, ##__VA_ARGS__>, MP>;
#define HUGE_VEC(T, MP, ...)                                                   \
    using inst = sim::HugeScenario<immer::vector<T, MP, ##__VA_ARGS__>, MP>;
#define HCAT2(a, b) a##b
#define HCAT1(a, b) HCAT2(a, b)
#define SCN(name, faulty, cap)                                                 \
    static sim::Reg<inst> HCAT1(reg_, __LINE__)("seq." name, faulty, cap);
