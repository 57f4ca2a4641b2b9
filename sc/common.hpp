// element, key and policy types shared by the scenarios (instrumented code)
#pragma once
#include "../rt/sim.h"

#include <immer/box.hpp>
#include <immer/vector.hpp>
#include <immer/heap/free_list_heap.hpp>
#include <immer/heap/gc_heap.hpp>
#include <immer/heap/heap_policy.hpp>
#include <immer/heap/malloc_heap.hpp>
#include <immer/heap/cpp_heap.hpp>
#include <immer/lock/no_lock_policy.hpp>
#include <immer/lock/spinlock_policy.hpp>
#include <immer/memory_policy.hpp>
#include <immer/refcount/no_refcount_policy.hpp>
#include <immer/refcount/refcount_policy.hpp>
#include <immer/refcount/unsafe_refcount_policy.hpp>

#include <cstring>
#include <new>
#include <type_traits>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- policies
// default: free lists (thread local, then global), atomic counts, spinlock
using mp_default = immer::default_memory_policy;
// plain heap, atomic counts, nodes embed what can be embedded
using mp_basic = immer::memory_policy<immer::heap_policy<immer::cpp_heap>,
                                      immer::refcount_policy,
                                      immer::spinlock_policy>;
// malloc heap whose blocks know their size, nothing embedded
using mp_sized =
    immer::memory_policy<immer::heap_policy<immer::debug_size_heap<immer::malloc_heap>>,
                         immer::refcount_policy,
                         immer::spinlock_policy>;
// the same with embedding
using mp_sizede =
    immer::memory_policy<immer::heap_policy<immer::debug_size_heap<immer::cpp_heap>>,
                         immer::refcount_policy,
                         immer::spinlock_policy>;
// plain heap without in place updates of rvalues
using mp_norv =
    immer::memory_policy<immer::heap_policy<immer::debug_size_heap<immer::malloc_heap>>,
                         immer::refcount_policy,
                         immer::spinlock_policy,
                         immer::no_transience_policy,
                         true,
                         false>;
// tracing collection, owner tokens for transients
using mp_gc = immer::memory_policy<immer::heap_policy<immer::gc_heap>,
                                   immer::no_refcount_policy,
                                   immer::default_lock_policy,
                                   immer::gc_transience_policy,
                                   false>;
// single threaded: plain counts, unsafe free lists with a tiny limit
using mp_unsafe =
    immer::memory_policy<immer::unsafe_free_list_heap_policy<immer::cpp_heap, 4>,
                         immer::unsafe_refcount_policy,
                         immer::no_lock_policy>;
// free lists with a tiny limit, so that blocks keep crossing all the layers
using mp_tiny =
    immer::memory_policy<immer::free_list_heap_policy<immer::cpp_heap, 3>,
                         immer::refcount_policy,
                         immer::spinlock_policy>;

// the largest size a container says it can have (flexible ones of one bit say 0)
template <class X>
auto most(const X& c, int) -> decltype((void) X::bits, X::max_size())
{
    (void) c;
    auto m = X::max_size();
    return X::bits == 1 && !m ? ~decltype(m){} : m;
}
template <class X>
size_t most(const X&, long)
{
    return ~size_t{};
}

template <class MP>
constexpr bool is_gc_v =
    std::is_same_v<typename MP::refcount, immer::no_refcount_policy>;
template <class MP>
constexpr bool is_mt_v =
    !std::is_same_v<typename MP::refcount, immer::unsafe_refcount_policy>;

constexpr u32 MOVED = 0xdeadbee1;

// --------------------------------------------------------------- elements
// non trivial: knows where it lives; copying may throw; moving may throw when
// ThrowMove
template <bool ThrowMove>
struct Elem
{
    u32 magic;
    u32 v;
    const void* me;

    void good() const
    {
        elem_use(this);
        if (magic != 0x5eed5eed || me != this)
            fail("elem-corrupt",
                 "an object was relocated or overwritten (magic %x)", magic);
    }
    Elem() noexcept
        : magic(0x5eed5eed)
        , v(0)
        , me(this)
    {
        elem_born(this);
    }
    explicit Elem(u32 x) noexcept
        : magic(0x5eed5eed)
        , v(x)
        , me(this)
    {
        elem_born(this);
    }
    Elem(const Elem& o)
    {
        o.good();
        preempt();
        maybe_throw(1);
        o.good();
        magic = 0x5eed5eed;
        v     = o.v;
        me    = this;
        elem_born(this);
    }
    Elem(Elem&& o) noexcept(!ThrowMove)
    {
        o.good();
        if (ThrowMove)
            maybe_throw(2);
        magic = 0x5eed5eed;
        v     = o.v;
        me    = this;
        o.v   = MOVED;
        elem_born(this);
    }
    Elem& operator=(const Elem& o)
    {
        good();
        o.good();
        maybe_throw(3);
        v = o.v;
        return *this;
    }
    Elem& operator=(Elem&& o) noexcept(!ThrowMove)
    {
        good();
        o.good();
        if (ThrowMove)
            maybe_throw(4);
        if (this != &o) {
            v   = o.v;
            o.v = MOVED;
        }
        return *this;
    }
    ~Elem()
    {
        good();
        elem_dead(this);
        magic = 0xdeaddead;
        me    = nullptr;
    }
    bool operator==(const Elem& o) const
    {
        good();
        o.good();
        maybe_throw(5);
        return v == o.v;
    }
    bool operator!=(const Elem& o) const { return !(*this == o); }
    bool operator<(const Elem& o) const { return v < o.v; }
};

struct Big // trivial, but large
{
    u32 v;
    u32 pad[9];
    bool operator==(const Big& o) const
    {
        return memcmp(this, &o, sizeof o) == 0;
    }
    bool operator!=(const Big& o) const { return !(*this == o); }
};

template <class T>
struct ET;
template <>
struct ET<u32>
{
    static constexpr bool throwing = false, tracked = false, ptr = false;
    static u32 make(u32 v) { return v; }
    static u32 of(u32 v) { return v; }
    static u32 get(const u32& x) { return x; }
};
template <>
struct ET<unsigned char>
{
    static constexpr bool throwing = false, tracked = false, ptr = false;
    static unsigned char of(u32 v) { return (unsigned char) v; }
    static unsigned char make(u32 v) { return (unsigned char) (v * 7 + (v >> 8)); }
    static u32 get(const unsigned char& x) { return x; }
};
template <>
struct ET<Big>
{
    static constexpr bool throwing = false, tracked = false, ptr = false;
    static Big of(u32 v) { return make(v); }
    static Big make(u32 v)
    {
        Big b;
        b.v = v;
        for (u32 i = 0; i < 9; ++i)
            b.pad[i] = v * 31 + i;
        return b;
    }
    static u32 get(const Big& x)
    {
        for (u32 i = 0; i < 9; ++i)
            if (x.pad[i] != x.v * 31 + i && (x.v || x.pad[i]))
                return 0xbadbad;
        return x.v;
    }
};
template <bool TM>
struct ET<Elem<TM>>
{
    static constexpr bool throwing = true, tracked = true, ptr = false;
    static Elem<TM> of(u32 v) { return Elem<TM>(v); }
    static Elem<TM> make(u32 v) { return Elem<TM>(v); }
    static u32 get(const Elem<TM>& x)
    {
        x.good();
        return x.v;
    }
};
template <class MP>
struct ET<immer::box<u32, MP>> // an element that holds a pointer of its own
{
    static constexpr bool throwing = false, tracked = false, ptr = true;
    static immer::box<u32, MP> of(u32 v) { return make(v); }
    static immer::box<u32, MP> make(u32 v)
    {
        Sut s;
        return immer::box<u32, MP>(v);
    }
    static u32 get(const immer::box<u32, MP>& x) { return *x; }
};
// an element that is a container itself; the harness may copy and destroy it
// at any place, so it sees to it that the library code in it is simulated
template <class MP>
struct Nested
{
    using V = immer::vector<u32, MP, 1, 1>;
    union
    {
        V v;
    };
    explicit Nested(u32 x)
        : Nested()
    {
        Sut s;
        for (u32 i = 0; i <= x % 7; ++i)
            v = std::move(v).push_back(x + i);
    }
    Nested()
    {
        Sut s;
        new (&v) V();
    }
    Nested(const Nested& o)
    {
        Sut s;
        new (&v) V(o.v);
    }
    Nested(Nested&& o) noexcept
    {
        Sut s;
        new (&v) V(std::move(o.v));
    }
    Nested& operator=(const Nested& o)
    {
        Sut s;
        v = o.v;
        return *this;
    }
    Nested& operator=(Nested&& o) noexcept
    {
        Sut s;
        v = std::move(o.v);
        return *this;
    }
    ~Nested()
    {
        Sut s;
        v.~V();
    }
    bool operator==(const Nested& o) const
    {
        Sut s;
        return v == o.v;
    }
    bool operator!=(const Nested& o) const { return !(*this == o); }
};
template <class MP>
struct ET<Nested<MP>>
{
    static constexpr bool throwing = false, tracked = false, ptr = true;
    static Nested<MP> of(u32 v) { return Nested<MP>(v); }
    static Nested<MP> make(u32 v) { return Nested<MP>(v); }
    static u32 get(const Nested<MP>& r)
    {
        Sut s;
        auto& x = r.v;
        if (x.size() == 0)
            return 0;
        u32 v = x[0];
        if (x.size() != v % 7 + 1)
            return 0xbadbad;
        for (u32 i = 0; i <= v % 7; ++i)
            if (x[i] != v + i)
                return 0xbadbad;
        return v;
    }
};
// model value of make(v)
template <class T>
u32 mv(u32 v)
{
    if constexpr (std::is_same_v<T, unsigned char>)
        return (unsigned char) (v * 7 + (v >> 8));
    else
        return v;
}

// runs an operation under injected faults until an attempt gets through;
// after every failed attempt `after` checks what must hold then
template <class F, class A>
int attempt(u32 mask, F&& f, A&& after)
{
    int total = 0;
    for (;;) {
        bool ok = false;
        fault_begin(mask);
        try {
            Sut s;
            f();
            ok = true;
        } catch (Injected&) {
        } catch (std::bad_alloc&) {
        }
        int n = fault_end();
        if (ok)
            return total;
        if (!n)
            fail("spurious-exception",
                 "an operation threw although nothing was injected");
        ++total;
        note(0xfa);
        after();
    }
}

typedef std::vector<u32> Model;

// a slot holds a container in memory the simulator treats as a root
template <class C>
struct Slot
{
    C* p = nullptr; // storage from root_alloc
    bool live = false;
    Model m;

    void init()
    {
        if (!p)
            p = (C*) root_alloc(sizeof(C));
    }
    C& c() { return *p; }
    template <class... A>
    void emplace(A&&... a)
    {
        clear();
        new (p) C(std::forward<A>(a)...);
        live = true;
    }
    void clear()
    {
        if (live) {
            Sut s;
            p->~C();
        }
        live = false;
    }
    void done()
    {
        clear();
        if (p)
            root_free(p);
        p = nullptr;
    }
};

// hands what is written through it to a function
template <class F>
struct OutIt
{
    using iterator_category = std::output_iterator_tag;
    using value_type        = void;
    using difference_type   = std::ptrdiff_t;
    using pointer           = void;
    using reference         = void;
    F* f;
    OutIt& operator*() { return *this; }
    OutIt& operator++() { return *this; }
    OutIt operator++(int) { return *this; }
    template <class X>
    OutIt& operator=(const X& x)
    {
        (*f)(x);
        return *this;
    }
};

} // namespace sim
