// C02 / C04 / C05: histories of operations on the type-erased holder
#include "track.h"
#include "zserio/Any.h"
#include "zserio/CppRuntimeException.h"
using namespace track;

using T1 = Elem<1, 0, true>;   // kept in place
using T2 = Elem<2, 40, false>; // on the heap because of its size
using T3 = Elem<3, 0, false>;  // on the heap because moving it may throw

using T4 = Elem<4, 0, true>;   // kept in place

#ifdef ZV_THOROUGH
#define NEXT (OPS - 1)
#else
#define NEXT 5
#endif

struct Model
{
    int type; // 0: nothing
    uint64_t v;
    uint64_t alloc;
};


template <typename T, typename A>
static void agreeType(A& a, bool is, uint64_t v)
{
    const A& c = a;
    zv_check_eq(c.template isType<T>(), is, "isType tells the type of the value");
    if (is)
    {
        zv_check_eq(a.template get<T>().get(), v, "value of the holder");
        zv_check_eq(c.template get<T>().get(), v, "value of the holder");
        T* p = a.template get_if<T>();
        const T* q = c.template get_if<T>();
        zv_check(p != nullptr && q != nullptr, "get_if finds the value");
        zv_check_eq(p->get(), v, "value of the holder");
        zv_check_eq(q->get(), v, "value of the holder");
    }
    else
    {
        int thrown = 0;
        try { (void)a.template get<T>(); } catch (const zserio::CppRuntimeException&) { thrown++; }
        try { (void)c.template get<T>(); } catch (const zserio::CppRuntimeException&) { thrown++; }
        zv_check_eq(thrown, 2, "a cast to a type which is not stored throws");
        zv_check(a.template get_if<T>() == nullptr && c.template get_if<T>() == nullptr, "get_if of a type which is not stored is null");
    }
}

template <typename A>
static void agree(A& a, const Model& m)
{
    const A& c = a;
    zv_check_eq(c.hasValue(), m.type != 0, "hasValue tells whether there is a value");
    zv_check_eq(c.get_allocator().id, m.alloc, "the holder keeps or propagates its allocator");
    agreeType<T1>(a, m.type == 1, m.v);
    agreeType<T2>(a, m.type == 2, m.v);
    agreeType<T3>(a, m.type == 3, m.v);
    agreeType<T4>(a, m.type == 5, m.v);
}

template <typename T, typename A>
static void known(A& a, Model& m, uint64_t other)
{
    const uint64_t v = a.template get<T>().get();
    zv_check(zv_same(v, m.v) || zv_same(v, other) || zv_same(v, MOVED), "after a fault only an old or new value is exposed");
    m.v = v;
}

// after a fault: the holder holds nothing, or a value it held before or was to hold
template <typename A>
static void afterFault(A& a, Model& m, uint64_t other)
{
    const int f = g_faults;
    g_faults = 0;
    try
    {
        if (!a.hasValue()) m.type = 0;
        else if (a.template isType<T1>()) { m.type = 1; known<T1>(a, m, other); }
        else if (a.template isType<T2>()) { m.type = 2; known<T2>(a, m, other); }
        else if (a.template isType<T3>()) { m.type = 3; known<T3>(a, m, other); }
        else if (a.template isType<T4>()) { m.type = 5; known<T4>(a, m, other); }
        else zv_fail("after a fault the holder claims a value of no type");
    }
    catch (...)
    {
        zv_fail("after a fault the holder claims a value which does not exist");
    }
    m.alloc = a.get_allocator().id;
    g_faults = f;
}

template <typename A, typename T, int TYPE>
static void setOp(A& a, Model& m, uint64_t how, uint64_t fresh)
{
    try
    {
        const T t(fresh);
        try
        {
            if (how == 0) a.set(t);
            else if (how == 1) a = T(fresh);
            else { T& r = a.template emplace<T>(fresh); zv_check_eq(r.get(), fresh, "emplace returns the new value"); }
            m.type = TYPE;
            m.v = fresh;
        }
        catch (const Boom&) { afterFault(a, m, fresh); }
        zv_check_eq(t.get(), fresh, "the assigned value is not changed");
    }
    catch (const Boom&) {}
}

template <typename A, bool PROP>
static void step(A& a, A& b, Model& ma, Model& mb, uint64_t op, uint64_t fresh)
{
    using ALLOC = typename A::allocator_type;
    const bool same = ma.alloc == mb.alloc;
    if (op == 0)
    {
        try { a = static_cast<const A&>(b); ma = Model{mb.type, mb.v, PROP ? mb.alloc : ma.alloc}; }
        catch (const Boom&) { afterFault(a, ma, mb.v); }
    }
    else if (op == 1)
    {
        try { a = std::move(b); ma = Model{mb.type, mb.v, PROP ? mb.alloc : ma.alloc}; mb.type = 0; }
        catch (const Boom&) { afterFault(a, ma, mb.v); afterFault(b, mb, mb.v); }
    }
    else if (op == 2)
    {
        try
        {
            a.swap(b);
            const Model t = ma;
            ma = Model{mb.type, mb.v, PROP ? mb.alloc : ma.alloc};
            mb = Model{t.type, t.v, PROP ? t.alloc : mb.alloc};
        }
        catch (const Boom&) { const uint64_t v = ma.v; afterFault(a, ma, mb.v); afterFault(b, mb, v); }
    }
    else if (op == 3) setOp<A, T1, 1>(a, ma, 0, fresh);
    else if (op == 4) setOp<A, T2, 2>(a, ma, 2, fresh);
    else if (op == 5) setOp<A, T3, 3>(a, ma, 2, fresh);
    else if (op == 6) setOp<A, T1, 1>(a, ma, 1, fresh);
    else if (op == 7) setOp<A, T1, 1>(a, ma, 2, fresh);
    else if (op == 8) setOp<A, T2, 2>(a, ma, 0, fresh);
    else if (op == 9) setOp<A, T2, 2>(a, ma, 1, fresh);
    else if (op == 10) setOp<A, T3, 3>(a, ma, 1, fresh);
    else if (op == 11) { a.reset(); ma.type = 0; }
    else if (op == 12)
    {
        try { A c(static_cast<const A&>(b)); agree(c, Model{mb.type, mb.v, mb.alloc | 16}); }
        catch (const Boom&) {}
    }
    else if (op == 13)
    {
        A c(std::move(b));
        agree(c, Model{mb.type, mb.v, mb.alloc});
        mb.type = 0;
    }
    else if (op == 14)
    {
        try { A c(static_cast<const A&>(b), ALLOC(3)); agree(c, Model{mb.type, mb.v, 3}); }
        catch (const Boom&) {}
    }
    else if (op == 15)
    {
        try { A c(std::move(b), ALLOC(1)); agree(c, Model{mb.type, mb.v, 1}); mb.type = 0; }
        catch (const Boom&) { afterFault(b, mb, mb.v); }
    }
    else if (op == 16)
    {
        A& self = a;
        a = static_cast<const A&>(self);
        a = std::move(self);
    }
    else if (op == 17)
    {
        A& self = a;
        try { a.swap(self); }
        catch (const Boom&) { afterFault(a, ma, ma.v); }
    }
    else if (op == 18) setOp<A, T4, 5>(a, ma, 0, fresh);
    else if (op == 19) setOp<A, T4, 5>(a, ma, 2, fresh);
    else
    {
        try { const T1 t(fresh); A c(t, ALLOC(5)); agree(c, Model{1, fresh, 5}); }
        catch (const Boom&) {}
        try { A c(T2(fresh), ALLOC(5)); agree(c, Model{2, fresh, 5}); }
        catch (const Boom&) {}
    }
    if (!PROP && same) zv_check(a.get_allocator() == b.get_allocator(), "allocators are kept");
}
static constexpr uint64_t OPS = 21;

template <typename A>
static void initial(A& o, Model& m, uint64_t state, uint64_t v)
{
    if (state == 0) return;
    if (state == 1) o.set(T1(v));
    else if (state == 2) o.set(T2(v));
    else if (state == 5) o.set(T4(v));
    else o.template emplace<T3>(v);
    m.v = v;
    m.type = static_cast<int>(state);
    if (state == 4) { A sink(std::move(o)); m.type = 0; }
}

template <bool PROP>
static void history(uint64_t faults)
{
    using A = zserio::BasicAny<Alloc<uint8_t, PROP>>;
    const uint64_t sa = zv_split(0, 5), sb = zv_split(0, 4), bid = zv_split(1, 2), op = zv_split(0, OPS - 1);
    zv_shard();
    const uint64_t live = zv_live();
    {
        Model ma{0, 0, 1}, mb{0, 0, bid};
        A a{Alloc<uint8_t, PROP>(1)}, b{Alloc<uint8_t, PROP>(bid)};
        initial(a, ma, sa, zv_sym("va", 64));
        initial(b, mb, sb, zv_sym("vb", 64));
        agree(a, ma);
        agree(b, mb);
        g_faults = static_cast<int>(faults);
        step<A, PROP>(a, b, ma, mb, op, zv_sym("fresh", 64));
        {
            const int f = g_faults;
            g_faults = 0;
            agree(a, ma);
            agree(b, mb);
            g_faults = f;
        }
        if (op < 12 || op == 13 || op == 15 || op == 18)
        {
            const uint64_t next = zv_split(0, NEXT);
            step<A, PROP>(a, b, ma, mb, next, zv_sym("fresh2", 64));
        }
        g_faults = 0;
        agree(a, ma);
        agree(b, mb);
    }
    zv_check_eq(zv_live(), live, "every value is destroyed and every block freed");
    zv_cover("history ends");
}

ZV_HARNESS(C02_history) { if (zv_split(0, 1)) history<true>(1); else history<false>(1); }
ZV_HARNESS(C05_any)
{
    zv_mode("no_new", 1);
    if (zv_split(0, 1)) history<true>(0); else history<false>(0);
}
ZV_HARNESS(C04_any)
{
    using ALLOC = Alloc<uint8_t, false>;
    const uint64_t s = zv_split(0, 5), v = zv_sym("v", 64);
    Model m{0, 0, 1};
    zserio::BasicAny<ALLOC> a{ALLOC(1)};
    if (s == 5) { a.set(T2(v)); a.reset(); }
    else initial(a, m, s, v);
    agree(a, m);
    zv_cover("accessed");
}
