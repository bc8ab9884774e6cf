// C01 / C04 / C05: histories of operations on optional holders
#include "track.h"
#include "zserio/Optional.h"
using namespace track;

#ifdef ZV_THOROUGH
#define STEPS 2
#define NEXT (OPS - 1)
#else
#define STEPS 2
#define NEXT 4
#endif

// what a holder is expected to hold
struct Model
{
    bool has;
    uint64_t v;
    uint64_t alloc;
};

template <typename O>
static void agree(O& o, const Model& m)
{
    zv_check_eq(o.has_value(), m.has, "has_value tells whether there is a value");
    zv_check_eq(static_cast<bool>(o), m.has, "operator bool tells whether there is a value");
    zv_check_eq(o.get_allocator().id, m.alloc, "the holder keeps or propagates its allocator");
    const O& c = o;
    if (m.has)
    {
        zv_check_eq(o.value().get(), m.v, "value of the optional");
        zv_check_eq((*c).get(), m.v, "value of the optional");
        zv_check_eq(c->get(), m.v, "value of the optional");
    }
    else
    {
        int thrown = 0;
        try { (void)o.value(); } catch (const zserio::BadOptionalAccess&) { thrown++; }
        try { (void)c.value(); } catch (const zserio::BadOptionalAccess&) { thrown++; }
        try { (void)*o; } catch (const zserio::BadOptionalAccess&) { thrown++; }
        try { (void)*c; } catch (const zserio::BadOptionalAccess&) { thrown++; }
        try { (void)o.operator->(); } catch (const zserio::BadOptionalAccess&) { thrown++; }
        try { (void)c.operator->(); } catch (const zserio::BadOptionalAccess&) { thrown++; }
        zv_check_eq(thrown, 6, "access to an empty optional throws");
    }
}

// after a fault: the holder is usable, it holds nothing, the old or the new value
template <typename O>
static void afterFault(O& o, Model& m, uint64_t other)
{
    if (o.has_value())
    {
        const uint64_t v = o.value().get();
        zv_check(zv_same(v, m.v) || zv_same(v, other) || zv_same(v, MOVED), "after a fault only an old or new value is exposed");
        m.has = true;
        m.v = v;
    }
    else
    {
        m.has = false;
    }
    m.alloc = o.get_allocator().id;
}

template <typename O, typename T, bool PROP, bool HEAP>
static void step(O& a, O& b, Model& ma, Model& mb, uint64_t op, uint64_t fresh)
{
    using A = typename O::allocator_type;
    const bool same = ma.alloc == mb.alloc;
    switch (op)
    {
    case 0: // copy assignment
        try { a = static_cast<const O&>(b); ma = Model{mb.has, mb.v, PROP ? mb.alloc : ma.alloc}; }
        catch (const Boom&) { afterFault(a, ma, mb.v); }
        break;
    case 1: // move assignment
        try
        {
            a = std::move(b);
            ma = Model{mb.has, mb.v, PROP ? mb.alloc : ma.alloc};
            if (mb.has)
            {
                if (HEAP && (PROP || same)) mb.has = false;
                else mb.v = MOVED;
            }
        }
        catch (const Boom&) { afterFault(a, ma, mb.v); afterFault(b, mb, mb.v); }
        break;
    case 2:
        a = std::nullopt;
        ma.has = false;
        break;
    case 3:
        a.reset();
        ma.has = false;
        break;
    case 4:
        try { T& r = a.emplace(fresh); zv_check_eq(r.get(), fresh, "emplace returns the new value"); ma.has = true; ma.v = fresh; }
        catch (const Boom&) { afterFault(a, ma, fresh); }
        break;
    case 5: // assignment of a value
        try { a = T(fresh); ma.has = true; ma.v = fresh; }
        catch (const Boom&) { afterFault(a, ma, fresh); }
        break;
    case 6:
        try
        {
            const T t(fresh);
            try { a = t; ma.has = true; ma.v = fresh; } catch (const Boom&) { afterFault(a, ma, fresh); }
            zv_check_eq(t.get(), fresh, "the assigned value is not changed");
        }
        catch (const Boom&) {}
        break;
    case 7:
        if (PROP || same)
        {
            try
            {
                a.swap(b);
                const Model t = ma;
                ma = Model{mb.has, mb.v, PROP ? mb.alloc : ma.alloc};
                mb = Model{t.has, t.v, PROP ? t.alloc : mb.alloc};
            }
            catch (const Boom&) { const uint64_t v = ma.v; afterFault(a, ma, mb.v); afterFault(b, mb, v); }
        }
        break;
    case 8: // copies
        try { O c(static_cast<const O&>(b)); agree(c, Model{mb.has, mb.v, mb.alloc | 16}); }
        catch (const Boom&) {}
        break;
    case 9:
        try { O c(std::move(b)); agree(c, Model{mb.has, mb.v, mb.alloc}); if (mb.has) { if (HEAP) mb.has = false; else mb.v = MOVED; } }
        catch (const Boom&) { afterFault(b, mb, mb.v); }
        break;
    case 10:
        try { O c(static_cast<const O&>(b), A(3)); agree(c, Model{mb.has, mb.v, 3}); }
        catch (const Boom&) {}
        break;
    case 11:
        try { O c(std::move(b), A(1)); agree(c, Model{mb.has, mb.v, 1}); if (mb.has) { if (HEAP && mb.alloc == 1) mb.has = false; else mb.v = MOVED; } }
        catch (const Boom&) { afterFault(b, mb, mb.v); }
        break;
    case 12:
    {
        O& self = a;
        a = static_cast<const O&>(self);
        break;
    }
    case 13:
    {
        O& self = a;
        a = std::move(self);
        break;
    }
    case 14: // construction from values
        try { O c(std::in_place, A(5), fresh); agree(c, Model{true, fresh, 5}); }
        catch (const Boom&) {}
        try { O c(std::in_place, fresh); agree(c, Model{true, fresh, 7}); }
        catch (const Boom&) {}
        break;
    case 15:
        try { const T t(fresh); O c(t, A(5)); agree(c, Model{true, fresh, 5}); zv_check_eq(t.get(), fresh, "the value is not changed"); }
        catch (const Boom&) {}
        try { O c(T(fresh), A(6)); agree(c, Model{true, fresh, 6}); }
        catch (const Boom&) {}
        break;
    case 16:
        try { const T d(fresh); zv_check_eq(a.value_or(d).get(), ma.has ? ma.v : fresh, "value_or"); }
        catch (const Boom&) {}
        try { const O& c = a; const T d(fresh); zv_check_eq(c.value_or(d).get(), ma.has ? ma.v : fresh, "value_or"); }
        catch (const Boom&) {}
        break;
    default:
    {
        // moving the value out
        try { T t(std::move(a).value()); zv_check(ma.has, "a value was moved out of an empty optional"); zv_check_eq(t.get(), ma.v, "value moved out"); ma.v = MOVED; }
        catch (const zserio::BadOptionalAccess&) { zv_check(!ma.has, "access to an engaged optional threw"); }
        catch (const Boom&) { afterFault(a, ma, ma.v); }
        break;
    }
    }
}
static constexpr uint64_t OPS = 18;

template <typename O, typename T, bool HEAP>
static void initial(O& o, Model& m, uint64_t state, uint64_t v, O& sink)
{
    if (state == 0) return;                                  // never had a value
    o.emplace(v);
    m.has = true;
    m.v = v;
    if (state == 2) { o.reset(); m.has = false; }            // emptied
    if (state == 3) { sink = std::move(o); if (HEAP) m.has = false; else m.v = MOVED; } // moved from
}

template <typename T, bool PROP, bool HEAP>
static void history(uint64_t faults)
{
    using A = Alloc<uint8_t, PROP>;
    using O = zserio::BasicOptional<A, T>;
    static_assert(zserio::detail::is_optional_heap_allocated_v<T> == HEAP);
    const uint64_t sa = zv_split(0, 3), sb = zv_split(0, 3), bid = zv_split(1, 2), op = zv_split(0, OPS - 1);
    zv_shard();
    const uint64_t live = zv_live();
    {
        Model ma{false, 0, 1}, mb{false, 0, bid};
        O a{A(1)}, b{A(bid)};
        {
            O s1{A(1)}, s2{A(bid)};
            initial<O, T, HEAP>(a, ma, sa, zv_sym("va", 64), s1);
            initial<O, T, HEAP>(b, mb, sb, zv_sym("vb", 64), s2);
        }
        agree(a, ma);
        agree(b, mb);
        g_faults = static_cast<int>(faults);
        step<O, T, PROP, HEAP>(a, b, ma, mb, op, zv_sym("fresh", 64));
        {
            const int f = g_faults;
            g_faults = 0;
            agree(a, ma);
            agree(b, mb);
            g_faults = f;
        }
        const bool changes = op < 8 || op == 9 || op == 11 || op > 16;
        for (int i = 1; changes && i < STEPS; ++i)
        {
            const uint64_t next = zv_split(0, NEXT);
            step<O, T, PROP, HEAP>(a, b, ma, mb, next, zv_sym("fresh2", 64));
        }
        g_faults = 0;
        agree(a, ma);
        agree(b, mb);
    }
    zv_check_eq(zv_live(), live, "every value is destroyed and every block freed");
    zv_cover("history ends");
}

using SmallT = Elem<1, 0, false>;
using BigT = Elem<2, 40, false>;

ZV_HARNESS(C01_inplace) { if (zv_split(0, 1)) history<SmallT, true, false>(1); else history<SmallT, false, false>(1); }
ZV_HARNESS(C01_heap) { if (zv_split(0, 1)) history<BigT, true, true>(1); else history<BigT, false, true>(1); }
ZV_HARNESS(C05_optional)
{
    zv_mode("no_new", 1);
    const uint64_t kind = zv_split(0, 3);
    if (kind == 0) history<SmallT, true, false>(0);
    else if (kind == 1) history<SmallT, false, false>(0);
    else if (kind == 2) history<BigT, true, true>(0);
    else history<BigT, false, true>(0);
}
// access only: every state of a holder
ZV_HARNESS(C04_optional)
{
    using A = Alloc<uint8_t, false>;
    const uint64_t s = zv_split(0, 3), heap = zv_split(0, 1), v = zv_sym("v", 64);
    Model m{false, 0, 1};
    if (heap)
    {
        zserio::BasicOptional<A, BigT> o{A(1)}, sink{A(1)};
        initial<zserio::BasicOptional<A, BigT>, BigT, true>(o, m, s, v, sink);
        agree(o, m);
        const auto& c = o;
        int thrown = 0;
        try { (void)std::move(c).value(); } catch (const zserio::BadOptionalAccess&) { thrown++; }
        try { (void)*std::move(c); } catch (const zserio::BadOptionalAccess&) { thrown++; }
        try { (void)std::move(o).value(); } catch (const zserio::BadOptionalAccess&) { thrown++; }
        try { (void)*std::move(o); } catch (const zserio::BadOptionalAccess&) { thrown++; }
        zv_check_eq(thrown, m.has ? 0 : 4, "access to an empty optional throws");
    }
    else
    {
        zserio::BasicOptional<A, SmallT> o{A(1)}, sink{A(1)};
        initial<zserio::BasicOptional<A, SmallT>, SmallT, false>(o, m, s, v, sink);
        agree(o, m);
        const auto& c = o;
        int thrown = 0;
        try { (void)std::move(c).value(); } catch (const zserio::BadOptionalAccess&) { thrown++; }
        try { (void)*std::move(c); } catch (const zserio::BadOptionalAccess&) { thrown++; }
        try { (void)std::move(o).value(); } catch (const zserio::BadOptionalAccess&) { thrown++; }
        try { (void)*std::move(o); } catch (const zserio::BadOptionalAccess&) { thrown++; }
        zv_check_eq(thrown, m.has ? 0 : 4, "access to an empty optional throws");
    }
    zv_cover("accessed");
}

// holders of different value types
template <typename T, typename U, bool PROP>
static void convert()
{
    using A = Alloc<uint8_t, PROP>;
    using O = zserio::BasicOptional<A, T>;
    using P = zserio::BasicOptional<A, U>;
    constexpr bool HEAP = zserio::detail::is_optional_heap_allocated_v<T>;
    const uint64_t sa = zv_split(0, 3), sb = zv_split(0, 3), bid = zv_split(1, 2), op = zv_split(0, 5);
    zv_shard();
    const uint64_t live = zv_live();
    {
        Model ma{false, 0, 1}, mb{false, 0, bid};
        O a{A(1)};
        P b{A(bid)};
        {
            O s1{A(1)};
            P s2{A(bid)};
            initial<O, T, HEAP>(a, ma, sa, zv_sym("va", 64), s1);
            initial<P, U, zserio::detail::is_optional_heap_allocated_v<U>>(b, mb, sb, zv_sym("vb", 64), s2);
        }
        g_faults = 1;
        try
        {
            if (op == 0) { a = static_cast<const P&>(b); ma = Model{mb.has, mb.v, PROP ? mb.alloc : ma.alloc}; }
            else if (op == 1) { a = std::move(b); ma = Model{mb.has, mb.v, PROP ? mb.alloc : ma.alloc}; mb.v = MOVED; }
            else
            {
                int f = 1;
                if (op == 2) { O c(static_cast<const P&>(b)); f = g_faults; g_faults = 0; agree(c, Model{mb.has, mb.v, mb.alloc | 16}); }
                else if (op == 3) { O c(std::move(b)); f = g_faults; g_faults = 0; agree(c, Model{mb.has, mb.v, mb.alloc}); mb.v = MOVED; }
                else if (op == 4) { O c(static_cast<const P&>(b), A(3)); f = g_faults; g_faults = 0; agree(c, Model{mb.has, mb.v, 3}); }
                else { O c(std::move(b), A(3)); f = g_faults; g_faults = 0; agree(c, Model{mb.has, mb.v, 3}); mb.v = MOVED; }
                g_faults = f;
            }
        }
        catch (const Boom&) { afterFault(a, ma, mb.v); afterFault(b, mb, mb.v); }
        g_faults = 0;
        agree(a, ma);
        agree(b, mb);
    }
    zv_check_eq(zv_live(), live, "every value is destroyed and every block freed");
    zv_cover("history ends");
}
using SmallU = Elem<3, 0, false>;
using BigU = Elem<4, 40, false>;
ZV_HARNESS(C01_convert)
{
    const uint64_t kind = zv_split(0, 3);
    if (kind == 0) convert<SmallT, SmallU, true>();
    else if (kind == 1) convert<BigT, SmallU, false>();
    else if (kind == 2) convert<SmallT, BigU, false>();
    else convert<BigT, BigU, true>();
}
