// C03 / C04 / C05: histories of operations on variants and unique pointers
#include "track.h"
#include "zserio/CppRuntimeException.h"
#include "zserio/UniquePtr.h"
#include "zserio/Variant.h"
using namespace track;

using T1 = Elem<1, 0, true>;   // kept in place
using T2 = Elem<2, 40, false>; // on the heap because of its size
using T3 = Elem<3, 0, false>;  // on the heap because moving it may throw

#ifdef ZV_THOROUGH
#define NEXT (OPS - 1)
#else
#define NEXT 2
#endif

enum class Idx : size_t { A, B, C, D };
static constexpr uint64_t NOTHING = 99;

struct Model
{
    uint64_t index; // NOTHING: valueless
    uint64_t v;
};

template <Idx I, typename V>
static void agreeAt(V& a, bool is, uint64_t v)
{
    const V& c = a;
    auto* p = a.template get_if<I>();
    auto* q = c.template get_if<I>();
    if (is)
    {
        zv_check(p != nullptr && q != nullptr, "get_if finds the active alternative");
        zv_check_eq(p->get(), v, "value of the active alternative");
        zv_check_eq(q->get(), v, "value of the active alternative");
        zv_check_eq(a.template get<I>().get(), v, "value of the active alternative");
        zv_check_eq(zserio::get<I>(c).get(), v, "value of the active alternative");
    }
    else
    {
        zv_check(p == nullptr && q == nullptr, "get_if of another alternative is null");
        zv_check(zserio::get_if<I>(&a) == nullptr && zserio::get_if<I>(&c) == nullptr, "get_if of another alternative is null");
        int thrown = 0;
        try { (void)a.template get<I>(); } catch (const zserio::BadVariantAccess&) { thrown++; }
        try { (void)zserio::get<I>(c); } catch (const zserio::BadVariantAccess&) { thrown++; }
        zv_check_eq(thrown, 2, "access to another alternative throws");
    }
}

template <typename V>
static void agree(V& a, const Model& m)
{
    const V& c = a;
    zv_check_eq(c.valueless_by_exception(), m.index == NOTHING, "valueless exactly when there is no value");
    if (m.index == NOTHING)
    {
        zv_check(c.index() == static_cast<Idx>(std::variant_npos), "no index without a value");
        int thrown = 0;
        try { a.visit([](const auto&) { zv_fail("a value was visited in the valueless state"); }); } catch (const zserio::BadVariantAccess&) { thrown++; }
        try { c.visit([](const auto&) { zv_fail("a value was visited in the valueless state"); }); } catch (const zserio::BadVariantAccess&) { thrown++; }
        zv_check_eq(thrown, 2, "visiting a valueless variant throws");
    }
    else
    {
        zv_check_eq(static_cast<uint64_t>(c.index()), m.index, "the index names the active alternative");
        uint64_t visited = 0;
        a.visit([&](const auto& e) { visited++; zv_check_eq(e.get(), m.v, "value visited"); });
        c.visit([&](const auto& e) { visited++; zv_check_eq(e.get(), m.v, "value visited"); });
        visited += zserio::visit([&](const auto& e) -> uint64_t { return zv_same(e.get(), m.v) ? 1 : 0; }, c);
        zv_check_eq(visited, 3, "exactly the active alternative is visited");
    }
    agreeAt<Idx::A>(a, m.index == 0, m.v);
    agreeAt<Idx::B>(a, m.index == 1, m.v);
    agreeAt<Idx::C>(a, m.index == 2, m.v);
    agreeAt<Idx::D>(a, m.index == 3, m.v);
}

// after a fault: the variant is valueless or its index names an alternative which exists
template <typename V>
static void afterFault(V& a, Model& m, uint64_t other)
{
    const int f = g_faults;
    g_faults = 0;
    if (a.valueless_by_exception())
    {
        m.index = NOTHING;
    }
    else
    {
        m.index = static_cast<uint64_t>(a.index());
        zv_check(m.index <= 3, "after a fault the index is one of an alternative");
        uint64_t v = 0;
        bool found = false;
        try
        {
            if (m.index == 0) v = a.template get<Idx::A>().get();
            if (m.index == 1) v = a.template get<Idx::B>().get();
            if (m.index == 2) v = a.template get<Idx::C>().get();
            if (m.index == 3) v = a.template get<Idx::D>().get();
            found = true;
        }
        catch (const zserio::CppRuntimeException&) {}
        zv_check(found, "after a fault the alternative named by the index exists");
        if (found) zv_check(zv_same(v, m.v) || zv_same(v, other) || zv_same(v, MOVED), "after a fault only an old or new value is exposed");
        m.v = v;
    }
    g_faults = f;
}

template <Idx I, typename V>
static void emplace(V& a, Model& m, uint64_t fresh)
{
    try
    {
        auto& r = a.template emplace<I>(fresh);
        zv_check_eq(r.get(), fresh, "emplace returns the new value");
        m.index = static_cast<uint64_t>(I);
        m.v = fresh;
    }
    catch (const Boom&) { afterFault(a, m, fresh); }
}

template <typename V, bool PROP>
static void step(V& a, V& b, Model& ma, Model& mb, uint64_t op, uint64_t fresh)
{
    using ALLOC = typename V::allocator_type;
    if (op == 0)
    {
        try { a = static_cast<const V&>(b); ma = mb; }
        catch (const Boom&) { afterFault(a, ma, mb.v); }
    }
    else if (op == 1)
    {
        try { a = std::move(b); ma = mb; mb.index = NOTHING; }
        catch (const Boom&) { afterFault(a, ma, mb.v); afterFault(b, mb, mb.v); }
    }
    else if (op == 2)
    {
        try { a.swap(b); const Model t = ma; ma = mb; mb = t; }
        catch (const Boom&) { const uint64_t v = ma.v; afterFault(a, ma, mb.v); afterFault(b, mb, v); }
    }
    else if (op == 3) emplace<Idx::A>(a, ma, fresh);
    else if (op == 4) emplace<Idx::B>(a, ma, fresh);
    else if (op == 5) emplace<Idx::C>(a, ma, fresh);
    else if (op == 6) emplace<Idx::D>(a, ma, fresh);
    else if (op == 7)
    {
        V& self = a;
        a = std::move(self);
    }
    else if (op == 8)
    {
        V& self = a;
        try { a = static_cast<const V&>(self); }
        catch (const Boom&) { afterFault(a, ma, ma.v); }
    }
    else if (op == 9)
    {
        try { V c(static_cast<const V&>(b)); agree(c, mb); }
        catch (const Boom&) {}
    }
    else if (op == 10)
    {
        V c(std::move(b));
        agree(c, mb);
        mb.index = NOTHING;
    }
    else if (op == 11)
    {
        try { V c(static_cast<const V&>(b), ALLOC(3)); agree(c, mb); }
        catch (const Boom&) {}
    }
    else if (op == 12)
    {
        try { V c(std::move(b), ALLOC(1)); agree(c, mb); mb.index = NOTHING; }
        catch (const Boom&) { afterFault(b, mb, mb.v); }
    }
    else if (op == 13)
    {
        try { V c(ALLOC(5)); agree(c, Model{0, 0}); }
        catch (const Boom&) {}
        try { V c; agree(c, Model{0, 0}); }
        catch (const Boom&) {}
    }
    else
    {
        try { V c(zserio::in_place_index<Idx::B>, ALLOC(5), fresh); agree(c, Model{1, fresh}); }
        catch (const Boom&) {}
        try { V c(zserio::in_place_index<Idx::D>, fresh); agree(c, Model{3, fresh}); }
        catch (const Boom&) {}
    }
}
static constexpr uint64_t OPS = 15;

template <typename V>
static void initial(V& o, Model& m, uint64_t state, uint64_t v)
{
    if (state == 0) { m = Model{0, 0}; return; }
    if (state == 1) o.template emplace<Idx::A>(v);
    else if (state == 2) o.template emplace<Idx::B>(v);
    else if (state == 3) o.template emplace<Idx::C>(v);
    else { o.template emplace<Idx::D>(v); }
    m = Model{state - 1, v};
    if (state == 5) { V sink(std::move(o)); m = Model{NOTHING, v}; }
}

template <bool PROP>
static void history(uint64_t faults)
{
    using A = Alloc<uint8_t, PROP>;
    using V = zserio::BasicVariant<A, Idx, T1, T2, T3, T1>;
    const uint64_t sa = zv_split(1, 5), sb = zv_split(0, 5), bid = zv_split(1, 2), op = zv_split(0, OPS - 1);
    zv_shard();
    const uint64_t live = zv_live();
    {
        Model ma{0, 0}, mb{0, 0};
        g_faults = 0;
        V a{A(1)}, b{A(bid)};
        initial(a, ma, sa, zv_sym("va", 64));
        initial(b, mb, sb, zv_sym("vb", 64));
        agree(a, ma);
        agree(b, mb);
        g_faults = static_cast<int>(faults);
        step<V, PROP>(a, b, ma, mb, op, zv_sym("fresh", 64));
        {
            const int f = g_faults;
            g_faults = 0;
            agree(a, ma);
            agree(b, mb);
            g_faults = f;
        }
        if (op < 9 || op == 10 || op == 12)
        {
            const uint64_t next = zv_split(0, NEXT);
            step<V, PROP>(a, b, ma, mb, next, zv_sym("fresh2", 64));
        }
        g_faults = 0;
        agree(a, ma);
        agree(b, mb);
    }
    zv_check_eq(zv_live(), live, "every value is destroyed and every block freed");
    zv_cover("history ends");
}

ZV_HARNESS(C03_variant) { if (zv_split(0, 1)) history<true>(1); else history<false>(1); }
ZV_HARNESS(C05_variant)
{
    zv_mode("no_new", 1);
    if (zv_split(0, 1)) history<true>(0); else history<false>(0);
}
ZV_HARNESS(C04_variant)
{
    using A = Alloc<uint8_t, false>;
    const uint64_t s = zv_split(0, 6), v = zv_sym("v", 64);
    Model m{0, 0};
    g_faults = 0;
    zserio::BasicVariant<A, Idx, T1, T2, T3, T1> a{A(1)};
    if (s == 6)
    {
        g_faults = 1;
        try { a.template emplace<Idx::C>(v); g_faults = 0; m = Model{2, v}; }
        catch (const Boom&) { m.index = NOTHING; }
    }
    else initial(a, m, s, v);
    agree(a, m);
    zv_cover("accessed");
}

// unique pointers with an allocator
template <typename T, bool PROP>
static void pointer(uint64_t faults)
{
    using A = Alloc<T, PROP>;
    using P = zserio::UniquePtr<T, A>;
    const uint64_t bid = zv_split(1, 2), op = zv_split(0, 7);
    zv_shard();
    const uint64_t live = zv_live();
    {
        g_faults = 0;
        const uint64_t va = zv_sym("va", 64), vb = zv_sym("vb", 64);
        g_faults = static_cast<int>(faults);
        try
        {
            P a = zserio::allocate_unique<T>(A(1), va);
            P b = zserio::allocate_unique<T>(Alloc<uint8_t, PROP>(bid), vb);
            zv_check_eq(a->get(), va, "the object has been constructed from the arguments");
            zv_check_eq(b->get(), vb, "the object has been constructed from the arguments");
            zv_check_eq(a.get_deleter().get_allocator().id, 1, "the pointer keeps its allocator");
            zv_check_eq(b.get_deleter().get_allocator().id, bid, "the pointer keeps its allocator");
            if (op == 0) { a = std::move(b); zv_check(!b, "moved from"); zv_check_eq(a->get(), vb, "moved value"); zv_check_eq(a.get_deleter().get_allocator().id, bid, "the allocator moves with the object"); }
            else if (op == 1) { a.reset(); zv_check(!a, "reset"); }
            else if (op == 2) { P c(std::move(a)); zv_check(!a, "moved from"); zv_check_eq(c->get(), va, "moved value"); b = std::move(c); }
            else if (op == 3) { a.swap(b); zv_check_eq(a->get(), vb, "swapped"); zv_check_eq(b->get(), va, "swapped"); }
            else if (op == 4) { a = nullptr; b = std::move(a); zv_check(!b, "assigned null"); }
            else if (op == 5) { P& self = a; a = std::move(self); zv_check_eq(a->get(), va, "self move"); }
            else if (op == 6) { P c; c = std::move(a); zv_check_eq(c->get(), va, "moved value"); }
            zv_cover("pointer history");
        }
        catch (const Boom&) {}
        g_faults = 0;
    }
    zv_check_eq(zv_live(), live, "every object is destroyed and every block freed");
}
ZV_HARNESS(C03_pointer)
{
    zv_mode("no_new", 1);
    if (zv_split(0, 1)) pointer<T2, true>(1); else pointer<T1, false>(1);
}
