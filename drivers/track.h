// Element and allocator types whose lifetime is tracked by the analysis: every live element owns a token block,
// every allocation is tagged with the identity of its allocator.
#pragma once
#include "zv.h"
#include <cstddef>
#include <new>
#include <type_traits>
#include <utility>

namespace track
{

struct Boom
{};

inline int g_faults = 0; // faults which may still be raised on this trace

inline void mayFail(const char* what)
{
    if (g_faults > 0)
    {
        if (zv_choice(what))
        {
            g_faults--;
            throw Boom();
        }
    }
}

constexpr uint64_t MOVED = 0x6d6f766564ULL;

// value type; PAD bytes behind it select in-place or heap storage, NX: moving does not throw
template <int ID, bool NX>
struct ElemBase
{
    explicit ElemBase(uint64_t value) : m_p(nullptr) { mayFail("element constructor"); init(value); }
    ElemBase() : m_p(nullptr) { mayFail("element constructor"); init(0); }
    template <int ID2, bool NX2>
    ElemBase(const ElemBase<ID2, NX2>& o) : m_p(nullptr) { const uint64_t v = o.get(); mayFail("element conversion"); init(v); }
    template <int ID2, bool NX2>
    ElemBase(ElemBase<ID2, NX2>&& o) : m_p(nullptr) { const uint64_t v = o.get(); mayFail("element conversion"); init(v); o.m_p->v = MOVED; }
    ElemBase(const ElemBase& o) : m_p(nullptr) { const uint64_t v = o.get(); mayFail("element copy"); init(v); }
    ElemBase(ElemBase&& o) noexcept(NX) : m_p(nullptr) { const uint64_t v = o.get(); if (!NX) mayFail("element move"); init(v); o.m_p->v = MOVED; }
    ElemBase& operator=(const ElemBase& o) { const uint64_t v = o.get(); get(); mayFail("element copy assignment"); m_p->v = v; return *this; }
    ElemBase& operator=(ElemBase&& o) noexcept(NX)
    {
        const uint64_t v = o.get(); get(); if (!NX) mayFail("element move assignment");
        if (&o != this) { m_p->v = v; o.m_p->v = MOVED; }
        return *this;
    }
    ~ElemBase() { get(); zv_obj_free(m_p, 41); m_p = reinterpret_cast<Block*>(1); }
    uint64_t get() const { zv_check(zv_is_alive(m_p), "the value accessed is alive"); return m_p->v; }
    bool operator==(const ElemBase& o) const { return get() == o.get(); }
    bool operator<(const ElemBase& o) const { return get() < o.get(); }

private:
    template <int ID2, bool NX2>
    friend struct ElemBase;
    struct Block { uint64_t v; };
    void init(uint64_t v) { m_p = static_cast<Block*>(zv_obj_alloc(sizeof(Block), 41)); m_p->v = v; }
    Block* m_p;
};

template <int ID, size_t PAD, bool NX>
struct Elem : ElemBase<ID, NX>
{
    using ElemBase<ID, NX>::ElemBase;
    char m_pad[PAD];
};
template <int ID, bool NX>
struct Elem<ID, 0, NX> : ElemBase<ID, NX>
{
    using ElemBase<ID, NX>::ElemBase;
};

// PROP: the propagation traits for copy/move assignment and swap
template <typename T, bool PROP>
struct Alloc
{
    using value_type = T;
    using propagate_on_container_copy_assignment = std::bool_constant<PROP>;
    using propagate_on_container_move_assignment = std::bool_constant<PROP>;
    using propagate_on_container_swap = std::bool_constant<PROP>;
    using is_always_equal = std::false_type;
    template <typename U>
    struct rebind { using other = Alloc<U, PROP>; };

    Alloc() : id(7) {}
    explicit Alloc(uint64_t i) : id(i) {}
    template <typename U>
    Alloc(const Alloc<U, PROP>& o) : id(o.id) {}
    Alloc(const Alloc&) = default;
    Alloc& operator=(const Alloc&) = default;

    T* allocate(size_t n)
    {
        mayFail("allocation");
        return static_cast<T*>(zv_obj_alloc(n * sizeof(T), 50 + id));
    }
    void deallocate(T* p, size_t) { zv_obj_free(p, 50 + id); }
    Alloc select_on_container_copy_construction() const { return Alloc(id | 16); }

    friend bool operator==(const Alloc& a, const Alloc& b) { return a.id == b.id; }
    friend bool operator!=(const Alloc& a, const Alloc& b) { return a.id != b.id; }
    uint64_t id;
};

} // namespace track
