// C05: the propagating polymorphic allocator. Memory resources record what they hand out and get back.
#include "zv.h"
#include <memory>
#include <string>
#include <vector>
#include "zserio/ppmr/PropagatingPolymorphicAllocator.h"

namespace
{

struct Resource : std::pmr::memory_resource
{
    explicit Resource(uint64_t i) : id(i) {}
    uint64_t id;
    uint64_t live = 0;
    uint64_t count = 0;
    uint64_t lastBytes = 0, lastAlignment = 0;
    void* do_allocate(std::size_t bytes, std::size_t alignment) override
    {
        void* p = zv_obj_alloc(bytes, id);
        ++live;
        ++count;
        lastBytes = bytes;
        lastAlignment = alignment;
        return p;
    }
    void do_deallocate(void* p, std::size_t bytes, std::size_t alignment) override
    {
        zv_check(live > 0, "a block is returned to the resource it is from");
        --live;
        lastBytes = bytes;
        lastAlignment = alignment;
        zv_obj_free(p, id);
    }
    bool do_is_equal(const std::pmr::memory_resource& other) const noexcept override { return this == &other; }
};

template <typename T>
union Kept // never destroyed
{
    T value;
    template <typename... A>
    explicit Kept(A&&... a) : value(static_cast<A&&>(a)...) {}
    ~Kept() {}
};

Resource* g_default = nullptr;

} // namespace

extern "C" std::pmr::memory_resource* zvp_default() asm("_ZNSt3pmr20get_default_resourceEv");
extern "C" std::pmr::memory_resource* zvp_default() { return g_default; }
extern "C" void zvp_dtor(std::pmr::memory_resource*) asm("_ZNSt3pmr15memory_resourceD2Ev");
extern "C" void zvp_dtor(std::pmr::memory_resource*) {}

namespace
{

template <typename T>
using PA = zserio::ppmr::PropagatingPolymorphicAllocator<T>;
struct alignas(16) Wide { uint64_t v[2]; };

// what is built by construct()
struct Trailing
{
    using allocator_type = PA<char>;
    std::pmr::memory_resource* resource;
    uint64_t value;
    Trailing(uint64_t v, const allocator_type& a) : resource(a.resource()), value(v) {}
};
struct Leading
{
    using allocator_type = PA<uint64_t>;
    std::pmr::memory_resource* resource;
    uint64_t value;
    Leading(std::allocator_arg_t, const allocator_type& a, uint64_t v) : resource(a.resource()), value(v) {}
};
struct Plain
{
    uint64_t value;
    explicit Plain(uint64_t v) : value(v) {}
    ~Plain() { zv_cover("destroyed"); }
};

template <typename T>
void blocks(Resource& r, uint64_t n)
{
    PA<T> a(&r);
    T* p = a.allocate(n);
    zv_check_eq(r.lastBytes, n * sizeof(T), "the bytes of the elements are allocated");
    zv_check_eq(r.lastAlignment, alignof(T), "aligned for the elements");
    zv_check_eq(r.live, 1, "from the resource given");
    a.deallocate(p, n);
    zv_check_eq(r.lastBytes, n * sizeof(T), "the same bytes are returned");
    zv_check_eq(r.lastAlignment, alignof(T), "with the same alignment");
    zv_check_eq(r.live, 0, "to the resource given");
}

template <typename A>
void isFrom(const A& a, const Resource& r, const char* msg) { zv_check(a.resource() == &r, msg); }

} // namespace

ZV_HARNESS(C05_ppmr)
{
    const uint64_t what = zv_split(0, 8);
    zv_shard();
    Kept<Resource> kd(7), k1(1), k2(2);
    Resource &d = kd.value, &r1 = k1.value, &r2 = k2.value;
    g_default = &d;
    switch (what)
    {
    case 0: blocks<uint8_t>(r1, zv_sym("n", 32)); break;
    case 1: blocks<uint32_t>(r1, zv_sym("n", 32)); break;
    case 2: blocks<Wide>(r1, zv_sym("n", 32)); break;
    case 3:
    {
        const PA<int> none, null(nullptr), a(&r1);
        isFrom(none, d, "the default resource is used when none is given");
        isFrom(null, d, "or a null one");
        isFrom(a, r1, "the resource given is used");
        const PA<Wide> b(a);
        isFrom(b, r1, "a rebound allocator has the same resource");
        PA<int> c(a), e(&r2);
        isFrom(c, r1, "a copy has the same resource");
        c = e;
        isFrom(c, r2, "assignment takes over the resource");
        isFrom(e, r2, "and leaves the other");
        c = b;
        isFrom(c, r1, "assignment of a rebound allocator takes over the resource");
        PA<int> m(std::move(c));
        isFrom(m, r1, "a moved allocator has the same resource");
        isFrom(c, r1, "the allocator moved from keeps it");
        e = std::move(m);
        isFrom(e, r1, "move assignment takes over the resource");
        isFrom(a.select_on_container_copy_construction(), r1, "copies of containers use the resource of the original");
        isFrom(std::allocator_traits<PA<int>>::select_on_container_copy_construction(a), r1, "copies of containers use the resource of the original");
        zv_check(d.count == 0 && r1.count == 0 && r2.count == 0, "nothing is allocated");
        break;
    }
    case 4:
    {
        const PA<int> a(&r1), b(&r2), c(&r1);
        const PA<Wide> w(&r1), v(&r2);
        zv_check(a == c && !(a != c) && a == w && !(a != w), "allocators of one resource are equal");
        zv_check(a != b && !(a == b) && a != v && !(a == v), "allocators of different resources are not");
        using Tr = std::allocator_traits<PA<int>>;
        zv_check(Tr::propagate_on_container_copy_assignment::value && Tr::propagate_on_container_move_assignment::value
                && Tr::propagate_on_container_swap::value && !Tr::is_always_equal::value, "the allocator propagates");
        break;
    }
    case 5:
    {
        PA<Trailing> a(&r1);
        const uint64_t v = zv_sym("value", 64);
        Kept<Plain> plain(uint64_t(0));
        alignas(16) char s[32];
        Trailing* t = reinterpret_cast<Trailing*>(s);
        a.construct(t, v);
        zv_check(t->value == v && t->resource == &r1, "elements which use allocators are given this one");
        a.destroy(t);
        Leading* l = reinterpret_cast<Leading*>(s);
        a.construct(l, v);
        zv_check(l->value == v && l->resource == &r1, "elements which use allocators are given this one");
        a.destroy(l);
        Plain* p = reinterpret_cast<Plain*>(s);
        a.construct(p, v);
        zv_check_eq(p->value, v, "other elements are built from their arguments");
        a.destroy(p);
        break;
    }
    case 6: // strings as elements
    {
        using Str = std::basic_string<char, std::char_traits<char>, PA<char>>;
        std::vector<Str, PA<Str>> v{PA<Str>(&r1)};
        v.emplace_back("a text which is too long to be kept in the string itself");
        v.emplace_back("short");
        zv_check(v[0].get_allocator().resource() == &r1 && v[1].get_allocator().resource() == &r1, "elements use the allocator of their container");
        zv_check_eq(r1.live, 2, "elements allocate from the resource of their container");
        zv_check(d.count == 0 && r2.count == 0, "and from no other");
        break;
    }
    default: // containers
    {
        const bool same = what == 8;
        using V = std::vector<uint32_t, PA<uint32_t>>;
        Resource& other = same ? r1 : r2;
        const uint64_t op = zv_split(0, 5);
        {
            V a(3, 5, PA<uint32_t>(&r1));
            V b(2, 9, PA<uint32_t>(&other));
            switch (op)
            {
            case 0: b = a; zv_check(b.size() == 3 && a.size() == 3, "copied"); isFrom(b.get_allocator(), r1, "copy assignment propagates the allocator"); break;
            case 1: b = std::move(a); zv_check_eq(b.size(), 3, "moved"); isFrom(b.get_allocator(), r1, "move assignment propagates the allocator"); break;
            case 2:
                b.swap(a);
                zv_check(b.size() == 3 && a.size() == 2, "swapped");
                isFrom(b.get_allocator(), r1, "swap exchanges the allocators");
                isFrom(a.get_allocator(), other, "swap exchanges the allocators");
                break;
            case 3: { const V c(a); isFrom(c.get_allocator(), r1, "a copy uses the allocator of the original"); break; }
            case 4: { const V c(std::move(a)); isFrom(c.get_allocator(), r1, "a moved container uses its allocator"); break; }
            default: { const V c(a, b.get_allocator()); isFrom(c.get_allocator(), other, "a copy with an allocator uses that one"); break; }
            }
            zv_check_eq(d.count, 0, "nothing is allocated from the default resource");
        }
        break;
    }
    }
    zv_check(d.live == 0 && r1.live == 0 && r2.live == 0, "every block is returned to its resource");
    zv_cover("done");
}
