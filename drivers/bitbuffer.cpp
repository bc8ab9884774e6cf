// C06 / C07 / C05: bit buffers
#include "track.h"
#include <vector>
#include "zserio/BitBuffer.h"
#include "zserio/CppRuntimeException.h"
using namespace zserio;

#ifdef ZV_THOROUGH
#define MAXBITS 26
#else
#define MAXBITS 18
#endif

// order of the bits of two contents of n1 and n2 bits: -1, 0, 1 (bytes, the last one filled with zero bits, then the size)
static int order(const uint8_t* d1, uint64_t n1, const uint8_t* d2, uint64_t n2)
{
    const uint64_t b1 = (n1 + 7) / 8, b2 = (n2 + 7) / 8;
    for (uint64_t i = 0; i < b1 && i < b2; ++i)
    {
        const uint64_t w1 = i * 8 + 8 <= n1 ? 8 : n1 % 8, w2 = i * 8 + 8 <= n2 ? 8 : n2 % 8;
        const uint64_t v1 = zv_bits_at(d1, 8 * i, w1) << (8 - w1), v2 = zv_bits_at(d2, 8 * i, w2) << (8 - w2);
        if (v1 < v2) return -1;
        if (v2 < v1) return 1;
    }
    if (b1 != b2) return b1 < b2 ? -1 : 1;
    return n1 < n2 ? -1 : n1 > n2 ? 1 : 0;
}

template <typename B>
static void compared(const B& a, const B& b, int o)
{
    zv_check_eq(a == b, o == 0, "equal exactly when size and bits are equal");
    zv_check_eq(a != b, o != 0, "not equal is the contrary of equal");
    zv_check_eq(a < b, o < 0, "less follows the order of bits and size");
    zv_check_eq(a > b, o > 0, "greater follows the order of bits and size");
    zv_check_eq(a <= b, o <= 0, "less or equal follows the order of bits and size");
    zv_check_eq(a >= b, o >= 0, "greater or equal follows the order of bits and size");
}

// two buffers of n1 and n2 bits in x1 and x2 more bytes than needed
ZV_HARNESS(C06_compare)
{
    const uint64_t n1 = zv_split(0, MAXBITS), n2 = zv_split(0, MAXBITS), x = zv_split(0, 2);
    zv_shard();
    const uint64_t s1 = (n1 + 7) / 8 + (x == 1), s2 = (n2 + 7) / 8 + (x == 2);
    uint8_t* d1 = zv_buffer("data1", s1);
    uint8_t* d2 = zv_buffer("data2", s2);
    const BitBuffer a(Span<const uint8_t>(d1, s1), n1);
    const BitBuffer b(Span<const uint8_t>(d2, s2), n2);
    const int o = order(d1, n1, d2, n2);
    compared(a, b, o);
    compared<BitBufferView>(std::cref(a), std::cref(b), o);
    if (o == 0)
    {
        zv_cover("equal");
        zv_check_eq(a.hashCode(), b.hashCode(), "equal buffers have equal hash codes");
        zv_check_eq(std::hash<BitBuffer>()(a), std::hash<BitBuffer>()(b), "equal buffers have equal hash codes");
        zv_check_eq(std::hash<BitBufferView>()(std::cref(a)), std::hash<BitBufferView>()(std::cref(b)), "equal buffers have equal hash codes");
        zv_check_eq(calcHashCode(HASH_SEED, a), calcHashCode(HASH_SEED, b), "equal buffers have equal hash codes");
    }
    else
    {
        zv_cover("different");
    }
    compared(a, a, 0);
}

// the bits behind the size do not matter: two buffers which agree in all bits inside the size
ZV_HARNESS(C06_hash)
{
    const uint64_t n = zv_split(0, 3 * MAXBITS);
    zv_shard();
    const uint64_t s = (n + 7) / 8;
    uint8_t* d1 = zv_buffer("data1", s);
    uint8_t* d2 = zv_buffer("data2", s + 1);
    for (uint64_t i = 0; i < s; ++i)
    {
        const uint64_t w = i * 8 + 8 <= n ? 8 : n % 8;
        zv_assume(zv_bits_at(d1, 8 * i, w) == zv_bits_at(d2, 8 * i, w));
    }
    const BitBuffer a(Span<const uint8_t>(d1, s), n);
    const BitBuffer b(Span<const uint8_t>(d2, s + 1), n);
    zv_check(a == b && b == a && !(a != b), "buffers which agree in all bits inside their size are equal");
    zv_check(!(a < b) && !(b < a), "buffers which agree in all bits inside their size are not ordered");
    zv_check_eq(a.hashCode(), b.hashCode(), "equal buffers have equal hash codes");
    zv_cover("hashed");
}

// construction accepts exactly the bit sizes the bytes can hold
ZV_HARNESS(C06_construct)
{
    const uint64_t how = zv_split(0, 1);
    zv_shard();
    const uint64_t bits = zv_sym("q", 61) * 8 + zv_sym("r", 3), sz = zv_sym("bytes", 40);
    uint8_t* d = zv_buffer("data", sz);
    zv_readonly(d);
    bool ok = false, threw = false;
    try
    {
        if (how == 0)
        {
            const BitBuffer b(Span<const uint8_t>(d, sz), bits);
            ok = true;
            zv_check_eq(b.getBitSize(), bits, "bit size");
            zv_check_eq(b.getBytes().size(), sz, "the bytes are taken over");
            zv_check_eq(b.getData().size(), sz, "the bytes are shown");
            zv_check(b.getByteSize() <= sz, "the byte size lies within the bytes");
            zv_check(b.getByteSize() * 8 >= bits && (bits == 0 || (b.getByteSize() - 1) * 8 < bits), "byte size is the number of bytes the bits need");
        }
        else
        {
            const BitBuffer b(Span<const uint8_t>(d, sz));
            ok = true;
            zv_check_eq(b.getBitSize(), sz * 8, "bit size of whole bytes");
            zv_check_eq(b.getBytes().size(), sz, "the bytes are taken over");
        }
    }
    catch (const CppRuntimeException&)
    {
        threw = true;
    }
    zv_check(ok != threw, "construction succeeds or throws");
    if (how == 0)
    {
        if (ok) { zv_check(bits <= sz * 8, "a bit size which the bytes cannot hold was accepted"); zv_cover("accepted"); }
        else { zv_check(bits > sz * 8, "a bit size which the bytes can hold was refused"); zv_cover("refused"); }
    }
    else
    {
        zv_check(ok, "whole bytes are always accepted");
    }
}

ZV_HARNESS(C06_vector)
{
    const uint64_t how = zv_split(0, 2), sz = zv_split(0, 3), k = zv_split(0, 2), spare = zv_split(0, 2);
    zv_shard();
    const uint64_t bits = zv_sym("q", 61) * 8 + zv_sym("r", 3);
    uint8_t* d = zv_buffer("data", sz);
    std::vector<uint8_t> v;
    v.reserve(sz + spare); // capacity which is no part of the contents
    v.assign(d, d + sz);
    bool ok = false, threw = false;
    try
    {
        if (how == 0)
        {
            BitBuffer b(std::move(v), bits);
            ok = true;
            zv_check_eq(b.getBitSize(), bits, "bit size");
            zv_check_eq(b.getBytes().size(), sz, "the bytes are taken over");
            if (k < sz) zv_check_eq(b.getBuffer()[k], zv_bits_at(d, 8 * k, 8), "byte");
        }
        else if (how == 1)
        {
            const BitBuffer b(std::move(v));
            ok = true;
            zv_check_eq(b.getBitSize(), sz * 8, "bit size of whole bytes");
            if (k < sz) zv_check_eq(b.getData()[k], zv_bits_at(d, 8 * k, 8), "byte");
        }
        else
        {
            const uint64_t n = zv_split(0, MAXBITS);
            const BitBuffer b(n);
            ok = true;
            zv_check_eq(b.getBitSize(), n, "bit size");
            zv_check_eq(b.getBytes().size(), (n + 7) / 8, "the bytes for the bits");
            for (uint8_t byte : b.getBytes()) zv_check_eq(byte, 0, "bits are zero");
        }
    }
    catch (const CppRuntimeException&)
    {
        threw = true;
    }
    zv_check(ok != threw, "construction succeeds or throws");
    if (how == 0)
    {
        if (ok) { zv_check(bits <= sz * 8, "a bit size which the bytes cannot hold was accepted"); zv_cover("accepted"); }
        else { zv_check(bits > sz * 8, "a bit size which the bytes can hold was refused"); zv_cover("refused"); }
    }
    else
    {
        zv_check(ok, "whole bytes are always accepted");
    }
}

// copies, moves and what they leave
template <bool PROP>
static void copies()
{
    using A = track::Alloc<uint8_t, PROP>;
    using B = BasicBitBuffer<A>;
    const uint64_t n = zv_split(0, 17), m = zv_split(0, 2) * 5, bid = zv_split(1, 2), op = zv_split(0, 8);
    zv_shard();
    zv_mode("no_new", 1);
    const uint64_t live = zv_live();
    {
        const uint64_t s = (n + 7) / 8, t = (m + 7) / 8;
        uint8_t* d = zv_buffer("data", s);
        uint8_t* e = zv_buffer("more", t);
        B a(Span<const uint8_t>(d, s), n, A(1));
        B b(Span<const uint8_t>(e, t), m, A(bid));
        const B ref(Span<const uint8_t>(e, t), m, A(6));
        zv_check_eq(a.get_allocator().id, 1, "the buffer keeps its allocator");
        B c(A(4));
        zv_check_eq(c.get_allocator().id, 4, "the buffer keeps its allocator");
        zv_check_eq(c.getBitSize(), 0, "an empty buffer");
        zv_check_eq(c.getByteSize(), 0, "an empty buffer");
        if (op == 0) { a = static_cast<const B&>(b); zv_check_eq(a.get_allocator().id, PROP ? bid : 1, "copy assignment follows the allocator traits"); }
        else if (op == 1) { a = std::move(b); zv_check_eq(a.get_allocator().id, PROP ? bid : 1, "move assignment follows the allocator traits"); }
        else if (op == 2) { B x(static_cast<const B&>(b)); zv_check_eq(x.get_allocator().id, bid | 16, "copy construction follows the allocator traits"); a = std::move(x); }
        else if (op == 3) { B x(std::move(b)); zv_check_eq(x.get_allocator().id, bid, "move construction keeps the allocator"); a = std::move(x); }
        else if (op == 4) { B x(static_cast<const B&>(b), A(5)); zv_check_eq(x.get_allocator().id, 5, "copy with an allocator uses it"); a = std::move(x); }
        else if (op == 5) { B x(std::move(b), A(1)); zv_check_eq(x.get_allocator().id, 1, "move with an allocator uses it"); a = std::move(x); }
        else if (op == 6) { B& self = a; a = static_cast<const B&>(self); }
        else if (op == 7) { B x(n, A(5)); zv_check_eq(x.get_allocator().id, 5, "the buffer keeps its allocator"); }
        else { B x(std::vector<uint8_t, A>(d, d + s, A(5)), n); zv_check_eq(x.get_allocator().id, 5, "the buffer keeps its allocator"); zv_check(x == a, "same bits"); }
        if (op < 6)
        {
            zv_check(a == ref, "the copy has the size and bits of its source");
            zv_check_eq(a.hashCode(), ref.hashCode(), "equal buffers have equal hash codes");
        }
        // whatever the operation left in the source can be looked at
        (void)b.hashCode();
        zv_check(b == b, "equal to itself");
        zv_check(!(b < b), "not less than itself");
        zv_check(b.getByteSize() <= b.getBytes().size(), "the byte size lies within the bytes");
        B cmp(static_cast<const B&>(b));
        zv_check(cmp == b, "equal to its copy");
        if (op == 0 || op == 2 || op == 4) zv_check(b == ref, "the source of a copy is not changed");
        b = ref;
        zv_check(b == ref, "a buffer can be assigned again");
    }
    zv_check_eq(zv_live(), live, "every block is freed");
    zv_cover("copied");
}
ZV_HARNESS(C06_copies) { if (zv_split(0, 1)) copies<true>(); else copies<false>(); }
