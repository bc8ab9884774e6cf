// C05 / S11: what reading a stream allocates, and from where
#include "track.h"
#include <string>
#include <vector>
#include "zserio/BitBuffer.h"
#include "zserio/BitStreamReader.h"
#include "zserio/Bytes.h"
#include "zserio/CppRuntimeException.h"
#include "zserio/String.h"
#include "zserio/Types.h"
using namespace zserio;

#define STREAM() \
    const uint64_t q = zv_sym("q", 40), L = zv_sym("bits", 44), sz = zv_sym("bytes", 44); \
    zv_assume(sz * 8 >= L); \
    zv_assume(sz <= (uint64_t(1) << 40)); \
    uint8_t* buf = zv_buffer("buf", sz); \
    zv_readonly(buf); \
    const uint64_t p = q * 8 + r; \
    zv_assume(p <= L)

// a byte array, string or bit buffer read from any stream: arbitrary contents, any number of bits left
ZV_HARNESS(S11_fields)
{
    const uint64_t kind = zv_split(0, 2), r = zv_split(0, 7);
    zv_shard();
    STREAM();
    uint64_t length = 0, left = 0;
    try
    {
        BitStreamReader lengthReader(Span<const uint8_t>(buf, sz), static_cast<size_t>(L));
        lengthReader.setBitPosition(p);
        length = lengthReader.readVarSize();
        left = L - lengthReader.getBitPosition();
    }
    catch (const CppRuntimeException&)
    {
        zv_cover("no length");
        return;
    }
    const bool fits = (kind == 2 ? length : 8 * length) <= left;
    if (fits)
    {
        zv_assume(r == 0); // other positions: S08 (contents) and C05 (small fields)
        if (kind == 2) zv_assume(length % 8 == 0);
    }
    BitStreamReader reader(Span<const uint8_t>(buf, sz), static_cast<size_t>(L));
    reader.setBitPosition(p);
    zv_alloc_limit(left / 8 + 32);
    try
    {
        if (kind == 0) (void)reader.readBytes();
        else if (kind == 1) (void)reader.readString();
        else (void)reader.readBitBuffer();
        zv_check(fits, "a length which exceeds the data left is refused");
        zv_cover("read");
    }
    catch (const CppRuntimeException&)
    {
        zv_check(!fits, "a length which does not exceed the data left is accepted");
        zv_cover("refused");
    }
    zv_alloc_nolimit();
    zv_check_eq(zv_live(), 0, "every block is returned");
}

template <typename C>
static void ofAllocator(const C& c) { zv_check_eq(c.get_allocator().id, 3, "the value read uses the allocator given"); }

// a field of n bytes or bits read with an allocator of its own
template <bool PROP>
static void readers(uint64_t kind, uint64_t r, uint64_t n)
{
    STREAM();
    zv_assume(zv_bits_at(buf, p, 8) == n);
    zv_assume(p + 8 + (kind == 2 ? n : 8 * n) <= L);
    BitStreamReader reader(Span<const uint8_t>(buf, sz), static_cast<size_t>(L));
    reader.setBitPosition(p);
    zv_mode("no_new", 1);
    track::g_faults = 1;
    try
    {
        if (kind == 0) { const auto v = reader.readBytes<track::Alloc<uint8_t, PROP>>(track::Alloc<uint8_t, PROP>(3)); ofAllocator(v); zv_check_eq(v.size(), n, "length"); }
        else if (kind == 1) { const auto v = reader.readString<track::Alloc<char, PROP>>(track::Alloc<char, PROP>(3)); ofAllocator(v); zv_check_eq(v.size(), n, "length"); }
        else { const auto v = reader.readBitBuffer<track::Alloc<uint8_t, PROP>>(track::Alloc<uint8_t, PROP>(3)); ofAllocator(v); zv_check_eq(v.getBitSize(), n, "length"); }
        zv_cover("read");
    }
    catch (const track::Boom&)
    {
        zv_cover("allocation fails");
    }
    zv_mode("no_new", 0);
    zv_check_eq(zv_live(), 0, "every block is returned");
}

ZV_HARNESS(C05_readers)
{
    const uint64_t kind = zv_split(0, 2), r = zv_split(0, 7), prop = zv_split(0, 1);
    zv_shard();
    const uint64_t n = kind == 1 ? 9 * zv_split(0, 2) : kind == 2 ? 5 * zv_split(0, 3) : zv_split(0, 3);
    if (prop) readers<true>(kind, r, n);
    else readers<false>(kind, r, n);
}
