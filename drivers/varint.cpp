#include "zv.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/CppRuntimeException.h"
#include "zserio/Types.h"
using namespace zserio;

// documented format: [sign] [next] bits, 7 bits per further byte with a leading next bit, 8 bits in the last byte of the longest form
struct Fmt { bool sign; uint64_t maxBytes; };
static Fmt fmtOf(uint64_t t)
{
    switch (t)
    {
    case 0: return {true, 2};    // varint16
    case 1: return {true, 4};    // varint32
    case 2: return {true, 8};    // varint64
    case 3: return {true, 9};    // varint
    case 4: return {false, 2};   // varuint16
    case 5: return {false, 4};   // varuint32
    case 6: return {false, 8};   // varuint64
    case 7: return {false, 9};   // varuint
    default: return {false, 5};  // varsize
    }
}
static uint64_t payloadBits(Fmt f, uint64_t n, uint64_t t)
{
    uint64_t bits = (f.sign ? 6 : 7) + 7 * (n - 1) + (n == f.maxBytes ? 1 : 0);
    if (t == 8 && n == 5) bits = 31;
    return bits;
}
static uint64_t mask(uint64_t n) { return n >= 64 ? ~uint64_t(0) : (uint64_t(1) << n) - 1; }
static uint64_t maxMag(uint64_t t) { const Fmt f = fmtOf(t); return mask(payloadBits(f, f.maxBytes, t)); }

static uint64_t sizeOf(uint64_t t, uint64_t v, bool viaInit)
{
    switch (t)
    {
#define S(N, T, C) case N: return viaInit ? detail::initializeOffsets(T(static_cast<C>(v)), 3) : detail::bitSizeOf(T(static_cast<C>(v)), 0);
        S(0, VarInt16, int16_t) S(1, VarInt32, int32_t) S(2, VarInt64, int64_t) S(3, VarInt, int64_t) S(4, VarUInt16, uint16_t)
        S(5, VarUInt32, uint32_t) S(6, VarUInt64, uint64_t) S(7, VarUInt, uint64_t)
    default: return viaInit ? detail::initializeOffsets(VarSize(static_cast<uint32_t>(v)), 3) : detail::bitSizeOf(VarSize(static_cast<uint32_t>(v)), 0);
#undef S
    }
}
static void writeT(BitStreamWriter& w, uint64_t t, uint64_t v)
{
    switch (t)
    {
    case 0: detail::write(w, VarInt16(static_cast<int16_t>(v))); break;
    case 1: detail::write(w, VarInt32(static_cast<int32_t>(v))); break;
    case 2: detail::write(w, VarInt64(static_cast<int64_t>(v))); break;
    case 3: detail::write(w, VarInt(static_cast<int64_t>(v))); break;
    case 4: detail::write(w, VarUInt16(static_cast<uint16_t>(v))); break;
    case 5: detail::write(w, VarUInt32(static_cast<uint32_t>(v))); break;
    case 6: detail::write(w, VarUInt64(v)); break;
    case 7: detail::write(w, VarUInt(v)); break;
    default: detail::write(w, VarSize(static_cast<uint32_t>(v))); break;
    }
}
template <typename T>
static uint64_t readOne(BitStreamReader& r)
{
    T x;
    detail::read(r, x);
    return static_cast<uint64_t>(static_cast<int64_t>(static_cast<typename T::ValueType>(x)));
}
static uint64_t readT(BitStreamReader& r, uint64_t t)
{
    switch (t)
    {
    case 0: return readOne<VarInt16>(r);
    case 1: return readOne<VarInt32>(r);
    case 2: return readOne<VarInt64>(r);
    case 3: return readOne<VarInt>(r);
    case 4: return readOne<VarUInt16>(r);
    case 5: return readOne<VarUInt32>(r);
    case 6: return readOne<VarUInt64>(r);
    case 7: return readOne<VarUInt>(r);
    default: return readOne<VarSize>(r);
    }
}
static uint64_t expByte(Fmt f, uint64_t n, uint64_t i, uint64_t mag, bool neg)
{
    // bits of mag which lie behind byte i
    const bool longest = n == f.maxBytes;
    uint64_t after = 0;
    for (uint64_t k = i + 1; k < n; ++k) after += (k == n - 1 && longest) ? 8 : 7;
    if (i == 0) return (f.sign ? (neg ? 0x80 : 0) | (n > 1 ? 0x40 : 0) | ((mag >> after) & 0x3f) : (n > 1 ? 0x80 : 0) | ((mag >> after) & 0x7f));
    if (i == n - 1) return longest ? mag & 0xff : mag & 0x7f;
    return 0x80 | ((mag >> after) & 0x7f);
}

#define STREAM() \
    const uint64_t r = zv_split(0, 7); \
    const uint64_t q = zv_sym("q", 40); \
    const uint64_t L = zv_sym("bits", 44); \
    const uint64_t sz = zv_sym("bytes", 44); \
    zv_assume(sz * 8 >= L); \
    zv_assume(sz >= 1); \
    zv_assume(sz <= (uint64_t(1) << 40)); \
    uint8_t* buf = zv_buffer("buf", sz); \
    const uint64_t p = q * 8 + r

// every value in range
ZV_HARNESS(S05_write)
{
    const uint64_t t = zv_split(0, 8), n = zv_split(1, 9), neg = zv_split(0, 1);
    zv_shard();
    const Fmt f = fmtOf(t);
    if (n > f.maxBytes || (neg == 1 && !f.sign)) return;
    STREAM();
    zv_assume(p + 8 * n <= L);
    const uint64_t bits = payloadBits(f, n, t);
    const uint64_t mag = zv_sym("magnitude", bits);
    if (n > 1) zv_assume(mag > mask(payloadBits(f, n - 1, t)));
    else if (neg == 1) zv_assume(mag >= 1);
    const uint64_t v = neg == 1 ? uint64_t(0) - mag : mag;
    zv_check_eq(sizeOf(t, v, false), 8 * n, "size of the value");
    zv_check_eq(sizeOf(t, v, true), 8 * n, "offset initialisation advances by the size");
    BitStreamWriter writer(Span<uint8_t>(buf, sz), static_cast<size_t>(L));
    writer.setBitPosition(p);
    writeT(writer, t, v);
    zv_check_eq(writer.getBitPosition(), p + 8 * n, "writer advances by the size");
    for (uint64_t i = 0; i < n; ++i) zv_check_eq(zv_bits_at(buf, p + 8 * i, 8), expByte(f, n, i, mag, neg == 1), "byte of the documented encoding");
    zv_check_untouched(buf, p, p + 8 * n, "nothing else is stored");
    BitStreamReader reader(Span<const uint8_t>(buf, sz), static_cast<size_t>(L));
    reader.setBitPosition(p);
    zv_check_eq(readT(reader, t), v, "reading yields the value written");
    zv_check_eq(reader.getBitPosition(), p + 8 * n, "reader consumes what was written");
    zv_cover("round trip");
}

// INT64_MIN of varint is written as negative zero
ZV_HARNESS(S05_min)
{
    STREAM();
    zv_assume(p + 8 <= L);
    const uint64_t v = uint64_t(1) << 63;
    zv_check_eq(sizeOf(3, v, false), 8, "size of the lowest value");
    zv_check_eq(sizeOf(3, v, true), 8, "offset initialisation of the lowest value");
    BitStreamWriter writer(Span<uint8_t>(buf, sz), static_cast<size_t>(L));
    writer.setBitPosition(p);
    writeT(writer, 3, v);
    zv_check_eq(writer.getBitPosition(), p + 8, "lowest value takes one byte");
    zv_check_eq(zv_bits_at(buf, p, 8), 0x80, "lowest value is negative zero");
    BitStreamReader reader(Span<const uint8_t>(buf, sz), static_cast<size_t>(L));
    reader.setBitPosition(p);
    zv_check_eq(readT(reader, 3), v, "reading yields the lowest value");
    zv_cover("round trip");
}

// every value out of range is refused by size computation and writer
ZV_HARNESS(S05_range)
{
    const uint64_t t = zv_split(0, 8), neg = zv_split(0, 1);
    zv_shard();
    if (t == 3 || t == 7) return;   // all 64-bit values are in range
    const Fmt f = fmtOf(t);
    if (neg == 1 && !f.sign) return;
    STREAM();
    zv_assume(p + 72 <= L);
    const uint64_t bits = t == 0 || t == 4 ? 16 : t == 2 || t == 6 ? 64 : 32;
    const uint64_t mag = zv_sym("magnitude", f.sign ? bits - 1 : bits);
    const bool lowest = neg == 1 && mag == 0;    // stands for the lowest value of the underlying type
    if (!lowest) zv_assume(mag > maxMag(t));
    if (lowest && t == 2) return;                // negating it is not defined
    const uint64_t v = lowest ? uint64_t(0) - (uint64_t(1) << (bits - 1)) : neg == 1 ? uint64_t(0) - mag : mag;
    for (int init = 0; init < 2; ++init)
    {
        bool refused = false;
        try { (void)sizeOf(t, v, init != 0); } catch (const CppRuntimeException&) { refused = true; }
        zv_check(refused, "the size of a value out of range is refused");
    }
    BitStreamWriter writer(Span<uint8_t>(buf, sz), static_cast<size_t>(L));
    writer.setBitPosition(p);
    bool refused = false;
    try { writeT(writer, t, v); } catch (const CppRuntimeException&) { refused = true; }
    zv_check(refused, "a value out of range is not written");
    zv_check_untouched(buf, p, p, "a refused value stores nothing");
    zv_check_eq(writer.getBitPosition(), p, "a refused value leaves the position");
    zv_cover("refused");
}

// any bytes
ZV_HARNESS(S05_read)
{
    const uint64_t t = zv_split(0, 8), n = zv_split(1, 9);
    zv_shard();
    const Fmt f = fmtOf(t);
    if (n > f.maxBytes) return;
    STREAM();
    zv_assume(p + 8 * n <= L);
    uint64_t mag = 0;
    bool neg = false;
    for (uint64_t i = 0; i < n; ++i)
    {
        const uint64_t b = zv_bits_at(buf, p + 8 * i, 8);
        const uint64_t next = i == 0 && f.sign ? 0x40 : 0x80;
        const bool last = i + 1 == n;
        if (i + 1 < f.maxBytes) zv_assume(((b & next) != 0) == !last);
        if (i == 0) { mag = b & (next - 1); neg = f.sign && (b & 0x80) != 0; }
        else if (i + 1 == f.maxBytes) mag = (mag << 8) | b;
        else mag = (mag << 7) | (b & 0x7f);
    }
    BitStreamReader reader(Span<const uint8_t>(buf, sz), static_cast<size_t>(L));
    reader.setBitPosition(p);
    uint64_t got = 0;
    bool ok = false;
    try { got = readT(reader, t); ok = true; } catch (const CppRuntimeException&) {}
    if (t == 8) zv_check(ok == (mag <= 0x7fffffff), "a variable size beyond its limit is rejected, any other is read");
    else zv_check(ok, "every encoding can be read");
    if (ok)
    {
        uint64_t expected = neg ? (mag == 0 ? (t == 3 && n == 1 ? uint64_t(1) << 63 : 0) : uint64_t(0) - mag) : mag;
        zv_check_eq(got, expected, "value of the encoding");
        zv_check_eq(reader.getBitPosition(), p + 8 * n, "the reader stops right behind the encoding");
        zv_cover("read");
    }
    else zv_cover("rejected");
}
