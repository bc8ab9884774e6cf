#include "zv.h"
#include <cstring>
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/FloatUtil.h"
#include "zserio/Types.h"
using namespace zserio;

template <typename To, typename From>
static To bits(From f)
{
    To t;
    std::memcpy(&t, &f, sizeof(t));
    return t;
}

ZV_HARNESS(S07_identity)
{
    const uint32_t a = static_cast<uint32_t>(zv_sym("single", 32));
    const uint64_t b = zv_sym("double", 64);
    zv_check_eq(convertFloatToUInt32(bits<float>(a)), a, "bits of a single float");
    zv_check_eq(bits<uint32_t>(convertUInt32ToFloat(a)), a, "single float of the bits");
    zv_check_eq(convertDoubleToUInt64(bits<double>(b)), b, "bits of a double float");
    zv_check_eq(bits<uint64_t>(convertUInt64ToDouble(b)), b, "double float of the bits");
    zv_cover("converted");
}

// exact single float of a half float
static uint32_t expectSingle(uint64_t s, uint64_t e, uint64_t m, uint64_t lead)
{
    uint64_t x;
    if (e == 31) x = (uint64_t(255) << 23) | (m << 13);
    else if (e != 0) x = ((e + 112) << 23) | (m << 13);
    else if (lead == 0) x = 0;
    else x = ((lead + 102) << 23) + ((m << (24 - lead)) - (uint64_t(1) << 23));   // lead-1: position of the highest bit of m
    return static_cast<uint32_t>((s << 31) | x);
}

#define HALF() \
    const uint64_t s = zv_split(0, 1), e = zv_split(0, 31), lead = zv_split(0, 10); \
    zv_shard(); \
    if (e != 0 && lead != 0) return; \
    const uint64_t m = e != 0 ? zv_sym("significand", 10) : lead == 0 ? 0 : (uint64_t(1) << (lead - 1)) + (lead == 1 ? 0 : zv_sym("significand", lead - 1)); \
    const uint64_t h = (s << 15) | (e << 10) | m

ZV_HARNESS(S07_from16)
{
    HALF();
    zv_check_eq(bits<uint32_t>(convertUInt16ToFloat(static_cast<uint16_t>(h))), expectSingle(s, e, m, lead), "single float of the same value");
    zv_cover("converted");
}

// nearest half float of a single float
static void checkHalf(uint64_t h, uint64_t s, uint64_t e, uint64_t m)
{
    zv_check_eq(h >> 15, s, "sign is kept");
    const uint64_t r = h & 0x7fff;
    if (e == 255)
    {
        if (m == 0) zv_check_eq(r, 0x7c00, "infinity stays infinity");
        else zv_check(r > 0x7c00, "not a number stays not a number");
        return;
    }
    if (e > 142) { zv_check_eq(r, 0x7c00, "overflow gives infinity"); return; }
    if (e < 102) { zv_check_eq(r, 0, "underflow gives zero"); return; }
    int64_t scaled, full, half;
    if (e >= 113)
    {
        scaled = (static_cast<int64_t>(r) - static_cast<int64_t>((e - 112) << 10)) * 8192;
        full = static_cast<int64_t>(m);
        half = 4096;
    }
    else
    {
        const uint64_t shift = 113 - e;
        scaled = static_cast<int64_t>(r) * static_cast<int64_t>(uint64_t(8192) << shift);
        full = static_cast<int64_t>(m) + 0x800000;
        half = static_cast<int64_t>(uint64_t(4096) << shift);
        if (e == 102 && r == 0) return;   // below the smallest subnormal: zero is allowed
    }
    zv_check(scaled - full <= half && full - scaled <= half, "nearest half float");
}

ZV_HARNESS(S07_to16)
{
    const uint64_t s = zv_split(0, 1), e = zv_split(0, 255);
    zv_shard();
    const uint64_t m = zv_sym("significand", 23);
    const uint32_t x = static_cast<uint32_t>((s << 31) | (e << 23) | m);
    checkHalf(convertFloatToUInt16(bits<float>(x)), s, e, m);
    zv_cover("converted");
}

#define STREAM(N) \
    const uint64_t r = zv_split(0, 7); \
    const uint64_t q = zv_sym("q", 40), L = zv_sym("bits", 44), sz = zv_sym("bytes", 44); \
    zv_assume(sz * 8 >= L); \
    zv_assume(sz <= (uint64_t(1) << 40)); \
    const uint64_t p = q * 8 + r; \
    zv_assume(p + N <= L); \
    uint8_t* buf = zv_buffer("buf", sz)

// the stream operations use these conversions
ZV_HARNESS(S07_stream_write)
{
    const uint64_t width = zv_split(0, 2), viaFree = zv_split(0, 1), s = zv_split(0, 1), k = zv_split(0, 15);
    zv_shard();
    const uint64_t n = width == 0 ? 16 : width == 1 ? 32 : 64;
    STREAM(n);
    BitStreamWriter w(Span<uint8_t>(buf, sz), static_cast<size_t>(L));
    w.setBitPosition(p);
    if (width == 0)
    {
        const uint64_t e = k == 0 ? 0 : k == 15 ? 255 : k == 14 ? 143 : k == 13 ? 142 : k == 12 ? 102 : k == 11 ? 101 : 100 + k * 4;
        const uint64_t m = zv_sym("significand", 23);
        const float f = bits<float>(static_cast<uint32_t>((s << 31) | (e << 23) | m));
        if (viaFree) detail::write(w, Float16(f)); else w.writeFloat16(f);
        zv_check_eq(zv_bits_at(buf, p, 16), convertFloatToUInt16(f), "the half float is written");
    }
    else
    {
        if (k != 0 || s != 0) return;
        const uint64_t v = zv_sym("value", n);
        if (width == 1) { const float f = bits<float>(static_cast<uint32_t>(v)); if (viaFree) detail::write(w, Float32(f)); else w.writeFloat32(f); }
        else { const double f = bits<double>(v); if (viaFree) detail::write(w, Float64(f)); else w.writeFloat64(f); }
        zv_check_eq(zv_bits_at(buf, p, n), v, "bits of the float are written");
    }
    zv_check_eq(w.getBitPosition(), p + n, "position advances by the width");
    zv_check_untouched(buf, p, p + n, "no other bit changes");
    zv_cover("written");
}

ZV_HARNESS(S07_stream_read)
{
    const uint64_t width = zv_split(0, 2), viaFree = zv_split(0, 1);
    HALF();
    if (width != 0 && (s != 0 || e != 0 || lead != 0)) return;
    const uint64_t n = width == 0 ? 16 : width == 1 ? 32 : 64;
    STREAM(n);
    if (width == 0)
    {
        BitStreamWriter w(Span<uint8_t>(buf, sz), static_cast<size_t>(L));
        w.setBitPosition(p);
        w.writeUnsignedBits32(static_cast<uint32_t>(h), 16);
    }
    BitStreamReader rd(Span<const uint8_t>(buf, sz), static_cast<size_t>(L));
    const uint64_t raw = zv_bits_at(buf, p, n);
    rd.setBitPosition(p);
    if (width == 0)
    {
        Float16 f;
        if (viaFree) detail::read(rd, f); else f = rd.readFloat16();
        zv_check_eq(bits<uint32_t>(static_cast<float>(f)), expectSingle(s, e, m, lead), "single float of the same value");
    }
    else if (width == 1)
    {
        Float32 f;
        if (viaFree) detail::read(rd, f); else f = rd.readFloat32();
        zv_check_eq(bits<uint32_t>(static_cast<float>(f)), raw, "single float of the bits");
    }
    else
    {
        Float64 f;
        if (viaFree) detail::read(rd, f); else f = rd.readFloat64();
        zv_check_eq(bits<uint64_t>(static_cast<double>(f)), raw, "double float of the bits");
    }
    zv_check_eq(rd.getBitPosition(), p + n, "position advances by the width");
    zv_cover("read");
}
