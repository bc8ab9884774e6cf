#include "zv.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/CppRuntimeException.h"
using namespace zserio;
using NoCapacity = BitStreamWriter::InsufficientCapacityException;

// any buffer of sz bytes with a capacity of L bits and a writer placed at bit position p = 8*q + r
#define TARGET() \
    const uint64_t r = zv_split(0, 7); \
    const uint64_t q = zv_sym("q", 40); \
    const uint64_t L = zv_sym("bits", 44); \
    const uint64_t sz = zv_sym("bytes", 44); \
    zv_assume(sz * 8 >= L); \
    zv_assume(sz >= 1); \
    zv_assume(sz <= (uint64_t(1) << 40)); \
    uint8_t* buf = zv_buffer("buf", sz); \
    const uint64_t p = q * 8 + r

static uint64_t lowMask(uint64_t n) { return n == 64 ? ~uint64_t(0) : (uint64_t(1) << n) - 1; }

ZV_HARNESS(S03_write_u)
{
    const uint64_t api = zv_split(0, 1), n = zv_split(1, 64);
    zv_shard();
    if (api == 1 && n > 32) return;
    TARGET();
    zv_assume(p + n <= L);
    const uint64_t v = zv_sym("value", n);
    BitStreamWriter writer(Span<uint8_t>(buf, sz), static_cast<size_t>(L));
    writer.setBitPosition(p);
    if (api == 0) writer.writeUnsignedBits64(v, static_cast<uint8_t>(n));
    else writer.writeUnsignedBits32(static_cast<uint32_t>(v), static_cast<uint8_t>(n));
    zv_check_eq(writer.getBitPosition(), p + n, "position advances by the width");
    zv_check_eq(zv_bits_at(buf, p, n), v, "exactly the value's bits are written, most significant first");
    zv_check_untouched(buf, p, p + n, "no other bit changes");
    zv_cover("written");
}

ZV_HARNESS(S03_write_s)
{
    const uint64_t api = zv_split(0, 2), n = zv_split(1, 64);
    zv_shard();
    if (api == 1 && n > 32) return;
    if (api == 2 && n > 1) return;
    TARGET();
    zv_assume(p + n <= L);
    const uint64_t raw = zv_sym("value", n);
    const int64_t v = n == 64 ? static_cast<int64_t>(raw)
                              : static_cast<int64_t>(((raw >> (n - 1)) & 1) ? (raw | (~uint64_t(0) << n)) : raw);
    BitStreamWriter writer(buf, static_cast<size_t>(L), BitsTag());
    writer.setBitPosition(p);
    const bool rejected1 = n == 1 && api < 2 && raw == 1;   // a one bit signed field holds 0 and -1
    (void)rejected1;
    if (api == 0) writer.writeSignedBits64(v, static_cast<uint8_t>(n));
    else if (api == 1) writer.writeSignedBits32(static_cast<int32_t>(v), static_cast<uint8_t>(n));
    else writer.writeBool(raw != 0);
    zv_check_eq(writer.getBitPosition(), p + n, "position advances by the width");
    zv_check_eq(zv_bits_at(buf, p, n), raw, "exactly the two's complement bits are written, most significant first");
    zv_check_untouched(buf, p, p + n, "no other bit changes");
    zv_cover("written");
}

// write then read back through the reader
ZV_HARNESS(S03_roundtrip)
{
    const uint64_t n = zv_split(1, 64);
    zv_shard();
    TARGET();
    zv_assume(p + n <= L);
    const uint64_t v = zv_sym("value", n);
    BitStreamWriter writer(Span<uint8_t>(buf, sz));
    writer.setBitPosition(p);
    writer.writeUnsignedBits64(v, static_cast<uint8_t>(n));
    BitStreamReader reader(Span<const uint8_t>(buf, sz));
    reader.setBitPosition(p);
    zv_check_eq(reader.readUnsignedBits64(static_cast<uint8_t>(n)), v, "reading returns the value written");
    zv_cover("read back");
}

// S04: any width, any value: accepted exactly when the value fits; refused without effect
ZV_HARNESS(S04_write)
{
    const uint64_t api = zv_split(0, 3), w = zv_split(0, 80);
    zv_shard();
    const uint64_t width = w <= 70 ? w : w == 71 ? 96 : w == 72 ? 127 : w == 73 ? 128 : w == 74 ? 160 : w == 75 ? 255 : w == 76 ? 254 : w == 77 ? 192 : w == 78 ? 200 : w == 79 ? 129 : 72;
    TARGET();
    zv_assume(p + 64 <= L);
    const uint64_t maxW = (api & 1) != 0 ? 32 : 64;
    const uint64_t v = zv_sym("value", maxW);
    const bool isSigned = api >= 2;
    bool fits = width >= 1 && width <= maxW;
    if (fits)
    {
        if (!isSigned) fits = v <= lowMask(width);
        else
        {
            const int64_t s = maxW == 32 ? static_cast<int64_t>(static_cast<int32_t>(static_cast<uint32_t>(v))) : static_cast<int64_t>(v);
            const int64_t top = static_cast<int64_t>(lowMask(width - 1) & 0x7fffffffffffffffULL);
            fits = s >= -top - 1 && s <= top;
        }
    }
    BitStreamWriter writer(Span<uint8_t>(buf, sz), static_cast<size_t>(L));
    writer.setBitPosition(p);
    bool ok = false;
    try
    {
        const uint8_t nb = static_cast<uint8_t>(width);
        switch (api)
        {
        case 0: writer.writeUnsignedBits64(v, nb); break;
        case 1: writer.writeUnsignedBits32(static_cast<uint32_t>(v), nb); break;
        case 2: writer.writeSignedBits64(static_cast<int64_t>(v), nb); break;
        default: writer.writeSignedBits32(static_cast<int32_t>(static_cast<uint32_t>(v)), nb); break;
        }
        ok = true;
    }
    catch (const CppRuntimeException&)
    {}
    if (ok) { zv_check(fits, "an invalid width or a value which does not fit is rejected"); zv_cover("accepted"); }
    else
    {
        zv_check(!fits, "a value which fits is accepted");
        zv_check_eq(writer.getBitPosition(), p, "a rejected write leaves the position");
        zv_check_untouched(buf, p, p, "a rejected write leaves the buffer");
        zv_cover("rejected");
    }
}

static void writeAny(BitStreamWriter& writer, uint64_t api, uint64_t v, uint64_t n)
{
    const uint8_t nb = static_cast<uint8_t>(n);
    switch (api)
    {
    case 0: writer.writeUnsignedBits64(v & lowMask(n), nb); break;
    case 1: writer.writeUnsignedBits32(static_cast<uint32_t>(v & lowMask(n)), nb); break;
    case 2: writer.writeSignedBits64(static_cast<int64_t>(v & lowMask(n - 1)), nb); break;
    case 3: writer.writeSignedBits32(static_cast<int32_t>(v & lowMask(n - 1)), nb); break;
    case 4: writer.writeBool((v & 1) != 0); break;
    case 5: writer.writeFloat16(0.0F); break;
    case 6: writer.writeFloat32(0.0F); break;
    default: writer.writeFloat64(0.0); break;
    }
}
static uint64_t widthOf(uint64_t api, uint64_t n) { return api == 4 ? 1 : api == 5 ? 16 : api == 6 ? 32 : api == 7 ? 64 : n; }

// S02: any capacity
ZV_HARNESS(S02_capacity)
{
    const uint64_t api = zv_split(0, 7), n = zv_split(1, 64);
    zv_shard();
    if ((api == 1 || api == 3) && n > 32) return;
    if (api >= 4 && n > 1) return;
    TARGET();
    zv_assume(p <= L);
    const uint64_t v = zv_sym("value", 64);
    BitStreamWriter writer(Span<uint8_t>(buf, sz), static_cast<size_t>(L));
    writer.setBitPosition(p);
    const uint64_t w = widthOf(api, n);
    bool ok = false, cap = false;
    try
    {
        writeAny(writer, api, v, n);
        ok = true;
    }
    catch (const NoCapacity&)
    {
        cap = true;
    }
    catch (const CppRuntimeException&)
    {}
    zv_check(ok == (p + w <= L), "a write throws exactly when it does not fit into the capacity");
    if (ok) { zv_check_untouched(buf, p, p + w, "only the field is stored"); zv_cover("fits"); }
    else
    {
        zv_check(cap, "the exception is the insufficient-capacity exception");
        zv_check_untouched(buf, p, L, "nothing outside the remaining capacity is stored");
        if (w <= 32) zv_check_untouched(buf, p, p, "a refused field of up to 32 bits stores nothing");
        zv_cover("refused");
    }
    zv_check(writer.getBitPosition() <= L, "the position never passes the capacity");
}

ZV_HARNESS(S02_seek)
{
    const uint64_t ctor = zv_split(0, 2);
    zv_shard();
    TARGET();
    (void)p;
    const uint64_t to = zv_sym("seek", 64);
    if (ctor == 0)
    {
        BitStreamWriter writer(Span<uint8_t>(buf, sz), static_cast<size_t>(L));
        bool ok = false;
        try { writer.setBitPosition(to); ok = true; } catch (const NoCapacity&) {}
        zv_check(ok == (to <= L), "seeking throws exactly behind the capacity");
        zv_check_eq(writer.getBitPosition(), ok ? to : 0, "seek sets the position");
    }
    else if (ctor == 1)
    {
        BitStreamWriter writer(buf, static_cast<size_t>(sz));
        bool ok = false;
        try { writer.setBitPosition(to); ok = true; } catch (const NoCapacity&) {}
        zv_check(ok == (to <= sz * 8), "seeking throws exactly behind the capacity");
        zv_check_eq(writer.getBufferBitSize(), sz * 8, "capacity is all of the buffer");
    }
    else
    {
        BitStreamWriter writer(buf, static_cast<size_t>(L), BitsTag());
        bool ok = false;
        try { writer.setBitPosition(to); ok = true; } catch (const NoCapacity&) {}
        zv_check(ok == (to <= L), "seeking throws exactly behind the capacity");
        zv_check_eq(writer.getBufferBitSize(), L, "capacity is the given bit size");
    }
    zv_check_untouched(buf, 0, 0, "seeking stores nothing");
    zv_cover("done");
}

ZV_HARNESS(S02_construct)
{
    const uint64_t sz = zv_sym("bytes", 44);
    const uint64_t L = zv_sym("bits", 64);
    zv_assume(sz <= (uint64_t(1) << 40));
    zv_assume(sz >= 1);
    uint8_t* buf = zv_buffer("buf", sz);
    bool ok = false;
    try
    {
        BitStreamWriter writer(Span<uint8_t>(buf, sz), static_cast<size_t>(L));
        ok = true;
    }
    catch (const CppRuntimeException&)
    {}
    if (ok) { zv_check(L <= sz * 8, "a writer is never created with a capacity its buffer does not have"); zv_cover("accepted"); }
    else { zv_check(L > sz * 8, "a capacity which the buffer has is accepted"); zv_cover("refused"); }
}

ZV_HARNESS(S02_align)
{
    const uint64_t al = zv_split(0, 9);
    const uint64_t alignment = uint64_t(1) << al;
    const uint64_t mod = alignment < 8 ? 8 : alignment;
    const uint64_t r = zv_split(0, mod - 1);
    zv_shard();
    const uint64_t L = zv_sym("bits", 44), sz = zv_sym("bytes", 44), q = zv_sym("q", 40);
    zv_assume(sz * 8 >= L);
    zv_assume(sz >= 1);
    zv_assume(sz <= (uint64_t(1) << 40));
    uint8_t* buf = zv_buffer("buf", sz);
    const uint64_t p = q * mod + r;
    zv_assume(p <= L);
    BitStreamWriter writer(Span<uint8_t>(buf, sz), static_cast<size_t>(L));
    writer.setBitPosition(p);
    const uint64_t target = q * mod + (r + alignment - 1) / alignment * alignment;
    bool ok = false;
    try { writer.alignTo(alignment); ok = true; } catch (const NoCapacity&) {}
    zv_check(ok == (target <= L), "aligning throws exactly when it does not fit");
    if (ok)
    {
        zv_check_eq(writer.getBitPosition(), target, "aligning goes to the next multiple of the alignment");
        zv_check_untouched(buf, p, target, "only the skipped bits are stored");
        zv_cover("aligned");
    }
    else { zv_check_untouched(buf, p, L, "nothing outside the remaining capacity is stored"); zv_cover("refused"); }
}

// a writer without a buffer only counts
ZV_HARNESS(S02_nobuffer)
{
    const uint64_t api = zv_split(0, 7), n = zv_split(1, 64), ctor = zv_split(0, 2);
    zv_shard();
    if ((api == 1 || api == 3) && n > 32) return;
    if (api >= 4 && n > 1) return;
    const uint64_t p = zv_sym("pos", 60), v = zv_sym("value", 64);
    auto run = [&](BitStreamWriter& writer) {
        writer.setBitPosition(p);
        zv_check_eq(writer.getBitPosition(), p, "a writer without a buffer can be placed anywhere");
        writeAny(writer, api, v, n);
        zv_check_eq(writer.getBitPosition(), p + widthOf(api, n), "a writer without a buffer advances its position");
        zv_check(!writer.hasWriteBuffer(), "there is no buffer");
        zv_cover("counted");
    };
    if (ctor == 0) { BitStreamWriter w(nullptr, 0); run(w); }
    else if (ctor == 1) { BitStreamWriter w((Span<uint8_t>())); run(w); }
    else { BitStreamWriter w(nullptr, 0, BitsTag()); run(w); }
}
