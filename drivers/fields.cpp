#include "zv.h"
#include <string>
#include <string_view>
#include <vector>
#include "zserio/BitBuffer.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/Bytes.h"
#include "zserio/CppRuntimeException.h"
#include "zserio/String.h"
#include "zserio/Types.h"
using namespace zserio;

#ifdef ZV_THOROUGH
#define UNALIGNED_MAX 9
#else
#define UNALIGNED_MAX 4
#endif

#define STREAM() \
    const uint64_t q = zv_sym("q", 40); \
    const uint64_t L = zv_sym("bits", 44); \
    const uint64_t sz = zv_sym("bytes", 44); \
    zv_assume(sz * 8 >= L); \
    zv_assume(sz <= (uint64_t(1) << 40)); \
    uint8_t* buf = zv_buffer("buf", sz); \
    const uint64_t p = q * 8 + r

static uint64_t varSizeBytes(uint64_t v) { return v < 128 ? 1 : v < 16384 ? 2 : v < 2097152 ? 3 : v < 268435456 ? 4 : 5; }
// the number of bytes of the length prefix, and any length which needs exactly that many
static uint64_t lengthOf(uint64_t nv)
{
    static const uint64_t lo[] = {0, 0, 128, 16384, 2097152, 268435456};
    static const uint64_t hi[] = {0, 127, 16383, 2097151, 268435455, 2147483647};
    const uint64_t len = zv_sym("length", 31);
    zv_assume(len >= lo[nv]);
    zv_assume(len <= hi[nv]);
    return len;
}
static uint64_t prefixByte(uint64_t len, uint64_t nv, uint64_t i)
{
    if (nv == 5 && i == 4) return len & 0xff;
    uint64_t after = 0;
    for (uint64_t k = i + 1; k < nv; ++k) after += (k == 4) ? 8 : 7;
    return ((len >> after) & 0x7f) | (i + 1 < nv ? 0x80 : 0);
}

static uint64_t sizeOf(uint64_t kind, const uint8_t* c, uint64_t len, bool init)
{
    if (kind == 0) { const BytesView v(c, len); return init ? detail::initializeOffsets(v, 13) : detail::bitSizeOf(v, 0); }
    const std::string_view v(reinterpret_cast<const char*>(c), len);
    return init ? detail::initializeOffsets(v, 13) : detail::bitSizeOf(v, 0);
}
static void writeField(BitStreamWriter& w, uint64_t kind, const uint8_t* c, uint64_t len)
{
    if (kind == 0) detail::write(w, BytesView(c, len));
    else detail::write(w, std::string_view(reinterpret_cast<const char*>(c), len));
}

// byte arrays and strings of any length at a byte boundary
ZV_HARNESS(S08_write_aligned)
{
    const uint64_t kind = zv_split(0, 1), nv = zv_split(1, 5);
    zv_shard();
    const uint64_t r = 0;
    STREAM();
    const uint64_t len = lengthOf(nv);
    const uint64_t need = 8 * nv + 8 * len;
    zv_assume(p <= L);
    uint8_t* content = zv_buffer("content", len);
    if (need + 13 < (1ULL << 32)) // bit sizes are 32-bit numbers (BitSize)
    {
        zv_check_eq(sizeOf(kind, content, len, false), need, "size of the field");
        zv_check_eq(sizeOf(kind, content, len, true), need, "offset initialisation advances by the size of the field");
    }
    BitStreamWriter w(Span<uint8_t>(buf, sz), static_cast<size_t>(L));
    w.setBitPosition(p);
    bool ok = false;
    try { writeField(w, kind, content, len); ok = true; } catch (const BitStreamWriter::InsufficientCapacityException&) {}
    zv_check(ok == (p + need <= L), "the write succeeds exactly when the field fits");
    if (ok)
    {
        zv_check_eq(w.getBitPosition(), p + need, "writer advances by the size of the field");
        for (uint64_t i = 0; i < nv; ++i) zv_check_eq(zv_bits_at(buf, p + 8 * i, 8), prefixByte(len, nv, i), "length prefix");
        const uint64_t k = zv_sym("index", 31);
        if (k < len) zv_check_eq(zv_bits_at(buf, p + 8 * nv + 8 * k, 8), zv_bits_at(content, 8 * k, 8), "content byte");
        zv_check_untouched(buf, p, p + need, "nothing else is stored");
        zv_cover("written");
    }
    else { zv_check_untouched(buf, p, L, "nothing outside the remaining capacity is stored"); zv_cover("refused"); }
}

// unaligned
ZV_HARNESS(S08_write)
{
    const uint64_t kind = zv_split(0, 1), r = zv_split(0, 7), len = zv_split(0, UNALIGNED_MAX);
    zv_shard();
    STREAM();
    const uint64_t need = 8 + 8 * len;
    zv_assume(p <= L);
    uint8_t* content = zv_buffer("content", len);
    zv_check_eq(sizeOf(kind, content, len, false), need, "size of the field");
    BitStreamWriter w(Span<uint8_t>(buf, sz), static_cast<size_t>(L));
    w.setBitPosition(p);
    bool ok = false;
    try { writeField(w, kind, content, len); ok = true; } catch (const BitStreamWriter::InsufficientCapacityException&) {}
    zv_check(ok == (p + need <= L), "the write succeeds exactly when the field fits");
    if (ok)
    {
        zv_check_eq(w.getBitPosition(), p + need, "writer advances by the size of the field");
        zv_check_eq(zv_bits_at(buf, p, 8), len, "length prefix");
        for (uint64_t k = 0; k < len; ++k) zv_check_eq(zv_bits_at(buf, p + 8 + 8 * k, 8), zv_bits_at(content, 8 * k, 8), "content byte");
        zv_check_untouched(buf, p, p + need, "nothing else is stored");
        zv_cover("written");
    }
    else { zv_check_untouched(buf, p, L, "nothing outside the remaining capacity is stored"); zv_cover("refused"); }
}

ZV_HARNESS(S08_count)
{
    const uint64_t kind = zv_split(0, 1), nv = zv_split(1, 5), r = zv_split(0, 7);
    zv_shard();
    const uint64_t len = r == 0 ? lengthOf(nv) : nv;   // unaligned writes are counted byte by byte
    const uint64_t need = r == 0 ? 8 * nv + 8 * len : 8 + 8 * len;
    const uint64_t p = 8 * zv_sym("q", 40) + r;
    uint8_t* content = zv_buffer("content", len);
    BitStreamWriter w(nullptr, 0);
    w.setBitPosition(p);
    writeField(w, kind, content, len);
    zv_check_eq(w.getBitPosition(), p + need, "a writer without a buffer advances by the size of the field");
    zv_cover("counted");
}

// reading any stream
ZV_HARNESS(S08_read_aligned)
{
    const uint64_t kind = zv_split(0, 1), nv = zv_split(1, 2);
    zv_shard();
    const uint64_t r = 0;
    STREAM();
    const uint64_t len = lengthOf(nv);
    zv_assume(p + 8 * nv <= L);
    {
        BitStreamWriter w(Span<uint8_t>(buf, sz), static_cast<size_t>(L));
        w.setBitPosition(p);
        detail::write(w, VarSize(static_cast<uint32_t>(len)));
    }
    const uint64_t need = 8 * nv + 8 * len;
    const uint64_t k = zv_sym("index", 31);
    BitStreamReader rd(Span<const uint8_t>(buf, sz), static_cast<size_t>(L));
    rd.setBitPosition(p);
    bool ok = false;
    try
    {
        if (kind == 0)
        {
            const Bytes v = rd.readBytes<>();
            zv_check_eq(v.size(), len, "number of bytes read");
            if (k == 0) { if (len != 0) zv_check_eq(v.data()[0], zv_bits_at(buf, p + 8 * nv, 8), "content byte"); }
            else if (k < len) zv_check_eq(v.data()[k], zv_bits_at(buf, p + 8 * nv + 8 * k, 8), "content byte");
        }
        else
        {
            const String v = rd.readString<>();
            zv_check_eq(v.size(), len, "number of characters read");
            if (k == 0) { if (len != 0) zv_check_eq(static_cast<uint8_t>(v.data()[0]), zv_bits_at(buf, p + 8 * nv, 8), "content character"); }
            else if (k < len) zv_check_eq(static_cast<uint8_t>(v.data()[k]), zv_bits_at(buf, p + 8 * nv + 8 * k, 8), "content character");
        }
        ok = true;
    }
    catch (const CppRuntimeException&) {}
    zv_check(ok == (p + need <= L), "the read succeeds exactly when the content is there");
    if (ok) { zv_check_eq(rd.getBitPosition(), p + need, "reader advances by the size of the field"); zv_cover("read"); }
    else zv_cover("refused");
}

ZV_HARNESS(S08_read)
{
    const uint64_t kind = zv_split(0, 1), r = zv_split(0, 7), len = zv_split(0, UNALIGNED_MAX);
    zv_shard();
    STREAM();
    zv_assume(p + 8 <= L);
    {
        BitStreamWriter w(Span<uint8_t>(buf, sz), static_cast<size_t>(L));
        w.setBitPosition(p);
        w.writeUnsignedBits32(static_cast<uint32_t>(len), 8);
    }
    const uint64_t need = 8 + 8 * len;
    BitStreamReader rd(Span<const uint8_t>(buf, sz), static_cast<size_t>(L));
    rd.setBitPosition(p);
    bool ok = false;
    try
    {
        if (kind == 0)
        {
            const Bytes v = rd.readBytes<>();
            zv_check_eq(v.size(), len, "number of bytes read");
            for (uint64_t k = 0; k < len; ++k) zv_check_eq(v[k], zv_bits_at(buf, p + 8 + 8 * k, 8), "content byte");
        }
        else
        {
            const String v = rd.readString<>();
            zv_check_eq(v.size(), len, "number of characters read");
            for (uint64_t k = 0; k < len; ++k) zv_check_eq(static_cast<uint8_t>(v[k]), zv_bits_at(buf, p + 8 + 8 * k, 8), "content character");
        }
        ok = true;
    }
    catch (const CppRuntimeException&) {}
    zv_check(ok == (p + need <= L), "the read succeeds exactly when the content is there");
    if (ok) { zv_check_eq(rd.getBitPosition(), p + need, "reader advances by the size of the field"); zv_cover("read"); }
    else zv_cover("refused");
}

// bit buffers: every bit size up to a few bytes at every alignment
#ifdef ZV_THOROUGH
#define BITS_MAX 40
#else
#define BITS_MAX 18
#endif
ZV_HARNESS(S08_bitbuffer)
{
    const uint64_t r = zv_split(0, 7), n = zv_split(0, BITS_MAX);
    zv_shard();
    STREAM();
    zv_assume(p <= L);
    const uint64_t bytes = (n + 7) / 8;
    const uint8_t* content = zv_buffer("content", bytes + 1);
    const BitBuffer bb(Span<const uint8_t>(content, bytes), n);
    const BitBufferView view(bb);
    zv_check_eq(detail::bitSizeOf(view, 3), 8 + n, "size of the field");
    BitStreamWriter counter(nullptr, 0);
    counter.setBitPosition(p);
    detail::write(counter, view);
    zv_check_eq(counter.getBitPosition(), p + 8 + n, "a writer without a buffer advances by the size of the field");
    BitStreamWriter w(Span<uint8_t>(buf, sz), static_cast<size_t>(L));
    w.setBitPosition(p);
    bool ok = false;
    try { detail::write(w, view); ok = true; } catch (const BitStreamWriter::InsufficientCapacityException&) {}
    zv_check(ok == (p + 8 + n <= L), "the write succeeds exactly when the field fits");
    if (!ok) { zv_check_untouched(buf, p, L, "nothing outside the remaining capacity is stored"); zv_cover("refused"); return; }
    zv_check_eq(w.getBitPosition(), p + 8 + n, "writer advances by the size of the field");
    zv_check_eq(zv_bits_at(buf, p, 8), n, "length prefix");
    for (uint64_t k = 0; k < n; k += 8)
    {
        const uint64_t m = n - k < 8 ? n - k : 8;
        zv_check_eq(zv_bits_at(buf, p + 8 + k, m), zv_bits_at(content, k, m), "content bits");
    }
    zv_check_untouched(buf, p, p + 8 + n, "nothing else is stored");
    BitStreamReader rd(Span<const uint8_t>(buf, sz), static_cast<size_t>(L));
    rd.setBitPosition(p);
    const BitBuffer back = rd.readBitBuffer<>();
    zv_check_eq(rd.getBitPosition(), p + 8 + n, "reader advances by the size of the field");
    zv_check_eq(back.getBitSize(), n, "bit size read");
    for (uint64_t k = 0; k < n; k += 8)
    {
        const uint64_t m = n - k < 8 ? n - k : 8;
        zv_check_eq(zv_bits_at(back.getBuffer(), k, m), zv_bits_at(content, k, m), "content bits read back");
    }
    zv_cover("round trip");
}

ZV_HARNESS(S08_bitbuffer_init)
{
    const uint64_t n = zv_split(0, 130);
    const uint8_t* content = zv_buffer("content", 17);
    const BitBuffer bb(Span<const uint8_t>(content, 17), n);
    zv_check_eq(detail::initializeOffsets(BitBufferView(bb), zv_sym("position", 40)), 8 * varSizeBytes(n) + n, "offset initialisation advances by the size of the field");
    zv_cover("initialised");
}

// aligned bit buffers of any size
ZV_HARNESS(S08_bitbuffer_aligned)
{
    const uint64_t nv = zv_split(1, 5), rest = zv_split(0, 7);
    zv_shard();
    const uint64_t r = 0;
    STREAM();
    zv_assume(p <= L);
    const uint64_t n = lengthOf(nv);
    const uint64_t whole = zv_sym("whole", 28);
    zv_assume(n == whole * 8 + rest);
    const uint64_t bytes = whole + (rest != 0 ? 1 : 0);
    const uint8_t* content = zv_buffer("content", bytes);
    const BitBuffer bb(Span<const uint8_t>(content, bytes), n);
    const BitBufferView view(bb);
    const uint64_t need = 8 * nv + n;
    zv_check_eq(detail::bitSizeOf(view, 3), need, "size of the field");
    BitStreamWriter w(Span<uint8_t>(buf, sz), static_cast<size_t>(L));
    w.setBitPosition(p);
    bool ok = false;
    try { detail::write(w, view); ok = true; } catch (const BitStreamWriter::InsufficientCapacityException&) {}
    zv_check(ok == (p + need <= L), "the write succeeds exactly when the field fits");
    if (!ok) { zv_check_untouched(buf, p, L, "nothing outside the remaining capacity is stored"); zv_cover("refused"); return; }
    zv_check_eq(w.getBitPosition(), p + need, "writer advances by the size of the field");
    for (uint64_t i = 0; i < nv; ++i) zv_check_eq(zv_bits_at(buf, p + 8 * i, 8), prefixByte(n, nv, i), "length prefix");
    const uint64_t k = zv_sym("index", 28);
    if (k < whole) zv_check_eq(zv_bits_at(buf, p + 8 * nv + 8 * k, 8), zv_bits_at(content, 8 * k, 8), "content byte");
    if (rest != 0) zv_check_eq(zv_bits_at(buf, p + 8 * nv + 8 * whole, rest), zv_bits_at(content, 8 * whole, rest), "last content bits");
    zv_check_untouched(buf, p, p + need, "nothing else is stored");
    zv_cover("written");
}
