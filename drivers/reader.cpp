#include "zv.h"
#include "zserio/BitStreamReader.h"
#include "zserio/CppRuntimeException.h"
using namespace zserio;

// Any buffer of `sz` bytes showing a stream of L bits, a reader on it placed at bit position p = 8*q + r.
#define STREAM() \
    const uint64_t r = zv_split(0, 7); \
    const uint64_t q = zv_sym("q", 40); \
    const uint64_t L = zv_sym("bits", 44); \
    const uint64_t sz = zv_sym("bytes", 44); \
    zv_assume(sz * 8 >= L); \
    zv_assume(sz <= (uint64_t(1) << 40)); \
    const uint8_t* buf = zv_buffer("buf", sz); \
    zv_readonly(buf); \
    const uint64_t p = q * 8 + r

// widths of a preceding read: together with the 8 positions inside a byte they reach every fill state of the cache
#ifdef ZV_THOROUGH
static const uint8_t PRIOR[9] = {0, 8, 16, 24, 32, 40, 48, 56, 64};
#define LASTPRIOR 8
#else
static const uint8_t PRIOR[4] = {0, 8, 32, 56};
#define LASTPRIOR 3
#endif

// S03/S01: read m bits, then n bits, at every position; every width pair
ZV_HARNESS(S03_read_u)
{
#ifdef ZV_THOROUGH
    const uint64_t m = zv_split(0, 64), n = zv_split(1, 64);
#else
    const uint64_t m = PRIOR[zv_split(0, LASTPRIOR)], n = zv_split(1, 64);
#endif
    zv_shard();
    STREAM();
    zv_assume(p + m + n <= L);
    BitStreamReader reader(Span<const uint8_t>(buf, sz), static_cast<size_t>(L));
    reader.setBitPosition(p);
    uint64_t a = 0;
    if (m > 0) a = reader.readUnsignedBits64(static_cast<uint8_t>(m));
    zv_check_eq(reader.getBitPosition(), p + m, "position advances by the width");
    if (m > 0) zv_check_eq(a, zv_bits_at(buf, p, m), "read value equals the stream bits");
    const uint64_t b = reader.readUnsignedBits64(static_cast<uint8_t>(n));
    zv_check_eq(reader.getBitPosition(), p + m + n, "position advances by the width");
    zv_check_eq(b, zv_bits_at(buf, p + m, n), "read value equals the stream bits");
    zv_cover("read completes");
}

static uint64_t sext(uint64_t v, uint64_t n)
{
    if (n == 64) return v;
    return (v >> (n - 1)) & 1 ? v | (~uint64_t(0) << n) : v;
}

// the other fixed-width entry points
ZV_HARNESS(S03_read_other)
{
    const uint64_t api = zv_split(0, 3);
    const uint64_t mi = zv_split(0, LASTPRIOR), n = zv_split(1, 64);
    zv_shard();
    if (n > 32 && (api == 1 || api == 2)) return;
    if (api == 3 && n != 1) return;
    STREAM();
    const uint64_t m = PRIOR[mi];
    zv_assume(p + m + n <= L);
    BitStreamReader reader(buf, static_cast<size_t>(L), BitsTag());
    reader.setBitPosition(p);
    if (m > 0) (void)reader.readUnsignedBits64(static_cast<uint8_t>(m));
    const uint64_t raw = zv_bits_at(buf, p + m, n);
    const uint8_t w = static_cast<uint8_t>(n);
    switch (api)
    {
    case 0: zv_check_eq(static_cast<uint64_t>(reader.readSignedBits64(w)), sext(raw, n), "signed 64-bit read is the sign-extended field"); break;
    case 1: zv_check_eq(static_cast<uint64_t>(static_cast<int64_t>(reader.readSignedBits32(w))), sext(raw, n), "signed 32-bit read is the sign-extended field"); break;
    case 2: zv_check_eq(reader.readUnsignedBits32(w), raw, "unsigned 32-bit read is the field"); break;
    default: zv_check_eq(static_cast<bool>(reader.readBool()) ? 1 : 0, raw, "bool read is the bit"); break;
    }
    zv_check_eq(reader.getBitPosition(), p + m + n, "position advances by the width");
    zv_cover("read completes");
}

// S04: widths outside the limit
ZV_HARNESS(S04_read_width)
{
    const uint64_t api = zv_split(0, 3);
    const uint64_t mi = zv_split(0, LASTPRIOR);
    zv_shard();
    STREAM();
    const uint64_t m = PRIOR[mi];
    zv_assume(p + m <= L);
    BitStreamReader reader(Span<const uint8_t>(buf, sz), static_cast<size_t>(L));
    reader.setBitPosition(p);
    if (m > 0) (void)reader.readUnsignedBits64(static_cast<uint8_t>(m));
    const uint8_t w = static_cast<uint8_t>(zv_sym("width", 8));
    const uint8_t maxW = api < 2 ? 64 : 32;
    zv_assume(w == 0 || w > maxW);
    bool thrown = false;
    try
    {
        switch (api)
        {
        case 0: (void)reader.readUnsignedBits64(w); break;
        case 1: (void)reader.readSignedBits64(w); break;
        case 2: (void)reader.readUnsignedBits32(w); break;
        default: (void)reader.readSignedBits32(w); break;
        }
    }
    catch (const CppRuntimeException&)
    {
        thrown = true;
    }
    zv_check(thrown, "a read with an unsupported width throws");
    zv_check_eq(reader.getBitPosition(), p + m, "a rejected read leaves the position");
    zv_cover("rejected");
}

// S01: sequences of reads, seeks and alignments with no assumption on the remaining size
static void anyRead(BitStreamReader& reader, uint64_t L, uint64_t n)
{
    const uint64_t at = reader.getBitPosition();
    const bool fits = at + n <= L;
    bool ok = false;
    try
    {
        (void)reader.readUnsignedBits64(static_cast<uint8_t>(n));
        ok = true;
    }
    catch (const CppRuntimeException&)
    {}
    if (ok)
    {
        zv_check(fits, "a read that needs more bits than remain throws");
        zv_check_eq(reader.getBitPosition(), at + n, "position advances by the width");
        zv_cover("read completes");
    }
    else
    {
        zv_check(!fits, "a read that fits does not throw");
        zv_cover("read refused");
    }
    zv_check(reader.getBitPosition() <= L, "the position never passes the end of the stream");
}

// two reads; the first leaves the cache in any fill state
ZV_HARNESS(S01_reads)
{
    const uint64_t mi = zv_split(0, LASTPRIOR), n = zv_split(1, 64);
    zv_shard();
    STREAM();
    zv_assume(p <= L);
    BitStreamReader reader(Span<const uint8_t>(buf, sz), static_cast<size_t>(L));
    reader.setBitPosition(p);
    const uint64_t m = PRIOR[mi];
    if (m > 0) anyRead(reader, L, m);
    anyRead(reader, L, n);
}

// reads after reads which were refused or ended at the end of the stream
ZV_HARNESS(S01_reads3)
{
#ifdef ZV_THOROUGH
    const uint64_t m = zv_split(1, 64), n = zv_split(1, 64), k = zv_split(0, 3);
#else
    static const uint8_t A[3] = {1, 8, 64}, B[7] = {1, 7, 8, 9, 32, 33, 64};
    const uint64_t m = A[zv_split(0, 2)], n = B[zv_split(0, 6)], k = zv_split(0, 3);
#endif
    zv_shard();
    STREAM();
    zv_assume(p <= L);
    BitStreamReader reader(Span<const uint8_t>(buf, sz), static_cast<size_t>(L));
    reader.setBitPosition(p);
    static const uint8_t LAST[4] = {1, 7, 32, 64};
    anyRead(reader, L, m);
    anyRead(reader, L, n);
    anyRead(reader, L, LAST[k]);
}

ZV_HARNESS(S01_seek)
{
#ifdef ZV_THOROUGH
    const uint64_t mi = zv_split(0, LASTPRIOR), n = zv_split(1, 64);
#else
    static const uint8_t B[9] = {1, 2, 7, 8, 9, 32, 33, 63, 64};
    const uint64_t mi = zv_split(0, LASTPRIOR), n = B[zv_split(0, 8)];
#endif
    zv_shard();
    STREAM();
    zv_assume(p <= L);
    BitStreamReader reader(buf, static_cast<size_t>(sz));
    const uint64_t all = sz * 8;
    reader.setBitPosition(p);
    const uint64_t m = PRIOR[mi];
    if (m > 0) anyRead(reader, all, m);
    const uint64_t r2 = zv_split(0, 7);
    const uint64_t q2 = zv_sym("seek", 60);
    const uint64_t to = q2 * 8 + r2;
    const uint64_t before = reader.getBitPosition();
    bool ok = false;
    try
    {
        reader.setBitPosition(to);
        ok = true;
    }
    catch (const CppRuntimeException&)
    {}
    zv_check(ok == (to <= all), "seeking throws exactly when the target lies behind the end");
    zv_check_eq(reader.getBitPosition(), ok ? to : before, "seek sets the position");
    if (ok) anyRead(reader, all, n);
    zv_cover("done");
}

// every position modulo the alignment
ZV_HARNESS(S01_align)
{
    const uint64_t al = zv_split(0, 9);
    const uint64_t alignment = uint64_t(1) << al;
    const uint64_t mod = alignment < 8 ? 8 : alignment;
    const uint64_t r = zv_split(0, mod - 1);
#ifdef ZV_THOROUGH
    static const uint8_t A[3] = {0, 3, 64}, B[2] = {1, 33};
    const uint64_t m = A[zv_split(0, 2)], n = B[zv_split(0, 1)];
#else
    static const uint8_t A[2] = {0, 64};
    const uint64_t m = A[zv_split(0, 1)], n = 33;
#endif
    zv_shard();
    const uint64_t L = zv_sym("bits", 44), sz = zv_sym("bytes", 44), q = zv_sym("q", 40);
    zv_assume(sz * 8 >= L);
    zv_assume(sz <= (uint64_t(1) << 40));
    const uint8_t* buf = zv_buffer("buf", sz);
    zv_readonly(buf);
    const uint64_t p = q * mod + r;
    zv_assume(p <= L);
    zv_assume(p >= m);
    BitStreamReader reader(Span<const uint8_t>(buf, sz), static_cast<size_t>(L));
    reader.setBitPosition(p - m);
    if (m > 0) (void)reader.readUnsignedBits64(static_cast<uint8_t>(m));
    const uint64_t target = q * mod + (r + alignment - 1) / alignment * alignment;
    bool ok = false;
    try
    {
        reader.alignTo(alignment);
        ok = true;
    }
    catch (const CppRuntimeException&)
    {}
    zv_check(ok == (target <= L), "aligning throws exactly when the target lies behind the end");
    if (ok)
    {
        zv_check_eq(reader.getBitPosition(), target, "aligning goes to the next multiple of the alignment");
        anyRead(reader, L, n);
        zv_cover("aligned");
    }
}

// construction refuses a bit size which the buffer cannot hold
ZV_HARNESS(S01_construct)
{
    const uint64_t sz = zv_sym("bytes", 44);
    const uint64_t L = zv_sym("bits", 64);
    zv_assume(sz <= (uint64_t(1) << 40));
    const uint8_t* buf = zv_buffer("buf", sz);
    zv_readonly(buf);
    bool ok = false;
    try
    {
        BitStreamReader reader(Span<const uint8_t>(buf, sz), static_cast<size_t>(L));
        ok = true;
    }
    catch (const CppRuntimeException&)
    {}
    if (ok) { zv_check(L <= sz * 8, "a reader is never created with more bits than its buffer holds"); zv_cover("accepted"); }
    else zv_cover("refused");
}

// buffers of the largest sizes a size can tell: refused, or read and sought like any other
ZV_HARNESS(S01_limit)
{
    const uint64_t below = zv_split(0, 17);
    const bool bits = zv_split(0, 1) != 0;
    static const uint8_t N[5] = {1, 7, 33, 63, 64};
    const uint64_t n = N[zv_split(0, 4)];
    zv_shard();
    const uint64_t sz = ~uint64_t(0) / 8 + 2 - below;
    const uint8_t* buf = zv_buffer("buf", sz);
    zv_readonly(buf);
    const uint64_t all = bits ? ~uint64_t(0) / 8 * 8 - 200 : sz * 8;
    bool ok = false;
    try
    {
        BitStreamReader reader = bits ? BitStreamReader(Span<const uint8_t>(buf, sz), static_cast<size_t>(all)) : BitStreamReader(buf, static_cast<size_t>(sz));
        ok = true;
        zv_check(sz <= ~uint64_t(0) / 8, "a buffer whose bits cannot be counted is refused");
        const uint64_t back = zv_split(0, 130);
        zv_check_eq(reader.getBufferBitSize(), all, "all bits of the buffer are readable");
        reader.setBitPosition(all - back);
        anyRead(reader, all, n);
        anyRead(reader, all, 64);
        zv_cover("accepted");
    }
    catch (const CppRuntimeException&)
    {
        zv_check(!ok, "only the size of a buffer is refused");
        zv_check(below < 11, "a buffer of a size well below the limit is accepted");
        zv_cover("refused");
    }
}

// a seek near the last read position, backwards or forwards, does not change what is read
ZV_HARNESS(S03_seek_read)
{
#ifdef ZV_THOROUGH
    const uint64_t m = zv_split(1, 64), d = zv_split(0, 145), n = (zv_split(0, 1) ? 64 : 12);
#else
    static const uint8_t A[6] = {1, 8, 10, 33, 60, 64}, B[17] = {0, 1, 2, 7, 8, 9, 12, 16, 24, 33, 63, 64, 65, 72, 73, 100, 144};
    const uint64_t m = A[zv_split(0, 5)], d = B[zv_split(0, 16)], n = 12;
#endif
    const uint64_t second = zv_split(0, 1); // another read in front of the seek
    zv_shard();
    STREAM();
    const uint64_t e = p + 8;
    const uint64_t at = e + m + (second ? 10 : 0);
    const uint64_t to = at + 72 - d;
    zv_assume(at + 72 <= L || d >= 72);
    zv_assume(q >= 16);
    zv_assume(to + n <= L && at <= L);
    BitStreamReader reader(Span<const uint8_t>(buf, sz), static_cast<size_t>(L));
    reader.setBitPosition(e);
    (void)reader.readUnsignedBits64(static_cast<uint8_t>(m));
    if (second) (void)reader.readUnsignedBits32(10);
    reader.setBitPosition(to);
    zv_check_eq(reader.getBitPosition(), to, "seek sets the position");
    zv_check_eq(reader.readUnsignedBits64(static_cast<uint8_t>(n)), zv_bits_at(buf, to, n), "read value equals the stream bits");
    zv_check_eq(reader.getBitPosition(), to + n, "position advances by the width");
    zv_cover("read after seek");
}
