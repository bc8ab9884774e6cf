// S10: delta packing
#include "zv.h"
#include <vector>
#include "zserio/ArrayView.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/CppRuntimeException.h"
#include "zserio/DeltaContext.h"
#include "zserio/Types.h"
#include "zserio/Vector.h"
using namespace zserio;
using detail::ArrayType;

struct DynOwner
{
    uint8_t numBits;
};
struct DynTraits
{
    using OwnerType = DynOwner;
    static View<DynInt16> at(const DynOwner& owner, const DynInt16& element, size_t) { return View<DynInt16>(element, owner.numBits); }
    static void read(BitStreamReader& reader, const DynOwner& owner, DynInt16& element, size_t) { detail::read(reader, element, owner.numBits); }
    static void read(detail::DeltaContext& context, BitStreamReader& reader, const DynOwner& owner, DynInt16& element, size_t)
    {
        detail::read(context, reader, element, owner.numBits);
    }
};

// element kinds: W is the number of bits of the value
template <typename T, uint64_t W, bool SIGNED>
struct Fixed
{
    using Type = T;
    static uint64_t sym(const char* name)
    {
        if (!SIGNED) return zv_sym(name, W);
        const uint64_t magnitude = zv_sym(name, W - 1);
        return zv_split(0, 1) ? magnitude : magnitude | (~uint64_t(0) << (W - 1));
    }
    static constexpr bool isSigned = SIGNED;
    static uint64_t size(uint64_t) { return W; }
    static void bits(const uint8_t* buf, uint64_t v, uint64_t pos)
    {
        zv_check_eq(zv_bits_at(buf, pos, W), v & (~uint64_t(0) >> (64 - W)), "an element which is not packed has its usual bits");
    }
};
struct Var16
{
    using Type = VarUInt16;
    static uint64_t sym(const char* name) { return zv_sym(name, 15); }
    static constexpr bool isSigned = false;
    static uint64_t size(uint64_t v) { return v < 128 ? 8 : 16; }
    static void bits(const uint8_t* buf, uint64_t v, uint64_t pos)
    {
        if (v < 128) zv_check_eq(zv_bits_at(buf, pos, 8), v, "an element which is not packed has its usual bits");
        else
        {
            zv_check_eq(zv_bits_at(buf, pos, 8), 0x80 | ((v >> 8) & 0x7f), "an element which is not packed has its usual bits");
            zv_check_eq(zv_bits_at(buf, pos + 8, 8), v & 0xff, "an element which is not packed has its usual bits");
        }
    }
};

static bool less(bool isSigned, uint64_t a, uint64_t b) { return isSigned ? static_cast<int64_t>(a) < static_cast<int64_t>(b) : a < b; }

// trace partitioning: sign and bit length of the difference of two elements
static uint64_t partition(bool isSigned, uint64_t prev, uint64_t next, uint64_t length)
{
    uint64_t d = 0;
    if (length == 0)
    {
        zv_assume(prev == next);
        return 0;
    }
    if (zv_split(0, 1))
    {
        zv_assume(less(isSigned, prev, next));
        d = next - prev;
    }
    else
    {
        zv_assume(less(isSigned, next, prev));
        d = prev - next;
    }
    zv_assume(d >= (uint64_t(1) << (length - 1)));
    if (length < 64) zv_assume(d < (uint64_t(1) << length));
    return length;
}

static const char* const NAMES[4] = {"e0", "e1", "e2", "e3"};

template <typename K, ArrayType AT, typename TRAITS, typename OWNER>
static void packed(uint64_t n, uint64_t r, const uint64_t* lengths, OWNER& owner)
{
    using T = typename K::Type;
    constexpr bool aligned = AT == ArrayType::ALIGNED || AT == ArrayType::ALIGNED_AUTO;
    constexpr bool autoLen = AT == ArrayType::AUTO || AT == ArrayType::ALIGNED_AUTO;
    const uint64_t q = zv_sym("q", 28);
    const uint64_t p = 8 * q + r;
    uint64_t v[4];
    Vector<T> values;
    values.reserve(4);
    uint64_t maxBits = 0, unpacked = 0;
    for (uint64_t i = 0; i < n; ++i)
    {
        v[i] = i > 0 && lengths[i] == 0 ? v[i - 1] : K::sym(NAMES[i]);
        if (i > 0 && lengths[i] > 0) partition(K::isSigned, v[i - 1], v[i], lengths[i]);
        if (i > 0 && lengths[i] > maxBits) maxBits = lengths[i];
        values.push_back(T(static_cast<typename T::ValueType>(v[i])));
        unpacked += K::size(v[i]);
    }
    const uint64_t delta = maxBits > 0 ? maxBits + 1 : 0;
    const bool isPacked = n > 1 && maxBits <= 62 && 1 + 6 + K::size(v[0]) + (n - 1) * delta < 1 + unpacked;

    // the layout as it should be
    uint64_t at[4] = {0, 0, 0, 0};
    uint64_t end = p + (autoLen ? 8 : 0);
    for (uint64_t i = 0; i < n; ++i)
    {
        if (aligned) end = (end + 7) / 8 * 8;
        at[i] = end;
        if (i == 0) end += isPacked ? 7 : 1;
        end += i == 0 || !isPacked ? K::size(v[i]) : delta;
    }

    const auto view = [&]() {
        if constexpr (std::is_same_v<OWNER, detail::DummyArrayOwner>) return ArrayView<const T, TRAITS>(values);
        else return ArrayView<const T, TRAITS>(values, owner);
    }();
    zv_check_eq(detail::bitSizeOfPacked<AT>(view, static_cast<BitSize>(p)), end - p, "the packed size is the size of the layout");
    zv_check_eq(detail::initializeOffsetsPacked<AT>(view, static_cast<BitSize>(p)), end - p, "offset initialisation covers the packed layout");

    const uint64_t bytes = (end + 7) / 8;
    uint8_t* buf = zv_buffer("buf", bytes);
    BitStreamWriter writer(Span<uint8_t>(buf, bytes), static_cast<size_t>(end));
    writer.setBitPosition(p);
    detail::writePacked<AT>(writer, view);
    zv_check_eq(writer.getBitPosition(), end, "the writer stops at the end of the packed layout");
    if (autoLen) zv_check_eq(zv_bits_at(buf, p, 8), n, "the length precedes the elements");
    for (uint64_t i = 0; i < n; ++i)
    {
        uint64_t pos = at[i];
        if (i == 0)
        {
            zv_check_eq(zv_bits_at(buf, pos, 1), isPacked, "the descriptor announces packing exactly when it is smaller");
            pos++;
            if (isPacked)
            {
                zv_check_eq(zv_bits_at(buf, pos, 6), maxBits, "the descriptor announces the width of the largest difference");
                pos += 6;
            }
        }
        if (i == 0 || !isPacked) K::bits(buf, v[i], pos);
        else if (delta > 0) zv_check_eq(zv_bits_at(buf, pos, delta), (v[i] - v[i - 1]) & (~uint64_t(0) >> (64 - delta)), "a packed element is the difference to the one before");
    }

    zv_readonly(buf);
    BitStreamReader reader(Span<const uint8_t>(buf, bytes), static_cast<size_t>(end));
    reader.setBitPosition(p);
    Vector<T> result;
    result.reserve(4);
    detail::readPackedWithTraits<AT, TRAITS>(reader, result, owner, autoLen ? 0 : n);
    zv_check_eq(reader.getBitPosition(), end, "the reader stops at the end of the packed layout");
    zv_check_eq(result.size(), n, "the number of elements is the same");
    for (uint64_t i = 0; i < n; ++i)
        zv_check_eq(static_cast<uint64_t>(static_cast<typename T::ValueType>(result[i])), static_cast<uint64_t>(static_cast<typename T::ValueType>(v[i])), "the element read is the element written");
    if (isPacked) zv_cover("packed");
    else zv_cover("not packed");
}

template <typename K, typename TRAITS = ArrayTraits<typename K::Type>, typename OWNER = detail::DummyArrayOwner>
static void kinds(uint64_t type, uint64_t n, uint64_t r, const uint64_t* lengths, OWNER&& owner = OWNER())
{
    if (type == 0) packed<K, ArrayType::NORMAL, TRAITS>(n, r, lengths, owner);
    else packed<K, ArrayType::ALIGNED_AUTO, TRAITS>(n, r, lengths, owner);
}

// narrow elements: every combination of differences of up to three elements
ZV_HARNESS(S10_narrow)
{
    const uint64_t kind = zv_split(0, 4), n = zv_split(0, 3), type = zv_split(0, 1);
    static const uint64_t widths[5] = {7, 7, 1, 15, 11};
    uint64_t lengths[4] = {0, 0, 0, 0};
    for (uint64_t i = 1; i < n; ++i) lengths[i] = zv_split(0, widths[kind]);
    zv_shard();
    const uint64_t r = 3;
    switch (kind)
    {
    case 0: kinds<Fixed<UInt7, 7, false>>(type, n, r, lengths); break;
    case 1: kinds<Fixed<Int7, 7, true>>(type, n, r, lengths); break;
    case 2: kinds<Fixed<Bool, 1, false>>(type, n, r, lengths); break;
    case 3: kinds<Var16>(type, n, r, lengths); break;
    case 4: { DynOwner owner{11}; kinds<Fixed<DynInt16, 11, true>, DynTraits, DynOwner&>(type, n, r, lengths, owner); break; }
    }
}

ZV_HARNESS(S10_wide)
{
    const uint64_t kind = zv_split(0, 1);
    uint64_t lengths[4] = {0, 0, 0, 0};
    lengths[1] = zv_split(0, 64);
    static const uint64_t SECOND[7] = {0, 1, 30, 31, 62, 63, 64};
    const uint64_t n = zv_split(2, 3);
    if (n == 3) lengths[2] = SECOND[zv_split(0, 6)];
    zv_shard();
    if (kind == 0) kinds<Fixed<UInt64, 64, false>>(0, n, 0, lengths);
    else kinds<Fixed<Int64, 64, true>>(0, n, 0, lengths);
}
