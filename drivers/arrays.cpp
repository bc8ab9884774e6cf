// S09 (and S11 for arrays): layout of arrays
#include "zv.h"
#include <string>
#include <string_view>
#include <vector>
#include "zserio/ArrayView.h"
#include "zserio/BitBuffer.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
#include "zserio/Bytes.h"
#include "zserio/CppRuntimeException.h"
#include "zserio/String.h"
#include "zserio/Types.h"
#include "zserio/Vector.h"
using namespace zserio;

// an object whose size depends on the position: a:3, alignment to 4 bits, b:5, offset written by initializeOffsets
struct Obj
{
    UInt3 a;
    UInt5 b;
};
static uint64_t g_initialized;
struct DynOwner
{
    uint8_t numBits;
};
enum class Color : uint8_t
{
    RED = 1,
    GREEN = 2,
    BLUE = 60
};
namespace zserio
{
template <>
class View<Obj>
{
public:
    explicit View(const Obj& data) : m_data(data) {}
    UInt3 a() const { return m_data.a; }
    UInt5 b() const { return m_data.b; }

private:
    const Obj& m_data;
};
namespace detail
{
template <>
struct ObjectTraits<Obj>
{
    static BitSize bitSizeOf(const View<Obj>& view, BitSize bitPosition)
    {
        BitSize end = bitPosition;
        end += detail::bitSizeOf(view.a(), end);
        end = alignTo(4, end);
        end += detail::bitSizeOf(view.b(), end);
        return end - bitPosition;
    }
    static BitSize initializeOffsets(const View<Obj>& view, BitSize bitPosition)
    {
        g_initialized++;
        return bitSizeOf(view, bitPosition);
    }
    static void write(BitStreamWriter& writer, const View<Obj>& view)
    {
        detail::write(writer, view.a());
        writer.alignTo(4);
        detail::write(writer, view.b());
    }
    static View<Obj> read(BitStreamReader& reader, Obj& data)
    {
        detail::read(reader, data.a);
        reader.alignTo(4);
        detail::read(reader, data.b);
        return View<Obj>(data);
    }
};
} // namespace detail
template <>
struct EnumTraits<Color>
{
    static constexpr std::array<std::string_view, 3> names = {{"RED", "GREEN", "BLUE"}};
    static constexpr std::array<Color, 3> values = {{Color::RED, Color::GREEN, Color::BLUE}};
};
namespace detail
{
template <>
inline void validate(Color, std::string_view) {}
template <>
inline BitSize bitSizeOf(Color, BitSize) { return 6; }
template <>
inline void write(BitStreamWriter& writer, Color value) { writer.writeUnsignedBits32(static_cast<uint32_t>(value), 6); }
template <>
inline void read(BitStreamReader& reader, Color& value) { value = static_cast<Color>(reader.readUnsignedBits32(6)); }
} // namespace detail
} // namespace zserio

struct DynTraits
{
    using OwnerType = DynOwner;
    static View<DynInt16> at(const DynOwner& owner, const DynInt16& element, size_t) { return View<DynInt16>(element, owner.numBits); }
    static void read(BitStreamReader& reader, const DynOwner& owner, DynInt16& element, size_t) { detail::read(reader, element, owner.numBits); }
    static uint64_t bitSizeOf() { return 11; }
};

// element kinds: a value, its bits at a position (returns the end), comparison
template <typename T, uint64_t W, bool SIGNED>
struct FixedKind
{
    using Type = T;
    static constexpr bool FIXED = true;
    static T make(const char* name)
    {
        const uint64_t v = zv_sym(name, W);
        if (SIGNED) return T(static_cast<typename T::ValueType>(static_cast<int64_t>(v << (64 - W)) >> (64 - W)));
        return T(static_cast<typename T::ValueType>(v));
    }
    static uint64_t end(const T&, uint64_t pos) { return pos + W; }
    static uint64_t bits(const uint8_t* buf, const T& v, uint64_t pos)
    {
        const uint64_t x = static_cast<uint64_t>(static_cast<typename T::ValueType>(v));
        zv_check_eq(zv_bits_at(buf, pos, W), x & (~uint64_t(0) >> (64 - W)), "the element's bits are at their position");
        return pos + W;
    }
    static void same(const T& a, const T& b) { zv_check_eq(static_cast<uint64_t>(static_cast<typename T::ValueType>(a)), static_cast<uint64_t>(static_cast<typename T::ValueType>(b)), "the element read is the element written"); }
};
struct ColorKind
{
    using Type = Color;
    static constexpr bool FIXED = true;
    static Color make(const char* name) { return static_cast<Color>(zv_sym(name, 6)); }
    static uint64_t end(const Color&, uint64_t pos) { return pos + 6; }
    static uint64_t bits(const uint8_t* buf, const Color& v, uint64_t pos)
    {
        zv_check_eq(zv_bits_at(buf, pos, 6), static_cast<uint64_t>(v), "the element's bits are at their position");
        return pos + 6;
    }
    static void same(Color a, Color b) { zv_check_eq(static_cast<uint64_t>(a), static_cast<uint64_t>(b), "the element read is the element written"); }
};
struct Var16Kind
{
    using Type = VarUInt16;
    static constexpr bool FIXED = false;
    static Type make(const char* name)
    {
        const uint64_t v = zv_sym(name, 15);
        return Type(static_cast<uint16_t>(v));
    }
    static uint64_t end(const Type& v, uint64_t pos) { return pos + (static_cast<uint16_t>(v) < 128 ? 8 : 16); }
    static uint64_t bits(const uint8_t* buf, const Type& v, uint64_t pos)
    {
        const uint64_t x = static_cast<uint16_t>(v);
        if (x < 128)
        {
            zv_check_eq(zv_bits_at(buf, pos, 8), x, "the element's bits are at their position");
            return pos + 8;
        }
        zv_check_eq(zv_bits_at(buf, pos, 8), 0x80 | ((x >> 8) & 0x7f), "the element's bits are at their position");
        zv_check_eq(zv_bits_at(buf, pos + 8, 8), x & 0xff, "the element's bits are at their position");
        return pos + 16;
    }
    static void same(const Type& a, const Type& b) { zv_check_eq(static_cast<uint16_t>(a), static_cast<uint16_t>(b), "the element read is the element written"); }
};
struct ObjKind
{
    using Type = Obj;
    static constexpr bool FIXED = false;
    static Obj make(const char* name) { const uint64_t v = zv_sym(name, 8); Obj o; o.a = UInt3(static_cast<uint8_t>(v >> 5)); o.b = UInt5(static_cast<uint8_t>(v & 31)); return o; }
    static uint64_t end(const Obj&, uint64_t pos) { return (pos + 3 + 3) / 4 * 4 + 5; }
    static uint64_t bits(const uint8_t* buf, const Obj& v, uint64_t pos)
    {
        zv_check_eq(zv_bits_at(buf, pos, 3), static_cast<uint8_t>(v.a), "the element's bits are at their position");
        const uint64_t e = end(v, pos);
        zv_check_eq(zv_bits_at(buf, e - 5, 5), static_cast<uint8_t>(v.b), "the element's bits are at their position");
        return e;
    }
    static void same(const Obj& a, const Obj& b)
    {
        zv_check_eq(static_cast<uint8_t>(a.a), static_cast<uint8_t>(b.a), "the element read is the element written");
        zv_check_eq(static_cast<uint8_t>(a.b), static_cast<uint8_t>(b.b), "the element read is the element written");
    }
};
// strings, byte arrays and bit buffers of two bytes or less
template <typename T>
struct BlobKind
{
    using Type = T;
    static constexpr bool FIXED = false;
    static T make(const char* name)
    {
        const uint64_t n = zv_split(0, 1) * 2;
        T t;
        for (uint64_t i = 0; i < n; ++i) t.push_back(static_cast<typename T::value_type>(zv_sym(name, 8)));
        return t;
    }
    static uint64_t end(const T& v, uint64_t pos) { return pos + 8 + 8 * v.size(); }
    static uint64_t bits(const uint8_t* buf, const T& v, uint64_t pos)
    {
        zv_check_eq(zv_bits_at(buf, pos, 8), v.size(), "the element's bits are at their position");
        for (uint64_t i = 0; i < v.size(); ++i)
            zv_check_eq(zv_bits_at(buf, pos + 8 + 8 * i, 8), static_cast<uint8_t>(v[i]), "the element's bits are at their position");
        return end(v, pos);
    }
    static void same(const T& a, const T& b)
    {
        zv_check_eq(a.size(), b.size(), "the element read is the element written");
        for (uint64_t i = 0; i < a.size(); ++i) zv_check_eq(static_cast<uint8_t>(a[i]), static_cast<uint8_t>(b[i]), "the element read is the element written");
    }
};
struct BitsKind
{
    using Type = BitBuffer;
    static constexpr bool FIXED = false;
    static BitBuffer make(const char* name)
    {
        const uint64_t n = zv_split(0, 1) * 11;
        const uint8_t data[2] = {static_cast<uint8_t>(zv_sym(name, 8)), static_cast<uint8_t>(zv_sym(name, 8))};
        return BitBuffer(Span<const uint8_t>(data, n == 0 ? 0 : 2), n);
    }
    static uint64_t end(const BitBuffer& v, uint64_t pos) { return pos + 8 + v.getBitSize(); }
    static uint64_t bits(const uint8_t* buf, const BitBuffer& v, uint64_t pos)
    {
        zv_check_eq(zv_bits_at(buf, pos, 8), v.getBitSize(), "the element's bits are at their position");
        if (v.getBitSize() > 0)
        {
            zv_check_eq(zv_bits_at(buf, pos + 8, 8), v.getData()[0], "the element's bits are at their position");
            zv_check_eq(zv_bits_at(buf, pos + 16, 3), v.getData()[1] >> 5, "the element's bits are at their position");
        }
        return end(v, pos);
    }
    static void same(const BitBuffer& a, const BitBuffer& b) { zv_check(a == b, "the element read is the element written"); }
};

struct Offsets
{
    uint64_t* at;
    uint64_t* count;
    void setOffset(size_t index, BitSize byteOffset) const
    {
        zv_check_eq(index, *count, "offsets are set in index order");
        zv_check(index < 4, "offsets are set for elements of the array");
        at[index] = byteOffset;
        (*count)++;
    }
};

using detail::ArrayType;
static const char* const NAMES[4] = {"e0", "e1", "e2", "e3"};

template <typename K, ArrayType AT, typename TRAITS, typename OWNER>
static void layout(uint64_t n, uint64_t r, OWNER& owner)
{
    using T = typename K::Type;
    constexpr bool aligned = AT == ArrayType::ALIGNED || AT == ArrayType::ALIGNED_AUTO;
    constexpr bool autoLen = AT == ArrayType::AUTO || AT == ArrayType::ALIGNED_AUTO;
    const uint64_t q = zv_sym("q", 28);
    const uint64_t p = 8 * q + r;
    Vector<T> values;
    values.reserve(4);
    for (uint64_t i = 0; i < n; ++i) values.push_back(K::make(NAMES[i]));
    const auto view = [&]() {
        if constexpr (std::is_same_v<OWNER, detail::DummyArrayOwner>) return ArrayView<const T, TRAITS>(values);
        else return ArrayView<const T, TRAITS>(values, owner);
    }();

    // the layout as it should be
    uint64_t at[4] = {0, 0, 0, 0};
    uint64_t end = p + (autoLen ? 8 : 0);
    for (uint64_t i = 0; i < n; ++i)
    {
        if (aligned) end = (end + 7) / 8 * 8;
        at[i] = end;
        end = K::end(values[i], end);
    }

    zv_check_eq(detail::bitSizeOf<AT>(view, static_cast<BitSize>(p)), end - p, "the size is the size of the layout");
    uint64_t offsets[4] = {0, 0, 0, 0};
    uint64_t count = 0;
    g_initialized = 0;
    const Offsets setter{offsets, &count};
    zv_check_eq((detail::initializeOffsets<AT>(view, static_cast<BitSize>(p), setter)), end - p, "offset initialisation covers the layout");
    zv_check_eq(count, aligned ? n : 0, "aligned arrays set one offset per element");
    for (uint64_t i = 0; i < count; ++i) zv_check_eq(offsets[i] * 8, at[i], "the offset is the position of the element");
    if (std::is_same_v<T, Obj>) zv_check_eq(g_initialized, n, "offsets inside of each element are initialised");

    const uint64_t spare = zv_split(0, AT == ArrayType::IMPLICIT ? 0 : 1) * 77;
    const uint64_t total = end + spare;
    const uint64_t bytes = (total + 7) / 8;
    uint8_t* buf = zv_buffer("buf", bytes);
    BitStreamWriter writer(Span<uint8_t>(buf, bytes), static_cast<size_t>(total));
    writer.setBitPosition(p);
    detail::write<AT>(writer, view);
    zv_check_eq(writer.getBitPosition(), end, "the writer stops at the end of the layout");
    if (autoLen) zv_check_eq(zv_bits_at(buf, p, 8), n, "the length precedes the elements");
    for (uint64_t i = 0; i < n; ++i) (void)K::bits(buf, values[i], at[i]);
    zv_check_untouched(buf, p, end, "the writer changes the bits of the layout only");

    zv_readonly(buf);
    BitStreamReader reader(Span<const uint8_t>(buf, bytes), static_cast<size_t>(total));
    reader.setBitPosition(p);
    Vector<T> result;
    result.reserve(4);
    if (zv_split(0, 1)) result.push_back(K::make("old"));
    if constexpr (std::is_same_v<OWNER, detail::DummyArrayOwner>) detail::readWithTraits<AT, TRAITS>(reader, result, autoLen || AT == ArrayType::IMPLICIT ? 0 : n);
    else detail::readWithTraits<AT, TRAITS>(reader, result, owner, autoLen || AT == ArrayType::IMPLICIT ? 0 : n);
    zv_check_eq(reader.getBitPosition(), end, "the reader stops at the end of the layout");
    zv_check_eq(result.size(), n, "the number of elements is the same");
    for (uint64_t i = 0; i < n; ++i) K::same(values[i], result[i]);
    zv_cover("array round trip");
}

template <typename K, typename TRAITS = ArrayTraits<typename K::Type>, typename OWNER = detail::DummyArrayOwner>
static void kinds(uint64_t type, uint64_t n, uint64_t r, OWNER&& owner = OWNER())
{
    switch (type)
    {
    case 0: layout<K, ArrayType::NORMAL, TRAITS>(n, r, owner); break;
    case 1: layout<K, ArrayType::AUTO, TRAITS>(n, r, owner); break;
    case 2: layout<K, ArrayType::ALIGNED, TRAITS>(n, r, owner); break;
    case 3: layout<K, ArrayType::ALIGNED_AUTO, TRAITS>(n, r, owner); break;
    case 4: if constexpr (K::FIXED && !std::is_same_v<K, ColorKind>) layout<K, ArrayType::IMPLICIT, TRAITS>(n, r, owner); break;
    }
}

ZV_HARNESS(S09_layout)
{
#ifdef ZV_THOROUGH
    const uint64_t n = zv_split(0, 4);
#else
    const uint64_t n = zv_split(0, 3);
#endif
    const uint64_t kind = zv_split(0, 10), type = zv_split(0, 4), r = zv_split(0, 7);
    zv_shard();
    switch (kind)
    {
    case 0: kinds<FixedKind<UInt5, 5, false>>(type, n, r); break;
    case 1: kinds<FixedKind<Int13, 13, true>>(type, n, r); break;
    case 2: kinds<FixedKind<Bool, 1, false>>(type, n, r); break;
    case 3: kinds<FixedKind<UInt64, 64, false>>(type, n, r); break;
    case 4: kinds<Var16Kind>(type, n, r); break;
    case 5: kinds<ObjKind>(type, n, r); break;
    case 6: kinds<BlobKind<String>>(type, n, r); break;
    case 7: kinds<BlobKind<Bytes>>(type, n, r); break;
    case 8: kinds<BitsKind>(type, n, r); break;
    case 9: kinds<ColorKind>(type, n, r); break;
    case 10: { DynOwner owner{11}; kinds<FixedKind<DynInt16, 11, true>, DynTraits, DynOwner&>(type, n, r, owner); break; }
    }
}

// S11: the first allocation made for an array of a length taken from the stream
static uint64_t g_limit;
struct Stop
{};
template <typename T>
struct FirstAlloc
{
    using value_type = T;
    FirstAlloc() = default;
    template <typename U>
    FirstAlloc(const FirstAlloc<U>&) {}
    T* allocate(size_t n)
    {
        zv_cover("allocation");
        zv_check(n <= (uint64_t(1) << 48), "the allocation does not exceed the preallocation limit of the reader");
        zv_check(n * sizeof(T) <= g_limit || n <= 1, "the allocation does not exceed the preallocation limit of the reader");
        throw Stop();
    }
    void deallocate(T*, size_t) {}
    friend bool operator==(const FirstAlloc&, const FirstAlloc&) { return true; }
    friend bool operator!=(const FirstAlloc&, const FirstAlloc&) { return false; }
};

template <typename T, ArrayType AT>
static void firstAllocation(BitStreamReader& reader, bool packed)
{
    Vector<T, FirstAlloc<T>> v;
    try
    {
        if (packed)
        {
            if constexpr (AT != ArrayType::IMPLICIT) detail::readPacked<AT>(reader, v);
        }
        else
        {
            if constexpr (AT != ArrayType::IMPLICIT || std::is_base_of_v<detail::NumericArrayTraits<T>, ArrayTraits<T>>) detail::read<AT>(reader, v);
        }
    }
    catch (const Stop&) {}
    catch (const CppRuntimeException&) { zv_cover("refused"); }
}
template <typename T>
static void firstAllocation(BitStreamReader& reader, uint64_t type, bool packed)
{
    if (type == 0) firstAllocation<T, ArrayType::AUTO>(reader, packed);
    else if (type == 1) firstAllocation<T, ArrayType::ALIGNED_AUTO>(reader, packed);
    else firstAllocation<T, ArrayType::IMPLICIT>(reader, packed);
}

ZV_HARNESS(S11_arrays)
{
    const uint64_t kind = zv_split(0, 5), type = zv_split(0, 2), packed = zv_split(0, 1);
#ifdef ZV_THOROUGH
    const uint64_t r = zv_split(0, 7);
#else
    const uint64_t r = 5 * zv_split(0, 1);
#endif
    zv_shard();
    const uint64_t q = zv_sym("q", 40), L = zv_sym("bits", 44), sz = zv_sym("bytes", 44);
    zv_assume(sz * 8 >= L);
    zv_assume(sz <= (uint64_t(1) << 40));
    uint8_t* buf = zv_buffer("buf", sz);
    zv_readonly(buf);
    const uint64_t p = q * 8 + r;
    zv_assume(p <= L);
    if (type == 2 && kind == 0) zv_assume(L - p >= 8);
    g_limit = zv_sym("limit", 40);
    BitStreamReader reader(Span<const uint8_t>(buf, sz), static_cast<size_t>(L), ArrayPreallocation(static_cast<size_t>(g_limit)));
    reader.setBitPosition(p);
    switch (kind)
    {
    case 0: firstAllocation<UInt8>(reader, type, packed); break;
    case 1: firstAllocation<UInt64>(reader, type, packed); break;
    case 2: firstAllocation<VarUInt>(reader, type, packed); break;
    case 3: firstAllocation<String>(reader, type, packed); break;
    case 4: firstAllocation<Bytes>(reader, type, packed); break;
    case 5: firstAllocation<Obj>(reader, type, packed); break;
    }
}
