#include "zv.h"
#include <utility>
#include "zserio/CppRuntimeException.h"
#include "zserio/OutOfRangeException.h"
#include "zserio/Types.h"
using namespace zserio;

static uint64_t mask(uint64_t n) { return n >= 64 ? ~uint64_t(0) : (uint64_t(1) << n) - 1; }

// range of a schema type as two's complement patterns
struct Range { bool isSigned; uint64_t maxMag; uint64_t minMag; };   // signed: [-minMag, maxMag], unsigned: [0, maxMag]

template <typename T>
static bool inRange(typename T::ValueType v, Range r)
{
    if (!r.isSigned) return static_cast<uint64_t>(v) <= r.maxMag;
    const int64_t s = static_cast<int64_t>(v);
    return s <= static_cast<int64_t>(r.maxMag) && s >= static_cast<int64_t>(uint64_t(0) - r.minMag);
}

template <typename T>
static void checkType(Range r)
{
    using V = typename T::ValueType;
    const V v = static_cast<V>(zv_sym("value", sizeof(V) * 8));
    const bool good = inRange<T>(v, r);
    zv_check(std::is_signed_v<V> == r.isSigned, "signedness of the type");
    zv_check(static_cast<V>(NumericLimits<T>::max()) == static_cast<V>(r.maxMag), "highest value of the type");
    zv_check(static_cast<V>(NumericLimits<T>::min()) == static_cast<V>(r.isSigned ? uint64_t(0) - r.minMag : 0), "lowest value of the type");
    bool from = false, to = false, val = false;
    try
    {
        const T t = fromCheckedValue<T>(v);
        from = true;
        zv_check_eq(static_cast<uint64_t>(static_cast<V>(t)), static_cast<uint64_t>(v), "the wrapper holds exactly the value");
    }
    catch (const OutOfRangeException&) {}
    zv_check(from == good, "construction from a value succeeds exactly for values of the type");
    try
    {
        const V x = toCheckedValue(T(v));
        to = true;
        zv_check_eq(static_cast<uint64_t>(x), static_cast<uint64_t>(v), "conversion keeps the value");
    }
    catch (const OutOfRangeException&) {}
    zv_check(to == good, "conversion to a value succeeds exactly for values of the type");
    try { detail::validate(T(v), "field"); val = true; } catch (const OutOfRangeException&) {}
    zv_check(val == good, "validation succeeds exactly for values of the type");
    if (good) zv_cover("accepted"); else zv_cover("refused");
}

template <size_t N>
static void fixedOne(bool sign)
{
    if (sign)
    {
        checkType<Int<N>>(Range{true, mask(N - 1), uint64_t(1) << (N - 1)});
        zv_check_eq(detail::bitSizeOf(Int<N>(0), 5), N, "bit size of the type");
        zv_check_eq(detail::initializeOffsets(Int<N>(0), 5), N, "bit size of the type");
    }
    else
    {
        checkType<UInt<N>>(Range{false, mask(N), 0});
        zv_check_eq(detail::bitSizeOf(UInt<N>(0), 5), N, "bit size of the type");
        zv_check_eq(detail::initializeOffsets(UInt<N>(0), 5), N, "bit size of the type");
    }
}
template <size_t... I>
static void fixedAll(uint64_t n, bool sign, std::index_sequence<I...>)
{
    ((n == I + 1 ? fixedOne<I + 1>(sign) : void()), ...);
}
ZV_HARNESS(S06_fixed)
{
    const uint64_t n = zv_split(1, 64), sign = zv_split(0, 1);
    zv_shard();
    fixedAll(n, sign == 1, std::make_index_sequence<64>());
}

ZV_HARNESS(S06_var)
{
    const uint64_t t = zv_split(0, 8);
    zv_shard();
    switch (t)
    {
    case 0: checkType<VarInt16>(Range{true, mask(14), mask(14)}); break;
    case 1: checkType<VarInt32>(Range{true, mask(28), mask(28)}); break;
    case 2: checkType<VarInt64>(Range{true, mask(56), mask(56)}); break;
    case 3: checkType<VarInt>(Range{true, mask(63), uint64_t(1) << 63}); break;
    case 4: checkType<VarUInt16>(Range{false, mask(15), 0}); break;
    case 5: checkType<VarUInt32>(Range{false, mask(29), 0}); break;
    case 6: checkType<VarUInt64>(Range{false, mask(57), 0}); break;
    case 7: checkType<VarUInt>(Range{false, mask(64), 0}); break;
    default: checkType<VarSize>(Range{false, mask(31), 0}); break;
    }
}

template <typename T>
static void dynOne(uint64_t n)
{
    using V = typename T::ValueType;
    const V v = static_cast<V>(zv_sym("value", sizeof(V) * 8));
    const bool width = n >= 1 && n <= sizeof(V) * 8;
    const BitSize bits = n;
    bool good = false;
    if (width)
    {
        const Range r = std::is_signed_v<V> ? Range{true, mask(n - 1), uint64_t(1) << (n - 1)} : Range{false, mask(n), 0};
        good = inRange<T>(v, r);
        zv_check(static_cast<V>(NumericLimits<T>::max(bits)) == static_cast<V>(r.maxMag), "highest value of the type");
        zv_check(static_cast<V>(NumericLimits<T>::min(bits)) == static_cast<V>(r.isSigned ? uint64_t(0) - r.minMag : 0), "lowest value of the type");
    }
    else
    {
        bool refused = false;
        try { (void)NumericLimits<T>::max(bits); } catch (const OutOfRangeException&) { refused = true; }
        zv_check(refused, "limits of a width the type does not have are refused");
    }
    bool from = false, to = false, val = false;
    try
    {
        const T t = fromCheckedValue<T>(v, bits);
        from = true;
        zv_check_eq(static_cast<uint64_t>(static_cast<V>(t)), static_cast<uint64_t>(v), "the wrapper holds exactly the value");
    }
    catch (const OutOfRangeException&) {}
    zv_check(from == good, "construction from a value succeeds exactly for values of the type");
    try
    {
        const V x = toCheckedValue(T(v), bits);
        to = true;
        zv_check_eq(static_cast<uint64_t>(x), static_cast<uint64_t>(v), "conversion keeps the value");
    }
    catch (const OutOfRangeException&) {}
    zv_check(to == good, "conversion to a value succeeds exactly for values of the type");
    try { detail::validate(T(v), bits, "field"); val = true; } catch (const OutOfRangeException&) {}
    zv_check(val == good, "validation succeeds exactly for values of the type");
    if (good) zv_cover("accepted"); else zv_cover("refused");
}
ZV_HARNESS(S06_dyn)
{
    const uint64_t t = zv_split(0, 7), w = zv_split(0, 70);
    zv_shard();
    const uint64_t n = w <= 66 ? w : w == 67 ? 128 : w == 68 ? 255 : w == 69 ? 72 : 127;
    switch (t)
    {
    case 0: dynOne<DynInt8>(n); break;
    case 1: dynOne<DynInt16>(n); break;
    case 2: dynOne<DynInt32>(n); break;
    case 3: dynOne<DynInt64>(n); break;
    case 4: dynOne<DynUInt8>(n); break;
    case 5: dynOne<DynUInt16>(n); break;
    case 6: dynOne<DynUInt32>(n); break;
    default: dynOne<DynUInt64>(n); break;
    }
}

// the operators of the wrappers are those of the underlying type
template <typename T>
static void opsOne()
{
    using V = typename T::ValueType;
    const V a = static_cast<V>(zv_sym("a", sizeof(V) * 8)), b = static_cast<V>(zv_sym("b", sizeof(V) * 8));
    const T x(a), y(b);
    zv_check((x == y) == (a == b), "equality is equality of the values");
    zv_check((x != y) == (a != b), "inequality is inequality of the values");
    zv_check((x < y) == (a < b), "order is the order of the values");
    zv_check((x > y) == (a > b), "order is the order of the values");
    zv_check((x <= y) == (a <= b), "order is the order of the values");
    zv_check((x >= y) == (a >= b), "order is the order of the values");
    T c(a);
    c += b; zv_check(static_cast<V>(c) == static_cast<V>(a + b), "sum");
    c = a; c -= b; zv_check(static_cast<V>(c) == static_cast<V>(a - b), "difference");
    c = a; c &= b; zv_check(static_cast<V>(c) == static_cast<V>(a & b), "and");
    c = a; c |= b; zv_check(static_cast<V>(c) == static_cast<V>(a | b), "or");
    c = a; c ^= b; zv_check(static_cast<V>(c) == static_cast<V>(a ^ b), "xor");
    c = a; ++c; zv_check(static_cast<V>(c) == static_cast<V>(a + 1), "increment");
    c = a; --c; zv_check(static_cast<V>(c) == static_cast<V>(a - 1), "decrement");
    c = a; const auto o = c++; zv_check(static_cast<V>(c) == static_cast<V>(a + 1) && static_cast<V>(o) == a, "post increment");
    c = a; const auto d = c--; zv_check(static_cast<V>(c) == static_cast<V>(a - 1) && static_cast<V>(d) == a, "post decrement");
    zv_cover("operators");
}
ZV_HARNESS(S06_ops)
{
    const uint64_t t = zv_split(0, 5);
    zv_shard();
    switch (t)
    {
    case 0: opsOne<UInt8>(); break;
    case 1: opsOne<UInt32>(); break;
    case 2: opsOne<UInt64>(); break;
    case 3: opsOne<DynUInt16>(); break;
    case 4: opsOne<VarSize>(); break;
    default: opsOne<VarUInt>(); break;
    }
}
