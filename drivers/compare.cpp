// C07: comparison operators and hash codes
#include "zv.h"
#include <vector>
#include "zserio/ArrayView.h"
#include "zserio/Bitmasks.h"
#include "zserio/Bytes.h"
#include "zserio/Enums.h"
#include "zserio/Extended.h"
#include "zserio/HashCodeUtil.h"
#include "zserio/Optional.h"
#include "zserio/Types.h"
#include "zserio/Variant.h"
#include "zserio/View.h"
using namespace zserio;

#ifdef ZV_THOROUGH
#define MAXLEN 4
#else
#define MAXLEN 3
#endif

static bool g_same; // both values are built from the same arbitrary content
static uint64_t other(const char* name, uint64_t bits, uint64_t x) { return g_same ? x : zv_sym(name, bits); }

template <typename A, typename B>
static void ops(const A& a, const B& b, int o)
{
    zv_check_eq(a == b, o == 0, "operator ==");
    zv_check_eq(a != b, o != 0, "operator !=");
    zv_check_eq(a < b, o < 0, "operator <");
    zv_check_eq(a > b, o > 0, "operator >");
    zv_check_eq(a <= b, o <= 0, "operator <=");
    zv_check_eq(a >= b, o >= 0, "operator >=");
}

template <typename A, typename B>
static void ordered(const A& a, const B& b, int o)
{
    ops(a, b, o);
    ops(b, a, -o);
}

template <typename A>
static void hashed(const A& a, const A& b, int o)
{
    if (o == 0 && g_same)
    {
        zv_check_eq(calcHashCode(HASH_SEED, a), calcHashCode(HASH_SEED, b), "equal values have equal hash codes");
        zv_cover("equal");
    }
    else if (o != 0)
    {
        zv_cover("different");
    }
}

template <typename A>
static void stdHashed(const A& a, const A& b, int o)
{
    if (o == 0 && g_same) zv_check_eq(std::hash<A>()(a), std::hash<A>()(b), "equal values have equal hash codes");
}

template <typename T>
static int order(T a, T b)
{
    if (a < b) return -1;
    if (b < a) return 1;
    return 0;
}

template <typename W>
static void wrapper(uint64_t x, uint64_t y)
{
    using V = typename W::ValueType;
    const V a = static_cast<V>(x), b = static_cast<V>(y);
    const int o = order(a, b);
    ordered(W(a), W(b), o);
    hashed(W(a), W(b), o);
}

enum class Color : uint8_t { RED = 1, GREEN = 7, BLUE = 200 };

class Mask
{
public:
    using ZserioType = UInt16;
    constexpr explicit Mask(ZserioType value) noexcept : m_value(value) {}
    constexpr ZserioType getValue() const { return m_value; }
private:
    ZserioType m_value;
};
namespace std
{
template <>
struct hash<Mask>
{
    size_t operator()(const Mask& m) const { return zserio::calcHashCode(zserio::HASH_SEED, static_cast<uint16_t>(m.getValue())); }
};
} // namespace std

ZV_HARNESS(C07_numbers)
{
    const uint64_t t = zv_split(0, 13);
    g_same = zv_split(0, 1);
    zv_shard();
    const uint64_t x = zv_sym("x", 64), y = other("y", 64, x);
    if (t == 0) wrapper<Bool>(x & 1, y & 1);
    else if (t == 1) wrapper<UInt7>(x, y);
    else if (t == 2) wrapper<UInt8>(x, y);
    else if (t == 3) wrapper<Int8>(x, y);
    else if (t == 4) wrapper<Int16>(x, y);
    else if (t == 5) wrapper<Int32>(x, y);
    else if (t == 6) wrapper<UInt32>(x, y);
    else if (t == 7) wrapper<Int64>(x, y);
    else if (t == 8) wrapper<UInt64>(x, y);
    else if (t == 9) wrapper<VarInt>(x, y);
    else if (t == 10) wrapper<VarUInt32>(x, y);
    else if (t == 11) wrapper<VarSize>(x, y);
    else if (t == 12) wrapper<DynInt16>(x, y);
    else wrapper<DynUInt64>(x, y);
}

ZV_HARNESS(C07_dynview)
{
    g_same = zv_split(0, 1);
    const uint64_t t = zv_split(0, 1);
    const uint8_t n = static_cast<uint8_t>(zv_sym("n", 8)), m = static_cast<uint8_t>(other("m", 8, n));
    if (t)
    {
        const int64_t x = static_cast<int64_t>(zv_sym("x", 64)), y = static_cast<int64_t>(other("y", 64, x));
        const View<DynInt64> a(x, n), b(y, m);
        const int o = n == m ? order(x, y) : order(n, m);
        ordered(a, b, o);
        stdHashed(a, b, o);
        if (g_same) { zv_check_eq(o, 0, "same"); zv_cover("equal"); }
    }
    else
    {
        const uint32_t x = static_cast<uint32_t>(zv_sym("x", 32)), y = static_cast<uint32_t>(other("y", 32, x));
        const View<DynUInt32> a(x, n), b(y, m);
        const int o = n == m ? order(x, y) : order(n, m);
        ordered(a, b, o);
        stdHashed(a, b, o);
        if (g_same) { zv_check_eq(o, 0, "same"); zv_cover("equal"); }
    }
}

// larger than what an optional keeps in place
struct Big
{
    uint64_t a, b, c, d;
};
static int order(const Big& x, const Big& y)
{
    if (x.a != y.a) return x.a < y.a ? -1 : 1;
    return order(x.d, y.d);
}
static bool operator==(const Big& x, const Big& y) { return order(x, y) == 0; }
static bool operator<(const Big& x, const Big& y) { return order(x, y) < 0; }
static bool operator>(const Big& x, const Big& y) { return order(x, y) > 0; }
namespace std
{
template <>
struct hash<Big>
{
    size_t operator()(const Big& b) const { return zserio::calcHashCode(zserio::calcHashCode(zserio::HASH_SEED, b.a), b.d); }
};
} // namespace std

template <typename T>
static void optionals(const T& x, const T& y)
{
    const uint64_t ha = zv_split(0, 2), hb = zv_split(0, 2);
    Optional<T> a, b;
    if (ha != 0) a.emplace(x);
    if (ha == 2) a.reset();
    if (hb != 0) b.emplace(y);
    if (hb == 2) { Optional<T> sink(std::move(b)); b.reset(); }
    const bool pa = ha == 1, pb = hb == 1;
    const int o = pa && pb ? order(x, y) : pa == pb ? 0 : pa ? 1 : -1;
    ordered(a, b, o);
    hashed(a, b, o);
    stdHashed(a, b, o);
    ordered(a, std::nullopt, pa ? 1 : 0);
    const int ov = pa ? order(x, y) : -1;
    ops(a, y, ov);
    ops(y, a, -ov);
}

ZV_HARNESS(C07_optional)
{
    const uint64_t t = zv_split(0, 1);
    g_same = zv_split(0, 1);
    const uint64_t x = zv_sym("x", 32), y = other("y", 32, x), xa = zv_sym("xa", 64), ya = other("ya", 64, xa);
    if (t) optionals<Big>(Big{xa, 0, 0, x}, Big{ya, 1, 1, y});
    else optionals<uint32_t>(static_cast<uint32_t>(x), static_cast<uint32_t>(y));
}

ZV_HARNESS(C07_extended)
{
    g_same = zv_split(0, 1);
    const uint64_t ha = zv_split(0, 1), hb = zv_split(0, 1);
    const uint32_t x = static_cast<uint32_t>(zv_sym("x", 32)), y = static_cast<uint32_t>(other("y", 32, x));
    Extended<UInt32> a{UInt32(x)}, b{UInt32(y)};
    a.setPresent(ha);
    b.setPresent(hb);
    const int o = ha && hb ? order(x, y) : ha == hb ? 0 : ha ? 1 : -1;
    ordered(a, b, o);
    hashed(a, b, o);
    stdHashed(a, b, o);
}

enum class Idx : size_t { A, B, C };
ZV_HARNESS(C07_variant)
{
    using V = Variant<Idx, UInt32, Int16, UInt32>;
    g_same = zv_split(0, 1);
    const uint64_t ia = zv_split(0, 3), ib = zv_split(0, 3);
    const uint32_t x = static_cast<uint32_t>(zv_sym("x", 32)), y = static_cast<uint32_t>(other("y", 32, x));
    V a, b;
    const auto fill = [](V& v, uint64_t i, uint32_t n) {
        if (i == 0) v.emplace<Idx::A>(n);
        else if (i == 1) v.emplace<Idx::B>(static_cast<int16_t>(n));
        else if (i == 2) v.emplace<Idx::C>(n);
        else { V sink(std::move(v)); } // without a value
    };
    fill(a, ia, x);
    fill(b, ib, y);
    int o = 0;
    if (ia != ib) o = ia < ib ? -1 : 1;
    else if (ia == 1) o = order(static_cast<int16_t>(x), static_cast<int16_t>(y));
    else if (ia != 3) o = order(x, y);
    if (ia != ib && (ia == 3 || ib == 3))
    {
        // which end the variants without a value take is not stated
        const bool less = a < b;
        o = less ? -1 : 1;
    }
    ordered(a, b, o);
    if (ia != 3 && ib != 3)
    {
        hashed(a, b, o);
        stdHashed(a, b, o);
    }
}

template <typename T>
static int orderArrays(const std::vector<T>& a, const std::vector<T>& b)
{
    for (size_t i = 0; i < a.size() && i < b.size(); ++i)
    {
        const int o = order(a[i], b[i]);
        if (o != 0) return o;
    }
    return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1;
}

ZV_HARNESS(C07_arrays)
{
    g_same = zv_split(0, 1);
    const uint64_t t = zv_split(0, 3), n = zv_split(0, MAXLEN), m = g_same ? n : zv_split(0, MAXLEN);
    zv_shard();
    if (t == 0)
    {
        uint8_t* d = zv_buffer("a", n);
        uint8_t* e = g_same ? d : zv_buffer("b", m);
        const std::vector<uint8_t> x(d, d + n), y(e, e + m);
        const int o = orderArrays(x, y);
        const BytesView a(x), b(y);
        ordered(a, b, o);
        hashed(a, b, o);
    }
    else if (t == 1)
    {
        uint8_t* d = zv_buffer("a", 2 * n);
        uint8_t* e = g_same ? d : zv_buffer("b", 2 * m);
        Vector<Int16> x, y;
        std::vector<int16_t> p, q;
        for (uint64_t i = 0; i < n; ++i) { const int16_t v = static_cast<int16_t>(zv_bits_at(d, 16 * i, 16)); x.push_back(v); p.push_back(v); }
        for (uint64_t i = 0; i < m; ++i) { const int16_t v = static_cast<int16_t>(zv_bits_at(e, 16 * i, 16)); y.push_back(v); q.push_back(v); }
        const int o = orderArrays(p, q);
        const ArrayView<const Int16> a(x), b(y);
        ordered(a, b, o);
        hashed(x, y, o);
    }
    else if (t == 2)
    {
        uint8_t* d = zv_buffer("a", n);
        uint8_t* e = g_same ? d : zv_buffer("b", m);
        const std::string_view a(reinterpret_cast<const char*>(d), n), b(reinterpret_cast<const char*>(e), m);
        hashed(a, b, g_same ? 0 : 1);
        if (g_same) zv_check_eq(calcHashCode(HASH_SEED, String(a)), calcHashCode(HASH_SEED, b), "a string and a view of it have equal hash codes");
    }
    else
    {
        const uint64_t x = zv_sym("x", 64), y = other("y", 64, x);
        const Color c = static_cast<Color>(x & 0xff), f = static_cast<Color>(y & 0xff);
        hashed(c, f, order(x & 0xff, y & 0xff));
        const Mask a(static_cast<uint16_t>(x)), b(static_cast<uint16_t>(y));
        hashed(a, b, order(x & 0xffff, y & 0xffff));
    }
}

// floating point hash codes depend on the value only
ZV_HARNESS(C07_floats)
{
    const uint64_t t = zv_split(0, 2);
    if (t == 0)
    {
        const uint32_t u = static_cast<uint32_t>(zv_sym("x", 32));
        float f;
        __builtin_memcpy(&f, &u, 4);
        zv_check_eq(calcHashCode(HASH_SEED, Float32(f)), calcHashCode(HASH_SEED, f), "equal values have equal hash codes");
        zv_check_eq(calcHashCode(HASH_SEED, Float16(f)), calcHashCode(HASH_SEED, f), "equal values have equal hash codes");
    }
    else if (t == 1)
    {
        const uint64_t x = zv_sym("x", 64);
        double d;
        __builtin_memcpy(&d, &x, 8);
        zv_check_eq(calcHashCode(HASH_SEED, Float64(d)), calcHashCode(HASH_SEED, d), "equal values have equal hash codes");
    }
    else
    {
        zv_check_eq(calcHashCode(HASH_SEED, 0.0F), calcHashCode(HASH_SEED, -0.0F), "equal values have equal hash codes: zero and negative zero");
        zv_check_eq(calcHashCode(HASH_SEED, 0.0), calcHashCode(HASH_SEED, -0.0), "equal values have equal hash codes: zero and negative zero");
    }
}
