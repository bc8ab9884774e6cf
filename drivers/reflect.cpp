// T04: reflection and introspection of values, arrays and paths
#include "zv.h"
#include <array>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include <sys/single_threaded.h>
#include "zserio/ArrayView.h"
#include "zserio/Bitmasks.h"
#include "zserio/Enums.h"
#include "zserio/IntrospectableView.h"
#include "zserio/ReflectableData.h"
#include "zserio/ReflectableUtil.h"
#include "zserio/TypeInfo.h"
#include "zserio/View.h"

namespace
{

using A = std::allocator<uint8_t>;
using Any = zserio::BasicAny<A>;
using TI = zserio::IBasicTypeInfo<A>;
using FI = zserio::BasicFieldInfo<A>;
using Data = zserio::IBasicReflectableData<A>;
using Ptr = zserio::IBasicReflectableDataPtr<A>;
using CPtr = zserio::IBasicReflectableDataConstPtr<A>;
using IView = zserio::IBasicIntrospectableView<A>;
using IPtr = zserio::IBasicIntrospectableViewConstPtr<A>;
using zserio::CppRuntimeException;
using zserio::CppType;
using zserio::SchemaType;
using Sv = std::string_view;
namespace zd = zserio::detail;

template <typename F>
bool raises(F&& f)
{
    try { f(); } catch (const CppRuntimeException&) { return true; }
    return false;
}
#define REFUSED(call, msg) zv_check(raises([&]() { (void)(call); }), msg)

enum Kind { BOOL, I8, I16, I32, I64, U8, U16, U32, U64, FLOAT, DOUBLE, BYTES, STRING, BITS, OTHER };
enum Numeric { SIGNED, UNSIGNED, REAL, TEXT, NOTHING };
struct Is { Kind kind; Numeric numeric; uint64_t raw; };   // raw: the value sign-extended or bits of the float or number of characters

uint64_t bitsOf(float v) { uint32_t r; std::memcpy(&r, &v, 4); return r; }
uint64_t bitsOf(double v) { uint64_t r; std::memcpy(&r, &v, 8); return r; }
template <typename T>
uint64_t widen(T v) { return static_cast<uint64_t>(static_cast<int64_t>(v)); }

template <typename D>
void getter(const D& d, Kind kind, uint64_t raw, bool right)
{
    uint64_t got = 0;
    bool raised = false;
    try
    {
        switch (kind)
        {
        case BOOL: got = d.getBool() ? 1 : 0; break;
        case I8: got = widen(d.getInt8()); break;
        case I16: got = widen(d.getInt16()); break;
        case I32: got = widen(d.getInt32()); break;
        case I64: got = widen(d.getInt64()); break;
        case U8: got = d.getUInt8(); break;
        case U16: got = d.getUInt16(); break;
        case U32: got = d.getUInt32(); break;
        case U64: got = d.getUInt64(); break;
        case FLOAT: got = bitsOf(d.getFloat()); break;
        case DOUBLE: got = bitsOf(d.getDouble()); break;
        case BYTES: got = d.getBytes().size(); break;
        case STRING: got = d.getStringView().size(); break;
        case BITS: got = d.getBitBuffer().getBitSize(); break;
        default: raised = true;
        }
    }
    catch (const CppRuntimeException&) { raised = true; }
    zv_check_eq(raised, !right, "only the getter of the type of the value gives it");
    if (!raised) { zv_check_eq(got, raw, "the getter gives the value"); zv_cover("getter"); }
}

template <typename D>
void plainRefusals(const D& d)
{
    REFUSED(d.getField("a"), "a value has no fields");
    REFUSED(d.getChoice(), "a value has no choice");
    REFUSED(d.size(), "a value is not an array");
    REFUSED(d.at(0), "a value is not an array");
    REFUSED(d[0], "a value is not an array");
    zv_check(!d.isArray(), "a value is not an array");
    zv_check(d.find("a") == nullptr && d[Sv("a")] == nullptr && d.find("") == nullptr, "nothing is found in a value");
}

template <typename D>
void getters(const D& d, const Is& is)
{
    for (int kind = BOOL; kind < OTHER; ++kind) getter(d, static_cast<Kind>(kind), is.raw, kind == is.kind);
    uint64_t got = 0;
    bool raised = false;
    try { got = static_cast<uint64_t>(d.toInt()); } catch (const CppRuntimeException&) { raised = true; }
    zv_check_eq(raised, is.numeric != SIGNED, "toInt is for signed integers");
    if (!raised) zv_check_eq(got, is.raw, "toInt gives the value");
    raised = false;
    try { got = d.toUInt(); } catch (const CppRuntimeException&) { raised = true; }
    zv_check_eq(raised, is.numeric != UNSIGNED, "toUInt is for unsigned integers and bools");
    if (!raised) zv_check_eq(got, is.raw, "toUInt gives the value");
}

template <typename D>
void conversions(const D& d, const Is& is)   // for known values
{
    uint64_t got = 0;
    bool raised = false;
    try { got = bitsOf(d.toDouble()); } catch (const CppRuntimeException&) { raised = true; }
    zv_check_eq(raised, is.numeric == TEXT || is.numeric == NOTHING, "toDouble is for numbers");
    if (!raised)
    {
        const double expected = is.numeric == SIGNED ? static_cast<double>(static_cast<int64_t>(is.raw)) : static_cast<double>(is.raw);
        if (is.numeric != REAL) zv_check_eq(got, bitsOf(expected), "toDouble gives the value");
    }
    for (int which = 0; which < 2; ++which)
    {
        raised = false;
        std::string text;
        try { text = which == 0 ? d.toString() : d.toString(A()); } catch (const CppRuntimeException&) { raised = true; }
        zv_check_eq(raised, is.numeric == REAL || is.numeric == NOTHING, "toString is for integers, bools and strings");
        if (raised || is.numeric == TEXT) continue;
        if (is.kind == BOOL) { zv_check(text == (is.raw != 0 ? "true" : "false"), "toString gives the value"); continue; }
        const bool negative = is.numeric == SIGNED && static_cast<int64_t>(is.raw) < 0;
        uint64_t rest = negative ? 0 - is.raw : is.raw;
        size_t at = text.size();
        do
        {
            zv_check(at > 0, "toString gives the value");
            zv_check_eq(static_cast<uint8_t>(text[--at]), '0' + rest % 10, "toString gives the value");
            rest /= 10;
        }
        while (rest != 0);
        zv_check(negative ? at == 1 && text[0] == '-' : at == 0, "toString gives the value");
    }
}

template <typename T>
T symbolic(uint64_t sample)
{
    using V = typename T::ValueType;
    if (sample < 4)
    {
        const uint64_t samples[4] = {0, 1, std::is_same_v<V, bool> ? 1 : static_cast<uint64_t>(std::numeric_limits<V>::max()),
                std::is_same_v<V, bool> ? 0 : static_cast<uint64_t>(static_cast<int64_t>(std::numeric_limits<V>::min()))};
        return T(static_cast<V>(samples[sample]));
    }
    return T(static_cast<V>(zv_sym("value", std::is_same_v<V, bool> ? 1 : sizeof(V) * 8)));
}

template <typename T>
Is describe(T value)
{
    using V = typename T::ValueType;
    const V v = value;
    if constexpr (std::is_same_v<V, bool>) return Is{BOOL, UNSIGNED, static_cast<uint64_t>(v)};
    else if constexpr (std::is_signed_v<V>) return Is{sizeof(V) == 1 ? I8 : sizeof(V) == 2 ? I16 : sizeof(V) == 4 ? I32 : I64, SIGNED, widen(v)};
    else return Is{sizeof(V) == 1 ? U8 : sizeof(V) == 2 ? U16 : sizeof(V) == 4 ? U32 : U64, UNSIGNED, static_cast<uint64_t>(v)};
}

void dataRefusals(Data& d)
{
    const Any any(uint8_t{1});
    REFUSED(d.getField("a"), "a value has no fields");
    REFUSED(d.createField("a"), "a value has no fields");
    REFUSED(d.setField("a", any), "a value has no fields");
    REFUSED(d.resize(1), "a value is not an array");
    REFUSED(d.at(0), "a value is not an array");
    REFUSED(d[0], "a value is not an array");
    REFUSED(d.setAt(any, 0), "a value is not an array");
    REFUSED(d.append(any), "a value is not an array");
    zv_check(d.find("a") == nullptr && d[Sv("a")] == nullptr, "nothing is found in a value");
}

void viewRefusals(const IView& d)
{
    REFUSED(d.getParameter("a"), "a value has no parameters");
    REFUSED(d.callFunction("a"), "a value has no functions");
    REFUSED(d.serialize(), "a value is not a compound");
    REFUSED(d.serialize(A()), "a value is not a compound");
}

template <typename D, typename F>
void all(const D& d, const Is& is, uint64_t sample, F&& anyHolds)
{
    if (sample < 4) conversions(d, is);
    getters(d, is);
    plainRefusals(d);
    zv_check(anyHolds(d.getAnyValue()) && anyHolds(d.getAnyValue(A())), "the value is given in an any");
}

template <typename T>
void integers(uint64_t sample, bool introspect)
{
    T value = symbolic<T>(sample);
    const Is is = describe(value);
    if (!introspect)
    {
        const Ptr p = zserio::reflectable(value);
        all(static_cast<const Data&>(*p), is, sample, [&](Any any) { return any.isType<T>() && any.get<T>() == value; });
        zv_check(p->getAnyValue().isType<T>() && p->getAnyValue(A()).get<T>() == value, "the value is given in an any");
        dataRefusals(*p);
        zv_check(zserio::ReflectableUtil::getValue<T>(CPtr(p)) == value, "the value is given");
    }
    else if constexpr (zserio::is_dyn_int_wrapper_v<T>)
    {
        using V = zserio::View<T>;
        const IPtr p = zserio::introspectable(V(value, 8));
        all(*p, is, sample, [&](Any any) { return any.isType<V>() && any.get<V>().value() == value; });
        viewRefusals(*p);
    }
    else
    {
        const IPtr p = zserio::introspectable(value);
        all(*p, is, sample, [&](Any any) { return any.isType<T>() && any.get<T>() == value; });
        viewRefusals(*p);
    }
}

template <typename T>
void reals(bool introspect)
{
    using V = typename T::ValueType;
    std::conditional_t<sizeof(V) == 4, uint32_t, uint64_t> raw = zv_sym("value", sizeof(V) * 8);
    V v;
    std::memcpy(&v, &raw, sizeof(V));
    const Is is{sizeof(V) == 4 ? FLOAT : DOUBLE, REAL, raw};
    const auto same = [&](Any any) { return any.isType<T>() && zv_same(bitsOf(static_cast<V>(any.get<T>())), raw); };
    if (!introspect)
    {
        const Ptr p = zserio::reflectable(T(v));
        all(static_cast<const Data&>(*p), is, 0, same);
        dataRefusals(*p);
        if constexpr (sizeof(V) == 8) zv_check_eq(bitsOf(p->toDouble()), raw, "toDouble gives the value");
    }
    else
    {
        const IPtr p = zserio::introspectable(T(v));
        all(*p, is, 0, same);
        viewRefusals(*p);
        if constexpr (sizeof(V) == 8) zv_check_eq(bitsOf(p->toDouble()), raw, "toDouble gives the value");
    }
}

void texts(bool introspect, uint64_t what)
{
    const size_t n = zv_split(0, 2);
    uint8_t* raw = zv_buffer("text", n);
    const char* chars = reinterpret_cast<const char*>(raw);
    if (what == 0)
    {
        const Is is{STRING, TEXT, n};
        const Sv text(chars, n);
        if (!introspect)
        {
            const Ptr p = zserio::reflectable(text);
            all(static_cast<const Data&>(*p), is, 0, [&](Any any) { return any.isType<Sv>() && any.get<Sv>().data() == chars && any.get<Sv>().size() == n; });
            dataRefusals(*p);
            const std::string copy = p->toString();
            zv_check_eq(copy.size(), n, "toString gives the text");
            for (size_t i = 0; i < n; ++i) zv_check_eq(static_cast<uint8_t>(copy[i]), raw[i], "toString gives the text");
        }
        else
        {
            const IPtr p = zserio::introspectable(text);
            all(*p, is, 0, [&](Any any) { return any.isType<Sv>() && any.get<Sv>().data() == chars && any.get<Sv>().size() == n; });
            viewRefusals(*p);
            const std::string copy = p->toString();
            zv_check_eq(copy.size(), n, "toString gives the text");
            for (size_t i = 0; i < n; ++i) zv_check_eq(static_cast<uint8_t>(copy[i]), raw[i], "toString gives the text");
        }
        return;
    }
    if (what == 1)
    {
        const Is is{BYTES, NOTHING, n};
        const zserio::BytesView bytes(raw, n);
        const auto same = [&](Any any) { return any.isType<zserio::BytesView>() && any.get<zserio::BytesView>().data() == raw && any.get<zserio::BytesView>().size() == n; };
        if (!introspect) { const Ptr p = zserio::reflectable(bytes); all(static_cast<const Data&>(*p), is, 0, same); dataRefusals(*p); zv_check(p->getBytes().data() == raw, "the bytes are given"); }
        else { const IPtr p = zserio::introspectable(bytes); all(*p, is, 0, same); viewRefusals(*p); zv_check(p->getBytes().data() == raw, "the bytes are given"); }
        return;
    }
    using B = zserio::BasicBitBuffer<A>;
    B buffer(zserio::Span<const uint8_t>(raw, n), n * 8);
    const Is is{BITS, NOTHING, n * 8};
    if (!introspect)
    {
        using R = std::reference_wrapper<const B>;
        const Ptr p = zserio::reflectable(buffer);
        all(static_cast<const Data&>(*p), is, 0, [&](Any any) { return any.isType<R>() && &any.get<R>().get() == &buffer; });
        dataRefusals(*p);
        zv_check(&p->getBitBuffer() == &buffer, "the bit buffer is given");
        const CPtr c = zserio::reflectable(static_cast<const B&>(buffer));
        zv_check(&c->getBitBuffer() == &buffer && &zserio::ReflectableUtil::getValue<B>(c) == &buffer, "the bit buffer is given");
    }
    else
    {
        using V = zserio::BasicBitBufferView<A>;
        const IPtr p = zserio::introspectable(V(buffer));
        getters(*p, is);
        conversions(*p, is);
        plainRefusals(*p);
        viewRefusals(*p);
        zv_check(&p->getBitBuffer() == &buffer, "the bit buffer is given");
    }
}

} // namespace

ZV_HARNESS(T04_values)
{
    __libc_single_threaded = 1;
    const uint64_t type = zv_split(0, 30), sample = zv_split(0, 4);
    const bool introspect = zv_split(0, 1) != 0;
    zv_shard();
    switch (type)
    {
    case 0: integers<zserio::Bool>(sample, introspect); break;
    case 1: integers<zserio::Int8>(sample, introspect); break;
    case 2: integers<zserio::Int16>(sample, introspect); break;
    case 3: integers<zserio::Int32>(sample, introspect); break;
    case 4: integers<zserio::Int64>(sample, introspect); break;
    case 5: integers<zserio::UInt8>(sample, introspect); break;
    case 6: integers<zserio::UInt16>(sample, introspect); break;
    case 7: integers<zserio::UInt32>(sample, introspect); break;
    case 8: integers<zserio::UInt64>(sample, introspect); break;
    case 9: integers<zserio::DynInt8>(sample, introspect); break;
    case 10: integers<zserio::DynInt16>(sample, introspect); break;
    case 11: integers<zserio::DynInt32>(sample, introspect); break;
    case 12: integers<zserio::DynInt64>(sample, introspect); break;
    case 13: integers<zserio::DynUInt8>(sample, introspect); break;
    case 14: integers<zserio::DynUInt16>(sample, introspect); break;
    case 15: integers<zserio::DynUInt32>(sample, introspect); break;
    case 16: integers<zserio::DynUInt64>(sample, introspect); break;
    case 17: integers<zserio::VarInt16>(sample, introspect); break;
    case 18: integers<zserio::VarInt32>(sample, introspect); break;
    case 19: integers<zserio::VarInt64>(sample, introspect); break;
    case 20: integers<zserio::VarInt>(sample, introspect); break;
    case 21: integers<zserio::VarUInt16>(sample, introspect); break;
    case 22: integers<zserio::VarUInt32>(sample, introspect); break;
    case 23: integers<zserio::VarUInt64>(sample, introspect); break;
    case 24: integers<zserio::VarUInt>(sample, introspect); break;
    case 25: integers<zserio::VarSize>(sample, introspect); break;
    case 26: integers<zserio::Int5>(sample, introspect); break;
    case 27: integers<zserio::UInt63>(sample, introspect); break;
    case 28: integers<zserio::Int33>(sample, introspect); break;
    case 29: integers<zserio::UInt9>(sample, introspect); break;
    case 30: integers<zserio::UInt17>(sample, introspect); break;
    }
}

ZV_HARNESS(T04_others)
{
    __libc_single_threaded = 1;
    const uint64_t type = zv_split(0, 5);
    const bool introspect = zv_split(0, 1) != 0;
    zv_shard();
    switch (type)
    {
    case 0: reals<zserio::Float16>(introspect); break;
    case 1: reals<zserio::Float32>(introspect); break;
    case 2: reals<zserio::Float64>(introspect); break;
    default: texts(introspect, type - 3);
    }
}

// ---------------------------------------------------------------- arrays
namespace
{

template <typename D>
void arrayRefusals(const D& d)
{
    for (int kind = BOOL; kind < OTHER; ++kind) getter(d, static_cast<Kind>(kind), 0, false);
    REFUSED(d.toInt(), "an array is not a value");
    REFUSED(d.toUInt(), "an array is not a value");
    REFUSED(d.toDouble(), "an array is not a value");
    REFUSED(d.toString(), "an array is not a value");
    REFUSED(d.toString(A()), "an array is not a value");
    REFUSED(d.getField("a"), "an array has no fields");
    REFUSED(d.getChoice(), "an array has no choice");
    zv_check(d.isArray(), "an array is one");
    zv_check(d.find("a") == nullptr, "nothing is found in an array");
}

template <typename T>
struct Values
{
    size_t n;
    uint64_t raw[4];
    std::vector<T> data;
    Values() : n(zv_split(0, 2))
    {
        using V = typename T::ValueType;
        data.reserve(4);
        for (size_t i = 0; i < n; ++i) { raw[i] = zv_sym("element", sizeof(V) * 8); data.push_back(T(static_cast<V>(raw[i]))); }
    }
    template <typename D>
    void holds(const D& element, size_t i) const
    {
        const T t = T(static_cast<typename T::ValueType>(raw[i]));
        getters(element, describe(t));
    }
};

template <typename T>
void arrays(uint64_t what)
{
    using V = typename T::ValueType;
    Values<T> values;
    const size_t index = zv_sym("index", 64);
    const bool inside = index < values.n;
    if (inside) { size_t k = 0; for (; k + 1 < values.n; ++k) if (index == k) break; }
    const auto check = [&](auto&& get)
    {
        bool raised = false;
        try
        {
            const auto element = get();
            zv_check(inside, "an element outside the array is refused");
            for (size_t k = 0; k < values.n; ++k) if (index == k) values.holds(*element, k);
            zv_cover("element");
        }
        catch (const CppRuntimeException&) { raised = true; }
        zv_check_eq(raised, !inside, "an element inside the array is given");
        if (raised) zv_cover("outside");
    };
    if (what == 0)   // constant
    {
        const Ptr p = std::const_pointer_cast<Data>(zserio::reflectableArray(static_cast<const std::vector<T>&>(values.data)));
        const Data& d = *p;
        arrayRefusals(d);
        zv_check_eq(d.size(), values.n, "the size is given");
        check([&]() { return d.at(index); });
        check([&]() { return d[index]; });
        using R = std::reference_wrapper<const std::vector<T>>;
        zv_check(&d.getAnyValue().template get<R>().get() == &values.data, "the array itself is given");
        const Any any(static_cast<V>(1));
        REFUSED(p->at(0), "a constant array gives no access");
        REFUSED((*p)[0], "a constant array gives no access");
        REFUSED(p->resize(1), "a constant array is not changed");
        REFUSED(p->setAt(any, 0), "a constant array is not changed");
        REFUSED(p->append(any), "a constant array is not changed");
        REFUSED(p->setField("a", any), "an array has no fields");
        REFUSED(p->createField("a"), "an array has no fields");
        REFUSED(p->getField("a"), "an array has no fields");
        REFUSED(p->getAnyValue(), "a constant array gives no access");
        REFUSED(p->getAnyValue(A()), "a constant array gives no access");
        zv_check_eq(values.data.size(), values.n, "a constant array is not changed");
    }
    else if (what == 1)
    {
        const Ptr p = zserio::reflectableArray(values.data);
        const Data& d = *p;
        arrayRefusals(d);
        zv_check_eq(d.size(), values.n, "the size is given");
        check([&]() { return d.at(index); });
        check([&]() { return d[index]; });
        check([&]() { return p->at(index); });
        check([&]() { return (*p)[index]; });
        REFUSED(p->setField("a", Any()), "an array has no fields");
        REFUSED(p->createField("a"), "an array has no fields");
        REFUSED(p->getField("a"), "an array has no fields");
        using R = std::reference_wrapper<std::vector<T>>;
        using CR = std::reference_wrapper<const std::vector<T>>;
        zv_check(&p->getAnyValue().template get<R>().get() == &values.data, "the array itself is given");
        zv_check(&d.getAnyValue().template get<CR>().get() == &values.data, "the array itself is given");
        zv_check(&zserio::ReflectableUtil::getValue<std::vector<T>>(p) == &values.data, "the array itself is given");
        zv_check(&zserio::ReflectableUtil::getValue<std::vector<T>>(CPtr(p)) == &values.data, "the array itself is given");
    }
    else if (what == 2)   // changes
    {
        const Ptr p = zserio::reflectableArray(values.data);
        const uint64_t raw = zv_sym("new", sizeof(V) * 8);
        const V v = static_cast<V>(raw);
        const uint64_t form = zv_split(0, 3);
        const Any any = form == 0 ? Any(v) : form == 1 ? Any(T(v)) : form == 2 ? Any(Sv("1")) : Any();
        const uint64_t op = zv_split(0, 2);
        bool raised = false;
        try
        {
            if (op == 0) p->setAt(any, index);
            else if (op == 1) p->append(any);
            else p->resize(1);
        }
        catch (const CppRuntimeException&) { raised = true; }
        zv_check_eq(raised, op == 2 ? false : form >= 2 || (op == 0 && !inside), "a change is refused exactly when its index or its value does not fit");
        if (!raised && op == 0)
        {
            for (size_t k = 0; k < values.n; ++k) if (index == k) values.raw[k] = raw;
            zv_cover("set");
        }
        if (!raised && op == 1) { values.raw[values.n++] = raw; zv_cover("appended"); }
        if (!raised && op == 2) { if (values.n == 0) values.raw[0] = 0; values.n = 1; }
        zv_check_eq(values.data.size(), values.n, "a change keeps the other elements");
        zv_check_eq(p->size(), values.n, "a change keeps the other elements");
        for (size_t k = 0; k < values.n; ++k)
            zv_check(static_cast<V>(values.data[k]) == static_cast<V>(values.raw[k]), "a change keeps the other elements");
    }
    else
    {
        if constexpr (!zserio::is_dyn_int_wrapper_v<T>)
        {
            const IPtr p = zserio::introspectableArray(zserio::ArrayView<const T>(zserio::Span<const T>(values.data)));
            arrayRefusals(*p);
            viewRefusals(*p);
            zv_check_eq(p->size(), values.n, "the size is given");
            check([&]() { return p->at(index); });
            check([&]() { return (*p)[index]; });
        }
    }
}

} // namespace

ZV_HARNESS(T04_arrays)
{
    __libc_single_threaded = 1;
    const uint64_t what = zv_split(0, 3), type = zv_split(0, 5);
    zv_shard();
    switch (type)
    {
    case 0: arrays<zserio::UInt8>(what); break;
    case 1: arrays<zserio::Int16>(what); break;
    case 2: arrays<zserio::VarUInt32>(what); break;
    case 3: arrays<zserio::Int64>(what); break;
    case 4: arrays<zserio::DynInt32>(what); break;
    case 5: arrays<zserio::VarSize>(what); break;
    }
}

// ---------------------------------------------------------------- paths
namespace
{

constexpr size_t FIELDS = 6;   // a:R bc:R o:R? v:uint8 x:R[] t: raises; parameter p:R; functions f: R, a: hidden by the field
const char* const NAMES[FIELDS + 2] = {"a", "bc", "o", "v", "x", "t", "p", "f"};
struct Schema
{
    zd::FixedSizeBuiltinTypeInfo<A> u8{"uint8", SchemaType::UINT8, CppType::UINT8, 8};
    std::array<FI, FIELDS> fields;
    std::array<zserio::BasicParameterInfo<A>, 1> parameters;
    std::array<zserio::BasicFunctionInfo<A>, 2> functions;
    zd::StructTypeInfo<A> root;
    static FI field(Sv name, const TI& type, bool optional, bool array)
    {
        return FI(name, type, zserio::Span<const Sv>(), false, Sv(), Sv(), Sv(), optional, Sv(), Sv(), array, Sv(), false, false);
    }
    Schema() : fields{field("a", root, false, false), field("bc", root, false, false), field("o", root, true, false), field("v", u8, false, false),
                      field("x", root, false, true), field("t", root, false, false)},
               parameters{zserio::BasicParameterInfo<A>{"p", root}},
               functions{zserio::BasicFunctionInfo<A>{"f", root, "f"}, zserio::BasicFunctionInfo<A>{"a", root, "a"}},
               root("R", nullptr, Sv(), {}, fields, parameters, functions)
    {}
};

const Schema* g_schema = nullptr;
size_t slot(Sv name, size_t from, size_t to)
{
    for (size_t i = from; i < to; ++i) if (name == NAMES[i]) return i;
    zv_fail("only known fields are asked for");
    return to;
}

struct Thing : zd::ReflectableDataBase<A>
{
    Thing(const TI& type, uint64_t where, bool array) : zd::ReflectableDataBase<A>(type), id(where), m_array(array) {}
    using zd::ReflectableDataBase<A>::getField;
    bool isArray() const override { return m_array; }
    CPtr getField(Sv name) const override { return child(name); }
    Ptr getField(Sv name) override { return child(name); }
    Ptr child(Sv name) const
    {
        if (m_array) throw CppRuntimeException("array");
        const size_t i = slot(name, 0, FIELDS);
        if (i == 5) throw CppRuntimeException("t");
        if (i == 2) return nullptr;
        return std::make_shared<Thing>(i == 3 ? static_cast<const TI&>(g_schema->u8) : g_schema->root, id * 8 + i + 1, i == 4);
    }
    const uint64_t id;
    const bool m_array;
};

struct ViewThing : zd::IntrospectableViewBase<uint64_t, A>
{
    ViewThing(const TI& type, uint64_t where, bool array) : zd::IntrospectableViewBase<uint64_t, A>(type, where), m_array(array) {}
    bool isArray() const override { return m_array; }
    IPtr getField(Sv name) const override { return child(slot(name, 0, FIELDS)); }
    IPtr getParameter(Sv name) const override { return child(slot(name, FIELDS, FIELDS + 1)); }
    IPtr callFunction(Sv name) const override { zv_check(name != "a", "a field hides a function"); return child(slot(name, FIELDS + 1, FIELDS + 2)); }
    IPtr child(size_t i) const
    {
        if (m_array || i == 5) throw CppRuntimeException("t");
        if (i == 2) return nullptr;
        return std::make_shared<ViewThing>(i == 3 ? static_cast<const TI&>(g_schema->u8) : g_schema->root, getValue() * 8 + i + 1, i == 4);
    }
    const bool m_array;
};

uint64_t expected(const char* path, size_t n, bool introspect)   // 0: nothing there
{
    uint64_t id = 0;
    bool leaf = false;
    size_t at = 0;
    for (;;)
    {
        size_t end = at;
        while (end < n && path[end] != '.') ++end;
        if (leaf) return 0;
        size_t i = 0;
        for (; i < FIELDS + 2; ++i)
        {
            size_t k = 0;
            while (NAMES[i][k] != 0 && at + k < end && NAMES[i][k] == path[at + k]) ++k;
            if (NAMES[i][k] == 0 && at + k == end) break;
        }
        if (i == FIELDS + 2 || i == 2 || i == 5 || (!introspect && i >= FIELDS)) return 0;
        id = id * 8 + i + 1;
        leaf = i == 3 || i == 4;
        if (end == n) return id;
        at = end + 1;
    }
}

} // namespace

ZV_HARNESS(T04_find)
{
    __libc_single_threaded = 1;
    const Schema schema;
    g_schema = &schema;
    char chars[12] = {};
    size_t n = 0;
    if (zv_split(0, 1) == 0)
    {
        n = zv_split(0, 3);
        for (size_t i = 0; i < n; ++i) chars[i] = "abcoxvtpf.?"[zv_split(0, 10)];
    }
    else
    {
        const size_t names = zv_split(2, 3);
        for (size_t k = 0; k < names; ++k)
        {
            if (k != 0) chars[n++] = '.';
            const size_t name = zv_split(0, FIELDS + 2);
            if (name < FIELDS + 2) for (size_t i = 0; NAMES[name][i] != 0; ++i) chars[n++] = NAMES[name][i];
        }
    }
    char* path = reinterpret_cast<char*>(zv_buffer("path", n));
    for (size_t i = 0; i < n; ++i) path[i] = chars[i];
    const uint64_t way = zv_split(0, 3);
    zv_shard();
    const uint64_t id = expected(path, n, way == 3);
    const Sv text(path, n);
    if (way < 3)
    {
        const std::shared_ptr<Thing> root = std::make_shared<Thing>(schema.root, 0, false);
        const CPtr found = way == 0 ? static_cast<const Data&>(*root).find(text) : way == 1 ? CPtr(static_cast<Data&>(*root).find(text)) : CPtr(static_cast<Data&>(*root)[text]);
        zv_check((found == nullptr) == (id == 0), "a path finds what its names say");
        if (found) zv_check_eq(static_cast<const Thing&>(*found).id, id, "a path finds what its names say");
        if (found) zv_cover("found"); else zv_cover("nothing");
    }
    else
    {
        const ViewThing root(schema.root, 0, false);
        const IPtr found = root.find(text);
        zv_check((found == nullptr) == (id == 0), "a path finds what its names say");
        if (found) zv_check_eq(static_cast<const ViewThing&>(*found).getValue(), id, "a path finds what its names say");
        if (id % 8 >= 7) zv_cover("parameter or function");
    }
}

// ---------------------------------------------------------------- owner
namespace
{

struct Owned { using allocator_type = A; explicit Owned(const A&) {} };

enum Method { M_NONE, M_TYPE, M_ARRAY, M_CFIELD, M_FIELD, M_CREATE, M_SET, M_CFIND, M_FIND, M_CPATH, M_PATH, M_CHOICE, M_SIZE, M_RESIZE, M_CAT, M_AT, M_CINDEX,
              M_INDEX, M_SETAT, M_APPEND, M_CANY, M_ANY, M_CANY0, M_ANY0, M_BOOL, M_I8, M_I16, M_I32, M_I64, M_U8, M_U16, M_U32, M_U64, M_FLOAT, M_DOUBLE, M_BYTES,
              M_STRING, M_BITS, M_TOINT, M_TOUINT, M_TODOUBLE, M_TOSTRING, M_TOSTRING0, METHODS };
Method g_called = M_NONE;
size_t g_calls = 0;
Sv g_name;
size_t g_index = 0;
const Any* g_value = nullptr;
void called(Method m) { g_called = m; ++g_calls; }

struct Echo : Data
{
    explicit Echo(const TI& type) : m_type(type) {}
    const TI& m_type;
    zserio::BasicBitBuffer<A> m_buffer;
    Ptr self() const { return Ptr(const_cast<Echo*>(this), [](Data*) {}); }
    const TI& getTypeInfo() const override { called(M_TYPE); return m_type; }
    bool isArray() const override { called(M_ARRAY); return true; }
    CPtr getField(Sv n) const override { called(M_CFIELD); g_name = n; return self(); }
    Ptr getField(Sv n) override { called(M_FIELD); g_name = n; return self(); }
    Ptr createField(Sv n) override { called(M_CREATE); g_name = n; return self(); }
    void setField(Sv n, const Any& v) override { called(M_SET); g_name = n; g_value = &v; }
    CPtr find(Sv n) const override { called(M_CFIND); g_name = n; return self(); }
    Ptr find(Sv n) override { called(M_FIND); g_name = n; return self(); }
    CPtr operator[](Sv n) const override { called(M_CPATH); g_name = n; return self(); }
    Ptr operator[](Sv n) override { called(M_PATH); g_name = n; return self(); }
    Sv getChoice() const override { called(M_CHOICE); return "choice"; }
    size_t size() const override { called(M_SIZE); return 77; }
    void resize(size_t n) override { called(M_RESIZE); g_index = n; }
    CPtr at(size_t n) const override { called(M_CAT); g_index = n; return self(); }
    Ptr at(size_t n) override { called(M_AT); g_index = n; return self(); }
    CPtr operator[](size_t n) const override { called(M_CINDEX); g_index = n; return self(); }
    Ptr operator[](size_t n) override { called(M_INDEX); g_index = n; return self(); }
    void setAt(const Any& v, size_t n) override { called(M_SETAT); g_index = n; g_value = &v; }
    void append(const Any& v) override { called(M_APPEND); g_value = &v; }
    Any getAnyValue(const A&) const override { called(M_CANY); return Any(int64_t{1}); }
    Any getAnyValue(const A&) override { called(M_ANY); return Any(int64_t{2}); }
    Any getAnyValue() const override { called(M_CANY0); return Any(int64_t{1}); }
    Any getAnyValue() override { called(M_ANY0); return Any(int64_t{2}); }
    bool getBool() const override { called(M_BOOL); return true; }
    int8_t getInt8() const override { called(M_I8); return -8; }
    int16_t getInt16() const override { called(M_I16); return -16; }
    int32_t getInt32() const override { called(M_I32); return -32; }
    int64_t getInt64() const override { called(M_I64); return -64; }
    uint8_t getUInt8() const override { called(M_U8); return 8; }
    uint16_t getUInt16() const override { called(M_U16); return 16; }
    uint32_t getUInt32() const override { called(M_U32); return 32; }
    uint64_t getUInt64() const override { called(M_U64); return 64; }
    float getFloat() const override { called(M_FLOAT); return 1.5F; }
    double getDouble() const override { called(M_DOUBLE); return 2.5; }
    zserio::BytesView getBytes() const override { called(M_BYTES); return zserio::BytesView(reinterpret_cast<const uint8_t*>("abc"), 3); }
    Sv getStringView() const override { called(M_STRING); return "text"; }
    const zserio::BasicBitBuffer<A>& getBitBuffer() const override { called(M_BITS); return m_buffer; }
    int64_t toInt() const override { called(M_TOINT); return -1; }
    uint64_t toUInt() const override { called(M_TOUINT); return 1; }
    double toDouble() const override { called(M_TODOUBLE); return 3.5; }
    std::string toString(const A&) const override { called(M_TOSTRING); return "made"; }
    std::string toString() const override { called(M_TOSTRING0); return "made"; }
};
Echo* g_echo = nullptr;
Ptr reflectable(Owned&, const A&) { return g_echo->self(); }

} // namespace

ZV_HARNESS(T04_owner)
{
    __libc_single_threaded = 1;
    const Schema schema;
    Echo echo(schema.root);
    g_echo = &echo;
    using Owner = zd::ReflectableDataOwner<Owned>;
    const std::shared_ptr<Owner> owner = zv_split(0, 1) == 0 ? std::make_shared<Owner>() : std::make_shared<Owner>(A());
    Data& d = *owner;
    const Data& c = *owner;
    const Method m = static_cast<Method>(zv_split(M_TYPE, METHODS - 1));
    const Sv name("the name");
    const size_t index = zv_sym("index", 64);
    const Any value(uint8_t{9});
    g_calls = 0;
    Method other = m;   // overloads of the same meaning may use each other; the object is the owner's own, so either constness finds the same parts
    Method third = m;
    bool right = true;
    const Data* me = &echo;
    switch (m)
    {
    case M_TYPE: right = &c.getTypeInfo() == &schema.root; break;
    case M_ARRAY: right = c.isArray(); break;
    case M_CFIELD: right = c.getField(name).get() == me && g_name.data() == name.data() && g_name.size() == name.size(); other = M_FIELD; break;
    case M_FIELD: right = d.getField(name).get() == me && g_name.data() == name.data() && g_name.size() == name.size(); break;
    case M_CREATE: right = d.createField(name).get() == me && g_name.data() == name.data() && g_name.size() == name.size(); break;
    case M_SET: d.setField(name, value); right = g_value == &value && g_name.data() == name.data() && g_name.size() == name.size(); break;
    case M_CFIND: right = c.find(name).get() == me && g_name.data() == name.data() && g_name.size() == name.size(); other = M_FIND; break;
    case M_FIND: right = d.find(name).get() == me && g_name.data() == name.data() && g_name.size() == name.size(); break;
    case M_CPATH: right = c[name].get() == me && g_name.data() == name.data() && g_name.size() == name.size(); other = M_CFIND; third = M_PATH; break;
    case M_PATH: right = d[name].get() == me && g_name.data() == name.data() && g_name.size() == name.size(); other = M_FIND; break;
    case M_CHOICE: right = c.getChoice() == "choice"; break;
    case M_SIZE: right = c.size() == 77; break;
    case M_RESIZE: d.resize(index); right = g_index == index; break;
    case M_CAT: right = c.at(index).get() == me && g_index == index; other = M_CINDEX; third = M_AT; break;
    case M_AT: right = d.at(index).get() == me && g_index == index; other = M_INDEX; break;
    case M_CINDEX: right = c[index].get() == me && g_index == index; other = M_CAT; third = M_INDEX; break;
    case M_INDEX: right = d[index].get() == me && g_index == index; other = M_AT; break;
    case M_SETAT: d.setAt(value, index); right = g_index == index && g_value == &value; break;
    case M_APPEND: d.append(value); right = g_value == &value; break;
    case M_CANY: c.getAnyValue(A()); other = M_ANY; break;
    case M_ANY: right = d.getAnyValue(A()).get<int64_t>() == 2; break;
    case M_CANY0: c.getAnyValue(); other = M_CANY; third = M_ANY; break;
    case M_ANY0: right = d.getAnyValue().get<int64_t>() == 2; other = M_ANY; break;
    case M_BOOL: right = c.getBool(); break;
    case M_I8: right = c.getInt8() == -8; break;
    case M_I16: right = c.getInt16() == -16; break;
    case M_I32: right = c.getInt32() == -32; break;
    case M_I64: right = c.getInt64() == -64; break;
    case M_U8: right = c.getUInt8() == 8; break;
    case M_U16: right = c.getUInt16() == 16; break;
    case M_U32: right = c.getUInt32() == 32; break;
    case M_U64: right = c.getUInt64() == 64; break;
    case M_FLOAT: right = bitsOf(c.getFloat()) == bitsOf(1.5F); break;
    case M_DOUBLE: right = bitsOf(c.getDouble()) == bitsOf(2.5); break;
    case M_BYTES: right = c.getBytes().size() == 3; break;
    case M_STRING: right = c.getStringView() == "text"; break;
    case M_BITS: right = &c.getBitBuffer() == &echo.m_buffer; break;
    case M_TOINT: right = c.toInt() == -1; break;
    case M_TOUINT: right = c.toUInt() == 1; break;
    case M_TODOUBLE: right = bitsOf(c.toDouble()) == bitsOf(3.5); break;
    case M_TOSTRING: right = c.toString(A()) == "made"; break;
    case M_TOSTRING0: right = c.toString() == "made"; other = M_TOSTRING; break;
    default: break;
    }
    zv_check(right, "an owner gives what its object gives");
    zv_check(g_calls == 1 && (g_called == m || g_called == other || g_called == third), "an owner asks its object for the same thing");
    if (m == M_CANY || m == M_CANY0) zv_check(g_called == M_CANY || g_called == M_CANY0, "the value a constant owner gives is constant");
}

// ---------------------------------------------------------------- equality
namespace
{

struct Leaf : zd::ReflectableDataBase<A>   // object with two fields, or array, or value
{
    Leaf(const TI& type, bool array, Sv choice, CPtr a, CPtr b, size_t n) : zd::ReflectableDataBase<A>(type), m_array(array), m_choice(choice), m_child{a, b}, m_size(n) {}
    using zd::ReflectableDataBase<A>::getField;
    using zd::ReflectableDataBase<A>::at;
    bool isArray() const override { return m_array; }
    Sv getChoice() const override { return m_choice; }
    size_t size() const override { zv_check(m_array, "only arrays are asked for a size"); return m_size; }
    CPtr at(size_t i) const override { zv_check(m_array && i < m_size && i < 2, "only elements of the array are taken"); return m_child[i == 0 ? 0 : 1]; }
    CPtr getField(Sv name) const override
    {
        zv_check(!m_array, "arrays have no fields");
        zv_check(m_choice == "-" || name == m_choice, "only the chosen field is touched");
        return m_child[name == "a" ? 0 : 1];
    }
    const bool m_array;
    const Sv m_choice;
    const CPtr m_child[2];
    const size_t m_size;
};

struct Types
{
    zd::FixedSizeBuiltinTypeInfo<A> u8{"uint8", SchemaType::UINT8, CppType::UINT8, 8};
    std::array<FI, 2> fields{Schema::field("a", u8, true, false), Schema::field("b", u8, true, false)};
    zd::StructTypeInfo<A> object{"S", nullptr, Sv(), {}, fields, {}, {}};
    zd::StructTypeInfo<A> other{"S2", nullptr, Sv(), {}, fields, {}, {}};
    zd::UnionTypeInfo<A> choice{"U", nullptr, Sv(), {}, fields, {}, {}};
};

struct Side { CPtr p; uint64_t kind, n; bool has[2]; uint64_t v[2]; uint64_t choice; };

// kinds: 0 null, 1 struct, 2 another struct, 3 union, 4 array of uint8, 5 uint8, 6 array of structs
void build(const Types& t, Side& s, uint64_t kind)
{
    s.kind = kind;
    s.n = 2;
    s.choice = 9;
    CPtr child[2];
    if (kind == 0) return;
    if (kind == 4 || kind == 6) s.n = zv_split(0, 2);
    if (kind == 3) s.choice = zv_split(0, 2);
    for (size_t i = 0; i < 2; ++i)
    {
        const bool used = i < s.n && (kind != 3 || s.choice == i) && (kind != 5 || i == 0) && (kind != 6 || i == 0);
        s.has[i] = used && (kind >= 4 || zv_split(0, 1) != 0);
        s.v[i] = s.has[i] ? zv_sym("value", 8) : 0;
        if (s.has[i]) child[i] = zserio::reflectable(zserio::UInt8(static_cast<uint8_t>(s.v[i])));
    }
    const Sv choices[3] = {"a", "b", ""};
    if (kind == 1) s.p = std::make_shared<Leaf>(t.object, false, "-", child[0], child[1], 0);
    else if (kind == 2) s.p = std::make_shared<Leaf>(t.other, false, "-", child[0], child[1], 0);
    else if (kind == 3) s.p = std::make_shared<Leaf>(t.choice, false, choices[s.choice], child[0], child[1], 0);
    else if (kind == 4) s.p = std::make_shared<Leaf>(t.u8, true, "-", child[0], child[1], s.n);
    else if (kind == 5) s.p = child[0];
    else
    {
        CPtr inner[2];
        for (size_t i = 0; i < s.n; ++i) inner[i] = std::make_shared<Leaf>(t.object, false, "-", i == 0 ? child[0] : nullptr, nullptr, 0);
        s.p = std::make_shared<Leaf>(t.object, true, "-", inner[0], inner[1], s.n);
    }
}

template <typename T>
void equalValues()
{
    const T a = symbolic<T>(4), b = symbolic<T>(4);
    const CPtr p = zserio::reflectable(a), q = zserio::reflectable(b);
    const bool same = static_cast<typename T::ValueType>(a) == static_cast<typename T::ValueType>(b);
    zv_check_eq(zserio::ReflectableUtil::equal<A>(p, q), same, "values are equal when they are the same");
}

} // namespace

ZV_HARNESS(T04_equal)
{
    __libc_single_threaded = 1;
    const Types types;
    const uint64_t kindA = zv_split(0, 6), kindB = zv_split(0, 6);
    zv_shard();
    Side a, b;
    build(types, a, kindA);
    build(types, b, kindB);
    bool same = a.kind == b.kind && a.n == b.n && a.choice == b.choice;
    if (same && a.kind != 0)
        for (size_t i = 0; i < 2; ++i) same = same && a.has[i] == b.has[i] && (!a.has[i] || a.v[i] == b.v[i]);
    zv_check_eq(zserio::ReflectableUtil::equal<A>(a.p, b.p), same, "objects are equal when all their parts are");
    if (same) zv_cover("equal"); else zv_cover("different");
}

ZV_HARNESS(T04_equalvalues)
{
    __libc_single_threaded = 1;
    const uint64_t type = zv_split(0, 11);
    zv_shard();
    switch (type)
    {
    case 0: equalValues<zserio::Bool>(); break;
    case 1: equalValues<zserio::Int8>(); break;
    case 2: equalValues<zserio::VarInt16>(); break;
    case 3: equalValues<zserio::DynInt32>(); break;
    case 4: equalValues<zserio::Int64>(); break;
    case 5: equalValues<zserio::UInt8>(); break;
    case 6: equalValues<zserio::UInt16>(); break;
    case 7: equalValues<zserio::VarSize>(); break;
    case 8: equalValues<zserio::VarUInt>(); break;
    case 9: case 10: case 11:
    {
        const size_t n = zv_split(0, 2), m = zv_split(0, 2);
        const uint8_t *x = zv_buffer("x", n), *y = zv_buffer("y", m);
        bool same = n == m;
        for (size_t i = 0; same && i < n; ++i) same = x[i] == y[i];
        const Sv s(reinterpret_cast<const char*>(x), n), t(reinterpret_cast<const char*>(y), m);
        if (type == 9) zv_check_eq(zserio::ReflectableUtil::equal<A>(zserio::reflectable(s), zserio::reflectable(t)), same, "texts are equal when they are the same");
        else if (type == 10)
            zv_check_eq(zserio::ReflectableUtil::equal<A>(zserio::reflectable(zserio::BytesView(x, n)), zserio::reflectable(zserio::BytesView(y, m))), same, "bytes are equal when they are the same");
        else
        {
            // the last byte is cut at any bit; what is behind the cut does not matter
            const size_t cutX = n == 0 ? 0 : zv_split(0, 7), cutY = m == 0 ? 0 : zv_split(0, 7);
            const zserio::BasicBitBuffer<A> p(zserio::Span<const uint8_t>(x, n), n * 8 - cutX), q(zserio::Span<const uint8_t>(y, m), m * 8 - cutY);
            same = n == m && cutX == cutY;
            for (size_t i = 0; same && i < n; ++i)
            {
                const size_t cut = i + 1 == n ? cutX : 0;
                same = (x[i] >> cut) == (y[i] >> cut);
            }
            zv_check_eq(zserio::ReflectableUtil::equal<A>(zserio::reflectable(p), zserio::reflectable(q)), same, "bit buffers are equal when they are the same");
        }
        break;
    }
    }
}

// ---------------------------------------------------------------- values out of an any
namespace
{
enum class Color : int8_t { RED = -3, GREEN = 0, BLUE = 100 };
class Mask
{
public:
    using ZserioType = zserio::UInt16;
    constexpr explicit Mask(ZserioType value) noexcept : m_value(value) {}
    constexpr ZserioType getValue() const { return m_value; }
private:
    ZserioType m_value;
};
struct Foreign { uint8_t x; };
} // namespace
namespace zserio
{
template <>
struct EnumTraits<Color> { using ZserioType = Int8; static constexpr std::string_view enumName = "Color"; };
template <>
inline Color valueToEnum<Color>(Int8 raw)
{
    const int8_t v = raw;
    if (v != -3 && v != 0 && v != 100) throw CppRuntimeException("Color");
    return static_cast<Color>(v);
}
} // namespace zserio

ZV_HARNESS(T04_any)
{
    __libc_single_threaded = 1;
    const uint64_t target = zv_split(0, 5), source = zv_split(0, 7);
    zv_shard();
    const uint64_t raw = zv_sym("raw", 16);
    const int8_t i8 = static_cast<int8_t>(raw);
    const Any any = source == 0 ? Any(i8) : source == 1 ? Any(zserio::Int8(i8)) : source == 2 ? Any(static_cast<Color>(i8)) : source == 3 ? Any(static_cast<uint16_t>(raw)) :
            source == 4 ? Any(zserio::UInt16(static_cast<uint16_t>(raw))) : source == 5 ? Any(Mask(zserio::UInt16(static_cast<uint16_t>(raw)))) :
            source == 6 ? Any(Foreign{0}) : Any();
    bool raised = false, right = true;
    bool fits = false;
    try
    {
        if (target == 0) { fits = source <= 1; right = zserio::ReflectableUtil::fromAny<zserio::Int8>(any) == zserio::Int8(i8); }
        else if (target == 1)
        {
            fits = source == 2 || (source <= 1 && (i8 == -3 || i8 == 0 || i8 == 100));
            right = static_cast<int8_t>(zserio::ReflectableUtil::fromAny<Color>(any)) == i8;
        }
        else if (target == 2) { fits = source >= 3 && source <= 5; right = zserio::ReflectableUtil::fromAny<Mask>(any).getValue() == zserio::UInt16(static_cast<uint16_t>(raw)); }
        else if (target == 3) { fits = source == 3 || source == 4; right = zserio::ReflectableUtil::fromAny<zserio::UInt16>(any) == zserio::UInt16(static_cast<uint16_t>(raw)); }
        else if (target == 4) { fits = false; zserio::ReflectableUtil::fromAny<zserio::UInt32>(any); }
        else { fits = source == 6; zserio::ReflectableUtil::fromAny<Foreign>(any); }
    }
    catch (const CppRuntimeException&) { raised = true; }
    zv_check_eq(raised, !fits, "a value of another type is refused");
    if (!raised) { zv_check(right, "the value is taken as it is"); zv_cover("taken"); }
}
