// J05: the JSON document the writer makes of the objects it is shown; T02: its dispatch over the kinds of values.
// The encoder of scalar values (J01, S10) is replaced by one which records what it is given.
#include "zv.h"
#define ZVS_OUT_MAX 400
#include "streams.h"
#include <array>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
#include <sys/single_threaded.h>

namespace zserio
{

struct Recorded { char what; bool negative; uint64_t value; double real; };
struct Records
{
    Recorded r[16];
    size_t n = 0;
    void add(std::ostream& out, char what, bool negative, uint64_t value, double real)
    {
        zv_check(n < 16, "no more values are written than there are");
        r[n++] = {what, negative, value, real};
        out.put('#');
    }
};
inline Records& records() { static Records r; return r; }

class RecordingEncoder
{
public:
    static void encodeNull(std::ostream& out) { records().add(out, 'n', false, 0, 0); }
    static void encodeBool(std::ostream& out, bool value) { records().add(out, 'b', false, value ? 1 : 0, 0); }
    template <typename T>
    static void encodeIntegral(std::ostream& out, T value)
    {
        records().add(out, 'i', value < T(0), static_cast<uint64_t>(static_cast<int64_t>(value)), 0);
    }
    static void encodeFloatingPoint(std::ostream& out, double value) { records().add(out, 'f', false, 0, value); }
    static void encodeString(std::ostream& out, std::string_view value)
    {
        out.put('"');
        out.write(value.data(), static_cast<std::streamsize>(value.size()));
        out.put('"');
    }
};

} // namespace zserio

#define ZSERIO_JSON_ENCODER_H_INC
#define JsonEncoder RecordingEncoder
#include "zserio/JsonWriter.h"
#undef JsonEncoder
#include "zserio/ReflectableData.h"
#include "zserio/TypeInfo.h"

extern "C" {
std::ostream& zvs_flush(std::ostream* s) asm("_ZNSo5flushEv");
std::ostream& zvs_flush(std::ostream* s) { return *s; }
}

namespace
{

using A = std::allocator<uint8_t>;
using TI = zserio::IBasicTypeInfo<A>;
using FI = zserio::BasicFieldInfo<A>;
using CPtr = zserio::IBasicReflectableDataConstPtr<A>;
using Writer = zserio::BasicJsonWriter<A>;
using Format = Writer::EnumerableFormat;
using zserio::CppRuntimeException;
using zserio::CppType;
using zserio::SchemaType;
using zserio::WALKER_NOT_ELEMENT;
using Sv = std::string_view;
namespace zd = zserio::detail;

const TI& u8() { return zserio::typeInfo<zserio::UInt8, A>(); }

FI fieldInfo(Sv name, const TI& type)
{
    return FI(name, type, zserio::Span<const Sv>(), false, Sv(), Sv(), Sv(), false, Sv(), Sv(), false, Sv(), false, false);
}

struct Text
{
    char c[zvs::OutBuf::MAX];
    size_t n = 0;
    void add(char x) { zv_check(n < zvs::OutBuf::MAX, "expected text too long"); c[n++] = x; }
    void add(Sv s) { for (const char x : s) add(x); }
    void number(uint64_t v)
    {
        char d[20];
        size_t k = 0;
        do { d[k++] = static_cast<char>('0' + v % 10); v /= 10; } while (v != 0);
        while (k > 0) add(d[--k]);
    }
};

void compare(const zvs::OutBuf& buf, const Text& want, const char* msg)
{
    zv_check_eq(buf.used, want.n, msg);
    for (size_t i = 0; i < buf.used && i < want.n; ++i) zv_check_eq(static_cast<uint8_t>(buf.data[i]), static_cast<uint8_t>(want.c[i]), msg);
}

struct Style { bool indented; Sv indent, item, key; };

void newLine(Text& want, const Style& s, size_t level)
{
    if (!s.indented) return;
    want.add('\n');
    for (size_t i = 0; i < level; ++i) want.add(s.indent);
}

template <typename F>
void withWriter(uint64_t style, std::ostream& out, F&& use)
{
    switch (style)
    {
    case 0: { Writer w(out); use(w, Style{false, "", ", ", ": "}); break; }
    case 1: { Writer w(out, static_cast<uint8_t>(2)); use(w, Style{true, "  ", ",", ": "}); break; }
    case 2: { Writer w(out, static_cast<uint8_t>(0)); use(w, Style{true, "", ",", ": "}); break; }
    case 3: { Writer w(out, "\t"); use(w, Style{true, "\t", ",", ": "}); break; }
    default:
    {
        Writer w(out);
        w.setItemSeparator(" ,");
        w.setKeySeparator(":");
        use(w, Style{false, "", " ,", ":"});
        break;
    }
    }
}

// ---- values --------------------------------------------------------------------------------------------------------
struct NamedValue : zd::ReflectableDataBase<A>
{
    NamedValue(const TI& type, int64_t v) : zd::ReflectableDataBase<A>(type), m_v(v) {}
    bool isSignedType() const
    {
        const CppType t = this->getTypeInfo().getUnderlyingType().getCppType();
        return t == CppType::INT8 || t == CppType::INT16 || t == CppType::INT32 || t == CppType::INT64;
    }
    int64_t toInt() const override { if (!isSignedType()) throw CppRuntimeException("no signed value"); return m_v; }
    uint64_t toUInt() const override { if (isSignedType()) throw CppRuntimeException("no unsigned value"); return static_cast<uint64_t>(m_v); }
    using zd::ReflectableDataBase<A>::getField;
    using zd::ReflectableDataBase<A>::at;
    using zd::ReflectableDataBase<A>::getAnyValue;
    int64_t m_v;
};

// what is written for a value: false when it is refused
template <typename W>
bool shown(W& w, const CPtr& value, const FI& field, size_t index)
{
    try { w.visitValue(value, field, index); } catch (const CppRuntimeException&) { return false; }
    return true;
}

void one(char what, bool negative, uint64_t value)
{
    const zserio::Records& r = zserio::records();
    zv_check_eq(r.n, 1, "one value is written");
    zv_check(r.r[0].what == what, "a value is written as what it is");
    zv_check_eq(r.r[0].negative, negative, "a number is written with its sign");
    zv_check_eq(r.r[0].value, value, "the value itself is written");
}

template <typename T>
void number(size_t index)
{
    using V = typename T::ValueType;
    zvs::OutBuf buf;
    zvs::Out out(&buf);
    Writer w(out.get());
    const V v = static_cast<V>(zv_sym("v", sizeof(V) * 8));
    const FI field = fieldInfo("k", u8());
    const T value{v};
    zv_check(shown(w, zserio::reflectable(value), field, index), "a value of every kind is written");
    one('i', v < V(0), static_cast<uint64_t>(static_cast<int64_t>(v)));
    Text want;
    if (index == WALKER_NOT_ELEMENT) want.add("\"k\": ");
    want.add('#');
    compare(buf, want, "a field is written with its name, an element without");
    zv_cover("number");
}

template <typename T>
void real(size_t index, typename T::ValueType v)
{
    zvs::OutBuf buf;
    zvs::Out out(&buf);
    Writer w(out.get());
    const FI field = fieldInfo("k", u8());
    const T value{v};
    zv_check(shown(w, zserio::reflectable(value), field, index), "a value of every kind is written");
    zv_check_eq(zserio::records().n, 1, "one value is written");
    zv_check(zserio::records().r[0].what == 'f' && zserio::records().r[0].real == static_cast<double>(v), "a floating point number is written as itself");
    zv_cover("real");
}

} // namespace

// nesting and arrays of any depth and length, past every narrow counter: what is put out by a single call
ZV_HARNESS(J05_deep)
{
    const uint64_t kind = zv_split(0, 2);
    zv_shard();
    __libc_single_threaded = 1;
    zvs::OutBuf buf;
    zvs::Out out(&buf);
    Writer w(out.get(), static_cast<uint8_t>(1));
    const Style s{true, " ", ",", ": "};
    const FI field = fieldInfo("k", u8());
    const zserio::UInt8 number(7);
    constexpr size_t DEPTH = 260;
    const auto interesting = [](size_t i) { return i < 2 || i == 128 || (i > 254 && i < 258) || i == DEPTH; };
    w.beginRoot(nullptr);
    if (kind < 2)
    {
        for (size_t i = 1; i <= DEPTH; ++i)
        {
            buf.used = 0;
            const bool array = kind == 1 && i % 2 == 0;
            if (array) w.beginArray(nullptr, field); else w.beginCompound(nullptr, field, kind == 1 ? 0 : WALKER_NOT_ELEMENT);
            if (!interesting(i)) continue;
            Text want;
            newLine(want, s, i);
            if (array || kind == 0) want.add("\"k\": ");
            want.add(array ? '[' : '{');
            compare(buf, want, "each level is indented once more");
        }
        for (size_t i = DEPTH; i > 0; --i)
        {
            buf.used = 0;
            const bool array = kind == 1 && i % 2 == 0;
            if (array) w.endArray(nullptr, field); else w.endCompound(nullptr, field, kind == 1 ? 0 : WALKER_NOT_ELEMENT);
            if (!interesting(i)) continue;
            Text want;
            newLine(want, s, i);
            want.add(array ? ']' : '}');
            compare(buf, want, "each level ends with the indentation it began with");
        }
        zv_cover("deep");
        return;
    }
    w.beginArray(nullptr, field);
    for (size_t i = 0; i < DEPTH; ++i)
    {
        buf.used = 0;
        zserio::records().n = 0;
        w.visitValue(zserio::reflectable(number), field, i);
        if (!interesting(i)) continue;
        Text want;
        if (i != 0) want.add(',');
        newLine(want, s, 2);
        want.add('#');
        compare(buf, want, "each element is written alike");
    }
    zv_cover("long");
}

// a document of any shape: calls nested as the walker makes them
ZV_HARNESS(J05_document)
{
    const uint64_t style = zv_split(0, 4), first = zv_split(0, 3), second = zv_split(0, 3), third = zv_split(0, 3);
    zv_shard();
    __libc_single_threaded = 1;
    zvs::OutBuf buf;
    zvs::Out out(&buf);
    Text want;
    static const char* const NAMES[] = {"a", "b", "c", "d", "e", "f", "g", "h"};
    withWriter(style, out.get(), [&](Writer& w, const Style& s) {
        struct Level { bool array; size_t items; size_t step; size_t index; } stack[4];
        size_t depth = 0;
        w.beginRoot(nullptr);
        want.add('{');
        stack[0] = {false, 0, 0, WALKER_NOT_ELEMENT};
        zserio::UInt8 number(7);
        const size_t steps = 5;
        for (size_t step = 0; step < steps; ++step)
        {
            const uint64_t op = step == 0 ? first : step == 1 ? second : step == 2 ? third : zv_split(0, 3);
            Level& top = stack[depth];
            if (op == 3)
            {
                if (depth == 0) break;
                newLine(want, s, depth);
                const FI field = fieldInfo(NAMES[top.step], u8());
                if (top.array) { w.endArray(nullptr, field); want.add(']'); }
                else { w.endCompound(nullptr, field, top.index); want.add('}'); }
                --depth;
                continue;
            }
            if (op == 1 && top.array) return; // there are no arrays of arrays
            if (op != 0 && depth == 2) return;
            if (top.items++ > 0) want.add(s.item);
            newLine(want, s, depth + 1);
            const size_t index = top.array ? top.items - 1 : WALKER_NOT_ELEMENT;
            const FI field = fieldInfo(NAMES[top.array ? top.step : step], u8());
            if (!top.array) { want.add('"'); want.add(NAMES[step]); want.add('"'); want.add(s.key); }
            if (op == 0) { w.visitValue(zserio::reflectable(number), field, index); want.add('#'); continue; }
            ++depth;
            stack[depth] = {op == 1, 0, top.array ? top.step : step, index};
            if (op == 1) { w.beginArray(nullptr, field); want.add('['); }
            else { w.beginCompound(nullptr, field, index); want.add('{'); }
        }
        while (depth > 0)
        {
            const Level& top = stack[depth];
            newLine(want, s, depth);
            const FI field = fieldInfo(NAMES[top.step], u8());
            if (top.array) { w.endArray(nullptr, field); want.add(']'); }
            else { w.endCompound(nullptr, field, top.index); want.add('}'); }
            --depth;
        }
        newLine(want, s, 0);
        w.endRoot(nullptr);
        want.add('}');
        compare(buf, want, "the document has the shape of the tree shown");
        zv_cover("document");
    });
}

// T02 / J05: values of every kind
ZV_HARNESS(T02_json)
{
    const uint64_t kind = zv_split(0, 33);
    const size_t index = zv_split(0, 1) ? WALKER_NOT_ELEMENT : zv_split(0, 1);
    zv_shard();
    __libc_single_threaded = 1;
    switch (kind)
    {
    case 0: number<zserio::Int8>(index); return;
    case 1: number<zserio::Int16>(index); return;
    case 2: number<zserio::Int32>(index); return;
    case 3: number<zserio::Int64>(index); return;
    case 4: number<zserio::UInt8>(index); return;
    case 5: number<zserio::UInt16>(index); return;
    case 6: number<zserio::UInt32>(index); return;
    case 7: number<zserio::UInt64>(index); return;
    case 8: number<zserio::Int3>(index); return;
    case 9: number<zserio::UInt61>(index); return;
    case 10: number<zserio::VarInt16>(index); return;
    case 11: number<zserio::VarInt>(index); return;
    case 12: number<zserio::VarUInt32>(index); return;
    case 13: number<zserio::VarUInt>(index); return;
    case 14: number<zserio::VarSize>(index); return;
    case 15: number<zserio::DynInt16>(index); return;
    case 16: number<zserio::DynUInt64>(index); return;
    case 17: number<zserio::VarInt32>(index); return;
    case 18: number<zserio::VarInt64>(index); return;
    case 19: number<zserio::VarUInt16>(index); return;
    case 20: number<zserio::VarUInt64>(index); return;
    case 21: real<zserio::Float16>(index, 0.5F); return;
    case 22: real<zserio::Float32>(index, -1.25F); return;
    case 23: real<zserio::Float64>(index, 1e100); return;
    default: break;
    }
    zvs::OutBuf buf;
    zvs::Out out(&buf);
    Writer w(out.get());
    const FI field = fieldInfo("k", u8());
    Text want;
    if (index == WALKER_NOT_ELEMENT) want.add("\"k\": ");
    const zserio::Records& r = zserio::records();
    switch (kind)
    {
    case 24:
    {
        const bool v = zv_choice("b");
        const zserio::Bool value(v);
        zv_check(shown(w, zserio::reflectable(value), field, index), "a value of every kind is written");
        one('b', false, v ? 1 : 0);
        want.add('#');
        break;
    }
    case 25:
        zv_check(shown(w, nullptr, field, index), "a missing value is written");
        one('n', false, 0);
        want.add('#');
        break;
    case 26:
    {
        const size_t n = zv_split(0, 3);
        const uint8_t* text = zv_buffer("text", n);
        const Sv value(reinterpret_cast<const char*>(text), n);
        zv_check(shown(w, zserio::reflectable(value), field, index), "a value of every kind is written");
        want.add('"');
        want.add(value);
        want.add('"');
        break;
    }
    case 27: case 28:
    {
        const bool bits = kind == 28;
        const size_t n = zv_split(0, 3), rest = bits ? zv_split(0, 7) : 0;
        if (rest > 0 && n == 0) return;
        const uint8_t* data = zv_buffer("data", n);
        const size_t bitSize = rest > 0 ? n * 8 - rest : n * 8;
        if (bits)
        {
            const zserio::BasicBitBuffer<A> value(zserio::Span<const uint8_t>(data, n), bitSize);
            zv_check(shown(w, zserio::reflectable(value), field, index), "a value of every kind is written");
        }
        else zv_check(shown(w, zserio::reflectable(zserio::BytesView(data, n)), field, index), "a value of every kind is written");
        want.add("{\"buffer\": [");
        for (size_t i = 0; i < n; ++i) want.add(i == 0 ? "#" : ", #");
        want.add(bits ? "], \"bitSize\": #}" : "]}");
        zv_check_eq(r.n, n + (bits ? 1 : 0), "every byte is written");
        for (size_t i = 0; i < n; ++i)
        {
            zv_check(r.r[i].what == 'i' && !r.r[i].negative, "bytes are written as unsigned numbers");
            if (i + 1 < n || rest == 0) zv_check_eq(r.r[i].value, data[i], "every byte is written as itself");
            else zv_check_eq(r.r[i].value >> rest, data[i] >> rest, "every bit is written as itself");
        }
        if (bits) zv_check_eq(r.r[n].value, bitSize, "the number of bits is written");
        break;
    }
    default:
    {
        // an object where a value is expected
        zd::StructTypeInfo<A> structure("S", nullptr, Sv(), {}, {}, {}, {});
        zd::ChoiceTypeInfo<A> choice("C", nullptr, Sv(), {}, {}, {}, {}, "s", {});
        zd::UnionTypeInfo<A> alternatives("U", nullptr, Sv(), {}, {}, {}, {});
        zd::SqlTableTypeInfo<A> table("T", Sv(), {}, {}, Sv(), Sv(), false);
        zd::ServiceTypeInfo<A> service("V", {});
        const TI* const types[5] = {&structure, &choice, &alternatives, &table, &service};
        const CPtr value(new NamedValue(*types[kind - 29], 0));
        zv_check(!shown(w, value, field, index), "what is not a value is refused");
        zv_check_eq(r.n, 0, "what is not a value is not written as one");
        zv_cover("refused");
        return;
    }
    }
    compare(buf, want, "a field is written with its name, an element without");
    zv_cover("written");
}

// enumerations and bitmasks, by name and by number
ZV_HARNESS(J05_names)
{
    const uint64_t kind = zv_split(0, 2); // signed enumeration, unsigned enumeration, bitmask
    const bool numeric = zv_split(0, 1) != 0;
    const uint64_t high = zv_split(0, 15);
    const bool withZero = zv_split(0, 1) != 0;
    zv_shard();
    __libc_single_threaded = 1;
    const uint64_t low = zv_split(0, 15);
    const uint64_t byte = high * 16 + low;
    const int64_t v = kind == 0 ? static_cast<int8_t>(byte) : static_cast<int64_t>(byte);
    zvs::OutBuf buf;
    zvs::Out out(&buf);
    Writer w(out.get());
    if (numeric) w.setEnumerableFormat(Format::NUMBER);
    const uint64_t values[4] = {static_cast<uint64_t>(kind == 0 ? int64_t(-7) : int64_t(5)), 4, 0x90, 0};
    static const char* const NAMES[4] = {"AB", "c", "D", "ZERO"};
    const zserio::ItemInfo items[4] = {{NAMES[0], values[0], false, false}, {NAMES[1], values[1], false, false}, {NAMES[2], values[2], false, true},
        {NAMES[3], values[3], false, false}};
    const size_t count = withZero ? 4 : 3;
    const zserio::Span<const zserio::ItemInfo> span(items, count);
    const TI& under = kind == 0 ? zserio::typeInfo<zserio::Int8, A>() : u8();
    const zd::EnumTypeInfo<A> enumType("E", under, span);
    const zd::BitmaskTypeInfo<A> maskType("M", u8(), span);
    const CPtr value(new NamedValue(kind < 2 ? static_cast<const TI&>(enumType) : maskType, v));
    const FI field = fieldInfo("k", u8());
    zv_check(shown(w, value, field, 0), "a value of every kind is written");
    Text want;
    if (numeric)
    {
        one('i', v < 0, static_cast<uint64_t>(v));
        want.add('#');
        compare(buf, want, "a number is written for an item");
        zv_cover("number");
        return;
    }
    want.add('"');
    Text names;
    uint64_t covered = 0;
    for (size_t i = 0; i < count; ++i)
    {
        if (kind < 2 ? static_cast<uint64_t>(v) == values[i] && names.n == 0
                     : values[i] == 0 ? v == 0 : (static_cast<uint64_t>(v) & values[i]) == values[i])
        {
            if (names.n > 0) names.add(" | ");
            names.add(NAMES[i]);
            covered |= values[i];
        }
    }
    if (names.n == 0 || (kind == 2 && covered != static_cast<uint64_t>(v)))
    {
        if (v < 0) want.add('-');
        want.number(v < 0 ? static_cast<uint64_t>(-v) : static_cast<uint64_t>(v));
        if (names.n == 0) { want.add(" /* no match */"); zv_cover("no match"); }
        else
        {
            want.add(" /* partial match: ");
            want.add(Sv(names.c, names.n));
            want.add(" */");
            zv_cover("partial match");
        }
    }
    else { want.add(Sv(names.c, names.n)); zv_cover("match"); }
    want.add('"');
    compare(buf, want, "the names of the items are written, or the number");
}
