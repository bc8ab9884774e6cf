// J06: the object the JSON reader builds is the one the document describes. The parser (J04) is replaced by an arbitrary
// source of the events of a document, the tree creator (T03) by one which records what it is told.
#include "zv.h"
#include <algorithm>
#include <array>
#include <istream>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>
#include <sys/single_threaded.h>
#include "zserio/Any.h"
#include "zserio/BitBuffer.h"
#include "zserio/CppRuntimeException.h"
#include "zserio/JsonParser.h"
#include "zserio/ReflectableData.h"
#include "zserio/TypeInfo.h"

namespace
{

template <typename T>
struct Alloc : std::allocator<T>
{
    template <typename U>
    struct rebind { using other = Alloc<U>; };
    Alloc() = default;
    template <typename U>
    Alloc(const Alloc<U>&) {}
};
using A = Alloc<uint8_t>;
using Text = zserio::BasicString<Alloc<char>>;
using Any = zserio::BasicAny<A>;
using TI = zserio::IBasicTypeInfo<A>;
using Ptr = zserio::IBasicReflectableDataPtr<A>;
using Sv = std::string_view;
using zserio::CppRuntimeException;
using zserio::CppType;
using zserio::SchemaType;

// ---- what a document says and what the creator is told ------------------------------------------------------------
enum Op { BEGIN_ROOT, END_ROOT, BEGIN_ARRAY, END_ARRAY, BEGIN_COMPOUND, END_COMPOUND, SET, BEGIN_ELEMENT, END_ELEMENT, ADD };
enum Value { NONE, NUL, BOOLEAN, INT, UINT, DOUBLE, STRING, BYTES, BITS };
struct Call { Op op; char name; Value value; uint64_t raw; uint64_t size; uint64_t parts[2]; };

struct Calls
{
    static constexpr size_t MAX = 24;
    Call c[MAX];
    size_t n = 0;
    Call& add(Op op, char name, Value value = NONE, uint64_t raw = 0)
    {
        zv_check(n < MAX, "no more calls than there are parts of the document");
        c[n] = {op, name, value, raw, 0, {0, 0}};
        return c[n++];
    }
};

Calls g_told, g_want;
bool g_badUse = false;
struct Frame { bool array; char type; };
Frame g_frames[8];
size_t g_depth = 0;

const TI& typeOf(char name)
{
    static const zserio::detail::StructTypeInfo<A> structure("S", nullptr, Sv(), {}, {}, {}, {});
    static const zserio::detail::BuiltinTypeInfo<A> bytes("bytes", SchemaType::BYTES, CppType::BYTES);
    static const zserio::detail::BuiltinTypeInfo<A> bits("extern", SchemaType::EXTERN, CppType::BIT_BUFFER);
    return name == 'b' ? static_cast<const TI&>(bytes) : name == 't' ? static_cast<const TI&>(bits) : structure;
}

struct Root : zserio::detail::ReflectableDataBase<A>
{
    Root() : zserio::detail::ReflectableDataBase<A>(typeOf('s')) {}
    using zserio::detail::ReflectableDataBase<A>::getField;
    using zserio::detail::ReflectableDataBase<A>::at;
    using zserio::detail::ReflectableDataBase<A>::getAnyValue;
};

[[noreturn]] void misuse() { g_badUse = true; throw CppRuntimeException("not possible here"); }

} // namespace

#define ZSERIO_ZSERIO_TREE_CREATOR_H_INC
namespace zserio
{

template <typename ALLOC>
class BasicZserioTreeCreator
{
public:
    using Name = BasicString<RebindAlloc<ALLOC, char>>;
    explicit BasicZserioTreeCreator(const IBasicTypeInfo<ALLOC>& typeInfo, const ALLOC& = ALLOC())
    {
        zv_check(&typeInfo == &typeOf('s'), "the object is created of the type asked for");
        g_depth = 0;
        m_begun = false;
    }
    void beginRoot() { if (m_begun) misuse(); m_begun = true; g_told.add(BEGIN_ROOT, 0); push(false, 's'); }
    IBasicReflectableDataPtr<ALLOC> endRoot()
    {
        if (g_depth != 1) misuse();
        --g_depth;
        g_told.add(END_ROOT, 0);
        return std::make_shared<Root>();
    }
    void beginArray(const Name& name) { field(name); g_told.add(BEGIN_ARRAY, name[0]); push(true, name[0]); }
    void endArray() { if (g_depth < 2 || !top().array) misuse(); --g_depth; g_told.add(END_ARRAY, 0); }
    void beginCompound(const Name& name) { field(name); g_told.add(BEGIN_COMPOUND, name[0]); push(false, 's'); }
    void endCompound() { if (g_depth < 2 || top().array) misuse(); --g_depth; g_told.add(END_COMPOUND, 0); }
    template <typename T>
    void setValue(const Name& name, T&& value) { field(name); record(g_told.add(SET, name[0]), value); }
    void setValue(const Name& name, std::nullptr_t) { field(name); g_told.add(SET, name[0], NUL); }
    const IBasicTypeInfo<ALLOC>& getFieldType(const Name& name) const { field(name); return typeOf(name[0]); }
    void beginCompoundElement() { if (g_depth == 0 || !top().array) misuse(); g_told.add(BEGIN_ELEMENT, 0); push(false, 's'); }
    void endCompoundElement() { if (g_depth < 2 || top().array) misuse(); --g_depth; g_told.add(END_ELEMENT, 0); }
    template <typename T>
    void addValueElement(T&& value) { if (g_depth == 0 || !top().array) misuse(); record(g_told.add(ADD, 0), value); }
    const IBasicTypeInfo<ALLOC>& getElementType() const { if (g_depth == 0 || !top().array) misuse(); return typeOf(top().type); }

private:
    static Frame& top() { return g_frames[g_depth - 1]; }
    static void push(bool array, char type) { zv_check(g_depth < 8, "no deeper than the document"); g_frames[g_depth++] = {array, type}; }
    static void field(const Name& name) { if (g_depth == 0 || top().array || name.empty()) misuse(); }
    static void record(Call& c, std::nullptr_t) { c.value = NUL; }
    static void record(Call& c, const BasicAny<ALLOC>& any)
    {
        if (any.template isType<BasicBitBuffer<ALLOC>>())
        {
            const auto& buffer = any.template get<BasicBitBuffer<ALLOC>>();
            c.value = BITS;
            c.raw = buffer.getBitSize();
            store(c, buffer.getData());
        }
        else
        {
            c.value = BYTES;
            const auto& bytes = any.template get<BasicBytes<ALLOC>>();
            store(c, Span<const uint8_t>(bytes.data(), bytes.size()));
        }
    }
    static void store(Call& c, Span<const uint8_t> data)
    {
        c.size = data.size();
        for (size_t i = 0; i < data.size() && i < 2; ++i) c.parts[i] = data[i];
    }
    template <typename T>
    static void record(Call& c, const T& v)
    {
        if constexpr (std::is_same_v<T, bool>) { c.value = BOOLEAN; c.raw = v; }
        else if constexpr (std::is_same_v<T, double>) { c.value = DOUBLE; c.raw = v == 0.25; }
        else if constexpr (std::is_integral_v<T>) { c.value = std::is_signed_v<T> ? INT : UINT; c.raw = static_cast<uint64_t>(v); }
        else { c.value = STRING; c.raw = Sv(v) == "text"; }
    }
    bool m_begun = false;
};

} // namespace zserio

namespace
{

using Observer = zserio::BasicJsonParser<Alloc<uint8_t>>::IObserver;

// the document: an arbitrary one within the limits of the harness
struct Document
{
    uint64_t form = 0;        // which harness
    size_t values = 0;        // number of values so far
    size_t limit = 5;
    bool refused = false;     // the document does not describe an object
};
Document g_doc;

size_t g_shardAt = 3;      // the value before which the documents are partitioned
bool g_atEnd = false;      // there is no document
bool g_parserFails = false; // the text stops being JSON somewhere
struct ParserStops : zserio::JsonParserException { using zserio::JsonParserException::JsonParserException; };

// a value somewhere in the document, told to the observer and to the list of calls it should lead to
struct Place { bool array, root; char name; char type; };

void scalarCall(const Place& p, Value value, uint64_t raw)
{
    if (p.root || (!p.array && p.name == 0)) { g_doc.refused = true; return; }
    if (!g_doc.refused) g_want.add(p.array ? ADD : SET, p.array ? 0 : p.name, value, raw);
}

void scalar(Observer& o, const Place& p, uint64_t kind)
{
    switch (kind)
    {
    case 0: scalarCall(p, NUL, 0); o.visitValue(nullptr); break;
    case 1: { const bool v = zv_choice("bool"); scalarCall(p, BOOLEAN, v); o.visitValue(v); break; }
    case 2: { const int64_t v = static_cast<int64_t>(zv_sym("int", 64)); scalarCall(p, INT, static_cast<uint64_t>(v)); o.visitValue(v); break; }
    case 3: { const uint64_t v = zv_sym("uint", 64); scalarCall(p, UINT, v); o.visitValue(v); break; }
    case 4: scalarCall(p, DOUBLE, 1); o.visitValue(0.25); break;
    default: scalarCall(p, STRING, 1); o.visitValue(Sv("text")); break;
    }
}

void other(Observer& o, uint64_t kind)
{
    switch (kind)
    {
    case 0: o.visitValue(nullptr); break;
    case 1: o.visitValue(true); break;
    case 2: o.visitValue(static_cast<int64_t>(-1)); break;
    case 3: o.visitValue(0.25); break;
    case 4: o.visitValue(Sv("text")); break;
    case 5: o.beginObject(); o.endObject(); break;
    default: o.beginArray(); o.endArray(); break;
    }
}

// the object which stands for a byte array or bit buffer
void special(Observer& o, const Place& p, char type)
{
    o.beginObject();
    const uint64_t members = zv_split(0, 3);
    bool hasBuffer = false, hasSize = false;
    uint64_t size = 0, bitSize = 0, part[2] = {0, 0};
    for (uint64_t m = 0; m < members; ++m)
    {
        const uint64_t key = m == 0 ? zv_split(0, 2) : zv_split(0, 1);
        static const char* const KEYS[3] = {"buffer", "bitSize", "buff"};
        if (key == 2 || (key == 1 && type != 't')) g_doc.refused = true;
        o.visitKey(KEYS[key]);
        const uint64_t shape = zv_split(0, 2); // what is expected there, a number, anything else
        if (key == 1 && shape < 2)
        {
            bitSize = zv_sym("bits", 64);
            hasSize = true;
            o.visitValue(bitSize);
        }
        else if (key != 1 && shape == 0)
        {
            o.beginArray();
            size = zv_split(0, 2);
            hasBuffer = true;
            for (uint64_t i = 0; i < size; ++i)
            {
                part[i] = zv_sym("byte", 64);
                if (part[i] > 255) g_doc.refused = true;
                o.visitValue(part[i]);
            }
            if (m == 0 && zv_split(0, 1)) { g_doc.refused = true; other(o, zv_split(0, 6)); }
            o.endArray();
        }
        else
        {
            g_doc.refused = true;
            if (shape == 1) o.visitValue(static_cast<uint64_t>(7));
            else other(o, m == 0 ? zv_split(0, 5) : 3);
            // an array of no elements is not a number either
        }
    }
    if (!hasBuffer || (type == 't' && (!hasSize || bitSize > size * 8))) g_doc.refused = true;
    if (p.root || (!p.array && p.name == 0)) g_doc.refused = true;
    if (!g_doc.refused)
    {
        Call& c = g_want.add(p.array ? ADD : SET, p.array ? 0 : p.name, type == 't' ? BITS : BYTES, type == 't' ? bitSize : 0);
        c.size = size;
        for (uint64_t i = 0; i < size; ++i) c.parts[i] = part[i];
        zv_cover("special");
    }
    o.endObject();
}

char nameOf(uint64_t kind)
{
    static const char NAMES[4] = {'c', 0, 'b', 't'};
    return NAMES[kind];
}

void value(Observer& o, const Place& p, size_t depth);

void members(Observer& o, size_t depth)
{
    while (g_doc.values < g_doc.limit && zv_split(0, 1))
    {
        const char name = nameOf(g_doc.form == 0 ? zv_split(0, 1) : g_doc.form == 1 ? zv_split(2, 3) : 0);
        const char text[2] = {name, 0};
        o.visitKey(Sv(text, name == 0 ? 0 : 1));
        value(o, {false, false, name, name}, depth);
    }
}

void value(Observer& o, const Place& p, size_t depth)
{
    if (++g_doc.values == g_shardAt) zv_shard();
    if (g_parserFails && zv_split(0, 1)) { g_doc.refused = true; throw ParserStops("text ends"); }
    const uint64_t shape = p.root && g_doc.form != 2 ? 1 : depth == 3 ? 0 : zv_split(0, 2); // scalar, object, array
    if (shape == 0)
    {
        scalar(o, p, g_doc.form == 2 ? zv_split(0, 5) : g_doc.form == 3 ? 2 : 0);
        return;
    }
    if (shape == 1)
    {
        if (!p.root && (p.type == 'b' || p.type == 't')) { special(o, p, p.type); return; }
        if (!p.array && !p.root && p.name == 0) g_doc.refused = true;
        if (!g_doc.refused) g_want.add(p.root ? BEGIN_ROOT : p.array ? BEGIN_ELEMENT : BEGIN_COMPOUND, p.array || p.root ? 0 : p.name);
        o.beginObject();
        members(o, depth + 1);
        if (!g_doc.refused) g_want.add(p.root ? END_ROOT : p.array ? END_ELEMENT : END_COMPOUND, 0);
        o.endObject();
        return;
    }
    if (p.root || p.array || p.name == 0) g_doc.refused = true;
    if (!g_doc.refused) g_want.add(BEGIN_ARRAY, p.name);
    o.beginArray();
    const char type = p.type;
    while (g_doc.values < g_doc.limit && zv_split(0, 1)) value(o, {true, false, 0, type}, depth + 1);
    if (!g_doc.refused) g_want.add(END_ARRAY, 0);
    o.endArray();
}

} // namespace

namespace zserio
{
template <>
bool BasicJsonParser<Alloc<uint8_t>>::parse()
{
    if (g_atEnd) return true;
    value(m_observer, {false, true, 0, 's'}, 0);
    return zv_choice("end of text");
}
template <>
size_t BasicJsonParser<Alloc<uint8_t>>::getLine() const { return 1; }
template <>
size_t BasicJsonParser<Alloc<uint8_t>>::getColumn() const { return 1; }
} // namespace zserio

#include "zserio/JsonReader.h"
#include "streams.h"

namespace
{

// one document read: 0 an object, 1 refused
void readOne(zserio::BasicJsonReader<A>& reader)
{
    g_told.n = 0;
    g_want.n = 0;
    g_doc.values = 0;
    g_doc.refused = g_atEnd;
    bool refused = false;
    Ptr object;
    try { object = reader.read(typeOf('s')); }
    catch (const CppRuntimeException&) { refused = true; }
    zv_check_eq(refused, g_doc.refused, "a document is read exactly if it describes an object");
    if (refused)
    {
        zv_cover("refused");
        return;
    }
    zv_check(object != nullptr, "the object read is given");
    zv_check_eq(g_told.n, g_want.n, "every part of the document reaches the object");
    for (size_t i = 0; i < g_told.n && i < g_want.n; ++i)
    {
        const Call &told = g_told.c[i], &want = g_want.c[i];
        zv_check(told.op == want.op && told.value == want.value, "every part of the document becomes the part of the object it describes");
        zv_check_eq(static_cast<uint8_t>(told.name), static_cast<uint8_t>(want.name), "every member of the document goes to the field of its name");
        zv_check_eq(told.raw, want.raw, "every value of the document is the one the object gets");
        zv_check_eq(told.size, want.size, "every byte of a buffer is read");
        if (told.size != want.size || told.size > 2) return;
        for (size_t k = 0; k < told.size; ++k)
        {
            const uint64_t rest = want.value == BITS && want.raw < 8 * (k + 1) ? 8 * (k + 1) - want.raw : 0;
            if (rest < 8) zv_check_eq(told.parts[k] >> rest, want.parts[k] >> rest, "every byte of a buffer is read as itself");
        }
    }
    zv_cover("read");
}

void readDocument(uint64_t form, size_t limit)
{
    __libc_single_threaded = 1;
    g_doc.form = form;
    g_doc.limit = limit;
    zvs::InBuf buf;
    zvs::In in(&buf);
    zserio::BasicJsonReader<A> reader(in.get());
    readOne(reader);
}

} // namespace

// documents of any shape
ZV_HARNESS(J06_shapes) { readDocument(0, 5); }

// scalars of every kind
ZV_HARNESS(J06_scalars) { readDocument(2, 3); }

// byte arrays and bit buffers, right and wrong
ZV_HARNESS(J06_special) { g_shardAt = 2; readDocument(1, 2); }

// one reader reads one document after another
ZV_HARNESS(J06_again)
{
    __libc_single_threaded = 1;
    const uint64_t form = zv_split(0, 1), limit = zv_split(1, 3), stops = zv_split(0, 1);
    zv_shard();
    g_doc.form = form == 0 ? 0 : 3;
    g_doc.limit = limit;
    g_shardAt = 100;
    zvs::InBuf buf;
    zvs::In in(&buf);
    zserio::BasicJsonReader<A> reader(in.get());
    g_parserFails = stops != 0;
    readOne(reader);
    g_parserFails = false;
    g_atEnd = zv_split(0, 1) != 0;
    g_doc.form = 3;
    readOne(reader);
}
