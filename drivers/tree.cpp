// T03: the tree creator against every short sequence of calls; type infos are real, the objects record what they are asked
#include "zv.h"
#include <array>
#include <memory>
#include <sys/single_threaded.h>
#include "zserio/ReflectableData.h"
#include "zserio/TypeInfo.h"
#include "zserio/ZserioTreeCreator.h"

namespace
{

using A = std::allocator<uint8_t>;
using Any = zserio::BasicAny<A>;
using TI = zserio::IBasicTypeInfo<A>;
using FI = zserio::BasicFieldInfo<A>;
using Data = zserio::IBasicReflectableData<A>;
using Ptr = zserio::IBasicReflectableDataPtr<A>;
using Creator = zserio::BasicZserioTreeCreator<A>;
using zserio::CppRuntimeException;
using zserio::CppType;
using zserio::SchemaType;

struct Refused {};   // what a refusing object throws

enum Op { BEGIN_ROOT, END_ROOT, BEGIN_ARRAY, END_ARRAY, BEGIN_COMPOUND, END_COMPOUND, SET_VALUE, SET_NULL, FIELD_TYPE, BEGIN_ELEMENT, END_ELEMENT,
          ADD_VALUE, ELEMENT_TYPE, OPS };
enum Event { E_CREATE, E_GET, E_SET, E_SET_EMPTY, E_RESIZE, E_AT, E_APPEND, E_INSTANCE };

constexpr size_t NODES = 12, EVENTS = 4;
struct Logged { Event event; size_t node; char name; uint64_t value; };
Logged g_log[EVENTS];
size_t g_logged = 0;
bool g_mayRefuse = false;

void event(Event e, size_t node, char name, uint64_t value)
{
    if (g_mayRefuse && zv_choice("refuse")) throw Refused();
    zv_check(g_logged < EVENTS, "no more than the calls needed are made on the objects of the tree");
    g_log[g_logged++] = Logged{e, node, name, value};
}

struct Node;
size_t g_nodes = 0;
Node* g_node[NODES];
Ptr newNode(const TI& type);

uint64_t valueOf(const Any& value) { return value.isType<uint8_t>() ? value.get<uint8_t>() : value.isType<uint32_t>() ? value.get<uint32_t>() : 1000; }

struct Node : zserio::detail::ReflectableDataBase<A>
{
    Node(const TI& type, size_t id) : zserio::detail::ReflectableDataBase<A>(type), m_id(id) {}
    using zserio::detail::ReflectableDataBase<A>::getField;
    using zserio::detail::ReflectableDataBase<A>::at;
    using zserio::detail::ReflectableDataBase<A>::getAnyValue;

    const FI& field(std::string_view name)
    {
        for (const FI& f : this->getTypeInfo().getFields()) if (f.schemaName == name) return f;
        zv_fail("only fields of the object are touched");
        return this->getTypeInfo().getFields()[0];
    }
    Ptr getField(std::string_view name) override { const FI& f = field(name); event(E_GET, m_id, name[0], 0); return newNode(f.typeInfo); }
    Ptr createField(std::string_view name) override { const FI& f = field(name); event(E_CREATE, m_id, name[0], 0); return newNode(f.typeInfo); }
    void setField(std::string_view name, const Any& value) override
    {
        field(name);
        if (value.hasValue() && !value.isType<std::nullptr_t>()) event(E_SET, m_id, name[0], valueOf(value));
        else event(E_SET_EMPTY, m_id, name[0], 0);
    }
    size_t size() const override { return m_size; }
    void resize(size_t size) override { event(E_RESIZE, m_id, 0, size); m_size = size; }
    Ptr at(size_t index) override { zv_check(index < m_size, "elements are taken inside the array"); event(E_AT, m_id, 0, index); return newNode(this->getTypeInfo()); }
    void append(const Any& value) override { event(E_APPEND, m_id, 0, valueOf(value)); ++m_size; }

    size_t m_id;
    size_t m_size = 3;
};

Ptr newNode(const TI& type)
{
    const size_t id = g_nodes++;
    zv_check(id < NODES, "objects are made only when they are needed");
    g_node[id] = new Node(type, id);
    return Ptr(g_node[id]);
}

Ptr createInstance(const A&)
;

const TI* g_root = nullptr;
Ptr createInstance(const A&) { event(E_INSTANCE, NODES, 0, 0); return newNode(*g_root); }

using Sv = std::string_view;
FI fieldInfo(Sv name, const TI& type, bool optional, bool array)
{
    return FI(name, type, zserio::Span<const Sv>(), false, Sv(), Sv(), Sv(), optional, Sv(), Sv(), array, Sv(), false, false);
}

struct Schema
{
    zserio::detail::FixedSizeBuiltinTypeInfo<A> u8{"uint8", SchemaType::UINT8, CppType::UINT8, 8};
    std::array<FI, 6> fields;
    std::array<FI, 2> unionFields;
    zserio::detail::StructTypeInfo<A> root;
    zserio::detail::UnionTypeInfo<A> choice;
    Schema() : fields{fieldInfo("a", root, false, false), fieldInfo("o", root, true, false), fieldInfo("v", u8, false, false), fieldInfo("x", root, false, true),
                      fieldInfo("y", u8, true, true), fieldInfo("u", choice, false, false)},
               unionFields{fieldInfo("a", root, false, false), fieldInfo("v", u8, false, false)},
               root("R", createInstance, Sv(), {}, fields, {}, {}), choice("U", createInstance, Sv(), {}, unionFields, {}, {})
    {
        g_root = &root;
    }
};

enum TypeId { T_ROOT, T_UNION, T_U8 };
struct FieldRef { char name; TypeId type; bool optional, array; };
const FieldRef FIELDS[6] = {{'a', T_ROOT, false, false}, {'o', T_ROOT, true, false}, {'v', T_U8, false, false}, {'x', T_ROOT, false, true},
    {'y', T_U8, true, true}, {'u', T_UNION, false, false}};
const FieldRef UNION_FIELDS[2] = {{'a', T_ROOT, false, false}, {'v', T_U8, false, false}};
constexpr size_t NAMES = 7;
const char NAME[NAMES] = {'a', 'o', 'v', 'x', 'y', 'u', 'z'};

// reference machine
enum What { W_ROOT, W_COMPOUND, W_ARRAY, W_ELEMENT };
struct Level { What what; TypeId type; size_t node; size_t size; };
Level g_level[8];
size_t g_depth = 0;

const FieldRef* lookup(char name)
{
    if (g_depth == 0) return nullptr;
    const Level& top = g_level[g_depth - 1];
    if (top.type == T_UNION) { for (const FieldRef& f : UNION_FIELDS) if (f.name == name) return &f; return nullptr; }
    for (const FieldRef& f : FIELDS) if (f.name == name) return &f;
    return nullptr;
}
bool inArray() { return g_depth > 0 && g_level[g_depth - 1].what == W_ARRAY; }
bool inCompound() { return g_depth > 0 && g_level[g_depth - 1].what != W_ARRAY; }

bool legal(Op op, char name, uint64_t value)
{
    const FieldRef* f = inCompound() ? lookup(name) : nullptr;
    const Level* top = g_depth > 0 ? &g_level[g_depth - 1] : nullptr;
    switch (op)
    {
    case BEGIN_ROOT: return g_depth == 0;
    case END_ROOT: return top != nullptr && top->what == W_ROOT;
    case BEGIN_ARRAY: return f != nullptr && f->array;
    case END_ARRAY: return inArray();
    case BEGIN_COMPOUND: return f != nullptr && !f->array && f->type != T_U8;
    case END_COMPOUND: return top != nullptr && top->what == W_COMPOUND;
    case SET_VALUE: return f != nullptr && !f->array && (f->type != T_U8 || value <= 255);
    case SET_NULL: return f != nullptr;
    case FIELD_TYPE: return f != nullptr;
    case BEGIN_ELEMENT: return inArray() && top->type != T_U8;
    case END_ELEMENT: return top != nullptr && top->what == W_ELEMENT;
    case ADD_VALUE: return inArray() && (top->type != T_U8 || value <= 255);
    case ELEMENT_TYPE: return inArray();
    default: return false;
    }
}

void push(What what, TypeId type, size_t node) { g_level[g_depth++] = Level{what, type, node, 3}; }

void expectOne(Event e, size_t node, char name, uint64_t value)
{
    zv_check(g_logged == 1, "the operation is exactly one call on the object");
    zv_check(g_log[0].event == e && g_log[0].node == node, "the right call on the object which is open");
    zv_check(e == E_INSTANCE || e == E_APPEND || g_log[0].name == name, "the field named");
    zv_check_eq(g_log[0].value, value, "value passed to the object");
}

void call(Creator& creator, Op op, char name, uint32_t value, bool may)
{
    const zserio::BasicString<A::rebind<char>::other> text(1, name);
    const bool ok = legal(op, name, value);
    const size_t nodes = g_nodes;
    const Level top = g_depth > 0 ? g_level[g_depth - 1] : Level{W_ROOT, T_ROOT, 0, 0};
    const FieldRef* f = inCompound() ? lookup(name) : nullptr;
    g_logged = 0;
    g_mayRefuse = may;
    int outcome = 0;
    Ptr result;
    const TI* type = nullptr;
    try
    {
        switch (op)
        {
        case BEGIN_ROOT: creator.beginRoot(); break;
        case END_ROOT: result = creator.endRoot(); break;
        case BEGIN_ARRAY: creator.beginArray(text); break;
        case END_ARRAY: creator.endArray(); break;
        case BEGIN_COMPOUND: creator.beginCompound(text); break;
        case END_COMPOUND: creator.endCompound(); break;
        case SET_VALUE: creator.setValue(text, value); break;
        case SET_NULL: creator.setValue(text, nullptr); break;
        case FIELD_TYPE: type = &creator.getFieldType(text); break;
        case BEGIN_ELEMENT: creator.beginCompoundElement(); break;
        case END_ELEMENT: creator.endCompoundElement(); break;
        case ADD_VALUE: creator.addValueElement(value); break;
        default: type = &creator.getElementType(); break;
        }
    }
    catch (const CppRuntimeException&) { outcome = 1; }
    catch (const Refused&) { outcome = 2; }
    g_mayRefuse = false;
    if (!ok) { zv_check(outcome == 1, "a call which does not fit the state raises"); zv_check(g_logged == 0 && g_nodes == nodes, "a refused call touches no object"); return; }
    if (outcome == 2)       // the object refused: nothing changed
    {
        zv_cover("an object refuses");
        if (op == BEGIN_ELEMENT && g_logged == 1) ++g_level[g_depth - 1].size;   // the element is there but could not be opened
        return;
    }
    zv_check(outcome == 0, "a call which fits the state succeeds");
    const TypeId ft = f != nullptr ? f->type : T_U8;
    switch (op)
    {
    case BEGIN_ROOT: expectOne(E_INSTANCE, NODES, 0, 0); push(W_ROOT, T_ROOT, nodes); break;
    case END_ROOT:
        zv_check(g_logged == 0, "ending touches no object");
        zv_check(result.get() == g_node[top.node], "the result is the root which was begun");
        g_depth = 0;
        break;
    case BEGIN_ARRAY: expectOne(E_CREATE, top.node, name, 0); push(W_ARRAY, ft, nodes); break;
    case BEGIN_COMPOUND: expectOne(top.type == T_UNION || f->optional ? E_CREATE : E_GET, top.node, name, 0); push(W_COMPOUND, ft, nodes); break;
    case END_ARRAY: case END_COMPOUND: case END_ELEMENT: zv_check(g_logged == 0, "ending touches no object"); --g_depth; break;
    case SET_VALUE: expectOne(E_SET, top.node, name, value); break;
    case SET_NULL: expectOne(f->optional ? E_SET_EMPTY : E_CREATE, top.node, name, 0); break;
    case BEGIN_ELEMENT:
        zv_check(g_logged == 2 && g_log[0].event == E_RESIZE && g_log[1].event == E_AT && g_log[0].node == top.node && g_log[1].node == top.node,
                "an element is added to the open array and opened");
        zv_check_eq(g_log[0].value, top.size + 1, "the array grows by one");
        zv_check_eq(g_log[1].value, top.size, "the new element is opened");
        ++g_level[g_depth - 1].size;
        push(W_ELEMENT, top.type, nodes);
        break;
    case ADD_VALUE: expectOne(E_APPEND, top.node, 0, value); ++g_level[g_depth - 1].size; break;
    default:
    {
        zv_check(g_logged == 0, "asking for a type touches no object");
        const TypeId want = op == FIELD_TYPE ? ft : top.type;
        zv_check(type->getCppType() == (want == T_ROOT ? CppType::STRUCT : want == T_UNION ? CppType::UNION : CppType::UINT8), "the type of the field");
        break;
    }
    }
}

bool named(Op op) { return op == BEGIN_ARRAY || op == BEGIN_COMPOUND || op == SET_VALUE || op == SET_NULL || op == FIELD_TYPE; }

struct Step { Op op; char name; };
const Step PREFIX[10][5] = {
    {}, {{BEGIN_ROOT, 0}}, {{BEGIN_ROOT, 0}, {BEGIN_COMPOUND, 'a'}}, {{BEGIN_ROOT, 0}, {BEGIN_COMPOUND, 'u'}}, {{BEGIN_ROOT, 0}, {BEGIN_ARRAY, 'x'}},
    {{BEGIN_ROOT, 0}, {BEGIN_ARRAY, 'y'}}, {{BEGIN_ROOT, 0}, {BEGIN_ARRAY, 'x'}, {BEGIN_ELEMENT, 0}},
    {{BEGIN_ROOT, 0}, {BEGIN_ARRAY, 'x'}, {BEGIN_ELEMENT, 0}, {BEGIN_COMPOUND, 'o'}}, {{BEGIN_ROOT, 0}, {BEGIN_COMPOUND, 'a'}, {BEGIN_ARRAY, 'x'}},
    {{BEGIN_ROOT, 0}, {BEGIN_COMPOUND, 'u'}, {BEGIN_COMPOUND, 'a'}, {BEGIN_ARRAY, 'x'}, {BEGIN_ELEMENT, 0}}};
const size_t PREFIX_SIZE[10] = {0, 1, 2, 2, 2, 2, 3, 4, 3, 5};

#ifndef ZV_THOROUGH
constexpr size_t CALLS = 2;
#else
constexpr size_t CALLS = 3;
#endif

} // namespace

ZV_HARNESS(T03_calls)
{
    const size_t prefix = zv_split(0, 9);
    Op ops[CALLS];
    char names[CALLS];
    ops[0] = static_cast<Op>(zv_split(0, OPS - 1));
    names[0] = named(ops[0]) ? NAME[zv_split(0, NAMES - 1)] : 'a';
    zv_shard();
    __libc_single_threaded = 1;
    {
        Schema schema;
        Creator creator(schema.root);
        for (size_t i = 0; i < PREFIX_SIZE[prefix]; ++i) call(creator, PREFIX[prefix][i].op, PREFIX[prefix][i].name, 0, false);
        const uint32_t value = static_cast<uint32_t>(zv_sym("value", 32));
        for (size_t i = 0; i < CALLS; ++i)
        {
            if (i > 0) { ops[i] = static_cast<Op>(zv_split(0, OPS - 1)); names[i] = named(ops[i]) ? NAME[zv_split(0, NAMES - 1)] : 'a'; }
            call(creator, ops[i], names[i], value, true);
        }
        // what was begun can be ended in the order it was begun, and in no other
        while (g_depth > 0)
        {
            const What what = g_level[g_depth - 1].what;
            if (what != W_ROOT) call(creator, END_ROOT, 'a', 0, false);
            call(creator, what == W_ROOT ? END_ROOT : what == W_ARRAY ? END_ARRAY : what == W_COMPOUND ? END_COMPOUND : END_ELEMENT, 'a', 0, false);
        }
        zv_cover("tree ended");
    }
    zv_check(zv_live() == 0, "all objects are released");
}

// ---------------------------------------------------------------- values
// strtoull as the C standard describes it, for the C locale and base 10
static int g_errno = 0;
extern "C" int* __errno_location() noexcept { return &g_errno; }
extern "C" unsigned long long strtoull(const char* text, char** end, int)
{
    unsigned long long value = 0;
    bool over = false;
    size_t i = 0;
    for (; text[i] >= '0' && text[i] <= '9'; ++i)
    {
        const unsigned digit = static_cast<unsigned>(text[i] - '0');
        if (value > (0xFFFFFFFFFFFFFFFFULL - digit) / 10) over = true;
        value = value * 10 + digit;
    }
    if (end != nullptr) *end = const_cast<char*>(text) + i;
    if (over) { errno = ERANGE; return 0xFFFFFFFFFFFFFFFFULL; }
    return value;
}

namespace
{

template <typename T>
Any make(const TI& type, const T& value, int& outcome)
{
    outcome = 0;
    try { return zserio::detail::makeAnyValue(type, value, A()); }
    catch (const CppRuntimeException&) { outcome = 1; }
    return Any(A());
}

template <typename D, typename S>
bool fits(S value)
{
    if constexpr (std::is_signed_v<S>)
    {
        if (value < 0) return std::is_signed_v<D> && value >= static_cast<int64_t>(std::numeric_limits<D>::min());
    }
    return static_cast<uint64_t>(value) <= static_cast<uint64_t>(std::numeric_limits<D>::max());
}

template <typename D, typename S>
void integral(const TI& type, S value, bool refuse = false)
{
    int outcome;
    const Any any = make(type, value, outcome);
    if (refuse || !fits<D>(value)) { zv_check(outcome == 1, "a value which does not fit raises"); zv_cover("value refused"); return; }
    zv_check(outcome == 0 && any.isType<D>(), "a value which fits is taken as the type of the field");
    zv_check_eq(static_cast<uint64_t>(any.get<D>()), static_cast<uint64_t>(value), "the value itself");
    zv_cover("value taken");
}

template <typename S>
void fromInteger(const TI& type, S value)
{
    switch (type.getCppType())
    {
    case CppType::BOOL: { int outcome; make(type, value, outcome); zv_check(outcome == 1, "an integer is no bool"); break; }
    case CppType::UINT8: integral<uint8_t>(type, value); break;
    case CppType::UINT16: integral<uint16_t>(type, value); break;
    case CppType::UINT32: integral<uint32_t>(type, value); break;
    case CppType::UINT64: integral<uint64_t>(type, value); break;
    case CppType::INT8: integral<int8_t>(type, value); break;
    case CppType::INT16: integral<int16_t>(type, value); break;
    case CppType::INT32: integral<int32_t>(type, value); break;
    case CppType::INT64: integral<int64_t>(type, value); break;
    default: { int outcome; make(type, value, outcome); zv_check(outcome == 1, "an integer is no string"); break; }
    }
}

bool isName(const char* text, size_t at, size_t size, const char* name)
{
    size_t n = 0;
    for (; name[n] != 0; ++n) if (at + n >= size || text[at + n] != name[n]) return false;
    return at + n == size || text[at + n] == ' ' || text[at + n] == '|';
}

const char* const ITEMS[3] = {"A", "AB", "b"};
const uint64_t ITEM_VALUES[3] = {1, 4, 250};

} // namespace

ZV_HARNESS(T03_integers)
{
    const size_t t = zv_split(0, 9), s = zv_split(0, 8);
    zv_shard();
    static const CppType TYPES[10] = {CppType::BOOL, CppType::UINT8, CppType::UINT16, CppType::UINT32, CppType::UINT64, CppType::INT8, CppType::INT16, CppType::INT32,
        CppType::INT64, CppType::STRING};
    const zserio::detail::BuiltinTypeInfo<A> type("t", SchemaType::BOOL, TYPES[t]);
    switch (s)
    {
    case 0: fromInteger(type, static_cast<uint8_t>(zv_sym("v", 8))); break;
    case 1: fromInteger(type, static_cast<uint16_t>(zv_sym("v", 16))); break;
    case 2: fromInteger(type, static_cast<uint32_t>(zv_sym("v", 32))); break;
    case 3: fromInteger(type, static_cast<uint64_t>(zv_sym("v", 64))); break;
    case 4: fromInteger(type, static_cast<int8_t>(zv_sym("v", 8))); break;
    case 5: fromInteger(type, static_cast<int16_t>(zv_sym("v", 16))); break;
    case 6: fromInteger(type, static_cast<int32_t>(zv_sym("v", 32))); break;
    case 7: fromInteger(type, static_cast<int64_t>(zv_sym("v", 64))); break;
    default:
    {
        const bool value = zv_choice("b");
        int outcome;
        const Any any = make(type, value, outcome);
        if (t == 0) { zv_check(outcome == 0 && any.isType<bool>() && any.get<bool>() == value, "the bool itself"); zv_cover("bool taken"); }
        else { zv_check(outcome == 1, "a bool is neither a number nor a string"); zv_cover("bool refused"); }
        break;
    }
    }
}

ZV_HARNESS(T03_names)
{
    const size_t kind = zv_split(0, 2), size = zv_split(0, 4), first = zv_split(0, 3);
    zv_shard();
    char text[6] = {};
    for (size_t i = 0; i < size; ++i) text[i] = static_cast<char>(zv_sym("c", 8));
    static const char FIRST[3] = {'A', 'b', '2'};
    if (first < 3) { if (size == 0) return; zv_assume(text[0] == FIRST[first]); }
    else if (size > 0) zv_assume(text[0] != 'A' && text[0] != 'b' && text[0] != '2');
    const zserio::detail::FixedSizeBuiltinTypeInfo<A> u8("uint8", SchemaType::UINT8, CppType::UINT8, 8);
    const zserio::detail::FixedSizeBuiltinTypeInfo<A> i16("int16", SchemaType::INT16, CppType::INT16, 16);
    const zserio::ItemInfo items[3] = {{ITEMS[0], ITEM_VALUES[0], false, false}, {ITEMS[1], ITEM_VALUES[1], false, false},
        {ITEMS[2], kind == 0 ? static_cast<uint64_t>(-7) : ITEM_VALUES[2], false, false}};
    const zserio::Span<const zserio::ItemInfo> span(items, 3);
    const zserio::detail::EnumTypeInfo<A> enumType("E", kind == 0 ? static_cast<const TI&>(i16) : u8, span);
    const zserio::detail::BitmaskTypeInfo<A> maskType("M", u8, span);
    const std::string_view view(text, size);
    int outcome;
    const Any any = make(kind < 2 ? static_cast<const TI&>(enumType) : maskType, view, outcome);
    zv_check(outcome == 1 || (kind == 0 ? any.isType<int16_t>() : any.isType<uint8_t>()), "a value of the underlying type, or an exception");
    if (kind < 2)
    {
        size_t found = 3;
        for (size_t i = 0; i < 3; ++i) if (view == ITEMS[i]) found = i;
        if (found == 3) { zv_check(outcome == 1, "only the names of the items are accepted"); zv_cover("no such item"); return; }
        zv_check(outcome == 0, "the name of an item is accepted");
        if (kind == 0) zv_check_eq(static_cast<uint64_t>(any.get<int16_t>()), items[found].value, "the value of the item");
        else zv_check_eq(any.get<uint8_t>(), items[found].value, "the value of the item");
        zv_cover("item");
        return;
    }
    // bitmask: a decimal number which may be followed by a comment
    if (size > 0 && text[0] >= '0' && text[0] <= '9')
    {
        uint64_t value = 0;
        for (size_t i = 0; i < size && text[i] >= '0' && text[i] <= '9'; ++i) value = value * 10 + static_cast<uint64_t>(text[i] - '0');
        if (outcome == 0) { zv_check(value <= 255, "a number which does not fit raises"); zv_check_eq(any.get<uint8_t>(), value, "the number itself"); zv_cover("number"); }
        else
        {
            bool digits = true;
            for (size_t i = 0; i < size; ++i) digits = digits && text[i] >= '0' && text[i] <= '9';
            zv_check(!digits || value > 255, "a number which fits is accepted");
        }
        return;
    }
    // or names, each followed by the end or by spaces and bars
    size_t at = 0;
    uint64_t value = 0;
    bool known = size > 0, strict = true;
    while (known && at < size)
    {
        size_t i = 0;
        while (i < 3 && !isName(text, at, size, ITEMS[i])) ++i;
        if (i == 3) { known = false; break; }
        value |= ITEM_VALUES[i];
        at += i == 1 ? 2 : 1;
        if (at == size) break;
        size_t bars = 0;
        while (at < size && (text[at] == ' ' || text[at] == '|')) { bars += text[at] == '|' ? 1 : 0; ++at; }
        if (bars != 1 || at == size) strict = false;
    }
    if (!known) { zv_check(outcome == 1, "only names of values are accepted"); zv_cover("no such value"); return; }
    if (strict) { zv_check(outcome == 0, "names joined by bars are accepted"); zv_cover("names"); }
    if (outcome == 0) zv_check_eq(any.get<uint8_t>(), value, "the values named, together");
}

// T02: every kind of source for every kind of target
template <typename S>
static void convert(const TI& type, const TI& under, const S& value)
{
    enum { S_BOOL, S_INTEGER, S_DOUBLE, S_TEXT } source =
            std::is_same_v<S, bool> ? S_BOOL : std::is_integral_v<S> ? S_INTEGER : std::is_same_v<S, double> ? S_DOUBLE : S_TEXT;
    int outcome;
    const Any any = make(type, value, outcome);
    bool taken;
    switch (type.getCppType())
    {
    case CppType::BOOL: taken = source == S_BOOL; if (taken && outcome == 0) zv_check(any.isType<bool>(), "a bool"); break;
    case CppType::UINT8: taken = source == S_INTEGER; if (taken && outcome == 0) zv_check(any.isType<uint8_t>() && any.get<uint8_t>() == 4, "the number"); break;
    case CppType::UINT16: taken = source == S_INTEGER; if (taken && outcome == 0) zv_check(any.isType<uint16_t>() && any.get<uint16_t>() == 4, "the number"); break;
    case CppType::UINT32: taken = source == S_INTEGER; if (taken && outcome == 0) zv_check(any.isType<uint32_t>() && any.get<uint32_t>() == 4, "the number"); break;
    case CppType::UINT64: taken = source == S_INTEGER; if (taken && outcome == 0) zv_check(any.isType<uint64_t>() && any.get<uint64_t>() == 4, "the number"); break;
    case CppType::INT8: taken = source == S_INTEGER; if (taken && outcome == 0) zv_check(any.isType<int8_t>() && any.get<int8_t>() == 4, "the number"); break;
    case CppType::INT16: taken = source == S_INTEGER; if (taken && outcome == 0) zv_check(any.isType<int16_t>() && any.get<int16_t>() == 4, "the number"); break;
    case CppType::INT32: taken = source == S_INTEGER; if (taken && outcome == 0) zv_check(any.isType<int32_t>() && any.get<int32_t>() == 4, "the number"); break;
    case CppType::INT64: taken = source == S_INTEGER; if (taken && outcome == 0) zv_check(any.isType<int64_t>() && any.get<int64_t>() == 4, "the number"); break;
    case CppType::FLOAT:
        taken = source == S_INTEGER || source == S_DOUBLE;
        if (taken && outcome == 0) zv_check(any.isType<float>() && any.get<float>() == (source == S_DOUBLE ? 0.5F : 4.0F), "the number");
        break;
    case CppType::DOUBLE:
        taken = source == S_INTEGER || source == S_DOUBLE;
        if (taken && outcome == 0) zv_check(any.isType<double>() && any.get<double>() == (source == S_DOUBLE ? 0.5 : 4.0), "the number");
        break;
    case CppType::STRING:
        taken = source == S_TEXT;
        if (taken && outcome == 0) zv_check(any.isType<zserio::String>() && any.get<zserio::String>() == "AB", "the text");
        break;
    case CppType::ENUM: case CppType::BITMASK:
        taken = source == S_INTEGER || source == S_TEXT;
        if (taken && outcome == 0)
        {
            if (under.getCppType() == CppType::INT16) zv_check(any.isType<int16_t>() && any.get<int16_t>() == 4, "the value of the item");
            else zv_check(any.isType<uint8_t>() && any.get<uint8_t>() == 4, "the value of the item");
        }
        break;
    default:
        // nothing becomes a value of another type: it is refused here or by the object which is given it
        if (outcome == 0)
        {
            const bool kept = source == S_BOOL ? any.isType<bool>() : source == S_DOUBLE ? any.isType<double>() : source == S_INTEGER ? any.isType<S>()
                                               : any.isType<zserio::String>() || any.isType<std::string_view>();
            zv_check(kept, "a value which cannot be converted stays what it is");
            zv_cover("kept");
        }
        return;
    }
    zv_check_eq(outcome == 0, taken, "a value is taken exactly by the types it can be converted to");
    if (taken) zv_cover("converted"); else zv_cover("refused");
}

ZV_HARNESS(T02_tree)
{
    const uint64_t target = zv_split(0, 22), source = zv_split(0, 4);
    zv_shard();
    static const CppType TYPES[23] = {CppType::BOOL, CppType::UINT8, CppType::UINT16, CppType::UINT32, CppType::UINT64, CppType::INT8, CppType::INT16, CppType::INT32,
        CppType::INT64, CppType::FLOAT, CppType::DOUBLE, CppType::STRING, CppType::BYTES, CppType::BIT_BUFFER, CppType::STRUCT, CppType::CHOICE, CppType::UNION,
        CppType::SQL_TABLE, CppType::SQL_DATABASE, CppType::SERVICE, CppType::PUBSUB, CppType::ENUM, CppType::BITMASK};
    const zserio::ItemInfo items[1] = {{"AB", 4, false, false}};
    const zserio::Span<const zserio::ItemInfo> span(items, 1);
    const zserio::detail::FixedSizeBuiltinTypeInfo<A> u8("uint8", SchemaType::UINT8, CppType::UINT8, 8);
    const zserio::detail::FixedSizeBuiltinTypeInfo<A> i16("int16", SchemaType::INT16, CppType::INT16, 16);
    const zserio::detail::EnumTypeInfo<A> enumType("E", i16, span);
    const zserio::detail::BitmaskTypeInfo<A> maskType("M", u8, span);
    const zserio::detail::BuiltinTypeInfo<A> plain("t", SchemaType::BOOL, TYPES[target]);
    const TI& type = target == 21 ? static_cast<const TI&>(enumType) : target == 22 ? static_cast<const TI&>(maskType) : plain;
    const TI& under = target == 21 ? i16 : u8;
    switch (source)
    {
    case 0: convert(type, under, true); break;
    case 1: convert(type, under, static_cast<int64_t>(4)); break;
    case 2: convert(type, under, static_cast<uint64_t>(4)); break;
    case 3: convert(type, under, 0.5); break;
    default: convert(type, under, std::string_view("AB")); break;
    }
}
