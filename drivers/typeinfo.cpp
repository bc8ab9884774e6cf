// T01: type information of every kind of type
#include "zv.h"
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include <sys/single_threaded.h>
#include "zserio/BitBuffer.h"
#include "zserio/CppRuntimeException.h"
#include "zserio/ReflectableData.h"
#include "zserio/TypeInfo.h"
#include "zserio/TypeInfoUtil.h"

namespace
{

using A = std::allocator<uint8_t>;
using TI = zserio::IBasicTypeInfo<A>;
using Ptr = zserio::IBasicReflectableDataPtr<A>;
using zserio::CppRuntimeException;
using zserio::CppType;
using zserio::SchemaType;
using zserio::Span;
using zserio::TypeInfoUtil;
using Sv = std::string_view;
namespace zd = zserio::detail;

template <typename F>
bool raises(F&& f)
{
    try { f(); } catch (const CppRuntimeException&) { return true; }
    return false;
}

// ---- the kinds of the language: what each of them is, stated once ---------------------------------------------
enum Kind { BOOLEAN, SIGNED, UNSIGNED, REAL, BLOB, NAMED, STRUCTURE, ALTERNATIVE, TABLE, OTHER };
struct Traits { Kind kind; unsigned bits; }; // bits: of a fixed size type, 0 otherwise

#define Z64(M, P) \
    M(P, 1) M(P, 2) M(P, 3) M(P, 4) M(P, 5) M(P, 6) M(P, 7) M(P, 8) M(P, 9) M(P, 10) M(P, 11) M(P, 12) M(P, 13) \
    M(P, 14) M(P, 15) M(P, 16) M(P, 17) M(P, 18) M(P, 19) M(P, 20) M(P, 21) M(P, 22) M(P, 23) M(P, 24) M(P, 25) \
    M(P, 26) M(P, 27) M(P, 28) M(P, 29) M(P, 30) M(P, 31) M(P, 32) M(P, 33) M(P, 34) M(P, 35) M(P, 36) M(P, 37) \
    M(P, 38) M(P, 39) M(P, 40) M(P, 41) M(P, 42) M(P, 43) M(P, 44) M(P, 45) M(P, 46) M(P, 47) M(P, 48) M(P, 49) \
    M(P, 50) M(P, 51) M(P, 52) M(P, 53) M(P, 54) M(P, 55) M(P, 56) M(P, 57) M(P, 58) M(P, 59) M(P, 60) M(P, 61) \
    M(P, 62) M(P, 63) M(P, 64)
#define ENUMERATOR(P, N) SchemaType::P##N,
const SchemaType ints[] = {Z64(ENUMERATOR, INT)};
const SchemaType uints[] = {Z64(ENUMERATOR, UINT)};

struct SchemaKind { SchemaType type; Traits traits; };
const SchemaKind schemaKinds[] = {
    {SchemaType::BOOL, {BOOLEAN, 1}},
    {SchemaType::VARINT16, {SIGNED, 0}}, {SchemaType::VARINT32, {SIGNED, 0}}, {SchemaType::VARINT64, {SIGNED, 0}},
    {SchemaType::VARINT, {SIGNED, 0}}, {SchemaType::VARUINT16, {UNSIGNED, 0}}, {SchemaType::VARUINT32, {UNSIGNED, 0}},
    {SchemaType::VARUINT64, {UNSIGNED, 0}}, {SchemaType::VARUINT, {UNSIGNED, 0}}, {SchemaType::VARSIZE, {UNSIGNED, 0}},
    {SchemaType::DYNAMIC_SIGNED_BITFIELD, {SIGNED, 0}}, {SchemaType::DYNAMIC_UNSIGNED_BITFIELD, {UNSIGNED, 0}},
    {SchemaType::FLOAT16, {REAL, 16}}, {SchemaType::FLOAT32, {REAL, 32}}, {SchemaType::FLOAT64, {REAL, 64}},
    {SchemaType::BYTES, {BLOB, 0}}, {SchemaType::STRING, {BLOB, 0}}, {SchemaType::EXTERN, {BLOB, 0}},
    {SchemaType::ENUM, {NAMED, 0}}, {SchemaType::BITMASK, {NAMED, 0}}, {SchemaType::STRUCT, {STRUCTURE, 0}},
    {SchemaType::CHOICE, {ALTERNATIVE, 0}}, {SchemaType::UNION, {ALTERNATIVE, 0}}, {SchemaType::SQL_TABLE, {TABLE, 0}},
    {SchemaType::SQL_DATABASE, {OTHER, 0}}, {SchemaType::SERVICE, {OTHER, 0}}, {SchemaType::PUBSUB, {OTHER, 0}},
};
const unsigned namedKinds = sizeof(schemaKinds) / sizeof(schemaKinds[0]);

struct CppKind { CppType type; Traits traits; };
const CppKind cppKinds[] = {
    {CppType::BOOL, {BOOLEAN, 1}}, {CppType::INT8, {SIGNED, 8}}, {CppType::INT16, {SIGNED, 16}}, {CppType::INT32, {SIGNED, 32}},
    {CppType::INT64, {SIGNED, 64}}, {CppType::UINT8, {UNSIGNED, 8}}, {CppType::UINT16, {UNSIGNED, 16}}, {CppType::UINT32, {UNSIGNED, 32}},
    {CppType::UINT64, {UNSIGNED, 64}}, {CppType::FLOAT, {REAL, 32}}, {CppType::DOUBLE, {REAL, 64}}, {CppType::BYTES, {BLOB, 0}},
    {CppType::STRING, {BLOB, 0}}, {CppType::BIT_BUFFER, {BLOB, 0}}, {CppType::ENUM, {NAMED, 0}}, {CppType::BITMASK, {NAMED, 0}},
    {CppType::STRUCT, {STRUCTURE, 0}}, {CppType::CHOICE, {ALTERNATIVE, 0}}, {CppType::UNION, {ALTERNATIVE, 0}},
    {CppType::SQL_TABLE, {TABLE, 0}}, {CppType::SQL_DATABASE, {OTHER, 0}}, {CppType::SERVICE, {OTHER, 0}}, {CppType::PUBSUB, {OTHER, 0}},
};
const unsigned cppKindCount = sizeof(cppKinds) / sizeof(cppKinds[0]);

template <typename T>
void predicates(T type, Traits t)
{
    zv_check_eq(TypeInfoUtil::isCompound(type), t.kind == STRUCTURE || t.kind == ALTERNATIVE, "structures, choices and unions are compounds");
    zv_check_eq(TypeInfoUtil::hasChoice(type), t.kind == ALTERNATIVE, "choices and unions have a choice");
    zv_check_eq(TypeInfoUtil::isFixedSize(type), t.bits != 0, "a type has a fixed size exactly if it always takes the same number of bits");
    zv_check_eq(TypeInfoUtil::isIntegral(type), t.kind == BOOLEAN || t.kind == SIGNED || t.kind == UNSIGNED, "booleans and integers are integral");
    zv_check_eq(TypeInfoUtil::isSigned(type), t.kind == SIGNED || t.kind == REAL, "signed integers and floating point types are signed");
    zv_check_eq(TypeInfoUtil::isFloatingPoint(type), t.kind == REAL, "floats are floating point types");
}

// ---- which accessors answer --------------------------------------------------------------------------------
struct Answers
{
    bool bits, compound, choice, underlying, items, values, table, database, templated, messages, methods, creates;
};

void answers(const TI& t, const Answers& a)
{
    zv_check_eq(raises([&]() { (void)t.getBitSize(); }), !a.bits, "only fixed size types have a bit size");
    zv_check_eq(raises([&]() { (void)t.getFields(); }), !a.compound, "only compounds have fields");
    zv_check_eq(raises([&]() { (void)t.getParameters(); }), !a.compound, "only compounds have parameters");
    zv_check_eq(raises([&]() { (void)t.getFunctions(); }), !a.compound, "only compounds have functions");
    zv_check_eq(raises([&]() { (void)t.getSelector(); }), !a.choice, "only choices have a selector");
    zv_check_eq(raises([&]() { (void)t.getCases(); }), !a.choice, "only choices have cases");
    zv_check_eq(raises([&]() { (void)t.getUnderlyingType(); }), !a.underlying, "only enumerations and bitmasks have an underlying type");
    zv_check_eq(raises([&]() { (void)t.getEnumItems(); }), !a.items, "only enumerations have items");
    zv_check_eq(raises([&]() { (void)t.getBitmaskValues(); }), !a.values, "only bitmasks have values");
    zv_check_eq(raises([&]() { (void)t.getColumns(); }), !a.table, "only tables have columns");
    zv_check_eq(raises([&]() { (void)t.getSqlConstraint(); }), !a.table, "only tables have a constraint");
    zv_check_eq(raises([&]() { (void)t.getVirtualTableUsing(); }), !a.table, "only tables are virtual");
    zv_check_eq(raises([&]() { (void)t.isWithoutRowId(); }), !a.table, "only tables have row ids");
    zv_check_eq(raises([&]() { (void)t.getTables(); }), !a.database, "only databases have tables");
    zv_check_eq(raises([&]() { (void)t.getTemplateName(); }), !a.templated, "only compounds and tables are instances of templates");
    zv_check_eq(raises([&]() { (void)t.getTemplateArguments(); }), !a.templated, "only compounds and tables have template arguments");
    zv_check_eq(raises([&]() { (void)t.getMessages(); }), !a.messages, "only pubsub types have messages");
    zv_check_eq(raises([&]() { (void)t.getMethods(); }), !a.methods, "only services have methods");
    zv_check_eq(raises([&]() { (void)t.createInstance(); }), !a.creates, "only compounds which can be created are created");
    zv_check_eq(raises([&]() { (void)t.createInstance(A()); }), !a.creates, "only compounds which can be created are created");
}

// the name, schema and C++ type of a type, and agreement with its predicates
void described(const TI& t, Sv name, SchemaType schemaType, CppType cppType, Traits traits)
{
    zv_check(t.getSchemaName() == name, "the name of the type in the schema");
    zv_check(t.getSchemaType() == schemaType, "the schema type of the type");
    zv_check(t.getCppType() == cppType, "the C++ type of the type");
    zv_check_eq(TypeInfoUtil::isFixedSize(t.getSchemaType()), traits.bits != 0, "the type and its information agree on a fixed size");
    if (traits.bits != 0) zv_check_eq(t.getBitSize(), traits.bits, "the number of bits of a fixed size type");
    zv_check_eq(TypeInfoUtil::isIntegral(t.getSchemaType()), TypeInfoUtil::isIntegral(t.getCppType()), "the schema type and the C++ type agree on being integral");
    zv_check_eq(TypeInfoUtil::isSigned(t.getSchemaType()), TypeInfoUtil::isSigned(t.getCppType()), "the schema type and the C++ type agree on being signed");
    zv_check_eq(TypeInfoUtil::isFloatingPoint(t.getSchemaType()), TypeInfoUtil::isFloatingPoint(t.getCppType()),
            "the schema type and the C++ type agree on being floating point");
    zv_check_eq(TypeInfoUtil::isCompound(t.getSchemaType()), TypeInfoUtil::isCompound(t.getCppType()), "the schema type and the C++ type agree on being compound");
    zv_check_eq(TypeInfoUtil::hasChoice(t.getSchemaType()), TypeInfoUtil::hasChoice(t.getCppType()), "the schema type and the C++ type agree on having a choice");
}

CppType holder(bool isSigned, unsigned bits) // the smallest integer type of C++ which holds that many bits
{
    if (isSigned)
        return bits <= 8 ? CppType::INT8 : bits <= 16 ? CppType::INT16 : bits <= 32 ? CppType::INT32 : CppType::INT64;
    return bits <= 8 ? CppType::UINT8 : bits <= 16 ? CppType::UINT16 : bits <= 32 ? CppType::UINT32 : CppType::UINT64;
}

template <typename V>
CppType valueHolder()
{
    return holder(V(-1) < V(0), sizeof(V) * 8);
}

using Get = const TI& (*)();
template <bool S, size_t... I>
Get fixedOf(size_t index, std::index_sequence<I...>)
{
    static const Get all[] = {&zserio::typeInfo<zd::FixedIntWrapper<I + 1, S>, A>...};
    return all[index];
}
template <bool S, size_t... I>
CppType valueOf(size_t index, std::index_sequence<I...>)
{
    const CppType all[] = {valueHolder<typename zd::FixedIntWrapper<I + 1, S>::ValueType>()...};
    return all[index];
}

struct Builtin { Get get; const char* name; SchemaType schemaType; CppType cppType; Traits traits; };
const Builtin builtins[] = {
    {&zserio::typeInfo<zserio::Bool, A>, "bool", SchemaType::BOOL, CppType::BOOL, {BOOLEAN, 1}},
    {&zserio::typeInfo<zserio::DynInt8, A>, "int<>", SchemaType::DYNAMIC_SIGNED_BITFIELD, CppType::INT8, {SIGNED, 0}},
    {&zserio::typeInfo<zserio::DynInt16, A>, "int<>", SchemaType::DYNAMIC_SIGNED_BITFIELD, CppType::INT16, {SIGNED, 0}},
    {&zserio::typeInfo<zserio::DynInt32, A>, "int<>", SchemaType::DYNAMIC_SIGNED_BITFIELD, CppType::INT32, {SIGNED, 0}},
    {&zserio::typeInfo<zserio::DynInt64, A>, "int<>", SchemaType::DYNAMIC_SIGNED_BITFIELD, CppType::INT64, {SIGNED, 0}},
    {&zserio::typeInfo<zserio::DynUInt8, A>, "bit<>", SchemaType::DYNAMIC_UNSIGNED_BITFIELD, CppType::UINT8, {UNSIGNED, 0}},
    {&zserio::typeInfo<zserio::DynUInt16, A>, "bit<>", SchemaType::DYNAMIC_UNSIGNED_BITFIELD, CppType::UINT16, {UNSIGNED, 0}},
    {&zserio::typeInfo<zserio::DynUInt32, A>, "bit<>", SchemaType::DYNAMIC_UNSIGNED_BITFIELD, CppType::UINT32, {UNSIGNED, 0}},
    {&zserio::typeInfo<zserio::DynUInt64, A>, "bit<>", SchemaType::DYNAMIC_UNSIGNED_BITFIELD, CppType::UINT64, {UNSIGNED, 0}},
    {&zserio::typeInfo<zserio::VarInt16, A>, "varint16", SchemaType::VARINT16, CppType::INT16, {SIGNED, 0}},
    {&zserio::typeInfo<zserio::VarInt32, A>, "varint32", SchemaType::VARINT32, CppType::INT32, {SIGNED, 0}},
    {&zserio::typeInfo<zserio::VarInt64, A>, "varint64", SchemaType::VARINT64, CppType::INT64, {SIGNED, 0}},
    {&zserio::typeInfo<zserio::VarInt, A>, "varint", SchemaType::VARINT, CppType::INT64, {SIGNED, 0}},
    {&zserio::typeInfo<zserio::VarUInt16, A>, "varuint16", SchemaType::VARUINT16, CppType::UINT16, {UNSIGNED, 0}},
    {&zserio::typeInfo<zserio::VarUInt32, A>, "varuint32", SchemaType::VARUINT32, CppType::UINT32, {UNSIGNED, 0}},
    {&zserio::typeInfo<zserio::VarUInt64, A>, "varuint64", SchemaType::VARUINT64, CppType::UINT64, {UNSIGNED, 0}},
    {&zserio::typeInfo<zserio::VarUInt, A>, "varuint", SchemaType::VARUINT, CppType::UINT64, {UNSIGNED, 0}},
    {&zserio::typeInfo<zserio::VarSize, A>, "varsize", SchemaType::VARSIZE, CppType::UINT32, {UNSIGNED, 0}},
    {&zserio::typeInfo<zserio::Float16, A>, "float16", SchemaType::FLOAT16, CppType::FLOAT, {REAL, 16}},
    {&zserio::typeInfo<zserio::Float32, A>, "float32", SchemaType::FLOAT32, CppType::FLOAT, {REAL, 32}},
    {&zserio::typeInfo<zserio::Float64, A>, "float64", SchemaType::FLOAT64, CppType::DOUBLE, {REAL, 64}},
    {&zserio::typeInfo<zserio::BasicBytes<A>, A>, "bytes", SchemaType::BYTES, CppType::BYTES, {BLOB, 0}},
    {&zserio::typeInfo<zserio::BasicString<std::allocator<char>>, A>, "string", SchemaType::STRING, CppType::STRING, {BLOB, 0}},
    {&zserio::typeInfo<std::string_view, A>, "string", SchemaType::STRING, CppType::STRING, {BLOB, 0}},
    {&zserio::typeInfo<zserio::BasicBitBuffer<A>, A>, "extern", SchemaType::EXTERN, CppType::BIT_BUFFER, {BLOB, 0}},
};
const unsigned builtinCount = sizeof(builtins) / sizeof(builtins[0]);

// ---- a type of every kind a schema can declare ----------------------------------------------------------------
bool created = false;
Ptr create(const A&) { created = true; return nullptr; }

template <typename T>
bool shows(Span<T> got, Span<T> given) { return got.data() == given.data() && got.size() == given.size(); }

template <typename T>
struct Lump { alignas(T) unsigned char bytes[2 * sizeof(T)]; Span<const T> span(size_t n) const { return {reinterpret_cast<const T*>(bytes), n}; } };

struct Parts
{
    Lump<zserio::BasicFieldInfo<A>> fields;
    Lump<zserio::BasicParameterInfo<A>> parameters;
    Lump<zserio::BasicFunctionInfo<A>> functions;
    Lump<zserio::BasicTemplateArgumentInfo<A>> arguments;
    Lump<zserio::BasicCaseInfo<A>> cases;
    Lump<zserio::ItemInfo> items;
    Lump<zserio::BasicColumnInfo<A>> columns;
    Lump<zserio::BasicTableInfo<A>> tables;
    Lump<zserio::BasicMessageInfo<A>> messages;
    Lump<zserio::BasicMethodInfo<A>> methods;
};

enum Declared { D_STRUCT, D_UNION, D_CHOICE, D_ENUM, D_BITMASK, D_TABLE, D_DATABASE, D_PUBSUB, D_SERVICE, D_COUNT };

void declared(const TI& t, Declared kind, const Parts& p, size_t n, bool creates, bool rowId, const TI& underlying)
{
    Answers a{};
    switch (kind)
    {
    case D_STRUCT: described(t, "x.Name", SchemaType::STRUCT, CppType::STRUCT, {STRUCTURE, 0}); a.compound = a.templated = true; a.creates = creates; break;
    case D_UNION: described(t, "x.Name", SchemaType::UNION, CppType::UNION, {ALTERNATIVE, 0}); a.compound = a.templated = true; a.creates = creates; break;
    case D_CHOICE: described(t, "x.Name", SchemaType::CHOICE, CppType::CHOICE, {ALTERNATIVE, 0}); a.compound = a.choice = a.templated = true; a.creates = creates; break;
    case D_ENUM: described(t, "x.Name", SchemaType::ENUM, CppType::ENUM, {NAMED, 0}); a.underlying = a.items = true; break;
    case D_BITMASK: described(t, "x.Name", SchemaType::BITMASK, CppType::BITMASK, {NAMED, 0}); a.underlying = a.values = true; break;
    case D_TABLE: described(t, "x.Name", SchemaType::SQL_TABLE, CppType::SQL_TABLE, {TABLE, 0}); a.table = a.templated = true; break;
    case D_DATABASE: described(t, "x.Name", SchemaType::SQL_DATABASE, CppType::SQL_DATABASE, {OTHER, 0}); a.database = true; break;
    case D_PUBSUB: described(t, "x.Name", SchemaType::PUBSUB, CppType::PUBSUB, {OTHER, 0}); a.messages = true; break;
    default: described(t, "x.Name", SchemaType::SERVICE, CppType::SERVICE, {OTHER, 0}); a.methods = true; break;
    }
    answers(t, a);
    if (a.compound)
    {
        zv_check(shows(t.getFields(), p.fields.span(n)), "the fields of the compound are the declared ones");
        zv_check(shows(t.getParameters(), p.parameters.span(n)), "the parameters of the compound are the declared ones");
        zv_check(shows(t.getFunctions(), p.functions.span(n)), "the functions of the compound are the declared ones");
        if (a.creates)
        {
            created = false;
            (void)t.createInstance(A());
            zv_check(created, "an instance is created by the function of the type");
            created = false;
            (void)t.createInstance();
            zv_check(created, "an instance is created by the function of the type");
        }
    }
    if (a.templated)
    {
        zv_check(t.getTemplateName() == "template", "the template is the declared one");
        zv_check(shows(t.getTemplateArguments(), p.arguments.span(n)), "the template arguments are the declared ones");
    }
    if (a.choice)
    {
        zv_check(t.getSelector() == "selector", "the selector is the declared one");
        zv_check(shows(t.getCases(), p.cases.span(n)), "the cases are the declared ones");
    }
    if (a.underlying) zv_check(&t.getUnderlyingType() == &underlying, "the underlying type is the declared one");
    if (a.items) zv_check(shows(t.getEnumItems(), p.items.span(n)), "the items are the declared ones");
    if (a.values) zv_check(shows(t.getBitmaskValues(), p.items.span(n)), "the values are the declared ones");
    if (a.table)
    {
        zv_check(shows(t.getColumns(), p.columns.span(n)), "the columns are the declared ones");
        zv_check(t.getSqlConstraint() == "constraint", "the constraint is the declared one");
        zv_check(t.getVirtualTableUsing() == "using", "the module of the virtual table is the declared one");
        zv_check_eq(t.isWithoutRowId(), rowId, "whether there are row ids is as declared");
    }
    if (a.database) zv_check(shows(t.getTables(), p.tables.span(n)), "the tables are the declared ones");
    if (a.messages) zv_check(shows(t.getMessages(), p.messages.span(n)), "the messages are the declared ones");
    if (a.methods) zv_check(shows(t.getMethods(), p.methods.span(n)), "the methods are the declared ones");
}

const TI* current = nullptr;
const TI& currentType() { return *current; }

template <typename F>
void withDeclared(Declared kind, const Parts& p, size_t n, bool creates, bool rowId, const TI& underlying, F&& use)
{
    const Sv name = "x.Name", tmpl = "template";
    auto* create_ = creates ? &create : nullptr;
    switch (kind)
    {
    case D_STRUCT: { zd::StructTypeInfo<A> t(name, create_, tmpl, p.arguments.span(n), p.fields.span(n), p.parameters.span(n), p.functions.span(n)); use(t); break; }
    case D_UNION: { zd::UnionTypeInfo<A> t(name, create_, tmpl, p.arguments.span(n), p.fields.span(n), p.parameters.span(n), p.functions.span(n)); use(t); break; }
    case D_CHOICE:
    {
        zd::ChoiceTypeInfo<A> t(name, create_, tmpl, p.arguments.span(n), p.fields.span(n), p.parameters.span(n), p.functions.span(n), "selector", p.cases.span(n));
        use(t);
        break;
    }
    case D_ENUM: { zd::EnumTypeInfo<A> t(name, underlying, p.items.span(n)); use(t); break; }
    case D_BITMASK: { zd::BitmaskTypeInfo<A> t(name, underlying, p.items.span(n)); use(t); break; }
    case D_TABLE: { zd::SqlTableTypeInfo<A> t(name, tmpl, p.arguments.span(n), p.columns.span(n), "constraint", "using", rowId); use(t); break; }
    case D_DATABASE: { zd::SqlDatabaseTypeInfo<A> t(name, p.tables.span(n)); use(t); break; }
    case D_PUBSUB: { zd::PubsubTypeInfo<A> t(name, p.messages.span(n)); use(t); break; }
    default: { zd::ServiceTypeInfo<A> t(name, p.methods.span(n)); use(t); break; }
    }
}

} // namespace

// the predicates, for every schema type
ZV_HARNESS(T01_schema)
{
    const uint64_t i = zv_split(0, 128 + namedKinds - 1);
    zv_shard();
    if (i < 64) predicates(ints[i], {SIGNED, static_cast<unsigned>(i + 1)});
    else if (i < 128) predicates(uints[i - 64], {UNSIGNED, static_cast<unsigned>(i - 63)});
    else predicates(schemaKinds[i - 128].type, schemaKinds[i - 128].traits);
    zv_cover("classified");
}

// ... and every C++ type
ZV_HARNESS(T01_cpp)
{
    const uint64_t i = zv_split(0, cppKindCount - 1);
    zv_shard();
    predicates(cppKinds[i].type, cppKinds[i].traits);
    zv_cover("classified");
}

// the information of integers of every width
ZV_HARNESS(T01_integers)
{
    const uint64_t isSigned = zv_split(0, 1), width = zv_split(1, 64);
    zv_shard();
    const auto all = std::make_index_sequence<64>();
    const Get get = isSigned ? fixedOf<true>(width - 1, all) : fixedOf<false>(width - 1, all);
    char name[8];
    size_t length = 0;
    for (const char c : Sv(isSigned ? "int:" : "bit:")) name[length++] = c;
    if (width >= 10) name[length++] = static_cast<char>('0' + width / 10);
    name[length++] = static_cast<char>('0' + width % 10);
    const TI& t = get();
    zv_check(&t == &get(), "there is one information of a type");
    const CppType cppType = holder(isSigned != 0, static_cast<unsigned>(width));
    described(t, Sv(name, length), isSigned ? ints[width - 1] : uints[width - 1], cppType,
            {isSigned ? SIGNED : UNSIGNED, static_cast<unsigned>(width)});
    zv_check((isSigned ? valueOf<true>(width - 1, all) : valueOf<false>(width - 1, all)) == cppType, "the value of the type is of its C++ type");
    Answers a{};
    a.bits = true;
    answers(t, a);
    zv_cover("described");
}

// the information of every other built-in type
ZV_HARNESS(T01_builtins)
{
    const uint64_t i = zv_split(0, builtinCount - 1);
    zv_shard();
    const Builtin& b = builtins[i];
    const TI& t = b.get();
    zv_check(&t == &b.get(), "there is one information of a type");
    described(t, b.name, b.schemaType, b.cppType, b.traits);
    Answers a{};
    a.bits = b.traits.bits != 0;
    answers(t, a);
    zv_cover("described");
}

// the information of a type of every declared kind, itself and through a recursive reference
ZV_HARNESS(T01_declared)
{
    const uint64_t kind = zv_split(0, D_COUNT - 1), recursive = zv_split(0, 1), creates = zv_split(0, 1), n = zv_split(0, 2);
    const bool rowId = zv_split(0, 1) != 0;
    zv_shard();
    __libc_single_threaded = 1;
    Parts p{};
    const TI& underlying = zserio::typeInfo<zserio::UInt8, A>();
    withDeclared(static_cast<Declared>(kind), p, n, creates != 0, rowId, underlying, [&](const TI& t) {
        if (recursive == 0)
            declared(t, static_cast<Declared>(kind), p, n, creates != 0, rowId, underlying);
        else
        {
            current = &t;
            zd::RecursiveTypeInfo<A> r(&currentType);
            declared(r, static_cast<Declared>(kind), p, n, creates != 0, rowId, underlying);
        }
    });
    zv_cover("described");
}

// ... of a built-in type through a recursive reference
ZV_HARNESS(T01_reference)
{
    const uint64_t i = zv_split(0, builtinCount - 1);
    zv_shard();
    const Builtin& b = builtins[i];
    current = &b.get();
    zd::RecursiveTypeInfo<A> t(&currentType);
    described(t, b.name, b.schemaType, b.cppType, b.traits);
    Answers a{};
    a.bits = b.traits.bits != 0;
    answers(t, a);
    zv_cover("described");
}
