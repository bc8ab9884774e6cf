// T05: the walker and its filters over every small tree; regular expressions are replaced by an arbitrary set of paths
#include "zv.h"
#define _GLIBCXX_REGEX 1   // <regex> itself is not analysed
#include <algorithm>
#include <array>
#include <functional>
#include <memory>
#include <string>
#include <sys/single_threaded.h>
namespace
{
constexpr size_t PATHS = 24;
char g_path[PATHS][16];
bool g_matches[PATHS];
size_t g_paths = 0, g_yes = 0, g_yesLimit = 2;
bool matchesPath(const char* text)
{
    for (size_t i = 0; i < g_paths; ++i)
    {
        size_t n = 0;
        while (g_path[i][n] == text[n] && text[n] != 0) ++n;
        if (g_path[i][n] == text[n]) return g_matches[i];
    }
    zv_check(g_paths < PATHS, "the paths which are tried belong to the tree");
    size_t n = 0;
    for (; text[n] != 0; ++n) { zv_check(n < 15, "the paths which are tried belong to the tree"); g_path[g_paths][n] = text[n]; }
    g_path[g_paths][n] = 0;
    g_matches[g_paths] = g_yes < g_yesLimit && zv_choice("matches");
    if (g_matches[g_paths]) ++g_yes;
    return g_matches[g_paths++];
}
} // namespace
namespace std
{
class regex { public: explicit regex(const char*) {} };
template <typename S>
bool regex_match(const S& text, const regex&) { return matchesPath(text.c_str()); }
} // namespace std
#include "zserio/ReflectableData.h"
#include "zserio/TypeInfo.h"
#include "zserio/Walker.h"

namespace
{

using A = std::allocator<uint8_t>;
using Any = zserio::BasicAny<A>;
using TI = zserio::IBasicTypeInfo<A>;
using FI = zserio::BasicFieldInfo<A>;
using Data = zserio::IBasicReflectableData<A>;
using Ptr = zserio::IBasicReflectableDataPtr<A>;
using CPtr = zserio::IBasicReflectableDataConstPtr<A>;
using Filter = zserio::IBasicWalkFilter<A>;
using zserio::CppRuntimeException;
using zserio::CppType;
using zserio::SchemaType;

constexpr size_t NONE = static_cast<size_t>(-1);

// ---------------------------------------------------------------- the tree
struct Node;
struct Release { void operator()(const Data*) const {} };
CPtr share(const Node* node);

struct Node : zserio::detail::ReflectableDataBase<A>
{
    Node(const TI& type, size_t id) : zserio::detail::ReflectableDataBase<A>(type), m_id(id) {}
    using zserio::detail::ReflectableDataBase<A>::getField;
    using zserio::detail::ReflectableDataBase<A>::at;

    size_t slot(std::string_view name) const
    {
        const auto fields = this->getTypeInfo().getFields();
        for (size_t i = 0; i < fields.size(); ++i) if (fields[i].schemaName == name) return i;
        zv_fail("only fields of the object are touched");
        return 0;
    }
    CPtr getField(std::string_view name) const override { return share(m_child[slot(name)]); }
    std::string_view getChoice() const override { return m_choice; }
    bool isArray() const override { return m_array; }
    size_t size() const override { zv_check(m_array, "only arrays have a size"); return m_size; }
    CPtr at(size_t index) const override { zv_check(m_array && index < m_size, "elements are taken inside the array"); return share(m_child[index]); }

    size_t m_id;
    bool m_array = false;
    size_t m_size = 0;
    const char* m_choice = "";
    const Node* m_child[4] = {};
};
CPtr share(const Node* node) { return node == nullptr ? CPtr() : CPtr(static_cast<const Data*>(node), Release()); }

using Sv = std::string_view;
FI fieldInfo(Sv name, const TI& type, bool optional, bool array)
{
    return FI(name, type, zserio::Span<const Sv>(), false, Sv(), Sv(), Sv(), optional, Sv(), Sv(), array, Sv(), false, false);
}

struct Schema
{
    zserio::detail::FixedSizeBuiltinTypeInfo<A> u8{"uint8", SchemaType::UINT8, CppType::UINT8, 8};
    std::array<FI, 2> innerFields{fieldInfo("v", u8, false, false), fieldInfo("y", u8, true, true)};
    zserio::detail::StructTypeInfo<A> inner{"I", nullptr, Sv(), {}, innerFields, {}, {}};
    std::array<FI, 2> unionFields{fieldInfo("i", inner, false, false), fieldInfo("v", u8, false, false)};
    zserio::detail::UnionTypeInfo<A> choice{"U", nullptr, Sv(), {}, unionFields, {}, {}};
    std::array<FI, 4> rootFields{fieldInfo("o", inner, true, false), fieldInfo("x", inner, true, true), fieldInfo("u", choice, false, false), fieldInfo("w", u8, false, false)};
    zserio::detail::StructTypeInfo<A> root{"R", nullptr, Sv(), {}, rootFields, {}, {}};
};

struct Tree
{
    explicit Tree(const Schema& s) : schema(s) {}
    ~Tree() { for (size_t i = 0; i < count; ++i) delete node[i]; }
    Node* make(const TI& type) { node[count] = new Node(type, count); return node[count++]; }
    Node* inner(size_t elements)     // 0: no array, else elements - 1 values
    {
        Node* n = make(schema.inner);
        n->m_child[0] = make(schema.u8);
        if (elements > 0)
        {
            Node* y = make(schema.u8);
            y->m_array = true;
            y->m_size = elements - 1;
            for (size_t i = 0; i < y->m_size; ++i) y->m_child[i] = make(schema.u8);
            n->m_child[1] = y;
        }
        return n;
    }
    const Schema& schema;
    Node* node[24];
    size_t count = 0;
};

// shapes: o absent or with no, empty, two-element array; x absent, empty, one, two elements; u empty, holding i, holding v, naming no field
const Node* build(Tree& tree, size_t o, size_t x, size_t u)
{
    Node* root = tree.make(tree.schema.root);
    root->m_child[0] = o == 0 ? nullptr : tree.inner(o == 1 ? 0 : o == 2 ? 1 : 3);
    if (x > 0)
    {
        Node* array = tree.make(tree.schema.inner);
        array->m_array = true;
        array->m_size = x - 1;
        for (size_t i = 0; i + 1 < x; ++i) array->m_child[i] = tree.inner(i == 0 ? 2 : 0);
        root->m_child[1] = array;
    }
    Node* choice = tree.make(tree.schema.choice);
    if (u == 1) { choice->m_choice = "i"; choice->m_child[0] = tree.inner(0); }
    else if (u == 2) { choice->m_choice = "v"; choice->m_child[1] = tree.make(tree.schema.u8); }
    else if (u == 3) choice->m_choice = "nothing";
    root->m_child[2] = choice;
    root->m_child[3] = tree.make(tree.schema.u8);
    return root;
}

// ---------------------------------------------------------------- what was called
enum What { BEGIN_ROOT, END_ROOT, BEGIN_ARRAY, END_ARRAY, BEGIN_COMPOUND, END_COMPOUND, VISIT, BEFORE_ARRAY, AFTER_ARRAY, BEFORE_COMPOUND, AFTER_COMPOUND,
            BEFORE_VALUE, AFTER_VALUE };
struct Entry { What what; const Data* data; char name; size_t index; bool answer; };
constexpr size_t ENTRIES = 96;
Entry g_log[ENTRIES];
size_t g_logged = 0, g_read = 0;
void log(What what, const CPtr& data, char name, size_t index, bool answer)
{
    zv_check(g_logged < ENTRIES, "no more calls than the tree has parts");
    g_log[g_logged++] = Entry{what, data.get(), name, index, answer};
}

struct Observer : zserio::IBasicWalkObserver<A>
{
    void beginRoot(const CPtr& d) override { log(BEGIN_ROOT, d, 0, NONE, true); }
    void endRoot(const CPtr& d) override { log(END_ROOT, d, 0, NONE, true); }
    void beginArray(const CPtr& d, const FI& f) override { log(BEGIN_ARRAY, d, f.schemaName[0], NONE, true); }
    void endArray(const CPtr& d, const FI& f) override { log(END_ARRAY, d, f.schemaName[0], NONE, true); }
    void beginCompound(const CPtr& d, const FI& f, size_t i) override { log(BEGIN_COMPOUND, d, f.schemaName[0], i, true); }
    void endCompound(const CPtr& d, const FI& f, size_t i) override { log(END_COMPOUND, d, f.schemaName[0], i, true); }
    void visitValue(const CPtr& d, const FI& f, size_t i) override { log(VISIT, d, f.schemaName[0], i, true); }
};

// any answers, a limited number of them negative
size_t g_no = 0, g_noLimit = 0;
bool anyAnswer() { if (g_no < g_noLimit && zv_choice("refuse")) { ++g_no; return false; } return true; }
struct AnyFilter : Filter
{
    bool beforeArray(const CPtr&, const FI&) override { ++calls; return last = anyAnswer(); }
    bool afterArray(const CPtr&, const FI&) override { ++calls; return last = anyAnswer(); }
    bool beforeCompound(const CPtr&, const FI&, size_t) override { ++calls; return last = anyAnswer(); }
    bool afterCompound(const CPtr&, const FI&, size_t) override { ++calls; return last = anyAnswer(); }
    bool beforeValue(const CPtr&, const FI&, size_t) override { ++calls; return last = anyAnswer(); }
    bool afterValue(const CPtr&, const FI&, size_t) override { ++calls; return last = anyAnswer(); }
    size_t calls = 0;
    bool last = true;
};

// records the answers of another filter
struct Spy : Filter
{
    explicit Spy(Filter& f) : filter(f) {}
    bool beforeArray(const CPtr& d, const FI& f) override { return say(BEFORE_ARRAY, d, f, NONE, filter.beforeArray(d, f)); }
    bool afterArray(const CPtr& d, const FI& f) override { return say(AFTER_ARRAY, d, f, NONE, filter.afterArray(d, f)); }
    bool beforeCompound(const CPtr& d, const FI& f, size_t i) override { return say(BEFORE_COMPOUND, d, f, i, filter.beforeCompound(d, f, i)); }
    bool afterCompound(const CPtr& d, const FI& f, size_t i) override { return say(AFTER_COMPOUND, d, f, i, filter.afterCompound(d, f, i)); }
    bool beforeValue(const CPtr& d, const FI& f, size_t i) override { return say(BEFORE_VALUE, d, f, i, filter.beforeValue(d, f, i)); }
    bool afterValue(const CPtr& d, const FI& f, size_t i) override { return say(AFTER_VALUE, d, f, i, filter.afterValue(d, f, i)); }
    bool say(What what, const CPtr& d, const FI& f, size_t i, bool answer) { log(what, d, f.schemaName[0], i, answer); return answer; }
    Filter& filter;
};

// ---------------------------------------------------------------- what should have been called
enum Kind { K_ANY, K_DEPTH, K_LENGTH, K_PATHS };
struct Expected
{
    Kind kind;
    size_t limit = 0;
    bool spied = true;

    bool next(What what, const Node* node, char name, size_t index)
    {
        zv_check(g_read < g_logged, "every part which may be walked is walked");
        const Entry& e = g_log[g_read++];
        zv_check(e.what == what, "begin, end, before and after calls are paired and in order");
        zv_check(e.data == static_cast<const Data*>(node) && e.name == name && e.index == index, "each call shows the part it is about");
        return e.answer;
    }
    bool ask(What what, const Node* node, char name, size_t index, bool answer)
    {
        if (!spied) return answer;
        const bool got = next(what, node, name, index);
        if (kind != K_ANY) zv_check(got == answer, "the filter lets through what it describes");
        return got;
    }
    bool element(size_t index) const { return index == NONE || index < limit; }
    static void join(char* out, const char* path, char name, size_t index)
    {
        size_t n = 0;
        for (; path[n] != 0; ++n) out[n] = path[n];
        if (n > 0) out[n++] = '.';
        out[n++] = name;
        if (index != NONE) { out[n++] = '['; out[n++] = static_cast<char>('0' + index); out[n++] = ']'; }
        out[n] = 0;
    }
    // does the part or anything in it match
    bool below(const Node* node, const FI& f, const char* path, size_t index, bool asArray)
    {
        char mine[16];
        join(mine, path, f.schemaName[0], index);
        if (matchesPath(mine)) return true;
        if (node == nullptr) return false;
        if (asArray)
        {
            for (size_t i = 0; i < node->m_size; ++i) if (below(node->m_child[i], f, path, i, false)) return true;
            return false;
        }
        if (!zserio::TypeInfoUtil::isCompound(f.typeInfo.getCppType())) return false;
        return inside(node, f.typeInfo, mine);
    }
    bool inside(const Node* node, const TI& type, const char* path)
    {
        const auto fields = type.getFields();
        for (size_t i = 0; i < fields.size(); ++i)
        {
            if (type.getCppType() == CppType::UNION && node->m_child[i] == nullptr) continue;
            if (below(node->m_child[i], fields[i], path, NONE, fields[i].isArray && node->m_child[i] != nullptr)) return true;
        }
        return false;
    }

    void fields(const Node* node, const TI& type, const char* path, size_t depth)
    {
        const auto all = type.getFields();
        for (size_t i = 0; i < all.size(); ++i)
        {
            if (type.getCppType() == CppType::UNION && node->m_child[i] == nullptr) continue;
            const Node* child = node->m_child[i];
            const bool on = child != nullptr && all[i].isArray ? array(child, all[i], path, depth) : value(child, all[i], NONE, path, depth);
            if (!on) return;
        }
    }
    bool array(const Node* node, const FI& f, const char* path, size_t depth)
    {
        const char name = f.schemaName[0];
        const bool enter = kind == K_DEPTH ? depth <= limit : kind == K_PATHS ? below(node, f, path, NONE, true) : true;
        if (ask(BEFORE_ARRAY, node, name, NONE, enter))
        {
            next(BEGIN_ARRAY, node, name, NONE);
            for (size_t i = 0; i < node->m_size; ++i) if (!value(node->m_child[i], f, i, path, depth + 1)) break;
            next(END_ARRAY, node, name, NONE);
        }
        return ask(AFTER_ARRAY, node, name, NONE, true);
    }
    bool value(const Node* node, const FI& f, size_t index, const char* path, size_t depth)
    {
        const char name = f.schemaName[0];
        const bool on = kind == K_LENGTH ? element(index) : true;
        const bool enter = kind == K_DEPTH ? depth <= limit : kind == K_PATHS ? below(node, f, path, index, false) : on;
        if (node != nullptr && zserio::TypeInfoUtil::isCompound(f.typeInfo.getCppType()))
        {
            if (ask(BEFORE_COMPOUND, node, name, index, enter))
            {
                char mine[16];
                join(mine, path, name, index);
                next(BEGIN_COMPOUND, node, name, index);
                fields(node, f.typeInfo, mine, depth + 1);
                next(END_COMPOUND, node, name, index);
            }
            return ask(AFTER_COMPOUND, node, name, index, on);
        }
        if (ask(BEFORE_VALUE, node, name, index, enter)) next(VISIT, node, name, index);
        return ask(AFTER_VALUE, node, name, index, on);
    }
    void root(const Node* node)
    {
        next(BEGIN_ROOT, node, 0, NONE);
        fields(node, node->getTypeInfo(), "", 1);
        next(END_ROOT, node, 0, NONE);
        zv_check(g_read == g_logged, "nothing is called after the end of the root");
    }
};

void walk(Kind kind, Filter* filter, size_t o, size_t x, size_t u, size_t limit)
{
    Schema schema;
    {
        Tree tree(schema);
        const Node* root = build(tree, o, x, u);
        Observer observer;
        {
            if (filter == nullptr) { zserio::BasicWalker<A> walker(observer); walker.walk(share(root)); }
            else { Spy spy(*filter); zserio::BasicWalker<A> walker(observer, spy); walker.walk(share(root)); }
        }
        Expected expected{kind};
        expected.limit = limit;
        expected.spied = filter != nullptr;
        expected.root(root);
        zv_cover("tree walked");
    }
}

} // namespace

#ifndef ZV_THOROUGH
constexpr size_t REFUSALS = 2, MATCHES = 2;
#else
constexpr size_t REFUSALS = 3, MATCHES = 3;
#endif

ZV_HARNESS(T05_any)
{
    const size_t o = zv_split(0, 3), x = zv_split(0, 3), u = zv_split(0, 3);
    zv_shard();
    __libc_single_threaded = 1;
    AnyFilter filter;
    g_noLimit = REFUSALS;
    walk(K_ANY, &filter, o, x, u, 0);
    zv_check(zv_live() == 0, "the walk keeps no object");
}

ZV_HARNESS(T05_default)
{
    const size_t o = zv_split(0, 3), x = zv_split(0, 3), u = zv_split(0, 3), kind = zv_split(0, 2), limit = zv_split(0, 4);
    zv_shard();
    __libc_single_threaded = 1;
    if (kind == 0) { if (limit == 0) walk(K_ANY, nullptr, o, x, u, 0); return; }
    if (kind == 1) { zserio::BasicDepthWalkFilter<A> filter(limit); walk(K_DEPTH, &filter, o, x, u, limit); return; }
    zserio::BasicArrayLengthWalkFilter<A> filter(limit);
    walk(K_LENGTH, &filter, o, x, u, limit);
}

ZV_HARNESS(T05_paths)
{
    const size_t o = zv_split(0, 3), x = zv_split(0, 3), u = zv_split(0, 3);
    zv_shard();
    __libc_single_threaded = 1;
    g_yesLimit = MATCHES;
    {
        zserio::BasicRegexWalkFilter<A> filter("any");
        walk(K_PATHS, &filter, o, x, u, 0);
    }
    zv_check(zv_live() == 0, "the walk keeps no object");
}

ZV_HARNESS(T05_and)
{
    const size_t call = zv_split(0, 5);
    __libc_single_threaded = 1;
    Schema schema;
    const FI field = fieldInfo("x", schema.inner, false, true);
    g_noLimit = 3;
    AnyFilter filter[3];
    typename zserio::BasicAndWalkFilter<A>::WalkFilters filters;
    const size_t n = zv_split(0, 3);
    for (size_t i = 0; i < n; ++i) filters.push_back(filter[i]);
    zserio::BasicAndWalkFilter<A> both(filters);
    const CPtr nothing;
    bool answer;
    switch (call)
    {
    case 0: answer = both.beforeArray(nothing, field); break;
    case 1: answer = both.afterArray(nothing, field); break;
    case 2: answer = both.beforeCompound(nothing, field, 1); break;
    case 3: answer = both.afterCompound(nothing, field, 1); break;
    case 4: answer = both.beforeValue(nothing, field, 1); break;
    default: answer = both.afterValue(nothing, field, 1); break;
    }
    bool all = true;
    for (size_t i = 0; i < n; ++i) { zv_check(filter[i].calls == 1, "every filter is told of every part"); all = all && filter[i].last; }
    zv_check(answer == all, "a part is let through when every filter lets it through");
    if (answer) zv_cover("let through"); else zv_cover("held back");
}

// depths, lengths and indices past every narrow counter
namespace
{
struct LongArray : zserio::detail::ReflectableDataBase<A>
{
    LongArray(const TI& type, size_t n) : zserio::detail::ReflectableDataBase<A>(type), m_n(n) {}
    using zserio::detail::ReflectableDataBase<A>::getField;
    using zserio::detail::ReflectableDataBase<A>::at;
    bool isArray() const override { return true; }
    size_t size() const override { return m_n; }
    CPtr at(size_t i) const override { zv_check(i < m_n, "only elements of the array are asked for"); return CPtr(); }
    Any getAnyValue(const A&) const override { return Any(); }
    Any getAnyValue(const A&) override { return Any(); }
    size_t m_n;
};
struct Holder : zserio::detail::ReflectableDataBase<A>
{
    Holder(const TI& type, const Data* array) : zserio::detail::ReflectableDataBase<A>(type), m_array(array) {}
    using zserio::detail::ReflectableDataBase<A>::getField;
    using zserio::detail::ReflectableDataBase<A>::at;
    CPtr getField(std::string_view name) const override { return name == "v" ? CPtr(m_array, Release()) : CPtr(); }
    std::string_view getChoice() const override { return ""; }
    Any getAnyValue(const A&) const override { return Any(); }
    Any getAnyValue(const A&) override { return Any(); }
    const Data* m_array;
};
struct Counter : zserio::BasicDefaultWalkObserver<A>
{
    void visitValue(const CPtr&, const FI&, size_t index) override
    {
        if (index == zserio::WALKER_NOT_ELEMENT) return;
        zv_check_eq(index, m_n++, "every element is shown with its index");
    }
    size_t m_n = 0;
};
} // namespace

ZV_HARNESS(T05_deep)
{
    static const size_t LIMIT[] = {0, 1, 127, 255, 256, 300, 301, NONE};
    const size_t k = zv_split(0, 9);
    zv_shard();
    __libc_single_threaded = 1;
    Schema schema;
    const CPtr nothing;
    const FI field = fieldInfo("x", schema.inner, false, true);
    constexpr size_t DEPTH = 300;
    if (k < 8)
    {
        const size_t limit = LIMIT[k];
        zserio::BasicDepthWalkFilter<A> filter(limit);
        for (size_t i = 1; i <= DEPTH; ++i)
        {
            zv_check(filter.beforeValue(nothing, field, NONE) == (i <= limit), "a value is let through when it is not deeper than the limit");
            const bool in = i % 2 == 0 ? filter.beforeArray(nothing, field) : filter.beforeCompound(nothing, field, NONE);
            zv_check(in == (i <= limit), "a level is let through when it is not deeper than the limit");
        }
        for (size_t i = DEPTH; i > 0; --i)
            zv_check(i % 2 == 0 ? filter.afterArray(nothing, field) : filter.afterCompound(nothing, field, NONE), "the siblings of a level are not held back");
        zv_check(filter.beforeValue(nothing, field, NONE) == (limit >= 1), "the root's level is reached again");
        zv_cover("deep");
        return;
    }
    if (k == 8)
    {
        const size_t limit = zv_sym("limit", 64), index = zv_sym("index", 64);
        zserio::BasicArrayLengthWalkFilter<A> filter(limit);
        const bool in = index == zserio::WALKER_NOT_ELEMENT || index < limit;
        zv_check(filter.beforeArray(nothing, field) && filter.afterArray(nothing, field), "arrays themselves are let through");
        zv_check(filter.beforeCompound(nothing, field, index) == in && filter.afterCompound(nothing, field, index) == in, "a compound element is let through below the limit");
        zv_check(filter.beforeValue(nothing, field, index) == in && filter.afterValue(nothing, field, index) == in, "an element is let through below the limit");
        if (in) zv_cover("below the limit"); else zv_cover("behind the limit");
        return;
    }
    LongArray array(schema.u8, DEPTH);
    const FI fields[1] = {fieldInfo("v", schema.u8, false, true)};
    zserio::detail::StructTypeInfo<A> type("S", nullptr, {}, {}, zserio::Span<const FI>(fields, 1), {}, {});
    Holder holder(type, &array);
    Counter counter;
    zserio::BasicWalker<A> walker(counter);
    walker.walk(CPtr(&holder, Release()));
    zv_check_eq(counter.m_n, DEPTH, "every element of a long array is shown");
    zv_cover("long");
}

ZV_HARNESS(T05_root)
{
    __libc_single_threaded = 1;
    const bool missing = zv_choice("missing");
    zserio::detail::FixedSizeBuiltinTypeInfo<A> u8("uint8", SchemaType::UINT8, CppType::UINT8, 8);
    Observer observer;
    zserio::BasicWalker<A> walker(observer);
    bool raised = false;
    {
        Node value(u8, 0);
        try { walker.walk(missing ? CPtr() : share(&value)); } catch (const CppRuntimeException&) { raised = true; }
    }
    zv_check(raised && g_logged == 0, "only a compound can be walked");
    zv_cover("refused");
}
