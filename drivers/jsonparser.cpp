// J04: the JSON parser against every token sequence; the tokenizer is replaced by an arbitrary source of tokens
#include "zv.h"
#include <algorithm>
#include <array>
#include <istream>
#include <memory>
#include "zserio/Any.h"
#include "zserio/CppRuntimeException.h"
#include "zserio/JsonTokenizer.h"

namespace
{

template <typename T>
struct Alloc : std::allocator<T>
{
    template <typename U>
    struct rebind { using other = Alloc<U>; };
    Alloc() = default;
    template <typename U>
    Alloc(const Alloc<U>&) {}
};
using A = Alloc<uint8_t>;
using Text = zserio::BasicString<Alloc<char>>;

enum Kind { K_EOF, K_OBJ, K_OBJ_END, K_ARR, K_ARR_END, K_COLON, K_COMMA, K_STRING, K_NULL, K_TRUE, K_INT, K_UINT, K_DOUBLE, K_RAISE };

constexpr size_t MAX = 12;
size_t g_limit = 6;   // tokens before the end is forced
size_t g_kinds = 13;
size_t g_forced[3];   // the first tokens
Kind g_kind[MAX + 2];
size_t g_count = 0;   // tokens taken so far

} // namespace

namespace zserio
{

template <>
class BasicJsonTokenizer<A>
{
public:
    using allocator_type = A;
    BasicJsonTokenizer(std::istream&, const A& allocator) : m_token(JsonToken::BEGIN_OF_FILE), m_value(allocator) {}

    JsonToken next()
    {
        if (m_token == JsonToken::END_OF_FILE) return m_token;
        const size_t i = g_count++;
        g_kind[i] = i < 2 ? static_cast<Kind>(g_forced[i]) : i < g_limit ? static_cast<Kind>(zv_split(0, g_kinds)) : K_EOF;
        if (g_kind[i] == K_RAISE) throw JsonParserException("unknown token");
        m_value.reset();
        switch (g_kind[i])
        {
        case K_OBJ: m_token = JsonToken::BEGIN_OBJECT; m_value.set('{'); break;
        case K_OBJ_END: m_token = JsonToken::END_OBJECT; m_value.set('}'); break;
        case K_ARR: m_token = JsonToken::BEGIN_ARRAY; m_value.set('['); break;
        case K_ARR_END: m_token = JsonToken::END_ARRAY; m_value.set(']'); break;
        case K_COLON: m_token = JsonToken::KEY_SEPARATOR; m_value.set(':'); break;
        case K_COMMA: m_token = JsonToken::ITEM_SEPARATOR; m_value.set(','); break;
        case K_STRING: { const char c[2] = {static_cast<char>('a' + i), 0}; m_token = JsonToken::VALUE; m_value.set(Text(c)); break; }
        case K_NULL: m_token = JsonToken::VALUE; m_value.set(nullptr); break;
        case K_TRUE: m_token = JsonToken::VALUE; m_value.set(true); break;
        case K_INT: m_token = JsonToken::VALUE; m_value.set(-static_cast<int64_t>(i)); break;
        case K_UINT: m_token = JsonToken::VALUE; m_value.set(static_cast<uint64_t>(i)); break;
        case K_DOUBLE: m_token = JsonToken::VALUE; m_value.set(0.5); break;
        default: m_token = JsonToken::END_OF_FILE; break;
        }
        return m_token;
    }
    JsonToken getToken() const { return m_token; }
    const BasicAny<A>& getValue() const { return m_value; }
    size_t getLine() const { return 1; }
    size_t getColumn() const { return g_count; }

private:
    JsonToken m_token;
    BasicAny<A> m_value;
};

} // namespace zserio

#include "zserio/JsonParser.h"
using namespace zserio;

namespace
{

// an event is the token it stands for and, for keys, a mark
struct Event
{
    char what; // { } [ ] k v
    size_t token;
};
struct Events
{
    Event e[2 * MAX];
    size_t n = 0;
    void add(char what, size_t token) { zv_check(n < 2 * MAX, "no more events than tokens"); e[n].what = what; e[n].token = token; ++n; }
};

struct Observer : BasicJsonParser<A>::IObserver
{
    Events events;
    // the token a value comes from is told by the value
    void value(Kind kind, size_t token)
    {
        zv_check(token < g_count && g_kind[token] == kind, "the value reported is the one of the token");
        events.add('v', token);
    }
    size_t lastOf(Kind kind)
    {
        for (size_t i = g_count; i-- > 0;) if (g_kind[i] == kind) return i;
        return g_count;
    }
    void beginObject() override { events.add('{', 0); }
    void endObject() override { events.add('}', 0); }
    void beginArray() override { events.add('[', 0); }
    void endArray() override { events.add(']', 0); }
    void visitKey(std::string_view key) override { events.add('k', static_cast<size_t>(key[0] - 'a')); zv_check_eq(key.size(), 1, "the key"); }
    void visitValue(std::nullptr_t) override { value(K_NULL, lastOf(K_NULL)); }
    void visitValue(bool v) override { zv_check(v, "the boolean value"); value(K_TRUE, lastOf(K_TRUE)); }
    void visitValue(int64_t v) override { value(K_INT, static_cast<size_t>(-v)); }
    void visitValue(uint64_t v) override { value(K_UINT, static_cast<size_t>(v)); }
    void visitValue(double v) override { uint64_t bits; __builtin_memcpy(&bits, &v, 8); zv_check_eq(bits, 0x3fe0000000000000ULL, "the floating point value"); value(K_DOUBLE, lastOf(K_DOUBLE)); }
    void visitValue(std::string_view v) override { zv_check_eq(v.size(), 1, "the string"); value(K_STRING, static_cast<size_t>(v[0] - 'a')); }
};

bool isValue(Kind k) { return k >= K_STRING && k <= K_DOUBLE; }

// pushdown automaton of the JSON grammar over the tokens from position pos on; pos is left behind the element
bool reference(size_t& pos, Events& ev, bool& raised)
{
    enum State { ELEMENT, FIRST_KEY, KEY, COLON, FIRST_ELEMENT, AFTER };
    char stack[MAX];
    size_t depth = 0;
    State state = ELEMENT;
    while (true)
    {
        if (state == AFTER && depth == 0) return true;
        const Kind k = g_kind[pos];
        if (k == K_RAISE) { raised = true; return false; }
        switch (state)
        {
        case FIRST_ELEMENT:
            if (k == K_ARR_END) { ev.add(']', 0); --depth; ++pos; state = AFTER; break; }
            // fall through
        case ELEMENT:
            if (k == K_OBJ) { ev.add('{', 0); stack[depth++] = '{'; state = FIRST_KEY; }
            else if (k == K_ARR) { ev.add('[', 0); stack[depth++] = '['; state = FIRST_ELEMENT; }
            else if (isValue(k)) { ev.add('v', pos); state = AFTER; }
            else return false;
            ++pos;
            break;
        case FIRST_KEY:
            if (k == K_OBJ_END) { ev.add('}', 0); --depth; ++pos; state = AFTER; break; }
            // fall through
        case KEY:
            if (k != K_STRING) return false;
            ev.add('k', pos); ++pos; state = COLON;
            break;
        case COLON:
            if (k != K_COLON) return false;
            ++pos; state = ELEMENT;
            break;
        default: // AFTER
            if (stack[depth - 1] == '{')
            {
                if (k == K_COMMA) state = KEY;
                else if (k == K_OBJ_END) { ev.add('}', 0); --depth; }
                else return false;
            }
            else
            {
                if (k == K_COMMA) state = ELEMENT;
                else if (k == K_ARR_END) { ev.add(']', 0); --depth; }
                else return false;
            }
            ++pos;
            break;
        }
    }
}

} // namespace

ZV_HARNESS(J04_parser)
{
    const uint64_t small = zv_split(0, 1);
    g_kinds = small ? 7 : 13;
#ifdef ZV_THOROUGH
    g_limit = small ? 11 : 8;
#else
    g_limit = small ? 10 : 7;
#endif
    g_forced[0] = zv_split(0, g_kinds);
    g_forced[1] = zv_split(0, g_kinds);
    zv_shard();

    uint64_t dummy[64];
    Observer observer;
    BasicJsonParser<A> parser(*reinterpret_cast<std::istream*>(dummy), observer);
    size_t pos = 0;
    for (size_t round = 0; round < 2; ++round)
    {
        bool raised = false, end = false;
        observer.events.n = 0;
        try { end = parser.parse(); } catch (const JsonParserException&) { raised = true; }
        Events expected;
        if (g_kind[pos] == K_EOF)
        {
            zv_check(!raised && end && observer.events.n == 0, "nothing is parsed from nothing");
            zv_cover("end of input");
            return;
        }
        bool lexical = false;
        const bool accepted = reference(pos, expected, lexical);
        if (accepted && g_count > pos && g_kind[pos] == K_RAISE) zv_check(raised, "an error of the tokenizer is passed on");
        else zv_check(raised == !accepted, "exactly the sequences of the JSON grammar are accepted");
        zv_check(observer.events.n <= expected.n, "no event which the tokens do not call for");
        for (size_t i = 0; i < observer.events.n && i < expected.n; ++i)
        {
            zv_check(observer.events.e[i].what == expected.e[i].what, "kind of the event");
            zv_check_eq(observer.events.e[i].token, expected.e[i].token, "key or value of the event");
        }
        if (raised) { zv_cover("raised"); return; }
        zv_check_eq(observer.events.n, expected.n, "an accepted element reports all of its events");
        zv_check_eq(g_count, pos + 1, "one token behind the element is looked at");
        zv_check(end == (g_kind[pos] == K_EOF), "the end of input is reported");
        zv_cover("accepted");
    }
}
