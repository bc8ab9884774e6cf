// J01: JSON strings; J02: JSON values; J03: tokenizer; J04: parser
#include "zv.h"
#define ZVS_OUT_MAX 400
#include "streams.h"
#include <algorithm>
#include <cstring>
#include <memory>
#include "zserio/JsonDecoder.h"
#include "zserio/JsonEncoder.h"
#include "zserio/JsonTokenizer.h"
using namespace zserio;

// numbers in floating point notation: the value is not interpreted, the characters are read as the standard says;
// the value returned only tells how many characters were read
static double valueOfLength(size_t n)
{
    const uint64_t bits = (uint64_t(0x3FE) << 52) + n;
    double value;
    std::memcpy(&value, &bits, sizeof(value));
    return value;
}
static uint64_t bitsOf(double value)
{
    uint64_t bits;
    std::memcpy(&bits, &value, sizeof(bits));
    return bits;
}
static size_t lengthOfDecimal(const char* p, size_t n)
{
    size_t i = 0, digits = 0;
    if (i < n && (p[i] == '-' || p[i] == '+')) ++i;
    while (i < n && p[i] >= '0' && p[i] <= '9') { ++i; ++digits; }
    if (i < n && p[i] == '.')
    {
        size_t j = i + 1;
        while (j < n && p[j] >= '0' && p[j] <= '9') { ++j; ++digits; }
        if (digits != 0) i = j;
    }
    if (digits == 0) return 0;
    if (i < n && (p[i] == 'e' || p[i] == 'E'))
    {
        size_t j = i + 1;
        if (j < n && (p[j] == '-' || p[j] == '+')) ++j;
        const size_t begin = j;
        while (j < n && p[j] >= '0' && p[j] <= '9') ++j;
        if (j > begin) i = j;
    }
    return i;
}
static const char* g_number = nullptr; // characters strtod has to be given, if known
extern "C" double strtod(const char* p, char** end) noexcept
{
    size_t n = 0;
    while (p[n] != 0) ++n;
    const size_t read = lengthOfDecimal(p, n);
    if (g_number != nullptr)
        for (size_t i = 0; i < read; ++i) zv_check_eq(static_cast<uint8_t>(p[i]), static_cast<uint8_t>(g_number[i]), "the number read is the one of the text");
    if (end != nullptr) *end = const_cast<char*>(p) + read;
    return valueOfLength(read);
}

namespace
{

using Decoder = BasicJsonDecoder<>;
using Result = Decoder::DecoderResult;

struct Ref
{
    bool ok = false;     // a value is decoded
    bool nul = false;    // contains a raw NUL character: may be refused
    bool open = false;   // more characters could change the result
    size_t len = 0;      // characters of the value, if ok
    char kind = 0;       // n t f N I M(inus infinity) s u i d o(verflow)
    char out[24];
    size_t outLen = 0;
    uint64_t number = 0;
};

int hexValue(char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}

// a JSON string literal as zserio writes them: escapes of quote, backslash, b f n r t and u00XX
Ref refString(const char* in, size_t n)
{
    Ref r;
    r.kind = 's';
    size_t i = 1;
    while (true)
    {
        if (i == n) { r.open = true; return r; }
        const char c = in[i++];
        if (c == '"') { r.ok = true; r.len = i; return r; }
        if (c != '\\') { r.nul = r.nul || c == 0; r.out[r.outLen++] = c; continue; }
        if (i == n) { r.open = true; return r; }
        const char e = in[i++];
        if (e == '\\' || e == '"') r.out[r.outLen++] = e;
        else if (e == 'b') r.out[r.outLen++] = 8;
        else if (e == 'f') r.out[r.outLen++] = 12;
        else if (e == 'n') r.out[r.outLen++] = 10;
        else if (e == 'r') r.out[r.outLen++] = 13;
        else if (e == 't') r.out[r.outLen++] = 9;
        else if (e == 'u')
        {
            int value = 0;
            for (int k = 0; k < 4; ++k)
            {
                if (i == n) { r.open = true; return r; }
                const int h = hexValue(in[i++]);
                if (h < 0 || (k < 2 && h != 0)) return r;
                value = value * 16 + h;
            }
            r.out[r.outLen++] = static_cast<char>(value);
        }
        else return r;
    }
}

Ref refLiteral(const char* in, size_t n, const char* word, char kind)
{
    Ref r;
    r.kind = kind;
    size_t i = 0;
    for (; word[i] != 0; ++i)
    {
        if (i == n) { r.open = true; return r; }
        if (in[i] != word[i]) return r;
    }
    r.ok = true;
    r.len = i;
    return r;
}

// up to six characters of a number
Ref refNumber(const char* in, size_t n)
{
    Ref r;
    size_t i = 0;
    const bool negative = in[0] == '-';
    if (negative) ++i;
    bool real = false, exponent = false, afterExponent = false;
    uint64_t value = 0;
    for (; i < n; ++i)
    {
        const char c = in[i];
        const bool sign = afterExponent && (c == '+' || c == '-');
        afterExponent = false;
        if (sign) continue;
        if (c >= '0' && c <= '9') { if (!real) value = value * 10 + static_cast<uint64_t>(c - '0'); }
        else if ((c == 'e' || c == 'E') && !exponent) { real = exponent = afterExponent = true; }
        else if (c == '.' && !real) real = true;
        else break;
    }
    r.open = i == n;
    r.len = i;
    if (i == 0 || (negative && i == 1)) return r;
    r.kind = real ? 'd' : negative ? 'i' : 'u';
    r.ok = !real || lengthOfDecimal(in, i) == i; // "1e", "." and the like are no numbers
    r.number = negative ? ~value + 1 : value;
    return r;
}

Ref refValue(const char* in, size_t n)
{
    switch (in[0])
    {
    case 'n': return refLiteral(in, n, "null", 'n');
    case 't': return refLiteral(in, n, "true", 't');
    case 'f': return refLiteral(in, n, "false", 'f');
    case 'N': return refLiteral(in, n, "NaN", 'N');
    case 'I': return refLiteral(in, n, "Infinity", 'I');
    case '"': return refString(in, n);
    case '-': if (n > 1 && in[1] == 'I') return refLiteral(in, n, "-Infinity", 'M'); break;
    default: break;
    }
    return refNumber(in, n);
}

void checkAny(const BasicAny<std::allocator<uint8_t>>& any, const Ref& r)
{
    switch (r.kind)
    {
    case 'n': zv_check(any.isType<std::nullptr_t>(), "null"); break;
    case 't': zv_check(any.isType<bool>() && any.get<bool>(), "true"); break;
    case 'f': zv_check(any.isType<bool>() && !any.get<bool>(), "false"); break;
    case 'N': case 'I': case 'M': zv_check(any.isType<double>(), "a floating point value"); break;
    case 'd':
        zv_check(any.isType<double>(), "a floating point value");
        zv_check_eq(bitsOf(any.get<double>()), bitsOf(valueOfLength(r.len)), "the value of all the characters of the number");
        break;
    case 'u': zv_check(any.isType<uint64_t>(), "an unsigned value"); zv_check_eq(any.get<uint64_t>(), r.number, "the unsigned value"); break;
    case 'i': zv_check(any.isType<int64_t>(), "a signed value"); zv_check_eq(static_cast<uint64_t>(any.get<int64_t>()), r.number, "the signed value"); break;
    default:
        zv_check(any.isType<BasicString<std::allocator<char>>>(), "a string value");
        const BasicString<std::allocator<char>>& s = any.get<BasicString<std::allocator<char>>>();
        zv_check_eq(s.size(), r.outLen, "length of the string decoded");
        if (s.size() == r.outLen)
            for (size_t i = 0; i < r.outLen; ++i)
                zv_check_eq(static_cast<uint8_t>(s[i]), static_cast<uint8_t>(r.out[i]), "character of the string decoded");
        break;
    }
}

enum Outcome { OPEN, REFUSED, DECODED };
Outcome checkResult(const Result& d, const Ref& r, size_t n)
{
    zv_check(d.numReadChars >= 1 && d.numReadChars <= n, "the characters read are inside the input and progress is made");
    const bool has = d.value.hasValue();
    if (r.kind == 'd' && !r.ok) // characters of a number which are none
    {
        zv_check(!has, "a text which is only the beginning of a number is refused");
        zv_check_eq(d.numReadChars, r.len, "the characters are read as a whole");
        return REFUSED;
    }
    zv_check(has == r.ok, "a value is decoded exactly when the text begins with one");
    if (!r.ok)
    {
        zv_check(!d.integerOverflow, "no overflow without a number");
        if (r.open) zv_check_eq(d.numReadChars, n, "a text which may go on is read up to its end");
        return r.open ? OPEN : REFUSED;
    }
    if (!has) return REFUSED;
    zv_check_eq(d.numReadChars, r.len, "exactly the characters of the value are read");
    zv_check(!d.integerOverflow, "a small number does not overflow");
    checkAny(d.value, r);
    return DECODED;
}

void coverOutcome(Outcome o)
{
    if (o == OPEN) zv_cover("a text which may go on");
    else if (o == REFUSED) zv_cover("refused");
    else zv_cover("decoded");
}

// prefix and then that many arbitrary characters, in memory of exactly that size
char* makeText(const char* prefix, size_t& n)
{
    const size_t len = std::strlen(prefix);
    char* p = reinterpret_cast<char*>(zv_buffer("text", len + n));
    for (size_t i = 0; i < len; ++i) p[i] = prefix[i];
    n += len;
    return p;
}

} // namespace

ZV_HARNESS(J01_encode)
{
    static const char* const PREFIX[] = {"", "ab", "\\\""};
    const uint64_t kind = zv_split(0, 4), first = zv_split(0, 7);
    zv_shard();
    size_t n = kind < 2 ? kind : kind == 2 ? 2 : 1;
    if (n == 0 && first != 0) return;
    const char* text = makeText(kind < 3 ? "" : PREFIX[kind - 2], n);
    if (n > 0) zv_assume(static_cast<uint8_t>(text[n - 1]) >> 5 == first);
    zvs::OutBuf buf;
    zvs::Out out(&buf);
    JsonEncoder::encodeString(out.get(), std::string_view(text, n));

    zv_check(buf.used >= 2 && buf.data[0] == '"' && buf.data[buf.used - 1] == '"', "the literal is quoted");
    for (size_t i = 1; i + 1 < buf.used; ++i)
    {
        const char c = buf.data[i];
        zv_check(static_cast<uint8_t>(c) >= 0x20, "no raw control character");
        zv_check(c != '"', "no raw quote");
        if (c == '\\') ++i;
    }
    const Ref r = refString(buf.data, buf.used);
    zv_check(r.ok && r.len == buf.used, "the literal is one well-formed string");
    zv_check_eq(r.outLen, n, "length of the string encoded");
    if (r.outLen != n) return;
    for (size_t i = 0; i < n; ++i) zv_check_eq(static_cast<uint8_t>(r.out[i]), static_cast<uint8_t>(text[i]), "character of the string encoded");

    Decoder decoder;
    const Result d = decoder.decodeValue(std::string_view(buf.data, buf.used));
    if (checkResult(d, r, buf.used) == DECODED) zv_cover("decoded again");
}

ZV_HARNESS(J01_decode)
{
    static const char* const PREFIX[] = {"\"", "\"\\", "\"\\u", "\"\\u0", "\"\\u00", "\"\\u00a", "\"abcdefghijklmn", "\"\\n\\u0041"};
    static const size_t MORE[] = {4, 4, 5, 4, 4, 3, 3, 2};
    const uint64_t p = zv_split(0, 7);
    const size_t more = zv_split(0, MORE[p]);
    zv_shard();
    size_t n = more;
    const char* text = makeText(PREFIX[p], n);
    Decoder decoder;
    const Result d = decoder.decodeValue(std::string_view(text, n));
    coverOutcome(checkResult(d, refString(text, n), n));
}

ZV_HARNESS(J02_any)
{
    const uint64_t len = zv_split(0, 5), first = zv_split(0, 7);
    zv_shard();
    size_t n = len;
    const char* text = makeText("", n);
    if (n > 0) zv_assume(static_cast<uint8_t>(text[0]) >> 5 == first);
    if (n > 0) zv_assume(text[0] != '"'); // J01_decode
    Decoder decoder;
    const Result d = decoder.decodeValue(std::string_view(text, n));
    if (n == 0) { zv_check(!d.value.hasValue() && d.numReadChars == 0, "nothing is decoded from nothing"); return; }
    coverOutcome(checkResult(d, refValue(text, n), n));
}

ZV_HARNESS(J02_words)
{
    static const char* const WORD[] = {"null", "true", "false", "NaN", "Infinity", "-Infinity"};
    const uint64_t w = zv_split(0, 5), keep = zv_split(0, 9), more = zv_split(0, 2);
    zv_shard();
    const size_t len = std::strlen(WORD[w]);
    if (keep > len || keep == 0) return;
    char prefix[16];
    for (size_t i = 0; i < keep; ++i) prefix[i] = WORD[w][i];
    prefix[keep] = 0;
    size_t n = more;
    const char* text = makeText(prefix, n);
    Decoder decoder;
    const Result d = decoder.decodeValue(std::string_view(text, n));
    coverOutcome(checkResult(d, refValue(text, n), n));
}

// integers of any number of digits up to 22: exact value or overflow
ZV_HARNESS(J02_digits)
{
    const uint64_t negative = zv_split(0, 1), digits = zv_split(1, 22), tail = zv_split(0, 1);
    zv_shard();
    const size_t n = negative + digits + tail;
    char* text = reinterpret_cast<char*>(zv_buffer("text", n));
    if (negative) text[0] = '-';
    uint64_t high = 0, low = 0; // number is high * 10^10 + low
    for (size_t i = 0; i < digits; ++i)
    {
        const uint64_t d = zv_sym("digit", 4);
        zv_assume(d <= 9);
        text[negative + i] = static_cast<char>('0' + d);
        if (digits - i > 10) high = high * 10 + d;
        else low = low * 10 + d;
    }
    if (tail) text[n - 1] = ',';
    const uint64_t maxHigh = negative ? 922337203U : 1844674407U;
    const uint64_t maxLow = negative ? 6854775808U : 3709551615U;
    bool fits;
    if (high > maxHigh) fits = false;
    else if (high < maxHigh) fits = true;
    else fits = low <= maxLow;

    Decoder decoder;
    const Result d = decoder.decodeValue(std::string_view(text, n));
    zv_check_eq(d.numReadChars, negative + digits, "exactly the characters of the number are read");
    zv_check(d.integerOverflow == !fits, "overflow is reported exactly when the number is outside the range of its type");
    zv_check(d.value.hasValue() == fits, "an overflowed number has no value");
    if (!fits || !d.value.hasValue()) { zv_cover("overflow"); return; }
    zv_cover("in range");
    const uint64_t magnitude = high * 10000000000U + low;
    if (negative)
    {
        zv_check(d.value.isType<int64_t>(), "a signed value");
        zv_check_eq(static_cast<uint64_t>(d.value.get<int64_t>()), ~magnitude + 1, "the signed value");
    }
    else
    {
        zv_check(d.value.isType<uint64_t>(), "an unsigned value");
        zv_check_eq(d.value.get<uint64_t>(), magnitude, "the unsigned value");
    }
}

// numbers of any number of digits in each of their parts
ZV_HARNESS(J02_long)
{
    static const size_t DIGITS[] = {0, 1, 18, 40, 300}, FRACTION[] = {0, 1, 40, 300}, EXPONENT[] = {0, 1, 3, 40};
    const uint64_t negative = zv_split(0, 1), a = zv_split(0, 4), b = zv_split(0, 3), c = zv_split(0, 3), tail = zv_split(0, 1);
    zv_shard();
    const size_t n = negative + DIGITS[a] + (b ? 1 + FRACTION[b] : 0) + (c ? 2 + EXPONENT[c] : 0) + tail;
    if (n == negative + tail) return;
    const bool real = b || c;
    char* text = reinterpret_cast<char*>(zv_buffer("text", n));
    size_t i = 0;
    const auto digits = [&](size_t count) {
        for (size_t k = 0; k < count; ++k)
        {
            if (k + 1 < count && (!real || k != 0)) { text[i++] = real ? static_cast<char>('1' + k % 9) : '0'; continue; }
            const uint64_t d = zv_sym("digit", 4);
            zv_assume(d <= 9);
            text[i++] = static_cast<char>('0' + d);
        }
    };
    if (negative) text[i++] = '-';
    digits(DIGITS[a]);
    if (b) { text[i++] = '.'; digits(FRACTION[b]); }
    if (c) { text[i++] = 'e'; text[i++] = '+'; digits(EXPONENT[c]); }
    if (tail) text[i++] = ',';
    g_number = text;
    Decoder decoder;
    const Result d = decoder.decodeValue(std::string_view(text, n));
    const Outcome o = checkResult(d, refValue(text, n), n);
    if (o == DECODED) zv_cover("long number decoded"); else if (o == REFUSED) zv_cover("long text refused");
}

// strings past every narrow counter, with an arbitrary character somewhere
ZV_HARNESS(J01_long)
{
    constexpr size_t LEN = 300;
    static const size_t AT[] = {0, 14, 15, 16, 127, 254, 255, 256, 299};
    const size_t k = zv_split(0, 8), first = zv_split(0, 7);
    zv_shard();
    char* text = reinterpret_cast<char*>(zv_buffer("text", LEN));
    for (size_t i = 0; i < LEN; ++i) if (i != AT[k]) text[i] = static_cast<char>('a' + i % 26);
    zv_assume(static_cast<uint8_t>(text[AT[k]]) >> 5 == first);
    zvs::OutBuf buf;
    zvs::Out out(&buf);
    JsonEncoder::encodeString(out.get(), std::string_view(text, LEN));
    Decoder decoder;
    const Result d = decoder.decodeValue(std::string_view(buf.data, buf.used));
    zv_check_eq(d.numReadChars, buf.used, "the whole literal is read");
    zv_check(d.value.hasValue() && d.value.isType<BasicString<std::allocator<char>>>(), "the literal is decoded");
    const auto& s = d.value.get<BasicString<std::allocator<char>>>();
    zv_check_eq(s.size(), LEN, "length of the string decoded");
    if (s.size() != LEN) return;
    for (size_t i = 0; i < LEN; ++i) zv_check_eq(static_cast<uint8_t>(s[i]), static_cast<uint8_t>(text[i]), "character of the string decoded");
    zv_cover("decoded again");
}

// ---------------------------------------------------------------- J03
namespace
{

struct RefToken
{
    JsonToken token;
    size_t pos;      // first character
    size_t line, column;
    Ref value;
};

// the next token at or behind pos; line and column of pos are carried along
RefToken refToken(const char* text, size_t n, size_t& pos, size_t& line, size_t& column)
{
    while (pos < n)
    {
        const char c = text[pos];
        if (c == ' ' || c == '\t') { ++pos; ++column; }
        else if (c == '\n') { ++pos; ++line; column = 1; }
        else if (c == '\r')
        {
            if (pos + 1 == n) break; // only at the end of the text, where no token follows
            pos += text[pos + 1] == '\n' ? 2 : 1;
            ++line; column = 1;
        }
        else break;
    }
    RefToken t;
    t.pos = pos; t.line = line; t.column = column;
    if (pos == n || text[pos] == '\r') { pos = n; t.token = JsonToken::END_OF_FILE; return t; }
    switch (text[pos])
    {
    case '{': t.token = JsonToken::BEGIN_OBJECT; break;
    case '}': t.token = JsonToken::END_OBJECT; break;
    case '[': t.token = JsonToken::BEGIN_ARRAY; break;
    case ']': t.token = JsonToken::END_ARRAY; break;
    case ':': t.token = JsonToken::KEY_SEPARATOR; break;
    case ',': t.token = JsonToken::ITEM_SEPARATOR; break;
    default:
        t.token = JsonToken::VALUE;
        t.value = refValue(text + pos, n - pos);
        if (!t.value.ok) t.token = JsonToken::UNKNOWN;
        pos += t.value.len; column += t.value.len;
        return t;
    }
    ++pos; ++column;
    return t;
}

// tokens of the text, delivered in one or two chunks, against the reference
void checkTokens(const char* text, size_t n, size_t cut)
{
    zvs::InBuf buf;
    buf.text = text; buf.size = n; buf.cut = cut;
    zvs::In in(&buf);
    BasicJsonTokenizer<> tokenizer(in.get(), std::allocator<uint8_t>());
    zv_check(tokenizer.getToken() == (n == 0 ? JsonToken::END_OF_FILE : JsonToken::BEGIN_OF_FILE), "the first token");
    size_t pos = 0, line = 1, column = 1;
    size_t lastLine = 1, lastColumn = 1;
    for (size_t steps = 0;; ++steps)
    {
        zv_check(steps <= n + 1, "every step consumes input or ends");
        const RefToken r = refToken(text, n, pos, line, column);
        bool raised = false;
        JsonToken token = JsonToken::UNKNOWN;
        try { token = tokenizer.next(); } catch (const JsonParserException&) { raised = true; }
        if (r.value.kind == 'd' && raised) return; // a floating point number refused by the C library
        if (raised && r.value.nul) return;
        zv_check(raised == (r.token == JsonToken::UNKNOWN), "a text which is no token raises");
        if (raised) { zv_cover("raised"); return; }
        zv_check(token == r.token && tokenizer.getToken() == r.token, "the token");
        zv_check(tokenizer.getLine() > lastLine || (tokenizer.getLine() == lastLine && tokenizer.getColumn() >= lastColumn), "positions do not decrease");
        lastLine = tokenizer.getLine(); lastColumn = tokenizer.getColumn();
        if (token == JsonToken::END_OF_FILE)
        {
            zv_check(!tokenizer.getValue().hasValue(), "no value at the end");
            zv_check(tokenizer.next() == JsonToken::END_OF_FILE, "the end stays the end");
            zv_cover("end of file");
            return;
        }
        zv_check_eq(tokenizer.getLine(), r.line, "line of the token");
        zv_check_eq(tokenizer.getColumn(), r.column, "column of the token");
        if (token == JsonToken::VALUE) checkAny(tokenizer.getValue(), r.value);
        else zv_check(tokenizer.getValue().isType<char>() && tokenizer.getValue().get<char>() == text[r.pos], "the character of the token");
    }
}

} // namespace

// every text of up to three characters, in one or two chunks
ZV_HARNESS(J03_any)
{
    const uint64_t len = zv_split(0, 3), cut = zv_split(0, 2), first = zv_split(0, 15);
    zv_shard();
    size_t n = len;
    if (cut > 0 && cut >= n) return;
    if (n == 0 && first > 0) return;
    const char* text = makeText("", n);
    if (n > 0) zv_assume(static_cast<uint8_t>(text[0]) >> 4 == first);
    checkTokens(text, n, cut == 0 ? n : cut);
}

// lines and columns past every narrow counter
ZV_HARNESS(J03_long)
{
    const uint64_t kind = zv_split(0, 5);
    zv_shard();
    constexpr size_t LEN = 300;
    char* text = reinterpret_cast<char*>(zv_buffer("text", LEN + 4));
    for (size_t i = 0; i < LEN; ++i)
    {
        switch (kind)
        {
        case 0: text[i] = ' '; break;
        case 1: text[i] = '\n'; break;
        case 2: text[i] = '\r'; break;
        case 3: text[i] = i % 2 == 0 ? '\r' : '\n'; break;
        case 4: text[i] = i == 0 || i == LEN - 1 ? '"' : 'x'; break;
        default: text[i] = i < 20 ? '\t' : i == 20 ? '-' : i < 290 ? '0' : i == 290 ? '7' : ' '; break;
        }
    }
    text[LEN] = ','; text[LEN + 1] = '1'; text[LEN + 2] = '3'; text[LEN + 3] = ']';
    zvs::InBuf buf;
    buf.text = text; buf.size = LEN + 4; buf.cut = LEN + 4;
    zvs::In in(&buf);
    BasicJsonTokenizer<> tokenizer(in.get(), std::allocator<uint8_t>());
    const size_t lines = kind == 1 || kind == 2 ? LEN : kind == 3 ? LEN / 2 : 0;
    const size_t column = lines != 0 ? 1 : LEN + 1;
    if (kind >= 4)
    {
        zv_check(tokenizer.next() == JsonToken::VALUE, "the long value");
        zv_check_eq(tokenizer.getColumn(), kind == 4 ? 1 : 21, "column of the long value");
        if (kind == 4) zv_check_eq(tokenizer.getValue().get<BasicString<std::allocator<char>>>().size(), LEN - 2, "length of the long value");
        else zv_check_eq(static_cast<uint64_t>(tokenizer.getValue().get<int64_t>()), static_cast<uint64_t>(-7), "the long value itself");
    }
    zv_check(tokenizer.next() == JsonToken::ITEM_SEPARATOR, "the token behind");
    zv_check_eq(tokenizer.getLine(), lines + 1, "line of the token behind");
    zv_check_eq(tokenizer.getColumn(), column, "column of the token behind");
    zv_check(tokenizer.next() == JsonToken::VALUE && tokenizer.getValue().get<uint64_t>() == 13, "the value behind");
    zv_check_eq(tokenizer.getColumn(), column + 1, "column of the value behind");
    zv_check(tokenizer.next() == JsonToken::END_ARRAY, "the last token");
    zv_check_eq(tokenizer.getColumn(), column + 3, "column of the last token");
    zv_cover("long text");
}

// longer texts with an arbitrary character anywhere, cut anywhere
ZV_HARNESS(J03_texts)
{
    static const char* const TEXT[] = {"{\"a\":[1,-2],\"b\":{}}", "[true,false,null]", " \r\n\t NaN ,Infinity\r-Infinity", "\"x\\u001f\\n\\\"\" 1.5e+3 -0",
            "123 456\r\n\r\n7", "\"long enough for the heap\"x", "tru e"};
    const uint64_t k = zv_split(0, 6), at = zv_split(0, 27), cut = zv_split(1, 27);
    zv_shard();
    const size_t len = std::strlen(TEXT[k]);
    if (at > len || cut >= len + 1) return;
#ifndef ZV_THOROUGH
    if (at < len && cut < len && (cut > at + 3 || cut + 1 < at)) return;
#endif
    char* text = reinterpret_cast<char*>(zv_buffer("text", len));
    for (size_t i = 0; i < len; ++i)
        if (i != at) text[i] = TEXT[k][i];
    checkTokens(text, len, cut);
}
