// I07: position, size and bound helpers; I02: exception messages and formatting of integers
#include "zv.h"
#include <cstring>
#include "zserio/BitFieldUtil.h"
#include "zserio/BitPositionUtil.h"
#include "zserio/BuiltInOperators.h"
#include "zserio/CppRuntimeException.h"
#include "zserio/SizeConvertUtil.h"
#include "zserio/StringConvertUtil.h"
using namespace zserio;

ZV_HARNESS(I07_align)
{
    const uint64_t a = zv_split(0, 1024);
    zv_shard();
    // every position is a multiple of the alignment plus a rest
    const uint64_t quotient = zv_sym("quotient", 32), rest = zv_sym("rest", 32);
    if (a > 0) zv_assume(rest < a);
    else zv_assume(quotient == 0);
    const uint64_t position = quotient * a + rest;
    const uint64_t expected = a == 0 || rest == 0 ? position : (quotient + 1) * a;
    zv_assume(expected < (uint64_t(1) << 32)); // a position is a 32-bit number
    zv_check_eq(alignTo(static_cast<BitSize>(a), static_cast<BitSize>(position)), expected, "aligning yields the smallest multiple which is not below the position");
}

ZV_HARNESS(I07_numbits)
{
    const uint64_t b = zv_split(0, 65);
    zv_shard();
    const uint64_t n = zv_sym("n", 64);
    if (b == 65) zv_assume(n == 0);
    else if (b == 0) zv_assume(n == 1);
    else
    {
        zv_assume(n > (b == 1 ? 1 : uint64_t(1) << (b - 1)));
        if (b < 64) zv_assume(n <= (uint64_t(1) << b));
    }
    zv_check_eq(builtin::numBits(n), b == 65 ? 0 : b == 0 ? 1 : b, "number of bits needed for that many values");
    zv_cover("counted");
}

ZV_HARNESS(I07_bounds)
{
    const uint64_t isSigned = zv_split(0, 1), known = zv_split(0, 65);
    const uint64_t length = known < 65 ? known : zv_sym("length", 64);
    if (known == 65) zv_assume(length >= 65);
    bool raised = false;
    int64_t lower = 0;
    uint64_t upper = 0;
    try { lower = getBitFieldLowerBound(length, isSigned); } catch (const CppRuntimeException&) { raised = true; }
    const bool raisedLower = raised;
    raised = false;
    try { upper = getBitFieldUpperBound(length, isSigned); } catch (const CppRuntimeException&) { raised = true; }
    zv_check(raised == raisedLower, "both bounds exist or none");
    zv_check(raised == (known == 0 || known == 65), "bounds exist for 1 to 64 bits");
    if (raised) return;
    zv_cover("bounds");
    const uint64_t all = ~uint64_t(0) >> (64 - length);
    zv_check_eq(upper, isSigned ? all >> 1 : all, "upper bound");
    zv_check_eq(static_cast<uint64_t>(lower), isSigned ? ~(all >> 1) : 0, "lower bound");
}

ZV_HARNESS(I07_sizes)
{
    const uint64_t v = zv_sym("v", 64);
    if (zv_split(0, 1))
    {
        bool ok = false;
        try { zv_check_eq(convertSizeToUInt32(v), v, "the size is kept"); ok = true; } catch (const CppRuntimeException&) {}
        zv_check(ok == (v <= 0xffffffffULL), "conversion succeeds exactly when the size fits");
        if (ok) zv_cover("fits"); else zv_cover("too large");
    }
    else
    {
        bool ok = false;
        try { zv_check_eq(convertUInt64ToSize(v), v, "the size is kept"); ok = true; } catch (const CppRuntimeException&) {}
        zv_check(ok, "every 64-bit size fits");
    }
}

template <typename T>
static void digits(uint64_t length, uint64_t pair, uint64_t c)
{
    using U = std::make_unsigned_t<T>;
    const U magnitude = static_cast<U>(zv_sym("magnitude", sizeof(T) * 8));
    const bool negative = std::is_signed_v<T> && zv_split(0, 1);
    if (negative) zv_assume(magnitude > 0 && magnitude <= static_cast<U>(std::numeric_limits<T>::max()) + 1);
    else zv_assume(magnitude <= static_cast<U>(std::numeric_limits<T>::max()));
    const T v = static_cast<T>(negative ? static_cast<U>(U(0) - magnitude) : magnitude);
    // number of decimal digits
    U low = 1;
    for (uint64_t i = 1; i < length; ++i) low *= 10;
    if (length > 1) zv_assume(magnitude >= low);
    if (length < std::numeric_limits<U>::digits10 + 1) zv_assume(magnitude < low * 10);
    // the two digits looked at
    uint64_t power = 1;
    for (uint64_t i = 0; i < pair; ++i) power *= 100;
    zv_assume(magnitude / power % 100 == c);

    zv_mode("lazytable", 1);
    std::array<char, 24> buffer = {};
    const char* text = convertIntToString(buffer, v);
    const char* end = buffer.data() + 23;
    zv_check(*end == 0, "the text is terminated");
    zv_check_eq(static_cast<uint64_t>(end - text), length + (negative ? 1 : 0), "number of characters");
    if (negative) zv_check(*text == '-', "sign");
    if (2 * pair < length) zv_check_eq(static_cast<uint8_t>(end[-1 - int(2 * pair)]), '0' + c % 10, "decimal digit");
    if (2 * pair + 1 < length) zv_check_eq(static_cast<uint8_t>(end[-2 - int(2 * pair)]), '0' + c / 10, "decimal digit");
    zv_cover("formatted");
}

template <typename T>
static void digitsOf()
{
    uint64_t most = 1;
    uint64_t limit = static_cast<uint64_t>(std::numeric_limits<T>::max()) + (std::is_signed_v<T> ? 1 : 0);
    while (limit >= 10) { limit /= 10; most++; }
    const uint64_t length = zv_split(1, most);
    const uint64_t pair = zv_split(0, (length - 1) / 2);
    const uint64_t c = zv_split(0, 99);
    zv_shard();
    digits<T>(length, pair, c);
}
ZV_HARNESS(I02_digits)
{
    switch (zv_split(0, 3))
    {
    case 0: digitsOf<uint32_t>(); break;
    case 1: digitsOf<int32_t>(); break;
    case 2: digitsOf<uint64_t>(); break;
    case 3: digitsOf<int64_t>(); break;
    }
}

template <typename T>
static void shortDigits(T v)
{
    uint64_t rest = static_cast<uint64_t>(v < 0 ? -static_cast<int64_t>(v) : static_cast<int64_t>(v));
    std::array<char, 24> buffer = {};
    const char* text = convertIntToString(buffer, v);
    const char* p = buffer.data() + 23;
    zv_check(*p == 0, "the text is terminated");
    do
    {
        zv_check(*--p == static_cast<char>('0' + rest % 10), "decimal digit");
        rest /= 10;
    } while (rest > 0);
    if (v < 0) zv_check(*--p == '-', "sign");
    zv_check(p == text, "number of characters");
}
ZV_HARNESS(I02_shorts)
{
    const uint64_t high = zv_split(0, 255);
    zv_shard();
    const uint64_t v = high * 256 + zv_split(0, 255);
    shortDigits(static_cast<uint16_t>(v));
    shortDigits(static_cast<int16_t>(v));
    if (high == 0)
    {
        shortDigits(static_cast<uint8_t>(v));
        shortDigits(static_cast<int8_t>(v));
    }
}

// messages: texts of any length appended to a message of any length
static uint8_t* textOf(const char* name, uint64_t length, uint64_t kind)
{
    uint8_t* text = zv_buffer(name, length + (kind ? 1 : 0));
    if (kind) text[length] = 0;
    return text;
}
static void addTo(CppRuntimeException& e, const uint8_t* text, uint64_t length, uint64_t kind)
{
    const char* chars = reinterpret_cast<const char*>(text);
    switch (kind)
    {
    case 0: e.append(chars, length); break;
    case 1: e.append(chars); break;
    case 2: e << chars; break;
    default: e << std::string_view(chars, length); break;
    }
}
ZV_HARNESS(I02_append)
{
    const uint64_t kind = zv_split(0, 3), kind2 = zv_split(0, 3), part = zv_split(0, 1);
    zv_mode("exc_exact", 1);
    const uint64_t first = zv_sym("first", 40), second = zv_sym("second", 40);
    zv_assume(first > 0 && second > 0);
    const uint8_t* text = textOf("text", first, kind == 1 || kind == 2);
    const uint8_t* more = textOf("more", second, kind2 == 1 || kind2 == 2);
    CppRuntimeException e;
    zv_check(e.what()[0] == 0, "the message is terminated");
    addTo(e, text, first, kind);
    // a terminated text may end earlier: the position of the end is part of the message
    const bool exact1 = kind == 0 || kind == 3, exact2 = kind2 == 0 || kind2 == 3;
    const uint64_t used = first < 511 ? first : 511;
    const char* message = e.what();
    if (exact1) zv_check(message[used] == 0, "the message is terminated");
    zv_check(message[511] == 0, "the message is terminated");
    addTo(e, more, second, kind2);
    zv_check(message[511] == 0, "the message is terminated");
    zv_check(e.what() == message, "the message stays in its buffer");
    if (!exact1) return;
    if (part == 0)
    {
        const uint64_t i = zv_sym("i", 9);
        zv_assume(i < used);
        zv_check_eq(static_cast<uint8_t>(message[i]), text[i], "the message keeps its text");
    }
    else if (exact2)
    {
        const uint64_t total = used + second < 511 ? used + second : 511;
        zv_check(message[total] == 0, "the message is terminated");
        if (total < 511) zv_cover("fits"); else zv_cover("truncated");
        const uint64_t j = zv_sym("j", 9);
        zv_assume(j < total - used);
        zv_check_eq(static_cast<uint8_t>(message[used + j]), more[j], "the message contains the text appended");
    }
}
// numbers appended to a nearly full message (their digits are the subject of I02_digits)
ZV_HARNESS(I02_numbers)
{
    const uint64_t kind = zv_split(0, 3), left = zv_split(0, 24);
    zv_shard();
    zv_mode("exc_exact", 1);
    zv_mode("lazytable", 1);
    const uint64_t first = 511 - left;
    const uint8_t* text = zv_buffer("text", first);
    CppRuntimeException e;
    e.append(reinterpret_cast<const char*>(text), first);
    uint64_t number = 0;
    std::array<char, 24> buffer = {};
    const char* digits = nullptr;
    switch (kind)
    {
    case 0: number = zv_split(0, 1); e << (number == 1); digits = number == 1 ? "true" : "false"; break;
    case 1: number = zv_sym("n", 8); e << static_cast<uint8_t>(number); digits = convertIntToString(buffer, static_cast<uint8_t>(number)); break;
    case 2: number = zv_sym("n", 64); e << number; digits = convertIntToString(buffer, number); break;
    case 3: number = zv_sym("n", 63); zv_assume(number > 0); e << -static_cast<int64_t>(number); digits = convertIntToString(buffer, -static_cast<int64_t>(number)); break;
    }
    for (uint64_t i = 0; i < left && digits[i] != 0; ++i) zv_check_eq(static_cast<uint8_t>(e.what()[first + i]), static_cast<uint8_t>(digits[i]), "the message contains the number");
    zv_check(e.what()[511] == 0, "the message is terminated");
    zv_cover("appended");
}
