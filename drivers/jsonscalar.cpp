// J05: the scalar encoders of JSON. What the standard library puts out for a number is recorded with the format in force.
#include "zv.h"
#include "streams.h"
#include <cmath>
#include <cstring>
#include "zserio/JsonEncoder.h"

namespace
{

struct Inserted
{
    char what = 0; // s(igned), u(nsigned), b(ool), f(loat)
    uint64_t value = 0;
    std::ios_base::fmtflags flags{};
    std::streamsize precision = 0;
    size_t count = 0;
};
Inserted* g_ins = nullptr;

std::ostream& insert(std::ostream& s, char what, uint64_t value)
{
    g_ins->what = what;
    g_ins->value = value;
    g_ins->flags = s.flags();
    g_ins->precision = s.precision();
    ++g_ins->count;
    return s;
}

uint64_t bitsOf(double d) { uint64_t v; std::memcpy(&v, &d, 8); return v; }

} // namespace

extern "C" {
std::ostream& zvj_l(std::ostream*, long) asm("_ZNSo9_M_insertIlEERSoT_");
std::ostream& zvj_m(std::ostream*, unsigned long) asm("_ZNSo9_M_insertImEERSoT_");
std::ostream& zvj_x(std::ostream*, long long) asm("_ZNSo9_M_insertIxEERSoT_");
std::ostream& zvj_y(std::ostream*, unsigned long long) asm("_ZNSo9_M_insertIyEERSoT_");
std::ostream& zvj_b(std::ostream*, bool) asm("_ZNSo9_M_insertIbEERSoT_");
std::ostream& zvj_d(std::ostream*, double) asm("_ZNSo9_M_insertIdEERSoT_");
std::ostream& zvj_i(std::ostream*, int) asm("_ZNSolsEi");
std::ostream& zvj_s(std::ostream*, short) asm("_ZNSolsEs");
std::ostream& zvj_l(std::ostream* s, long v) { return insert(*s, 's', static_cast<uint64_t>(v)); }
std::ostream& zvj_x(std::ostream* s, long long v) { return insert(*s, 's', static_cast<uint64_t>(v)); }
std::ostream& zvj_m(std::ostream* s, unsigned long v) { return insert(*s, 'u', v); }
std::ostream& zvj_y(std::ostream* s, unsigned long long v) { return insert(*s, 'u', v); }
std::ostream& zvj_i(std::ostream* s, int v) { return insert(*s, 's', static_cast<uint64_t>(static_cast<int64_t>(v))); }
std::ostream& zvj_s(std::ostream* s, short v) { return insert(*s, 's', static_cast<uint64_t>(static_cast<int64_t>(v))); }
std::ostream& zvj_b(std::ostream* s, bool v) { return insert(*s, 'b', v ? 1 : 0); }
std::ostream& zvj_d(std::ostream* s, double v) { return insert(*s, 'f', bitsOf(v)); }
double modf(double, double* whole)
{
    const uint64_t w = zv_havoc(), f = zv_havoc();
    std::memcpy(whole, &w, 8);
    double r;
    std::memcpy(&r, &f, 8);
    return r;
}
}

namespace
{

using zserio::JsonEncoder;

void check(const zvs::OutBuf& buf, const char* text, const char* msg)
{
    const size_t n = std::strlen(text);
    zv_check_eq(buf.used, n, msg);
    for (size_t i = 0; i < n && i < buf.used; ++i) zv_check_eq(static_cast<uint8_t>(buf.data[i]), static_cast<uint8_t>(text[i]), msg);
}

const std::ios_base::fmtflags PLAIN = std::ios_base::skipws | std::ios_base::dec;

void checkFormat(std::ostream& out)
{
    const std::ios_base::fmtflags f = out.flags();
    zv_check((f & (std::ios_base::boolalpha | std::ios_base::showbase | std::ios_base::showpos | std::ios_base::showpoint | std::ios_base::uppercase)) == 0,
            "the format of the stream is as it was");
    zv_check((f & std::ios_base::floatfield) == 0, "the format of floats is as it was");
    zv_check((f & std::ios_base::basefield) == std::ios_base::dec, "numbers stay decimal");
    zv_check(out.width() == 0, "no width is left behind");
}

template <typename T>
void integral(std::ostream& out, const Inserted& ins)
{
    const T value = static_cast<T>(zv_sym("value", sizeof(T) * 8));
    JsonEncoder::encodeIntegral(out, value);
    zv_check_eq(ins.count, 1, "one number is written");
    zv_check(ins.what == 's' || ins.what == 'u', "an integer is written as number");
    zv_check_eq(ins.value, static_cast<uint64_t>(static_cast<int64_t>(value)), "the number written is the value");
    if (std::is_signed<T>::value) zv_check(ins.what == 's' || value >= T(0), "a negative value is written as such");
    else zv_check(ins.what == 'u' || ins.value < (uint64_t(1) << 63), "a big value is written as such");
    zv_check((ins.flags & std::ios_base::basefield) == std::ios_base::dec, "numbers are decimal");
    zv_check((ins.flags & (std::ios_base::showpos | std::ios_base::showbase)) == 0, "numbers are plain");
}

} // namespace

ZV_HARNESS(J05_scalars)
{
    const uint64_t kind = zv_split(0, 12);
    zv_shard();
    zvs::OutBuf buf;
    zvs::Out out(&buf);
    std::ostream& s = out.get();
    s.flags(PLAIN);
    s.precision(6);
    Inserted ins;
    g_ins = &ins;
    switch (kind)
    {
    case 0:
        JsonEncoder::encodeNull(s);
        check(buf, "null", "null is written");
        zv_check_eq(ins.count, 0, "and nothing else");
        break;
    case 1: case 2:
    {
        const bool value = kind == 2;
        JsonEncoder::encodeBool(s, value);
        if (ins.count == 0) check(buf, value ? "true" : "false", "a bool is written as its word");
        else
        {
            zv_check(ins.count == 1 && buf.used == 0 && ins.what == 'b', "one bool is written");
            zv_check_eq(ins.value, value ? 1 : 0, "the bool is the value");
            zv_check((ins.flags & std::ios_base::boolalpha) != 0, "a bool is written as word");
        }
        break;
    }
    case 3: integral<int8_t>(s, ins); zv_check_eq(buf.used, 0, "and nothing else"); break;
    case 4: integral<uint8_t>(s, ins); zv_check_eq(buf.used, 0, "and nothing else"); break;
    case 5: integral<int16_t>(s, ins); zv_check_eq(buf.used, 0, "and nothing else"); break;
    case 6: integral<uint16_t>(s, ins); zv_check_eq(buf.used, 0, "and nothing else"); break;
    case 7: integral<int32_t>(s, ins); zv_check_eq(buf.used, 0, "and nothing else"); break;
    case 8: integral<uint32_t>(s, ins); zv_check_eq(buf.used, 0, "and nothing else"); break;
    case 9: integral<int64_t>(s, ins); zv_check_eq(buf.used, 0, "and nothing else"); break;
    case 10: integral<uint64_t>(s, ins); zv_check_eq(buf.used, 0, "and nothing else"); break;
    case 11: case 12:
    {
        // which of the forms is chosen is a matter of floating point comparisons, which are not followed
        const uint64_t value = zv_sym("double", 64);
        double d;
        std::memcpy(&d, &value, 8);
        JsonEncoder::encodeFloatingPoint(s, d);
        if (ins.count == 0)
        {
            const size_t minus = buf.used > 0 && buf.data[0] == '-' ? 1 : 0;
            if (buf.used == 3) check(buf, "NaN", "not a number is written as NaN");
            else check(buf, minus == 1 ? "-Infinity" : "Infinity", "infinity is written as such");
            zv_cover("a float without digits");
        }
        else
        {
            zv_check(ins.count == 1 && buf.used == 0 && ins.what == 'f', "one float is written");
            zv_check_eq(ins.value, value, "the float is the value");
            const std::ios_base::fmtflags form = ins.flags & std::ios_base::floatfield;
            zv_check(form == std::ios_base::fixed || (form == std::ios_base::fmtflags() && ins.precision >= 15), "a float is written with its digits");
            zv_check(form != std::ios_base::fixed || ins.precision >= 1, "a whole float keeps its point");
            zv_cover("a float with digits");
        }
        break;
    }
    default: break;
    }
    checkFormat(s);
    if (kind == 12)
    {
        // what was written before does not change how the next is written
        ins.count = 0;
        buf.used = 0;
        JsonEncoder::encodeIntegral(s, static_cast<uint64_t>(zv_sym("next", 64)));
        zv_check_eq(ins.count, 1, "the next number is written");
        checkFormat(s);
    }
    zv_cover("encoded");
}
