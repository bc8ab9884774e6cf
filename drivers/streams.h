// Standard streams for analysed code. A stream is storage laid out like one, its virtual base found through a table of
// our own; the members the library binary provides are defined here over analysed stream buffers.
#pragma once
#include <istream>
#include <ostream>
#include <streambuf>

#ifndef ZVS_OUT_MAX
#define ZVS_OUT_MAX 64
#endif

namespace zvs
{

struct IosAccess : std::ios
{
    static auto buffer() { return &IosAccess::_M_streambuf; }
};

template <typename STREAM, size_t BASE>
struct Stream
{
    explicit Stream(std::streambuf* buf)
    {
        for (size_t i = 0; i < sizeof(STREAM) / 8; ++i) m_storage[i] = 0;
        m_table[0] = BASE;
        m_storage[0] = reinterpret_cast<uint64_t>(&m_table[3]);
        std::ios* ios = reinterpret_cast<std::ios*>(reinterpret_cast<char*>(m_storage) + BASE);
        ios->*IosAccess::buffer() = buf;
    }
    STREAM& get() { return *reinterpret_cast<STREAM*>(m_storage); }
    uint64_t m_table[4] = {0, 0, 0, 0};
    uint64_t m_storage[sizeof(STREAM) / 8];
};
using Out = Stream<std::ostream, 8>;
using In = Stream<std::istream, 16>;

// what was written
struct OutBuf : std::streambuf
{
    static constexpr size_t MAX = ZVS_OUT_MAX;
    char data[MAX];
    size_t used = 0;
    void add(char c)
    {
        zv_check(used < MAX, "the text written is as short as expected");
        data[used++] = c;
    }
    int_type overflow(int_type c) override { add(static_cast<char>(c)); return c; }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        for (std::streamsize i = 0; i < n; ++i) add(s[i]);
        return n;
    }
};

// what is read: chunks of a text, one per request
struct InBuf : std::streambuf
{
    const char* text = nullptr;
    size_t size = 0, pos = 0;
    size_t cut = 0; // end of the first chunk
    bool first = true;
    std::streamsize xsgetn(char* s, std::streamsize n) override
    {
        const size_t end = first && cut < size ? cut : size;
        first = false;
        std::streamsize k = 0;
        while (pos < end && k < n) s[k++] = text[pos++];
        return k;
    }
};

} // namespace zvs

extern "C" {
std::ostream& zvs_put(std::ostream* s, char c) asm("_ZNSo3putEc");
std::ostream& zvs_write(std::ostream* s, const char* p, std::streamsize n) asm("_ZNSo5writeEPKcl");
std::ostream& zvs_insert(std::ostream& s, const char* p, std::streamsize n) asm("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
void zvs_buf_ctor(std::locale*) asm("_ZNSt6localeC1Ev");
void zvs_buf_dtor(std::locale*) asm("_ZNSt6localeD1Ev");
std::ostream& zvs_put(std::ostream* s, char c) { static_cast<zvs::OutBuf*>(s->rdbuf())->add(c); return *s; }
std::ostream& zvs_write(std::ostream* s, const char* p, std::streamsize n) { static_cast<zvs::OutBuf*>(s->rdbuf())->zvs::OutBuf::xsputn(p, n); return *s; }
std::ostream& zvs_insert(std::ostream& s, const char* p, std::streamsize n) { static_cast<zvs::OutBuf*>(s.rdbuf())->zvs::OutBuf::xsputn(p, n); return s; }
void zvs_buf_ctor(std::locale*) {}
void zvs_buf_dtor(std::locale*) {}
}
