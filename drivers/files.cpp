// I06: file helpers over file streams every operation of which may fail
#include "zv.h"
#include <cstring>
#include <fstream>
#include <istream>
#include <ostream>
#include <string>
#include "zserio/BitBuffer.h"
#include "zserio/CppRuntimeException.h"
#include "zserio/FileUtil.h"
using namespace zserio;

namespace
{

struct IosBase : std::ios
{
    static auto state() { return &IosBase::_M_streambuf_state; }
};

struct File
{
    bool opened = false, closed = false, alive = false;
    bool fault = false;      // an operation failed
    bool pending = false;    // data which may still be in the stream's buffer
    const char* name = nullptr;
    size_t nameLen = 0;
    const uint8_t* data = nullptr; // the bytes which have to be written, or the memory which was read into
    uint64_t size = 0;       // bytes transferred
    uint64_t fileSize = 0;
    uint64_t pos = 0;        // read position, ~0 behind the end
    size_t streams = 0;
    uint64_t table[4];
};
File g_file;

std::ios* ios(void* stream) { return reinterpret_cast<std::ios*>(static_cast<char*>(stream) + g_file.table[0]); }
void fail(void* stream, std::ios_base::iostate bits)
{
    std::ios_base::iostate& s = ios(stream)->*IosBase::state();
    s = s | bits;
    g_file.fault = true;
}
bool bad(void* stream) { return (ios(stream)->*IosBase::state()) != std::ios_base::goodbit; }

void open(void* stream, const char* name, uint64_t base)
{
    zv_check(g_file.streams++ == 0, "the file is opened once");
    size_t i = 0;
    for (; i < g_file.nameLen; ++i) zv_check(name[i] == g_file.name[i], "the file whose name was given is opened");
    zv_check(name[i] == 0, "the name of the file ends where it was given to end");
    g_file.table[0] = base;
    *static_cast<uint64_t*>(stream) = reinterpret_cast<uint64_t>(&g_file.table[3]);
    ios(stream)->*IosBase::state() = std::ios_base::goodbit;
    g_file.alive = true;
    g_file.opened = zv_choice("the file can be opened");
    if (!g_file.opened) fail(stream, std::ios_base::failbit);
}
void close(void* stream)
{
    if (!g_file.opened || g_file.closed) { fail(stream, std::ios_base::failbit); return; }
    g_file.closed = true;
    g_file.pending = false;
    if (!zv_choice("closing succeeds")) fail(stream, std::ios_base::failbit);
}
void destroy()
{
    zv_check(g_file.alive, "the stream is destroyed once");
    g_file.alive = false;
    if (g_file.opened && !g_file.closed && g_file.pending && !zv_choice("data left in the stream reaches the file")) g_file.fault = true;
}
void write(void* stream, const char* p, std::streamsize n)
{
    if (bad(stream)) return;
    zv_check(!g_file.closed, "nothing is written behind the end");
    zv_check(reinterpret_cast<const uint8_t*>(p) == g_file.data + g_file.size, "the bytes given are written in their order");
    if (!zv_choice("writing succeeds")) { fail(stream, std::ios_base::badbit); return; }
    g_file.size += static_cast<uint64_t>(n);
    g_file.pending = true;
}

} // namespace

extern "C" {
void zvf_oc(void* s, const char* n, std::ios_base::openmode) asm("_ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1EPKcSt13_Ios_Openmode");
void zvf_oc(void* s, const char* n, std::ios_base::openmode) { open(s, n, 248); }
void zvf_os(void* s, const std::string& n, std::ios_base::openmode) asm("_ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1ERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode");
void zvf_os(void* s, const std::string& n, std::ios_base::openmode) { open(s, n.c_str(), 248); }
void zvf_od(void*) asm("_ZNSt14basic_ofstreamIcSt11char_traitsIcEED1Ev");
void zvf_od(void*) { destroy(); }
void zvf_ocl(void* s) asm("_ZNSt14basic_ofstreamIcSt11char_traitsIcEE5closeEv");
void zvf_ocl(void* s) { close(s); }
std::ostream& zvf_wr(std::ostream* s, const char* p, std::streamsize n) asm("_ZNSo5writeEPKcl");
std::ostream& zvf_wr(std::ostream* s, const char* p, std::streamsize n) { write(s, p, n); return *s; }
std::ostream& zvf_fl(std::ostream* s) asm("_ZNSo5flushEv");
std::ostream& zvf_fl(std::ostream* s)
{
    if (bad(s)) return *s;
    g_file.pending = false;
    if (!zv_choice("flushing succeeds")) fail(s, std::ios_base::badbit);
    return *s;
}
void zvf_ic(void* s, const char* n, std::ios_base::openmode) asm("_ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1EPKcSt13_Ios_Openmode");
void zvf_ic(void* s, const char* n, std::ios_base::openmode) { open(s, n, 256); }
void zvf_is(void* s, const std::string& n, std::ios_base::openmode) asm("_ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1ERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode");
void zvf_is(void* s, const std::string& n, std::ios_base::openmode) { open(s, n.c_str(), 256); }
void zvf_id(void*) asm("_ZNSt14basic_ifstreamIcSt11char_traitsIcEED1Ev");
void zvf_id(void*) { destroy(); }
void zvf_icl(void* s) asm("_ZNSt14basic_ifstreamIcSt11char_traitsIcEE5closeEv");
void zvf_icl(void* s) { close(s); }
std::istream& zvf_sk(std::istream* s, std::streamoff o, std::ios_base::seekdir d) asm("_ZNSi5seekgElSt12_Ios_Seekdir");
std::istream& zvf_sk(std::istream* s, std::streamoff o, std::ios_base::seekdir d)
{
    if (bad(s)) return *s;
    if (!zv_choice("seeking succeeds")) { fail(s, std::ios_base::failbit); return *s; }
    g_file.pos = (d == std::ios_base::end ? g_file.fileSize : d == std::ios_base::beg ? 0 : g_file.pos) + static_cast<uint64_t>(o);
    return *s;
}
std::istream& zvf_sp(std::istream* s, std::streampos p) asm("_ZNSi5seekgESt4fposI11__mbstate_tE");
std::istream& zvf_sp(std::istream* s, std::streampos p) { return zvf_sk(s, static_cast<std::streamoff>(p), std::ios_base::beg); }
std::streampos zvf_tl(std::istream* s) asm("_ZNSi5tellgEv");
std::streampos zvf_tl(std::istream* s)
{
    if (bad(s)) return std::streampos(-1);
    if (!zv_choice("the position can be told")) { g_file.fault = true; return std::streampos(-1); }
    return std::streampos(static_cast<std::streamoff>(g_file.pos));
}
std::istream& zvf_rd(std::istream* s, char* p, std::streamsize n) asm("_ZNSi4readEPcl");
std::istream& zvf_rd(std::istream* s, char* p, std::streamsize n)
{
    if (bad(s)) return *s;
    zv_check(!g_file.closed && g_file.pos == g_file.size, "the file is read from its beginning");
    if (g_file.size == 0) g_file.data = reinterpret_cast<uint8_t*>(p);
    zv_check(reinterpret_cast<uint8_t*>(p) == g_file.data + g_file.size, "the bytes are read in their order");
    if (!zv_choice("reading succeeds")) { fail(s, std::ios_base::failbit | std::ios_base::eofbit); return *s; }
    zv_check(g_file.pos + static_cast<uint64_t>(n) <= g_file.fileSize, "no more is read than there is");
    std::memset(p, 0x5a, static_cast<size_t>(n));
    g_file.pos += static_cast<uint64_t>(n);
    g_file.size += static_cast<uint64_t>(n);
    return *s;
}
}

static const char NAME[] = "directory/file name";

ZV_HARNESS(I06_write)
{
    const uint64_t how = zv_split(0, 1), nameLen = zv_split(0, 2) * 6 + 1;
    zv_shard();
    const uint64_t rest = zv_split(0, 7), whole = zv_sym("whole bytes", 37);
    const uint64_t bits = whole * 8 + rest;
    const uint64_t bytes = whole + (rest != 0 ? 1 : 0);
    const uint8_t* data = zv_buffer("data", bytes);
    zv_readonly(data);
    g_file.name = NAME; g_file.nameLen = nameLen; g_file.data = data;
    bool raised = false;
    try
    {
        if (how == 0) writeBufferToFile(data, bits, BitsTag(), std::string_view(NAME, nameLen));
        else writeBufferToFile(data, bytes, std::string_view(NAME, nameLen));
    }
    catch (const CppRuntimeException&) { raised = true; }
    zv_check(!g_file.alive, "the stream is destroyed");
    zv_check(raised == g_file.fault, "the call fails exactly when an operation on the file fails");
    if (raised) { zv_cover("failed"); return; }
    zv_check(g_file.opened, "the file was opened");
    zv_check_eq(g_file.size, bytes, "all bytes were written");
    zv_cover("written");
}

ZV_HARNESS(I06_read)
{
    const uint64_t nameLen = zv_split(0, 2) * 6 + 1, huge = zv_split(0, 1);
    zv_shard();
    g_file.name = NAME; g_file.nameLen = nameLen;
    g_file.fileSize = zv_sym("file size", 62);
    if (huge) zv_assume(g_file.fileSize >= (uint64_t(1) << 61));
    else zv_assume(g_file.fileSize < (uint64_t(1) << 61));
    bool raised = false;
    try
    {
        const BitBuffer buffer = readBufferFromFile(std::string_view(NAME, nameLen));
        zv_check_eq(buffer.getBitSize(), g_file.fileSize * 8, "the buffer has the size of the file");
        zv_check(g_file.fileSize == 0 || buffer.getBuffer() == g_file.data, "the buffer holds what was read");
    }
    catch (const CppRuntimeException&) { raised = true; }
    zv_check(!g_file.alive, "the stream is destroyed");
    if (huge) zv_check(raised, "a file too big for a bit buffer is refused");
    else zv_check(raised == g_file.fault, "the call fails exactly when an operation on the file fails");
    if (raised) { zv_cover("failed"); return; }
    zv_check(g_file.opened, "the file was opened");
    zv_check_eq(g_file.size, g_file.fileSize, "all bytes were read");
    zv_cover("read");
}
