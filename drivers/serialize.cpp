// S12: serialization of a whole object, deserialization, data views
#include "zv.h"
#include "track.h"
#include <memory>
#include <string_view>
#include "zserio/BitBuffer.h"
#include "zserio/CppRuntimeException.h"
#include "zserio/DataView.h"
#include "zserio/SerializeUtil.h"
#include "zserio/Vector.h"
#include "zserio/View.h"
using namespace zserio;

namespace
{

using A = track::Alloc<uint8_t, true>;

// what happened to the object, in order
struct Log
{
    uint64_t calls = 0;        // one hexadecimal digit per call: 1 validate, 2 initializeOffsets, 3 write, 4 read, 5 bitSizeOf
    uint64_t bitSize = 0;      // size of the object
    uint64_t content = 0;
    uint64_t parameter = 0;
    uint64_t prealloc = 0;
    bool invalid = false;
    bool bytes = false;        // serialized to whole bytes
    const void* data = nullptr; // the object handled last
    void call(uint64_t c) { calls = calls * 16 + c; }
};
Log g_log;
struct Invalid : CppRuntimeException
{
    using CppRuntimeException::CppRuntimeException;
};

struct Object
{
    using allocator_type = A;
    Object() = default;
    explicit Object(const A& allocator) : id(allocator.id) {}
    uint64_t id = 7;
    uint64_t mark = 0;
};

} // namespace

namespace zserio
{
template <>
class View<Object>
{
public:
    explicit View(const Object& data, uint64_t parameter = 0) : m_data(&data), m_parameter(parameter) {}
    View(const Object& data, const View& other) : m_data(&data), m_parameter(other.m_parameter) {}
    const Object* data() const { return m_data; }
    uint64_t parameter() const { return m_parameter; }

private:
    const Object* m_data;
    uint64_t m_parameter;
};
namespace detail
{
template <>
struct ObjectTraits<Object>
{
    static void seen(const View<Object>& view, uint64_t c)
    {
        g_log.call(c);
        g_log.data = view.data();
        zv_check_eq(view.parameter(), g_log.parameter, "the parameter given is the parameter of the view");
    }
    static void validate(const View<Object>& view, std::string_view)
    {
        seen(view, 1);
        if (g_log.invalid) throw Invalid("invalid");
    }
    static BitSize bitSizeOf(const View<Object>& view, BitSize position)
    {
        seen(view, 5);
        zv_check_eq(position, 0, "the object begins at position zero");
        return static_cast<BitSize>(g_log.bitSize);
    }
    static BitSize initializeOffsets(const View<Object>& view, BitSize position)
    {
        seen(view, 2);
        zv_check_eq(position, 0, "the object begins at position zero");
        return static_cast<BitSize>(g_log.bitSize) + position;
    }
    static void write(BitStreamWriter& writer, const View<Object>& view)
    {
        seen(view, 3);
        zv_check(writer.hasWriteBuffer() || g_log.bitSize == 0, "the object is written into memory");
        zv_check_eq(writer.getBitPosition(), 0, "the object is written from the beginning");
        if (g_log.bitSize == 0) return;
        const uint64_t capacity = g_log.bytes ? (g_log.bitSize + 7) / 8 * 8 : g_log.bitSize;
        writer.setBitPosition(capacity);
        bool refused = false;
        try { writer.setBitPosition(capacity + 1); } catch (const CppRuntimeException&) { refused = true; }
        zv_check(refused, "the memory has exactly the computed size");
        writer.setBitPosition(0);
        if (g_log.bitSize <= 64)
        {
            if (g_log.bitSize > 0) writer.writeUnsignedBits64(g_log.content, static_cast<uint8_t>(g_log.bitSize));
        }
    }
    static View<Object> read(BitStreamReader& reader, Object& data, uint64_t parameter = 0)
    {
        const View<Object> view(data, parameter);
        seen(view, 4);
        zv_check_eq(reader.getBitPosition(), 0, "the object is read from the beginning");
        zv_check_eq(reader.getBufferBitSize(), g_log.bitSize, "the object is read from exactly the given bits");
        zv_check_eq(reader.getMaxArrayPreallocation(), g_log.prealloc, "the limit of array allocations is passed on");
        data.mark = 0x77;
        if (g_log.bitSize > 0 && g_log.bitSize <= 64) zv_check_eq(reader.readUnsignedBits64(static_cast<uint8_t>(g_log.bitSize)), g_log.content, "the bits of the object");
        return view;
    }
};
} // namespace detail
} // namespace zserio

namespace
{

void checkBits(const uint8_t* bytes, uint64_t bitSize)
{
    if (bitSize > 0 && bitSize <= 64) zv_check_eq(zv_bits_at(bytes, 0, bitSize), g_log.content, "the bits written are in the buffer");
}

// size, content, parameter; big: too big to look at the content
void setup(bool big)
{
    if (big)
    {
        g_log.bitSize = zv_sym("bit size", 32);
        zv_assume(g_log.bitSize > 64);
    }
    else
    {
        g_log.bitSize = zv_split(0, 9);
        if (g_log.bitSize == 9) g_log.bitSize = 29;
        g_log.content = g_log.bitSize == 0 ? 0 : zv_sym("content", g_log.bitSize);
    }
}

template <typename BUFFER>
void checkBuffer(const BUFFER& buffer, bool isBits)
{
    (void)isBits;
    checkBits(buffer.getBuffer(), g_log.bitSize);
    zv_check_eq(buffer.getBitSize(), g_log.bitSize, "the buffer has exactly the computed bit size");
}

template <typename ALLOC>
void checkBytes(const Vector<uint8_t, ALLOC>& bytes)
{
    zv_check_eq(bytes.size(), (g_log.bitSize + 7) / 8, "there are exactly the bytes of the computed bit size");
    checkBits(bytes.data(), g_log.bitSize);
    if (g_log.bitSize % 8 != 0 && g_log.bitSize <= 64) zv_check_eq(zv_bits_at(bytes.data(), g_log.bitSize, 8 - g_log.bitSize % 8), 0, "bits behind the object are zero");
}

} // namespace

ZV_HARNESS(S12_serialize)
{
    const uint64_t how = zv_split(0, 11), invalid = zv_split(0, 1);
    zv_shard();
    setup(false);
    g_log.invalid = invalid;
    g_log.bytes = how == 1 || how == 3 || how == 5 || how == 7 || how == 9 || how == 11;
    const A allocator(23);
    Object object;
    const void* expectedData = &object;
    bool raised = false, dataView = false;
    uint64_t id = 7;
    try
    {
        switch (how)
        {
        case 0: { id = 23; auto b = serialize(object, allocator); checkBuffer(b, true); zv_check_eq(b.get_allocator().id, id, "the allocator given"); break; }
        case 1: { id = 23; auto b = serializeToBytes(object, allocator); checkBytes(b); zv_check_eq(b.get_allocator().id, id, "the allocator given"); break; }
        case 2: { auto b = serialize(object); checkBuffer(b, true); zv_check_eq(b.get_allocator().id, id, "the default allocator"); break; }
        case 3: { auto b = serializeToBytes(object); checkBytes(b); zv_check_eq(b.get_allocator().id, id, "the default allocator"); break; }
        case 4: { g_log.parameter = 5; auto b = serialize(object, allocator, 5U); checkBuffer(b, true); break; }
        case 5: { g_log.parameter = 5; auto b = serializeToBytes(object, 5U); checkBytes(b); break; }
        case 6: { const View<Object> view(object); auto b = serialize(view, allocator); checkBuffer(b, true); break; }
        case 7: { const View<Object> view(object); auto b = serializeToBytes(view, allocator); checkBytes(b); break; }
        case 8: { g_log.parameter = 5; const View<Object> view(object, 5U); auto b = serialize(view); checkBuffer(b, true); break; }
        case 9: { const View<Object> view(object); auto b = serializeToBytes(view); checkBytes(b); break; }
        case 10:
            {
                dataView = true;
                const DataView<Object> view(object);
                expectedData = view.data();
                zv_check(expectedData != &object, "a data view looks at its own data");
                zv_check(g_log.calls == 0x12 && g_log.data == view.data(), "a data view validates its data and initialises their offsets");
                g_log.calls = 0x12;
                auto b = serialize(view, allocator);
                checkBuffer(b, true);
                zv_check(g_log.data == expectedData, "the data of the view are written");
                break;
            }
        default:
            {
                dataView = true;
                const DataView<Object> view(Object{});
                expectedData = view.data();
                zv_check(g_log.calls == 0x12 && g_log.data == view.data(), "a data view validates its data and initialises their offsets");
                auto b = serializeToBytes(view, allocator);
                checkBytes(b);
                zv_check(g_log.data == expectedData, "the data of the view are written");
                break;
            }
        }
    }
    catch (const Invalid&) { raised = true; }
    zv_check(raised == (invalid != 0), "an invalid object is refused");
    zv_check_eq(zv_live(), 0, "nothing is left allocated");
    if (raised)
    {
        zv_check_eq(g_log.calls, 1, "nothing is done with an object which is not valid");
        zv_cover("refused");
        return;
    }
    zv_check(g_log.data == expectedData || dataView, "the object given is written");
    // validation comes first, offsets and size are computed before the object is written
    zv_check(g_log.calls == 0x123 || (dataView && (g_log.calls == 0x1253 || g_log.calls == 0x123)), "validate, initialise offsets, write");
    zv_cover("serialized");
}

// objects of any size a bit size can tell
ZV_HARNESS(S12_big)
{
    const uint64_t how = zv_split(0, 3);
    zv_shard();
    setup(true);
    const std::allocator<uint8_t> allocator;
    Object object;
    g_log.bytes = how % 2 == 1;
    switch (how)
    {
    case 0: { auto b = serialize(object, allocator); zv_check_eq(b.getBitSize(), g_log.bitSize, "the buffer has exactly the computed bit size"); break; }
    case 1: { auto b = serializeToBytes(object, allocator); zv_check_eq(b.size(), (g_log.bitSize + 7) / 8, "there are exactly the bytes of the computed bit size"); break; }
    case 2: { const DataView<Object> view(object); auto b = serialize(view, allocator); zv_check_eq(b.getBitSize(), g_log.bitSize, "the buffer has exactly the computed bit size"); break; }
    default: { const DataView<Object> view(object); auto b = serializeToBytes(view, allocator); zv_check_eq(b.size(), (g_log.bitSize + 7) / 8, "there are exactly the bytes of the computed bit size"); break; }
    }
    zv_cover("serialized");
}

ZV_HARNESS(S12_deserialize)
{
    const uint64_t how = zv_split(0, 11);
    zv_shard();
    setup(false);
    const size_t bytes = (g_log.bitSize + 7) / 8;
    uint8_t* p = zv_buffer("bytes", bytes);
    if (g_log.bitSize > 0)
    {
        // as read, not as written
        g_log.content = zv_bits_at(p, 0, g_log.bitSize);
    }
    zv_readonly(p);
    const A allocator(23);
    Object object;
    const ArrayPreallocation limit(99);
    const bool fromBytes = how % 2 == 1;
    if (fromBytes) g_log.bitSize = bytes * 8;
    if (fromBytes && bytes > 0) g_log.content = zv_bits_at(p, 0, bytes * 8);
    const bool limited = (how & 2) != 0, parameterized = how >= 8;
    g_log.prealloc = limited ? 99 : ArrayPreallocation::MAX_INITIAL_ARRAY_ALLOCATION;
    g_log.parameter = parameterized ? 5 : 0;
    const Span<const uint8_t> span(p, bytes);
    Vector<uint8_t, A> data(allocator);
    data.insert(data.end(), p, p + bytes);
    const BasicBitBuffer<A> bits(std::move(data), g_log.bitSize);
    const Span<const uint8_t> view = span;
    auto checkView = [&](const View<Object>& v) {
        zv_check(v.data() == &object && object.mark == 0x77, "the object given is filled and viewed");
        zv_check_eq(v.parameter(), g_log.parameter, "the parameter of the view");
    };
    auto checkData = [&](const DataView<Object>& v, uint64_t id) {
        const char* own = reinterpret_cast<const char*>(&v);
        const char* at = reinterpret_cast<const char*>(v.data());
        zv_check(at > own && at + sizeof(Object) <= own + sizeof(v), "a data view looks at its own data");
        zv_check_eq(v.data()->mark, 0x77, "the data of the view are filled");
        zv_check_eq(v.data()->id, id, "the allocator of the data");
        zv_check_eq(v.parameter(), g_log.parameter, "the parameter of the view");
        const DataView<Object> copy(v);
        const char* ownCopy = reinterpret_cast<const char*>(&copy);
        const char* atCopy = reinterpret_cast<const char*>(copy.data());
        zv_check(atCopy > ownCopy && atCopy + sizeof(Object) <= ownCopy + sizeof(copy), "a copy looks at its own data");
        zv_check_eq(copy.data()->mark, 0x77, "the data of the copy");
        zv_check_eq(copy.parameter(), g_log.parameter, "the parameter of the copy");
        DataView<Object> moved(std::move(const_cast<DataView<Object>&>(v)));
        const char* ownMoved = reinterpret_cast<const char*>(&moved);
        const char* atMoved = reinterpret_cast<const char*>(moved.data());
        zv_check(atMoved > ownMoved && atMoved + sizeof(Object) <= ownMoved + sizeof(moved), "a moved view looks at its own data");
        zv_check_eq(moved.data()->mark, 0x77, "the data of the moved view");
    };
    switch (how)
    {
    case 0: checkView(deserialize(bits, object)); break;
    case 1: checkView(deserializeFromBytes(view, object)); break;
    case 2: checkView(deserialize(bits, limit, object)); break;
    case 3: checkView(deserializeFromBytes(view, limit, object)); break;
    case 4: checkData(deserialize<Object>(bits, allocator), 23); break;
    case 5: checkData(deserializeFromBytes<Object>(view, allocator), 23); break;
    case 6: checkData(deserialize<Object>(bits, limit), 7); break;
    case 7: checkData(deserializeFromBytes<Object>(view, limit), 7); break;
    case 8: checkView(deserialize(bits, object, 5U)); break;
    case 9: checkData(deserializeFromBytes<Object>(view, 5U), 7); break;
    case 10: checkData(deserialize<Object>(bits, limit, allocator, 5U), 23); break;
    default: checkData(deserializeFromBytes<Object>(view, limit, allocator, 5U), 23); break;
    }
    zv_check_eq(g_log.calls, 4, "the object is read once");
    zv_cover("deserialized");
}
