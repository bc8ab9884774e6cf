// Instances of the templates of the runtime which no harness uses: the rules on the whole program (I01, I03, I04) see them as well.
#include <cstdint>
#include <string_view>

#include "zserio/Any.h"
#include "zserio/ArrayView.h"
#include "zserio/BitBuffer.h"
#include "zserio/BuiltInOperators.h"
#include "zserio/DebugStringUtil.h"
#include "zserio/Extended.h"
#include "zserio/FileUtil.h"
#include "zserio/HashCodeUtil.h"
#include "zserio/IService.h"
#include "zserio/IntrospectableView.h"
#include "zserio/JsonReader.h"
#include "zserio/JsonWriter.h"
#include "zserio/Optional.h"
#include "zserio/ReflectableData.h"
#include "zserio/ReflectableUtil.h"
#include "zserio/SerializeUtil.h"
#include "zserio/SqliteConnection.h"
#include "zserio/SqliteFinalizer.h"
#include "zserio/SqliteUtil.h"
#include "zserio/StringConvertUtil.h"
#include "zserio/TypeInfo.h"
#include "zserio/UniquePtr.h"
#include "zserio/ValidationSqliteUtil.h"
#include "zserio/Variant.h"
#include "zserio/Walker.h"
#include "zserio/WalkerConst.h"
#include "zserio/ZserioTreeCreator.h"
#include "zserio/pmr/Any.h"
#include "zserio/ppmr/Any.h"
#include "zserio/ppmr/String.h"
#include <memory_resource>

namespace zserio
{
using A1 = std::allocator<uint8_t>;
using A2 = ppmr::PropagatingPolymorphicAllocator<uint8_t>;
using A3 = std::pmr::polymorphic_allocator<uint8_t>;

#define EACH(ALLOC) \
    template class BasicAny<ALLOC>; \
    template class BasicBitBuffer<ALLOC>; \
    template class BasicJsonReader<ALLOC>; \
    template class BasicJsonWriter<ALLOC>; \
    template class BasicJsonDecoder<ALLOC>; \
    template class BasicJsonTokenizer<ALLOC>; \
    template class BasicJsonParser<ALLOC>; \
    template class BasicZserioTreeCreator<ALLOC>; \
    template class BasicWalker<ALLOC>; \
    template class BasicDefaultWalkObserver<ALLOC>; \
    template class BasicDefaultWalkFilter<ALLOC>; \
    template class BasicDepthWalkFilter<ALLOC>; \
    template class BasicRegexWalkFilter<ALLOC>; \
    template class BasicArrayLengthWalkFilter<ALLOC>; \
    template class BasicAndWalkFilter<ALLOC>; \
    template class BasicOptional<RebindAlloc<ALLOC, int64_t>, int64_t>; \
    template class BasicOptional<RebindAlloc<ALLOC, uint8_t>, BasicString<RebindAlloc<ALLOC, char>>>; \
    template class BasicRawServiceDataHolder<ALLOC>; \
    template class BasicRawServiceDataView<ALLOC>; \
    template BasicString<RebindAlloc<ALLOC, char>> toString<ALLOC>(uint64_t, const ALLOC&); \
    template BasicString<RebindAlloc<ALLOC, char>> toString<ALLOC>(int64_t, const ALLOC&); \
    template BasicString<RebindAlloc<ALLOC, char>> toString<ALLOC>(uint8_t, const ALLOC&); \
    template BasicString<RebindAlloc<ALLOC, char>> toString<ALLOC>(int8_t, const ALLOC&); \
    template BasicString<RebindAlloc<ALLOC, char>> toString<ALLOC>(Int32, const ALLOC&); \
    template BasicString<RebindAlloc<ALLOC, char>> toString<ALLOC>(bool, const ALLOC&); \
    template BasicString<RebindAlloc<ALLOC, char>> toString<ALLOC>(std::string_view, const ALLOC&); \
    template struct ValidationSqliteUtil<ALLOC>; \
    template class detail::BoolIntrospectableView<ALLOC>; \
    template class detail::Int8IntrospectableView<Int8, ALLOC>; \
    template class detail::UInt64IntrospectableView<UInt64, ALLOC>; \
    template class detail::FloatIntrospectableView<Float32, ALLOC>; \
    template class detail::DoubleIntrospectableView<ALLOC>; \
    template class detail::BytesIntrospectableView<ALLOC>; \
    template class detail::StringIntrospectableView<ALLOC>; \
    template class detail::BitBufferIntrospectableView<ALLOC>; \
    template class detail::BoolReflectableData<ALLOC>; \
    template class detail::Int8ReflectableData<Int8, ALLOC>; \
    template class detail::UInt64ReflectableData<UInt64, ALLOC>; \
    template class detail::FloatReflectableData<Float32, ALLOC>; \
    template class detail::DoubleReflectableData<ALLOC>; \
    template class detail::BytesReflectableData<ALLOC>; \
    template class detail::StringReflectableData<ALLOC>; \
    template class detail::BitBufferReflectableData<ALLOC>;

EACH(A1)
EACH(A2)
EACH(A3)
#undef EACH
} // namespace zserio
