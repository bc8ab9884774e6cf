// I04: programs which would change data through a view or through constant access must not be possible. Each witness is a
// static assertion on the type of an expression: it must not give a reference or pointer through which data can be changed,
// or it must not be well-formed at all. POSITIVE assertions show that the same expression is seen on a mutable object.
#include <array>
#include <memory>
#include <string_view>
#include <type_traits>
#include <vector>
#include "zserio/Any.h"
#include "zserio/ArrayView.h"
#include "zserio/BitBuffer.h"
#include "zserio/BitStreamReader.h"
#include "zserio/Bytes.h"
#include "zserio/DataView.h"
#include "zserio/Extended.h"
#include "zserio/IIntrospectableView.h"
#include "zserio/IReflectableData.h"
#include "zserio/ITypeInfo.h"
#include "zserio/IWalkFilter.h"
#include "zserio/IWalkObserver.h"
#include "zserio/IntrospectableView.h"
#include "zserio/Optional.h"
#include "zserio/ReflectableData.h"
#include "zserio/Span.h"
#include "zserio/String.h"
#include "zserio/Traits.h"
#include "zserio/TypeInfo.h"
#include "zserio/Types.h"
#include "zserio/Variant.h"
#include "zserio/View.h"
#include "zserio/Walker.h"
using namespace zserio;

namespace
{

// gives access to change something: a reference or pointer to what is not constant, also inside a smart pointer or span
template <typename T>
struct opens : std::false_type {};
template <typename T>
struct opens<T&> : std::bool_constant<!std::is_const_v<T>> {};
template <typename T>
struct opens<T*> : std::bool_constant<!std::is_const_v<T>> {};
template <typename T>
struct opens<std::shared_ptr<T>> : std::bool_constant<!std::is_const_v<T>> {};
template <typename T>
struct opens<std::reference_wrapper<T>> : std::bool_constant<!std::is_const_v<T>> {};
template <typename T, size_t N>
struct opens<Span<T, N>> : std::bool_constant<!std::is_const_v<T>> {};

template <typename F, typename T, typename = void>
struct gives : std::false_type {}; // the expression is not well-formed
template <typename F, typename T>
struct gives<F, T, std::void_t<std::invoke_result_t<F, T>>> : opens<std::invoke_result_t<F, T>> {};

#define EXPRESSION(expr) [](auto&& x) -> decltype(expr) { return expr; }
// the expression on a T gives no access to change anything
#define CLOSED(T, expr) \
    { auto f = EXPRESSION((expr)); (void)f; static_assert(!gives<decltype(f), T>::value, #expr " on " #T " gives access which can change data"); }
// ... while it is an access to a mutable object
#define OPEN(T, expr) \
    { auto f = EXPRESSION((expr)); (void)f; static_assert(gives<decltype(f), T>::value, "POSITIVE: " #expr " on " #T); }
// the expression is a read access on a T
#define READS(T, expr) \
    { auto f = [](auto&& x) -> decltype(static_cast<void>(expr)) {}; (void)f; static_assert(std::is_invocable_v<decltype(f), T>, "POSITIVE: " #expr " on " #T); }
// the call is not possible on a T
#define FORBIDDEN(T, expr) \
    { auto f = [](auto&& x) -> decltype(static_cast<void>(expr)) {}; (void)f; static_assert(!std::is_invocable_v<decltype(f), T>, #expr " is possible on " #T); }
#define POSSIBLE(T, expr) READS(T, expr)
#define NOT_CONVERTIBLE(FROM, TO) \
    static_assert(!std::is_convertible_v<FROM, TO> && !std::is_constructible_v<TO, FROM>, #FROM " can become " #TO);

template <typename A, typename B>
using Pair = std::pair<A, B>;

template <typename SPAN>
[[maybe_unused]] void constantSpan()
{
    CLOSED(SPAN&, x[0]) READS(SPAN&, x[0])
    CLOSED(SPAN&, x.front()) READS(SPAN&, x.front())
    CLOSED(SPAN&, x.back()) READS(SPAN&, x.back())
    CLOSED(SPAN&, x.data()) READS(SPAN&, x.data())
    CLOSED(SPAN&, *x.begin()) READS(SPAN&, *x.begin())
    CLOSED(SPAN&, *(x.end() - 1)) READS(SPAN&, *(x.end() - 1))
    CLOSED(SPAN&, *x.rbegin()) READS(SPAN&, *x.rbegin())
    CLOSED(SPAN&, *(x.rend() - 1))
    CLOSED(SPAN&, x.begin()[0])
    CLOSED(SPAN&, x.first(1)) READS(SPAN&, x.first(1))
    CLOSED(SPAN&, x.last(1)) READS(SPAN&, x.last(1))
    CLOSED(SPAN&, x.subspan(1)) READS(SPAN&, x.subspan(1))
    CLOSED(SPAN&, x.subspan(1, 1))
    CLOSED(SPAN&, x.template first<1>()) READS(SPAN&, x.template first<1>())
    CLOSED(SPAN&, x.template last<1>())
    CLOSED(SPAN&, (x.template subspan<1, 1>())) READS(SPAN&, (x.template subspan<1, 1>()))
}

[[maybe_unused]] void spans()
{
    constantSpan<Span<const uint8_t>>();
    constantSpan<const Span<const uint8_t>>();
    constantSpan<Span<const uint8_t, 3>>();
    constantSpan<Span<const std::string_view>>();
    constantSpan<BytesView>();
    OPEN(Span<uint8_t>&, x[0]) OPEN(Span<uint8_t>&, x.front()) OPEN(Span<uint8_t>&, x.data()) OPEN(Span<uint8_t>&, *x.begin())
    OPEN(Span<uint8_t>&, *x.rbegin()) OPEN(Span<uint8_t>&, x.first(1)) OPEN(Span<uint8_t>&, x.template first<1>()) OPEN(Span<uint8_t>&, x.subspan(1))
    using Array = std::array<uint8_t, 3>;
    using Vector = std::vector<uint8_t>;
    using Raw = uint8_t[3];
    using ConstRaw = const uint8_t[3];
    NOT_CONVERTIBLE(Span<const uint8_t>, Span<uint8_t>)
    NOT_CONVERTIBLE(const Span<const uint8_t>&, Span<uint8_t>)
    using Fixed = Span<uint8_t, 3>;
    using ConstFixed = Span<const uint8_t, 3>;
    NOT_CONVERTIBLE(ConstFixed, Span<uint8_t>)
    NOT_CONVERTIBLE(ConstFixed, Fixed)
    NOT_CONVERTIBLE(const Array&, Span<uint8_t>)
    NOT_CONVERTIBLE(const Array&, Fixed)
    NOT_CONVERTIBLE(ConstRaw&, Span<uint8_t>)
    NOT_CONVERTIBLE(ConstRaw&, Fixed)
    NOT_CONVERTIBLE(BytesView, Span<uint8_t>)
    static_assert(std::is_constructible_v<Span<const uint8_t>, Span<uint8_t>>, "POSITIVE: a span of constants of a span");
    static_assert(std::is_constructible_v<Span<uint8_t>, Array&> && std::is_constructible_v<Span<const uint8_t>, const Array&>, "POSITIVE: a span of an array");
    static_assert(std::is_constructible_v<Span<uint8_t>, Raw&> && std::is_constructible_v<Span<const uint8_t>, ConstRaw&>, "POSITIVE: a span of a raw array");
    static_assert(std::is_constructible_v<Span<uint8_t>, Vector&> && std::is_constructible_v<Span<const uint8_t>, const Vector&>, "POSITIVE: a span of a vector");
    static_assert(std::is_const_v<view_type_t<Bytes>::element_type>, "the view of a byte array shows constants");
}

template <typename BUFFER>
[[maybe_unused]] void constantBuffer()
{
    CLOSED(BUFFER, x.getBuffer()) READS(BUFFER, x.getBuffer())
    CLOSED(BUFFER, x.getBytes()) READS(BUFFER, x.getBytes())
    CLOSED(BUFFER, x.getData()) READS(BUFFER, x.getData())
    CLOSED(BUFFER, *x.getBytes().begin())
    CLOSED(BUFFER, x.getBytes()[0])
}

[[maybe_unused]] void buffers()
{
    constantBuffer<const BitBuffer&>();
    constantBuffer<const BasicBitBuffer<std::allocator<uint8_t>>&>();
    OPEN(BitBuffer&, x.getBuffer()) OPEN(BitBuffer&, x.getData())
    CLOSED(BitBuffer&, x.getBytes())
    CLOSED(BitBufferView&, x.get()) READS(BitBufferView&, x.get())
    CLOSED(BitBufferView&, x.get().getData()) READS(BitBufferView&, x.get().getData())
    NOT_CONVERTIBLE(BitBufferView, BitBuffer&)
    static_assert(std::is_same_v<view_type_t<BitBuffer>, BitBufferView>, "the view of a bit buffer is a view");
    static_assert(!opens<view_type_t<BitBuffer>>::value, "the view of a bit buffer does not open it");
    static_assert(std::is_same_v<view_type_t<String>, std::string_view>, "the view of a string shows constants");
}

struct Data { int field = 0; };
struct Big { int field[100] = {}; };

template <typename OPT>
[[maybe_unused]] void constantOptional()
{
    CLOSED(OPT, *x) READS(OPT, *x)
    CLOSED(OPT, x.value()) READS(OPT, x.value())
    CLOSED(OPT, x.operator->()) READS(OPT, x.operator->())
    FORBIDDEN(OPT, x.reset())
    FORBIDDEN(OPT, x.emplace())
    FORBIDDEN(OPT, x = std::nullopt)
}

enum class Index : size_t { A, B };
using Var = Variant<Index, int, Big>;
struct Visitor
{
    template <typename T>
    auto operator()(T&& value) const -> T&& { return std::forward<T>(value); }
};
struct OnlyMutable
{
    void operator()(int&) const {}
    void operator()(Big&) const {}
};

[[maybe_unused]] void holders()
{
    constantOptional<const Optional<int>&>();
    constantOptional<const Optional<Data>&>();
    constantOptional<const Optional<Big>&>();
    OPEN(Optional<Big>&, *x) OPEN(Optional<int>&, x.value()) OPEN(Optional<Big>&, x.operator->())
    POSSIBLE(Optional<int>&, x.reset())

    CLOSED(const Var&, get<Index::A>(x)) READS(const Var&, get<Index::A>(x))
    CLOSED(const Var&, x.template get_if<Index::A>()) READS(const Var&, (x.template get_if<Index::A>()))
    CLOSED(const Var&, x.template get<Index::A>()) READS(const Var&, (x.template get<Index::A>()))
    CLOSED(const Var&, x.template get<Index::B>())
    CLOSED(const Var&, x.template get_if<Index::B>())
    OPEN(Var&, x.template get<Index::A>()) OPEN(Var&, x.template get_if<Index::B>())
    FORBIDDEN(const Var&, x.template emplace<Index::A>(1))
    POSSIBLE(Var&, x.template emplace<Index::A>(1))

    CLOSED(const Any&, x.template get<int>()) READS(const Any&, x.template get<int>())
    CLOSED(const Any&, x.template get<Big>())
    CLOSED(const Any&, x.template get_if<int>()) READS(const Any&, x.template get_if<int>())
    OPEN(Any&, x.template get<int>()) OPEN(Any&, x.template get_if<int>())
    FORBIDDEN(const Any&, x.reset())
    FORBIDDEN(const Any&, x.set(1))
    FORBIDDEN(const Any&, x = 1)

    CLOSED(const Extended<Data>&, *x) READS(const Extended<Data>&, *x)
    CLOSED(const Extended<Data>&, x.value()) READS(const Extended<Data>&, x.value())
    CLOSED(const Extended<Data>&, x.operator->()) READS(const Extended<Data>&, x.operator->())
    FORBIDDEN(const Extended<Data>&, x.setPresent(true))
    OPEN(Extended<Data>&, x.value())
}

template <typename ARRAY>
[[maybe_unused]] void arrayView()
{
    CLOSED(ARRAY&, x[0]) READS(ARRAY&, x[0])
    CLOSED(ARRAY&, x.at(0)) READS(ARRAY&, x.at(0))
    CLOSED(ARRAY&, x.front()) READS(ARRAY&, x.front())
    CLOSED(ARRAY&, x.back()) READS(ARRAY&, x.back())
    CLOSED(ARRAY&, *x.begin()) READS(ARRAY&, *x.begin())
    CLOSED(ARRAY&, *x.cbegin())
    CLOSED(ARRAY&, *x.rbegin()) READS(ARRAY&, *x.rbegin())
    CLOSED(ARRAY&, x.begin()[0])
    CLOSED(ARRAY&, x.zserioData()) READS(ARRAY&, x.zserioData())
}

[[maybe_unused]] void arrays()
{
    arrayView<ArrayView<const Int32>>();
    arrayView<const ArrayView<const Int32>>();
    arrayView<ArrayView<const String>>();
    arrayView<ArrayView<const Bytes>>();
    arrayView<ArrayView<const BitBuffer>>();
    arrayView<ArrayView<const Bool>>();
    static_assert(!opens<view_type_t<Bytes>>::value && !opens<view_type_t<BitBuffer>>::value, "views do not open what they show");
    using Value = View<DynInt32>;
    CLOSED(Value&, x.value()) READS(Value&, x.value())
    CLOSED(Value&, x.numBits()) READS(Value&, x.numBits())
}

// constant reflectables: every access is to constants, nothing which changes is callable
template <typename OBJECT>
[[maybe_unused]] void constantReflectable()
{
    using R = const OBJECT&;
    CLOSED(R, x.getField("")) READS(R, x.getField(""))
    CLOSED(R, x.at(0)) READS(R, x.at(0))
    CLOSED(R, x[size_t(0)]) READS(R, x[size_t(0)])
    CLOSED(R, x.find("")) READS(R, x.find(""))
    CLOSED(R, x[std::string_view()]) READS(R, x[std::string_view()])
    CLOSED(R, x.getBitBuffer()) READS(R, x.getBitBuffer())
    CLOSED(R, x.getBytes()) READS(R, x.getBytes())
    CLOSED(R, x.getStringView()) READS(R, x.getStringView())
    CLOSED(R, x.getTypeInfo()) READS(R, x.getTypeInfo())
}

struct Observer : IWalkObserver
{
    using P = IReflectableDataConstPtr;
    void beginRoot(const P&) override {}
    void endRoot(const P&) override {}
    void beginArray(const P&, const FieldInfo&) override {}
    void endArray(const P&, const FieldInfo&) override {}
    void beginCompound(const P&, const FieldInfo&, size_t) override {}
    void endCompound(const P&, const FieldInfo&, size_t) override {}
    void visitValue(const P&, const FieldInfo&, size_t) override {}
};
struct Filter : IWalkFilter
{
    using P = IReflectableDataConstPtr;
    bool beforeArray(const P&, const FieldInfo&) override { return true; }
    bool afterArray(const P&, const FieldInfo&) override { return true; }
    bool beforeCompound(const P&, const FieldInfo&, size_t) override { return true; }
    bool afterCompound(const P&, const FieldInfo&, size_t) override { return true; }
    bool beforeValue(const P&, const FieldInfo&, size_t) override { return true; }
    bool afterValue(const P&, const FieldInfo&, size_t) override { return true; }
};

[[maybe_unused]] void reflection()
{
    constantReflectable<IReflectableData>();
    using R = const IReflectableData&;
    FORBIDDEN(R, x.setField("", Any())) POSSIBLE(IReflectableData&, x.setField("", Any()))
    FORBIDDEN(R, x.createField("")) POSSIBLE(IReflectableData&, x.createField(""))
    FORBIDDEN(R, x.resize(0)) POSSIBLE(IReflectableData&, x.resize(0))
    FORBIDDEN(R, x.setAt(Any(), 0)) POSSIBLE(IReflectableData&, x.setAt(Any(), 0))
    FORBIDDEN(R, x.append(Any())) POSSIBLE(IReflectableData&, x.append(Any()))
    OPEN(IReflectableData&, x.getField("")) OPEN(IReflectableData&, x.at(0)) OPEN(IReflectableData&, x.find(""))
    OPEN(IReflectableData&, x[size_t(0)]) OPEN(IReflectableData&, x[std::string_view()])
    NOT_CONVERTIBLE(IReflectableDataConstPtr, IReflectableDataPtr)
    static_assert(std::is_convertible_v<IReflectableDataPtr, IReflectableDataConstPtr>, "POSITIVE: a reflectable is a constant reflectable");
    static_assert(!opens<IReflectableDataConstPtr>::value && opens<IReflectableDataPtr>::value, "constant reflectables are constant");
    static_assert(std::is_same_v<decltype(reflectable(std::declval<const BitBuffer&>())), IReflectableDataConstPtr>, "the reflectable of a constant is a constant one");
    static_assert(!std::is_abstract_v<Observer> && !std::is_abstract_v<Filter>, "POSITIVE: observers and filters are shown constant objects");

    constantReflectable<IIntrospectableView>();
    using V = const IIntrospectableView&;
    CLOSED(V, x.getParameter("")) READS(V, x.getParameter(""))
    CLOSED(V, x.callFunction("")) READS(V, x.callFunction(""))
    // ... nor by an introspectable which is not constant itself
    CLOSED(IIntrospectableView&, x.getField("")) READS(IIntrospectableView&, x.getField(""))
    CLOSED(IIntrospectableView&, x.at(0)) CLOSED(IIntrospectableView&, x[size_t(0)]) CLOSED(IIntrospectableView&, x.getBitBuffer())
    CLOSED(IIntrospectableView&, x.find("")) CLOSED(IIntrospectableView&, x.getParameter("")) CLOSED(IIntrospectableView&, x.callFunction(""))
    FORBIDDEN(IIntrospectableView&, x.setField("", Any()))
    FORBIDDEN(IIntrospectableView&, x.createField(""))
    FORBIDDEN(IIntrospectableView&, x.resize(0))
    FORBIDDEN(IIntrospectableView&, x.setAt(Any(), 0))
    FORBIDDEN(IIntrospectableView&, x.append(Any()))

    using T = const ITypeInfo&;
    CLOSED(T, x.getFields()) READS(T, x.getFields())
    CLOSED(T, x.getParameters()) READS(T, x.getParameters())
    CLOSED(T, x.getFunctions()) READS(T, x.getFunctions())
    CLOSED(T, x.getCases()) READS(T, x.getCases())
    CLOSED(T, x.getEnumItems()) READS(T, x.getEnumItems())
    CLOSED(T, x.getBitmaskValues()) READS(T, x.getBitmaskValues())
    CLOSED(T, x.getColumns()) READS(T, x.getColumns())
    CLOSED(T, x.getTables()) READS(T, x.getTables())
    CLOSED(T, x.getUnderlyingType()) READS(T, x.getUnderlyingType())
    // reading: constant bytes are enough
    static_assert(std::is_constructible_v<BitStreamReader, const uint8_t*, size_t> && std::is_constructible_v<BitStreamReader, Span<const uint8_t>>, "POSITIVE: constant bytes can be read");
}

} // namespace
