#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are maintained)."""
import json, os
R='runtime/src/zserio/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=[R+f for f in files],mechanism=[dict(name=a,where=R+b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=R+c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    assert len(title)<=80,(id,len(title))
    P.append(d)

p('S01','Reading a bit stream never touches memory outside the given buffer',
 'For every buffer, bit size, current bit position and sequence of read, seek and align calls, reading a bit stream only accesses bytes of the buffer handed to the reader. A read that needs more bits than remain in the stream throws a runtime exception of the library instead of returning data, and so do seeking behind the end and building a reader on a buffer too small for the given bit size or too large for the position type.',
 ['inputs','histories'],'all buffer sizes and bit sizes, all bit positions inside the stream, all read/seek/align operations and their arguments',
 'Tests read a few dozen fixed layouts; the cached-word fast path, the partial last word and the end-of-stream test have 64 x 64 x remaining-size combinations that no test list samples.',
 ['BitStreamReader.cpp','BitStreamReader.h'],[('cache refill and end-of-stream test','BitStreamReader.cpp'),('seek bound check','BitStreamReader.cpp')],
 [('bit index','next bit to be read','BitStreamReader.h')],['return value','thrown exception'])
p('S02','Writing never stores outside the buffer and fails when capacity is short',
 'For every buffer capacity, bit position and write, seek or align call, a bit stream writer stores only into the buffer handed to it and its position never passes the capacity. A write which does not fit into the remaining capacity throws the insufficient-capacity exception and leaves every bit before its start and behind the capacity unchanged (a refused field of up to 32 bits stores nothing at all). A writer created without a buffer stores nothing but advances its position as one with a buffer of sufficient capacity would.',
 ['inputs','histories'],'all capacities, positions, widths and values',
 'Tests hit the capacity limit at a couple of hand-picked sizes; the byte-spanning store path depends on every width/offset combination.',
 ['BitStreamWriter.cpp','BitStreamWriter.h'],[('capacity check','BitStreamWriter.cpp'),('position bound check','BitStreamWriter.cpp')],
 None,['buffer bytes','thrown exception'])
p('S03','Fixed-width bit fields are bit-exact, most significant bit first',
 'Writing an n-bit unsigned or signed value or a bool at any bit position sets exactly the next n bits of the stream to that value in two\'s complement, most significant bit first, changes no other bit and advances the position by n. Reading an n-bit field at any bit position returns exactly those n bits (sign-extended for signed reads) and advances the position by n, independently of what was read, sought or aligned before.',
 ['inputs','histories'],'every width 0..64, every bit offset, every value and every preceding read',
 'The round-trip tests cover sampled widths and offsets and would not notice a wrong but symmetric encoding or a damaged neighbouring bit for an untested combination.',
 ['BitStreamReader.cpp','BitStreamWriter.cpp'],[('bit field reader','BitStreamReader.cpp'),('bit field writer','BitStreamWriter.cpp')],None,['buffer bits','returned value','bit position'])
p('S04','Invalid widths and values are rejected before anything is written',
 'A fixed-width write whose width is outside the width limit of its operation, or whose value does not fit into the requested width, throws and neither changes the buffer nor the bit position; every value which does fit is accepted. Reads with a width larger than the operation supports throw and leave the position unchanged.',
 ['inputs'],'every width (0..255) and every 32/64-bit value',
 'Tests probe one value above and below for sampled widths only.',
 ['BitStreamReader.cpp','BitStreamWriter.cpp','BitFieldUtil.cpp'],[('width checks','BitStreamWriter.cpp'),('value range checks','BitStreamWriter.cpp'),('bounds of bit fields','BitFieldUtil.cpp')])
p('S05','Variable-length integers follow the wire format and size, writer, reader agree',
 'For every value in the range of each of the nine variable-length integer types the number of bits written equals the size computed for the value, the bytes are exactly the documented encoding (shortest form; INT64_MIN of varint as the single byte 0x80), and reading them back yields the value and leaves the position right behind them. Values outside the range are refused by size computation and writer, and a variable size read from a stream which exceeds its 31-bit limit is refused.',
 ['inputs'],'every value of the types and every encoded byte sequence',
 'Tests cover the boundary of each length class for some types; they do not cover all values of 64-bit types nor arbitrary encoded byte sequences.',
 ['BitStreamReader.cpp','BitStreamWriter.cpp','BitSize.h','Types.h'],[('variable length writer','BitStreamWriter.cpp'),('variable length reader','BitStreamReader.cpp'),('size tables','BitSize.h')])
p('S06','Checked numeric wrappers hold only values of their type',
 'For every numeric wrapper type (fixed width 1 to 64 bits, variable length, dynamic width of every bit count) the checked factory, the checked conversion and the validation accept an arithmetic value of any integer type exactly when it lies in the range of the schema type and then hold exactly that value; otherwise they throw the out-of-range exception. The lowest and highest value of each type\'s numeric limits are those of the schema type, and the arithmetic operators of the wrappers give the value the underlying type gives.',
 ['inputs'],'all wrapper types x all source values',
 'Tests construct a few values per wrapper; more than 140 wrapper types exist.',
 ['Types.h'],[('range check','Types.h'),('numeric limits','Types.h')])
p('S07','Float conversions are exact in bits',
 'Conversion of 32-bit and 64-bit floats to and from their wire representation is the identity on bits. A 16-bit float read from the stream converts to the single float of exactly the same value (sign, subnormals, infinities and NaN preserved), and a single float is written as the nearest 16-bit float: values beyond the largest finite one become infinity of the same sign, values below the smallest normal one may be rounded to a neighbouring subnormal or zero of the same sign, NaN stays NaN. The stream fields of 16, 32 and 64 bits carry these representations at every bit position.',
 ['inputs'],'all 2^16 half floats, all 2^32 single floats',
 'Tests convert a handful of constants.',
 ['FloatUtil.cpp'],[('conversions','FloatUtil.cpp')])
p('S08','Byte, string and bit-buffer fields: size, writer and reader agree',
 'For byte arrays, strings and bit buffers at any bit alignment the writer emits the length as variable size followed by exactly the content bits, consuming exactly the number of bits predicted by the size computation (as long as the size fits the 32-bit size type), and the reader returns equal content and consumes the same bits. A field whose content is cut off by the end of the stream or does not fit into the capacity is refused.',
 ['inputs'],'all lengths, contents and bit alignments',
 'Tests use short fixed strings at a few offsets.',
 ['BitStreamReader.h','BitStreamWriter.cpp','BitSize.h','BitBuffer.h','Bytes.h','String.h'],[('blob writer','BitStreamWriter.cpp'),('blob reader','BitStreamReader.h'),('blob sizes','BitSize.h')])
p('S09','Array size, offset initialisation, write and read visit the same layout',
 'For every array kind (plain, auto-sized, aligned, aligned auto-sized, implicit) and element kind the bit size computed at a position, the position after offset initialisation, the bits actually written and the bits consumed by reading are all equal, elements are handled in index order each with its own index, an aligned array aligns before every element, an auto-sized one starts with its length as variable size, and the bits of the elements are those the elements have on their own.',
 ['inputs','configurations'],'all array kinds x element types x lengths x start positions',
 'Each test compares the four operations for fixed element lists.',
 ['ArrayView.h'],[('array size','ArrayView.h'),('array write','ArrayView.h'),('array read','ArrayView.h')])
p('S10','Packing decisions and packed element sizes agree between size, write and read',
 'For every sequence of packed values the packed bit size, the written bits and the consumed bits agree, the descriptor written first announces the same packing mode and delta width the elements are then written with, deltas are used exactly when that makes the array smaller than writing each value on its own, the delta width is the smallest that holds every difference, and reading yields the original values.',
 ['inputs'],'all value sequences of all packable types',
 'Delta-packing tests cover selected sequences; the delta width and the flat/packed decision depend on the whole history of values.',
 ['DeltaContext.h'],[('delta context','DeltaContext.h')])
p('S11','Untrusted lengths cannot force a large allocation',
 'No read operation allocates memory proportional to a length taken from the stream before that length has been compared with the data that remains in the stream: byte arrays, strings and bit buffers never allocate more than the bytes left in the stream can fill, and an array\'s first allocation is limited by the reader\'s preallocation limit whatever length the stream announces.',
 ['inputs'],'all encoded lengths and all remaining sizes',
 'A test can only show one crafted length; the guarantee is about every allocation site reachable from a read.',
 ['BitStreamReader.h','ArrayView.h','BitBuffer.h','Bytes.h','String.h'],[('length validation before allocation','BitStreamReader.h'),('preallocation cap','ArrayView.h')])
p('S12','Serialization validates, sizes, initialises offsets and writes an exact buffer',
 'Serializing an object validates it first, then initialises its offsets (where asked to), computes its size, and writes it into a buffer of exactly the computed bit size; when validation or any other step throws, the exception leaves the call. Deserializing reads within exactly the given bit size and passes parameters and allocator on. A data view can only be built from data which has been validated with the same parameters, and a copied or moved view shows its own (or the same shared) data with the same parameters.',
 ['inputs','fault_sequences'],'all data objects and all failure points',
 'Tests check results for a few objects, not the order of steps on every overload.',
 ['SerializeUtil.h'],[('serialize','SerializeUtil.h'),('deserialize','SerializeUtil.h')])
p('C01','Optional never leaks, double-destroys or exposes a dead value',
 'For every history of operations on optional holders (in place or on the heap) - construction, copy, move, assignment, emplace, reset, swap, access - each constructed value is destroyed exactly once, each allocated block is freed exactly once, no destroyed or never constructed value is accessed, the holder afterwards holds the value the operation is documented to give, and this also holds when a value constructor, copy, move or an allocation throws at any point. Arguments which alias the value held by the holder are excluded.',
 ['histories','fault_sequences'],'all operation sequences x all throwing points',
 'Tests run a few scenarios with well-behaved value types and no fault injection.',
 ['Optional.h'],[('storage and holder','Optional.h')])
p('C02','Any never leaks, double-destroys or exposes a dead value',
 'For every history of operations on the type-erased holder (small-buffer or heap values, equal or unequal allocators) each constructed value is destroyed exactly once, every allocated block is freed exactly once through an equal allocator, no dead value is accessed, copies are independent of their source, also when a constructor or an allocation throws at any point; a cast to a type other than the one stored throws. Arguments which alias the value held and swapping holders with unequal non-propagating allocators are excluded.',
 ['histories','fault_sequences'],'all operation sequences x all throwing points',
 'Tests run a few scenarios and no fault injection.',
 ['Any.h'],[('holders','Any.h')])
p('C03','Variant and unique pointer own their value exactly once',
 'For every history of operations, a variant holds at most one live alternative, which is the one its index names, destroys it exactly once and is never left claiming an alternative that does not exist, also when constructing the new alternative or an allocation throws; visiting calls the visitor with the active alternative. The allocator-aware unique pointer destroys and frees its object exactly once through the allocator it was made with. Arguments which alias the value held and swapping holders with unequal non-propagating allocators are excluded.',
 ['histories','fault_sequences'],'all operation sequences x all throwing points',
 'Tests run a few scenarios and no fault injection.',
 ['Variant.h','UniquePtr.h'],[('variant storage','Variant.h'),('deleter','UniquePtr.h')])
p('C04','Access to an absent or different alternative always throws',
 'Checked access to an empty optional, to a variant alternative that is not the active one (by index, by type, or of a valueless variant), to an empty type-erased holder or to one of another type throws the documented exception and never returns a reference; the pointer forms give null instead. Access to what is present gives a reference to the value held.',
 ['histories'],'all holder states',
 'Tests check single states per holder.',
 ['Optional.h','Variant.h','Any.h'],[('checked access','Optional.h'),('checked access','Variant.h')])
p('C05','Containers allocate only through the allocator they were given',
 'Every allocation made by the runtime\'s containers and data holders, and by stream reads which are given an allocator, goes through the supplied allocator; copies, moves, assignments and swaps propagate or keep that allocator according to its propagation traits and select_on_container_copy_construction. The polymorphic allocator takes from and returns to its memory resource exactly the bytes and alignment of the elements, and hands itself on to copies, rebound allocators and elements which use allocators.',
 ['histories','configurations'],'all container operations x all allocators',
 'Tests compare some byte counts with tracking allocators in selected scenarios.',
 ['Any.h','Optional.h','UniquePtr.h','AllocatorHolder.h','BitBuffer.h','ppmr/PropagatingPolymorphicAllocator.h'],[('allocator holder','AllocatorHolder.h'),('polymorphic allocator','ppmr/PropagatingPolymorphicAllocator.h')])
p('C06','Bit buffers ignore bits behind their size and never overrun',
 'A bit buffer can only be built with a bit size its bytes can hold; equality and hash depend only on the size and on the bits inside that size, equal buffers have equal hashes, a copy, move or assignment has the same size and the same bits, and no operation touches bytes outside the buffer.',
 ['inputs'],'all bit sizes and contents',
 'Tests use a few 11..35-bit buffers; sizes near the numeric limit and every partial-byte mask are not covered.',
 ['BitBuffer.h'],[('constructor checks','BitBuffer.h'),('comparison and hash','BitBuffer.h')])
p('C07','Comparison operators of every value type form one consistent ordering',
 'For every two values of a holder or value type exactly one of less, equal and greater holds and the six comparison operators agree with it in both argument orders: numeric wrappers compare as their numbers, byte arrays, strings and integer arrays lexicographically, an empty optional is below every value, variants compare by index and then by value. Values that compare equal have equal hash codes. NaN is excluded, and only the consistency of the operators is promised for valueless variants.',
 ['inputs'],'all pairs of values of optional, variant, extended, numeric wrappers, byte views and bit buffers',
 'Tests compare a few pairs.',
 ['Optional.h','Variant.h','Extended.h','Types.h','Bytes.h','BitBuffer.h'],[('comparison operators','Types.h')])
p('J01','JSON string encoding and decoding are inverse',
 'Every string encoded as JSON string literal is decoded back to the identical bytes; the encoder emits no raw control character, quote or lone backslash inside the literal, and the decoder rejects malformed escapes and unterminated strings instead of accepting or over-reading them.',
 ['inputs'],'all byte strings',
 'Tests list some escapes; the guarantee is for each byte value.',
 ['JsonEncoder.cpp','JsonDecoder.h'],[('string encoder','JsonEncoder.cpp'),('string decoder','JsonDecoder.h')])
p('J02','JSON decoding stays inside its input and reports overflow',
 'Decoding a JSON literal (null, true, false, numbers, strings) reads only characters of the given input, consumes exactly the characters of the literal, gives exactly the number an integer literal describes, and reports an integer outside the 64-bit range of its type and a malformed literal as failure rather than wrapped or guessed. (Numbers in floating point notation overflow to infinity.)',
 ['inputs'],'all inputs',
 'Tests decode a list of literals; truncations of every literal kind at the end of the input are not covered.',
 ['JsonDecoder.h'],[('literal decoder','JsonDecoder.h')])
p('J03','The JSON tokenizer always makes progress and terminates',
 'Each step of the JSON tokenizer consumes input, reaches the end token or throws, so tokenizing any input terminates; tokens, values, and the line and column of each token are those of the text, independent of how it is split into the chunks in which the stream is read. (A raw NUL character may be refused.)',
 ['inputs'],'all inputs and chunkings',
 'Tests tokenize a few documents.',
 ['JsonTokenizer.cpp'],[('tokenizer','JsonTokenizer.cpp')])
p('J04','The JSON parser reports balanced begin and end events',
 'The JSON parser accepts exactly the token sequences of the JSON grammar, and on every path it reports one begin and one matching end event per accepted object and array, with keys and values only in between and in the order of the document; everything else is refused with the parser\'s exception, which names what was expected.',
 ['inputs'],'all documents',
 'Tests compare event logs of a few documents.',
 ['JsonParser.h'],[('parser','JsonParser.h')])
p('J05','The JSON writer writes exactly the tree it is shown',
 'For every tree of compounds, arrays and values, of any nesting and with optional parts unset, the JSON writer puts out one document which has the shape of the tree: every begun object and array is closed, keys and values are separated exactly where JSON demands it, keys are the field names, array elements are in order, an unset part is written as null, and separators and indentation are those asked for. Every value is written as the JSON form of its own kind with exactly its value: integers, floats (with at least 15 significant digits), bool, text, byte arrays as array of numbers, bit buffers as buffer and bitSize. Enum and bitmask values are written as the names of exactly the items they hold; a value without name or with a remainder is written as a number, marked as having no match or only a partial one.',
 ['inputs'],'all trees, all enum and bitmask values, all formatting parameters',
 'Tests write one object with two or three fields per test.',
 ['JsonWriter.h'],[('document structure and values','JsonWriter.h'),('enum and bitmask names','JsonWriter.h')])
p('J06','The JSON reader builds exactly what the document describes',
 'For every document the JSON reader either builds an object in which every member of the document is the field of its name with exactly the value given - objects for compounds, arrays element by element in order, scalars of every kind, byte arrays from arrays of numbers 0 to 255, bit buffers from buffer and bitSize - or throws a runtime exception; no member is dropped or handed to another field, and no number is cut to a byte. Documents read one after the other with the same reader do not affect each other, also after one was refused.',
 ['inputs','histories'],'all documents, all second documents',
 'Tests read a handful of documents, each with a new reader.',
 ['JsonReader.h'],[('event handling','JsonReader.h'),('byte and bit buffer adapters','JsonReader.h')])
p('T01','Type information classifies every schema type consistently',
 'For every built-in and user type kind the type-information predicates, its schema and C++ type enumerators, names, bit sizes and the availability of each accessor (fields, parameters, functions, items, cases, columns, tables, underlying type, template arguments and so on) are mutually consistent, accessors of another kind throw, and the type information of a recursive reference answers as the type it refers to.',
 ['programs'],'all type kinds',
 'Tests check each table entry against a copy of itself or not at all.',
 ['TypeInfo.h','TypeInfoUtil.cpp'],[('type tables','TypeInfo.h'),('predicates','TypeInfoUtil.cpp')])
p('T02','Dispatch over type kinds covers every kind',
 'Wherever the runtime dispatches on the schema or C++ kind of a value - the JSON writer, the tree creator\'s value conversion, reflective comparison - every kind is handled as itself or rejected with an exception; no kind is treated as another kind, silently dropped or written in another kind\'s form.',
 ['programs'],'all dispatch sites x all kinds',
 'Tests reach only some combinations of site and kind.',
 ['ReflectableUtil.h','ZserioTreeCreator.cpp','JsonWriter.h'],[('dispatch','ReflectableUtil.h'),('dispatch','JsonWriter.h'),('value conversion','ZserioTreeCreator.cpp')])
p('T03','The tree creator accepts exactly the well-formed call sequences',
 'For each of its states the tree creator accepts only the calls that are legal there (root, compound, array, element and value calls, field names of the current compound) and throws for all others without changing its state; what it builds is what the accepted calls describe, also after an object refused a step. Values are converted to the type of the field exactly or refused when they do not fit; names of enum items and bitmask values are turned into the value they name, or refused.',
 ['histories'],'all call sequences',
 'Tests try one illegal call for some states.',
 ['ZserioTreeCreator.cpp','ZserioTreeCreator.h'],[('state machine','ZserioTreeCreator.cpp')])
p('T04','Reflection rejects wrong-type and out-of-range access',
 'Every reflection getter of a kind different from the reflected value throws, and every getter and numeric, floating point or string conversion of a value\'s own kind gives exactly the value; every element access checks its index against the current size before touching the element. Finding by path gives exactly the object at that path, or nothing when the path does not exist, leads through an unset optional, or a getter on it raises. Reflective equality of two objects holds exactly when they have the same kind and equal parts. An owning reflectable answers as the object it owns.',
 ['programs','inputs'],'all accessor/kind combinations and all indices',
 'Tests cover many combinations but not each index check on each wrapper.',
 ['ReflectableData.h','IntrospectableView.h'],[('index checks','ReflectableData.h')])
p('T05','Walking a tree reports balanced begin and end events for each filter',
 'For every tree and filter a begin event for a compound or array is followed by its matching end event, the root pair encloses all others, elements of arrays are shown in order with their index, unset optionals and unselected union branches are shown as what they are, and every filter\'s before-call is matched by its after-call. The default filter shows everything; the depth filter exactly the objects up to its depth; the array-length filter exactly the elements below its limit; the path filter exactly the objects whose path (array elements also by their own indexed path), or that of an object inside them, matches; a conjunction what all its filters allow.',
 ['inputs'],'all trees and filters',
 'Tests walk a few trees.',
 ['Walker.h','WalkerConst.h'],[('walker','Walker.h')])
p('I01','The runtime fails only through its own exception hierarchy',
 'Every exception thrown explicitly by the runtime is of the library\'s exception hierarchy, and no function promised not to throw can let one of them escape.',
 ['fault_sequences'],'all throw sites and all non-throwing functions',
 'Tests trigger selected error paths.',
 ['CppRuntimeException.h'],[('exception hierarchy','CppRuntimeException.h')])
p('I02','Exception messages never overflow their buffer',
 'Appending any text, integer or bool to an exception message never writes outside its fixed buffer and keeps the message terminated: it is exactly the texts appended so far, cut off at the capacity. Integers are formatted to their exact decimal digits for every value of every width, bools to their words.',
 ['inputs'],'all texts, lengths and integers',
 'Tests append a few texts; the truncation edge and extreme integers are sampled.',
 ['CppRuntimeException.cpp','CppRuntimeException.h','StringConvertUtil.h'],[('append','CppRuntimeException.cpp'),('integer formatting','StringConvertUtil.h')])
p('I03','The runtime has no mutable shared state',
 'Apart from immutable tables and lazily initialised constants the runtime keeps no global or function-local mutable state, so independent objects can be used from different threads.',
 ['schedules'],'all interleavings of calls on distinct objects',
 'No test is multi-threaded.',
 ['Types.h','TypeInfo.h'],[('static data','TypeInfo.h')])
p('I04','Views and const access cannot modify the data they show',
 'No operation available on a view, an array view, a span of constants, a byte view, an introspectable or a constant reflectable, type information, holder or buffer gives access through which the underlying data could be changed (no reference, pointer, smart pointer or span to non-constant data), no operation changing an object can be called on a constant one, and no const method of the library changes the object it is called on. A constant pointer or span does not convert to a mutable one.',
 ['programs'],'all programs using the public view and constant interfaces',
 'Tests cannot show that a program which would mutate through a view does not compile.',
 ['View.h','Span.h','Bytes.h','BitBuffer.h','ArrayView.h','IIntrospectableView.h','IReflectableData.h'],[('const views','View.h'),('introspectable','IIntrospectableView.h')])
p('I05','SQLite statements are always finalised and failures reported',
 'Every prepared statement is finalised exactly once on every path including exceptions; every SQLite call which fails makes the helper throw the SQLite exception naming the error (or return the result code, for binding; a column which cannot be selected is not in the table); an internal connection is closed exactly once, when it is replaced or at the end, and an external one never. Queries, counts and table schemas are those of the table asked for. A value bound to a column (integers of every wrapper, floats, texts of any length and content, objects as the blob of their bytes) is bound with its kind at the given index and read back equal.',
 ['fault_sequences','inputs'],'all SQLite calls x all failures, all column kinds and values',
 'Tests cannot inject a failure into every SQLite call, and bind no column value at all.',
 ['SqliteConnection.h','SqliteFinalizer.h','ValidationSqliteUtil.h','SqliteUtil.h'],[('finalizer','SqliteFinalizer.h'),('connection','SqliteConnection.h'),('columns','SqliteUtil.h')])
p('I06','File helpers report every I/O failure',
 'Writing a buffer to a file or reading one from it either transfers all bytes or throws; an error at open, write, flush, close, size query or read is never silently dropped, and an error is raised only if one of these failed. The size of the bits read and written is that of the buffer or file.',
 ['fault_sequences'],'all I/O calls x all failures',
 'Tests use a missing path only.',
 ['FileUtil.cpp'],[('file helpers','FileUtil.cpp')])
p('I07','Position and size helpers are arithmetically exact',
 'Aligning a bit position yields the smallest multiple of the alignment not below it (the position itself for alignments of 0 and 1), bit/byte conversions are exact, the bit width of a count and the bounds of an n-bit field are exact and refuse widths outside 1 to 64, and size conversions throw exactly when the value does not fit.',
 ['inputs'],'all positions, alignments, counts and widths',
 'Tests check short tables of values.',
 ['BitPositionUtil.h','BitFieldUtil.cpp','SizeConvertUtil.cpp'],[('helpers','BitPositionUtil.h')])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P),'properties')
