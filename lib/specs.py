"""What decides each property: analysis harnesses (drivers/*.cpp) and source rules."""
from zv import H
import rules

# pure functions of floating point numbers: their results are arbitrary
EXTERNAL_OK = {"llvm.is.fpclass.f64", "llvm.is.fpclass.f32", "llvm.fabs.f64", "llvm.fabs.f32", "llvm.trunc.f64", "llvm.floor.f64", "llvm.ceil.f64",
               "llvm.copysign.f64", "llvm.rint.f64", "llvm.round.f64", "trunc", "floor", "ceil", "fmod", "round", "fabs"}
TRUSTED = ["clang 18 front end (C++ to LLVM IR)", "engine/ abstract interpreter and its library summaries", "driver specifications in drivers/"]
ASSUMPTIONS = ["64-bit target, two's complement, the ZSERIO_RUNTIME_64BIT configuration of RuntimeArch.h"]
PROPS = {}
NOT_APPLICABLE = {}


def prop(pid, level, technique, note, explanation, harnesses=(), rules=(), assumptions=()):
    PROPS[pid] = dict(level=level, technique=technique, note=note, explanation=explanation, harnesses=list(harnesses), rules=list(rules),
                      assumptions=list(assumptions))


AI = "abstract interpretation of LLVM IR (linear relations, known bits and bit provenance, points-to heap, trace partitioning)"
AIX = "Abstract interpretation of the LLVM IR compiled from the current runtime sources. "

prop("S01", "proof", AI, "all buffers, bit sizes, positions and contents; histories of up to three reads with every cache fill state, seeks, alignments up to 512 bits; every read call of the reader",
     AIX + "Every load is an obligation against the bounds of the buffer object; buffer, bit size, position and contents are unconstrained.",
     [H("reader", "S01_construct"), H("reader", "S01_limit", 36), H("reader", "S01_reads", 64), H("reader", "S01_reads3", 24), H("reader", "S01_seek", 81), H("reader", "S01_align", 96),
      H("fields", "S08_read_aligned", 8), H("fields", "S08_read", 32), H("fields", "S08_bitbuffer", 48), H("varint", "S05_read", 32), H("floats", "S07_stream_read", 32)])
prop("S03", "proof", AI, "all values, positions and widths",
     AIX + "The value returned by each read is compared bit by bit with the bit provenance of the buffer, at every position and for every width.",
     [H("reader", "S03_read_u", 48), H("reader", "S03_seek_read", 24), H("reader", "S03_read_other", 32), H("writer", "S03_write_u", 48), H("writer", "S03_write_s", 48),
      H("writer", "S03_roundtrip", 32)])
prop("S04", "proof", AI, "all values, positions and widths", AIX + "Widths and values outside the limits must raise, with nothing stored and the position unchanged.",
     [H("reader", "S04_read_width", 36), H("writer", "S04_write", 48)])
prop("S02", "proof", AI, "all buffers, capacities, positions, values and widths; every write call (fixed width, variable length, floats, strings, byte arrays, bit buffers), seek, align",
     AIX + "Every store is an obligation against the bounds of the buffer object; the bits changed are compared with the field which was to be written.",
     [H("writer", "S02_capacity", 64), H("writer", "S02_seek", 3), H("writer", "S02_construct"), H("writer", "S02_align", 48), H("writer", "S02_nobuffer", 24),
      H("fields", "S08_write_aligned", 8), H("fields", "S08_write", 16), H("fields", "S08_count", 8), H("fields", "S08_bitbuffer", 48), H("fields", "S08_bitbuffer_aligned", 16),
      H("varint", "S05_write", 48), H("floats", "S07_stream_write", 16)])
prop("S05", "proof", AI, "all nine types, every value, every byte sequence, every bit position",
     AIX + "Value, size, written bits and consumed bits are compared with an independent statement of the wire format.",
     [H("varint", "S05_write", 48), H("varint", "S05_min"), H("varint", "S05_range", 12), H("varint", "S05_read", 32)])
prop("S06", "proof", AI, "every fixed width 1..64, every variable-length type, every dynamic width 0..255 of each underlying type, every value",
     AIX + "Acceptance by fromCheckedValue, toCheckedValue and validation and the numeric limits are compared with the range of the schema type.",
     [H("numeric", "S06_fixed", 8), H("numeric", "S06_var", 4), H("numeric", "S06_dyn", 8), H("numeric", "S06_ops", 2)])
prop("S07", "proof", AI, "all 2^16 half floats, all 2^32 single and 2^64 double floats",
     AIX + "Conversions are compared bit by bit with the IEEE 754 encoding; rounding to 16 bits is a linear distance obligation per exponent.",
     [H("floats", "S07_identity"), H("floats", "S07_from16", 4), H("floats", "S07_to16", 4), H("floats", "S07_stream_write", 16), H("floats", "S07_stream_read", 32)])
prop("S08", "proof", AI, "byte arrays, strings and bit buffers of any length and content at byte boundaries, of up to a few bytes at other bit positions",
     AIX + "Predicted size, length prefix, content bits, positions and the value read back are obligations; lengths are symbolic up to the format's limit.",
     [H("fields", "S08_write_aligned", 8), H("fields", "S08_write", 16), H("fields", "S08_count", 8), H("fields", "S08_read_aligned", 8), H("fields", "S08_read", 32),
      H("fields", "S08_bitbuffer", 48), H("fields", "S08_bitbuffer_init"), H("fields", "S08_bitbuffer_aligned", 16)])
HIST = "Values of a tracking element type (construction, copy, move, destruction and allocation are events) are put through every operation from every pair of holder states. "
prop("C01", "proof", AI, "every operation on an optional (in place and on the heap) from every pair of states, with an exception from any element operation or allocation",
     AIX + HIST + "Exactly-once destruction, content, exception safety and absence of leaks are obligations.",
     [H("optional", "C01_inplace", 24), H("optional", "C01_heap", 24), H("optional", "C01_convert", 8)])
prop("C02", "proof", AI, "every operation on an Any holding small or large values or none, equal or unequal allocators, propagating or not, with an exception from any element operation or allocation",
     AIX + HIST + "Exactly-once destruction, content, exception safety and absence of leaks are obligations.",
     [H("any", "C02_history", 24)])
prop("C03", "proof", AI, "every operation on variants with in-place and heap alternatives and on unique pointers from every pair of states, with an exception from any element operation or allocation",
     AIX + HIST + "The index names the live alternative, destruction happens exactly once, a failed operation leaves a variant which says it has no value.",
     [H("variant", "C03_variant", 24), H("variant", "C03_pointer", 1)])
prop("C04", "proof", AI, "every access function of optional, variant and any in every state",
     AIX + "Access to an absent or different alternative must raise the documented exception; present ones return the object itself.",
     [H("optional", "C04_optional"), H("any", "C04_any"), H("variant", "C04_variant")])
prop("C05", "proof", AI, "construction, copy, move, assignment and swap of optional, variant, any and bit buffer with equal or unequal, propagating or non-propagating allocators; the polymorphic allocator with any number of elements",
     AIX + "Calls of the global operator new are violations; each block must be returned to an allocator equal to the one it came from and the allocator after each operation is the one the allocator traits call for.",
     [H("optional", "C05_optional", 24), H("any", "C05_any", 24), H("variant", "C05_variant", 24), H("bitbuffer", "C06_copies", 24),
      H("resources", "C05_readers", 24), H("ppmr", "C05_ppmr", 9)])
prop("C06", "other", AI, "sound for every program state within these bounds, not beyond: bit buffers of up to 3 bytes with any bit size and contents; construction with every bit size",
     AIX + "Comparison and hash are compared with the same functions of the bits inside the size; every load is a bounds obligation.",
     [H("bitbuffer", "C06_compare", 24), H("bitbuffer", "C06_hash", 8), H("bitbuffer", "C06_construct", 2), H("bitbuffer", "C06_vector", 8), H("bitbuffer", "C06_copies", 24)])
prop("C07", "other", AI, "sound for every program state within these bounds, not beyond: all values of numeric wrappers, dynamic-width views, optionals, extended fields, variants; byte, string and integer arrays of up to 3 elements; bit buffers of up to 3 bytes",
     AIX + "All six operators in both argument orders are compared with one three-way order; equal values have equal hash codes.",
     [H("compare", "C07_numbers", 28), H("compare", "C07_dynview"), H("compare", "C07_optional"), H("compare", "C07_extended"), H("compare", "C07_variant"),
      H("compare", "C07_arrays", 24), H("compare", "C07_floats", 3), H("bitbuffer", "C06_compare", 24)])

prop("S11", "proof", AI, "byte array, string and bit buffer reads from every stream: arbitrary contents, any number of bits left, every position",
     AIX + "Every allocation made while a field is read is an obligation: it is bounded by the data left in the stream.",
     [H("resources", "S11_fields", 24)])
PROPS["S11"]["harnesses"].append(H("arrays", "S11_arrays", 24))
prop("S09", "other", AI, "sound for every program state within these bounds, not beyond: normal, aligned, automatic-length, aligned automatic and implicit arrays of every element kind (fixed, variable-length, dynamic width, float, bool, bytes, string, bit buffer, objects with inner alignment), up to three elements, every start position",
     AIX + "Size, offset initialisation, written bits and consumed bits are compared with an independent layout; elements are recorded in the order they are handled.",
     [H("arrays", "S09_layout", 48), H("packing", "S10_narrow", 64)])
prop("S10", "other", AI, "sound for every program state within these bounds, not beyond: packed arrays of up to three elements: unsigned, signed, bool, variable-length and dynamic widths with every combination of difference widths; 64-bit elements with every first difference",
     AIX + "Packing decision, descriptor, delta width and each element's bits are compared with an independent statement of the packed format; reading returns the values.",
     [H("packing", "S10_narrow", 64), H("packing", "S10_wide", 24)])
prop("I02", "proof", AI, "any text of any length appended to any message; every integer of 8 and 16 bits, every digit pair of all 32-bit and 64-bit integers",
     AIX + "Each store is an obligation against the message buffer; contents and terminator are compared with the text, digits with the decimal digits of the value.",
     [H("helpers", "I02_append"), H("helpers", "I02_numbers", 16), H("helpers", "I02_digits", 64), H("helpers", "I02_shorts", 32)])
prop("I07", "proof", AI, "all positions with every alignment from 0 to 1024, all 64-bit counts, all lengths, all sizes",
     AIX + "Results are compared with independent definitions for symbolic inputs.",
     [H("helpers", "I07_align", 32), H("helpers", "I07_numbits", 8), H("helpers", "I07_bounds", 4), H("helpers", "I07_sizes")])

prop("J01", "other", AI, "sound for every program state within these bounds, not beyond: encoding of strings of up to two arbitrary bytes in several contexts and of 300 characters with an arbitrary one; decoding of every literal of up to four arbitrary characters behind eight prefixes",
     AIX + "The literal written is scanned and decoded by an independent reader; the decoder's answer, consumed characters and every load are obligations.",
     [H("json", "J01_encode", 8), H("json", "J01_long", 32), H("json", "J01_decode", 32)])
prop("J02", "other", AI, "sound for every program state within these bounds, not beyond: every text of up to five characters, every literal word cut or followed by anything, integers of up to 22 digits, floating numbers with parts of up to 300 digits",
     AIX + "Every load is an obligation against exactly the characters given; integers are compared with an independent evaluation.",
     [H("json", "J02_any", 48), H("json", "J02_words", 16), H("json", "J02_digits", 22), H("json", "J02_long", 32)])
prop("J03", "other", AI, "sound for every program state within these bounds, not beyond: every text of up to three characters and longer texts with an arbitrary character anywhere, read in one or two chunks cut anywhere",
     AIX + "Tokens, values, line and column of each step are compared with an independent tokenizer, for every way the text may be cut into chunks.",
     [H("json", "J03_any", 96), H("json", "J03_long", 6), H("json", "J03_texts", 64)])
prop("J04", "other", AI, "sound for every program state within these bounds, not beyond: every sequence of up to 7 tokens (10 with one value kind), including a tokenizer failure at any token",
     AIX + "The tokenizer is replaced by an arbitrary source of tokens; acceptance and events are compared with a pushdown automaton of the grammar.",
     [H("jsonparser", "J04_parser", 128)])

prop("S12", "proof", AI, "every overload of serialize, serializeToBytes, deserialize and deserializeFromBytes, objects of any bit size, valid and invalid, data views and their copies",
     AIX + "An object whose hooks record the order of calls, the position, memory size and parameters they are given is put through every entry point.",
     [H("serialize", "S12_serialize", 24), H("serialize", "S12_big", 4), H("serialize", "S12_deserialize", 12)])
prop("I06", "proof", AI, "buffers of any size, files of any size, a failure of any file operation (open, write, flush, close, data still buffered at destruction, seek, tell, read)",
     AIX + "The stream operations are replaced by ones each of which may fail; the helper must fail exactly when one of them did.",
     [H("files", "I06_write", 6), H("files", "I06_read", 6)])
prop("T03", "other", AI, "sound for every program state within these bounds, not beyond: every two calls with every field name from ten states, an object refusing at any call; every integer of each source type for each target type; every text of up to four characters as an enum or bitmask",
     AIX + "Real type infos, recording objects: every call is compared with a reference state machine; converted values with their definition.",
     [H("tree", "T03_calls", 96), H("tree", "T03_integers", 9), H("tree", "T03_names", 24)])
prop("T01", "proof", AI, "every schema type and C++ type, every built-in type (every integer width), a type of every declared kind with up to two parts, directly and through a recursive reference",
     AIX + "The predicates, names, sizes and the answer or refusal of every accessor are compared with an independent table of the kinds.",
     [H("typeinfo", "T01_schema", 31), H("typeinfo", "T01_cpp", 8), H("typeinfo", "T01_integers", 16), H("typeinfo", "T01_builtins", 8),
      H("typeinfo", "T01_declared", 27), H("typeinfo", "T01_reference", 8)])
prop("T05", "other", AI, "sound for every program state within these bounds, not beyond: every tree of up to 24 objects of a schema with optional compound, compound array, value array and union; any filter with up to two refusals, depth and array-length filters of every limit, path filters for any set of up to two paths, conjunctions of up to three filters",
     AIX + "std::regex is replaced by an arbitrary set of paths. The calls made on filter and observer are compared with a reference walk of the tree.",
     [H("walker", "T05_any", 64), H("walker", "T05_default", 32), H("walker", "T05_paths", 64), H("walker", "T05_and"), H("walker", "T05_deep", 10), H("walker", "T05_root")])
prop("T04", "other", AI, "sound for every program state within these bounds, not beyond: every getter of every kind of value with any value, arrays of up to two elements with every index, every path of up to three names, every pair of small objects for equality",
     AIX + "Reflectables and introspectables of every type are put through every accessor; results are compared with the value, refusals with the table of kinds.",
     [H("reflect", "T04_values", 31), H("reflect", "T04_others", 12), H("reflect", "T04_arrays", 24), H("reflect", "T04_find", 48), H("reflect", "T04_owner"),
      H("reflect", "T04_equal", 49), H("reflect", "T04_equalvalues", 12), H("reflect", "T04_any", 8)])
prop("T02", "proof", AI, "every kind of value (every schema and C++ type of the runtime) through the JSON writer, the tree creator and the reflective comparison",
     AIX + "Every dispatch over kinds is driven with every kind, present and absent, with the right and with a wrong value; the outcome is compared with a table of the kinds.",
     [H("jsonwriter", "T02_json", 68), H("jsonwriter", "J05_names", 24), H("tree", "T02_tree", 23), H("reflect", "T04_equalvalues", 12)])
prop("J05", "other", AI, "sound for every program state within these bounds, not beyond: every tree of up to three nested compounds and arrays with any values and optional parts, nesting and arrays of 260 levels and elements; every value of enums and bitmasks of up to three items",
     AIX + "The encoder is replaced by one which records what it is asked for; the characters and values put out are compared with an independent writing of the same tree. The scalar encoders are analysed on their own, with the insertion of numbers by the standard library recorded.",
     [H("jsonwriter", "J05_document", 64), H("jsonwriter", "J05_deep", 3), H("jsonwriter", "J05_names", 24), H("jsonscalar", "J05_scalars", 13)])
prop("J06", "other", AI, "sound for every program state within these bounds, not beyond: every event sequence of documents of up to three members for compounds, arrays, scalars of every kind, byte arrays and bit buffers; second reads after success and failure",
     AIX + "The parser is replaced by an arbitrary source of events; what is built is compared with what the document describes.",
     [H("jsonreader", "J06_shapes", 16), H("jsonreader", "J06_scalars", 8), H("jsonreader", "J06_special", 32), H("jsonreader", "J06_again", 12)])
prop("I05", "other", AI, "sound for every program state within these bounds, not beyond: every history of three operations on a connection; every call of the statement, transaction and validation helpers with a failure of any SQLite call; columns of every kind with any value, texts of any length, objects of up to 64 bits",
     AIX + "The SQLite library is replaced by one which accounts for connections and statements and may fail at any call; releases, results and bound values are obligations.",
     [H("sqlite", "I05_connection", 12), H("sqlite", "I05_statements", 16), H("sqlite", "I05_columns", 14), H("sqlite", "I05_blobs", 65), H("sqlite", "I05_texts", 5),
      H("sqlite", "I05_validation", 24), H("sqlite", "I05_names")])
IR = "rule over the LLVM IR of the whole runtime (call graph, exception propagation, points-to of static objects)"
prop("I01", "other", IR, "all throw expressions and all functions of the runtime sources and of the templates instantiated by the harness drivers; calls through pointers and virtual calls are not followed",
     "Exception types are propagated from every throw expression over the call graph, handlers taken into account, and must not reach a function promised not to throw.",
     rules=[rules.throws])
prop("I04", "other", "type-level witnesses (programs which must not compile) and a constness lint over the LLVM IR", "the expressions of the witnesses, all const methods of the runtime sources and of the templates instantiated by the harness drivers; casts written by the user are not considered",
     "Each witness is an expression on a view or constant object whose type must not open the data for a change, or which must not compile; const methods are followed through calls for writes to their object.",
     rules=[rules.witness, rules.const_methods])
prop("I03", "other", IR, "all objects of static storage duration in the runtime sources and in the templates instantiated by the harness drivers",
     "Every write to such an object is found by following its uses; only its own initialisation may write to it.",
     rules=[rules.statics])
