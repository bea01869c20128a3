#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Every value survives a pack/unpack round trip",
 "Packing any value and unpacking the bytes yields a value of the same kind (and the same number or string type) that is equal to the original, NaN excepted, and that packs to exactly the same bytes; the whole input is consumed. Lists and maps of either mutability come back as lists and maps with the same elements in the same order, gaps come back as nulls, and a non-empty sparse list comes back with the same indexes.",
 ["inputs"], "All scalars (every int64, every double bit pattern, strings and byte strings, big integers, decimals, unknown extensions) and all lists, maps and sparse lists built from them.",
 "The tests round-trip a few dozen literals; header boundaries, negative big numbers, raw strings inside collections, gaps, and most sizes are never tried.",
 ["msgpack.go","unpack.go","number.go","string.go","null.go","bool.go","unknown.go","immutablelist.go","immutablemap.go","solidlist.go","sortedmap.go","sparselist.go","utils.go"],
 [("packing per type","Pack methods"),("decoder","unpack.go doParse*"),("extension payloads","number.go UnpackBigInt/UnpackDecimal")], ["Pack","Unpack","Equal"])

prop("C02", "Packed bytes are exactly the shortest MessagePack encoding",
 "For every 64-bit integer, every double, and every string, binary, extension, list and map length, the emitted header is the MessagePack format code prescribed for that type, it is the shortest one that holds the value (doubles always as 64-bit floats), lengths and numbers are big-endian, and the payload follows unchanged. Any conforming MessagePack decoder therefore reads the same value.",
 ["inputs"], "Every int64, every double bit pattern, every length from 0 to 2^32-1, every extension tag and every payload.",
 "Tests pin about twenty encodings; the boundaries of 11 integer and 20 length classes and lengths above 65535 are not reached.",
 ["msgpack.go","number.go","string.go","unknown.go","null.go","bool.go"],
 [("header writer","msgpack.go messageWriter"),("packer","msgpack.go messagePacker")], ["Pack","MessagePacker"])

prop("C03", "The decoder reads every MessagePack encoding of a value",
 "Every well-formed MessagePack integer, float, boolean, nil, string, binary, extension, list or map header, whether or not it is the shortest form, is decoded to the mathematical value it denotes, including sign extension and 32-bit floats; map entries are all kept, those of one key in their order, integer keys giving a sparse list and other keys, also other numbers, a map. An unsigned integer that does not fit in a signed 64-bit long is reported as an error and never as another number.",
 ["inputs"], "Every format code with every payload of its size; maps with every mix of key types.",
 "Tests only decode what the library itself packs, so non-minimal forms, 32-bit floats, most signed forms and mixed key types are unreached.",
 ["msgpack.go","unpack.go"], [("format table","msgpack.go nextFormat, mpCodeFormat, mpCodeSize"),("header parser","msgpack.go messageParser"),("map kind detection","unpack.go doParseMap")], ["Unpack","MessageParser"])

prop("C04", "Decoding arbitrary bytes never panics and never misreads",
 "Unpacking any byte sequence, from a buffer or a reader, either returns a value or an error and never panics, and never reads outside the given bytes. Every value that is returned can be printed, converted to JSON, compared, packed and queried by every accessor without a panic (converting decimals with exponents of many digits, and making the dense form of sparse lists with huge indexes, which are legitimately expensive, excepted), and unpacking its packed form gives an equal value.",
 ["inputs"], "All byte sequences, as messages and as sources of values for every accessor.",
 "No test feeds malformed or adversarial bytes.",
 ["unpack.go","msgpack.go","number.go","struct.go"], [("bounds checks","msgpack.go messageBufUnpacker.Next/Read"),("extension decoding","unpack.go doParseExt")], ["Unpack","Read"])

prop("C05", "A truncated message is always rejected",
 "Decoding any strict prefix of a packed value fails with an error, from a buffer and from a reader: a plain end-of-input for the empty prefix, and an unexpected end of input for every other one. A failed decode returns no value a caller could mistake for the whole one.",
 ["inputs","crash_points"], "Every value and every point at which its packed form may be cut off.",
 "Tests never truncate a message.",
 ["msgpack.go","unpack.go","utils.go"], [("length checks","msgpack.go messageBufUnpacker, messageIOUnpacker"),("error propagation","unpack.go")], ["Unpack","Read"])

prop("C06", "Reading from any reader equals unpacking the buffer",
 "Reading a message from an input stream gives the same value or error as unpacking the same bytes from memory, however the reader splits the data (down to single bytes, empty reads, or data returned together with the end of input) and whether or not it can read single bytes itself. Exactly the bytes of the message are consumed, so that messages written one after another are read back one by one, and an error of the reader is never reported as a regular end of input.",
 ["inputs","schedules","fault_sequences"], "All messages and all legal splittings of the stream, with read errors at any position.",
 "Tests read only from in-memory buffers, which always return everything at once.",
 ["msgpack.go","utils.go"], [("stream reader","msgpack.go messageIOUnpacker"),("entry","utils.go Read")], ["Read","MessageReader"])

prop("C07", "Values and buffers do not share memory unless asked to",
 "After unpacking with copying, from a reader, or creating a copied byte string, overwriting the input or reading further messages changes no decoded value. Bytes returned by packing, hashing or marshalling belong to the caller: overwriting them changes no value and no later result.",
 ["inputs","histories"], "All values, all later overwrites of the buffers involved, all later reads.",
 "Aliasing shows only when a buffer is modified afterwards, which no test does.",
 ["msgpack.go","unpack.go","string.go","bool.go","null.go","unknown.go","utils.go"], [("copy flag","msgpack.go messageBufUnpacker.Read, string.go Raw"),("fixed-size extensions","unpack.go doParse")], ["Unpack","Read","Raw","MarshalBinary"])

prop("C08", "Serialization is deterministic",
 "Equal content always serializes to the same bytes and the same JSON: it does not depend on the iteration order of the Go map a map is built from, on the order in which distinct keys were inserted or entries were supplied, on mutability, or on how often it is repeated, and keys appear in ascending order, entries of one key in the order they are supplied in. Marshalling to binary, packing, hexadecimal form, writing to a writer and the data returned with a hash all give the same bytes.",
 ["inputs","schedules","histories"], "All key and value sets, all map iteration orders, all insertion orders.",
 "Map iteration order is random per run; tests see a few orders of a few small maps.",
 ["immutablemap.go","sortedmap.go","sparselist.go","utils.go","number.go"], [("sorting on construction","immutablemap.go, sortedmap.go"),("sorted insertion","Insert/Put")], ["Pack","Jsonify","Hash","Hex","MarshalBinary"])

prop("C09", "Write errors are reported and stop the output",
 "When the underlying writer fails at any point, writing a value or a stream of values returns that error, nothing further is written after the failure, and what was written is a prefix of the packed form. Without a failure, exactly the packed form is written and no error is returned; a nil value is written as nil.",
 ["fault_sequences","inputs"], "All values, all positions at which the writer may fail.",
 "All tests write to a buffer that never fails.",
 ["msgpack.go","utils.go"], [("sticky error","msgpack.go messagePacker"),("entry","utils.go Write, WriteStream")], ["Write","WriteStream","MessagePacker"])

prop("C10", "Immutable lists and maps never change",
 "No sequence of operations on an immutable list or map, or on any list or map derived from it, changes its observable content: inserting, replacing, removing, bulk operations and in-place updates leave every earlier version as it was. Copying a mutable map into an immutable one isolates it from later in-place updates, and slices passed to bulk insertion are neither modified nor retained.",
 ["histories","inputs"], "All operation sequences over all versions of a persistent list or map.",
 "Sharing of backing arrays shows only when two versions are derived from one and both are inspected; tests check single chains.",
 ["immutablelist.go","immutablemap.go","mapentry.go","utils.go"], [("copy on write","immutablelist.go, immutablemap.go append/putAt/insertAt/removeAt/...")], ["Values","Entries","Pack"])

prop("C11", "Immutable list operations follow the sequence model",
 "After any sequence of operations an immutable list contains exactly what the same operations give on a mathematical sequence: append adds at the end, put replaces or extends with gaps, insert shifts, remove deletes, bulk insertion inserts all elements in order, out-of-range positions below zero change nothing, insertion beyond the end appends, and nil becomes null. All views (length, values, items, entries, element access, selection) agree with that sequence.",
 ["histories","inputs"], "All operation sequences with all positions (negative and past the end included) and all elements.",
 "Tests run a few fixed chains on lists of up to four elements.",
 ["immutablelist.go","listitem.go"], [("index arithmetic","immutablelist.go")], ["Values","Items","Entries","GetAt","Select"])

prop("C12", "Immutable map operations follow the sorted multimap model",
 "After any sequence of operations an immutable map contains exactly what the same operations give on a sorted multimap: put replaces or adds a key, insert keeps existing entries of the key and goes before them, remove deletes one entry of the key and bulk removal all of them, bulk insertion adds all in order, and operations on absent keys change nothing. Keys stay sorted, lookup finds a key exactly when it is present, and all views (length, keys, values, entries, hash map, selection) agree.",
 ["histories","inputs"], "All operation sequences with all keys (duplicates and the empty key included) and all values.",
 "Tests run a few fixed chains with two or three keys.",
 ["immutablemap.go","mapentry.go"], [("binary search","immutablemap.go"),("splicing","immutablemap.go insertAt/removeAt/insertSliceAt/removeSliceAt")], ["Entries","Get","Select","HashMap"])

prop("C13", "Mutable list operations follow the sequence model",
 "When always the latest returned list is used, a mutable list contains exactly what the same operations give on a mathematical sequence, with the same rules as the immutable list. All views agree, and slices passed to bulk insertion are neither modified nor retained.",
 ["histories","inputs"], "All linear operation sequences with all positions and elements, including spare capacity left by earlier removals.",
 "In-place appends over shared backing arrays misbehave only for particular remove/insert histories that tests do not contain.",
 ["solidlist.go","listitem.go"], [("in-place splicing","solidlist.go")], ["Values","Items","Entries","GetAt","Select"])

prop("C14", "Mutable sorted map operations follow the sorted multimap model",
 "When always the latest returned map is used, a mutable map contains exactly what the same operations give on a sorted multimap, with the same rules as the immutable map; keys stay sorted and all views agree.",
 ["histories","inputs"], "All linear operation sequences with all keys and values, including spare capacity left by earlier removals.",
 "In-place splicing misbehaves only for particular histories that tests do not contain.",
 ["sortedmap.go","mapentry.go"], [("binary search and in-place splicing","sortedmap.go")], ["Entries","Get","Select","HashMap"])

prop("C15", "Sparse list operations follow the sorted index multimap model",
 "When always the latest returned list is used, and whether or not fast appends are allowed, a sparse list contains exactly what the same operations give on a multimap from integer index to value kept in index order; append uses the index after the highest, or zero. Its length is one more than the highest index (zero if there is none), its values are the dense list of the non-negative indexes, and element access, items and selection agree.",
 ["histories","inputs","configurations"], "All linear operation sequences with all indexes, negative ones included, and both settings of fast appends.",
 "Tests use a handful of small positive indexes in one setting.",
 ["sparselist.go","listitem.go","api.go"], [("binary search and splicing","sparselist.go"),("fast appends","api.go AllowFastAppends")], ["Items","Values","Len","GetAt","Select"])

prop("C16", "In-place updates change exactly the addressed element",
 "Updating an existing element of a mutable list, map or sparse list calls the updater exactly once with the current value, stores its result (null for nil) and returns true; everything else is unchanged. For an absent position or key, and for every immutable collection, list item or map entry, it returns false, changes nothing and does not call the updater.",
 ["inputs","histories"], "All collections, positions, keys and updater results.",
 "Tests cover no in-place update of sparse lists and no absent keys.",
 ["solidlist.go","sortedmap.go","sparselist.go","listitem.go","mapentry.go","immutablelist.go","immutablemap.go"], [("update","UpdateAt/Update")], ["UpdateAt","Update"])

prop("C17", "Equality is an equivalence over all values",
 "Comparison never panics, is symmetric between any two values, and is reflexive except for NaN and collections containing it; it is transitive apart from the stated tolerance of doubles. Nil and null are equal, values of different kinds never are, numbers of different types compare by numeric value, strings by content whatever their type, lists, maps, items and entries by content whatever their mutability, and a sparse list equals another list exactly when they have the same items at the same indexes.",
 ["inputs"], "All pairs and triples of values of all kinds and types.",
 "Tests compare a value with its own copy; mixed types, mixed mutability and gaps are not compared.",
 ["utils.go","number.go","string.go","immutablelist.go","solidlist.go","sparselist.go","immutablemap.go","sortedmap.go","listitem.go","mapentry.go","null.go","bool.go","unknown.go"], [("comparison","Equal methods")], ["Equal"])

prop("C18", "Typed getters are total and convert as documented",
 "For any collection, any position or key and any stored value, typed access never panics: it returns the stored value when it has the wanted kind, the value parsed from its text form for booleans, numbers and strings, and false, zero, the empty string, list or map when it is absent or null. A list is converted to a map keyed by decimal index, and a map to the list of its values.",
 ["inputs"], "All collections of all five kinds holding values of any kind, all positions and keys, gaps included.",
 "Tests read back values with the type they were stored with.",
 ["immutablelist.go","immutablemap.go","solidlist.go","sortedmap.go","sparselist.go","number.go","bool.go","string.go"], [("conversion","Get* methods")], ["GetBool","GetNumber","GetString","GetList","GetMap"])

prop("C19", "JSON output is always well-formed and faithful",
 "The JSON of any value is a well-formed JSON document, whatever bytes its strings and map keys contain; NaN, infinities and null print as null. Decoding a JSON string or key gives back the original text with invalid UTF-8 replaced, lists keep their order and maps all their entries, and printing, marshalling and the text form of collections agree.",
 ["inputs"], "All values, all strings and keys, control characters and invalid UTF-8 included.",
 "Tests print a few ASCII strings.",
 ["string.go","number.go","immutablelist.go","immutablemap.go","solidlist.go","sortedmap.go","sparselist.go","unknown.go","bool.go","null.go","utils.go"], [("quoting","string.go"),("layout","PrintJSON methods")], ["Jsonify","MarshalJSON","String"])

prop("C20", "Text forms parse back, and parsing accepts any text",
 "The text form of every integer, big integer and decimal parses back to an equal number of the same type (a decimal with exponent zero comes back as the equal big integer), that of every boolean, byte string and null to the same boolean, bytes and null. Parsing a number, boolean or string from any text returns a result and never panics; text that is no number gives NaN, and the empty text zero.",
 ["inputs"], "All longs, big integers, decimals and byte strings, and all texts.",
 "Tests parse about a dozen literals; malformed hexadecimal forms and exponents are not tried.",
 ["number.go","string.go","bool.go","null.go"], [("hexadecimal format with exponent","number.go formatDecimal/parseHexNumber/parseExp"),("base64 prefix","string.go ParseString")], ["ParseNumber","ParseString","ParseBoolean","String"])

prop("C21", "Number conversion and arithmetic are exact",
 "Conversions between long, big integer and decimal are exact when the value fits, rounding of decimals to a big integer is downwards, and doubles convert by truncation where the result fits (NaN becomes zero, and so do infinities as a big integer or decimal). Addition and subtraction give the exact sum or difference in the type of the left operand (wrapping for longs, IEEE for doubles with NaN absorbing), never modify their operands, and for numbers other than doubles subtracting what was added gives back the original.",
 ["inputs"], "All pairs of numbers of all four types.",
 "Tests add a few small constants.",
 ["number.go"], [("arithmetic","Add/Subtract"),("conversion","Long/Double/BigInt/Decimal")], ["Add","Subtract","Long","BigInt","Decimal","Double"])

prop("C22", "Streams deliver every value once and in order",
 "Reading back a stream that was written value by value delivers exactly those values in order, closes the output once, and ends with the end-of-input error; nil is delivered as null. If the input is cut off, fails or is malformed inside a value, all complete values before it are delivered, the output is closed, and the error is not the regular end of input.",
 ["histories","crash_points","fault_sequences"], "All sequences of values and all points at which the stream may be cut off or fail.",
 "Tests stream a few values through a pipe without faults.",
 ["utils.go","msgpack.go","unpack.go"], [("stream loops","utils.go WriteStream/ReadStream")], ["WriteStream","ReadStream"])

prop("C23", "Structs round-trip by tag",
 "Packing an acyclic tagged struct and unpacking it into a new struct of the same type restores every field: absent (nil) fields stay absent, lists keep length and order whether repeated or not, nested and self-referential structs are restored recursively. Fields are written in ascending tag order, each with its tag; unknown tags, wrong types, wrong shapes, nil pointers and truncated or malformed input give an error and never a panic or a silently wrong field.",
 ["inputs","programs"], "All field contents of representative struct types covering every field form, and all byte inputs to unpacking.",
 "Tests use three struct types with one set of contents each; repeated plain fields, arrays, nil elements and malformed input are not covered.",
 ["struct.go"], [("schema by reflection","struct.go doReflectSchema"),("packing","struct.go doReflectPackStruct"),("unpacking","struct.go parseStruct")], ["PackStruct","UnpackStruct"])

prop("C24", "Sealed values open only intact and with the right keys",
 "Unsealing what was sealed for a recipient, with the matching keys, returns an equal value. Any change, truncation or extension of the sealed bytes, or a wrong key, returns the unseal error and no value, for input of any length; every sealing uses a fresh random nonce, prepended in full, and a failing random source is reported.",
 ["inputs","fault_sequences"], "All values, all sealed byte sequences, all keys and nonces; the authenticated encryption itself is taken as ideal.",
 "Tests seal one value and never tamper or truncate.",
 ["utils.go"], [("nonce framing","utils.go Seal/Unseal")], ["Seal","Unseal"])

prop("C25", "Reading immutable values from many goroutines is race-free",
 "All read operations on immutable values and collections, and packing, printing, comparing, decoding and struct packing in general, write to no memory that is visible to another goroutine except under synchronization. Deriving new versions from a shared immutable collection is likewise free of data races.",
 ["schedules","inputs"], "All interleavings of any read or derive operations on shared values.",
 "No test uses more than one goroutine on a value.",
 ["immutablelist.go","immutablemap.go","msgpack.go","number.go","string.go","struct.go","utils.go"], [("copy on write","immutablelist.go, immutablemap.go"),("schema cache","struct.go schemaCache")], ["Pack","Jsonify","Get","Put","PackStruct"])

prop("C26", "Decoding uses memory in proportion to the input",
 "Decoding never allocates more than a constant amount beyond a fixed multiple of the bytes actually received, whatever sizes the headers declare, from buffers, readers and into structs. Nesting beyond a fixed limit is an error and does not exhaust the stack.",
 ["inputs"], "All headers with all declared sizes and all nestings.",
 "No test decodes a header whose declared size is not backed by data.",
 ["unpack.go","msgpack.go","struct.go"], [("bounded preallocation","unpack.go initialCap, msgpack.go messageIOUnpacker.Read"),("nesting limit","unpack.go, struct.go")], ["Unpack","Read","UnpackStruct"])

prop("C27", "Token streams read back exactly as they were packed",
 "Any sequence of packer operations is read back, from memory or from a reader, as the same tokens with the same payloads followed by end of input. The parser returns each token's value, and sets (and keeps) an error when a header is of another kind or carries no valid value. A token that is cut off is reported as unexpected end of input, never as regular end or a shorter token; a packer whose writer failed keeps that error and writes nothing more. Whole values can be parsed in between tokens.",
 ["inputs","histories","fault_sequences"], "All sequences of token operations with all payloads, all cut points, all writer failures.",
 "Tests pack whole values; the packer, unpacker and parser interfaces are exported and are hardly used token by token.",
 ["pack.go","msgpack.go","unpack.go","api.go"], [("packer","msgpack.go messagePacker, messageWriter"),("unpacker","msgpack.go messageUnpacker, messageIOUnpacker"),("parser","msgpack.go messageParser")], ["Packer","Unpacker.Next/Read","Parser.Parse*","Parser.Error","Packer.Error"])

prop("C28", "Packed structs are ordinary values, and values fit structs",
 "Decoding the packed form of a tagged struct as a value gives the sparse list that holds every present field at the index of its tag (nested structs likewise, list fields as lists, repeated fields as several items at one index in order), or an empty map if no field is present. Conversely a struct is restored from the packed form of any such list, with its fields in any order and in any valid format. Reading a struct consumes exactly its bytes, so that values and structs can follow each other.",
 ["inputs","programs"], "All field contents and all orders and formats of representative struct types.",
 "Tests only unpack into the same struct type what the same build packed.",
 ["struct.go","unpack.go","sparselist.go"], [("packing","struct.go doReflectPackStruct"),("unpacking","struct.go parseStruct"),("sparse list from map","unpack.go doParseMap")], ["PackStruct","UnpackStruct","ParseStruct","Unpack","Parse"])

prop("C29", "A value's Go views agree with its content and type",
 "The constructors give a value of their kind with exactly the content they are given. For every value, constructed, decoded or taken out of a collection, Class is its dynamic type, the interface it implements, its kind and its number or string type agree, and Object is its content as a Go object (nil, bool, int64, float64, big.Int, decimal, string, bytes, elements, items or entries). The names of kinds and types are distinct.",
 ["inputs"], "All values of all kinds and origins.",
 "Tests check the kind and object of a few constants.",
 ["bool.go","null.go","number.go","string.go","unknown.go","immutablelist.go","solidlist.go","sparselist.go","immutablemap.go","sortedmap.go","api.go"], [("views","Kind, Class, Object, Type methods"),("constructors","Long, Double, BigInt, Decimal, Utf8, Raw, Unknown, Boolean")], ["Kind","Class","Object","Type","String of Kind and of types"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
