#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Binary round trip preserves every supported value",
  "For every supported Go type and every value of it that can be encoded, decoding the binary encoding (bare, length-prefixed or read from a stream) into a fresh variable of that type succeeds, consumes all bytes and yields an equal value. The only differences allowed are the documented normalisations: an empty slice, or a pointer to a zero number, empty string or empty slice, may come back nil; a nil time pointer comes back as 1970-01-01; times come back in UTC without a monotonic clock reading; and a value in an interface comes back as a pointer or not according to how its type was registered.",
  ["inputs","programs"],"every supported type (nested structs, pointers, lists, arrays, interfaces, custom-marshalled types, times, tag options) and every value of it, in every position (top level, field, element, interface value)",
  "The tests round-trip a few hand-written struct families with random values; they do not reach arbitrary compositions of types, tags, pointer depths, list nestings, more than 15 fields, multi-byte lengths, or registered non-struct types.",
  ["binary-encode.go","binary-decode.go","amino.go","reflect.go"],
  [("encodeReflectBinary* / decodeReflectBinary* mirror each other","binary-encode.go, binary-decode.go"),("default/empty value rules","reflect.go isDefaultValue, defaultValue, derefPointers*")],
  observe=["MarshalBinaryBare / UnmarshalBinaryBare results"])

p("C02","Binary encoding is deterministic and follows the wire format",
  "The binary encoding of a value is a function of the value, its type and the registrations alone: encoding it again, through a pointer, as a deep copy, on another codec with the same registrations, or after other traffic on the codec gives the same bytes. Those bytes are exactly the ones the documented wire format prescribes: ascending field keys, minimal varints, packed scalar lists, repeated byte-length elements, omitted default fields, registered prefix (and disambiguation) bytes.",
  ["inputs","programs","histories"],"every supported type and value, and every earlier use of the codec",
  "Tests compare bytes for a handful of literals; a consistent change of both encoder and decoder, or a dependence on pointers, addressability or earlier calls, passes every round-trip test.",
  ["binary-encode.go","encoder.go","amino.go","codec.go"],
  [("encodeReflectBinary*, writeFieldIfNotEmpty, encodeFieldNumberAndTyp3","binary-encode.go"),("typeToTyp3","reflect.go"),("field numbers and options","codec.go parseStructInfo")],
  observe=["bytes returned by MarshalBinaryBare"])

p("C03","JSON round trip preserves every supported value",
  "For every type that Amino JSON supports and every value of it, decoding the JSON that was produced from the value into a fresh variable succeeds and yields an equal value. The only differences allowed are: empty slices come back nil, nil maps come back empty, a pointer to a nil slice or nil pointer comes back nil, fields that omitempty left out come back as the zero value, times come back in UTC, and a value in an interface comes back as a pointer or not according to registration.",
  ["inputs","programs"],"every JSON-supported type (including string-keyed maps, interfaces, byte lists, floats marked unsafe, json.Marshaler and custom-marshalled types) and every value with valid UTF-8 strings",
  "The JSON tests use a few literals and the same few struct families; maps, escapes, 64-bit extremes, nested interfaces, omitempty and named types are sampled once or not at all.",
  ["json-encode.go","json-decode.go","amino.go","reflect.go"],
  [("encodeReflectJSON* / decodeReflectJSON*","json-encode.go, json-decode.go")],
  observe=["MarshalJSON / UnmarshalJSON results"])

p("C04","JSON output is valid, deterministic and in the documented form",
  "Every successful JSON encoding is one syntactically valid JSON text, identical every time the same value is encoded. It has the documented form: int, int64, uint and uint64 are quoted decimal strings and the other numbers are not, bytes are base64, nil is null, values of registered types in interfaces and at top level are wrapped as type and value with the registered name, struct fields appear in order under their JSON names, and times are UTC RFC 3339.",
  ["inputs","programs"],"every JSON-supported type, value and registered name, including names and strings that need escaping, and maps with any number of entries",
  "Tests compare a few literal strings, never a map with several keys, a name with special characters or arbitrary nesting; determinism over map iteration order needs many repetitions.",
  ["json-encode.go","amino.go"],
  [("encodeReflectJSON*, writeDisfixWrapper, sorted map keys","json-encode.go"),("MarshalJSONIndent","amino.go")],
  observe=["bytes returned by MarshalJSON"])

p("C05","Decoding arbitrary binary input never panics or hangs",
  "Given any bytes at all, decoding them in binary into a non-nil pointer to any supported type (bare, length-prefixed, or through the exported primitive decoders) returns either success or an error: it never panics, crashes or loops, and never reports success after reading past the given bytes. The input is as hostile as the sender likes: truncated, mutated, with lying lengths, huge counts, overlong varints or deep nesting.",
  ["inputs"],"every byte string and every supported target type",
  "The fuzz tests of the repository feed random bytes to a few struct types; hostile, structure-aware inputs into interfaces, lists of lists, arrays, times and custom-marshalled types are not tried.",
  ["binary-decode.go","decoder.go","amino.go"],
  [("length and EOF checks in decodeReflectBinary*, slide","binary-decode.go, reflect.go"),("Decode* primitives","decoder.go")],
  observe=["return or panic of UnmarshalBinaryBare, UnmarshalBinaryLengthPrefixed, Decode*"])

p("C06","Decoding arbitrary JSON input never panics or hangs",
  "Given any bytes at all, decoding them as JSON into a non-nil pointer to any supported type returns either success or an error: it never panics, crashes or loops. That holds for text that is not JSON, for JSON of an unexpected kind anywhere, for malformed type wrappers, and for numbers, times and base64 that are out of range or malformed.",
  ["inputs"],"every byte string and every JSON-supported target type",
  "Only a few malformed literals are tried by the tests, each against one type.",
  ["json-decode.go","amino.go"],
  [("decodeReflectJSON*, decodeInterfaceJSON, quoted integer handling","json-decode.go")],
  observe=["return or panic of UnmarshalJSON"])

p("C07","The binary decoder accepts exactly well-formed input",
  "Binary decoding succeeds exactly on the byte strings that are well-formed encodings for the target type, and then yields the one value they denote. Everything else is reported as an error: trailing or missing bytes, a wrong wire type, field numbers that are out of order, repeated or zero, lengths that do not match their contents, integers that overflow the target, booleans other than 0 and 1, arrays of the wrong length, times out of range, unknown or mismatching prefixes.",
  ["inputs","programs"],"every byte string, especially near-misses of valid encodings, and every supported target type",
  "Tests check that valid encodings are accepted and reject a handful of bad ones; silently accepting (or truncating, or misreading) a near-miss is invisible to them.",
  ["binary-decode.go","decoder.go","amino.go"],
  [("field order, wire type and leftover checks","binary-decode.go decodeReflectBinaryStruct/List/Interface"),("range checks","decoder.go")],
  observe=["UnmarshalBinaryBare verdict and value, against an independent reference decoder"])

p("C08","The length-prefixed stream reader obeys its contract",
  "Reading one length-prefixed value from any reader consumes exactly the prefix and body of that value and no byte more, however the reader splits its data, and reports the number of bytes it really consumed. It returns an error, without reading the body, for a prefix that is malformed or over the given size limit; it never reads more than the limit; it returns the reader's own error or an end-of-file error when the stream ends early; consecutive values on a stream are all read in order.",
  ["inputs","fault_sequences"],"every stream of values, every split into reads, every size limit, every point at which the reader fails or ends",
  "The tests read from in-memory buffers that deliver everything at once and never fail in between.",
  ["amino.go"],
  [("prefix loop, maxSize checks, body copy","amino.go UnmarshalBinaryLengthPrefixedReader")],
  observe=["calls on an instrumented io.Reader, returned n and err"])

p("C09","Length-prefixed framing is exact",
  "A length-prefixed encoding is the minimal varint of the length of the bare encoding followed by the bare encoding, and the writer variant delivers exactly these bytes to the writer and returns the count and error the writer reported. The length-prefixed decoder accepts a byte string only if its prefix equals the number of bytes that follow and these decode as the bare encoding; every shorter, longer or empty input is an error.",
  ["inputs","fault_sequences"],"every encodable value, every writer failure point, every truncation, extension or corruption of the prefix",
  "Tests frame a few values and never truncate, extend or corrupt the prefix systematically, nor use failing writers.",
  ["amino.go"],
  [("MarshalBinaryLengthPrefixed(Writer), UnmarshalBinaryLengthPrefixed","amino.go")],
  observe=["bytes seen by an instrumented io.Writer, decoder verdict"])

p("C10","Interfaces decode only to the registered type that was encoded",
  "A value stored in a registered interface decodes, in binary and in JSON, to exactly the concrete type that was encoded, as a pointer if the type was registered by pointer and as a value otherwise, and nil decodes to nil. No input can make the decoder put a type into an interface that is not registered or does not implement it; unregistered interfaces and unregistered concrete types are refused by both encoder and decoder.",
  ["inputs","configurations"],"every set of registrations (by value or pointer, structs and other kinds, several interfaces) and every input, including inputs that name a type of another interface",
  "Tests register a few struct types and round-trip them; inputs that name a type that is registered but does not implement the interface, and non-struct concrete types, are not tried.",
  ["codec.go","binary-decode.go","json-decode.go","reflect.go"],
  [("prefix/disfix/name lookup","codec.go getTypeInfoFrom*"),("constructConcreteType","reflect.go")],
  state=[("registrations","types known by name, prefix and interface","codec.go Codec")],
  observe=["dynamic type found in the decoded interface"])

p("C11","Registered names determine prefix and disambiguation bytes on the wire",
  "Prefix and disambiguation bytes are derived from the registered name as documented: SHA-256 of the name, leading zero bytes skipped, three disambiguation bytes, zero bytes skipped again, four prefix bytes. Registered values carry the prefix; values in an interface carry zero byte and disambiguation bytes before it exactly if the interface always disambiguates or another implementation registered on that codec has the same prefix, and then every implementation still decodes to itself.",
  ["inputs","configurations"],"every name, including names whose hash has zero bytes in the skipped positions, and every set of registrations with and without colliding prefixes",
  "The tests hash two names; collisions of four-byte prefixes and hashes with leading zeros never occur by chance and have to be searched for.",
  ["codec.go","binary-encode.go","binary-decode.go"],
  [("nameToDisfix","codec.go"),("disambiguation decision","binary-encode.go encodeReflectBinaryInterface"),("DecodeDisambPrefixBytes","binary-decode.go")],
  observe=["NameToDisfix, wire bytes, decoded dynamic types"])

p("C12","Registration is checked, atomic and leaves the codec usable",
  "A registration either succeeds and is in effect for all later calls, or panics and leaves the codec exactly as it was: types already registered or used, duplicate names, prefix conflicts that no priority list resolves, non-interfaces, interface pointers and pointer-pointers are refused, and well-formed new types under new names are not. After a refusal every earlier registration still encodes and decodes as before, later registrations still work and no call blocks; and the encodings do not depend on the order of the registrations.",
  ["histories","configurations"],"every sequence of registrations, valid and invalid, interleaved with encoding and decoding",
  "Tests try single invalid registrations and stop at the panic; what the codec does afterwards is not looked at.",
  ["codec.go"],
  [("addCheckConflictsWithConcreteNolock, checkConflictsInPrioNolock, setTypeInfoNolock","codec.go"),("deferred unlock","codec.go RegisterInterface/RegisterConcrete")],
  state=[("codec maps","typeInfos, interfaceInfos, concreteInfos, disfixToTypeInfo, nameToTypeInfo","codec.go Codec")],
  observe=["panics, and probes by encoding and decoding after each step"])

p("C13","A sealed codec refuses registrations and keeps working",
  "Once sealing a codec has returned, every later attempt to register an interface or a concrete type on it panics and changes nothing, also when registrations and sealing race. Encoding and decoding on a sealed codec work as on the same codec before sealing, and sealing is idempotent and returns the codec itself.",
  ["histories","schedules"],"every history of registrations, sealing and use, sequential or concurrent",
  "One test seals and registers once, sequentially; the window between check and registration needs concurrency.",
  ["codec.go"],
  [("sealed flag under the codec mutex","codec.go assertNotSealed, Seal")],
  state=[("sealed","no more registrations","codec.go Codec.sealed")],
  observe=["recorded history of Register*/Seal calls with call and return order, probes afterwards"])

p("C14","A codec is safe for concurrent use",
  "Any number of goroutines may encode, decode, register and print types on one codec at the same time without data races, deadlocks, crashes or lost registrations. Every encode and decode returns what it would have returned alone, including the first uses of a type. The codec may also be used by the marshalling methods, readers and writers that it calls.",
  ["schedules","histories"],"every interleaving of encoding, decoding, registration and printing on a shared codec, including concurrent first use of the same types",
  "No test uses a codec from two goroutines.",
  ["codec.go","binary-encode.go","json-encode.go","binary-decode.go"],
  [("Codec.mtx","codec.go getTypeInfoWlock, getTypeInfoFrom*Rlock, Register*"),("lazily cached type info","codec.go getTypeInfoWlock")],
  state=[("type info cache","filled at first use of a type","codec.go Codec.typeInfos")],
  observe=["race detector reports; results of every operation"])

p("C15","DeepCopy returns an equal and fully independent copy",
  "A deep copy of any supported value has the same type and is equal to the original, keeping nil and empty apart, and the original is not changed by copying. Original and copy share no mutable memory: changing anything reachable from one is never visible in the other. Types that define their own copying, or a marshal and unmarshal pair, are copied with it wherever they occur.",
  ["inputs","programs"],"every supported type and value: nested pointers, slices, maps, interfaces, arrays, cyclic-free graphs, custom copiers in every position",
  "The tests copy a few values and compare; aliasing is checked for one or two shapes only.",
  ["deep_copy.go"],
  [("_deepCopy per kind","deep_copy.go"),("callDeepCopy, callAminoCopy","deep_copy.go")],
  observe=["copy, compared and checked for shared memory with the original"])

p("C16","Exported primitive codecs are exact inverses",
  "Each exported primitive encoder writes the documented byte form, the matching decoder restores the same value and reports exactly the number of bytes written whatever follows (a time, which is a list of fields without an end mark, extends to the end of the input or the first field that is not its own), and the size functions return that number. Each decoder reports an error, and never a wrong value or a count beyond the input, for truncated, overflowing and out-of-range input, and the encoders report the writer's errors.",
  ["inputs","fault_sequences"],"every value of every primitive type (8 and 16 bit ones completely), every truncation and overlong form, every writer failure",
  "Tests try a few values of a few primitives.",
  ["encoder.go","decoder.go"],
  [("Encode*/Decode*/…Size","encoder.go, decoder.go")],
  observe=["bytes, n and err of each call"])

p("C17","Times keep their instant within the supported range",
  "Every instant from year 1 through year 9999, in any time zone and with or without a monotonic reading, encodes and decodes to the same instant with nanosecond precision, in UTC; instants outside that range are refused on binary encoding and, with nanoseconds outside 0 to 999999999, on decoding; JSON refuses years outside 0 to 9999. Encodings of one instant are identical whatever its time zone, and 1970-01-01 is the default that is omitted.",
  ["inputs"],"every instant and zone, and every encoded pair of seconds and nanoseconds, alone and as field, element, pointer or interface content",
  "Tests try a handful of instants around the epoch and the limits.",
  ["encoder.go","decoder.go","reflect.go","json-encode.go","json-decode.go"],
  [("EncodeTime/DecodeTime, decodeSeconds, decodeNanos","encoder.go, decoder.go"),("defaultValue","reflect.go")],
  observe=["decoded time, bytes, errors"])

p("C18","Structs can be extended by appending fields",
  "Data encoded from a struct type with additional trailing fields decodes into the type without them, leaving out just these fields, and data encoded without them decodes into the longer type with default values there, in binary at any depth of nesting; the same holds in JSON for fields that are unknown or missing. Unknown trailing fields are skipped only if they are well-formed.",
  ["inputs","programs"],"every struct type, every list of appended fields, every value, at every nesting depth",
  "One test decodes a longer struct into a shorter one.",
  ["binary-decode.go","json-decode.go"],
  [("trailing field loop, consumeAny","binary-decode.go"),("defaults for missing fields","binary-decode.go, json-decode.go")],
  observe=["decoded value of the other version"])

p("C19","Binary encodings are compatible with protocol buffers",
  "For types that have a proto3 counterpart, protobuf decodes Amino's encoding to the same field values, and Amino decodes what protobuf encodes for values in canonical form. The encoding of every struct is a well-formed proto3 message with the documented field numbers and wire types.",
  ["inputs","programs"],"every struct type with a proto3 counterpart (integers, fixed-width integers, floats, bool, strings, bytes, timestamps, nested and repeated fields) and every value",
  "The compatibility tests compare a few literals per feature, and those that need extremes or combinations of features are missing.",
  ["binary-encode.go","binary-decode.go","encoder.go"],
  [("wire types and field keys","binary-encode.go encodeFieldNumberAndTyp3, reflect.go typeToTyp3"),("packed and repeated lists","binary-encode.go encodeReflectBinaryList")],
  observe=["golang/protobuf Marshal/Unmarshal on mirrored messages; an independent wire parser"])

p("C20","Encoding and decoding leave their inputs alone",
  "Encoding, in binary or JSON, never modifies the value that is encoded, and decoding never modifies the input bytes. What they return shares no memory with their input, with the codec or with earlier results, and the parts of a decoded value share none with each other: overwriting the input bytes, the encoded value or a returned slice afterwards changes nothing else.",
  ["inputs","histories"],"every type, value and input, valid or not",
  "No test looks at the inputs after a call or at memory shared between input and output.",
  ["amino.go","binary-decode.go","binary-encode.go","json-decode.go","decoder.go"],
  [("copy in DecodeByteSlice","decoder.go"),("fresh buffers","amino.go")],
  observe=["snapshots of input and value before and after; results after scribbling over the inputs"])

p("C21","Custom marshalling hooks are honoured everywhere",
  "A type that defines Amino marshalling is encoded, in binary and JSON, as the representation its method returns (with the field key of the Go type, which has to be of the same wire class) and decoded by passing the decoded representation to its unmarshalling method, wherever the value occurs: top level, field, pointer, list or array element, map value, interface value. An empty or missing representation, and JSON null, give the zero value. A type with its own JSON methods is written and read with those in JSON. An error returned by any of these methods makes the whole call fail with it.",
  ["inputs","programs"],"every type with such methods, in every position, every value, every failing call",
  "Tests use the hooks at a few positions and never make them fail.",
  ["binary-encode.go","binary-decode.go","json-encode.go","json-decode.go","codec.go","reflect.go"],
  [("IsAminoMarshaler/IsAminoUnmarshaler","codec.go newTypeInfoUnregistered"),("toReprObject","reflect.go")],
  observe=["calls recorded by the hooks, encodings of value and representation"])

p("C22","All entry points for the same operation agree",
  "The Must variants return the same results and panic exactly when the plain ones return an error; package-level functions behave like the methods of a fresh codec; length-prefixed, writer and reader variants agree with the bare ones; encoding a pointer, or a pointer to a pointer, is encoding the value; indented JSON differs from JSON in white space only. Decoding through a non-pointer is refused with an error.",
  ["inputs","programs"],"every supported type, value and input, through every exported entry point",
  "Most of the entry points are called in tests with one or two values, and never compared.",
  ["amino.go"],
  [("wrappers","amino.go")],
  observe=["results of all entry points for the same value or input"])

p("C23","What cannot be encoded is reported, never silently dropped",
  "Values that have no encoding (channels, functions, complex numbers, non-empty maps in binary, maps without string keys in JSON, floats without the unsafe option, lists of lists other than of bytes outside of a struct field in binary, values of unregistered types in interfaces, nil pointers in interfaces, nil pointers at top level in binary, times out of range, nil struct elements where empty elements are kept, values whose own marshalling method fails) make the encoder fail with an error or panic wherever they occur in a value, and never yield a partial encoding reported as success, nor is anything written to a writer. The codec works as before afterwards.",
  ["inputs","programs"],"every position of an unencodable value inside any supported value",
  "Tests try a few of these at one position each and do not use the codec afterwards.",
  ["binary-encode.go","json-encode.go","codec.go","reflect.go","encoder.go"],
  [("unsupported kinds","reflect.go typeToTyp3, checkUnsafe; binary-encode.go default cases")],
  observe=["error or panic of each call, later use of the codec"])

p("C24","Field tags have exactly their documented effect",
  "Each field option changes the encoding of its own field as documented and nothing else: json \"-\" leaves a field out of both formats and of the numbering, a JSON name renames it, omitempty leaves out just zero and empty values, fixed32 and fixed64 select little-endian fixed-width integers, unsafe permits floats, write_empty writes default values, empty_elements keeps empty struct elements of pointer lists. Unexported fields are never encoded, decoded, or counted.",
  ["inputs","programs","configurations"],"every combination of options on every field of every struct type, and every value",
  "Tests use each tag in one or two structs, not in combination with every kind of field and neighbours.",
  ["codec.go","binary-encode.go","binary-decode.go","json-encode.go","json-decode.go"],
  [("parseFieldOptions, parseStructInfo","codec.go"),("WriteEmpty/EmptyElements handling","binary-encode.go, binary-decode.go")],
  observe=["encodings compared with a model per option"])

p("C25","aminoscan shows every byte of its input and never crashes",
  "Given any hex-encoded bytes, the scan tool ends without a crash and prints the input bytes completely and in order: those it could parse as fields and those left over. It shows for each well-formed field the field number, wire type and value that are in the input, reports an error if and only if the bytes are not a sequence of well-formed fields, and prints the disambiguation and prefix bytes of a given name.",
  ["inputs"],"every byte string and name",
  "The tool has no tests.",
  ["cmd/aminoscan/aminoscan.go"],
  [("scanStruct, scanFieldKey, scanAny","cmd/aminoscan/aminoscan.go")],
  observe=["exit status and output of the built tool"])

p("C26","Decoding needs memory in proportion to the input",
  "The memory allocated while decoding any input, valid or hostile, is bounded by a constant per input byte that depends on the target type alone: lengths and counts claimed by the input do not make the decoder allocate, and nesting does not multiply the cost. Reading from a stream allocates in proportion to what arrived, not to what the length prefix claims.",
  ["inputs"],"every input, including those that claim huge lengths, deep nesting, or many empty elements",
  "Tests never measure allocation and use small honest inputs.",
  ["decoder.go","binary-decode.go","amino.go","json-decode.go"],
  [("length check before allocation","decoder.go DecodeByteSlice"),("growing buffer","amino.go UnmarshalBinaryLengthPrefixedReader")],
  observe=["bytes allocated during the call"])

p("C27","PrintTypes lists every registered concrete type",
  "The printed table has the header and then exactly one row per registered concrete type, in order of registration, with its Go type name, registered name, prefix bytes and length (the size in hex for types of fixed size, else the word variable), whatever else was registered, used or refused. If the writer fails, its error is returned.",
  ["histories","configurations","fault_sequences"],"every sequence of registrations and uses, and every failing write",
  "One test prints two fixed types to a buffer.",
  ["codec.go"],
  [("PrintTypes, getLengthStr","codec.go")],
  observe=["bytes written to an instrumented writer"])

p("C28","Decoding does not depend on what the target held before",
  "Decoding successfully into a variable that already holds a value gives the same result as decoding the same bytes into a fresh variable: nothing of the old contents of lists, maps, pointers, strings, numbers or nested structs shines through. The exceptions are documented: fields that are not encoded at all and JSON omitempty fields that are absent keep their value, and a non-nil interface is refused by the binary decoder. An omitted nested struct may keep or clear its fields that are not encoded. Memory that the old value shares with others is not written to by lists and bytes.",
  ["inputs","histories"],"every type, every pair of old and new value, binary and JSON",
  "Tests decode into fresh variables.",
  ["binary-decode.go","json-decode.go","amino.go"],
  [("fresh slices, zeroing of omitted fields","binary-decode.go, json-decode.go")],
  observe=["decoded value with a dirty and with a fresh target"])

p("C29","The JSON decoder accepts only input of the right form",
  "JSON decoding reports an error, rather than a wrong value, for input that does not have the form of the target type: unquoted 64-bit integers, quoted smaller ones, numbers that are fractional or out of range, wrong JSON kinds, arrays of the wrong length, malformed base64, times that are not UTC, type wrappers that are missing, incomplete, or name another or an unknown type, floats that are not allowed, and trailing data. Documented leniency stays: null gives the zero value, missing fields are zero, unknown fields are ignored.",
  ["inputs","programs"],"every near-miss of a valid JSON encoding, at every position, for every JSON-supported type",
  "Tests reject a few literals, each against one type and at top level.",
  ["json-decode.go","amino.go"],
  [("decodeReflectJSON*, decodeInterfaceJSON","json-decode.go")],
  observe=["UnmarshalJSON verdict and value, against a reference model"])

p("C30","Using a codec does not make it grow",
  "What a codec and the package keep in memory depends on the types that were registered and used, and not on how often, or with which contents, they are used: encoding, decoding, copying, printing and looking up names, successful or refused, with any values, names, prefix bytes, keys and field numbers, failing readers, writers and hooks, refused registrations, and whole codecs that are dropped leave neither memory nor goroutines behind.",
  ["histories","inputs","fault_sequences"],"every sequence of calls of any length, with trusted or hostile contents",
  "Tests make a few calls each and never look at what stays behind; a cache, list or goroutine per call shows only after very many calls.",
  ["codec.go","amino.go","binary-decode.go","json-decode.go","deep_copy.go"],
  [("type information is kept per type","codec.go getTypeInfoWlock, setTypeInfoNolock"),("lookups by name and prefix bytes that are in the input","codec.go getTypeInfoFrom*")],
  observe=["live heap and goroutines after many calls"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
