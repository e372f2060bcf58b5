#!/usr/bin/env python3
"""Writes properties.jsonl (the property texts live here so that they can be edited readably)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = state
    P.append(d)

ABI = ["pkg/abi/encode.go", "pkg/abi/decode.go"]
CH = "pkg/chain/"

p("C01", "A reader, writer or callback failure always surfaces as an error",
  "If the underlying reader or writer, a user-supplied marshal/unmarshal method or a custom encode/decode callback returns an error anywhere inside an encode or decode call, that outermost call returns a non-nil error. The only exception is a clean end of input met exactly at the start of a field marked as an extension.",
  ["fault_sequences", "inputs"], "every reader/writer error at every byte position of every value, through every encode/decode entry point",
  "Tests use in-memory buffers that never fail; only a handful of truncated inputs are tried, and none fails a writer in the middle of a value.",
  ABI + [CH+"action.go", CH+"transaction.go", CH+"abi.go", CH+"public_key.go", CH+"signature.go"],
  [("error results are checked and returned", "every MarshalABI/UnmarshalABI method, Encode/Decode, EncodeValue/DecodeValue, encodeType/decodeType")],
  ["error result of Encoder.Encode, Decoder.Decode, Abi.Encode, Abi.Decode, MarshalABI, UnmarshalABI"])

p("C02", "Primitive values have the EOSIO wire layout in both directions",
  "Each primitive write method of the encoder emits exactly the EOSIO layout for every value: fixed-width integers and floats little-endian in their natural width, booleans as one byte 0 or 1, varuint32 as unsigned LEB128, varint32 as zig-zag LEB128, strings and byte strings as varuint32 length followed by the bytes. Values outside 32 bits are rejected by the variable-length writers. Each primitive read method consumes exactly that layout and returns the value it denotes, rejecting variable-length integers wider than 32 bits.",
  ["inputs"], "all values of every primitive type (all 2^64 integers, all strings of any length)",
  "Tests sample a few values per type; layout errors limited to particular bits, signs or magnitudes go unnoticed.",
  ABI, [("Write*/Read* methods", "pkg/abi/encode.go, pkg/abi/decode.go")],
  ["bytes passed to the io.Writer", "values returned by Read*"])

p("C03", "Chain types have their EOSIO binary layout when encoded and decoded",
  "For every value of every chain type with its own binary form (name, symbol, symbol code, asset, extended asset, time types, block number, 64/128-bit integers, float128, checksums, bytes, blob, public key, signature, permission level, action, transaction header, extension and transaction), marshalling writes exactly the EOSIO layout: fields in protocol order with protocol widths and length prefixes. Unmarshalling reads exactly that layout and puts each part into the field it was written from.",
  ["inputs"], "all values of all chain types, any number of actions, authorizations and extensions",
  "Tests check one or two encodings per type; swapped fields of equal width, wrong widths for rarely used key types, or loops that skip elements are not exercised.",
  [CH+f for f in ["name.go","symbol.go","asset.go","time.go","numbers.go","checksum.go","bytes.go","blob.go","public_key.go","signature.go","action.go","transaction.go"]],
  [("MarshalABI/UnmarshalABI methods", "pkg/chain/*.go")], ["bytes written", "fields after decoding"])

p("C04", "Reflection encodes composite Go types to the documented layout and back",
  "Values without their own marshalling are encoded by shape: structs as their fields in declaration order, slices as a varuint32 count followed by the elements, arrays as elements without a count, pointers as the value pointed to, fields tagged optional as a presence byte followed by the value if present, fields tagged variant as an index byte followed by the set alternative, named integer types as the integer of their width. Decoding the same Go type consumes exactly that layout and restores every element and field; types that cannot be represented give an error.",
  ["inputs", "configurations"], "all values of structs, slices, arrays, pointers, optionals and variants nested in each other",
  "Tests use a few hand-written structs with short contents.",
  ABI, [("EncodeValue / DecodeValue / EncodeVariant / DecodeVariant", "pkg/abi/encode.go, pkg/abi/decode.go")],
  ["bytes written by Encoder.Encode", "value after Decoder.Decode"])

p("C05", "ABI builtin type names encode and decode with their EOSIO layout",
  "For each builtin ABI type name, ABI-driven decoding reads the EOSIO layout of that type and yields a Go value of one fixed type, and ABI-driven encoding of any value of that Go type writes the same layout. Encoding a value of any other Go type (except that uint64 also accepts a plain uint64 and bytes a []byte), or coding a value of a type name that is neither builtin nor defined, gives an error and never succeeds silently.",
  ["inputs"], "all builtin type names times all values",
  "The tests name only some of the builtins and check each with a single value.",
  [CH+"abi.go"], [("encodeInner/decodeInner builtin switches", "pkg/chain/abi.go")],
  ["Abi.Encode", "Abi.Decode"])

p("C06", "ABI-defined arrays, optionals, structs, variants and aliases keep their layout",
  "ABI-driven coding treats T[] as varuint32 count plus elements, T? as presence byte plus value, T$ as a value that may be missing at the end of input, aliases as their target, structs as all fields of the base struct (recursively) followed by their own fields in order, and variants as varuint32 index of the alternative plus its value. Decoding yields a list, nil or value, a map with one entry per field, or a [type name, value] pair, and encoding that result reproduces the bytes. Missing non-optional fields, unknown alternatives and out-of-range indices give an error.",
  ["inputs", "configurations"], "all values for ABI definitions built from arrays, optionals, extensions, structs with bases, variants and aliases",
  "Tests cover a few fixed definitions; suffix combinations, inheritance order and index handling are sampled once or not at all.",
  [CH+"abi.go"], [("resolver.resolve, allFields, encodeType/encodeInner, decodeType/decodeOuter/decodeInner", "pkg/chain/abi.go")],
  ["Abi.Encode", "Abi.Decode", "Abi.EncodeAction", "Abi.DecodeAction"])

p("C07", "Every encoding route for a chain type gives the same result",
  "Encoding a chain type through a chain encoder, directly, by pointer, or as a field of a struct or element of a slice, writes the same bytes as its own marshal method, and decoding behaves likewise with its own unmarshal method. A custom codec callback is always consulted first: when it reports a value as handled or fails, its outcome is final, and otherwise the standard handling applies.",
  ["inputs", "configurations"], "every chain type, every route, every callback outcome",
  "Tests encode most types through one route only and use one trivial callback.",
  [CH+"encoding.go", "pkg/abi/encode.go", "pkg/abi/decode.go"],
  [("chainEncoder/chainDecoder type switches, NewCustomEncoder/NewCustomDecoder, Encode/Decode prologue", "pkg/chain/encoding.go, pkg/abi")],
  ["NewEncoder(w).Encode", "NewDecoder(r).Decode", "NewCustomEncoder", "NewCustomDecoder"])

p("C08", "Decoding arbitrary bytes never panics",
  "Decoding any byte sequence into any chain type, or by ABI for any type name and ABI definition, returns a value or an error: no index or slice out of range, nil dereference, division by zero, failed type assertion, oversized allocation request or explicit panic is reachable from the input. The same holds for rendering the decoded value as text or JSON.",
  ["inputs"], "all byte sequences",
  "Tests decode well-formed data and a few truncations.",
  ["pkg/abi/decode.go", CH+"abi.go", CH+"public_key.go", CH+"signature.go", CH+"asset.go", CH+"symbol.go"],
  [("length and range checks before indexing", "ReadBytes, ReadVaruint, decodeInner, Asset.String")],
  ["Decoder.Decode", "Abi.Decode", "String/MarshalText of decoded values"])

p("C09", "Parsing arbitrary text never panics",
  "Parsing any string as a name, asset, symbol, symbol code, time, integer, checksum, bytes, blob, key or signature, including base58 and JSON forms, returns a value or an error and never panics, except through the documented convenience constructors that panic on invalid input.",
  ["inputs"], "all strings, including empty, very short and non-ASCII ones",
  "Tests parse valid texts and a few chosen invalid ones.",
  [CH+f for f in ["name.go","asset.go","symbol.go","time.go","numbers.go","checksum.go","bytes.go","blob.go","public_key.go","signature.go"]]+["pkg/base58/base58.go","pkg/base58/base58check.go"],
  [("length checks before indexing", "New*FromString, UnmarshalText, UnmarshalJSON, base58.Decode, CheckDecode*")],
  ["New*FromString", "UnmarshalText", "UnmarshalJSON", "base58.Decode"])

p("C10", "A length prefix alone never decides how much memory is allocated",
  "While decoding, the memory requested before the corresponding input bytes have been read is bounded by a fixed constant: a length or count taken from the input never becomes the size of an allocation unless it is first capped by a constant.",
  ["inputs"], "all inputs, all claimed lengths up to 2^32-1",
  "A test would have to claim gigabytes to notice; none does.",
  ["pkg/abi/decode.go", CH+"abi.go", CH+"transaction.go", CH+"action.go"],
  [("maxPrealloc cap, append-as-read loops", "ReadBytes, DecodeValue, Transaction.UnmarshalABI")],
  ["allocation sizes during Decode"])

p("C11", "Nesting of decoded values and type definitions is bounded by an error",
  "Every recursion that decoding, or ABI-driven encoding, can enter under control of the input data or of an ABI definition passes through a depth check with a fixed limit that returns an error, or visits every type definition at most once, so no input or definition exhausts the stack.",
  ["inputs", "configurations"], "all inputs and all (also cyclic) ABI definitions and recursive Go types",
  "Tests nest a few levels deep at most.",
  ["pkg/abi/decode.go", CH+"abi.go"],
  [("maxDepth / maxAbiDepth counters; memoised resolver", "Decoder.Decode, encodeType, decodeType, resolver.resolve")],
  ["Decoder.Decode", "Abi.Decode", "Abi.Encode"])

p("C12", "Decoding does not depend on what the destination held before",
  "After a successful decode into an existing variable the value equals the one obtained by decoding the same bytes into a fresh variable: no element, field or optional of the old contents survives.",
  ["inputs", "histories"], "all inputs times all previous contents of the destination",
  "Tests decode into zero values only.",
  ["pkg/abi/decode.go", CH+"action.go", CH+"transaction.go", CH+"public_key.go", CH+"signature.go", CH+"asset.go"],
  [("UnmarshalABI methods assign every field", "pkg/chain/*.go, DecodeValue")],
  ["destination after Decode/UnmarshalABI"])

p("C13", "A rejected text leaves the destination unchanged and reports an error",
  "When parsing text or JSON into an existing value fails, an error is returned and the value keeps its previous contents; a successful parse replaces the value completely with the parsed one.",
  ["inputs"], "all malformed texts times all types with a text or JSON form",
  "Tests assert errors for a few malformed texts and never look at the destination afterwards.",
  [CH+f for f in ["name.go","asset.go","symbol.go","time.go","numbers.go","checksum.go","bytes.go","blob.go","public_key.go","signature.go"]],
  [("assign only after the parse succeeded", "UnmarshalText/UnmarshalJSON methods")],
  ["destination after UnmarshalText/UnmarshalJSON"])

p("C14", "Memory passed in by the caller is neither modified nor retained",
  "Encoding, hashing, checksumming, formatting and parsing never write to the byte slices, strings or values they are given, and parsed or decoded results never share memory with the input text or buffer, so later changes by the caller cannot alter them.",
  ["inputs", "histories"], "all inputs, any later mutation of the buffers",
  "Tests do not mutate or re-inspect their inputs.",
  ["pkg/abi/encode.go", "pkg/base58/base58check.go", "pkg/ripemd160/ripemd160.go", CH+"bytes.go", CH+"blob.go", CH+"checksum.go"],
  [("copies before appending or storing", "CheckEncode*, UnmarshalText, UnmarshalABI")],
  ["caller's slices after the call"])

p("C15", "The same value always encodes to the same bytes and text",
  "Encoding, hashing and formatting depend only on the value: no output depends on map iteration order, the clock, the local time zone, random numbers, the environment or addresses.",
  ["inputs", "histories", "configurations"], "all values, all runs and all host configurations",
  "Map order and time zone effects show only in some runs or on some hosts.",
  ["pkg/abi/encode.go", CH+"time.go", CH+"abi.go"],
  [("sorted map keys, UTC formatting", "EncodeValue, TimePoint.String")],
  ["bytes written", "String/MarshalText output"])

p("C16", "Independent encoders and decoders share no mutable state",
  "No package-level variable is written after initialisation by any library operation, neither directly nor through a pointer (state that the sync package guards, such as a sync.Pool or what a sync.Once fills in, excepted, as long as memory handed back to a pool is not also returned to a caller), so independent encoders, decoders, hashes and conversions can run concurrently.",
  ["schedules"], "all interleavings of operations on distinct objects",
  "Tests are sequential.",
  ["pkg/abi/", "pkg/chain/", "pkg/base58/", "pkg/ripemd160/"],
  [("package variables are read-only tables", "base58.bigRadix, b58, base32Alphabet, ripemd160 tables, maxInt128")],
  ["package-level variables"])

p("C17", "Names convert between text and 64 bits by the EOSIO base-32 packing",
  "For every string, the name holds in its top 60 bits the 5-bit codes of the first twelve characters ('.'=0, '1'-'5'=1-5, 'a'-'z'=6-31, anything else 0, missing characters 0) and in its low 4 bits the low bits of the thirteenth. For every 64-bit value, the text form lists the thirteen characters by the same alphabet with trailing dots removed.",
  ["inputs"], "all strings and all 2^64 values",
  "Tests convert a few names; errors in single positions, the thirteenth character or dot trimming are missed.",
  [CH+"name.go"], [("stringToName/nameToString bit packing", "pkg/chain/name.go")],
  ["NewName", "N", "Name.String", "Name text forms"])

p("C18", "Symbols are validated and packed as precision byte plus up to seven letters",
  "A symbol is accepted exactly when its precision is at most 18 and its name consists of at most seven letters A-Z, and is packed with the precision in the lowest byte and the i-th letter in byte i+1. Decimals, code and name extract exactly those parts of any 64-bit value, and asset parsing and symbol text parsing go through the same validation.",
  ["inputs"], "all precisions, names and 64-bit values",
  "Tests check a few symbols and one or two invalid ones.",
  [CH+"symbol.go", CH+"asset.go"], [("rawSymbolValue validation and packing", "pkg/chain/symbol.go")],
  ["NewSymbol", "NewSymbolFromString", "Symbol.Name", "Symbol.Code", "Symbol.Decimals"])

p("C19", "Key and signature texts are released only after their checksum verifies",
  "Parsing a public key or signature text succeeds only if the last four decoded bytes equal the first four bytes of the checksum over all preceding bytes followed by the key-type suffix (none for legacy keys, double SHA-256 for plain checked base58), and the parsed data is exactly those preceding bytes with the type named in the prefix. Formatting emits the same prefix, type, payload and checksum, so the type letters, the checksum suffix and the binary type tag always denote the same key type.",
  ["inputs"], "all texts, all payload lengths, all key types",
  "Tests parse a few valid keys of one type and one corrupted checksum.",
  ["pkg/base58/base58check.go", CH+"public_key.go", CH+"signature.go", CH+"key_type.go"],
  [("CheckDecode*/CheckEncode*, type switches", "pkg/base58/base58check.go, pkg/chain")],
  ["NewPublicKeyFromString", "NewSignatureString", "String", "LegacyString"])

p("C20", "Time types convert with their EOSIO unit, epoch and UTC text form",
  "A time point counts microseconds and a time point (sec) seconds since the Unix epoch, a block timestamp counts half seconds since 2000-01-01T00:00:00Z; conversions from and to time values use exactly these units, and text forms are UTC with an optional trailing Z accepted. Text outside the range of the type is rejected.",
  ["inputs", "configurations"], "all representable times in every time zone",
  "Tests convert a few instants in one time zone.",
  [CH+"time.go"], [("New*/Time/String conversions", "pkg/chain/time.go")],
  ["NewTimePoint...", "Time()", "String()", "UnmarshalText"])

p("C21", "Base58 decoding is positional over exactly the Bitcoin alphabet",
  "Base58 decoding gives each of the 58 alphabet characters its index, rejects every other byte anywhere in the text, sums the digits with their power of 58 across all chunk boundaries, and yields one leading zero byte per leading '1'.",
  ["inputs"], "all bytes at all positions of texts",
  "Tests decode a dozen strings.",
  ["pkg/base58/base58.go", "pkg/base58/alphabet.go"], [("digit table and chunked accumulation", "base58.Decode")],
  ["base58.Decode"])

p("C22", "Decoding does not depend on how the reader splits the data",
  "All input is consumed through full reads: a reader that returns data in arbitrarily small pieces gives the same results as one that returns it at once, and a short read is never taken for a complete one.",
  ["schedules", "inputs"], "all ways a reader can split its data",
  "Tests use in-memory readers that return everything at once.",
  ["pkg/abi/decode.go"], [("io.ReadFull / io.CopyN", "Decoder.ReadBytes")],
  ["Decoder.Read*", "Decoder.Decode"])

p("C23", "64-bit integers and block numbers keep their value in JSON",
  "64-bit unsigned integers and block numbers are written to JSON as plain decimal numbers up to 2^32-1 and as quoted decimal strings above, both forms are accepted when reading, the exact value is kept, and a block number above 2^32-1 is rejected.",
  ["inputs"], "all 2^64 values and both notations",
  "Tests check a couple of values per notation.",
  [CH+"numbers.go"], [("writeUintJSON/readUintJSON", "pkg/chain/numbers.go")],
  ["MarshalJSON", "UnmarshalJSON"])

p("C24", "A missing extension is accepted, a truncated one never is",
  "When the input ends exactly before a field or type marked as an extension, decoding succeeds and the field holds its zero value or nil; when the input ends inside it, or before or inside any field not marked as an extension, decoding fails.",
  ["inputs", "fault_sequences"], "every truncation point of values with extension fields, in Go structs and in ABI definitions",
  "Tests cut one struct at one place.",
  ["pkg/abi/decode.go", CH+"abi.go"], [("position check around extension fields", "DecodeValue, decodeType")],
  ["Decoder.Decode", "Abi.Decode"])

p("C25", "Digests are the named hash of exactly the message",
  "The action digest is the SHA-256 of the action's complete binary encoding, and the checksum digest functions return the full RIPEMD-160, SHA-256 and SHA-512 of exactly the bytes given.",
  ["inputs"], "all actions and messages",
  "Tests check one digest per function.",
  [CH+"action.go", CH+"checksum.go"], [("Digest / Checksum*Digest", "pkg/chain")], ["Action.Digest", "Checksum*Digest"])

p("C26", "128-bit integers map limbs, bytes and big integers consistently",
  "A 128-bit integer's high and low halves are the upper and lower 64 bits of the value: byte output in either order, construction from a big integer and conversion back all use the same placement, signed values in two's complement, and constructing from text rejects everything outside the type's range.",
  ["inputs"], "all 2^128 values",
  "Tests check a few values near the limits.",
  [CH+"numbers.go"], [("NewUint128/Bytes/BigInt", "pkg/chain/numbers.go")], ["Uint128", "Int128"])

p("C27", "RIPEMD-160 implements the published algorithm and hash.Hash contract",
  "The RIPEMD-160 compression function computes the published five-round double-line function for every state and block, padding and length encoding are correct for every message length, and computing a sum leaves the running state usable for further writes.",
  ["inputs", "histories"], "all states and blocks, all message lengths modulo the block size, all write splits",
  "Tests hash a handful of short messages, never one whose padding spills into a second block through a split write.",
  ["pkg/ripemd160/ripemd160.go", "pkg/ripemd160/ripemd160block.go"], [("_Block, Write, Sum", "pkg/ripemd160")], ["hash output"])

p("C28", "Generated marshalling code uses the codec's own method for every field type",
  "For every builtin field type, generated marshal and unmarshal code calls the encoder and decoder method that reflective coding uses for that type, and reads fields in the order it writes them.",
  ["programs"], "all struct types accepted by the generator",
  "The generator has no tests at all.",
  ["pkg/codegen/codegen.go"], [("type to method table and templates", "GenUnmarshalFn")], ["generated source"])

# --- value arithmetic and other runtime properties -------------------------------------------
p("C40", "Base58 encoding round-trips every byte sequence",
  "For every byte sequence, decoding its base58 encoding gives the sequence back.",
  ["inputs"], "all byte sequences", "Tests encode a dozen sequences.",
  ["pkg/base58/base58.go"], [("repeated division by 58", "base58.Encode")])
p("C41", "Assets round-trip through their decimal text",
  "For every valid asset, parsing its text form gives the same amount and symbol.",
  ["inputs"], "all amounts, precisions and symbols", "Tests check a few assets.",
  [CH+"asset.go"], [("Asset.String / NewAssetFromString", CH+"asset.go")])
p("C42", "128-bit integers round-trip through their decimal text",
  "For every 128-bit integer, parsing its decimal text gives the same integer.",
  ["inputs"], "all 2^128 values", "Tests check a few values.",
  [CH+"numbers.go"], [("BigInt/String/New*FromString", CH+"numbers.go")])
p("C43", "Encoding and decoding take time linear in the size of the data",
  "Decoding n bytes or encoding a value of size n takes time proportional to n.",
  ["inputs"], "all inputs", "Benchmarks sample two transactions.",
  ABI, [("single pass", "pkg/abi")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
