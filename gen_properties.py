#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as the readable source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)
S, D = "dlhn/src/ser.rs", "dlhn/src/de.rs"
V, Z = "dlhn/src/prefix_varint.rs", "dlhn/src/zigzag.rs"

p("P01", "Scalar values survive a round trip unchanged",
  "Any bool, 8/16/32/64-bit signed or unsigned integer, f32, f64 or char that has been serialized decodes, when read back as the same type, to the identical value (floats bit for bit, including NaN payloads and the sign of zero). Neither step returns an error or panics.",
  ["inputs"], "every value of every scalar type (2^64 values for the widest integers, every float bit pattern, every Unicode scalar value)",
  "The unit tests sample MIN, 0, MAX and the powers of two; an error in one bit position of one of the nine varint length classes, or of one sign, survives them.",
  [S, D, V, Z], [("prefix varint encode/decode", V), ("zigzag", Z), ("Serializer::serialize_* / Deserializer::deserialize_*", S + ", " + D)],
  ["Serializer output bytes", "value handed to the caller by the Deserializer"])
p("P02", "Scalar wire encoding is fixed, minimal and platform independent",
  "The encoding of a scalar is a function of its type and value only: bool is one byte 0 or 1; u8/i8 is the raw byte; u16/u32/u64 is a prefix varint (the number of leading one bits of the first byte gives the number of following bytes, payload bits little-endian, the longest form being an all-ones marker byte followed by the raw little-endian integer: 3/5/9 bytes for 16/32/64 bits with marker 0xC0/0xF0/0xFF) in its shortest form; i16/i32/i64 is the varint of the zigzag image; f32/f64 is the IEEE little-endian bytes. char is encoded as the string of that one character.",
  ["inputs"], "every value of every scalar type",
  "Tests compare the length of a few dozen varints and derive expected bytes with the same encoder, so a symmetric change of encoder and decoder (which breaks every stored file and every other implementation) passes them.",
  [S, V, Z], [("PrefixVarint::encode_prefix_varint", V), ("ZigZag::encode_zigzag", Z), ("Serializer scalar methods", S)],
  ["bytes written to the sink"])
p("P03", "Strings and byte strings of any length and content round-trip",
  "A UTF-8 string or byte string of any length is written as its byte length (as a u64) followed by exactly its bytes, and reading it back as an owned String or byte buffer yields the same content.",
  ["inputs"], "every length from 0 upward (in particular around internal buffer thresholds) and every content",
  "Tests try a handful of lengths (4, 129, 4097, 5000, 100000) with repetitive content; the decoder switches algorithms by length and copies in chunks, so a wrong boundary or chunk offset can survive.",
  [S, D], [("length prefix + write_all", S), ("small-buffer path, Take/read_to_string path, chunked copy loop", D)],
  ["bytes written", "decoded String / ByteBuf"])
p("P04", "Compound values survive a round trip unchanged",
  "Options, unit, newtypes, tuples, sequences, string-keyed maps, structs and all four kinds of enum variants, of any size and nesting, decode (as the same type) to the value that was serialized, provided their components do. This includes every variant index that fits the format and every element count.",
  ["inputs", "programs"], "every element count, every variant index, every component type that itself round-trips",
  "Tests use sequences of 0-5 elements and enums with 4 variants; count handling near varint class boundaries and variant indices beyond the first length class are never reached.",
  [S, D], [("SeqDeserializer/MapDeserializer countdown", D), ("StructDeserializer field list", D), ("variant index written as u32 and read as identifier", S + ", " + D)],
  ["decoded value"])
p("P05", "Compound wire layout is fixed",
  "An option is one byte 0 or 1 followed by the value if present; a sequence or map of known length is its element count (as a u64) followed by the elements (for a map: key then value for each entry); tuples, structs and newtypes are the concatenation of their fields in declaration order without names or counts; unit is empty; an enum is its variant index (as a u32) followed by the variant's fields.",
  ["inputs", "programs"], "every element count, variant index and component type",
  "Tests compare the bytes of a few small values; for larger counts or indices they compare nothing, and a symmetric change of writer and reader passes a round-trip test.",
  [S], [("Serializer compound methods", S)], ["bytes written to the sink"])
p("P06", "Encodings are self-delimiting and the codec is stateless",
  "A successful decode consumes exactly the bytes its value was encoded to and never requests a byte beyond them, and encoding a value appends bytes that do not depend on anything serialized before. So any sequence of values written back to back through one serializer is read back value by value through one deserializer (or a fresh one each) from any reader. What an encode or decode (of a value, header or dynamic body) yields does not depend on how many operations this process or thread has done before, or on whether those succeeded or failed.",
  ["inputs", "histories"], "every value type and every sequence of values sharing one stream",
  "The stream tests write the same two small structs; over-reading or hidden carry-over for a long string, a chunked buffer or a multi-byte varint followed by another value is not exercised.",
  [S, D, V], [("read_exact of exactly the encoded length", D), ("no buffering fields in Serializer/Deserializer", S + ", " + D)],
  ["position of the reader after a decode", "bytes written for the second value"])
p("P07", "No input makes a decoder panic",
  "Decoding any byte sequence, truncated, corrupted or hostile, as any supported type, as a header, or as a dynamic body under any header, returns a value or an error. It never panics, overflows arithmetic, indexes out of bounds, hits an unimplemented path or recurses without bound on bytes alone.",
  ["inputs"], "every byte sequence and every target type of the serde data model",
  "Tests decode only what the encoder produced.",
  [D, "dlhn/src/header/de.rs", "dlhn/src/body/mod.rs", "dlhn/src/date.rs", "dlhn/src/date_time.rs", "dlhn/src/format/date.rs", "dlhn/src/format/date_time.rs", V],
  [("Error returns in Deserializer methods and visitors", D), ("checked arithmetic in date visitors", "dlhn/src/date.rs, dlhn/src/format/date.rs")],
  ["outcome of Deserialize::deserialize, deserialize_header, Body::deserialize, TryInto conversions"])
p("P08", "Truncated input or a failing reader is always reported",
  "If the reader reports an error or end of input before the value is complete, decoding (values, headers, dynamic bodies) returns an error: it never yields a value made from missing, zero-filled or stale bytes.",
  ["inputs", "fault_sequences"], "every truncation point / every position of the first failing read, for every type",
  "One test truncates one struct at a value boundary; no test injects an I/O error or cuts inside a value.",
  [D, V, "dlhn/src/header/de.rs", "dlhn/src/body/mod.rs"], [("read_exact(..).or(Err(Error::Read))?", D), ("short-read comparison after take().read_to_string", D)],
  ["Result returned by decode entry points"])
p("P09", "A failing writer is always reported and nothing follows the failure",
  "If the writer reports an error at any point, serialization of a value or of a header returns an error to the caller and writes nothing further; success is returned only if every byte of the encoding was accepted by the writer.",
  ["inputs", "fault_sequences"], "every position of the first failing write, for every type",
  "All tests write to a Vec, which never fails and never accepts a partial write.",
  [S, "dlhn/src/header/ser.rs", "dlhn_derive/src/lib.rs"], [("write_all(..).or(Err(Error::Write))", S), ("? on nested writes", S + ", dlhn/src/header/ser.rs")],
  ["Result returned by serialize / serialize_header", "writer call sequence"])
p("P10", "Length prefixes cannot force large allocations",
  "While decoding, memory reserved on the strength of a length or count read from the input, before the corresponding data has been read, is bounded by a small constant that does not depend on that length or count.",
  ["inputs"], "every length/count prefix value up to 2^64-1, for strings, byte strings, sequences, maps, headers and dynamic bodies",
  "Tests only use honest prefixes.",
  [D, "dlhn/src/body/mod.rs", "dlhn/src/header/de.rs"], [("chunked read with a fixed-size buffer", D), ("bounded Vec::with_capacity", "dlhn/src/body/mod.rs, dlhn/src/header/de.rs")],
  ["arguments of allocation calls"])
p("P11", "Invalid tags are rejected, never reinterpreted",
  "Decoding fails with an error when a boolean or option tag byte is not 0 or 1, a string or char is not valid UTF-8, a char is empty, a header type code is not one of the defined codes, an enum variant index is not a variant of the target type, or a dynamic enum index is outside its header.",
  ["inputs"], "all 254 invalid tag bytes, all undefined header codes (7, 12, 22, 27..255), all out-of-range variant indices, all invalid UTF-8",
  "Existing tests never decode an invalid tag (other than end of input).",
  [D, "dlhn/src/header/de.rs", "dlhn/src/body/mod.rs"], [("match on tag byte with error arm", D + ", dlhn/src/header/de.rs"), ("inner.get(i).ok_or", "dlhn/src/body/mod.rs")],
  ["Result of decode"])
p("P12", "Headers survive a round trip",
  "Every header value whose tuples and enums have at most 65535 entries is serialized to bytes from which header decoding restores an equal header, consuming exactly those bytes; a header that cannot be represented (more entries) is refused with an error rather than written truncated.",
  ["inputs"], "every header tree",
  "Tests cover each node kind once with tiny children; entry counts beyond the first varint length class, and deep nesting, are not covered.",
  ["dlhn/src/header/ser.rs", "dlhn/src/header/de.rs"], [("Header::serialize", "dlhn/src/header/ser.rs"), ("deserialize_header", "dlhn/src/header/de.rs")],
  ["bytes of Header::serialize", "Header returned by deserialize_header"])
p("P13", "Header type codes are fixed and agree between static types and Header",
  "Each data type has its one fixed type code (0 unit, 1 optional, 2 boolean, 3-6 u8..u64, 8-11 i8..i64, 13-14 f32/f64, 15-17 big uint/int/decimal, 18 string, 19 binary, 20 array, 21 tuple, 23 map, 24 enum, 25 date, 26 datetime), optional/array/map being followed by one inner header and tuple/enum by a u16-varint entry count and that many headers. The header written for a Rust type (primitives, containers, tuples up to 16, date/time and big number types) is byte-identical to that of the corresponding Header value.",
  ["inputs", "programs"], "every implementing type, instantiated with any inner types",
  "Tests check most codes once, through the same constants the implementation uses in both directions, and only some tuple arities.",
  ["dlhn/src/header/mod.rs", "dlhn/src/header/ser.rs", "dlhn/src/header/de.rs"], [("*_CODE constants", "dlhn/src/header/mod.rs"), ("SerializeHeader impls and tuple_impls!", "dlhn/src/header/ser.rs")],
  ["bytes of serialize_header / Header::serialize"])
p("P14", "A type's header describes that type's encoding",
  "For every type that provides both a header and an encoding, decoding the encoding of any of its values dynamically under the type's own header succeeds, consumes exactly the encoding, and yields the corresponding dynamic value with the same content. This holds for primitive, container, date/time and big number types.",
  ["inputs", "programs"], "every value of every type with both a header and a serde encoding",
  "No test feeds a typed value's bytes to dynamic decoding under the type's header.",
  ["dlhn/src/header/ser.rs", "dlhn/src/body/mod.rs", S], [("SerializeHeader impls vs Serialize impls vs Body::deserialize arms", "dlhn/src/header/ser.rs, dlhn/src/body/mod.rs")],
  ["Body returned by Body::deserialize"])
p("P15", "Dynamic bodies round-trip under their header",
  "A dynamic body value that matches a header (as reported by validation) is serialized to the same bytes as the corresponding statically typed value, and dynamic decoding of those bytes under that header restores an equal body, consuming exactly those bytes.",
  ["inputs"], "every (header, body) pair that validates, of any depth and size",
  "Tests cover each variant with one or two values.",
  ["dlhn/src/body/mod.rs"], [("Serialize for Body", "dlhn/src/body/mod.rs"), ("Body::deserialize", "dlhn/src/body/mod.rs")],
  ["Body::serialize bytes", "Body::deserialize result"])
p("P16", "Validation accepts exactly the bodies that match the header",
  "Validating a dynamic body against a header returns true exactly if the kinds agree at every level: optional contents, all array elements, all map values and the selected enum entry match the corresponding inner header, tuples have the same number of entries and match entry by entry, and the enum index is inside the header. It never panics.",
  ["inputs"], "every (header, body) pair, including mismatching kinds, lengths and indices",
  "Tests check the matching diagonal and a handful of mismatches out of the 24 x 24 kind combinations; element-level mismatches are sampled at one position.",
  ["dlhn/src/body/mod.rs"], [("Body::validate", "dlhn/src/body/mod.rs")], ["bool returned by Body::validate"])
p("P17", "Dates and date-times are encoded faithfully",
  "A calendar date is written as (year - 2000) as i32 and (day of year - 1) as u16, a date-time as its UTC unix second as i64 and nanosecond of second as u32; decoding, and converting between the library's own date types and those of the time crate, in both directions, preserve the instant or day. A decoded value that is no valid date or instant is refused by the conversion, not altered.",
  ["inputs"], "every date, every date-time whose UTC instant lies in the years -9999 to 9999, and every decodable pair of numbers",
  "Tests use a few dates; leap-day ordinals, negative years, pre-epoch instants with fractional seconds and out-of-range decoded numbers are not covered.",
  ["dlhn/src/date.rs", "dlhn/src/date_time.rs", "dlhn/src/format/date.rs", "dlhn/src/format/date_time.rs"],
  [("DATE_YEAR_OFFSET / DATE_ORDINAL_OFFSET arithmetic", "dlhn/src/date.rs, dlhn/src/format/date.rs"), ("From/TryInto conversions", "dlhn/src/date.rs, dlhn/src/date_time.rs")],
  ["bytes written", "decoded time::Date / OffsetDateTime / Date / DateTime"])
p("P18", "Big numbers are encoded faithfully",
  "An arbitrary-precision unsigned integer, signed integer or decimal is written as the little-endian (two's complement for signed) digit bytes as a byte sequence (empty for zero), a non-zero decimal being followed by its scale as i64 after normalization; decoding and the conversions from and to num-bigint/bigdecimal types preserve the numeric value, sign and scale.",
  ["inputs"], "every arbitrary-precision value and scale",
  "Tests use a few dozen values around machine-integer limits.",
  ["dlhn/src/big_uint.rs", "dlhn/src/big_int.rs", "dlhn/src/big_decimal.rs", "dlhn/src/format/big_uint.rs", "dlhn/src/format/big_int.rs", "dlhn/src/format/big_decimal.rs"],
  [("From/Into conversions", "dlhn/src/big_*.rs"), ("Serialize/Visitor impls", "dlhn/src/big_*.rs, dlhn/src/format/big_*.rs")],
  ["bytes written", "decoded number"])
p("P19", "Field-format helpers and wrapper types share one wire format",
  "For dates, date-times and the three big number kinds, the serde-with helper module and the library's wrapper type produce the same bytes for the same value, and each decodes, consuming exactly the same bytes, every encoding the other can produce (including wrapper values obtained by decoding non-canonical input), to the same value.",
  ["inputs"], "every value of the five kinds, and every byte sequence both decoders accept",
  "Tests exercise each implementation separately on canonical values.",
  ["dlhn/src/format/date.rs", "dlhn/src/format/date_time.rs", "dlhn/src/format/big_uint.rs", "dlhn/src/format/big_int.rs", "dlhn/src/format/big_decimal.rs", "dlhn/src/date.rs", "dlhn/src/date_time.rs", "dlhn/src/big_uint.rs", "dlhn/src/big_int.rs", "dlhn/src/big_decimal.rs"],
  [("sibling Visitor/serialize implementations", "dlhn/src/format/*.rs vs dlhn/src/*.rs")],
  ["bytes written", "bytes consumed", "decoded value"])
p("P20", "Only string map keys are accepted",
  "Serializing a map writes a key only if it is a string, encoded exactly like a string value; any other kind of key (numbers, bool, char, bytes, options, units, newtypes, sequences, tuples, maps, structs, enums, and types whose textual form is reserved for human-readable formats) is refused with the unsupported-key-type error and no key byte is written.",
  ["inputs", "programs"], "every serde data-model kind in key position",
  "Tests serialize maps with string keys and a few rejected kinds.",
  [S], [("MapKeySerializer", S)], ["Result and bytes of serializing a map"])
p("P21", "Derived headers describe the derived encoding",
  "For any struct or enum deriving both the header and serde serialization (any number and order of fields, any mixture of skip / skip_serializing attributes on fields, unit, newtype, tuple and struct variants, adjacently tagged or converted into another type before it is encoded), dynamic decoding of any value's encoding under the derived header succeeds and consumes exactly the encoding; a definition whose encoding no single header can describe (skip_serializing_if on a field, an untagged or internally tagged representation, more than 65535 fields, a union) is rejected at compile time.",
  ["programs", "inputs"], "every type definition the derive accepts and every value of it",
  "Tests derive nine small types and compare the header only with literal bytes, never with the encoding of a value.",
  ["dlhn_derive/src/lib.rs", "dlhn_derive/src/prefix_varint.rs"], [("derive_serialize_header", "dlhn_derive/src/lib.rs"), ("is_skip_field / has_skip_serializing_if", "dlhn_derive/src/lib.rs")],
  ["derived serialize_header bytes vs serde encoding", "compile errors"])
p("P22", "Unsupported requests fail cleanly and never corrupt the stream",
  "Asking the codec for something the format has no encoding for (128-bit integers, decoding without a known type, skipping an unknown value) returns an error without panicking and without writing or consuming bytes, and both directions report themselves as a binary (not human-readable) format.",
  ["inputs", "programs"], "every serde data-model request outside the format",
  "No test makes such a request.",
  [S, D], [("serde default methods for i128/u128", S + ", " + D), ("deserialize_any / deserialize_ignored_any", D), ("is_human_readable on every Serializer/Deserializer", S + ", " + D)],
  ["Result of the request", "bytes written / consumed"])
p("P23", "Every feature combination builds and offers the same wire format",
  "The library compiles with every subset of its optional features, without unsafe code, and an enabled feature only adds conversions and helper modules: the types and traits for encoding and decoding exist in every configuration.",
  ["configurations"], "all 32 subsets of the five optional features",
  "Tests run in the default configuration only.",
  ["dlhn/Cargo.toml", "dlhn/src/lib.rs", "dlhn/src/format/mod.rs", "dlhn/src/header/ser.rs"], [("cfg(feature = ...) attributes", "dlhn/src"), ("forbid(unsafe_code)", "dlhn/src/lib.rs, dlhn_derive/src/lib.rs")],
  ["cargo check of each configuration against an API witness"])
p("P24", "Decoding ends after work bounded by the input",
  "Decoding any byte sequence (a value, a header, or a dynamic body under a header), from a reader that may deliver any number of bytes at a time and may end or fail at any point, terminates, and the number of steps is bounded by the bytes it has read and by the type or header given: every iteration of a decoding loop consumes input, or the number of iterations is limited by a constant or by what has been read. No decoder waits in a loop at the end of the input, and no small input makes it run an astronomical number of steps.",
  ["inputs", "fault_sequences"], "every byte sequence, every way a reader can hand it out and end",
  "Tests decode honest, complete inputs from memory only; a test that hangs on one input says nothing about the others.",
  [D, "dlhn/src/prefix_varint.rs", "dlhn/src/header/de.rs", "dlhn/src/body/mod.rs"], [("element loops driven by count prefixes", D + ", dlhn/src/header/de.rs, dlhn/src/body/mod.rs"), ("chunk loop of deserialize_byte_buf", D)],
  ["termination of decode", "number of reader calls and of elements produced"])
p("P25", "Encoded size and speed stay within the format's published envelope",
  "Encoding and decoding throughput and peak memory on representative documents stay within the envelope of the published benchmarks.",
  ["inputs"], "every document", "Tests do not measure time or memory; the benches are not part of the test run.",
  ["dlhn/benches", "dlhn_bench"], [("iai benches", "dlhn/benches, dlhn_bench/benches")], ["instruction counts, peak memory"])
p("P26", "Every form of a number is read alike, wherever it stands",
  "The first byte of a number's variable-length form tells how many bytes it has, and the remaining bits are its value whether or not a shorter form exists: a value, date, big number, header or dynamic body whose numbers (scalars, lengths, element counts, entry counts, variant indices, years, scales) are written in any longer form that the first byte can announce decodes to the same value as its own encoding, and decoding stops exactly at the end of those bytes.",
  ["inputs"], "every value in every form longer than the shortest",
  "Tests decode what the encoder wrote, which is always the shortest form; the longer ones are reachable only from other writers.",
  ["dlhn/src/prefix_varint.rs", D, "dlhn/src/header/de.rs", "dlhn/src/body/mod.rs"], [("decode_prefix_varint per width", "dlhn/src/prefix_varint.rs"), ("length, count and index reads", D + ", dlhn/src/header/de.rs, dlhn/src/body/mod.rs")],
  ["decoded value", "bytes consumed"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
