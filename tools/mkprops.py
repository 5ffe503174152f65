#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are kept)."""
import json, os
H = "zpp_bits.h"
def P(id, title, statement, over, text, why, mech, state=None, observe=None):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {"files": [H],
                        "state": [dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                        "mechanism": [dict(name=n, where=H + ":" + w) for n, w in mech],
                        "observe_at": observe or ["return value of the archive call", "archive position", "contents and size of the data buffer", "value of the target object"],
                        "hook_needed": None}}
PROPS = [
P("C01", "Round trip: what is written is read back equal, consuming exactly its bytes",
  "For every value of every supported type (scalars, enums, strings, arrays, sequence and associative containers, tuples, optionals, variants, owning pointers, bitsets, varints, aggregates, and any nesting of these) and every archive configuration, reading with an equally configured input archive succeeds and yields an equal value, whatever the target object held before. The read consumes exactly the bytes the write produced, so any sequence of writes is read back by the same sequence of reads. (Exceptions are only those the documentation makes: a size that is not serialized must be known to the reader.)",
  ["inputs", "configurations", "histories"], "all values of all supported type shapes x all archive option sets x all prior contents of the target x all sequences of writes and reads",
  "The tests round-trip a handful of fixed values per type with default options and fresh targets; the guarantee is over all nestings, option sets, boundary lengths and dirty targets.",
  [("output serialization", "1861-2443"), ("input serialization", "2487-3125")],
  [("buffer", "bytes of the stream", "data"), ("positions", "write and read offsets", "position()")]),
P("C02", "Wire layout depends only on the value and the archive options",
  "The bytes produced for a value are exactly the documented layout: members and elements in declaration order with no padding or metadata, scalars as their in-memory size in the archive's byte order, dynamic containers as an element count followed by the elements, fixed-size arrays and tuples without a count, optionals as a flag byte, variants as an id, pointers as their pointee, bitsets as ceil(N/8) bytes with bit i at bit i%8 of byte i/8. They do not depend on the kind of buffer (growable or fixed, and of which byte type), on what the buffer held before, on where in the buffer they are written, or on whether elements are written in bulk or one by one.",
  ["inputs", "configurations"], "all values x all option sets x all buffer kinds x all previous buffer contents and start positions",
  "Tests compare a few literal encodings into zeroed vectors; a layout that changes with alignment, element triviality, buffer type or dirty memory is not seen.",
  [("output scalar/bulk/element paths", "2042-2342"), ("byte serializability", "1270-1320")]),
P("C03", "Reading untrusted bytes never leaves the buffer",
  "For every byte sequence and every target type, a read (with an allocation limit set where resizable containers are read) either succeeds or returns an error (it does not crash, hang, throw or read outside the buffer), and the read position never passes the end of the data. A read that would need more bytes than are left always fails, so every strict prefix of a value's encoding is rejected; a length or count larger than what is left never makes a read succeed. A successful read returns exactly the value that the consumed bytes encode.",
  ["inputs"], "all byte sequences (all truncations, corrupt lengths, ids and flags) x all target types x all option sets",
  "Tests almost only feed well-formed data; absence of over-reads must hold for every malformed input.",
  [("bounds checks of input archive", "2601-3125"), ("varint decoding", "1703-1850")]),
P("C04", "Writing to a fixed-size buffer never writes outside it",
  "Writing to a non-resizable view (span, std::array, C array) succeeds exactly when the encoding fits in the space left after the current position, and otherwise fails with result_out_of_range. In both cases no byte outside the view and no byte before the starting position changes, the position never exceeds the view's size, and on success the bytes after the new position are unchanged too.",
  ["inputs", "configurations", "histories"], "all values and multi-item writes x all capacities from 0 past the encoded size x all start positions",
  "Tests use buffers that are large enough; every shortfall at every item boundary has to be handled.",
  [("fixed buffer checks", "2042-2342"), ("varint space check", "1659-1700"), ("message size prefix", "2342-2420")]),
P("C05", "A growing output buffer ends up holding exactly what was written",
  "After a successful write into a growable buffer, the bytes before the starting position and those after the end of the written encoding that already existed are unchanged, the encoding lies at the starting position, and the buffer's size is the larger of its previous size and the new position. This holds for every enlargement ratio, initial size, start position, and the append, reserve and resize options (append starts at the old end, reserve changes no size, resize sets the size); with no_fit_size the buffer may end larger but never smaller.",
  ["inputs", "configurations", "histories"], "all sequences of writes and repositionings x all initial contents x enlargement ratios x append/reserve/resize/no_fit_size",
  "Tests write a few values to empty vectors with the default ratio; reallocation boundaries and overwriting in the middle are not sampled.",
  [("enlarge", "1966-2000"), ("fit after write", "2443-2470"), ("append/reserve/resize", "2021-2040")],
  [("buffer size", "size of the growable buffer", "data.size()")]),
P("C06", "Output growth respects the allocation limit and size arithmetic",
  "With an allocation limit of L bytes an output archive never makes its buffer larger than L, and a write that would need a larger buffer fails with no_buffer_space while a write whose enlarged buffer stays within L succeeds. When the size computation for growing would overflow, the write fails with no_buffer_space instead of using a wrapped size. After such a failure the bytes before the failing item are intact and the archive remains usable.",
  ["inputs", "configurations", "histories"], "all limits x ratios x write sequences, and all size/ratio combinations near the end of the size range",
  "The tests try a few limits with one ratio and cannot reach sizes near 2^64.",
  [("enlarge with limit and overflow checks", "1966-2000"), ("limit handed on to nested archives", "4700-4730")]),
P("C07", "Input allocation limit bounds what a length prefix can allocate",
  "With an allocation limit of L bytes on an input archive, reading a length-prefixed resizable container whose announced elements would occupy more than L bytes fails with message_size, before anything is allocated for it and leaving that container as it was. A container announcing at most L bytes is never rejected for its size, and the limit applies equally to nested containers, strings, every size-prefix type and inside protobuf messages.",
  ["inputs", "configurations"], "all announced lengths around and far above the limit x element sizes x prefix types x nesting",
  "The tests check single limits with well-formed short data; hostile announced lengths must be refused for all values before allocating.",
  [("container limit check", "2751-2765"), ("protobuf limit", "5118-5150")]),
P("C08", "Variable-length integers encode minimally and decode exactly",
  "Every varint value of every width and signedness is written as its minimal base-128 little-endian encoding (zig-zag mapped first where so declared), its length equals the reported varint size, and it decodes to the same value. Decoding gives the same result wherever the encoding lies in the buffer (last bytes or followed by more data), consumes exactly the encoding, and fails without consuming past the end for truncated encodings and for encodings longer than the widest legal one.",
  ["inputs", "configurations"], "all values of 16/32/64-bit types, plain and zig-zag x all positions relative to the buffer end x all truncated or unterminated byte sequences",
  "Tests sample some dozens of values; carries at each 7-bit boundary times position in buffer times type width are not covered.",
  [("varint size", "1644-1658"), ("varint output", "1659-1700"), ("varint input", "1703-1850")]),
P("C09", "Byte order options apply to every multi-byte scalar and only to those",
  "With the big (network) byte order option, every multi-byte integer, floating-point value, enum, character, size prefix, message size prefix and integral id is written most significant byte first wherever it occurs, including inside arrays, containers and aggregates, and is read back accordingly; with little or native order it is least significant byte first. Byte strings, flags, varints, bitsets and the content of protobuf messages are the same in every byte order. Writing in one order and reading in the same order is always lossless.",
  ["inputs", "configurations"], "all values of all types x {native, little, big, network, swapped} x size prefix options",
  "Tests check a few scalars and vectors in big endian; every path (bulk, element, prefix, id, nested archive) must honour the option.",
  [("endian options", "1105-1130"), ("endian aware scalar paths", "2042-2100"), ("serialize as bytes", "905-920"), ("protocol size prefix", "2400-2410")]),
P("C10", "Variants: the id identifies the alternative, unknown ids are rejected",
  "Writing a variant emits the id of its active alternative (its index as one byte, or its declared id) followed by that alternative, and reading restores that alternative with its value whatever alternative the target held before. An id that belongs to no alternative makes the read fail with bad_message, and writing a valueless variant fails with invalid_argument writing nothing. With a statically or dynamically known id the id is not part of the stream and the alternative for that id is the one read or written.",
  ["inputs", "configurations"], "all alternatives x previous target alternatives x all id values (including every unknown id) x id types and byte orders",
  "Tests use two or three alternatives and valid ids only.",
  [("variant ids", "435-560"), ("variant output", "2278-2303"), ("variant input", "2968-3057"), ("known ids", "3306-3360")]),
P("C11", "Optionals and owning pointers restore presence and pointee",
  "An optional or optional pointer is written as one flag byte (0 or 1) followed by the value only if present, and reading makes the target engaged or empty accordingly regardless of its earlier state; a flag byte of zero means empty and leaves nothing of the earlier value. A unique or shared pointer is written as its pointee alone, writing a null one fails with invalid_argument, and reading allocates a fresh pointee, so other owners of the previous pointee are not affected. A failed read of the pointee leaves no half-owned object and does not leak.",
  ["inputs", "histories"], "all presence patterns x earlier target states x nesting x truncations",
  "Tests cover one present and one absent case each, reading to fresh targets.",
  [("optional", "2267-2277, 2921-2965"), ("optional pointer", "1464-1515"), ("owning pointer", "2304-2313, 3058-3072")]),
P("C12", "Constant byte views are read as views into the source buffer",
  "Reading into a view of constant bytes (string_view, span of const byte/char/unsigned char, dynamic or fixed extent) copies nothing: the view refers to exactly the payload bytes inside the input buffer, with the announced (or fixed, or for unsized views all remaining) length, and the position moves past them. If the payload is not completely inside the buffer the read fails with result_out_of_range, and views of non-constant elements are instead filled in place, never beyond their original length.",
  ["inputs", "configurations"], "all lengths and positions x size prefix options x buffer kinds x truncated payloads",
  "Tests check contents of one or two views; aliasing and exact bounds for all lengths are not checked.",
  [("view handling in container input", "2758-2850")]),
P("C13", "A call processes its items left to right and stops at the first failure",
  "Passing several items to one archive call is equivalent to passing them one by one: same bytes, same positions, same values. If an item fails, the call returns that item's error, every earlier item has been completely processed, and no later item is written or modified. The result reports success exactly when all items were processed, and the throwing form throws exactly on failure, carrying the same error code.",
  ["inputs", "histories"], "all item lists x all failing positions x both archive directions x return-value and throwing use",
  "Tests pass item lists that succeed; failure in the middle and its effect on the others are not observed.",
  [("serialize many", "2005-2020, 2563-2600"), ("errc", "120-165")]),
P("C14", "Positions: seeking, reset and buffer views are consistent",
  "An archive's position equals the number of bytes from the start of the buffer to the next byte to process; every successful call advances it by exactly the processed bytes, and setting or resetting it makes the next call operate there. The processed data is the buffer up to the position and the remaining data is the rest. Input and output positions over the same buffer are independent, re-reading from an earlier position yields the same values, and overwriting at an earlier position changes only the overwritten bytes.",
  ["histories", "configurations"], "all interleavings of reads, writes, resets and position changes over one buffer",
  "Tests seek once; consistency over arbitrary histories is not explored.",
  [("position/reset/remaining_data/processed_data", "1918-1962, 2530-2560")],
  [("positions", "write and read offsets", "position()")]),
P("C15", "RPC: each request runs exactly the bound function, once, and answers it",
  "For every sequence of client requests over a set of bindings, serving a request calls exactly the function or member function bound to that id, exactly once, with the arguments the client passed, and the client's response read yields that call's return value; requests are served and answered in order. An id that is not bound makes the server return not_supported without calling anything, and arguments that cannot be read make it return that error without calling the function or writing a response. A server context is the one object on which bound member functions act.",
  ["histories", "inputs", "configurations"], "all request/serve/response interleavings over one or two channels x all bindings x all argument values x corrupt or truncated requests",
  "Tests issue one call per binding in lock step with correct data.",
  [("rpc client", "3840-4010"), ("rpc server", "4012-4290"), ("bind", "3744-3765")]),
P("C16", "RPC: out-of-band ids and opaque bindings pass the right bytes",
  "When ids are carried separately, the request body holds only the arguments and serving with a given id is equivalent to serving a request that carries that id. An opaque binding is handed the archives or the view of the remaining request data, runs exactly once, and the request position advances by exactly what it consumed (for a data view: the length to which the view was reduced), so following requests are still served correctly. What an opaque binding writes or returns is all that the response contains.",
  ["histories", "inputs", "configurations"], "all sequences of in-band and out-of-band requests mixed with opaque bindings x consumed lengths",
  "Tests serve one opaque request of each kind.",
  [("opaque bindings", "3766-3833"), ("request body", "3925-3980"), ("serve with id", "4235-4262")]),
P("C17", "apply calls the function once with exactly the deserialized arguments",
  "Applying a free function, function object or member function to an input archive deserializes its parameters in order and calls it exactly once with those values, returning its result. If any parameter cannot be deserialized, the function is not called and that error is returned; a function without parameters consumes nothing. The archive's position afterwards is just past the parameters.",
  ["inputs", "configurations"], "all function kinds x parameter lists x all data including every truncation",
  "Tests apply a few functions to valid data.",
  [("apply", "3590-3742"), ("function traits", "3362-3470"), ("value_or_errc", "3470-3588")]),
P("C18", "Protobuf encoding follows the protobuf wire format",
  "A message is written as its fields in member order, each with the tag formed from its field number (member position, explicit number, or mapped number; reserved members count but emit nothing) and wire type, varint/bool/enum fields as varints, 4- and 8-byte scalars as little-endian fixed fields, strings, bytes and nested messages length-delimited, repeated scalars packed in one field (omitted when empty), repeated messages and strings as one field per element, and maps as one key/value entry message per element. The message content is independent of the archive's byte order, size-prefix and growth options, and is preceded by the message's byte length in the archive's size type and byte order unless sizes are disabled.",
  ["inputs", "configurations"], "all field kinds and combinations x values (length boundaries at 127/128, 16383/16384) x archive options x buffer kinds",
  "Tests compare a few literal messages with unsized or default archives.",
  [("protobuf tags", "4600-4690"), ("protobuf output", "4692-4927"), ("message size prefix", "2342-2420")]),
P("C19", "Protobuf decoding accepts fields in any order and keeps absent ones",
  "Decoding a well-formed message sets each field that is present whatever the order of fields, accepts repeated scalars both packed and unpacked and in several pieces, takes the last value of a repeated singular field, and skips fields whose numbers the message does not declare or has reserved. Non-container members that are absent keep the value they had before, while containers end up with exactly the elements present in the message, in order. Decoding consumes exactly the announced message length (or, without a size, all remaining data).",
  ["inputs", "configurations"], "all permutations, splits, repetitions and interleaved unknown fields of all message shapes x earlier member values",
  "Tests decode messages in declaration order, once each.",
  [("protobuf input", "4929-5172")]),
P("C20", "Malformed protobuf data is rejected, never misread",
  "For every byte sequence a protobuf read with an allocation limit either succeeds or returns an error, without reading outside the buffer, throwing or hanging. A message, nested message, string or packed field whose announced length exceeds the data available to it, a truncated field, a field number of zero, and a packed field whose content does not end on an element boundary all make the read fail. A field whose wire type is not one its declared type can have is never read as that type: it is skipped like an unknown field. Data of one nested message is never taken from beyond that message's announced end.",
  ["inputs"], "all byte sequences as messages of all shapes, in particular all truncations and all corrupt lengths at every nesting level",
  "Tests never feed malformed messages.",
  [("protobuf input bounds", "4929-4950, 5085-5150"), ("message length", "3096-3120")]),
P("C21", "Compile-time serialization gives the same results as at run time",
  "For every value, type and archive configuration usable in a constant expression, serializing or deserializing during constant evaluation gives the same bytes, positions, values and errors as at run time; in particular to_bytes and from_bytes agree with run-time archives and invert each other.",
  ["inputs", "configurations"], "all constexpr-capable types and values x byte orders x size prefixes x buffer shortfalls",
  "The separate constant-evaluation branches are exercised on a few literals only.",
  [("constant evaluated branches", "2060-2080, 2125-2145, 2610-2700"), ("to_bytes/from_bytes", "3214-3275")]),
P("C22", "Size prefixes have the configured width and announce the element count",
  "A dynamic container is preceded by its element count in exactly the size type in force: the archive's default (4 bytes unless changed to 1, 2, 8, native or varint) or the type given for that item by sized/unsized wrappers and aliases, which overrides the default for that item only and not for nested ones. Unsized containers, fixed-size arrays and tuples get no prefix; reading an unsized container fills exactly the elements the target already has (views: all remaining data). If the count does not fit the size type, the count is reduced modulo that type's range and exactly that many elements are written, so the stream stays readable.",
  ["inputs", "configurations"], "all container kinds x all size types, default and per item x lengths around each boundary (255/256, 65535/65536, 127/128)",
  "Tests check a couple of widths with small containers.",
  [("default size type", "650-680, 1150-1172"), ("sized/unsized", "1517-1584"), ("container prefix", "2182-2265, 2726-2760")]),
P("C23", "Associative containers restore exactly the written set of elements",
  "A set or map (ordered, unordered, multi) is written as its element count followed by its elements in iteration order (maps as key then value), and reading clears the target and inserts exactly those elements, for any key and value types. A read that fails part way leaves a valid container holding only elements already read, never stale or partially read ones.",
  ["inputs"], "all contents x previous target contents x key/value types x truncations at every byte",
  "Tests read one small map or set into an empty target.",
  [("associative output", "2220-2265"), ("associative input", "2852-2912")]),
P("C24", "Hash literals and ids are the standard SHA values and their prefixes",
  "sha1 and sha256 of any message equal the standard digests, for every message length. An id derived from a value is the serialization of that value truncated to the requested size, read as an integer of that size when the size is 1, 2, 4 or 8 bytes and as a byte array otherwise, and the integer hash literals are the first four digest bytes. Hex decoding yields the bytes written in either letter case.",
  ["inputs"], "all messages and lengths (every residue modulo the block size) x id sizes",
  "Tests hash three short strings; padding boundaries and multi-block messages are not covered.",
  [("sha1", "5323-5405"), ("sha256", "5412-5530"), ("ids", "3276-3304"), ("hex literal", "5549-5585"), ("big-endian arithmetic", "5182-5320")]),
P("C25", "All ways of declaring a type serializable give the same encoding",
  "A user-defined type serializes as its members in declaration order, regardless of how this is declared: automatic member detection, a member count inside or outside the class, an explicit serialize function inside or outside, with or without friend access to private members, with one to fifty members, nested in other types or inherited through the size wrappers, and recursive types as well. Objects written explicitly as raw bytes are written as their memory image and restored from it. Empty types occupy no bytes.",
  ["inputs", "configurations", "programs"], "all declaration styles x member counts 1..50 x member types x byte orders",
  "Tests declare a few small types; each member count has its own generated code path.",
  [("member visiting", "215-330"), ("member counting", "1174-1268"), ("explicit serialize", "2042-2050, 2601-2610"), ("raw bytes", "1000-1057")]),
P("C26", "Equivalent ways of building an archive behave equivalently",
  "Archives built directly, through input/output/in_out, or through data_in/data_out/data_in_out, over any supported byte buffer (vector, string, span, std::array, C array, of byte, char or unsigned char; owned or referenced; const for input) and with the options given in any order, produce the same bytes, errors, positions and values for the same sequence of operations. Each option has its documented effect independently of the other options given with it.",
  ["configurations", "inputs", "histories"], "all factory functions x buffer types x option subsets and orders x operation sequences",
  "Tests use each factory once with default options.",
  [("factories", "3125-3212"), ("options", "1057-1172, 640-735"), ("deduction guides", "2465-2487, 3105-3125")]),
P("C27", "Big-endian numbers compute like the integers they represent",
  "A big-endian number (4 or 8 bytes wide) is stored most significant byte first whatever the host, and its sum, shifts, and bitwise and, or, xor and complement equal those of the represented unsigned integer modulo its width, and it compares as that integer, for all operands and all shift counts smaller than the width. Serializing it writes its bytes most significant first with native archives.",
  ["inputs"], "all operand values x all shift counts x widths 4 and 8 bytes",
  "It is only exercised indirectly through three hash tests.",
  [("big endian numbers", "5182-5320")]),
P("C28", "Reflection visits exactly the members of an object, in order",
  "For every type whose members can be serialized, with any number of members from zero to fifty and however declared, the reported number of members, the member types and the members passed to a visitor are exactly those of its declaration in declaration order. The visitor is called exactly once with the members themselves, so what it assigns is in the object afterwards and it otherwise changes nothing, and what it returns is returned. This does not depend on the values held nor on whether the object is constant or temporary.",
  ["inputs"], "all member counts 0 to 50 x member types x ways of declaring them x values x object categories",
  "The tests visit one type with two integer members; every member count has code of its own.",
  [("member count", "1170-1262"), ("member visiting", "204-264")],
  [("object", "values of the members", "the visited object")], ["number_of_members", "arguments of the visitor", "the object after the visit"]),
P("C29", "Results hold either the value or the error, through moves, once",
  "A result that carries a value reports success and gives that value; one made from an error reports failure and gives that error code, and its throwing form throws a system error with exactly that code and no other way. Moving a result keeps what it holds, whether a value, a reference or an error, and every object put into a result is destroyed exactly once, whatever the history of moves, reads and destructions. Error codes convert to and from the standard ones unchanged, and success and failure are opposite, success exactly for the zero code.",
  ["histories"], "all histories of constructing, moving, asking, reading, throwing and destroying results x value types (plain, owning, counted, references)",
  "The tests only read a result once, right where it was returned.",
  [("value_or_errc", "3470-3623"), ("errc", "121-160")],
  [("result", "a value or an error code", "value_or_errc")], ["success() and failure()", "value() and error()", "what or_throw throws", "objects alive"]),
]
BASE = "5a485d9"      # the commit the line numbers above refer to
def translate():
    """line of BASE -> line of the current file"""
    import subprocess, difflib
    old = subprocess.run(["git", "-C", "/repo", "show", BASE + ":" + H], capture_output=True, text=True).stdout.splitlines()
    new = open("/repo/" + H).read().splitlines()
    m = {}
    for a, b, n in difflib.SequenceMatcher(None, old, new, autojunk=False).get_matching_blocks():
        for i in range(n): m[a + i + 1] = b + i + 1
    def t(x):
        while x not in m and x > 1: x -= 1
        return m.get(x, x)
    return t
def main():
    import re
    t = translate()
    for p in PROPS:
        for a in p["anchors"]["mechanism"]:
            a["where"] = H + ":" + re.sub(r"\d+", lambda k: str(t(int(k[0]))), a["where"].split(":")[1])
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    ids = [p["id"] for p in PROPS]; assert len(set(ids)) == len(ids)
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in PROPS: f.write(json.dumps(p) + "\n")
main()
