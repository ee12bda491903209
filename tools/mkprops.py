#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run once by hand after an edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=["src/mpack/"+f for f in files],
        state=[dict(name=n, meaning=m, where="src/mpack/"+w) for n,m,w in (state or [])],
        mechanism=[dict(name=n, where="src/mpack/"+w) for n,w in mech],
        observe_at=observe or [], hook_needed=None)))

p("C01","Every value is written in the shortest valid MessagePack encoding",
  "Each write call (integers of every width and sign, booleans, nil, floats, strings, binary, extensions, arrays, maps, tags) produces exactly the MessagePack encoding of its argument, in the smallest form the format allows for that kind of value. A writer switched to the old (v4) format never emits 8-bit string, binary, extension or timestamp encodings: binary becomes the old raw string form and extensions/timestamps are flagged as a usage bug.",
  ["inputs","configurations"],"all 64-bit values, all lengths 0..2^32-1, all ext types, both format versions, size-optimised and normal builds",
  "test-write.c samples some boundary values per width in the default format; the other widths, ext types, lengths and version combinations are not enumerated",
  ["mpack-writer.c","mpack-writer.h","mpack-common.h"],
  [("mpack_write_u8..i64/mpack_encode_*","mpack-writer.c"),("mpack_start_str_notrack, mpack_start_bin_notrack, mpack_start_ext","mpack-writer.c"),("mpack_write_timestamp","mpack-writer.c")],
  observe=["bytes in the output buffer after each call"])
p("C02","Every header decodes to exactly the value it denotes, by every reading API",
  "For any byte string that starts with a complete MessagePack header, reading or peeking a tag yields exactly the kind, value, length, count and extension type the format assigns to those bytes (shortest or not), consuming exactly the header. Parsing the same bytes as a tree yields the same tags. The reserved byte 0xC1 is always reported as invalid data.",
  ["inputs","configurations"],"all first bytes, all following header bytes, every build configuration",
  "tests decode a list of hand-picked encodings; non-canonical encodings and header bytes in between are not covered",
  ["mpack-reader.c","mpack-node.c","mpack-common.h"],
  [("mpack_parse_tag","mpack-reader.c"),("mpack_tree_parse_node_contents","mpack-node.c"),("mpack_load_*","mpack-common.h")],
  observe=["tag returned by read/peek", "tag of a tree node", "bytes remaining"])
p("C03","The sink receives exactly the written bytes, once and in order",
  "If the writer ends without error, the bytes delivered to its destination (fixed buffer, grown buffer, flush callback or file) are exactly the concatenation of the encodings of the calls made, in order, with nothing lost, repeated or altered, whatever the buffer size and wherever flushes fall. Without a flush function, output that does not fit is reported as too big and nothing outside the buffer is touched; output that fits exactly succeeds.",
  ["inputs","histories","configurations"],"all call sequences, payload lengths, buffer sizes and flush points",
  "tests run each short message in a few buffer sizes; combinations of buffer fill level, payload size and call kind at the boundary are not enumerated",
  ["mpack-writer.c","mpack-writer.h"],
  [("mpack_writer_ensure, mpack_write_native_straddle, mpack_writer_flush_unchecked","mpack-writer.c"),("mpack_growable_writer_flush/teardown","mpack-writer.c"),("mpack_writer_destroy","mpack-writer.c")],
  state=[("writer->buffer/position/end","pending bytes","mpack-writer.h")],
  observe=["concatenation of flush data plus final buffer", "target data and size of a growable writer", "file contents"])
p("C04","Automatically sized maps and arrays equal explicitly sized ones",
  "Building maps and arrays with automatic sizing, nested to any depth and mixed freely with explicitly sized ones and any payload, produces byte for byte the output obtained by giving the true element counts up front. This holds however the internal storage is split and for repeated builds in one writer. Completing a map with an odd number of elements is reported as a usage bug.",
  ["histories","inputs","configurations"],"all nestings, element counts, payload sizes and internal page layouts",
  "test-builder.c has a handful of shapes; the page-boundary behaviour depends on the exact running byte offset and alignment of every nested build",
  ["mpack-writer.c","mpack-writer.h"],
  [("mpack_builder_build/complete/resolve/flush","mpack-writer.c"),("mpack_writer_track_element (builder counts)","mpack-writer.c"),("mpack_builder_compound_push/pop","mpack-writer.h")],
  state=[("builder current/latest build, pages","open automatic compounds","mpack-writer.h")],
  observe=["final output bytes", "error state"])
p("C05","Structural misuse of the writer is always caught, correct use never",
  "With write tracking enabled, the first call that breaks the declared structure (too many or too few elements, an odd map, closing the wrong kind, bytes outside or beyond a string/binary/extension, elements inside one, closing with bytes missing, closing an automatic compound as a fixed one or vice versa, flushing or finishing with something open) puts the writer in the usage-bug state at that call. A sequence of calls that respects the declared structure is never flagged.",
  ["histories"],"all sequences of write calls, depths and counts",
  "tests exercise about a dozen single misuses at depth one; misuses after longer legal prefixes or at depth are not covered",
  ["mpack-common.c","mpack-common.h","mpack-writer.c","mpack-writer.h"],
  [("mpack_track_push/pop/element/bytes/check_empty","mpack-common.c"),("mpack_writer_track_*","mpack-writer.c")],
  state=[("track elements (type,left,builder,key_needs_value)","open compounds","mpack-common.h")],
  observe=["error state after each call"])
p("C06","A writer error is latched: first error wins, output stops, teardown once",
  "The first error flagged on a writer is the one reported for ever after, and the error callback runs exactly once, at that moment, with that error. After it every write is ignored, the flush function is never called again, and the growable target stays unset. Destroying a writer, in error or not, calls its teardown exactly once and returns the final error; pending output is flushed only if there is no error.",
  ["histories","fault_sequences"],"all call sequences with an error injected at any point by any cause",
  "tests inject errors at a few points and rarely continue using the writer afterwards",
  ["mpack-writer.c","mpack-writer.h"],
  [("mpack_writer_flag_error","mpack-writer.c"),("mpack_writer_destroy","mpack-writer.c"),("mpack_growable_writer_teardown","mpack-writer.c")],
  observe=["error after each call","count and argument of error callback","flush calls after error","teardown count"])
p("C07","Reading gives the same results however the data arrives",
  "For a given input stream and sequence of read calls, the values, bytes and errors returned do not depend on how the fill function splits the data, on the size of the reader's buffer, or on whether a skip function is supplied, and equal those obtained reading the same data from memory. The only exceptions are that an in-place read larger than the buffer is reported as too big, and that running out of data is reported as an I/O error on a stream and invalid data in memory.",
  ["inputs","schedules","configurations"],"all streams, call sequences, fill splits, buffer sizes and skip configurations",
  "tests use a few fixed chunkings; the straddle code depends on the exact fill level of the buffer at every call",
  ["mpack-reader.c","mpack-reader.h"],
  [("mpack_reader_ensure_straddle","mpack-reader.c"),("mpack_read_native_straddle","mpack-reader.c"),("mpack_skip_bytes_straddle, mpack_reader_skip_using_fill","mpack-reader.c"),("mpack_fill_range","mpack-reader.c")],
  state=[("reader->data/end/buffer","unread window","mpack-reader.h")],
  observe=["every value, byte block and error returned"])
p("C08","Each read consumes exactly its own bytes; peeking consumes none",
  "Every successful read call advances the stream by exactly the bytes of what it returned: a tag its header, a byte read or skip its count, discarding one complete object including everything nested in it. Peeking never changes what the next call returns. Once a message has been read, the remaining-data query returns exactly the unread bytes that were buffered.",
  ["inputs","histories"],"all messages, nestings and interleavings of read, peek, skip and discard",
  "tests check consumption only by reaching the end of short messages",
  ["mpack-reader.c","mpack-reader.h"],
  [("mpack_read_tag, mpack_peek_tag","mpack-reader.c"),("mpack_discard","mpack-reader.c"),("mpack_skip_bytes","mpack-reader.c"),("mpack_reader_remaining","mpack-reader.c")],
  observe=["values of the following reads","remaining count and data"])
p("C09","A reader error is latched and later reads return safe defaults",
  "The first error flagged on a reader is kept, the error callback runs exactly once with it, and the fill function is never called again. From then on every read returns nil, zero, false, the documented minimum, an empty string or no data, and consumes nothing. Destroying the reader runs its teardown exactly once and returns that error.",
  ["histories","fault_sequences"],"all call sequences with an error arising at any point from data, stream, limits or the user",
  "tests check the error code right after a failing call but seldom call further functions in the error state",
  ["mpack-reader.c","mpack-reader.h","mpack-expect.c","mpack-expect.h"],
  [("mpack_reader_flag_error","mpack-reader.c"),("mpack_reader_destroy","mpack-reader.c")],
  observe=["returned values after an error","callback count","fill calls after error","teardown count"])
p("C10","Structural misuse of the reader is always caught, correct use never",
  "With read tracking enabled, the first call that departs from the structure announced by the data (reading more or fewer elements than declared, closing the wrong kind, reading bytes outside or beyond a string/binary/extension, leaving bytes unread, querying the remaining data or destroying with something open) puts the reader in the usage-bug state at that call. A traversal that follows the data is never flagged.",
  ["histories","inputs"],"all sequences of read calls over all messages",
  "tests exercise a few single misuses at depth one",
  ["mpack-common.c","mpack-reader.c","mpack-reader.h"],
  [("mpack_track_*","mpack-common.c"),("mpack_reader_track_*, mpack_done_type","mpack-reader.h")],
  observe=["error state after each call"])
p("C11","Truncated or malformed input is never reported as success",
  "If the input ends before the object being read is complete, the call that needs the missing bytes leaves the reader or tree in an error state, whichever API is used: tag reads, typed reads, byte reads, skipping, discarding, tree parsing, from memory, stream or file. No input whatsoever makes a read touch memory outside the data supplied.",
  ["inputs","crash_points"],"every strict prefix of every message, every corrupted byte, every API and source",
  "tests truncate a few messages; prefixes ending inside each header and payload for each source and skip path are not enumerated",
  ["mpack-reader.c","mpack-node.c","mpack-expect.c"],
  [("mpack_reader_ensure","mpack-reader.h"),("mpack_tree_reserve_bytes","mpack-node.c"),("mpack_file_reader_skip","mpack-reader.c")],
  observe=["final error state"])
p("C12","Typed numeric reads return the exact value or a type error",
  "Reading a value of an expected type (each integer width, ranges, maximums, exact matches, floats, booleans, nil) succeeds exactly when the encoded value is of a permitted kind and representable in the requested type and range, whatever encoding it was stored in, and then returns that value. Otherwise the reader is left with a type error and the call returns zero (or the range minimum).",
  ["inputs"],"all encodings of all values against all typed reads and ranges",
  "tests pair each function with a few in- and out-of-range constants",
  ["mpack-expect.c","mpack-expect.h"],
  [("mpack_expect_u8..i64, mpack_expect_*_range","mpack-expect.c"),("mpack_expect_float/double(_strict)","mpack-expect.c"),("mpack_expect_nil/bool/true/false","mpack-expect.c")],
  observe=["returned value and error"])
p("C13","Typed reads of strings, blobs and compounds enforce lengths, matches and keys",
  "Typed reads of strings, binary, extensions, maps and arrays succeed exactly when the object is of that kind and its length or count meets the requested size, maximum, range or match, and deliver exactly its contents or count. String enumerations and key lookups return the index of the equal string or number, report unrecognised keys without error where documented (skipping the whole key object) and flag a key seen twice as invalid data.",
  ["inputs","histories"],"all objects, limits, key tables and key sequences",
  "tests sample a few lengths and keys; off-by-one limits and mixed key kinds are not enumerated",
  ["mpack-expect.c","mpack-expect.h"],
  [("mpack_expect_str/bin/ext*, mpack_expect_map/array*","mpack-expect.c"),("mpack_expect_enum*, mpack_expect_key_*","mpack-expect.c")],
  observe=["returned value, bytes, found flags and error"])
p("C14","A parsed tree is the faithful structure of its message",
  "Parsing any complete message yields a tree whose node kinds, values, lengths, contents and child order are exactly those encoded, at any nesting depth and width, with the message size reported exactly; data after the message is left for the next parse, so consecutive messages parse one after another. Parsing never modifies the data.",
  ["inputs","configurations"],"all messages, page and stack sizes, pools, and sequences of messages",
  "tests compare a few shapes; page growth, stack growth and child placement depend on the counts at each level",
  ["mpack-node.c","mpack-node.h"],
  [("mpack_tree_parse_children/parse_node/continue_parsing","mpack-node.c"),("mpack_tree_parse_start","mpack-node.c")],
  state=[("parser stack, pages, possible_nodes_left","work left to parse","mpack-node.h")],
  observe=["full traversal of the tree","tree size"])
p("C15","Incremental tree parsing does not depend on how the stream is split",
  "Parsing from a stream gives the same trees and errors for every way of splitting the stream into reads, including reads that temporarily return no data: a non-blocking attempt reports no message and no error until the whole message has arrived, and then exactly that message. The size and node limits apply to the message itself, so a message within both limits is always accepted and one beyond either is rejected as too big, regardless of the split. Data read beyond one message is kept for the next.",
  ["schedules","inputs"],"all message sequences, all splits with empty reads, all limits",
  "tests feed byte-by-byte or whole messages with generous limits",
  ["mpack-node.c"],
  [("mpack_tree_reserve_fill","mpack-node.c"),("mpack_tree_try_parse, mpack_tree_parse_start","mpack-node.c")],
  state=[("data_length, current_node_reserved, node_count","progress of the current message","mpack-node.h")],
  observe=["result and error of each attempt","tree contents"])
p("C16","Hostile counts cannot exhaust memory; pools and limits hold",
  "Parsing data held in memory allocates an amount bounded by a small constant factor of the data actually present, whatever counts and lengths it declares; parsing a stream stays within the configured maximum message size and node count. With a fixed pool a message is accepted exactly when its nodes fit and the pool is never overrun; exceeding a node limit or pool is reported as too big.",
  ["inputs","configurations"],"all messages, declared counts up to 2^32-1, limits and pool sizes",
  "tests try two oversized declarations and a few pool sizes",
  ["mpack-node.c","mpack-expect.c"],
  [("mpack_tree_parse_children (node limit, page choice)","mpack-node.c"),("mpack_tree_reserve_bytes/reserve_fill","mpack-node.c")],
  observe=["bytes requested from the allocator","error state"])
p("C17","Node accessors return the exact value or flag a type error and return nil",
  "Each accessor on a tree node (integers of every width, floats, booleans, nil, missing, string, binary, extension, array and map queries, element by index) succeeds exactly when the node is of a permitted kind and the value is representable or the index in range, returning exactly it. Otherwise the tree enters the matching error state once, calling the error callback, and this and every later access return nil nodes, zero or no data.",
  ["inputs","histories"],"all node values against all accessors, and all sequences after an error",
  "tests pair each accessor with a few constants",
  ["mpack-node.c","mpack-node.h"],
  [("mpack_node_u8..i64, float/double, data/str/bin/array/map","mpack-node.c"),("mpack_tree_flag_error","mpack-node.c")],
  observe=["returned value, error, callback count"])
p("C18","Map lookup finds the unique equal key, or reports missing or duplicate",
  "Looking up an integer or string key in a map node returns the value of the only key equal to it (integers compare by value regardless of encoding; strings by length and bytes; other kinds never match). An absent key gives a missing node from optional lookups and a data error otherwise; two equal keys give a data error from every lookup, containment test included. Matching a node against a list of strings returns the index of the equal one, or the count with or without error as documented.",
  ["inputs"],"all maps of mixed and duplicate keys and all queries",
  "tests look up a few keys in small maps",
  ["mpack-node.c"],
  [("mpack_node_map_int_impl/uint_impl/str_impl","mpack-node.c"),("mpack_node_enum(_optional)","mpack-node.c")],
  observe=["returned node, error"])
p("C19","Text checks accept exactly well-formed UTF-8 (and no NUL where promised)",
  "Every API that promises UTF-8 accepts a byte string exactly when it is well-formed (no overlong forms, surrogates, code points above U+10FFFF, stray or missing continuation bytes), and every API that promises a C string rejects embedded NUL bytes and, unless it also promises UTF-8, nothing else. This holds for writing, reading, typed reads and nodes alike.",
  ["inputs"],"all byte strings, every checking API",
  "tests list some valid and invalid sequences against one or two of the APIs",
  ["mpack-common.c","mpack-reader.c","mpack-expect.c","mpack-node.c","mpack-writer.c"],
  [("mpack_utf8_check_impl, mpack_str_check_no_null","mpack-common.c")],
  observe=["acceptance or error of each API"])
p("C20","Copied and allocated data is exact, bounded and terminated",
  "Functions that copy or allocate string, binary or extension data deliver exactly the bytes of the object, add a terminator exactly when promised, and never write beyond the given buffer or accept more than the given maximum (terminator included). When they fail they report the documented error, hand out no allocation, and a promised C string is left as a valid empty string.",
  ["inputs","fault_sequences"],"all contents, buffer sizes, limits and failure points",
  "tests use a few lengths; failures in the middle of a streamed string are not covered",
  ["mpack-reader.c","mpack-expect.c","mpack-node.c"],
  [("mpack_read_cstr/utf8_cstr, mpack_read_bytes_alloc_impl","mpack-reader.c"),("mpack_expect_cstr_alloc etc.","mpack-expect.c"),("mpack_node_copy_*, mpack_node_*_alloc","mpack-node.c")],
  observe=["destination buffer, canaries, live allocations"])
p("C21","Any allocation failure is reported as a memory error and leaks nothing",
  "If any single allocation or reallocation fails during any operation of a writer, reader or tree, the object ends in the memory-error state with its error callback called once, earlier successful results stay valid, and after destroying it no allocation remains, nothing is freed twice and no memory is corrupted. No operation reports success after losing data to a failed allocation.",
  ["fault_sequences","histories"],"every allocation point of every call sequence",
  "tests fail allocations in a few fixed scenarios and mostly check only the error code",
  ["mpack-writer.c","mpack-reader.c","mpack-node.c","mpack-common.c","mpack-expect.c"],
  [("MPACK_MALLOC result checks","mpack-writer.c"),("mpack_growable_writer_flush/teardown, mpack_builder_add_page","mpack-writer.c"),("mpack_tree_parse_start/push_stack/parse_children/reserve_fill","mpack-node.c")],
  observe=["error, callback count, live allocations, sanitizer reports"])
p("C22","I/O failures are reported and files are handled exactly as asked",
  "If reading or writing the underlying stream or file fails at any point (short write, read error, failed close, end of data), the object ends in an error state and never reports success for incomplete data. A file handed over with close-on-finish is closed exactly once by destruction, one handed over without is left open, and a file written without error contains exactly the message.",
  ["fault_sequences","crash_points"],"every failure point of fill, flush, fread, fwrite, fseek, fclose",
  "tests fail the n-th file call in a few scenarios; failures combined with buffering, skipping and close are not enumerated",
  ["mpack-reader.c","mpack-writer.c","mpack-node.c"],
  [("mpack_file_reader_fill/skip/teardown_close","mpack-reader.c"),("mpack_file_writer_flush/teardown_close","mpack-writer.c"),("mpack_file_tree_read, mpack_tree_init_stdfile","mpack-node.c")],
  observe=["error, file contents, open/close counts"])
p("C23","Jumping out of an error callback is always safe",
  "If the error callback of a reader, writer or tree leaves by a non-local jump, whatever call it was raised in (destruction included), the object can still be queried for its error and destroyed afterwards: the callback is not called again, nothing leaks, nothing is freed or closed twice.",
  ["fault_sequences","histories"],"every call that can raise an error, at every point",
  "the tests never jump out of a callback",
  ["mpack-reader.c","mpack-writer.c","mpack-node.c","mpack-expect.c"],
  [("mpack_read_native_noerrorfn","mpack-reader.c"),("mpack_builder_resolve (deferred callback)","mpack-writer.c"),("free before flagging","mpack-expect.c")],
  observe=["live allocations, close counts, error"])
p("C24","Timestamps are written minimally and read back exactly or rejected",
  "Writing a timestamp uses the 4, 8 or 12 byte form, whichever is the smallest that holds it, and reading it back by any API returns the same seconds and nanoseconds for the whole signed 64-bit range. Nanoseconds above 999999999 are refused when writing and reported as invalid data when reading, as are timestamp payloads of any other length; other kinds and extension types are type errors.",
  ["inputs"],"all seconds, nanoseconds, payload lengths and ext types",
  "tests sample a few points around the form boundaries",
  ["mpack-writer.c","mpack-reader.c","mpack-expect.c","mpack-node.c"],
  [("mpack_write_timestamp","mpack-writer.c"),("mpack_read_timestamp","mpack-reader.c"),("mpack_node_timestamp","mpack-node.c"),("mpack_expect_timestamp","mpack-expect.c")],
  observe=["bytes written, values read, errors"])
p("C25","Build configuration never changes results",
  "Debug and release, speed- and size-optimised, with or without the C library, compiler builtins, tracking, compatibility, internal builder storage, reallocation or small buffers, compiled as C or C++, the same calls give the same bytes, values and errors. Only these differences apply: misuse is detected only where tracking is enabled, features compiled out are absent or reported as unsupported, a build without doubles may truncate instead of round when it shortens one, and a typed string read of a malformed header may report either the wrong type or malformed data.",
  ["configurations","inputs"],"all supported build options against all inputs",
  "each configuration runs the same sampled tests; configuration-specific code paths for unsampled values are not compared with each other",
  ["mpack-platform.h","mpack-platform.c","mpack-common.h","mpack-writer.c","mpack-reader.c","mpack-node.c","mpack-expect.c"],
  [("MPACK_OPTIMIZE_FOR_SIZE switches","mpack-reader.c"),("mpack_memcpy/memmove/memcmp/strlen","mpack-platform.c"),("mpack_load_/mpack_store_","mpack-common.h")],
  observe=["logs of the same program in every configuration"])
p("C26","Debug text is complete, bounded and the same from every source",
  "Printing a message produces one well-defined text: nested arrays and maps with separators and indentation, strings escaped, numbers in full, blobs by length and hex prefix. The text is the same from raw data, from a file and from a parsed tree, delivered whole to a callback whatever its length, and to a buffer as the longest prefix that fits, always terminated. Extra or missing data is stated in the raw-data text.",
  ["inputs"],"all messages, buffer sizes and text lengths",
  "tests print a few messages into large buffers",
  ["mpack-reader.c","mpack-node.c","mpack-common.c"],
  [("mpack_print_element, mpack_node_print_element","mpack-reader.c"),("mpack_print_append/flush","mpack-common.c"),("mpack_tag_debug_pseudo_json","mpack-common.c")],
  observe=["text delivered"])
p("C27","Tag comparison is a consistent total order that respects value",
  "Comparing two tags gives zero exactly when they denote the same kind and value (a non-negative signed integer equals the unsigned one of the same value; extensions compare type and length), and otherwise orders them antisymmetrically and transitively, integers, lengths and counts numerically within a kind. Equality and typed matching of tags agree with it.",
  ["inputs"],"all pairs and triples of tags",
  "tests compare a few pairs",
  ["mpack-common.c","mpack-common.h","mpack-expect.c"],
  [("mpack_tag_cmp","mpack-common.c"),("mpack_tag_equal","mpack-common.h"),("mpack_expect_tag","mpack-expect.c")],
  observe=["result of comparing tags"])
p("C28","What is written reads back as the same document",
  "Any document written through the API without error, by any mix of value, tag, explicit, automatic and chunked writes and to any destination, reads back with the tag reader, the typed reader and the tree parser as the same document: same structure, kinds, values and contents. Re-encoding what was read tag by tag reproduces the same bytes.",
  ["inputs","histories","configurations"],"all documents, write styles and reading APIs",
  "tests never compose the writer with the readers over generated documents",
  ["mpack-writer.c","mpack-reader.c","mpack-node.c","mpack-expect.c"],
  [("mpack_write_*/mpack_build_*","mpack-writer.c"),("mpack_read_tag","mpack-reader.c"),("mpack_tree_parse","mpack-node.c")],
  observe=["documents reconstructed by each reading API"])
p("C29","Separate objects never influence one another, even when used at once",
  "The library keeps all its state in the objects the caller hands it. Any number of writers, readers, trees and printers can be in use at the same time, their calls taken in turns, one used from within a callback of another, or from different threads without locks (an object itself by one at a time), and each behaves exactly as it would alone: same results, errors, callbacks and output.",
  ["schedules","histories","inputs"],"all pairs of programs on separate objects and all interleavings of their calls and callbacks",
  "the tests use one object at a time in one thread; nothing in them would notice a buffer, table or counter shared between objects",
  ["mpack-writer.c","mpack-reader.c","mpack-expect.c","mpack-node.c","mpack-common.c"],
  [("every function that needs scratch space (printing, timestamps, parse stack, pages)","mpack-reader.c"),("mpack_tree_parser_init","mpack-node.c"),("mpack_builder_t","mpack-writer.h")],
  observe=["the recorded execution of each object, against the specification of that object alone"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
