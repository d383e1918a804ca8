#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are kept)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":n,"meaning":m,"where":w} for n,m,w in (state or [])],
      "mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}})
B="src/builder/"
p("C01","A built document reads back exactly as it was built",
 "Every document of objects, arrays, strings, numbers, booleans and nulls that is encoded through the scalar, object and array builders (owned or into a caller's buffer, nested to any allowed depth) reads back as the same document: same types, same element counts, same array order, same keys and equal values. All reading routes agree on it: typed getters by key or index, generic getters, type queries, null tests, key/value/entry iterators and lengths. Iterators give the same items however they are driven.",
 ["inputs","programs"],"all documents and all builder/reader call routes",
 "The tests build about a dozen fixed documents and read each through a few accessors; value kind x position x container x size class combinations are unbounded.",
 [B+"array.rs",B+"object.rs",B+"scalar.rs","src/vec.rs","src/yason/array.rs","src/yason/object.rs","src/yason/mod.rs"],
 [("value entries and outlined values",B+"array.rs"),("key offsets and key-value area",B+"object.rs"),("offset arithmetic of readers","src/yason/array.rs, src/yason/object.rs"),("varint length","src/util.rs")],
 ["Yason/Object/Array/Value accessors and iterators"],[("value entry position","where the next array slot is written",B+"array.rs"),("key offset table","sorted offsets into the object",B+"object.rs")])
p("C02","Objects are key-ordered and every key is found, whatever the push order",
 "For every set of distinct keys, pushed in every order into an object builder that is told the keys are unsorted, the finished object iterates its entries in order of key length and then key bytes, identically for every push order. Looking up any pushed key by any accessor finds exactly its own value, and looking up any other key reports absence. The same holds when keys arrive in that order and the builder is told so, and for objects nested in objects and arrays.",
 ["inputs","histories"],"all sets of distinct keys and all permutations of their insertion",
 "The tests use a few hand-written orders of a few short keys; sorted insertion and binary search go wrong only for particular orders, lengths and counts.",
 [B+"object.rs","src/yason/object.rs","src/util.rs"],
 [("sorted insertion by binary search",B+"object.rs"),("lookup by binary search","src/yason/object.rs"),("length-then-bytes comparison","src/util.rs")],
 ["Object iter/key_iter/value_iter/get/contains_key/typed getters"],[("key offset table","offsets sorted by (length, bytes)",B+"object.rs")])
p("C03","Bytes follow the published binary grammar in both directions",
 "Every document the library produces - by builders, JSON parsing, query results or copies - is, byte for byte, a sentence of the binary grammar in the crate documentation: type codes, little-endian sizes that equal the encoded extent, element counts, key offsets ordered by key length and then bytes, offset-or-inlined array entries, minimal 1-4 byte string lengths. Conversely, every sentence of that grammar restricted to the supported types is read correctly whatever legal layout it uses, such as key-value pairs or outlined values stored in another order.",
 ["inputs"],"all documents; all legal layouts of each",
 "Tests only read what the same library wrote, so writer and reader can drift together from the published format without any test noticing.",
 ["src/lib.rs",B+"array.rs",B+"object.rs",B+"scalar.rs","src/vec.rs","src/util.rs","src/data_type.rs","src/binary.rs","src/yason/array.rs","src/yason/object.rs"],
 [("size fields","src/vec.rs, src/yason"),("offset fields","src/vec.rs, src/yason"),("varint","src/util.rs"),("type codes","src/data_type.rs")],
 ["Yason::as_bytes; Yason::new_unchecked plus accessors"])
p("C04","Encoding is deterministic and only appends to the caller's buffer",
 "Encoding the same document with the same sequence of calls always yields the same bytes, whatever the previous contents, spare capacity or uninitialised memory of the buffer and whether the owned or the buffer-borrowing interface is used. Encoding into a caller's buffer leaves the bytes already in it untouched, also when the encoding is refused or abandoned, and returns exactly the bytes appended.",
 ["inputs","configurations","histories"],"all documents x all prior buffer lengths, capacities and memory contents",
 "Tests use fresh or one pre-filled vector; leaked or stale bytes show up only for particular element kinds and heap contents.",
 [B+"array.rs",B+"object.rs",B+"scalar.rs","src/vec.rs","src/json.rs"],
 [("skipped regions are always filled in","src/vec.rs"),("start positions relative to the buffer",B+"array.rs, "+B+"object.rs")],
 ["as_bytes, the caller's Vec"],[("start_pos / bytes_init_len","position of the document in the buffer",B)])
p("C05","Builders accept exactly well-formed construction sequences",
 "In every sequence of builder calls, a finished document contains exactly the elements whose pushes succeeded, and a push that returns an error leaves no trace in the document. Finishing succeeds exactly when the declared number of elements was pushed (otherwise the mismatch is reported with both counts), pushing beyond the declared number is refused, and after an embedded builder was dropped unfinished or failed to finish, every further push to and finish of its ancestors is refused as incomplete. No sequence of calls panics or yields a corrupt document.",
 ["histories","programs"],"all sequences of push/nest/finish/drop calls with all declared counts",
 "Tests exercise one missing push and one unfinished child; the misuse sequences (over-push, abandoned grandchildren, refused push followed by more pushes) are combinatorial.",
 [B+"array.rs",B+"object.rs",B+"mod.rs"],
 [("depth comparison detects open children",B+"mod.rs"),("element count check",B+"array.rs, "+B+"object.rs")],
 ["results of every builder call; the finished document"],[("value_count","elements pushed so far",B),("total_nested_depth","currently open levels",B)])
p("C06","Containers nest up to exactly 100 levels",
 "Building, parsing or converting a document whose containers nest at most 100 deep succeeds, and anything deeper is refused with the nesting error - for every mix of objects and arrays, at every place of the document, and again after earlier siblings went deep or were refused. Every document of the allowed depth can be read, compared, queried, copied and formatted in both styles.",
 ["inputs","histories"],"all container patterns, depths around the limit, and sequences of descents",
 "Tests cover one homogeneous array chain and one object chain built in a single descent.",
 [B+"mod.rs",B+"array.rs",B+"object.rs","src/json.rs","src/format/pretty.rs"],
 [("shared depth counter",B+"mod.rs"),("depth check before an element is registered",B+"array.rs, "+B+"object.rs"),("indentation","src/format/pretty.rs")],
 ["BuildError::NestedTooDeeply; all readers and formatters"],[("depth counter","number of open levels",B+"mod.rs")])
p("C07","Importing JSON yields the document the text denotes",
 "Parsing a JSON text succeeds exactly when it is valid JSON within the size, nesting and number limits (an error otherwise, never a panic), and the result is the document the text denotes: all escapes decoded, numbers by value, array order kept, and for repeated keys the last one. Parsing to an owned document, parsing into a caller's buffer and converting a JSON value tree give identical bytes, independent of whitespace, key order and escape spelling in the text.",
 ["inputs"],"all JSON texts and value trees",
 "Tests parse a handful of fixed texts.",
 ["src/json.rs",B+"array.rs",B+"object.rs"],
 [("value tree traversal in three entry points","src/json.rs"),("number conversion","src/json.rs")],
 ["YasonBuf::parse, Yason::parse_to, YasonBuf::try_from"])
p("C08","Formatted output is valid JSON for the same document",
 "Formatting any document, compact or pretty, through any formatting entry point, produces valid JSON text that denotes exactly that document: same structure, the same strings for every Unicode character including all control characters, and numbers of exactly the same value, with object members in the document's key order. Compact output contains no insignificant whitespace, and parsing the output back yields an equal document (if its numbers are within the range of JSON import, see C09, and no object repeats a key, see C28).",
 ["inputs"],"all documents; all Unicode scalar values in keys and strings",
 "Tests compare about thirty fixed strings.",
 ["src/format/mod.rs","src/format/pretty.rs","src/yason/mod.rs"],
 [("escape table","src/format/mod.rs"),("separator state (first element)","src/format/mod.rs"),("number formatting","src/format/mod.rs")],
 ["Yason::format, Yason::format_to"])
p("C09","Numbers are stored exactly or rounded by the documented decimal rule",
 "Every decimal number the number type can represent is stored and read back with exactly its value in every position, in any of its representations. A JSON number, of any length, is stored as its value rounded half-up to 38 significant digits; after rounding, a magnitude of 1e126 or more is refused as overflow, one below 1e-130 becomes zero, and minus zero is zero.",
 ["inputs"],"all decimal numbers: sign, coefficient length, scale, and all textual forms",
 "Tests check a few dozen literals; rounding carries, 1/2/3-byte encodings, extreme scales and exponents are corner combinations.",
 ["src/json.rs","src/vec.rs","src/yason/mod.rs"],
 [("length-prefixed number encoding","src/vec.rs"),("text to decimal conversion","src/json.rs")],
 ["number getters, JSON import/export"])
p("C10","Equality is equality of documents",
 "Two documents compare equal exactly when they denote the same document: same type; numerically equal numbers however they are encoded; identical strings, booleans; arrays element by element in order; objects with the same keys and equal values regardless of insertion order or byte layout. Equality is therefore reflexive, symmetric and transitive and never panics on valid documents.",
 ["inputs"],"all pairs of documents, built by all routes",
 "Tests compare a few pairs; equality is a relation over pairs, and layouts multiply it.",
 ["src/yason/mod.rs","src/yason/array.rs","src/yason/object.rs"],
 [("lazy structural comparison","src/yason/mod.rs, src/yason/array.rs, src/yason/object.rs")],
 ["Yason::equals, == on Yason and YasonBuf"])
p("C11","The path parser accepts exactly the path language",
 "A path is: optional spaces, '$', then steps '.name' (ASCII letter then letters and digits), '.\"quoted\"' (any characters; only \\b \\f \\n \\r \\t \\\" \\/ \\\\ escapes, which stay part of the name as spelled), '.*', '..name' or '..\"quoted\"', and '[...]' holding '*' or a comma list of subscripts or 'a to b' ranges of subscripts n or 'last' or 'last - n' (n at most 2147483647), optionally ended by '.count()', '.size()' or '.type()'. ASCII whitespace is allowed between tokens but after '$' only spaces before the first step. Every other text is refused with an error and no text, however long, makes the parser panic.",
 ["inputs"],"all strings",
 "Unit tests parse about fifty fixed strings; the property is about the complement of a language too.",
 ["src/path/parse.rs"],[("hand-written recursive parser over bytes","src/path/parse.rs")],["str::parse::<PathExpression>"])
p("C12","A path query returns exactly the values the path denotes, in order",
 "Querying with wrapper returns, in document order per step, exactly the values the path denotes: key and wildcard member steps descend through arrays at any depth to objects; subscripts, 'last - n', ranges (either direction, clipped to the array) and lists select elements in listed order, a value that is not an array counting as a one-element array that is selected at most once; '..key' selects the member of an object first and then searches all its members, and arrays, recursively. count() yields the number of selected values (also 0), size() the length of each selected array and 1 for anything else, type() the type name of each selected value. This holds for a path of any number of steps: evaluating one never exhausts the stack.",
 ["inputs"],"all documents x all paths",
 "Tests run about 60 (document, path) pairs, never the empty array or the first element addressed through last.",
 ["src/path/query.rs","src/path/mod.rs"],
 [("recursive selector","src/path/query.rs"),("range clipping","src/path/query.rs")],["PathExpression::query"])
p("C13","exists() answers whether the query selects anything",
 "For every document and every path without a trailing method, the existence test is true exactly when the same path selects at least one value, and for every path with a trailing method it is refused as an invalid path expression on every document; this holds for paths of any number of steps.",
 ["inputs"],"all documents x all paths",
 "exists short-circuits with separate control flow in every step kind; tests check about 30 pairs.",
 ["src/path/query.rs","src/path/mod.rs"],[("for_exists short circuits","src/path/query.rs")],["PathExpression::exists"])
p("C14","Query results are the same through every delivery mode",
 "With wrapper, the values returned in a fresh list, in a caller's reused query buffer and encoded into a caller's reused result buffer are the same values in the same order, whatever the buffers held before, and the encoded result is a well-formed array document (no result at all when nothing was selected). Without wrapper, no value, the single value, or the multiple-values error is reported for zero, one or more selected values, and a path with a trailing method is refused. Formatting any of these results gives the JSON array of the selected values (or the single value, or nothing).",
 ["inputs","histories"],"all documents x paths x buffer reuse histories",
 "Tests use each mode with a few paths and mostly fresh buffers.",
 ["src/path/mod.rs",B+"array.rs","src/format/mod.rs"],
 [("buffer clearing","src/path/mod.rs"),("embedding sub-documents by copying bytes",B+"array.rs")],
 ["PathExpression::query, QueriedValue::format_to"],[("query_buf, result_buf","caller-provided reused buffers","src/path/mod.rs")])
p("C15","Serde round trips preserve the document",
 "Serialising any document and deserialising it again yields the same document: with a binary format the identical bytes, with a human-readable format an equal document (if its numbers are within the range of JSON import, see C09, and no object repeats a key, see C28) carried as its compact JSON text in a string. Deserialising a string that is not valid JSON fails with an error.",
 ["inputs","configurations"],"all documents x serde formats",
 "One array through one binary format is tested; the human-readable branch is not tested at all.",
 ["src/serde.rs"],[("is_human_readable branch in both directions","src/serde.rs")],["serde::Serialize/Deserialize for YasonBuf"])
p("C16","Format limits are enforced exactly, never by truncation",
 "Values up to the limits of the format are accepted and read back exactly: strings up to 268435455 bytes, keys up to 65535 bytes, 65535 elements per container. Anything beyond - a longer string or key, more elements in a JSON container or in a wrapped query result written to a buffer, a container larger than its size field can express, an array subscript above 2147483647 - is refused with an error, and every length and count around each encoding boundary (127/128, 255/256, 16383/16384, 2097151/2097152, 65535) round-trips.",
 ["inputs"],"all string, key, count, size and subscript magnitudes",
 "Tests never exceed a few dozen bytes or elements.",
 ["src/vec.rs","src/util.rs","src/json.rs",B+"object.rs",B+"scalar.rs","src/path/mod.rs","src/path/parse.rs"],
 [("varint","src/util.rs"),("count conversion",B+"mod.rs"),("length checks","src/vec.rs, "+B+"object.rs")],
 ["builders, JSON import, queries, path parser"])
p("C17","Extracting or copying any part of a document preserves it",
 "Every sub-document reached in any way can be viewed as, copied to or re-encoded as a document of its own that denotes exactly that part, independent of the parent's bytes after it, and usable with all readers, formatters, comparisons and queries. Copies of whole documents have identical bytes, also when copied into a document that held something else.",
 ["inputs"],"all documents x all their sub-documents",
 "A few copies of top-level documents are tested.",
 ["src/yason/mod.rs","src/yason/array.rs","src/yason/object.rs"],
 [("slicing by size field","src/yason/array.rs, src/yason/object.rs"),("re-encoding scalars","src/yason/mod.rs")],
 ["Value::try_to_yason, Object/Array::yason, to_owned, to_yason_buf, clone_from_yason, Value::try_from"])
p("C18","Reading a truncated document reports an error, never a wrong value",
 "For every document and every proper prefix of its bytes (long enough for the type byte and, for a container, its header), every read - accessor, iterator, comparison through the fallible interface, formatting, query - either gives exactly what it gives on the complete document or returns an error. It never panics, never reads outside the prefix and never returns a different value.",
 ["inputs","fault_sequences"],"all documents x all truncation points x all reads",
 "No test reads damaged bytes.",
 ["src/yason/mod.rs","src/yason/array.rs","src/yason/object.rs","src/util.rs"],
 [("checked slicing","src/yason/mod.rs"),("checked varint","src/util.rs")],
 ["all readers over Yason::new_unchecked of a prefix"])
p("C19","Formatting reports a failing writer and writes only a prefix",
 "When the writer given to a formatter fails at any write, formatting returns the writer error at once, and what was written before is a prefix of the complete output; the same document formats completely and identically afterwards. This holds for compact and pretty formatting of documents and of query results.",
 ["fault_sequences","inputs"],"all documents x all failing write positions",
 "No test uses a failing writer.",
 ["src/format/mod.rs","src/format/pretty.rs","src/path/mod.rs"],
 [("error propagation at every write","src/format/mod.rs, src/format/pretty.rs")],
 ["Yason::format_to, QueriedValue::format_to"])
p("C20","Allocation failure is reported and leaves builders intact",
 "When any single memory allocation made by the builders, scalar encoders, document copy, path parser or path query fails, the call returns the allocation error instead of aborting the process. Repeating a refused builder call then succeeds and the finished document is the same as if no allocation had failed.",
 ["fault_sequences","histories"],"all call sequences x all failing allocation positions",
 "No test makes an allocation fail.",
 ["src/vec.rs",B+"array.rs",B+"object.rs",B+"scalar.rs","src/path/mod.rs","src/path/parse.rs","src/yason/mod.rs"],
 [("try_reserve before every write","src/vec.rs and its callers")],
 ["results of the calls under a failing allocator"])
p("C21","Pretty output has the fixed layout",
 "Pretty output is the compact output with layout added and nothing else: every array element and object member starts on its own line indented by two spaces per level, key and value are separated by ' : ', a container that is a member's value starts on a new line at its member's indentation, and the closing bracket, also of an empty container, stands on its own line at the indentation of its container. Formatting does not depend on what was formatted before.",
 ["inputs"],"all documents",
 "Tests compare a dozen fixed outputs.",
 ["src/format/pretty.rs"],[("indent level bookkeeping","src/format/pretty.rs")],["Yason::format_to(pretty), QueriedValue::format_to(pretty)"],[("current indent level","nesting of the container being written","src/format/pretty.rs")])
p("C22","Wrong-type, out-of-range and missing accesses are reported as such",
 "A typed read of a value of another type reports a type mismatch naming the expected and the actual type; an array read at an index not below the length reports out of bounds with length and index; an object read of an absent key reports absence, not an error. This holds for every accessor, value type, index and key of every document, and type tests answer without error for present values.",
 ["inputs"],"all documents x accessors x indexes x keys",
 "Tests check one wrong type for a few accessors.",
 ["src/yason/mod.rs","src/yason/array.rs","src/yason/object.rs"],
 [("check_type / check_index / check_key","src/yason")],["YasonError values of accessors"])
p("C23","Operations at the same time or one after another do not affect each other",
 "What an operation gives depends only on its arguments. Any number of builders, iterators, lookups, queries, imports, copies and outputs may be in progress at once - advanced alternately in one thread, run from inside a writer that the library is writing to, or run in several threads at any relative speed - and each gives exactly the result it gives when run alone, and none makes another wait for ever. Nothing that was built, parsed, read, refused or abandoned before changes a later result: in particular a document, path text, JSON text or key that was replaced at the same address answers for what is there now. Documents, values, iterators, path expressions, query results, builders and errors can be sent to and shared between threads.",
 ["schedules","histories"],"all operations, all interleavings",
 "Tests run one operation at a time to its end, and never the same addresses with other contents.",
 ["src/builder/mod.rs","src/builder/object.rs","src/builder/array.rs","src/format/mod.rs","src/format/pretty.rs","src/path/mod.rs","src/path/query.rs","src/yason/mod.rs","src/yason/object.rs","src/yason/array.rs","src/json.rs"],
 [("no state outside the arguments: depth and indent levels live in the builder and formatter","src/builder/mod.rs, src/format/pretty.rs")],
 ["results of every public call under every schedule"])
p("C24","Errors say what went wrong and where",
 "The message of an error names what the error is about: both counts of a count mismatch, length and index of an access out of bounds, expected and actual type of a mismatch, the code of an invalid type, the length or count that is beyond a limit - each under its own label - and no two kinds of error without values share a message. A path syntax error gives the position, in bytes from the start of the text, of the token at which the text stops being a path; a JSON syntax error gives the line and column. Errors keep kind and message when they are passed on as access or formatting errors. Type codes 1 to 6 convert to their types, names and back, and every other code is refused by name.",
 ["inputs"],"all errors of all operations",
 "Tests look at error kinds of a few examples and hardly ever at a message; positions are checked for about twenty texts.",
 ["src/builder/mod.rs","src/yason/mod.rs","src/format/mod.rs","src/path/parse.rs","src/data_type.rs","src/json.rs"],
 [("Display of the error types","src/builder/mod.rs, src/yason/mod.rs, src/format/mod.rs, src/data_type.rs, src/path/parse.rs"),("parser position at the time of the error","src/path/parse.rs"),("conversions between error types","src/builder/mod.rs, src/yason/mod.rs, src/format/mod.rs")],
 ["Display of BuildError, YasonError, FormatError, PathParseError, InvalidDataType"],[("pos","bytes of the path consumed so far","src/path/parse.rs")])
p("C25","Values of unsupported types are refused by name and hide nothing else",
 "The published grammar has types the library does not support. In a document that contains a value of such a type, or of an unknown type code, every read that needs this value - getter, iterator step, type query, conversion, query that selects it, formatting of a document around it - fails with the invalid-type error naming its code; none panics or takes it for something else. Everything else in the document stays readable: counts, keys, the other elements by getter and by iteration past the value, and queries for other values; the document never compares equal to one of supported types, and copies keep its bytes.",
 ["inputs"],"all documents x all positions x all unsupported type codes",
 "No test reads a document that the library did not write itself.",
 ["src/yason/mod.rs","src/yason/array.rs","src/yason/object.rs","src/data_type.rs","src/format/mod.rs","src/path/query.rs"],
 [("type codes are checked at every read","src/yason/mod.rs, src/data_type.rs")],
 ["all readers over documents with foreign type codes"])
p("C26","Everything that is dropped, refused or abandoned is released",
 "The library keeps no memory. Once documents, builders, iterators, path expressions, query results and errors are dropped - finished, refused, abandoned at any point, or cut short by a failing writer or a failing allocation - all the memory they took is released, so an operation can be repeated without end in constant memory. This holds for building, import, reading, formatting, copying, comparing, serializing, path parsing and querying, for accepted and refused inputs alike.",
 ["histories","inputs"],"all operations, all inputs, all points of abandonment",
 "No test looks at memory in use; a leak shows only in repetition.",
 ["src/vec.rs","src/builder/mod.rs",B+"array.rs",B+"object.rs","src/yason/mod.rs","src/path/parse.rs","src/path/query.rs","src/path/mod.rs","src/format/mod.rs","src/json.rs"],
 [("ownership of buffers, path steps and error texts: no state outlives its owner","src/builder, src/path/parse.rs, src/yason/mod.rs")],
 ["heap memory in use after the call and the drop of its results"])
p("C27","Work and memory grow in proportion to what is read or written",
 "An array element is found in constant work and an object member in work that grows with the logarithm of the number of members, by accessors and by path steps alike; lengths, types and the first step of an iterator take constant work; an existence query stops at the first match, and a query without wrapper at the second. Building, import, iteration, formatting, copying and comparing take work and memory in proportion to the size of the document or text, but for a logarithm and for moving the offsets of larger keys when a key is inserted before them; parsing a path takes work in proportion to its text, and a query in proportion to the values its steps pass over. None of these takes the square of it, also not for refused inputs.",
 ["inputs"],"all shapes of documents and texts at all sizes",
 "Tests use documents of a few values, where a scan and a search, or a single and a double pass, take the same time.",
 ["src/yason/object.rs","src/yason/array.rs",B+"object.rs",B+"array.rs","src/vec.rs","src/path/query.rs","src/path/parse.rs","src/json.rs","src/format/mod.rs","src/format/pretty.rs"],
 [("binary search over the sorted key offsets","src/yason/object.rs, src/builder/object.rs"),("direct access by offset table","src/yason/array.rs"),("amortised growth of buffers","src/vec.rs")],
 ["machine instructions and heap memory of every public call"])
p("C28","A key pushed more than once stays as many entries and hides no other",
 "Object builders do not remove repetitions: an object in which a key was pushed more than once holds every pushed entry. The length counts all of them, every iterator and '.*' path step gives all of them with the pushed values, entries of one key next to each other in the key order, and formatted output contains all of them in that order; the bytes follow the grammar. Looking such a key up, by any accessor or path step, gives one of the values pushed under it, the same one by each; every other key is found or absent as if there were no repetition. This holds for every place and number of repetitions, in any push order, declared sorted or not, and in nested objects.",
 ["inputs","histories"],"all sequences of pushes with repeated keys",
 "No test pushes a key twice into a builder.",
 [B+"object.rs","src/yason/object.rs","src/format/mod.rs","src/path/query.rs"],
 [("the insertion point of an equal key","src/builder/object.rs"),("lookup among equal keys","src/yason/object.rs")],
 ["length, iteration, lookup, path, text of objects built with repeated keys"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
