#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))

ENC = "src/encoder/mod.rs"; ENB = "src/encoder/encodable.rs"; VS = "src/encoder/value_stack.rs"
VAL = "src/value/mod.rs"; ARR = "src/value/array.rs"; DIC = "src/value/dict.rs"; PTR = "src/value/pointer.rs"
SZD = "src/value/sized.rs"; VAR = "src/value/varint.rs"; SK = "src/shared_keys.rs"; SCO = "src/scope.rs"
ALL = "src/alloced.rs"; MUT = "src/mutable.rs"; MAR = "src/mutable/array.rs"; MDI = "src/mutable/dict.rs"
SER = "src/ser.rs"; DE = "src/de.rs"

prop("C01", "Documents round-trip through the encoder",
 "Whatever tree of arrays and dicts holding null, undefined, booleans, numbers, strings and binary data is written to an encoder, the finished bytes decode without error to the same tree: the same kinds and values, array elements in the order written, and every dict key with the value written for it. This holds whichever way the encoder is finished (bytes, self-owning value, scope) and whichever entry point decodes it.",
 ["inputs", "programs"],
 "For every document (every shape, nesting, leaf kind, string/data length, element count and key insertion order) the encoder accepts.",
 "Tests encode a couple of fixed documents (people JSON, small literals); they never vary shapes, one-character strings, empty collections, counts past the inline limit, or key orders.",
 [ENC, ENB, VS, VAL, ARR, DIC], [("write values and headers, sort keys, relative pointers", ENC+" Encoder::_write/end_array/end_dict"), ("per-type encoding", ENB), ("decoding", VAL)],
 ["Encoder::finish / finish_value / finish_scoped then Value::from_bytes and the read API"])

prop("C02", "Every number is preserved exactly",
 "Any integer or floating point number of any supported Rust numeric type (8 to 64 bits, signed, unsigned, pointer-sized, single and double precision, also inside an Option) that is written to an encoder or stored in a mutable collection reads back as exactly the same number. Integers stay integers and floats stay floats, and an unsigned number above the signed 64-bit range is reported as unsigned.",
 ["inputs"],
 "For every value of every numeric type, in narrow and wide collections and in mutable collections.",
 "Tests write a few small positive numbers; the encoding has a different byte length and sign rule per magnitude, which only sweeping the value space reaches.",
 [ENB, VAL, MUT, SZD], [("integer sizing and tagging", ENB+" i64/u64/i16/u16 Encodable impls"), ("integer decoding", VAL+" to_int/to_unsigned_int/to_double")],
 ["Encoder::write_value / MutableArray::push / MutableDict::insert then to_int, to_unsigned_int, to_double, to_float"])

prop("C03", "Size and distance never change what is read back",
 "However large a document grows, and however far a value or key ends up from the collection that refers to it, every value, key and element count reads back unchanged: crossing any internal limit (short versus long references, inline versus extended counts and lengths, direct versus indirect root) is invisible to the reader. What the format cannot hold (a distance beyond the longest reference) is refused with an error, never a panic or another document.",
 ["inputs"],
 "For every amount of data between a reference and its target and every number of elements, including all values around each representation threshold.",
 "The one large-document test has one data shape whose references are all far away; the thresholds (16 KiB distances, 2047 elements, varint steps) are crossed only at arbitrary places.",
 [ENC, ENB, SZD, PTR, ARR, VAR], [("narrow/wide decision", ENC+" _array_should_be_wide/_dict_should_be_wide"), ("pointer fix-up", ENC+" _fix_array_pointers/_fix_dict_pointers"), ("root indirection", ENC+" _finished_collection"), ("extended counts", ENB+" write_valuestack_collection; "+ARR+" len/first_pos")],
 ["encode, decode, deep comparison with the source document"])

prop("C04", "Encoder output conforms to the Fleece wire format",
 "Everything the encoder produces can be read by an independent implementation of the Fleece format that knows nothing of this crate, and means the same document: even-aligned values, root reference in the last two bytes, backward references measured from the referring slot, little-endian numbers in the documented layout, sorted dict keys (shared integer keys first). The golden files shipped with the project decode to the same document with both readers and the single-person one is reproduced byte for byte.",
 ["inputs"],
 "For every document and encoder configuration (with and without shared keys).",
 "Tests only read back with this crate's own reader, so a matching pair of mistakes in writer and reader goes unnoticed except on one golden file.",
 [ENC, ENB, SZD], [("wire layout", ENB), ("key order", ENC+" Encoder::dict_key_cmp")],
 ["bytes returned by Encoder::finish read by a reference decoder written from the format description"])

prop("C05", "Every well-formed document decodes to its meaning",
 "Any well-formed Fleece document is accepted and read with its defined meaning, whatever legal encoding choices its writer made: narrow or wide collections, inline or referenced values, chained references, integers with more bytes than needed, doubles stored in 32 bits, extended counts or lengths for small collections, shared sub-values. The checked and unchecked entry points and the typed (array/dict) entry points agree on it.",
 ["inputs"],
 "For every document and every legal way of encoding it, not just the one this crate's encoder picks.",
 "Tests decode two golden files and this encoder's own output, which use a single style each.",
 [VAL, ARR, DIC, PTR, VAR], [("root lookup and validation", VAL+" _find_root/_validate"), ("pointer following", PTR), ("array layout", ARR), ("varint", VAR)],
 ["Value::from_bytes, from_bytes_unchecked, clone_from_bytes, Array/Dict::from_bytes and accessors"])

prop("C06", "Decoding untrusted bytes is total and memory safe",
 "Handing any byte string whatsoever to the checked decoding entry points returns a value or an error: it never panics, aborts, hangs or reads outside the given bytes. If it is accepted, every further read through the public API (any accessor on any reachable value, indexing inside or outside the length, iteration, key lookup, debug printing, copying to a mutable or into an encoder) is panic free and stays inside the given bytes too.",
 ["inputs"],
 "For every byte string, including truncated, corrupted and adversarial ones.",
 "No test decodes malformed input at all.",
 [VAL, ARR, DIC, PTR, VAR, DE], [("bounds checks", VAL+" _validate/_from_raw/required_size"), ("array bounds", ARR+" validate"), ("pointer bounds", PTR+" deref_checked")],
 ["Value::from_bytes on guard-page-delimited buffers, then exhaustive traversal"])

prop("C07", "Dict lookup agrees exactly with dict contents",
 "Looking a key up in a dict returns the value stored under exactly that key, or nothing when no such key was stored, for every set of distinct keys, any insertion order and any dict size. Membership tests, indexing, the first entry and length agree with lookup, and iteration yields every pair exactly once in key order.",
 ["inputs"],
 "For every set of keys (prefixes of each other, empty, one character, long, non-ASCII), every insertion order, every size, stored directly or as shared keys, in narrow and wide dicts.",
 "Tests look up a handful of present keys; binary search errors need particular sizes and absent keys that fall between or outside stored ones.",
 [DIC, VAL, ENC], [("binary search", DIC+" Dict::_get"), ("key comparison", VAL+" Value::dict_key_cmp, "+ENC+" Encoder::dict_key_cmp")],
 ["Dict::get, contains_key, get_with_shared_keys, Index, iter, first, len"])

prop("C08", "Array indexing and iteration agree and respect bounds",
 "For every array, fetching an index below the length yields the element written at that position and any other index yields nothing (or panics for the indexing operator). Iteration yields exactly the elements, in order, once each, whichever of the iterator methods (next, nth, count, last, fold and so on) take them, and its size hint always equals the number of remaining elements; a serde visitor is given the same elements and told the same numbers.",
 ["inputs"],
 "For every array length, element width and index.",
 "Tests iterate whole arrays and never index at or past the end.",
 [ARR], [("bounds check", ARR+" Array::get"), ("iteration", ARR+" Iter::next")],
 ["Array::get, Index, iter, into_iter, size_hint, len, is_empty, SeqAccess::size_hint"])

prop("C09", "Encoder misuse is rejected and has no effect",
 "Every sequence of encoder calls behaves as the documented protocol says: a call that is out of order (value without a key or outside a collection, key outside a dict or while a value is due, closing a collection that is not the innermost open one or still awaits a value, anything after the outermost collection was closed) returns an error, and leaves the document exactly as if it had not been made. Finishing at any point after a collection was begun closes what is open, drops a dangling key, and yields a valid document of everything accepted so far; finishing with nothing written yields no document, without disturbing anything else.",
 ["histories"],
 "For every sequence of encoder calls, legal or not, at every nesting.",
 "Tests perform one illegal call (a second top-level array).",
 [ENC, VS], [("protocol state", VS+" CollectionStack"), ("checks", ENC+" write_key/write_value/begin_*/end_*"), ("finish", ENC+" _end")],
 ["Result of each call; decoded document after finish"],
 [("collection stack", "open collections and pending key", VS), ("top_collection_closed", "document complete", ENC)])

prop("C10", "Copying a decoded value into an encoder preserves it",
 "Writing any decoded value (from any source: bytes, another encoder, a scope with shared keys, any legal encoding style) into an encoder, at top level or inside other collections, with or without shared keys, produces a document with the same content at that place. Copying a document whose keys are plain strings and which is itself a copy of such a document reproduces the same bytes.",
 ["inputs"],
 "For every source document, encoding style, and destination.",
 "Tests copy two fixed documents.",
 [ENC, DIC, ARR], [("recursive copy", ENC+" Encoder::write_fleece")],
 ["Encoder::write_fleece then decode and compare"])

prop("C11", "Shared keys form a stable two-way mapping",
 "A shared key table gives each distinct eligible string one integer, consecutive from zero in order of first insertion and never changed afterwards; encoding a known string and decoding its integer are inverse, and any other string or integer is unknown. Ineligible strings (longer than 16 bytes or with characters other than letters, digits, underscore and hyphen) are never added, strings already present are always found again even when the table is full, and a full table (2048 keys) only refuses new ones.",
 ["histories", "inputs"],
 "For every sequence of insertions and lookups, including strings that agree on a long prefix, boundary lengths and a full table.",
 "Tests add one or a few short keys.",
 [SK], [("hash table of fixed strings", SK+" SharedKeys::encode_and_insert/encode/decode")],
 ["SharedKeys::encode_and_insert, encode, decode, len, iter, clone, can_add"],
 [("key table", "string <-> integer map", SK)])

prop("C12", "Shared keys are invisible to readers",
 "A document encoded with shared keys and held by a live scope reads exactly like the same document encoded without them: key lookup (with the keys found automatically or given explicitly), iteration, deserialization, copying into an encoder and conversion to mutable collections all see the original string keys. This also holds for dicts that mix shared and plain keys, for tables that were pre-populated or have run full, and at any nesting depth.",
 ["inputs", "configurations"],
 "For every document, initial key table and fill level.",
 "Tests look up two keys in one flat dict and compare key sets of one document.",
 [DIC, ENC, SCO, SK, MDI, DE], [("key encoding on lookup", DIC+" Dict::encode_key/_get"), ("decode on iteration", DIC+" SharedKeyIter"), ("scope lookup", SCO+" Scope::find_shared_keys")],
 ["Encoder::set_shared_keys + finish_scoped, then the read API"])

prop("C13", "Address lookup finds exactly the live scope owning it",
 "At every moment, looking up an address returns the scope whose data contains it if that scope is alive and has not been removed, and otherwise nothing; a scope is never found for addresses outside its data or through another scope's data, even when memory of a dropped scope is reused. A scope's own data, root value and shared keys stay available through its handle whatever happens to other scopes.",
 ["histories"],
 "For every history of creating, removing, dropping and looking up scopes, with any layout of their data in memory including reused and partially overlapping stale ranges.",
 "Tests create one scope at a time and never drop, remove or reuse addresses.",
 [SCO], [("global range map of weak entries", SCO+" SCOPE_MAP/ScopeEntry")],
 ["Scope::containing, find_shared_keys, remove, data, root, range"],
 [("scope map", "address ranges -> scopes", SCO)])

prop("C14", "Scopes stay correct under concurrent use",
 "When several threads create, look up, read through, remove and drop scopes at the same time, every operation behaves as if the operations had happened one at a time: a thread always finds a scope it holds and nobody removed, never finds one whose removal it has seen complete, and never gets a wrong scope, a deadlock or a panic.",
 ["schedules"],
 "For every interleaving of the threads' operations at their synchronization points.",
 "All tests are single threaded.",
 [SCO], [("reader-writer lock around the global map", SCO+" SCOPE_MAP")],
 ["results of concurrent Scope operations; lock scheduling through a substituted crossbeam-utils"],
 [("scope map lock", "guards the global map", SCO)])

prop("C15", "Self-owning values stay valid for as long as they are held",
 "A self-owning value, array or dict (copied from bytes, finished from an encoder, converted, cloned, or taken from a scope) keeps reading as the same document for as long as any handle to it is held, no matter in which order the original bytes, the encoder, the scope and other handles are dropped or overwritten. References and key strings obtained from it stay valid for as long as the borrow checker lets them be used. (Keys stored as shared integers are found without being given the table only while the scope lives; given the table they are always found.)",
 ["histories"],
 "For every order of creating, cloning, converting and dropping handles and sources.",
 "One test checks the reference count of one fresh value; no test drops a source before reading.",
 [ALL, VAL, SCO, ENC], [("reference-counted buffer + raw pointer", ALL), ("construction", VAL+" clone_from_bytes")],
 ["Alloced* handles after dropping sources, under an allocator that poisons freed memory"])

prop("C16", "A mutable dict behaves as a string-keyed map",
 "After any sequence of inserting (plain values, nested dicts, nested arrays, replacing any previous entry), removing, editing nested collections in place and cloning, a mutable dict contains exactly what an ordinary map would: lookups, membership, length, typed nested accessors and iteration agree with that map, and clones are fully independent. Using shared keys with it changes nothing observable.",
 ["histories"],
 "For every operation sequence, key and value kind, with and without shared keys.",
 "Tests perform a few inserts and one removal.",
 [MDI, MUT], [("ordered map of encoded keys", MDI+" MutableDict"), ("value slots", MUT+" ValueSlot")],
 ["MutableDict API"], [("map", "key -> slot", MDI)])

prop("C17", "A mutable array behaves as a sequence",
 "After any sequence of pushing, replacing (with plain values, nested arrays, nested dicts, decoded values), removing, editing nested collections in place and cloning, a mutable array contains exactly what an ordinary list would: indexing, typed nested accessors, length and iteration agree with that list, out-of-range reads yield nothing, out-of-range removals do nothing, and clones are fully independent.",
 ["histories"],
 "For every operation sequence and value kind.",
 "Tests push and remove one element.",
 [MAR, MUT], [("vector of slots", MAR+" MutableArray"), ("value slots", MUT+" ValueSlot")],
 ["MutableArray API"], [("list", "slots", MAR)])

prop("C18", "Mutable copies equal their source and are independent of it",
 "Converting any decoded array or dict to a mutable one, by any of the offered conversions and from any source (bytes, self-owning value, scope with or without shared keys, any legal encoding style), yields a deep copy with the same content. The copy is unaffected by dropping the source, and editing the copy never changes the source.",
 ["inputs", "histories"],
 "For every document, source kind and conversion.",
 "Tests convert three fixed documents and never drop the source.",
 [MUT, MAR, MDI], [("deep copy", MUT+" ValueSlot::new_from_fleece; clone_from/from_scope/From/TryFrom")],
 ["to_mutable, clone_from, From, TryFrom<&Scope>, from_scope"])

prop("C19", "Serde round-trips every supported value",
 "Serializing any value built from serde's data model (primitives, strings, chars, bytes, options, units, unit/newtype/tuple structs, sequences, tuples, string-keyed maps, structs and all four enum variant kinds, nested arbitrarily) and deserializing the result as the same owned type gives back an equal value, with and without shared keys, and also if fields have a default, are skipped or renamed. The only values excluded are those the format cannot distinguish from a missing one (an option directly holding something that is itself written as null). Borrowing types (&str fields) and untagged or internally tagged enums that hold ordinary enums are not supported.",
 ["inputs", "programs"],
 "For every type shape and every value of it.",
 "Tests round-trip one struct type with two values.",
 [SER, DE], [("serializer", SER), ("deserializer", DE)],
 ["to_bytes / to_bytes_with_shared_keys then from_bytes"])

prop("C20", "Serialized data has the documented layout",
 "Data produced through serde is an ordinary document with the documented layout: structs and maps are dicts keyed by field name or key, sequences and tuples are arrays, a unit variant is an array holding its name, other variants are an array of the name and the payload (value, array or dict), none is null and unit is undefined; numbers and strings keep their value. A document of that layout written by hand with the encoder deserializes to the same value.",
 ["inputs", "programs"],
 "For every type shape and value.",
 "Tests never look at serialized data through the value API nor deserialize hand-written documents.",
 [SER, DE], [("serializer layout", SER), ("deserializer layout", DE)],
 ["to_bytes then Value API; Encoder then from_bytes"])

prop("C21", "Serde failures are reported, never panics or wrong data",
 "Serializing something unsupported (a top-level scalar, a map key that is not a string or char) returns the documented error, at any nesting. Deserializing any decodable document into any type either succeeds or returns an error, without panicking: a document whose kind does not match the requested one is an error and never a fabricated value, and so is an enum with missing or surplus parts (an array that is not exactly a string name and, unless it is a unit variant, one payload; a tuple variant of another length; a struct variant with entries that are no fields of it or without a required one). An error which a value or a type raises itself reaches the caller with its message.",
 ["inputs", "programs"],
 "For every pair of document and requested type.",
 "Tests try two top-level scalars; no mismatched deserialization is attempted.",
 [SER, DE], [("key serializer", SER+" MapKeySerializer"), ("top-level check", SER+" to_bytes"), ("shape checks", DE+" deserialize_seq/map/enum, VariantAccess")],
 ["to_bytes and from_bytes results"])

prop("C22", "Reading a scalar as another type converts it predictably",
 "Every accessor works on every kind of value without panicking and converts numerically: integer accessors give integers exactly when they fit and truncate floats toward zero (a float outside the range of a signed accessor, or above that of an unsigned one, gives the nearest limit, and NaN gives 0), float accessors give the nearest representable number, booleans read as 1 and 0, and non-numbers as 0. Truth is false for false and for integer zero and true for other integers and non-numbers; string and data accessors give the content for their own kinds and an empty result for all others.",
 ["inputs"],
 "For every value of every kind and every accessor.",
 "Tests call the accessor that matches the stored kind on a few values.",
 [VAL], [("accessors", VAL+" to_bool..to_str")],
 ["Value::to_bool, to_short, to_unsigned_short, to_int, to_unsigned_int, to_double, to_float, to_str, to_data, as_array, as_dict"])

prop("C23", "Saved shared-key state restores the same mapping",
 "A shared key table restored from its saved state (bytes, or the value written into a document) maps every string to the same integer as the original and continues numbering where it left off. State data that is not a list of distinct eligible strings is rejected, without panicking.",
 ["inputs", "histories"],
 "For every table content and every candidate state document.",
 "No test saves or restores state.",
 [SK], [("state encoding", SK+" write_state/get_state_bytes/from_state_*")],
 ["SharedKeys::get_state_bytes, from_state_bytes, write_state, from_state_value"])

prop('C24', 'The fleece! macro builds the document it spells',
 'A fleece! invocation, with any nesting of arrays and dicts, any keys and values, and with or without trailing commas, compiles and yields a self-owning array or dict holding exactly the document that it spells: the elements in that order and every key with its value, at every depth. (A value is an array, a dict, or one token: a literal, a name, or an expression in parentheses. An invocation with nothing in it is an empty dict.)',
 ['inputs'],
 'For every invocation of the macro.',
 'The tests have three invocations; arrays within arrays did not even compile.',
 ['src/lib.rs', 'src/encoder/mod.rs'],
 [('macro arms', 'src/lib.rs macro_rules! fleece')],
 ['fleece! then the read API'],
 [])

prop('C25', 'Nothing stays allocated once every handle is gone',
 'When every handle obtained from the library has been dropped (documents, self-owning values, scopes whether removed or not, encoders finished or abandoned, mutable collections, shared key tables, results of failed calls, iterators), all memory it allocated for them is free again: repeating any use of the library does not make memory grow.',
 ['histories', 'inputs'],
 'For every history of creating, deriving, editing and dropping handles, in every order of dropping.',
 'No test looks at memory; what is kept shows only after every handle of a particular history is gone.',
 ['src/scope.rs', 'src/alloced.rs', 'src/value/dict.rs', 'src/mutable.rs', 'src/encoder/mod.rs', 'src/shared_keys.rs'],
 [('reference counts and weak map entries', 'src/scope.rs, src/alloced.rs'), ('owned slots', 'src/mutable.rs ValueSlot')],
 ['live allocations before and after, through the global allocator'],
 [('scope map', 'global, weak entries', 'src/scope.rs')])

prop("C26", "The same document is always encoded to the same bytes",
 "The finished bytes of a document depend only on the sequence of accepted calls that wrote it and, with shared keys, on the table it started with. Capacity hints, refused calls in between, the vector given to the encoder and the bytes already in it (which stay in front, unchanged), the way of finishing, other encoders in use at the same time and anything done before make no difference; nor do they to the saved state of the shared keys.",
 ["inputs", "histories"],
 "For every document, every way to write it, and every interleaving of the calls of several encoders.",
 "Tests compare a few documents with what they decode to, never two encodings of one document with each other.",
 [ENC, ENB, VS, SZD, SK],
 [("output buffer and value stack", "src/encoder/mod.rs, src/encoder/value_stack.rs"), ("references relative to the referring slot", "src/value/sized.rs"), ("numbering in order of insertion", "src/shared_keys.rs")],
 ["Encoder::finish, finish_scoped, finish_value, new_to_vec, begin_array, SharedKeys::get_state_bytes"],
 [("out", "bytes written so far", ENC), ("collection_stack", "open collections", VS)])

prop("C27", "Debug printing shows the whole content",
 "Formatting any value, array, dict or self-owning handle with {:?} or {:#?} never panics and shows every key and every value at every depth in the order of iteration, each as often as it occurs; keys of a live scope with shared keys are shown as their strings. Formatting a shared key table shows every string with its number.",
 ["inputs"],
 "For every document, every legal encoding of it, with and without shared keys, and every shared key table.",
 "No test looks at printed output; whether something is missing depends on the document.",
 [VAL, ARR, DIC, ALL, SK],
 [("Debug impls", "src/value/mod.rs, src/value/array.rs, src/value/dict.rs, src/alloced.rs, src/shared_keys.rs")],
 ["format!({:?}) of Value, Array, Dict, AllocedValue, AllocedArray, AllocedDict, SharedKeys"])

prop("C28", "Handles compare by what they refer to",
 "Two self-owning values (arrays, dicts) are equal exactly if they are handles of the same value in memory, like clones of one another or the roots of scopes over the same data; separate copies are different even if their content is equal. Their order is total and consistent with equality and with the order of the pointers they can be borrowed as, so ordered collections hold each once and find it again by a handle or by its pointer. All ways to get at the value (value, deref, as_ref, borrow) give the same one. Two scopes are equal exactly if they are of the same data.",
 ["histories"],
 "For every set of handles, however each was made, whatever was dropped before, and every order of inserting them in a collection.",
 "No test compares handles; a wrong comparison shows only for a particular relation between three handles or after memory was reused.",
 [ALL, SCO],
 [("comparison by address", ALL+" PartialEq/Ord/Borrow for Alloced"), ("comparison of scopes", SCO+" PartialEq for Scope")],
 ["==, cmp, BTreeSet and BTreeMap of Alloced handles, Scope =="])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
