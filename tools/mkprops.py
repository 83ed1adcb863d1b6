#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))

prop("C01", "Deserialization releases every value exactly once, whatever fails",
 "Every value and builder that comes into existence during a from_str call is either part of the value handed to the caller or destroyed exactly once by the time the call returns or unwinds, and no participant is ever touched after its destruction or while uninitialised. This holds whichever participant callback (visitor, sequence or map builder, key parser, hasher, comparison, destructor) returns an error or panics, and wherever the input ends or goes bad. Builders are always destroyed innermost first, because an inner one may borrow from the outer one.",
 ["fault_sequences","crash_points","inputs"],
 "all documents x all compositions of library, derived and hand-written participants x every callback index x {error, panic, panic in destructor, accept-without-writing, input cut}",
 "The test suite deserializes a dozen fixed good documents and three too-short/too-long arrays; no callback ever fails midway, none panics, and nothing counts destructions.",
 ["src/json/de.rs","src/de/impls.rs","src/ptr.rs","src/careful.rs","src/place.rs","derive/src/de.rs"],
 [("layers of in-flight builders are dropped in reverse order","src/json/de.rs impl Drop for Deserializer"),
  ("partially filled fixed-size arrays drop exactly the initialised prefix","src/de/impls.rs ArrayBuilder::len + Drop"),
  ("boxed builders drop before the slot they borrow","src/de/impls.rs BoxSeq/BoxMap ManuallyDrop"),
  ("non-unique heap ownership of builders","src/ptr.rs NonuniqueBox")],
 ["destructor calls of user types","allocator traffic","Miri's memory model"],
 [("Deserializer::stack","builders in flight, each borrowed by the next","src/json/de.rs"),("ArrayBuilder::len","initialised prefix","src/de/impls.rs")])

prop("C02", "Serialization releases every stream exactly once, whatever panics",
 "Every element or entry stream and every owned string or key that participants hand to to_string is destroyed exactly once by the time the call returns or unwinds, each stream only after everything produced by or borrowed from it is finished with. This holds whichever participant callback (begin, next, key formatting, destructor) panics, at whatever depth, including streams that own the very element they lend out.",
 ["fault_sequences","inputs"],
 "all participant graphs (borrowing, owning and lending streams, library and derived containers) x every callback index x {panic, panic in destructor}",
 "The tests only serialize well-behaved derived structs and values; no stream panics, owns its element, or has its destruction observed.",
 ["src/json/ser.rs","src/ser/impls.rs","src/careful.rs","derive/src/ser.rs"],
 [("stack of live streams, popped innermost first","src/json/ser.rs impl Drop for Serializer"),
  ("a stream is moved to the stack before its element is begun","src/json/ser.rs to_string_impl")],
 ["destructor calls of user streams","allocator traffic","Miri's memory model"],
 [("Serializer::stack","live streams; each may lend to the next","src/json/ser.rs")])

prop("C03", "Any failure fails the whole call: no swallowed error, no partial value",
 "from_str returns Ok only if every participant callback accepted and the whole text was one complete document, and then the value is complete. If any participant reports an error anywhere - element, key, value, finish, at any depth, inside any library container or derived type - the call returns an error, no further visiting callback is made on any participant, and nothing of the partial value is delivered. The one failure is reported once and not turned into a panic or a default.",
 ["fault_sequences","inputs"],
 "every callback index of every run x {error, two errors} x all library containers and derived types around the failing participant",
 "Tests check three unconditional errors on leaf inputs; an error raised by an inner participant below Option/Box/Vec/array/tuple/map/derived layers is never exercised.",
 ["src/json/de.rs","src/de/impls.rs","src/de/mod.rs","src/json/value.rs","src/json/array.rs","src/json/object.rs","derive/src/de.rs"],
 [("every callback result is propagated with ?","src/json/de.rs from_str_impl"),
  ("missing output is an error","src/json/de.rs from_str: out.ok_or(Error)"),
  ("forwarding of inner results","src/de/impls.rs Box/Option/array/tuple/map builders")],
 ["from_str result","callback trace of participants after the failure"])

prop("C04", "Participants are driven exactly as the document dictates",
 "For a well-formed document each JSON value causes exactly one visit of the matching kind with the decoded content, each array element and object member asks its container for a slot first (members with the fully decoded key), in document order, and each container is finished exactly once, after its last child; this order is also what a participant sees through any library wrapper around it. If the run is cut by a fault or bad input, what participants have seen is a prefix of that order.",
 ["histories","fault_sequences","inputs"],
 "all documents, all wrappers around the observing participant, all cut points",
 "No test observes the callback protocol at all; only final values of a few documents are compared.",
 ["src/json/de.rs","src/de/impls.rs","src/de/mod.rs","src/ignore.rs"],
 [("event loop over an explicit stack","src/json/de.rs from_str_impl"),("wrappers forward each event kind","src/de/impls.rs Box, Option")],
 ["callbacks of a recording Visitor/Seq/Map"])

prop("C05", "Serialization walks participants in order and writes exactly what they say",
 "to_string polls every stream in order until it first reports the end and never again, begins each element exactly once before polling its stream further, and the text it returns is one valid JSON document that means exactly the fragments the participants produced: same structure, same member order, strings and integers unchanged, floats bit-exact, non-finite floats as null. If a participant panics, what was polled so far is a prefix of that walk and a later attempt over the same data succeeds in full.",
 ["histories","fault_sequences","inputs"],
 "all participant graphs including streams lending their own element, all panic points, all string and number contents",
 "Tests compare three serialized literals; stream polling is never observed.",
 ["src/json/ser.rs","src/ser/impls.rs","src/ser/mod.rs","derive/src/ser.rs","src/json/number.rs"],
 [("iterative fragment loop","src/json/ser.rs to_string_impl"),("escaping table","src/json/ser.rs escape_str")],
 ["begin/next calls of recording participants","returned text"])

prop("C06", "A torn document is never accepted",
 "If the text of a serialized struct, map, sequence or string is cut short at any byte before its end - a crash while it was being written - from_str on what remains reports an error for every target type, and never a value, a panic or a hang. In a journal of such records, after any crash every record written in full is recovered unchanged and the torn tail is recognised as such.",
 ["crash_points","inputs","histories"],
 "every document x every cut byte x every target type (typed, untyped, ignored member); journals with crash and restart at arbitrary points",
 "No test truncates a document.",
 ["src/json/de.rs","src/ignore.rs","src/de/impls.rs"],
 [("end of input is an error unless the outermost value is complete","src/json/de.rs event, parse_str, parse_whitespace"),
  ("unclosed layers are an error","src/json/de.rs from_str_impl")],
 ["from_str result on every prefix"])

prop("C07", "Corrupted text is rejected unless it is still JSON, then read as JSON",
 "When stored or transmitted text has been damaged (bits flipped, bytes lost, inserted, repeated, overwritten by stale or zeroed blocks, documents spliced), from_str either reports an error or returns precisely the value that the damaged text denotes as JSON (RFC 8259) for the target type. It accepts every such text that is valid and fits the type, rejects every text that is not JSON - in ignored members as well - and never panics, reads outside the text or yields a non-Unicode string.",
 ["fault_sequences","inputs"],
 "all documents x sequences of storage/transport damage x target types",
 "Tests feed one malformed input ('true && false'); acceptance is otherwise only tested on good documents.",
 ["src/json/de.rs","src/de/impls.rs","src/ignore.rs","src/json/value.rs"],
 [("byte-level grammar","src/json/de.rs Deserializer"),("range checks per target type","src/de/impls.rs signed!/unsigned!"),
  ("unchecked UTF-8 conversion justified by escape validation","src/json/de.rs parse_str")],
 ["from_str result against an independent JSON decoder"])

prop("C08", "Stack use does not grow with nesting, also when aborted",
 "Deserializing, failing to deserialize, ignoring, serializing and dropping arbitrarily deep JSON uses an amount of call stack that does not depend on the nesting depth. This holds for every mixture of arrays and objects, at whatever point the work is abandoned (input cut or damaged, participant error or panic), and for every way of letting go of or dismantling a deep Value, Array or Object.",
 ["inputs","fault_sequences","crash_points"],
 "nesting depths up to 10^5..10^6, shapes, abort points, target types and ways of disposing",
 "Tests do one strictly alternating 100k-deep successful round trip and one array-only drop; aborts at depth, ignored deep members, other shapes and partial disposal are not reached.",
 ["src/json/de.rs","src/json/ser.rs","src/json/drop.rs","src/json/array.rs","src/json/object.rs","src/ignore.rs"],
 [("explicit stacks instead of recursion","src/json/de.rs, src/json/ser.rs"),("worklist drop","src/json/drop.rs safely")],
 ["stack high-water mark of the calling thread"])

prop("C09", "Concurrent and nested calls do not influence each other",
 "Any number of from_str and to_string calls may be in progress at once - on different threads in any interleaving, or nested because a participant calls back into the library from a callback or destructor - and each behaves exactly as if it were alone. In particular, failures or panics in one are invisible to the others, and values may be produced on one thread and serialized or dropped on another.",
 ["schedules","histories","fault_sequences"],
 "all interleavings at callback and allocation boundaries (and, under the interpreter, at every basic block), nesting depths, fault mixes",
 "All tests are single-threaded single-call; the process-wide ignored-value sink is shared mutable state that no test touches from two places.",
 ["src/ignore.rs","src/json/de.rs","src/json/ser.rs","src/place.rs"],
 [("zero-sized process-wide sink","src/ignore.rs Visitor::ignore"),("all other state is per call","src/json/de.rs Deserializer, src/json/ser.rs Serializer")],
 ["results and callback traces per caller"],
 [("IGNORE","process-wide mutable sink shared by all calls","src/ignore.rs")])

prop("C10", "A failed, panicked or torn call leaves nothing behind",
 "After any sequence of calls that failed, were fed torn or corrupt text, or were unwound by a participant panic or an allocation failure, the next call on the same thread gives exactly the result it would give in a fresh process, and all memory used by the earlier calls has been returned.",
 ["histories","fault_sequences"],
 "all histories of successful and failing calls over all operations of the library",
 "Every test runs one call in isolation.",
 ["src/json/de.rs","src/json/ser.rs","src/ignore.rs","src/de/impls.rs"],
 [("no state outlives a call","src/json/de.rs, src/json/ser.rs")],
 ["results along a history","live heap between calls"])

prop("C11", "Map contents survive regardless of hasher, order and repeated members",
 "A HashMap, BTreeMap or Object sent as JSON and received again holds the same entries whatever the hashers' seeds on either side, however badly they collide, and in whatever order the members travel. A repeated member resolves to its last occurrence in every map and derived struct, keys are compared after unescaping and parsing, and sorted maps are written in key order.",
 ["schedules","inputs","fault_sequences"],
 "all hash seeds (per process randomness) and collision patterns on both sides, member permutations, duplications, key types",
 "No test serializes or deserializes a HashMap or BTreeMap, or repeats a member.",
 ["src/de/impls.rs","src/ser/impls.rs","src/json/object.rs","src/json/value.rs","derive/src/de.rs"],
 [("key/value held back until the next key or finish","src/de/impls.rs MapBuilder::shift"),("generic over BuildHasher","src/de/impls.rs, src/ser/impls.rs")],
 ["map contents after transport","member order in text"])

prop("C12", "Derived types tolerate schema skew between sender and receiver",
 "During a rolling upgrade, a receiver with a derived type reads any sender's version: members it does not know are skipped whatever they contain, members may come in any order, absent Option fields become None, and every other absent field or wrongly typed member makes the call fail rather than invent a value. Field and variant names on the wire are exactly the identifiers or their rename, so peers agree.",
 ["histories","configurations","inputs"],
 "all mixes of schema versions, upgrade/rollback histories, member orders, losses and additions",
 "Tests use one extra member and one absent Option on one struct each.",
 ["derive/src/de.rs","derive/src/ser.rs","derive/src/attr.rs","src/ignore.rs","src/de/impls.rs"],
 [("unknown key goes to the sink","derive/src/de.rs key"),("defaults","src/de/mod.rs Deserialize::default, src/de/impls.rs Option"),("wire names","derive/src/attr.rs")],
 ["decoded values per node along an upgrade history"])

prop("C13", "A value relayed over any number of hops arrives as it was sent",
 "A value serialized by one node, relayed by any number of nodes that read it as an untyped Value or as the same type and write it again, and read at the end, equals the value sent: structure, strings, booleans, nulls and all 64-bit integers exactly, 32-bit floats exactly, 64-bit floats within four units in the last place per hop and never with a changed sign or class. Duplication, delay and reordering of messages and crash and restart of nodes with re-sending change nothing about what is delivered.",
 ["histories","fault_sequences","inputs"],
 "all values of all supported types x relay chains x delivery faults",
 "Tests round-trip one Value document once; no typed value is written and read back.",
 ["src/json/ser.rs","src/json/de.rs","src/json/value.rs","src/json/number.rs","src/ser/impls.rs","src/de/impls.rs"],
 [("escape on write / unescape on read","src/json/ser.rs escape_str, src/json/de.rs parse_escape"),("number classes","src/json/number.rs")],
 ["value at the last node against the value at the first"])

prop("C14", "Value containers stay consistent under any operation history and abort",
 "Any history of building, editing, cloning, overwriting, iterating (also partially and by value), moving and dropping Value, Array and Object behaves like the plain list and ordered map they stand for, with every element owned exactly once and all memory returned in the end. This includes histories in which a caller-supplied closure or iterator panics in the middle of an operation or an iterator is abandoned.",
 ["histories","fault_sequences"],
 "operation sequences over a pool of values x abandonment and panic points",
 "Tests only build a Value by parsing, print it and drop it.",
 ["src/json/array.rs","src/json/object.rs","src/json/value.rs","src/json/drop.rs"],
 [("ownership transfer out of types with Drop","src/json/array.rs take, src/json/object.rs take"),("worklist drop","src/json/drop.rs")],
 ["public contents after each operation","allocator traffic","Miri's memory model"])

prop("C15", "Work and memory are bounded by the size of the input",
 "For an input of n bytes, good, torn or hostile, from_str finishes, makes at most a number of allocations linear in n and never holds more than a fixed multiple of n bytes of heap; to_string does likewise in the size of what it writes. A peer cannot make the library hang, or reserve memory out of proportion to what it sent.",
 ["inputs","fault_sequences"],
 "all inputs and target types (without oversized fixed arrays), all cuts and damage",
 "Tests never look at memory or progress.",
 ["src/json/de.rs","src/json/ser.rs","src/de/impls.rs"],
 [("single forward pass","src/json/de.rs"),("growth only by received elements","src/de/impls.rs")],
 ["allocation count and peak of the simulated allocator","progress watchdog"])

prop("C16", "An allocation failure at any point unwinds cleanly",
 "If the allocator refuses any one allocation during from_str, to_string or an operation on a Value and the process's policy is to unwind, the call unwinds without touching freed or uninitialised memory, without losing or doubly releasing anything and without delivering a partial result; the same call then succeeds when memory is available again.",
 ["fault_sequences","inputs"],
 "every allocation index of every run over all operations and types",
 "Tests never fail an allocation.",
 ["src/json/de.rs","src/json/ser.rs","src/de/impls.rs","src/ptr.rs","src/json/drop.rs"],
 [("unwind-safe ownership of half-built state","src/de/impls.rs, src/ptr.rs, src/json/de.rs")],
 ["allocator traffic","destructor calls","Miri's memory model"])

prop("C17", "Unsupported shapes and attributes are refused at compile time",
 "The derive macros refuse, with a compile error and nothing else, every input other than a struct with named fields or an enum of unit variants without generics, and every serde attribute other than a single rename.",
 ["programs"],
 "all derive inputs",
 "A dozen expected-error snapshots exist; the quantifier is over all programs.",
 ["derive/src/de.rs","derive/src/ser.rs","derive/src/attr.rs","derive/src/fallback.rs"],
 [("shape checks","derive/src/de.rs try_expand"),("attribute parser","derive/src/attr.rs")],
 ["compiler diagnostics"])

prop("C18", "Decimal to binary conversion error is bounded",
 "Every decimal number text within the range of a 64-bit float converts to a float within a few units in the last place of the exact value, with the right sign, and every text beyond the range is an error.",
 ["inputs"],
 "all number texts",
 "One float literal is tested.",
 ["src/json/de.rs"],
 [("scaling by table","src/json/de.rs f64_from_parts")],
 ["from_str::<f64>"])

prop("C19", "The library behaves the same with and without its std feature",
 "Apart from HashMap support and the std Error impl, a program that uses the library compiles and behaves identically when miniserde is built with and without its std feature: the same documents are accepted with the same values, the same texts are produced, participants are called in the same order and destroyed at the same points, and the same faults have the same consequences.",
 ["fault_sequences","inputs","histories"],
 "both feature sets x all programs, inputs and faults",
 "The two builds are never run on the same inputs and compared; the test suite is run with one.",
 ["src/lib.rs","src/de/impls.rs","src/ser/impls.rs","src/error.rs"],
 [("feature gates","src/lib.rs")],
 ["the whole recorded history of the same simulated run in either build"])

prop("C20", "Formatting shows exactly the value, and a failing sink stops it cleanly",
 "The Debug output of Value, Array, Object and Number (plain and pretty) and the Display output of Number show exactly the value printed: its variant and its whole content, members and elements in their order, numbers and strings as Rust prints them, nothing of anything else. Formatting into any fmt::Write sink that refuses or panics at any write stops there: the failure is reported to the caller, no further text is written, what was written is a prefix of the full output, the value is unchanged and prints completely the next time.",
 ["fault_sequences","inputs"],
 "all values, both forms, every sink and every point at which it refuses, accepts only part of a piece, or panics",
 "One pretty-printed document is compared, into a String, which never fails.",
 ["src/json/value.rs","src/json/array.rs","src/json/object.rs","src/json/number.rs"],
 [("hand-written Debug and Display impls","src/json/value.rs")],
 ["formatted text, result of write!, the value afterwards"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
