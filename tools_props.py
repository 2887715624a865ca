"""Writes properties.jsonl (kept as a generator so the long text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

S = "src/v8serialize/"
ENC, DEC = S+"encode.py", S+"decode.py"
J = S+"jstypes/"

prop("C01", "Serialize then deserialize returns an equal value",
 "For every value made of the documented supported types, nested and mixed in any way, deserializing its serialized bytes yields the documented JavaScript-type counterpart of that value with the same contents: same numbers (including the sign of zero, NaN, exact doubles and integers of any size), strings, entry order, holes, array length, wrapper kinds, flags, buffers and dates. Serializing that result again and deserializing it changes nothing further.",
 ["inputs"], "Every finite value graph over the supported Python and JavaScript types, up to the generated size.",
 "The repository's round-trip tests compare per-type and through the library's own equality, and sample one write/read method pair at a time; they do not see disagreement between parts of a mixed graph, sign-of-zero conflation, or entry order.",
 [ENC, DEC, S+"__init__.py", S+"_values.py", J+"jsobject.py", J+"jsarray.py", J+"jsmap.py", J+"jsset.py"],
 [("value encoding", ENC), ("value decoding", DEC), ("type mapping of objects to tags", ENC)],
 observe=["dumps(value)", "loads(bytes)"])

prop("C02", "Shared and cyclic references keep their identity structure",
 "If the same mutable object is reachable by several paths in the value that is serialized, the deserialized value has exactly one object reachable by exactly those paths; distinct mutable objects stay distinct; cycles come back as cycles. This holds whichever kinds of object (plain objects, arrays, maps, sets, regular expressions, errors, wrapper objects, dates, buffers, buffer views) are mixed before, between and after the references.",
 ["inputs", "histories"], "Every graph of containers and leaf objects with arbitrary sharing and cycles, in every order of first visit.",
 "Tests check a few hand-written cycles; the reference numbering is global, so an error in one object kind only shows when a later reference crosses it.",
 [ENC, DEC, S+"_references.py"],
 [("reference numbering shared by writer and reader", S+"_references.py"), ("record of written objects", ENC), ("record of objects read", DEC)],
 state=[("object references", "serialized id <-> object, numbered in order of first visit")])

prop("C03", "A real V8 engine reads every output, as the value the docs promise",
 "For every supported value, the serialized bytes are accepted by a real V8 engine's deserializer, and the JavaScript value it builds is the one the documentation maps the Python value to, including sharing and cycles, property order, holes, and special numbers. (Holes stand only inside arrays, and regular expressions have a source and flags that JavaScript accepts: the library does not check these.)",
 ["inputs"], "Every supported value graph, checked against Node.js's V8.",
 "The unit tests never run V8 offline: most compare the library with itself, so writer and reader can agree on a wrong format.",
 [ENC, S+"constants.py"], [("stream writer", ENC), ("tag and flag tables", S+"constants.py")])

prop("C04", "Everything a real V8 engine serializes is decoded to its equivalent",
 "Data written by a real V8 engine for any structured-cloneable JavaScript value decodes to the documented Python counterpart of that value: same structure, sharing, cycles, order, strings in either internal string representation, dense and sparse arrays, buffers, views, errors, dates (within the range of Python's datetime) and wrapper objects. So does data of the older engines that write an error's stack after its cause.",
 ["inputs"], "Every structured-cloneable JavaScript value that the generator builds inside Node.js, with either string representation and either array layout.",
 "Fixture files sample a few dozen values; V8 chooses layouts (one-byte/two-byte strings, padding, dense/sparse arrays, small ints vs doubles) by value.",
 [DEC, S+"constants.py"], [("stream reader", DEC), ("tag tables", S+"constants.py")])

prop("C05", "Deserializing any bytes gives a value or the documented error",
 "For every byte string, deserializing terminates and either returns a value or raises the library's documented deserialization error carrying the position in the data; no other exception escapes, input is never modified, and work and memory stay in proportion to the input.",
 ["inputs", "fault_sequences"], "Every byte string: mutated valid streams, adversarial length and count fields, grammar-generated nonsense and raw bytes.",
 "Malformed input space is unbounded; tests name a handful of malformed streams.",
 [DEC, S+"_errors.py", J+"jsbuffers.py"], [("bounds and tag checks in the stream reader", DEC), ("view construction checks", J+"jsbuffers.py")])

prop("C06", "Truncated data is always rejected",
 "No strict prefix of a serialized value deserializes successfully: it raises the documented deserialization error. The one exception is the format's own: a buffer view is written as its buffer followed by the view, so a view cut right after its buffer is that buffer. Bytes that follow a complete value do not change the result, and reading values one after another from one stream stops exactly where each value ends.",
 ["inputs", "crash_points"], "Every prefix length of every generated serialized value, from the library's writer and from V8.",
 "Each end-of-data check sits in a different reader branch; a test would need every tag truncated at every byte.",
 [DEC], [("read bounds checks", DEC)])

prop("C07", "Serializing is deterministic, reads only, and fails only as documented",
 "Serializing the same value twice gives identical bytes and leaves the value and everything reachable from it unchanged. A value that contains an unsupported object, an object graph that needs a feature which is not enabled, or an out-of-range element is refused with the documented serialization error and never yields partial or malformed output.",
 ["inputs", "fault_sequences"], "Every supported value, and every such value with an unsupported or failing element planted at any depth.",
 "Tests exercise single unsupported objects; where in a graph the fault lies decides which handler sees it.",
 [ENC, S+"_errors.py"], [("serialization entry point and context", ENC), ("write guards", ENC)])

prop("C08", "Output never uses a feature the chosen V8 version lacks",
 "When a target V8 version or feature set is given, the output contains only constructs that target can read, or the serialization is refused with the documented error; adding features never makes a supported value unsupported. Feature lookup by version is monotonic and includes exactly the features introduced at or before that version.",
 ["inputs", "configurations"], "Every supported value with every combination of features and with versions around every feature's first version.",
 "The gating is spread over each writer branch and depends on both value and configuration; tests pin single combinations.",
 [ENC, S+"constants.py", S+"_versions.py", J+"jsbuffers.py"], [("feature set and version tables", S+"constants.py"), ("feature gates in the writer", ENC)],
 observe=["dumps(value, v8_version=...)"])

prop("C09", "JavaScript objects and arrays behave as ordered property maps",
 "After any sequence of insertions, overwrites, deletions, updates and reads on a JavaScript object or array, iteration order is integer-index keys ascending then other string keys in insertion order; every key spelling that JavaScript treats as the same property refers to the same entry; lengths, membership, views, equality with plain mappings and the array part agree with a simple reference model.",
 ["histories", "inputs"], "Every operation history over mixed integer, string, float and huge keys, across the dense/sparse storage switch.",
 "State depends on the whole history (storage representation switches, shrinking, deletions); tests sample short histories and the repository's state machines cover only the inner array storages.",
 [J+"jsobject.py", J+"jsarray.py", J+"jsarrayproperties.py", J+"_normalise_property_key.py"],
 [("array and named property storage", J+"jsobject.py"), ("storage switch on sparseness", J+"jsobject.py")],
 state=[("array properties", "integer-index entries, dense or sparse"), ("named properties", "remaining entries in insertion order")])

prop("C10", "Dense and sparse array storage both behave as one list with holes",
 "The dense and the sparse array storage give identical results, errors, lengths, hole positions, iteration, element views, slices of behaviour such as insert, append, pop, reverse, extend, resize and remove, for every operation sequence, and both agree with a plain list containing hole markers. They also agree with each other under equality at every step.",
 ["histories"], "Every sequence of sequence operations with in-range and out-of-range arguments, including holes as values.",
 "The repository's state machines compare one storage at a time with valid indexes only.",
 [J+"jsarrayproperties.py"], [("dense storage", J+"jsarrayproperties.py"), ("sparse storage", J+"jsarrayproperties.py")],
 state=[("elements and hole count", "dense"), ("index->element dict, sorted keys, length", "sparse")])

prop("C11", "Property keys are normalised exactly as JavaScript does",
 "Every property key is identified with the property that JavaScript would use for it: canonical decimal strings and integral numbers from 0 to 2^32-2 are array indexes, everything else is the string JavaScript's ToString gives; normalising twice equals normalising once, and no two distinct JavaScript property names are merged.",
 ["inputs"], "Every string, integer and float key; differential against a JavaScript engine.",
 "Key space is unbounded, with edge behaviour at signs, leading zeros, exponents, non-ASCII digits and the 2^32 limits.",
 [J+"_normalise_property_key.py", J+"jsobject.py"], [("key normalisation", J+"_normalise_property_key.py")])

prop("C12", "JavaScript maps and sets follow same-value-zero key identity",
 "After any sequence of operations, JavaScript map and set objects hold the entries, in the order, that JavaScript's own Map and Set hold for keys compared by same-value-zero: numbers by value, NaN equal to NaN, booleans distinct from numbers, strings by content, objects by identity. Equality, set algebra, membership, pop and length agree with that model.",
 ["histories", "inputs"], "Every history over keys mixing primitives, NaNs, zeros, booleans, big integers, equal-but-distinct objects and unhashable objects.",
 "Key identity is a relation over all pairs of keys; tests enumerate a few pairs and few operations.",
 [J+"jsmap.py", J+"jsset.py", J+"_equality.py", S+"_references.py"], [("same-value-zero wrapper", J+"_equality.py"), ("map", J+"jsmap.py"), ("set", J+"jsset.py")])

prop("C13", "Equality of JavaScript containers is lawful and terminates on cycles",
 "Comparing any two JavaScript containers terminates, including cyclic ones; it is reflexive, symmetric, consistent with not-equal, and true exactly when the two have the same contents under a reference definition. A comparison that fails part-way, or another comparison running at the same time in another thread, does not change the answer of a later comparison.",
 ["inputs", "histories", "schedules"], "Every pair of generated container graphs, including shared, cyclic and mutated copies, with exceptions raised inside nested comparisons and with concurrent comparisons.",
 "Cycle detection is ambient state; tests check a few fixed cycles in one thread.",
 [S+"_recursive_eq.py", J+"jsobject.py", J+"jsarray.py", J+"jsmap.py", J+"jsset.py", J+"jserror.py", J+"jsprimitiveobject.py"],
 [("recursion guard for equality", S+"_recursive_eq.py")], state=[("active comparisons", "set of pairs being compared in the current context")])

prop("C14", "Buffers and views read and write as JavaScript typed arrays do",
 "For every sequence of creating buffers and views, resizing, reading and writing elements, each view shows exactly the bytes of its buffer at its offset in its element format, tracks or goes out of bounds of a resizable buffer as JavaScript prescribes, and never reads or writes outside its range. Out-of-range creation, resizing and access are refused with the documented errors.",
 ["histories", "inputs"], "Every history of resize, element and data-view access over all element types, alignments, lengths and byte orders.",
 "Correctness depends on element type x offset x fixed/tracking x resize history x byte order.",
 [J+"jsbuffers.py", J+"_v8.py"], [("buffers and views", J+"jsbuffers.py")], state=[("backing buffer length", "changes under resize"), ("view offset/length/tracking", "fixed at creation")])

prop("C15", "Printing a value terminates and evaluates back to an equal value",
 "The printed form of every JavaScript-type value terminates, even for cyclic values, and with the printing settings at their defaults and no cycles it is a Python expression that evaluates to an equal value (for objects, arrays, maps and sets with primitive keys, errors named by strings, buffers, views of them or of bytes, dates and primitives, as long as nothing in it exceeds the size limits of the settings). What exceeds the limits shows an ellipsis. Printing settings apply only inside their scope and are restored when the scope ends, normally or by an exception.",
 ["inputs", "histories"], "Every generated value graph, with printing scopes opened, nested and left by exceptions.",
 "Settings are ambient and stack-like; values reach every combination of nesting, key spelling and indentation.",
 [J+"_repr.py", J+"jsobject.py", J+"jsarray.py", J+"jsbuffers.py", J+"jsundefined.py"], [("printing", J+"_repr.py")], state=[("printing settings", "per-context settings and active recursion")])

prop("C16", "Decoding and encoding options change exactly what they say",
 "Choosing different result types, or adding steps that leave values to the next step, changes only the documented part of the result: the same bytes decode to the same contents whatever result type is chosen, from any bytes-like object or binary file, and a pass-through step or a reusable encoder or decoder gives the same answer as the default function. A step that catches the refusal of a value of which nothing was written yet (e.g. of an object's key that isn't a string or number), or takes back what was written of a part without shared objects, and writes something else in its place gives what that would have given, as if nothing had failed. A step that writes one object under the identity of another (or of none) gives what writing that other object would have given: later references to the object that was stood for lead to what was written; identities that are ambiguous are refused with nothing written.",
 ["inputs", "configurations"], "Every generated stream with every choice of result types, input object kinds and pass-through steps.",
 "It is a product of values and configurations.",
 [ENC, DEC, S+"__init__.py", S+"extensions.py"], [("decode steps", DEC), ("encode steps", ENC)])

prop("C17", "Regular expressions keep source, flags and matching behaviour",
 "Every JavaScript regular expression round-trips with the same source and flags, and a real V8 engine sees the same ones; converting from Python patterns keeps equivalent flags and refuses verbose ones, which have no equivalent, and conversion back gives a pattern with corresponding flags that finds the same (where both languages share the syntax), or the documented error. No flag combination V8 rejects is ever written (apart from Linear, which V8 only has as an experiment).",
 ["inputs", "configurations"], "Every flag combination, arbitrary sources, with and without the version-dependent flags.",
 "The flag set is a bit mask with version-dependent and mutually exclusive bits; tests sample few of the combinations.",
 [J+"jsregexp.py", S+"constants.py", S+"_pycompat/re.py", ENC, DEC], [("flag table", S+"constants.py"), ("conversion", J+"jsregexp.py")])

prop("C18", "Errors keep name, message, stack and cause across the boundary",
 "Every JavaScript error object and every Python exception round-trips through the format with its documented name, message, stack and cause (including cyclic causes and absent fields), and a real V8 engine sees the same; error data written in the field order of older V8 versions is understood too.",
 ["inputs"], "Every combination of present and absent fields, all error kinds, causes of every value type, shared and cyclic.",
 "Optional fields appear in any combination and order; tests use a few.",
 [J+"jserror.py", J+"_v8traceback.py", ENC, DEC, S+"constants.py"], [("error tags", S+"constants.py"), ("error reader and writer", DEC)])

prop("C19", "Node.js host-object buffers interoperate with Node.js",
 "Buffers and typed-array views written by Node.js's serializer as host objects decode to views of the same type and bytes, and views written by the library with the Node.js extension are read back by Node.js as equal values, wherever they occur among other objects and references.",
 ["inputs"], "Every view type, length and byte content mixed with ordinary values and references.",
 "Tests pin a few fixtures of single buffers.",
 [S+"extensions.py", ENC, DEC], [("host object delegate", S+"extensions.py")])

prop("C20", "Stream primitives and every valid wire form decode as the format says",
 "Each low-level stream element (variable-length integers, zig-zag numbers, doubles, big integers, one-byte, two-byte and UTF-8 strings with alignment padding) writes the bytes the format prescribes and reads back the same value at the right position; every valid spelling of a value, in each supported format version, decodes to that same value as an independent reader obtains.",
 ["inputs", "configurations"], "Every integer width, string content, position parity, wire version and alternative spelling produced by an independent reference encoder.",
 "The library's writer only ever produces one spelling and one version; the others are reachable only from other writers.",
 [ENC, DEC, S+"constants.py"], [("writable stream", ENC), ("readable stream", DEC)])

prop("C21", "Dates denote the same instant on both sides",
 "A date-time serializes to the same instant as JavaScript Date to millisecond precision whatever its timezone, and a serialized date decodes to that instant in the requested timezone; naive date-times mean the configured or local zone; instants no date-time can represent are refused or represented as documented rather than silently altered.",
 ["inputs", "configurations"], "Every date-time and millisecond value in the supported range, across zones, daylight-saving folds and sub-millisecond parts.",
 "Zone arithmetic, rounding and range edges form a large space; tests sample few instants.",
 [ENC, DEC], [("date writer", ENC), ("date reader", DEC)])

prop("C22", "Calls are independent of each other and of history",
 "The result of a serialization, deserialization, comparison or printing of values depends only on its input and options: it is the same whatever calls came before, including failed ones, and whatever runs at the same time in other threads. A serialization or deserialization made from inside a step of another leaves both the same. Decoded values share no mutable state with each other, with the input or with what is serialized later. Options that are passed aren't changed, and changing them afterwards has no effect on the encoders and decoders made with them.",
 ["histories", "schedules"], "Every interleaving of successful, failing, nested and concurrent calls drawn by the generator.",
 "Depends on history and schedule; the tests run calls one at a time.",
 [ENC, DEC, S+"_recursive_eq.py", J+"_repr.py"], [("per-call contexts", ENC), ("per-call contexts", DEC)])

prop("C23", "JavaScript values that aren't containers compare and hash by their contents",
 "Regular expressions, wrapper objects, array buffers, typed arrays and DataViews, ids of shared objects, undefined and hole are equal if and only if their contents are: source and flags, the wrapped value and its JavaScript type, the bytes and resizability of a buffer, the items a view has now (whatever the type of the typed array or of what backs it). Comparing is symmetric, gives True or False and never changes a value. Equal values that have hashes have the same hash, so dicts and sets find them; a value that can change - views on buffers that can be written, and objects, arrays, maps, sets and errors - has no hash, so no hash ever changes. The fields of these values can't be assigned. (Whether a DataView equals a typed array, and equality of views whose buffer isn't accessible, are not specified.)",
 ["inputs", "histories"], "Any collection of such values, before and after the buffers behind them change.",
 "Pairs of values of different types and storage with the same contents, where the tests compare chosen pairs.",
 [J+"jsbuffers.py", J+"jsregexp.py", J+"jsprimitiveobject.py", J+"_v8.py"], [("__eq__ and __hash__ of views", J+"jsbuffers.py")])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
