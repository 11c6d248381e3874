"""Single source of /verif/properties.jsonl (run: python3 tools/properties.py)."""
import json, os

ENC = "jsonpickle/pickler.py"
DEC = "jsonpickle/unpickler.py"
HND = "jsonpickle/handlers.py"
UTL = "jsonpickle/util.py"
TAG = "jsonpickle/tags.py"
BCK = "jsonpickle/backend.py"
NPY = "jsonpickle/ext/numpy.py"
PDS = "jsonpickle/ext/pandas.py"

PROPS = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    anchors = {
        "files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe,
        "hook_needed": None,
    }
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    PROPS.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why,
            "anchors": anchors,
        }
    )


prop(
    "C01",
    "Round trip preserves every value and type",
    "For any finite object graph made of None, booleans, integers, floats, strings, bytes, bytearrays, lists, tuples, sets, frozensets, dictionaries with string keys that are not library tag names, enum members, and instances of importable classes (attribute, __slots__, dataclass and namedtuple instances and subclasses of list, tuple, set, dict, str and int), decode(encode(x)) is a graph of the same shape in which every value has the same type and content as its counterpart. Nothing is added, lost, reordered inside sequences or coerced, at any depth, width or position.",
    ["inputs", "programs"],
    "all object graphs over the listed kinds, of any shape, size and nesting, and all class definitions of the listed forms",
    "Tests encode a few dozen hand-written objects; they cannot cover the product of kinds, positions, nesting and sizes, and a value lost only in one combination (say a set subclass inside a slotted object inside a tuple) goes unseen.",
    [ENC, DEC, UTL, TAG],
    [("kind dispatch when flattening", ENC), ("tag dispatch when restoring", DEC), ("type predicates", UTL)],
    ["jsonpickle.encode", "jsonpickle.decode"],
)
prop(
    "C02",
    "Round trip preserves sharing and cycles",
    "In decode(encode(x)) two positions hold the same object exactly when the corresponding positions of x held the same list, dictionary or class instance, for arbitrary sharing and for all cycles through lists, dictionaries, tuples, sets, subclassed containers, attributes, object state and reconstruction items (only cycles through an object's own constructor arguments are excepted). Equal but distinct objects are never merged, shared ones never split, and no internal placeholder is left anywhere in the result.",
    ["inputs"],
    "all directed object graphs with sharing and cycles, including graphs with objects that are dropped or replaced on the way",
    "The numbering used by the encoder and by the decoder has to agree for every interleaving of kinds in the document; each test fixes one small graph, and a mismatch in one kind only shows when a later reference crosses it.",
    [ENC, DEC],
    [("reference numbering while flattening", ENC), ("reference numbering, placeholders and final swap while restoring", DEC)],
    ["jsonpickle.encode", "jsonpickle.decode", "identity of objects in the decoded graph"],
    [("reference table of the encoder", "object to number, in document order", ENC), ("reference table of the decoder", "number to object, in document order", DEC)],
)
prop(
    "C03",
    "keys=True preserves dictionary keys of any type",
    "With keys=True in both calls, every dictionary in the graph decodes to a dictionary with the same keys, equal in type and value, mapped to the same values: strings (including strings that look like library tags or like escaped keys), None, booleans, numbers, bytes, tuples, enum members and instances of importable classes. Sharing and cycles between keys and values, and everywhere else in the graph, are preserved as well.",
    ["inputs"],
    "all graphs with dictionaries whose keys are drawn from the listed types, mixed freely with string keys, at any nesting",
    "Keys are handled in two phases on both sides and the phases must number objects identically for every mixture and order of keys; tests use single dictionaries with one or two special keys.",
    [ENC, DEC, TAG],
    [("two-phase key flattening and key escaping", ENC), ("two-phase key restoring", DEC), ("reserved names", TAG)],
    ["jsonpickle.encode(keys=True)", "jsonpickle.decode(keys=True)"],
)
prop(
    "C04",
    "Default key coercion only touches non-string keys",
    "Without keys=True, string keys are written and read back unchanged, a None key becomes the string \"null\", any other key becomes its repr text, and an entry whose key is one of the library's tag names is left out. As long as no two keys of one dictionary are coerced to the same text, every other entry, its value, and all sharing in the rest of the graph are unaffected by the coercion.",
    ["inputs"],
    "all dictionaries (plain and subclassed) with any mixture of key types, anywhere in a graph",
    "Tests check coercion of single keys in flat dictionaries, not its effect on neighbouring entries, on references across the dictionary or in nested positions.",
    [ENC, DEC, UTL],
    [("single-pass key flattening", ENC)],
    ["jsonpickle.encode", "jsonpickle.decode"],
)
prop(
    "C05",
    "Reconstruction protocols are replayed exactly",
    "Objects that define __reduce__ or __reduce_ex__ (two to six elements), __getnewargs__, __getnewargs_ex__, __getinitargs__ or __getstate__/__setstate__ are rebuilt with the same protocol steps pickle would take: the same callable or class receives equal arguments, then the state is applied once (through the state setter or __setstate__ when there is one), then list items are appended in order, then dictionary items are set in order. All values passed to those steps equal, in type, content and sharing, the ones the object supplied.",
    ["inputs", "programs"],
    "all classes that implement some combination of the protocols, with any argument, state and item values, at any position of a graph",
    "There are dozens of combinations of reconstruction hooks and element counts with values that contain other such objects; tests cover one class per hook.",
    [ENC, DEC, UTL],
    [("protocol selection and reduce handling", ENC), ("reduce, new-arguments and state restoring", DEC), ("method detection", UTL)],
    ["jsonpickle.encode", "jsonpickle.decode", "calls received by the classes under test"],
)
prop(
    "C06",
    "unpicklable=False yields a plain, finite JSON view",
    "With unpicklable=False the output describes lists, tuples and sets as arrays, dictionaries as objects, and class instances as the object of their attributes (or as the value returned by __getstate__), with no instance, reference, tuple, set, state or reduce tags anywhere. Objects that occur several times are written out in full each time, a reference back to an object that is still being written becomes null, and encoding terminates for every cyclic graph.",
    ["inputs"],
    "all object graphs with sharing and cycles",
    "The result depends on which objects were met before and on a per-call cache, so correctness depends on the order of sharing in the graph; tests check trees and one self-reference.",
    [ENC],
    [("tag suppression, cycle breaking and result cache", ENC)],
    ["jsonpickle.encode(unpicklable=False)"],
    [("result cache", "already flattened objects by identity", ENC)],
)
prop(
    "C07",
    "make_refs=False writes no references and breaks cycles",
    "With make_refs=False the output contains no reference tags; for a graph without cycles it decodes to an equal graph in which shared objects have become separate equal copies. For cyclic graphs encoding terminates and every reference back to an object that is still being written appears as the text of its repr.",
    ["inputs"],
    "all object graphs with sharing and cycles",
    "Whether an object is repeated in full or replaced depends on the traversal history; tests have one list and one cycle.",
    [ENC, DEC],
    [("cycle detection without references, result cache", ENC)],
    ["jsonpickle.encode(make_refs=False)", "jsonpickle.decode"],
)
prop(
    "C08",
    "max_depth cuts exactly at the requested depth",
    "With max_depth=n every container or instance nested n levels below the root is replaced by its repr text and nothing above that level is changed: the document equals the one written without a limit except for the replaced values, and no part of it nests containers or instances deeper than n. This holds for all combinations with unpicklable, make_refs and keys on graphs without sharing, and with references enabled for all graphs.",
    ["inputs", "configurations"],
    "all graphs, all n, and the other encoding options",
    "The depth counter is advanced and restored along every path of the traversal, including the ones that return early or fail; tests check two depths on one literal.",
    [ENC],
    [("depth counter", ENC)],
    ["jsonpickle.encode(max_depth=n)"],
    [("current depth", "nesting level of the traversal", ENC)],
)
prop(
    "C09",
    "Encoding and decoding leave their inputs untouched",
    "encode and the pickling context never change the objects they are given: values, types, identities, attribute sets and order are the same before and after, whether the call succeeds or raises. Restoring already parsed data never changes that data, and restoring it several times gives equal results that share no mutable object with each other or with the data.",
    ["inputs", "histories"],
    "all graphs and options, all numbers of repetitions",
    "Tests look at the result of a call and not at its argument, and run each call once on fresh data.",
    [ENC, DEC],
    [("traversal", ENC), ("restoring from parsed data", DEC)],
    ["arguments of encode/flatten/restore before and after the call"],
)
prop(
    "C10",
    "Reused contexts behave like fresh ones",
    "A pickling or unpickling context that is used for any sequence of operations, including operations that raised in the middle, returns for every later operation exactly what a newly created context with the same options returns. Classes or references made known by one operation are never visible to a later one unless the caller asked to keep the state with reset=False.",
    ["histories", "fault_sequences"],
    "all sequences of encode/decode operations on one context, with failures at any point of any operation",
    "Only long-lived use exposes state that survives a call, and the interesting histories contain a call that failed half way; tests build a new context per call.",
    [ENC, DEC],
    [("reset on entry and on return to the root", ENC), ("reset of references, placeholders and extra classes", DEC)],
    ["Pickler.flatten", "Unpickler.restore", "encode(context=...)", "decode(context=...)"],
    [("encoder context state", "references, depth, cache", ENC), ("decoder context state", "references, placeholders, classes", DEC)],
)
prop(
    "C11",
    "Documents follow the stable wire format",
    "encode writes each kind of value with its published tag layout and numbers references by the order in which lists, dictionaries and instances start in the document, counted from zero; so a document is fully determined by the graph and the options. decode gives every document in that format its meaning independently of the encoder that wrote it, including documents in which a reference points to any earlier list, dictionary or instance, and with v1_decode=True documents of the old format, in which plain dictionaries take no number.",
    ["inputs", "histories"],
    "all documents of the format and all graphs; documents written by one release and read by another",
    "Round-trip tests pass when encoder and decoder change the format together, which silently makes stored documents unreadable; only an independent description of the format shows it.",
    [ENC, DEC, TAG],
    [("tag layout", TAG), ("document writer", ENC), ("document reader", DEC)],
    ["text returned by jsonpickle.encode", "objects returned by jsonpickle.decode for independently written documents"],
)
prop(
    "C12",
    "Plain JSON passes through unchanged in both directions",
    "For every JSON text that contains no library tag as an object key, decode returns exactly what the standard JSON parser returns, with equal types, key order and numeric values and no sharing between its parts. For every tree of JSON-native Python values without tag keys, encode returns a text the standard parser reads back as that tree.",
    ["inputs"],
    "all JSON texts without tags, all nestings, sizes and key names, with each available backend",
    "Tests decode a handful of literals; special keys, deep nesting, numbers at the limits and unusual strings are outside of them.",
    [DEC, ENC, BCK],
    [("tag test", DEC), ("primitive fast path", ENC)],
    ["jsonpickle.decode", "jsonpickle.encode"],
)
prop(
    "C13",
    "Malformed documents stay contained",
    "An object with a tuple, set, bytes, bytearray, iterator, reduce or reference tag whose payload has the wrong JSON type decodes to the neutral value for its tag (empty tuple, set, bytes, bytearray, iterator or list, or None for a reference that resolves to nothing), and everything else in the document decodes as if the malformed part were replaced by that value. Documents nest malformed parts at any place without crashing the interpreter, hanging, or leaking internal placeholder objects into the result.",
    ["inputs"],
    "all documents obtained by combining tags with payloads of every JSON type, at any nesting and next to well-formed parts",
    "The number of tag and payload combinations, and their effect on the parts that follow, is far beyond the handful of malformed inputs in the tests.",
    [DEC],
    [("tag handlers with defaults", DEC)],
    ["jsonpickle.decode"],
)
prop(
    "C14",
    "Safe decoding never evaluates document text",
    "With safe=True, which is the default, no text in a document is ever evaluated as an expression: repr, type, function, module and class names that contain calls, operators or indexing are at most looked up by attribute access, and resolve to nothing when no such name exists. Only an explicit safe=False evaluates text, and only for the legacy repr form.",
    ["inputs", "configurations"],
    "all documents with names and repr texts chosen by an adversary, in every position, and all option combinations",
    "A test shows that one hostile text is inert; the property is about every position and tag that carries text.",
    [DEC, UTL],
    [("legacy repr restoring", DEC), ("name loading", UTL)],
    ["side effects of jsonpickle.decode on a canary module"],
)
prop(
    "C15",
    "Class names resolve by the documented precedence",
    "A class name in a document resolves first to a class the caller supplied for that name in the same call, then to the importable attribute of that name, and otherwise is missing. A missing class leaves the entry as the plain dictionary found in the document after the chosen policy ran once per occurrence (nothing, a warning, an error, or a callback receiving the name), and all other parts of the document decode as usual (entries of missing classes being considered here have members that are plain values).",
    ["inputs", "configurations"],
    "all documents with any mixture of resolvable, supplied and missing classes, all forms of the classes argument and all policies",
    "Precedence and effects on neighbouring objects only show in documents that mix several kinds of classes and references; tests have one missing class at the root.",
    [DEC, UTL],
    [("class registration and missing-class policy", DEC), ("class lookup", UTL)],
    ["jsonpickle.decode(classes=..., on_missing=...)"],
)
prop(
    "C16",
    "Handler registry answers by its registration history",
    "After any sequence of register and unregister calls, looking up a class or its qualified name returns the handler most recently registered for exactly that class if it is still registered, otherwise, for a class, the handler of the earliest registered base handler whose class is a base of it, otherwise the given default. Unregistering removes every trace of exactly that class, and encode and decode use precisely the handler the lookup returns at that moment.",
    ["histories"],
    "all histories of register, unregister and lookup over class hierarchies",
    "Lookups depend on the whole history and on the class hierarchy; tests make one registration and clean up.",
    [HND],
    [("registry", HND), ("handler lookup when encoding and decoding", ENC)],
    ["jsonpickle.handlers.register/unregister/get", "jsonpickle.encode/decode of handled classes"],
    [("exact handlers", "class and name to handler", HND), ("base handlers", "ordered list of base registrations", HND)],
)
prop(
    "C17",
    "Custom handlers take full part in the object graph",
    "Values that a handler flattens and restores through its context with reset=False keep their content and their sharing and cycles with the rest of the graph, in both directions across the handler boundary, for any number and nesting of handled objects. The handler sees the options of the running call and, when its methods accept it, the handler_context value of that call and no other.",
    ["inputs", "histories"],
    "all graphs that mix handled objects (handlers that recurse, return plain values, or return None) with all other kinds",
    "Tests use a handled object at the root; numbering errors appear only when references cross handlers in both directions.",
    [HND, ENC, DEC],
    [("handler invocation", ENC), ("handler invocation", DEC)],
    ["jsonpickle.encode/decode with registered handlers"],
)
prop(
    "C18",
    "fail_safe confines a failure to the failing object",
    "When flattening an object raises and fail_safe returns a plain value, exactly the innermost failing object is replaced by that value, the callback runs once per failure with the exception that was raised, and all the rest of the graph, with its sharing and cycles, decodes as if that value had been there from the start. KeyboardInterrupt and SystemExit are never swallowed.",
    ["fault_sequences", "inputs"],
    "all graphs and all subsets of objects that fail, at any point of their flattening",
    "Failures half way through an object leave partial state behind that only matters for objects encoded later; tests have one failing object at the root.",
    [ENC],
    [("failure interception", ENC)],
    ["jsonpickle.encode(fail_safe=...)", "jsonpickle.decode"],
)
prop(
    "C19",
    "Backend manager follows its configuration history",
    "After any sequence of load, remove, preference, fallthrough and option calls, encoding and decoding use the loaded backends in order of preference with the options last set for each: the first one only, or with fallthrough the next one after a failure, raising the last error when all fail. Loading, removing or preferring an unknown backend has exactly the documented result and never leaves a half-registered backend behind.",
    ["histories", "fault_sequences"],
    "all histories of configuration calls interleaved with encode and decode calls, with any pattern of backend failures",
    "The result of a call depends on the whole configuration history; tests reset the manager between single calls.",
    [BCK],
    [("backend list, options and fallthrough", BCK)],
    ["JSONBackend methods", "calls received by stand-in backend modules"],
    [("backend order", "names in order of preference", BCK), ("options", "arguments per backend", BCK)],
)
prop(
    "C20",
    "Standard library value types round-trip",
    "Instances of datetime, date, time, timedelta, timezone and ZoneInfo, Decimal, Fraction, complex, UUID, compiled regular expressions, array, deque, OrderedDict, Counter, defaultdict, range, slice, pure paths, IP addresses and SimpleNamespace decode to instances of the same type with equal content, for every value in their range (Counter and defaultdict with keys other than strings under keys=True). This holds in every position of a graph, together with sharing of and through those objects.",
    ["inputs"],
    "all values of the listed types and all positions in a graph",
    "Tests use one or two values per type at the root; limits, flags, time zones, subclasses and shared positions are open.",
    [HND, ENC, DEC],
    [("built-in handlers", HND), ("reduce path", ENC)],
    ["jsonpickle.encode", "jsonpickle.decode"],
)
prop(
    "C21",
    "numpy arrays keep data, layout and aliasing",
    "With the numpy handlers registered, plain arrays of every numpy dtype (numbers, dates, texts, bytes, structured and objects), byte order, shape, memory order and size (including zero-size and zero-dimensional arrays) and numpy scalars and dtypes decode to equal data with the same dtype, shape and byte order, and arrays stay writeable or read-only as they were. Views of arrays other than arrays of objects that share memory with another array in the same graph still share it afterwards: writing through one decoded array is visible through exactly the corresponding elements of the others.",
    ["inputs", "configurations"],
    "all arrays and families of strided views over common bases, all size thresholds and modes",
    "Offsets, strides and base sharing form a large space; tests check a few slices and a transpose.",
    [NPY],
    [("array and view handlers", NPY)],
    ["jsonpickle.encode/decode with jsonpickle.ext.numpy handlers"],
)
prop(
    "C22",
    "pandas objects keep values, labels and dtypes",
    "With the pandas handlers registered, data frames, series and indexes decode to objects that are equal in values, missing-value positions, row and column labels, names, dtypes and order. This holds for numbers of any width, nullable types, texts, booleans, dates and time differences of any unit, time zones, periods, intervals, plain categories and objects, for duplicated and repeated values and column types of any run length, and for empty objects.",
    ["inputs"],
    "all frames, series and indexes over the supported dtypes",
    "Tests hold a few frames; run-length encoding, label types and missing values interact in ways only a systematic enumeration reaches.",
    [PDS, "jsonpickle/tags_pd.py"],
    [("frame, series and index handlers, run-length encoding", PDS)],
    ["jsonpickle.encode/decode with jsonpickle.ext.pandas handlers"],
)
prop(
    "C23",
    "Iterators are captured in order and bounded by max_iter",
    "A generator or an iterator object without a reduction of its own, anywhere in the graph, is written as its next items in order, at most max_iter of them when the limit is given, drawing no further items than written, and decodes to an iterator over equal items that share identity with the rest of the graph as usual. Two different iterators never influence each other, and objects after an iterator keep their references.",
    ["inputs", "configurations"],
    "all iterators, limits and positions in a graph",
    "The number of items drawn and the numbering after an iterator are only visible by counting and by references placed behind it; tests check one iterator at the root.",
    [ENC, DEC],
    [("iterator flattening", ENC), ("iterator restoring", DEC)],
    ["jsonpickle.encode(max_iter=...)", "jsonpickle.decode", "items drawn from the source iterator"],
)
prop(
    "C24",
    "Unsupported members are dropped or nulled in isolation",
    "A value that cannot be represented becomes null as a list, tuple or set element; as an attribute or dictionary value an open text file becomes null and a lambda is left out. A warning is given for every nulled value exactly when warn=True. The rest of the graph, its sharing and its cycles decode as if the value had been null or absent from the start.",
    ["inputs"],
    "all graphs with any number of unsupported members in any position",
    "The effect on later references and on neighbouring members depends on the position of the unsupported member; tests have a single one.",
    [ENC, UTL],
    [("unsupported values", ENC), ("picklability test", UTL)],
    ["jsonpickle.encode(warn=...)", "jsonpickle.decode", "warnings"],
)
prop(
    "C25",
    "Concurrent and nested calls do not interfere",
    "Calls of encode and decode that run at the same time in different threads, or nested inside each other from __getstate__, __setstate__, __reduce__ or a handler class, each with its own context, return exactly what they return when run alone. No interleaving of their steps mixes references, depth, options, classes or handler contexts between calls.",
    ["schedules"],
    "all interleavings of the steps of concurrent or nested calls",
    "Tests are sequential; shared state only shows when another call runs between two steps of the first one.",
    [ENC, DEC, HND],
    [("per-call context objects", ENC), ("per-call context objects", DEC), ("handler instances", HND)],
    ["results of concurrent and nested jsonpickle.encode/decode calls"],
)
prop(
    "C26",
    "Named objects decode to the very same object",
    "Classes, module-level functions, built-in functions and types, modules and enum members, wherever they occur, decode to the identical existing object and not to a copy or another object with a similar name, including nested classes and renamed or re-exported names. References to other objects before and after them are not affected.",
    ["inputs", "programs"],
    "all importable names, in every position of a graph",
    "Name resolution depends on module and qualified names with many special cases; tests check a few names.",
    [UTL, ENC, DEC],
    [("importable names and loading", UTL)],
    ["jsonpickle.encode", "jsonpickle.decode"],
)
prop(
    "C27",
    "Bytes survive either text encoding",
    "Every bytes and bytearray value of any length and content round-trips exactly, with base64 and with base85, in any position including dictionary keys with keys=True. A decoder needs no option to read either form, and both forms can appear in one document.",
    ["inputs", "configurations"],
    "all byte strings and both encodings",
    "Lengths modulo the block size, all byte values and mixtures of both forms are beyond the few literals in the tests.",
    [ENC, DEC, UTL],
    [("bytes flattening", ENC), ("bytes restoring", DEC), ("text encodings", UTL)],
    ["jsonpickle.encode(use_base85=...)", "jsonpickle.decode"],
)
prop(
    "C28",
    "Exactly the selected attributes are written",
    "For an instance without reconstruction hooks, the written attributes are exactly its instance attributes and set slots (own and inherited), minus the names listed in _jsonpickle_exclude, under their own names; unset slots are skipped and class-level attributes never appear. The name default_factory is reserved. Decoding sets exactly those attributes, bypassing __init__, also for frozen dataclasses.",
    ["inputs", "programs"],
    "all class definitions combining attributes, slots, inheritance, exclusion lists and frozen dataclasses",
    "The combinations of class features are many and each test class has one feature.",
    [ENC, DEC],
    [("attribute and slot collection", ENC), ("attribute restoring", DEC)],
    ["attributes in the text of jsonpickle.encode", "attributes after jsonpickle.decode"],
)
prop(
    "C29",
    "Text formatting and backend choice do not change meaning",
    "indent, separators and the choice among the available JSON backends only affect the layout of the text: for every graph with finite numbers and every option set the documents parse to the same JSON value and decode to the same graph. A document written through one backend decodes identically through every other one.",
    ["inputs", "configurations"],
    "all graphs, all formatting options and all pairs of backends",
    "Tests use the default backend and one or two indents on flat data.",
    [ENC, BCK],
    [("backend calls", BCK)],
    ["jsonpickle.encode(indent=, separators=, backend=)", "jsonpickle.decode(backend=)"],
)

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    print(len(PROPS), "properties")
