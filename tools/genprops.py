#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The single place where the property texts live."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Parsing arbitrary input never panics",
  "For every byte sequence, parsing it as a JSON document, as a stream of documents or as a query string returns a value or an error and never panics: no read outside the input, no failed type conversion, no use of a missing value. Building the error message for any offset is just as safe.",
  ["inputs"], "all byte sequences, and every start offset inside the input for the stream form",
  "Tests feed a few dozen well-formed or nearly well-formed texts; truncation, stray brackets and odd tokens at every position are an unbounded set.",
  ["jsonutils.go", "parse_session.go", "querystring.go", "stringsegment.go", "errors.go"],
  [("length test before every read", "jsonutils.go:parseQuoteString, parseString, parseDict, parseArray"),
   ("comma-ok conversions", "jsonutils.go:parseDict"), ("clamped excerpt", "errors.go:NewJSONError")],
  observe=["Parse", "ParseString", "ParseStream", "ParseJsonStreams", "ParseQueryString", "NewJSONError"])

p("C02", "Parsing terminates, advances and bounds nesting",
  "Every parsing call finishes: each turn of a parsing loop consumes input, and nesting of objects and arrays deeper than a fixed limit is an error instead of unbounded recursion. The end offset reported for a document taken from a stream lies within the input, never before its start, and after its start when the document is an object or an array.",
  ["inputs"], "all byte sequences and start offsets inside them",
  "A hang or a stack overflow needs a particular text; a test that passes says nothing about the other texts.",
  ["jsonutils.go", "parse_session.go", "querystring.go"],
  [("offset returned by every parsing step", "jsonutils.go:parse*, skipEmpty"), ("nesting counter", "parse_session.go:enter/leave")],
  observe=["Parse", "ParseStream", "ParseJsonStreams"])

p("C03", "Content cannot break out of rendered text",
  "In JSON text rendered from a tree, compact or indented, every object key and string value is enclosed in double quotes and no quote, backslash or control character (below 0x20) of its content is emitted raw. In a rendered query string every key segment and value that comes from the tree is percent-encoded.",
  ["inputs"], "all trees with arbitrary bytes in keys and strings",
  "Tests render a handful of strings; the guarantee is per byte value and per rendering path.",
  ["jsonutils.go", "string.go", "write.go", "querystring.go"],
  [("quoteString/escapeJsonChar", "jsonutils.go"), ("url.QueryEscape", "querystring.go:simpleQueryString")],
  observe=["String", "PrettyString", "QueryString"])

p("C04", "Every escape written is read back as the same byte",
  "For each byte that the JSON writer replaces by an escape sequence, the JSON reader decodes that sequence to exactly that byte, and every byte it does not escape is written as it is. The reader gives hexadecimal digits of either case their value in \\u and \\x escapes, and a pair of \\u surrogates yields the one character it encodes.",
  ["inputs"], "all 256 byte values on the writing side, all escape letters and hex digits on the reading side",
  "Tests cover a few of the 256 bytes and of the escape letters; writer and reader tables live in different functions.",
  ["jsonutils.go"], [("escapeJsonChar vs parseQuoteString", "jsonutils.go"), ("hexchar2num/hexstr2byte/hexstr2rune", "jsonutils.go")],
  observe=["JSONString.String", "Parse"])

p("C05", "Numbers never pass through a lossy representation",
  "An integer node is written in base ten and integer text is read with the full signed 64-bit range before any float interpretation is tried; a float is written with as many digits as its precision needs to be read back unchanged. No conversion of a number to or from text, in rendering, parsing, marshalling to a string or unmarshalling into a string, rounds to a fixed number of digits, uses another base or narrows the value below 64 bits (32 bits only for values that came from a float32).",
  ["inputs"], "all int64, float32 and float64 values and all numeric texts",
  "Precision loss shows only for values with many digits; tests use small ones.",
  ["string.go", "marshal.go", "unmarshal.go", "access.go", "jsonutils.go", "querystring.go", "stringsegment.go", "write.go"],
  [("strconv.FormatFloat precision -1 with the recorded bit size", "string.go"), ("strconv.ParseInt(…,10,64) before ParseFloat", "jsonutils.go:parseJSONValue")],
  observe=["String", "Int", "Float", "Marshal", "Unmarshal"])

p("C06", "Read-only operations never modify their inputs",
  "Rendering, looking up, comparing, copying, diffing, converting, unmarshalling from, or marshalling a value never writes to the tree or value it reads, so that any number of goroutines may do so at once on one tree. The operations that do modify (Set, Add, SetAt, Remove, RemoveIgnoreCase, Update, UpdateDefault) change only their receiver and containers on the key path below it, never the other arguments.",
  ["schedules", "inputs", "histories"], "all trees, all interleavings of readers",
  "A hidden write is a data race that no single-threaded test observes, and the race detector sees only executed accesses.",
  ["string.go", "access.go", "clone.go", "dict.go", "equals.go", "interface.go", "marshal.go", "unmarshal.go", "write.go", "querystring.go", "values.go", "utils.go", "iszero.go"],
  [("results are built in freshly allocated objects", "clone.go, dict.go, interface.go, access.go:GetMap/GetArray")],
  observe=["every exported function and method"])

p("C07", "Scalar nodes and shared constants are immutable",
  "The payload of a string, integer, float or boolean node never changes after the node was created, so the shared null, true and false nodes and nodes that appear in several trees keep their value for ever. The package keeps no other mutable global state: its variables are written only during initialisation.",
  ["histories", "schedules"], "all sequences of API calls in one process",
  "A test would have to re-read the constants after every possible call sequence.",
  ["jsonutils.go", "unmarshal.go", "marshal.go", "string.go", "reflect.go"],
  [("payload fields are set in constructors only", "access.go:New*, jsonutils.go:parseJSONValue")],
  state=[("JSONNull, JSONTrue, JSONFalse", "nodes shared by all trees", "jsonutils.go")])

p("C08", "Containers handed out or taken in are independent",
  "Maps, slices and containers returned by GetMap, GetArray, Value, Interface, SortedKeys, Copy, CopyIncludes, CopyExcludes, Diff, the constructors and Marshal (of anything but a node, which it returns as it is) share no container storage with any existing node or caller-supplied slice, so that adding to, removing from or overwriting either side does not show in the other. DeepCopy shares no node at all with its argument.",
  ["histories", "inputs"], "all trees and all later mutations of either side",
  "Aliasing shows only after a later mutation through the other name; tests compare values right after the call.",
  ["access.go", "clone.go", "values.go", "interface.go", "dict.go", "marshal.go", "unmarshal.go", "utils.go"],
  [("fresh map or slice filled element by element", "access.go, clone.go, interface.go")])

p("C09", "An unexpected shape is an error, not a reflection panic",
  "Unmarshalling any node into any settable Go target of another kind, node type or interface, and resolving a node reference into any target, returns an error or converts; marshalling walks any Go value. Neither ever applies a reflection operation that the value's kind or type does not support (setting with the wrong setter, assigning an unassignable type, IsNil, Len or Elem on a kind without it, asserting a wrong type).",
  ["inputs", "programs"], "all trees against all target types, all Go values as marshal argument",
  "The product of 7 node kinds and 26 reflect kinds plus named types is far larger than the pairs tested.",
  ["unmarshal.go", "unmarshal_session.go", "marshal.go", "std_json.go"],
  [("switch on Type() and Kind() before every reflect operation", "unmarshal.go:_unmarshalValue, marshal.go:_marshalValue")],
  observe=["Unmarshal", "Marshal", "MarshalAll"])

p("C10", "A successful unmarshal has stored the node's value",
  "When unmarshalling a string, number, boolean, array or object node into a target reports success, the target has been assigned exactly once from that node's own value (or the value was handed on to the target's element, fields or custom decoder). The only values that leave a target untouched are the empty string offered to a numeric target and object keys without a matching field.",
  ["inputs", "programs"], "all node kinds against all supported target kinds",
  "A silently skipped or overwritten assignment needs the particular node kind and target kind pair to show.",
  ["unmarshal.go", "unmarshal_session.go"],
  [("one Set per accepted target, then return", "unmarshal.go:_unmarshalValue")],
  observe=["Unmarshal"])

p("C11", "A failure inside parsing or decoding is reported",
  "If any step of parsing a document or query string, of following a key path or of unmarshalling fails, the call as a whole returns an error; no error produced on the way is dropped or turned into success, except that ParseJsonStreams passes over what it cannot parse as long as it finds something it can. Where a parse failure is an accepted way to choose another interpretation (number, then float, then plain text; a date in several formats), the fallback value is built from the same input.",
  ["inputs", "fault_sequences"], "all inputs that make any intermediate step fail",
  "Tests exercise few failing inputs, and a dropped error looks like success.",
  ["jsonutils.go", "querystring.go", "unmarshal.go", "unmarshal_session.go", "access.go", "std_json.go", "yamlutils.go", "reflect.go"],
  [("errors.Wrap chains, aggregated errors", "jsonutils.go, unmarshal.go:unmarshalStruct, querystring.go")])

p("C12", "Accessors return a result or an error, never both or neither",
  "An accessor that fails returns the zero result with its error, and one that succeeds returns the node's own value: Int, Float, Bool, GetString, GetTime, GetArray, GetMap, Get, GetAt. String, number, boolean and array nodes reject every non-empty key path, a dict resolves a typed accessor through the same key path as Get, and an array answers an index exactly when it lies in [-n, n).",
  ["inputs"], "all nodes, key paths and indexes",
  "Each accessor exists once per node kind; tests touch a small part of the matrix.",
  ["access.go", "jsonpointer.go", "values.go"],
  [("len(keys) guard, Get then typed accessor", "access.go")])

p("C13", "Rendering and marshalling are deterministic",
  "Equal calls on equal values give byte-identical text and identical trees: object keys come out sorted and unique whatever the insertion order, and nothing that is rendered, marshalled or returned in sequence depends on Go's random map iteration order (maps whose different keys print alike, such as 1 and \"1\" under interface keys, aside).",
  ["schedules", "inputs", "histories"], "all insertion orders and all map iteration orders",
  "Map order varies per run and small maps often come out in the same order, so a test passes by luck.",
  ["marshal.go", "jsonpointer.go", "querystring.go", "clone.go", "dict.go", "write.go"],
  [("sortedmap as only dict storage", "access.go:Set, dict.go"), ("sorted keys", "marshal.go:marshalMap, querystring.go:parseQueryString")])

p("C14", "Cyclic pointer graphs marshal finitely with resolvable references",
  "Marshalling a value whose pointers to structs form cycles finishes: a pointer that is already being marshalled is rendered as a reference instead of being followed again. Every object that a reference in the result points to carries that reference's id, in compact and indented text alike, for Marshal and MarshalAll.",
  ["inputs"], "all pointer graphs over structs reachable from the marshalled value",
  "Cycle shapes are unbounded; tests have three.",
  ["marshal.go", "jsonpointer.go", "json_pointer_trace.go", "marshal_session.go", "write.go", "jsonutils.go"],
  [("trace lookup before following a pointer", "marshal.go:marshalValueWithObjectMap"), ("ids assigned after the walk", "jsonpointer.go:setAllNodeId")])

p("C15", "Custom encoders and decoders are honoured at every depth",
  "A value implementing MarshalJSON is encoded by it wherever it occurs (field, element, map value, behind a pointer or interface), except times, and a target implementing UnmarshalJSON is decoded by it wherever it occurs, except times from text, null (which resets a target) and references; neither is ever bypassed by the structural code, and the decoder's error is reported. AfterUnmarshal runs after all fields of a struct and its embedded structs have been set.",
  ["programs", "inputs"], "all positions and types with custom methods",
  "Types and positions are chosen by users of the package.",
  ["std_json.go", "marshal.go", "unmarshal.go"],
  [("every recursion goes through tryStdMarshal / tryStdUnmarshal", "marshal.go:marshalValue, unmarshal.go:unmarshalValue")])

p("C16", "Every node kind answers with its own value",
  "For dict, array, string, integer, float and boolean nodes, rendering, query string, YAML, comparison, zero test, conversion to Go values, decoding and deep copy depend on the node's own content; none of them falls back to the behaviour of null that all node kinds inherit. Text and query strings show every element of a container, each once, an entry under its own unchanged key and, in query strings, an element of an array under its own index.",
  ["inputs", "programs"], "all node kinds times all operations",
  "A missing method compiles, because null's implementation is embedded, and no test covers the full matrix.",
  ["jsonutils.go", "string.go", "write.go", "querystring.go", "yamlutils.go", "equals.go", "iszero.go", "interface.go", "unmarshal.go", "clone.go", "access.go"],
  [("methods overriding the embedded JSONValue", "all files")])

p("C17", "Only empty values asked to be omitted are omitted",
  "Fields tagged as ignored and deprecated aliases aside, MarshalAll omits no field, element or map entry: an empty value is rendered as its empty value or as null. Marshal omits a value only when it is nil or an undefined tristate, or when it is empty and its field asks for omission of empty values of its kind (zero numbers, false, empty strings and containers).",
  ["inputs", "programs"], "all values and all combinations of omit flags",
  "Value kind times emptiness times three flags times two entry points; tests cover a fraction.",
  ["marshal.go"], [("omitEmpty conjunct in every nil result", "marshal.go:marshal*")], observe=["Marshal", "MarshalAll"])

p("C18", "Every error text has a catalog entry and the catalog is coherent",
  "Every error message constant of the package has an entry in the message catalog, and every locale's table maps each key to one whole message: offsets ascend, stay within the data and start at a message boundary. The English message of a key is the key itself.",
  ["configurations"], "all error constants times all locales",
  "No test reads the catalog.",
  ["errors.go", "locales/locales.go"], [("generated tables", "locales/locales.go")])

p("C19", "Lookup variants agree with each other",
  "Contains is true exactly when Get succeeds for the same keys, and ContainsIgnoreCases exactly when GetIgnoreCases does; the plain variants compare every key of the path exactly and the IgnoreCases variants ignore case at every level. A reference node answers every accessor as the node it refers to does.",
  ["inputs"], "all dicts and key paths",
  "Tests use one-level paths and one spelling.",
  ["access.go", "jsonpointer.go"], [("shared path walk", "access.go:_get"), ("delegation", "jsonpointer.go")])

p("C20", "Equality is structural and total",
  "Equals is true exactly for two nodes of the same kind with equal content: scalars with equal payload, arrays of equal length with equal elements at every index, dicts with the same key set and equal values under every key. It compares every element and both directions of the key sets, and answers false, not a panic, for another kind.",
  ["inputs"], "all pairs of nodes",
  "Tests compare a few pairs.",
  ["equals.go"], [("kind test, length test, full element loop", "equals.go")])

p("C21", "Loops over user-controlled chains terminate",
  "Following deprecated-by aliases of struct fields, removing keys ignoring case, walking pointer chains to a custom decoder and every other loop of the package end for every input, including alias tags that form a cycle of any shape. (A target made of pointers whose chain leads back into itself, such as a value of type `type P *P` pointing to itself, is outside the claim.)",
  ["inputs", "programs"], "all struct tags, all dicts",
  "Termination is a statement about all chains; tests have one two-element loop.",
  ["marshal.go", "unmarshal.go", "access.go", "utils.go", "std_json.go"],
  [("visited sets", "marshal.go:struct2JSONPairs, unmarshal.go:setStructFieldAt"), ("shrinking container", "access.go:RemoveIgnoreCase")])

p("C24", "Update, UpdateDefault, Diff and the selective copies follow set algebra",
  "After Update with another dict the receiver holds the keys of both, with the argument's values where both have one; UpdateDefault keeps the receiver's values there; an argument that is no dict changes nothing. Diff's results hold exactly the keys of a only with a's values, the keys of both with unequal values as an array of a's and b's value, the keys of both with equal values, and the keys of b only with b's values. CopyIncludes holds exactly the entries whose key is listed, CopyExcludes and Copy exactly those whose key is not.",
  ["inputs"], "all pairs of dicts, key lists and key orders",
  "Tests sample a few dicts with a few keys; the operations merge and split sorted arrays in runs, and lists may be empty, long or repeated.",
  ["dict.go", "clone.go", "access.go"], [("sortedmap.Merge and Split", "dict.go"), ("copying loops", "clone.go:CopyIncludes, CopyExcludes")])

p("C29", "Adding, setting and removing change exactly what they name",
  "Set puts the value under exactly the key given; Remove and RemoveIgnoreCase remove exactly the entries whose key equals the one given (ignoring case) and answer whether there was one; no other entry changes. Add with a key path puts the value at the end of the path, making a dict only where there was none or null, changes nothing when it fails, and leaves every other entry alone. NewDict holds exactly the pairs given, the last of equal keys winning. NewArray and NewStringArray hold all elements given in order, JSONArray.Add appends them after the ones there were, SetAt replaces only the element at its index, Copy, Value and GetStringArray give all elements in order.",
  ["inputs"], "all dicts, keys, values and arrays; key paths of up to two keys for Add",
  "Tests edit a few small containers and look at the entry edited; the guarantee is also about all the others.",
  ["dict.go", "access.go", "jsonutils.go", "clone.go"], [("sorted map edits", "dict.go, access.go:Add"), ("append", "access.go, jsonutils.go")])

p("C31", "Rendered text is one well-formed JSON value",
  "For every tree whose floats are finite, String, PrettyString and the streaming writer give exactly one complete JSON value: elements and entries separated by single commas with none before the first or after the last, every entry a quoted key, a colon and one value, every bracket closed by its own kind, strings closed, numbers and literals in JSON notation; also with node ids of shared structure, for empty containers and at every indentation. (References to shared structure are written <number>, which this package's parser reads.)",
  ["inputs"], "all trees, sizes and nesting; loop turns by induction",
  "Tests compare the text of sample trees; commas and brackets depend on which element is first, last or skipped, on ids and on nesting.",
  ["write.go", "string.go", "jsonutils.go", "jsonpointer.go"], [("writing loops", "write.go:buildString"), ("indenting loops", "jsonutils.go:prettyString")])

p("C32", "Malformed structure is rejected",
  "Whatever the text and the offset, when ParseStream, Parse or ParseString reports success, the text from the offset to the position reached is one complete value of the parser's language: every object and array opened in it is closed by its own kind of bracket, every quoted string ends with the quote that opened it (escapes do not end it, and \\u and \\x escapes have their digits), every member of an object is a key, a colon and a value, members and elements are separated by commas, and no character in it is passed over without being part of this structure. The language is JSON with single quotes, bare words, absent values (read as null) and keys, and a comma before a closing bracket. Anything else, the text ending inside a container or string included, is reported as an error.",
  ["inputs"], "all byte sequences and offsets",
  "Tests parse a few malformed texts; the guarantee is about every place at which a text can be cut or go wrong.",
  ["jsonutils.go"], [("containers", "jsonutils.go:parseDict, parseArray"), ("strings", "jsonutils.go:parseQuoteString, parseString"), ("entry", "jsonutils.go:ParseStream")])

p("C33", "What is read reaches the tree",
  "Whatever the text and the offset, when ParseStream, Parse, ParseString or ParseJsonStreams reports success, the tree or list returned holds exactly the values that were read from the text: every element of an array and every value of a stream is present once, in the order of the text; every value of an object stands under the key written before it, where the last of several values under one key wins; the one exception is the key that numbers an object for references. No value is left out, repeated, exchanged, changed or invented because of what it is or how many there are, and a container that is filled holds nothing from before.",
  ["inputs"], "all byte sequences and offsets",
  "Tests parse a few documents; a value lost only under a particular key, number of elements or content never shows in them.",
  ["jsonutils.go"], [("containers", "jsonutils.go:parseDict, parseArray, JSONDict.parse, JSONArray.parse"), ("entry", "jsonutils.go:ParseStream, Parse, ParseJsonStreams")])

p("C34", "Scalars are read as what they are written",
  "Whatever the text and the offset, a value in quotes is read as a string holding the text between the quotes, whatever that text looks like (a word, a number or a reference in quotes stays a string). A bare value is read as null when it is empty, null or none, as true when it is true or yes, as false when it is false or no (in any case of letters), as an integer holding its value when it is a decimal integer of 64 bits, as a float holding its value when it is another number, as a reference when it stands in angle brackets, and otherwise as a string holding the bare text as written.",
  ["inputs"], "all byte sequences and offsets",
  "Tests read a handful of words and numbers; the guarantee is about every text and its type.",
  ["jsonutils.go"], [("scalars", "jsonutils.go:parseJSONValue"), ("the nodes", "jsonutils.go:JSONNull, JSONTrue, JSONFalse")])

# properties not claimed: they quantify over runtime values that static analysis cannot bound here
p("C22", "Parsing rendered text gives back an equal tree",
  "For every tree without references, parsing its compact or indented text yields a tree that Equals it.",
  ["inputs"], "all trees", "Tests sample trees.", ["jsonutils.go", "write.go", "string.go"], [("writer and parser", "jsonutils.go, write.go")])
p("C23", "Unmarshal inverts Marshal for supported Go values",
  "For every value of a supported Go type without custom methods or omitted fields, unmarshalling its marshalled tree into a fresh value of the type yields an equal value.",
  ["inputs", "programs"], "all values of all supported types", "Tests sample types.", ["marshal.go", "unmarshal.go"], [("marshalValue / unmarshalValue", "marshal.go, unmarshal.go")])
p("C25", "Parsing a rendered query string gives back the tree",
  "For every dict of non-empty strings, arrays and dicts with dot-free keys, ParseQueryString of its QueryString yields a tree with the same strings at the same paths.",
  ["inputs"], "all such dicts", "Tests sample dicts.", ["querystring.go", "stringsegment.go"], [("_queryString / addQueryStringSeg", "querystring.go")])
p("C26", "Times survive conversion to and from text",
  "A time marshalled to text and read back with GetTime or Unmarshal denotes the same instant to the precision of the format, in every time zone.",
  ["inputs"], "all instants and zones", "Tests sample instants.", ["access.go", "unmarshal.go", "marshal.go", "utils.go"], [("timeutils", "access.go:GetTime")])
p("C27", "Currency strings are read with the right decimal separator",
  "A string in US or EU currency notation is unmarshalled into a number with the thousands separators removed and the decimal separator honoured.",
  ["inputs"], "all currency strings", "Tests sample strings.", ["currency.go", "unmarshal.go"], [("normalizeCurrencyString", "currency.go")])
p("C28", "YAML text denotes the same tree as JSON text",
  "ParseYAML of a tree's YAMLString equals the tree, and ParseYAML of JSON text equals Parse of it.",
  ["inputs"], "all trees", "Tests sample trees.", ["yamlutils.go"], [("github.com/ghodss/yaml", "yamlutils.go")])

p("C30", "Working with a tree never panics",
  "No exported operation other than marshalling and unmarshalling panics, whatever the tree (its containers holding no nil), key path, index or text: constructors, lookups, typed accessors, key-path insertion and removal, comparing, rendering, query strings, copying, diffing, merging and the query helpers, which also take a missing tree. Path elements of another kind, missing keys, negative or large indexes, unresolved references and arguments of other kinds are answered by an error or a default. (SetAt is like indexing: its index must be that of an element. Trees nested deeper than the stack are outside the claim.)",
  ["inputs"], "all trees, key paths, indexes and texts",
  "Tests call each operation on a few trees of the expected shape; the guarantee is about every other shape.",
  ["access.go", "equals.go", "dict.go", "clone.go", "write.go", "querystring.go", "stringsegment.go", "utils.go", "jsonpointer.go", "currency.go"],
  [("comma-ok assertions", "access.go:_get, Add, GetMap"), ("index tests", "access.go:GetAt"), ("nil tests", "utils.go, jsonpointer.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
