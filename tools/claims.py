CLAIM={
'C01':('abstract interpretation: inferred contracts, linear bounds, nilness','Every indexing, slicing, conversion, dereference, map write, division and library precondition in the functions reachable from the parsing entry points is shown safe on every abstract path. Assumes lengths below 2^36, a non-negative start offset, and that strconv, strings, net/url, sort and sortedmap keep their documented contracts.'),
'C02':('abstract interpretation: ranking measures per loop and recursive cycle','Every loop reachable from the parsing entry points has a measure that advances on each turn towards a bound, every recursive cycle is bounded by a counter compared with a constant, and the offset returned by ParseStream is within the input. Assumes that library functions terminate and that 100000 activations fit in memory.'),
'C03':('abstract interpretation of the rendering loops as functions on a reader automaton (outside / inside quotes / after a backslash)','Every text a render method of a node type writes is a function on the states of a JSON string reader that ends where it began for every byte of tree content at every loop turn; in query strings every piece of tree content is percent-encoded. Content bytes are enumerated (all 256) per loop turn; number formatting of the standard library is trusted to emit no quotes.'),
'C04':('abstract interpretation of the writing loops (byte to text table) and constant propagation of every escape through one turn of the reading loop','For each of the 256 byte values the text written is derived from the writing loops; the reading loop, started at an unknown position with unknown accumulated text, appends exactly that byte and advances exactly over the text on every abstract path. Hexadecimal digits are enumerated per position, surrogate pairs over a grid. Character functions of the standard library are folded on constants.'),
'C09':('abstract interpretation: typestate of reflect.Value (kind, type, addressability)','Every reflect operation and unchecked type assertion in the functions that reach package reflect has its precondition shown on every abstract path; what recursive functions may assume of their reflect.Value parameters is inferred from all call sites. Assumes a non-nil pointer target, a registry that returns pointers, and the contracts of reflectutils and package reflect. Panics raised inside custom encoders and decoders are not covered.'),
'C10':('path-sensitive dataflow: payload-to-target flow on every successful path','Every path of each unmarshal method that may return nil assigns the target once from the payload or hands the payload on; loops hand on one element per turn and stop only when all were visited; constants standing for a payload have its truth value. Conversions of one payload are taken as faithful (C05), reflectutils as finding the fields of a name. A constant stored instead of an unparsable payload is decided by C11.'),
'C12':('path-sensitive dataflow: nilness of the error against the value on every return, linear bounds on indexes','On every path of each accessor of each node type the error is known to be nil or not and the value is zero or comes from the node (or both come from one accessor of the node found by the shared lookup); leaf types answer only an empty key path; containers handed out are filled with every element; indexes are compared with linear arithmetic. Assumes sortedmap lookups and the standard parsers report failure in their error or boolean result.'),
'C19':('path-sensitive comparison of sibling lookups; effect query for the kind of key comparison','On every path Contains and ContainsIgnoreCases answer what the lookup with the same receiver and keys decides; every map lookup made below the plain variants is exact and below the others ignores case; every accessor of a reference node forwards its own arguments to the same accessor of the node referred to. Assumes SSortedMap.Get is exact and GetIgnoreCase is not.'),
'C20':('path-sensitive proof of both directions of every answer (equality facts, linear lengths, loop turns)','Every path of each Equals that answers true knows the same type and equal payloads, or equal sizes/key sets and a loop in which every turn found the pair of its own position equal and which ended only when all were visited; every path that answers false knows a difference. Panic freedom of the functions reachable from Equals as in C01. Assumes nodes in containers are non-nil and the contract of sortedmap.Split.'),
'C16':('promoted-method (method set) analysis and path-sensitive dependence of every result on the payload','Every interface method that renders, tests, converts, compares, decodes or measures a node kind with content is that kind\'s own method (method sets of the type-checked program); every path of it shows the payload in its result: the text contains it or is decided by it, each loop turn renders the element of its own position with its key and the loop ends only when all were visited, IsZero knows the payload zero or not, Interface/DeepCopy fill their result with every element under its own key or index, and the copy of a node has every field of the original. Null elements and nodes held in containers are assumed non-nil.'),
'C18':('constant-table evaluation of the catalog lookup over the type-checked source','Every constant of the error type in the package (AST + type info) is looked up in every dictionary registered with catalog.NewFromMap by evaluating that dictionary\'s Lookup over the constant tables of the source; English must answer the key itself, other languages one whole message or nothing, absent keys nothing; offset tables ascend from start to end over message starts; translations equal locales/<tag>/messages.gotext.json. Exhaustive over keys x dictionaries. Assumes the x/text catalog contract.'),
'C06':('compositional points-to and effect analysis (symbolic memory by access path and allocation site), to a fixpoint over all calls, dispatches, closures and reflection'+'; guard of the one re-attributed write along all paths','Every write the fixpoint attributes to memory that existed before a call of any exported function or method is memory of the receiver of the seven modifying operations or of the destination of an unmarshalling operation. Assumes that caller-written encoders, comparison callbacks and the logger modify nothing, and that one argument is not modified through what the same call stored into another.'),
'C07':('compositional points-to and effect analysis (symbolic memory by access path and allocation site), to a fixpoint over all calls, dispatches, closures and reflection'+'; enumeration of the writers of every package variable','No exported function or method writes a payload field of a scalar node that existed before the call, nor a package variable or memory it refers to. Same assumptions as C06. State of imported packages is outside.'),
'C08':('compositional points-to and effect analysis (symbolic memory by access path and allocation site), to a fixpoint over all calls, dispatches, closures and reflection'+'; ownership rules for results and container storage','Every returned slice or map is memory the call allocated and no node keeps; Interface and the deep copy reach no memory that existed before; storage put into a container node was allocated by the call or was that node\'s own; Copy* and Diff return new containers with distinct storage. Storage of two nodes below the same argument is not told apart (an exchange between two nodes of one tree would be missed).'),
'C05':('interprocedural value-flow analysis of numbers (type-checked SSA) with format-argument and width rules; path-sensitive order of the two readings of a text; kind analysis of reflect conversions','Every strconv and fmt conversion between number and text, every number stored in a node, handed out or set by reflection is enumerated; its origins over all calls contain no lossy conversion, formats are decimal without fixed precision, readings are base ten and 64 bits, a 32-bit float node comes from a float32, and a float is made of a text only where reading it as a 64-bit integer is known to have failed. Texts cut before they are read, and arithmetic on numbers, are not judged.'),
'C13':('order-taint dataflow from map ranges and reflected map keys, commutativity of loop turns with the effects of the ownership analysis, coverage of sort comparators','Every source of random map order is enumerated and followed through variables, calls and results; every loop over an unordered source consists of turns that commute, every sort compares whole elements, dict storage is made by the sorted map functions only, no clock, random number, address or package state enters. Assumes distinct map keys print differently and that the sorted map of the dependency keeps its order.'),
'C17':('path-sensitive abstract interpretation: nilness of every result against known emptiness and flags; loop coverage','Every path of the marshal recursion is enumerated with the recursion cut and judged per context of constant flags: below MarshalAll each path yields a node, below Marshal each path that may yield none knows its value nil, an undefined tristate or empty with its own matching flag; every element loop hands on the element of each position with its own flags, keeps each non-nil result and ends only when all were visited. Assumes reflectutils lists every field, and that node constructors keep the list they are given.'),
'C14':('path analysis of the recursion below Marshal with loop rules (lookup, entry, numbering) and data flow of ids into texts','pointer graphs over structs; equality of pointers is that of their interface values'),
'C15':('path analysis of both recursions (gates before structural code) with data flow of what the gates looked at','On every path of the encoding recursion structural code runs on a value only after its MarshalJSON was looked for (or its type has none), and on every path of the decoding recursion a target is set only after its UnmarshalJSON, through its address and every pointer, was looked for; what is found is used and its error returned; AfterUnmarshal follows all field loops. Assumes constructors in the gotypes registry and reflect behave as documented.'),
'C11':('path-sensitive dataflow of error values: every error known nil, returned, collected or replaced by another reading on every path','On every path of every function below the entry points that return errors, each error received from a call is known nil at the return, or the function returns an error that is set whenever it is (wrapped or collected; collections are followed through loop variables), or the same text is read again in another way whose result is returned. Known finding: unparsable text in a time.Time target is only logged. Assumes errors.Wrap/NewAggregate as documented.'),
'C21':('abstract interpretation with inferred invariants: ranking measure per loop; path analysis of shrinking containers, visited sets and alias recursion','Every loop of the package either has an integer or length measure that advances towards a fixed bound on every repeating path, or is a range or guarded iterator, or on every repeating path removes an entry from a dict, puts a key of a finite map into a set it was not in, asks a node for a new numbered key that it answered, or follows a pointer (restarted at most once). Recursion along field aliases puts the alias into a set it was not in and hands the set on. Assumes library functions return and pointer chains do not lead back into themselves.'),
'C30':('abstract interpretation with inferred contracts and loop invariants (linear arithmetic, nil and dynamic-type facts); one obligation per operation that can panic','Every index, slice, conversion, dereference, interface call, map write, make, division and library precondition in all functions reachable from the exported operations without reflection is proved on every path; pointer arguments that a callee takes for granted are checked at every call inside the package; fields left nil by some constructor must be tested. Assumes containers hold no nil node, a valid index for SetAt, lengths below 2^36 and documented library behaviour.'),
'C24':('abstract interpretation of container contents: truth tables over the cases of one arbitrary key, with loop summaries; path facts restrict the cases',"On every path of Update, UpdateDefault, Diff, Copy, CopyIncludes and CopyExcludes the content of each result under an arbitrary key equals the stated set-algebra function of membership in the dicts, the list and equality of the values. Assumes the sortedmap dependency's Merge, Split, Add, Delete, Get and iterator behave as documented and Equals answers as C20 requires."),
'C29':('abstract interpretation of container contents: truth tables over the cases of one arbitrary key; sequences of parts for arrays, with loop summaries','On every path of Set, Remove, RemoveIgnoreCase, NewDict and Add the content of the dict under an arbitrary key is the stated function of membership and equality with the key given; on every path of the array operations the elements are the stated sequence. Add is judged for key paths of zero, one and two keys. Assumes the sortedmap dependency behaves as documented.'),
'C31':('abstract interpretation of the rendering paths over a pushdown reader of JSON, with loop states computed to a fixpoint',"On every path of every JSON rendering method of every node type the text composed takes a JSON reader from the start to one complete value with no open bracket; loops are decided for the first and every later turn. Children's renderings are single values by the same check; content inside quotes is decided by C03. Infinite or NaN floats are outside."),
'C32':('path-sensitive interpretation of the parsers with a pushdown reader as the abstract domain (positions as the language of the bytes passed), call summaries and loop tables to a fixpoint, over go/ssa','Decides for all inputs; trusts models of library searches and strconv; values are not compared (C04, C05)'),
'C33':('path-sensitive interpretation of the readers with the values read on a path as ghost state: every turn and every successful return is compared with what was read (typestate over values), over go/ssa','Decides for all inputs; trusts sortedmap.Add; the values themselves are judged by C04, C05 and C34'),
'C34':('path-sensitive interpretation of the scalar reader: type and content of the node of each successful path against the tests of that path, over go/ssa','Decides for all inputs; trusts strconv; a table of words is accepted unseen'),
}
NA={
'C22' : 'round-trip equality over all runtime values: no static argument in reach; the structural clauses (escaping, escape tables, number formats) are claimed as C03, C04, C05' ,
'C23' : 'value-level inverse over all Go types; structural clauses are claimed as C09, C10, C15, C17' ,
'C25' : 'round-trip equality over runtime contents; structural clauses are claimed as C03 and C11' ,
'C26' : 'depends on calendar arithmetic and format strings in timeutils' ,
'C27' : 'depends on the contents of runtime strings and on regular expressions of a dependency' ,
'C28' : 'implemented in github.com/ghodss/yaml; equality of runtime values' ,
}
