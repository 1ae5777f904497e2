#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the text is editable)."""
import json, os
P = []
TESTS = ("The 4 stable tests only parse a fixed list of JSON files and exit 0 whatever the result; "
         "the container suites under test/ need a missing library and use a handful of literal values. ")
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=TESTS + why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

ALLC = ["cee-common.c", "state.c", "list.c", "map.c", "set.c", "stack.c", "dict.c", "tuple.c", "triple.c", "quadruple.c",
        "n_tuple.c", "tagged.c", "env.c", "closure.c", "block.c", "str.c", "boxed.c", "singleton.c", "cee-resize.h"]

p("C01", "Deleting a state frees everything allocated under it, exactly once",
  "After any history of constructing, linking, unlinking, growing, deleting and collecting objects under a state, deleting that state frees every block still allocated under it, whatever the objects' types, delete policies or links. No block is freed twice, none is touched after it was freed, and no block allocated under the state survives.",
  ["histories"], "every finite sequence of legal operations on all object types under one state, ending with deletion of the state",
  "Teardown correctness depends on the whole history of chain insertions, removals and moves, which no test varies.",
  ALLC, [("every object is linked into its state's chain and unlinked when freed", "cee-resize.h chain/de_chain/resize"), ("state deletion walks the chain", "state.c trace, DEL_FOLLOW")],
  ["the allocator: blocks live before/after, double free, use after free"])
p("C02", "Deleting a container applies its delete policy to exactly its elements",
  "When a container is deleted its elements are handled by its policy: under reference counting each element's count drops once per reference held and the element is freed exactly when no counted reference remains; under immediate deletion each element is freed; under no-op every element is left alive and unchanged. Removing or replacing an element, popping it, or clearing the container gives up exactly the reference the container held, and elements still referenced elsewhere stay alive with their contents intact, however many references there are.",
  ["histories", "configurations"], "every acyclic object graph over all container types and the three policies, and every legal order of additions, removals and deletions",
  "The number of references and the order of deletions are what matters, and no stable test deletes a container at all.",
  ALLC, [("reference counts and retained flags", "cee-common.c incr/decr/del_e/del_ref"), ("per-container deletion", "trace functions, DEL_FOLLOW")],
  ["which objects' memory is still allocated after every operation"], [("in_degree", "number of counting references to an object", "cee.h struct cee_sect"), ("retained", "owned by an immediate-delete container", "cee.h struct cee_sect")])
p("C03", "Garbage collection never frees an object reachable from a root or context",
  "Every object reachable from a registered root or from a context value or key, through any container, product, tagged value, environment or closure, survives any number of collections with its contents and links intact and stays fully usable. This holds whatever was added, removed, grown or dropped between the collections.",
  ["histories"], "every acyclic object graph over all object types and every sequence of link, unlink, root, unroot, context and collect operations",
  "A missed mark edge shows only for particular shapes and at the second collection; no stable test collects.",
  ["state.c", "cee-common.c"] + ALLC[2:], [("marking follows all edges from roots, contexts and the stack", "state.c trace MARK; every container's MARK case"), ("two alternating mark values", "state.c cee_state_gc")],
  ["liveness of each reachable object's memory, contents after collection"])
p("C04", "Garbage collection frees every unreachable object within two collections",
  "An object that is not reachable from any root, context or the state's stack is freed by the second of two consecutive collections at the latest, including all memory it owns. Removing a root or context makes exactly the objects that only it kept alive collectable, and collecting again with nothing new to collect changes nothing.",
  ["histories"], "every acyclic object graph and every history of root/context changes followed by two collections",
  "Needs reachability over histories; no stable test runs the collector.",
  ["state.c", "cee-resize.h"], [("sweep over the state's chain", "state.c sweep")], ["the allocator's live blocks after two collections"])
p("C05", "States are isolated from each other and contexts behave as a map",
  "Operations under one state, including collection and deletion of that state, never free, move or change objects of another state, in any interleaving. Each state's named contexts behave as a map: the last value added under a name that was not removed is the one found, names never added or removed are not found.",
  ["histories"], "every interleaving of operations on several states, with states created and deleted at any point",
  "No stable test has two states in flight.",
  ["state.c", "cee-resize.h", "map.c"], [("per-state chain, roots and contexts", "state.c cee_state_mk")], ["contents of the other states' objects; results of context lookups"])
p("C06", "Memory blocks have the requested size, are zeroed, and never overlap",
  "A block of n bytes offers exactly n usable bytes for every n, reports that size, is all zero when made by the zeroing constructor and is passed exactly once with its context to the initialiser otherwise. Writes to one block never show in another object.",
  ["inputs", "histories"], "every size (including 0 and large) and every interleaving of creation, writing and deletion of blocks",
  "Blocks are only created as a side effect in the stable tests.",
  ["block.c"], [("allocation of header plus n bytes", "block.c cee_block_mk_nonzero")], ["bytes read back; size reported; address sanitizer on every byte"])
p("C07", "A list behaves as an unbounded sequence",
  "After any history of appends, inserts at any position, removals and merges, starting from any initial capacity including zero, the list's size, elements and order equal those of a mathematical sequence, its capacity is at least its size, and iteration visits each element once in order with its index and stops with the callback's value as soon as that is non-zero, returning zero otherwise. Out-of-range removal changes nothing and reports false; a null list is empty.",
  ["histories"], "every initial capacity and every sequence of list operations",
  "Growth boundaries and shifting at every position cannot be enumerated by literals.",
  ["list.c"], [("doubling growth and shifting", "list.c append/insert/remove")], ["cee_list_size, elements, iterate callbacks"])
p("C08", "A map finds, replaces and removes exactly by key equality",
  "After any history of additions, replacements, removals and renames, under any consistent comparison function, a lookup returns the value most recently stored under an equal key and null for absent keys, adding under an existing key returns the previous value and keeps the size, removal returns the removed value, and size, key list and value list describe exactly the stored pairs with keys and values in matching order. Iteration visits every pair exactly once, stops at the first non-zero callback result and returns it; a null map is empty.",
  ["histories"], "every sequence of map operations over every set of keys and comparison orders",
  "The tree shapes and rotations reached depend on the insertion and deletion order.",
  ["map.c", "musl-tsearch.c"], [("AVL tree of key/value pairs", "map.c add/find/remove, musl-tsearch.c")], ["return values of the map API"])
p("C09", "A map remembers the order in which its present keys were inserted",
  "The insertion-ordered key list of a map contains exactly its present keys, in the order of their first insertion since they were last absent: replacing a value does not move a key, removing a key takes it out, and a renamed key counts as newly inserted. Renaming moves the value to the new key, replaces any value there, and reports false without change if the old key is absent.",
  ["histories"], "every sequence of add, replace, remove and rename operations",
  "Order is only visible after removals and re-insertions in the middle.",
  ["map.c"], [("parallel list of keys in insertion order", "map.c insertion_ordered_keys")], ["cee_map_insertion_ordered_keys; JSON member order"])
p("C10", "Merging and cloning maps gives the union without disturbing the source",
  "Merging a source map into a destination leaves the destination with exactly the keys of both, values of keys only in one map unchanged, and for keys in both the source's value, or whatever the given merge callback returns when called with its context, the old and the new value. The source is unchanged; a clone has the same keys and values as its original and afterwards the two can be changed independently.",
  ["histories", "inputs"], "every pair of maps and merge functions (keeping old, taking new, building a third value)",
  "No stable test merges or clones maps.",
  ["map.c"], [("add with merge callback", "map.c cee_map_add_e, cee_map_merge, cee_map_clone")], ["contents of both maps after the call"])
p("C11", "A set holds each element once by its comparison function",
  "After any history of adds, removes and clears, under any consistent comparison function, a set contains exactly the elements added and not since removed, with the first added of equal elements kept; find returns that element or null, remove returns the removed element or null, and size, emptiness, value list and iteration agree with the contents. A null set is empty: its size is 0, it is reported empty, and find and remove return null.",
  ["histories"], "every sequence of set operations, over every element type and comparison",
  "Tree shapes depend on history; null handling is documented but untested.",
  ["set.c", "musl-tsearch.c"], [("AVL tree of elements", "set.c")], ["return values of the set API"])
p("C12", "A stack is LIFO and bounded by its capacity",
  "A stack made for n elements accepts exactly n pushes beyond its pops, refuses further pushes with 0 and without effect, pops in reverse order of pushing, answers null when empty, and its nth-from-top accessor, size, empty and full answers always match a bounded LIFO sequence, for every n including 0.",
  ["histories"], "every capacity and every sequence of push, pop and inspect operations",
  "Boundaries at capacity and empty after mixed histories are not tested.",
  ["stack.c"], [("top index and used count", "stack.c")], ["return values of the stack API"])
p("C13", "A dictionary finds every inserted key, first insertion wins",
  "A dictionary made for n entries finds, for every key inserted so far, the value first inserted under an equal key, and null for any other key, whatever the keys' lengths, hashes, collisions or insertion order, up to and beyond n entries. Keys are compared by content, not by address.",
  ["histories", "inputs"], "every size and every sequence of insertions and lookups over arbitrary byte-string keys, including colliding ones",
  "Probe sequences and table growth depend on the keys' hashes.",
  ["dict.c", "musl-hsearch.c"], [("open-addressing hash table", "musl-hsearch.c")], ["cee_dict_find results"])
p("C14", "Products, tagged values and singletons keep their components",
  "Tuples, triples, quadruples, n-tuples up to their maximum arity and tagged values return exactly the components, order and tag they were made from, under every combination of per-component policies, including policies changed later. Singletons keep their tag and value and survive deletion, reference dropping and collection.",
  ["inputs", "configurations"], "every arity, every policy vector, every component kind",
  "No stable test makes products.",
  ["tuple.c", "triple.c", "quadruple.c", "n_tuple.c", "tagged.c", "singleton.c"], [("fixed-size component arrays with per-component policies", "*_mk_e")], ["component fields; liveness after deletion"])
p("C15", "Boxed numbers round-trip exactly and print as C would",
  "Every value of every boxed primitive type is returned bit for bit by the matching accessor, and asking for a different type never returns a value. Printing a boxed value writes the value's standard decimal text into the buffer within its size and returns the length needed.",
  ["inputs"], "every value of the ten primitive types, every buffer size",
  "Boundary values of each width are not tested.",
  ["boxed.c"], [("typed union with type tag", "boxed.c")], ["cee_boxed_to_*, cee_boxed_snprint"])
p("C16", "Environments resolve the innermost binding and closures see their environment",
  "Looking a name up in an environment returns the value bound in the innermost enclosing scope that binds it, and null if none does, for any nesting and shadowing. Calling a closure invokes its function once with its environment, the argument count and the arguments in order, and returns its result; deleting an environment respects references to enclosing scopes and variable maps that others still hold.",
  ["inputs", "histories"], "every chain of scopes with every shadowing pattern; every argument list",
  "Scoping is not tested by the stable tests.",
  ["env.c", "closure.c"], [("chain of maps", "env.c cee_env_find"), ("variadic call", "closure.c cee_closure_call")], ["lookup results; arguments seen by the function; liveness of scopes"])
p("C17", "Map and set operations take logarithmic numbers of comparisons",
  "For every insertion and deletion history, including sorted, reversed and adversarial ones, a lookup, insertion or removal among n elements of a map or set calls the comparison function O(log n) times for the tree part, with the constant of a height-balanced tree. The tree never degenerates.",
  ["histories"], "every insertion/deletion history up to thousands of elements",
  "Balance can only be judged over long adversarial histories.",
  ["musl-tsearch.c", "map.c", "set.c"], [("AVL rebalancing after insert and delete", "musl-tsearch.c __tsearch_balance, rot")], ["number of calls of the user's comparison function"])
p("C18", "The search primitives match their standard contracts",
  "The binary-tree, hash-table, linear-search and queue primitives behave as the standard C functions of the same names: a tree search inserts or finds by the comparison, walks visit nodes in sorted order with the right visit kinds, deletion removes exactly one node, a linear search appends only when absent, and queue insertion and removal keep a doubly linked list consistent.",
  ["histories"], "every sequence of operations on trees, tables, arrays and queues",
  "They are exercised only through other types and a few keys.",
  ["musl-tsearch.c", "musl-hsearch.c", "musl-lsearch.c", "musl-insque.c"], [("ported musl search functions with a context argument", "musl-*.c")], ["return values, walk order, links"])
p("C19", "Strings format, append and replace like a growing C buffer",
  "Formatting a string, appending formatted text or single characters, and replacing the contents gives exactly the text that printf formatting of the same arguments and concatenation would give, null-terminated and inside the string's allocation, for every length, across every growth boundary and under both growth methods. A string made with a requested buffer size offers at least that many bytes.",
  ["inputs", "histories"], "every sequence of string operations, with text of every length and both resize methods",
  "Off-by-one errors show only at the exact capacity boundary.",
  ["str.c", "cee-resize.h"], [("capacity check and geometric growth", "str.c mk/mkv/mk_e/catf/add/replace"), ("moving a block inside its state's chain", "cee-resize.h resize")], ["string bytes; address sanitizer"])
p("C20", "Trimming and copying strings keep exactly the right characters",
  "Left trim removes exactly the leading blanks, tabs, carriage returns and newlines and nothing else, right trim exactly the trailing ones, for every string including empty and all-blank ones. A string made from n bytes holds exactly those bytes followed by a terminator, its end pointer is the address of its terminator, and appending n bytes of another string appends exactly those.",
  ["inputs"], "every byte string, with blanks at every position",
  "Only sampled inputs would be tested, and these functions are not tested at all.",
  ["str.c"], [("index scans and memmove", "str.c ltrim/rtrim/strn/end")], ["string bytes"])
p("C21", "Substring replacement is exact and stays inside its buffer",
  "Replacing at an offset yields prefix, replacement and suffix; replacing all occurrences replaces each non-overlapping occurrence from left to right exactly once; replacing several patterns at once picks at each position the first listed pattern that matches, respects the given length even with embedded zero bytes, and reports the result length. The results are null-terminated and no read or write ever leaves the buffers, for any lengths of text, patterns and replacements, including empty texts and replacements.",
  ["inputs"], "every text, pattern and replacement (patterns non-empty), 1..20 pattern pairs",
  "Allocation sizes depend on the ratio of lengths; the bug is in the arithmetic, not in the sampled cases.",
  ["str.c"], [("computed result allocation", "str.c str_replace_all, str_replace_all_ext, str_replace_at_offset")], ["returned string; address sanitizer"])
p("C22", "String views slice, compare and parse without copying or overrunning",
  "Every string-view operation (trim, chop by count, delimiter, view or predicate, take, index, equality, prefix, suffix, number parsing) returns the view or value its definition on the viewed characters gives, the chopped part, delimiter and remainder reassemble the original, and nothing outside the viewed range is read, for views that are empty, unterminated or shorter than their delimiter.",
  ["inputs"], "every view, delimiter, count and predicate",
  "strview.c has no tests.",
  ["strview.c"], [("pointer/length arithmetic", "strview.c")], ["returned views; address sanitizer on exact-size buffers"])
p("C23", "Every valid JSON document parses to the value it denotes",
  "For every well-formed JSON document, with any whitespace, nesting up to the supported depth, escapes, surrogate pairs and number formats, parsing succeeds and yields the denoted value: object members in order with the last of duplicate keys winning, arrays in order, strings as UTF-8, integers exactly as signed or unsigned 64-bit where they fit, and other numbers as the nearest double. The text may end anywhere the document is complete when trailing text is allowed, and only at the end of input when end of input is demanded.",
  ["inputs"], "every well-formed document within the depth limit (generated from a grammar, with its meaning as oracle)",
  "The tests parse fixed files and never compare the parsed value.",
  ["cee-json/parser.c", "cee-json/tokenizer.c"], [("state-machine parser over a stack", "parser.c cee_json_parsex"), ("tokenizer", "tokenizer.c cee_json_next_token")], ["the parsed value through the public accessors"])
p("C24", "Malformed JSON is rejected with the line of the error",
  "Every text that no reading of JSON with the documented leniencies accepts is rejected: parsing reports failure, yields no value and reports a line number consistent with the line breaks up to the place where the text stops being a prefix of a document. In particular unterminated strings and containers, bad escapes, lone surrogate escapes, control characters in strings, malformed numbers and literals, missing or repeated separators, and excessive nesting are all rejected.",
  ["inputs"], "every mutation of well-formed documents judged by an independent recogniser",
  "The tests print rejections but never fail on them.",
  ["cee-json/parser.c", "cee-json/tokenizer.c"], [("error transitions", "parser.c"), ("token errors and line counting", "tokenizer.c")], ["return value, output pointer, error line"])
p("C25", "Parsing any bytes is memory-safe, bounded by the given length, and terminates",
  "For every byte sequence and length, parsing reads only the bytes given, never crashes, always terminates, and whatever it allocated is freed with its state, whether it accepts or rejects. A failed or successful parse leaves the state fully usable for further parses with the same results as in a fresh state.",
  ["inputs", "histories"], "every byte sequence of every length, not necessarily terminated, and every sequence of parses under one state",
  "The tests read whole files into terminated buffers.",
  ["cee-json/parser.c", "cee-json/tokenizer.c", "cee-json/value.c"], [("end-of-buffer checks", "tokenizer.c"), ("parser stack cleanup", "parser.c")], ["address sanitizer on exact-size buffers; allocator; repeat results"])
p("C26", "Printing a JSON value and parsing it back gives the same value",
  "For every JSON value built through the API or by parsing, with finite numbers (negative zero and values without a JSON notation aside), both compact and pretty printing produce well-formed JSON that denotes the same value: the same structure, members in insertion order, strings byte for byte, integers exactly and reals to the printed precision. Printing, parsing and printing again reproduces the same text.",
  ["inputs", "configurations"], "every JSON value within the depth limit, both formats",
  "The print output is never compared by a test.",
  ["cee-json/snprint.c", "cee-json/parser.c", "cee-json/value.c"], [("iterative printer over an explicit stack", "snprint.c"), ("string escaping", "snprint.c, value.c")], ["printed text judged by an independent JSON reader"])
p("C27", "Bounded printing never exceeds the buffer and reports the needed size",
  "Printing into a buffer of any size, including none, returns the number of characters the full text needs, never writes outside the given size, and when the buffer is large enough the text in it is complete and identical to the text of the allocating variant, which is null-terminated and reports its length. Printing to a descriptor writes the formatted message, the compact text and a line end. Printing changes neither the value nor the state's other objects.",
  ["inputs", "configurations"], "every JSON value, every buffer size, both formats",
  "No test passes a buffer smaller than the text.",
  ["cee-json/snprint.c"], [("counting pass then writing pass", "snprint.c cee_json_snprint, cee_json_asprint")], ["guard bytes around the buffer; return values"])
p("C28", "Editing a JSON value behaves as editing the abstract document",
  "Any history of setting, appending under a key, renaming, removing and reading object members and of inserting, appending, concatenating, removing and reading array elements gives the document an abstract model gives, with wrong-typed targets and absent keys or indices answered by the documented null or no effect. Iteration visits members in tree order or elements in index order exactly once and stops early on request; recursive key search finds a key exactly if some nested object has it, in an array what its first element that has it gives, in an object its own member rather than one inside that member.",
  ["histories"], "every sequence of document edits over nested objects and arrays",
  "No stable test edits a document and looks at the result.",
  ["cee-json/value.c"], [("wrappers over map and list", "value.c")], ["API reads and printed text after each edit"])
p("C29", "JSON values convert only to types that can represent them",
  "Each typed accessor yields the value's number, boolean, string, blob, array or object when the value is of that accessor's own kind (the int accessor only when the number fits an int) and otherwise reports failure without crashing. Strings, counted strings and blobs give back exactly the bytes they were made from; converting a member to an integer replaces a numeric string by its number, and wrapping an object or a string as a list gives a one-element array holding it, an array being given back as it is.",
  ["inputs"], "every value of every JSON type and every accessor",
  "Conversions across types and boundary numbers are not tested.",
  ["cee-json/value.c"], [("type switches", "value.c cee_json_to_*")], ["return values and out parameters"])
p("C30", "Merging JSON documents is the recursive union",
  "Merging one JSON object into another gives each key in either, combining values under a common key: objects recursively, arrays by concatenation, anything else by taking the source's value. Other kinds of arguments are refused or returned as documented, the source document is unchanged, and later printing, deletion or collection of either document is safe.",
  ["inputs", "histories"], "every pair of JSON documents",
  "Merging is not covered by the stable tests.",
  ["cee-json/cee_json_merge.c", "cee-json/value.c", "map.c"], [("recursive merge callback", "cee_json_merge.c")], ["both documents after the merge, against a reference merge"])
p("C31", "Selectors return exactly the value their path denotes",
  "A selector of keys, array indices and type tests returns the value reached by following the path from the given value, with formatted keys and indices substituted for their placeholders, and null whenever a step is missing, has the wrong type or the selector is malformed. Evaluating any selector text on any value reads nothing outside the selector and changes nothing; the integer form stores the selected integer only on success.",
  ["inputs"], "every JSON value and every selector text, valid or not, with every placeholder argument",
  "Selectors are untested and parsed by hand-written code.",
  ["cee-json/value.c"], [("selector state machine", "value.c cee_json_select")], ["the returned value against a reference evaluator"])
p("C32", "Escaping a string is reversible and never overruns the destination",
  "Escaping any text into a destination buffer produces the body of a JSON string that reads back as the text, reports the number of bytes the full escape needs for any destination size, never writes outside the destination, and advances the destination pointer and remaining size consistently. This holds for every byte value and every destination size.",
  ["inputs"], "every byte string, every destination size",
  "Control characters and short destinations are not tested.",
  ["cee-json/value.c", "cee.h"], [("two-pass escape with bounds", "value.c cee_json_escape_string")], ["output bytes, guard bytes, return value"])
p("C33", "Saving and loading JSON files preserves documents",
  "Saving a document to a stream or descriptor and loading it back by path, stream, descriptor or buffer gives an equal document for every size of file, and loading reports failure, with no value, for malformed content, an unreadable descriptor or a directory (a path that cannot be opened ends the program, as documented by its deliberate crash). Merging several files writes the merge of their documents and fails without touching the inputs when one cannot be read.",
  ["inputs", "configurations"], "every document and file size, both formats, every loading interface",
  "Fixed files only, and the loaded value is not compared.",
  ["cee-json/parser.c", "cee-json/snprint.c", "cee-json/value.c", "cee-json/cee_json_merge.c"], [("whole-file read into a buffer", "load_from_*"), ("print to descriptor", "save*")], ["file contents and loaded value"])
p("C34", "Nesting up to the supported depth works end to end, deeper is refused cleanly",
  "Arrays and objects nested in any mixture up to the parser's depth limit are accepted, and every document that is accepted can be printed in both formats, reparsed, merged, deleted and collected without loss or crash. Documents nested beyond the limit are rejected as errors, whatever their depth.",
  ["inputs"], "every nesting depth and mixture from 0 to far beyond the limit",
  "The limits of the parser, printer and state stack are separate and only meet at the boundary.",
  ["cee-json/parser.c", "cee-json/snprint.c", "state.c"], [("bounded stacks", "parser.c, snprint.c")], ["acceptance and printed text at each depth"])
p("C35", "SQL rows inserted from JSON are the rows selected as JSON",
  "Inserting JSON objects through bind descriptions and selecting them back returns, for every column, the value given, its declared default when a not-null column was not given, or absence of the value when null, for texts with any characters but NUL, all integers of the declared width and blobs with any bytes; a selected column of any type, reals too, has the value the database holds. Values are always bound as data, never interpreted as SQL. Selecting into a status extends what is there as documented, columns marked not-returned are left out, and a statement that fails, at once or after some rows, or leaves a parameter without a description, is reported as an error and left closed.",
  ["inputs", "histories"], "every table contents over text, int, int64 and blob columns with any subset of columns given",
  "There are no SQL tests.",
  ["sqlite3/cee-sqlite3.c"], [("bind by name from JSON", "cee-sqlite3.c bind_data_from_json, bind"), ("column to JSON", "cee-sqlite3.c populate")], ["rows read back by the API and by plain SQL"])
p("C36", "SQL update, upsert, select-or-insert and delete change exactly the matching rows",
  "For every history of insert, update, update-if-exists, update-or-insert, select-or-insert and delete operations driven by JSON, the table afterwards equals a reference table on which exactly the rows matching the where clause were changed, columns that were not given or are marked not-updatable keep their values, and the returned status tells whether a row was found, changed (and how many) or inserted (and its row id). Input with a value of the wrong type is reported and nothing is executed. Failed statements leave the table unchanged and leave no statement open.",
  ["histories", "fault_sequences"], "every sequence of operations with present, absent and unbound keys, and statements that fail",
  "There are no SQL tests.",
  ["sqlite3/cee-sqlite3.c"], [("statement templates and binding", "cee-sqlite3.c")], ["table contents by plain SQL; statuses; open statements"])
p("C37", "Joining attaches exactly the rows of the joined query to each object",
  "Joining a JSON array of objects or a single object with a table adds, under the given key of each object, exactly the rows the joined query yields for that object's bound values, in query order, or merges the first such row into the object when no key is given, and leaves other members, other objects and the table unchanged. An object whose value is missing or of a type that cannot be bound gets an error and ends the joining.",
  ["inputs"], "every array of objects and every joined table contents",
  "There are no SQL tests.",
  ["sqlite3/join.c", "sqlite3/cee-sqlite3.c"], [("per-object bound query", "join.c")], ["the joined document against a reference join"])
p("C38", "SQL helpers agree with the database",
  "The next integer of a column is one more than its largest value among the rows the clause selects, one when there are none, and is refused with a status when the query fails or no larger int exists. Inserting a JSON array adds exactly one row per object whose keys are columns and whose values the table accepts, with those values, for any number of keys. Pragma values read back what was set, and an attached database is usable under its name until it is detached.",
  ["inputs", "histories"], "every table contents and every array of objects",
  "There are no SQL tests.",
  ["sqlite3/cee-sqlite3.c"], [("composed statements", "cee-sqlite3.c cee_sqlite3_next_int, cee_sqlite3_insert_json_array, cee_sqlite3_attach_db")], ["return values and statuses; rows read by plain SQL"])
p("C39", "Databases are initialised and changed in transactions all or nothing",
  "Initialising a database, by file name or through an open connection, executes all its statements and leaves no transaction or statement open, nor a connection that nobody asked for. If a statement fails the process is stopped; with a transaction the file then holds exactly what it held before, without one exactly the statements before the failing one have taken effect. A file that is no database or cannot be opened is left alone and gives no connection. Dropping all tables leaves no table, index or trigger, neither in the file nor for the connection that dropped them, whose names can be used again at once. Operations between begin and end of a transaction take effect together when it ends and not at all when the process dies before, and other connections see nothing of an open transaction.",
  ["inputs", "histories", "crash_points"], "every content and script, and every point at which the process dies",
  "There are no SQL tests.",
  ["sqlite3/cee-sqlite3.c", "sqlite3/cee-sqlite3.h"], [("scripts run in one transaction", "cee-sqlite3.c cee_sqlite3_init_db"), ("schema emptied", "cee_sqlite3_drop_all_tables"), ("begin and end", "cee-sqlite3.h macros")], ["the file's schema and rows as another connection reads them; the process's end"])
p("C40", "Managed databases are created, restored and migrated by exactly their scripts",
  "Initialising a managed database makes it, with its directories (as mkdir -p would, permissions 755 less the mask), by its create script when it is missing, or anew when it shall be recreated, and leaves one that is there as it is otherwise. Only a new one is restored, and then customised, when asked for and when there is a script for its version; every one is then migrated by the script of the version it had before, if there is one. The reported version is the one the file then has, and new means created. A failing script stops the process after exactly the statements before the failing one. Every step is logged in order, in the log database beside it. A backup runs one command that writes the file which restoring that version reads, and changes nothing; of a missing database it reports failure. Opening or attaching a missing database stops the process and makes nothing, an attached one cannot be changed. A $HOME at the start of a path is replaced, and settings are never printed beyond their buffer, with the full length reported where one is returned. No file is left open.",
  ["inputs", "histories"], "every history of initialisations over every set of scripts, and every buffer size",
  "There are no SQL tests, and this file is not compiled by any.",
  ["sqlite3/cee_dbm.c", "sqlite3/cee_dbm.h"], [("create, restore, customize, migrate", "cee_dbm.c cee_dbm_db_init"), ("backup", "cee_dbm.c cee_dbm_db_backup"), ("printing", "cee_dbm.c *_snprint, *2str")], ["database files and the log as plain SQL reads them, the commands run, the process's end"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P: f.write(json.dumps(d) + "\n")
    print(len(P))
