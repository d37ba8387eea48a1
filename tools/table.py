"""the properties: statement, anchors, how each is decided"""
DF = "path-sensitive typestate dataflow over LLVM IR, callees summarised bottom-up"
NOTE_DF = ("Every path of every library function is covered by a finite abstraction (no solver, no execution); what the "
           "abstraction cannot track is not reported. Trusts clang's lowering, the contracts of the C library and the "
           "constructor/destructor table in lib/model.py.")
SRC = ["src/entry.c", "src/entry_cdecl.c", "src/entry_tag.c", "src/value.c", "src/value_deep.c", "src/value_string.c",
       "src/value_with_args.c", "src/printf_format.c", "src/iterator.c", "src/hashmap.c"]
P, NA = [], {}


def add(**k):
    P.append(k)


add(id="C01", title="Everything the library allocates is released or handed over on every path",
    statement="On every path through every operation of the C library, including paths on which any allocation fails or input "
              "is rejected midway, each piece of memory the operation obtained is released, returned to the caller or stored in "
              "an object that is later released. Destroying an object releases everything that object owns.",
    over=["inputs", "fault_sequences"], quant="all inputs and all subsets of failing allocations",
    why="The failure exits of walkers and constructors need a specific allocation to fail or a specific nested element to be "
        "rejected; tests take the success path.",
    files=SRC, mech=[("constructors and destructors", "src/value.c, src/entry_tag.c, src/value_with_args.c"),
                     ("failure cleanup states of walkers", "src/value_deep.c, src/value_string.c, src/entry_cdecl.c"),
                     ("iterator queue ownership", "src/iterator.c")],
    technique=DF + " (ownership / leak)", note=NOTE_DF)
add(id="C02", title="No memory is released twice, wrongly or used after release",
    statement="No operation of the C library, on any path, releases the same memory twice, releases memory with a function that "
              "does not match the way it was created, releases memory it does not own, or reads or writes memory after having "
              "released it.",
    over=["inputs", "fault_sequences"], quant="all inputs, nesting shapes and failing allocations",
    why="Cleanup code runs only when something failed midway; the combination of what was already built is different at each "
        "failure point.",
    files=SRC, mech=[("failure cleanup", "src/value_deep.c, src/value_string.c, src/entry_cdecl.c"),
                     ("destructors", "src/value.c, src/entry_tag.c, src/iterator.c, src/value_with_args.c")],
    technique=DF + " (release typestate, allocator families)", note=NOTE_DF)
add(id="C03", title="A failed allocation or lookup is never dereferenced",
    statement="Whenever an allocation, a constructor or a lookup inside the library yields nothing, the library notices before "
              "using the result. No pointer that a path has already found to be NULL is dereferenced later on that path.",
    over=["inputs", "fault_sequences"], quant="all inputs and all subsets of failing allocations",
    why="Tests never make an allocation fail and use descriptions in which every lookup succeeds.",
    files=SRC, mech=[("allocation and constructor call sites", "src/*.c")],
    technique=DF + " (NULL-ness)", note=NOTE_DF)
add(id="C04", title="NULL handles are answered with a failure, never dereferenced",
    statement="Every public function that takes a description, value, parameter storage, tag map, walker, memory map or event "
              "accepts NULL for it and answers with its failure or neutral result; it neither dereferences the NULL nor aborts.",
    over=["inputs", "programs"], quant="all public functions and all calling programs",
    why="About 240 handle parameters; callers chain calls and rely on NULL travelling through, tests exercise a handful.",
    files=SRC + ["include/metac"], mech=[("argument checks", "src/*.c (_check_)")],
    technique=DF + " (unguarded dereference of parameters)", note=NOTE_DF)
add(id="C05", title="Kind-specific fields of a description are read only for that kind",
    statement="A description keeps the facts of its kind in a union. Every operation of the library reads or writes such a part only "
              "where the kind of the description is known to be one that carries it; any other kind is answered with the "
              "operation's failure result, never by reinterpreting the fields of a different kind.",
    over=["inputs", "programs"], quant="all descriptions of all kinds passed to all operations",
    why="25 kinds x about 150 accesses; a wrong kind rarely crashes, it yields a plausible number or pointer.",
    files=SRC, mech=[("kind checks before variant access", "src/entry.c, src/entry_cdecl.c, src/value*.c")],
    technique=DF + " (set of possible kinds at each variant access)", note=NOTE_DF)
add(id="C06", title="Indices into counted collections stay within [0, count)",
    statement="Whatever id, count or category a caller passes and whatever a description contains, the library addresses members, "
              "parameters, enumerators, parents, hierarchy items, files and lookup entries of descriptions, tag-map categories, "
              "handler cases and elements of described arrays only with an index that is at least 0 and below that very "
              "collection's count; other ids get the failure result.",
    over=["inputs", "programs"], quant="all ids and all descriptions",
    why="Off-by-one at either end of a range reads a neighbouring object that usually looks valid.",
    files=SRC, mech=[("range checks and loops over counted arrays", "src/entry.c, src/entry_cdecl.c, src/entry_db.c, src/entry_tag.c, src/value.c")],
    technique="value numbering and dominating branch conditions over LLVM IR: 0 <= index < count for each variable-index access",
    note="Needs a bound check that compares with the count field (or the value stored in it); trusts that descriptions do not "
         "change during a call. Iteration by pointer instead of index is not judged.")
add(id="C10", title="The library keeps no mutable state between calls",
    statement="Nothing the library does in one call is remembered in static storage or in hidden process-wide state: results "
              "depend only on the arguments and on the memory reachable from them, so independent data can be processed from "
              "several threads.",
    over=["histories", "schedules", "programs"], quant="all call histories and thread interleavings on disjoint data",
    why="Hidden state shows only under particular histories or interleavings.",
    files=["src", "include/metac"], mech=[("objects with static storage", "src/*.c")],
    technique="effect analysis over LLVM IR: writes and escapes of static storage, calls with hidden state",
    note="Decides all stores, escapes and calls of all functions; trusts the list of C library functions with hidden state.")
add(id="C11", title="Described memory is accessed only with the described type and width",
    statement="Reading or writing the data of a value (base type, enumeration, pointer, captured parameter) touches exactly the number "
              "of bytes its description states, and only after the described type was checked; if name, encoding or size do not "
              "fit, the operation fails without touching the data. Base-type data that is const-qualified is never written.",
    over=["inputs", "programs"], quant="all values over all descriptions",
    why="A wrong width corrupts the neighbouring member only for particular sizes (1- and 2-byte enumerations, bit-packed units).",
    files=["src/value.c", "src/value_with_args.c", "src/printf_format.c"],
    mech=[("typed block copies and width switches", "src/value.c"), ("parameter buffers", "src/value_with_args.c, src/printf_format.c")],
    technique="path search over LLVM IR control flow: no path reaches an access without passing the matching type/size/const condition",
    note="Bit-fields are decided by C26.")
add(id="C12", title="Each base type is recognised, read, written, compared and printed alike",
    statement="For each of the 17 supported C base types, recognition, reading, writing, comparison, copying, conversion to a number "
              "and printing agree on one and the same identification (name, encoding, size), use a variable of that type's width and "
              "signedness, and none of the types is left out of equality, copy and printing (nor any integer type out of numeric "
              "conversion). A base type is accepted only if name, encoding and size all agree.",
    over=["inputs", "programs"], quant="all 17 base types x all operations x all descriptions",
    why="17 rows in 8 tables; a wrong row shows only for that one type and for values beyond the narrower range.",
    files=["src/value_base_type.c", "src/entry.c"],
    mech=[("is/get/set families", "src/value_base_type.c"), ("num/equal/copy/string tables", "src/value_base_type.c"),
          ("metac_entry_check_base_type", "src/entry.c")],
    technique="constant extraction and local dataflow over LLVM IR, cross-table agreement",
    note="Rows are judged where the identification is passed as constants (possibly through static helpers).")
add(id="C13", title="Every traversal step ends in exactly one next state, result or failure",
    statement="Whatever the shape of the data, each time a traversal visits an element it either moves it to its next state, "
              "gives it a result or fails it, exactly once; an element is finished only after the results of everything it "
              "depends on were collected. Hence traversals terminate without hanging, aborting or losing intermediate results.",
    over=["inputs", "fault_sequences"], quant="all data shapes, handler answers and failing allocations",
    why="A visit that falls through without a transition or ends early shows only for the particular kind/state/failure "
        "combination.",
    files=["src/iterator.c", "src/value_deep.c", "src/value_string.c", "src/entry_cdecl.c", "src/value_with_args.c"],
    mech=[("walker loops", "metac_recursive_iterator_next loops"), ("task states", "src/iterator.c")],
    technique=DF + " (protocol typestate of the walker)", note=NOTE_DF)
add(id="C19", title="Variable arguments are captured with the type they were passed with, in order",
    statement="Each argument of a wrapped call or printf-like call is taken from the argument list with the default-promoted C type of "
              "the described parameter, or of the conversion with its length modifier (c,d,i,o,u,x,X,e,f,g,s,p,n), is recorded "
              "with exactly that conversion's type, and gets the next consecutive index; text and %% take no argument. All 17 base "
              "types, pointers and enumerations of every width can be captured.",
    over=["inputs", "programs"], quant="all formats and all described parameter lists",
    why="A wrong fetch type shifts every following argument, but only for particular types, widths and register pressure.",
    files=["src/printf_format.c", "src/value_with_args.c"],
    mech=[("format loop and parser", "src/printf_format.c"), ("_handle_subprogram", "src/value_with_args.c")],
    technique="type-marking compilation of va_arg plus path enumeration per conversion over LLVM IR",
    note="Structures passed by value go through a generated function and are not judged; flags, width and precision neither.")
add(id="C14", title="A failure inside an operation is never reported as success",
    statement="When an allocation, a constructor, a typed read or write, a tag handler or a nested operation fails on the way, the "
              "library operation that called it answers with its own failure (negative code, NULL, failed traversal step): it never "
              "returns success, finishes the element or hands out an object as if nothing had happened, and it never reads what the "
              "failed call should have delivered.",
    over=["inputs", "fault_sequences"], quant="all inputs and all single failures of a fallible call",
    why="Tests never let a nested call fail; the visible effect is a truncated copy, a wrong element count or 'equal' for data never compared.",
    files=SRC, mech=[("error propagation", "src/entry_tag.c, src/value_with_args.c, src/value_deep.c, src/value_string.c, src/hashmap.c")],
    technique="convention inference plus path search over LLVM IR from each fallible call with its result fixed to failure",
    note="Lookups whose 'not found' is a regular answer are not failures; a call that is tried again for another type is judged by its "
         "last attempt. Walker steps are judged visit by visit.")
PTS = "whole-library field-based points-to analysis over LLVM IR"
add(id="C07", title="Type descriptions are never modified or wrongly released",
    statement="No operation of the C library writes into a type description, into anything a description refers to (names, members, "
              "parents, databases) or into the entry behind a value, whatever description is passed. Only descriptions the library "
              "itself allocated, and marked as such, are ever released.",
    over=["inputs", "programs", "histories"], quant="all descriptions, all operations, all sequences of operations",
    why="Descriptions are shared by every value of a type and by every thread; a write shows up in a later, unrelated call.",
    files=SRC, mech=[("copies of descriptions", "src/entry.c: metac_new_entry, metac_new_element_count_entry, metac_entry_delete")],
    technique=PTS + " (labels of every written and released address)",
    note="Two objects of the same structure type share their fields in the model; effects of handlers supplied by the user are not judged.")
add(id="C08", title="Only setters and copies modify described memory, and only the destination",
    statement="Reading, comparing, printing, traversing and memory-mapping a value never modify the memory it describes. Setters modify "
              "only the memory of the value they are given, copies only that of the destination; the source of a copy and both sides of "
              "a comparison stay untouched, on every path and in every mode.",
    over=["inputs", "programs"], quant="all values, all modes, all operations",
    why="A write to the wrong side needs a rare mode, kind or failure path; tests look at results, not at what else changed.",
    files=SRC, mech=[("setters", "src/value.c, src/value_base_type.c"), ("deep copy", "src/value_deep.c: metac_value_copy_ex")],
    technique=PTS + " (written memory attributed to the parameter that describes it)",
    note="Memory reached through a pointer found in described memory is not attributed to a parameter; capturing call arguments is an "
         "announced writer.")
add(id="C09", title="Deep copy and free use the caller's allocator, and only for data",
    statement="Every block a deep copy creates comes from the caller's calloc_fn, and every pointer it writes leads into such a block, "
              "never into the source unless the caller asked to copy unknown pointers as values. Those blocks, and the blocks deep free "
              "releases, are released only with the caller's free_fn; the library's own memory never is. The C allocator stands in only "
              "where the caller passed NULL for that function.",
    over=["inputs", "fault_sequences", "programs"], quant="all values, modes, allocators and failing allocations",
    why="Tests use the C allocator, for which every mix-up is invisible.",
    files=["src/value_deep.c", "include/metac/reflect/value.h"],
    mech=[("allocation and release of copied blocks", "src/value_deep.c: _value_copy_preallocate, _value_copy_free, metac_value_copy_ex, _value_free")],
    technique=PTS + " (allocator families and provenance of stored pointers)",
    note="Parameter storages held as data are library objects and stay with the C allocator.")
add(id="C24", title="Queries answer with exactly what the description records",
    statement="Whatever description or value is asked, each query answers with the recorded fact it is about: names, kinds, counts, "
              "members, parameters, enumerators, result and element types, sizes (including nested arrays), qualifiers (in any order), "
              "byte and bit offsets; typedefs, qualifiers, variables, members and parameters are resolved to the type they lead to. "
              "Values made for an element or member describe that element at its own address. A description of a kind the query is not "
              "about, or an id out of range, gets the failure result - and no other description does.",
    over=["inputs", "programs"], quant="all descriptions of all 25 kinds x all queries",
    why="About 75 queries x 25 kinds with links in between; a wrong field or a missing kind yields a plausible answer for most types.",
    files=["src/entry.c", "src/value.c"],
    mech=[("queries on descriptions", "src/entry.c"), ("link and size resolution", "src/entry.c: metac_entry_final_entry, metac_entry_byte_size"),
          ("queries on values, element and member access", "src/value.c")],
    technique="value numbering along every acyclic control-flow path of LLVM IR, per kind of description, against a table of fields",
    note="One pass of a loop stands for all (loop variables unknown). Printed declarations and lookups by path are not "
         "covered, values themselves are C26; an answer computed in a way the numbering cannot express is not judged.")
PV = "value numbering along every acyclic control-flow path of LLVM IR (one pass per loop, loop variables unknown)"
add(id="C15", title="A database lookup finds exactly the entry with the given file, place and name",
    statement="Whatever the contents of a (sorted) entry database, a lookup searches, at each of its three levels, the whole table of the "
              "record found before, for the file, location name and name asked for, in the order the tables are sorted by (whole names, "
              "byte order). It answers with the entry recorded under that name if there is exactly one, and with nothing otherwise.",
    over=["inputs"], quant="all databases, all keys",
    why="A wrong comparison, count or table still finds most names in a small database.",
    files=["src/entry_db.c"], mech=[("three-level binary search", "src/entry_db.c: metac_entry_from_entry_db and its comparison functions")],
    technique=PV + ": key, comparison, table, count and element size of each search are matched",
    note="bsearch is trusted; a hand-written search is not judged. That the generated tables are sorted is not judged here.")
add(id="C22", title="The hash map behaves as a map, whatever the keys, collisions and growth",
    statement="For every hash function, key sequence and bucket layout: a key is looked for in the bucket it was put into, a lookup "
              "succeeds if and only if an entry with an equal key is there, put replaces or adds exactly one entry and reports the previous "
              "value, memoize keeps the present value, remove takes out exactly the entry it found. The size counts the entries. Growth and "
              "traversal visit every entry of every bucket once, growth keeps each under its stored hash.",
    over=["inputs", "histories", "fault_sequences"], quant="all sequences of operations, all hash functions, failing allocations",
    why="Collisions, chains longer than two and growth with chains depend on hash values that tests hardly choose.",
    files=["src/hashmap.c"], mech=[("hash map operations", "src/hashmap.c")],
    technique=PV + ": effects on buckets, chains, size and results of each operation",
    note="The equality callback is trusted to be an equality. Bucket counts are powers of two.")
add(id="C23", title="A parameter storage keeps number, order and content of its parameters",
    statement="Appending adds exactly one parameter, behind all others, with the description (copied if it is dynamic), size and memory "
              "asked for, and counts it; an append that reports failure leaves the storage as it was. The n-th parameter is found by "
              "counting from 0, the size is the number of parameters, cleaning up returns to the empty state. Copying a storage copies "
              "every parameter in order with its full content, nested storages included, or reports failure.",
    over=["inputs", "histories", "fault_sequences"], quant="all sequences of appends, copies and cleanups, failing allocations",
    why="The order and the counters only matter with several parameters, nesting or after a failure.",
    files=["src/value_with_args.c"], mech=[("parameter storage", "src/value_with_args.c: metac_parameter_storage_*")],
    technique=PV + ": list links, counters and fields written by each operation",
    note="Which parameters a captured call consists of is not covered (C19 covers the argument types).")
add(id="C25", title="The traversal scheduler runs every task once its subtasks have ended, in order",
    statement="For every sequence of states: a task is handed out only if it has not ended and all its subtasks have; otherwise the first "
              "subtask that has not ended comes next; control goes back to the parent when a task ends, and the traversal ends exactly "
              "when the first task has. Subtasks are queued and taken in the order they were added, each with its own input, result and "
              "failure flag, however many fail. Level, input by level, result by position and queue size are those of the chain of tasks.",
    over=["inputs", "histories"], quant="all task trees, all orders of finishing and failing",
    why="Every deep operation runs on this scheduler; a wrong turn needs a failed task among unfinished ones or a queue refilled later.",
    files=["src/iterator.c", "include/metac/backend/iterator.h", "include/metac/backend/list.h"],
    mech=[("scheduler and queues", "src/iterator.c")],
    technique=PV + ": per path, the task states left possible by the conditions and the links written",
    note="What the tasks of the deep operations do in each state is not part of this property (see C10, C13).")
add(id="C26", title="Integers, enumerations and bit-fields are read and written bit-exactly",
    statement="Reading an integer or enumeration value (as its own type or as a number) delivers exactly the bits its description locates, "
              "extended by the sign for signed types and by zeros otherwise; writing stores exactly the value's low bits there and changes no "
              "other bit, and only bytes that hold the described data are touched. This holds for whole variables and members and for "
              "bit-fields of every width at every position within their type, however the position is recorded (offset from the top of the "
              "storage unit, bit offset in the structure, or size alone). An enumeration is signed exactly if one of its constants is negative.",
    over=["inputs", "programs"], quant="all data contents x all widths and bit positions x 11 integer types and enumerations of 1, 2, 4 and 8 bytes",
    why="Thousands of width/position pairs per type; a wrong mask shows only beyond 31 bits, across a byte border or in the neighbour's bits.",
    files=["src/value.c", "src/value_base_type.c", "src/entry.c"],
    mech=[("bit-field access", "src/value.c: _entry_bitfield_read, _entry_bitfield_write, metac_value_base_type, metac_value_set_base_type"),
          ("enumerations", "src/value.c: metac_value_enumeration, metac_value_set_enumeration"),
          ("location of bits", "src/entry.c: metac_entry_member_bitfield_offsets, metac_entry_member_raw_location_info"),
          ("accessors", "src/value_base_type.c")],
    technique="abstract interpretation over LLVM IR in a bit-provenance domain (each bit: 0, 1, a named source bit, unknown), per described width and position",
    note="Little-endian build only; fields that extend past the width of their type from the byte of their first bit (packed structures) are outside; "
         "offsets of the structure are symbolic, the enumerators are three sample lists.")
add(id="C27", title="A tag map answers each entry with the most specific tag set for it",
    statement="For every tag map (any number of categories, masks, stacked maps, any tags set) the lookup asks the categories in their order and "
              "only those whose mask has the entry's kind (variable, function parameter, member). A category answers with what its stacked map "
              "answers, or with the tag set for the entry itself, or - if its mask has the final bit - with the tag set for the entry's final "
              "entry; a category that has nothing passes on to the next one, and the default tag is answered if none has. Setting a tag stores a "
              "copy (with its own string) in the category asked for, for the entry or its final entry as asked, and replaces a present tag if and "
              "only if overriding is on; it reports success exactly if it stored the tag.",
    over=["inputs", "histories"], quant="all maps and stacks of maps, all sequences of set and lookup, all entries",
    why="The tests have one map with one category; order, masks, stacks, final entries and overriding combine in ways no test samples.",
    files=["src/entry_tag.c"], mech=[("lookup", "src/entry_tag.c: metac_tag_map_tag"), ("set", "src/entry_tag.c: metac_tag_map_set_tag, _entry_new_tag"),
                                     ("creation", "src/entry_tag.c: metac_new_tag_map, metac_new_tag_map_ex")],
    technique=PV + ": conditions and answer of each path against a decision table",
    note="The hash map behind it is C22, freeing of tags C01-C03. The syntax of tag strings (metac_entry_tag_string_lookup) is not covered.")
add(id="C28", title="The stock tag handlers answer what their context prescribes",
    statement="Whatever the data, each stock handler answers only requests of its own kind. METAC_COUNT_BY answers, for the tagged value, the number "
              "held by the sibling (member or parameter) that has exactly the context's name, wherever it stands; METAC_ZERO_ENDED_STRING the length of "
              "the tagged char string including its end; METAC_CONTAINER_OF one container at the pointer minus the member's offset; "
              "METAC_UNION_MEMBER_SELECT_BY the member named (or numbered) by the case that equals the selector sibling's value, the value itself "
              "if there are no cases, and a failure if no case fits; the permanent selection its constant; METAC_CAST_PTR the tagged pointer cast to the type of the "
              "fitting case with the count sibling's value, or one. Contexts hold own copies of the names and of all cases given.",
    over=["inputs", "programs"], quant="all data, all contexts, all positions of siblings",
    why="Deep copy and deletion follow these answers: a wrong count or member is a memory error, but only for data no test holds.",
    files=["src/entry_tag.c", "include/metac/reflect/entry_tag.h"], mech=[("handlers", "src/entry_tag.c: metac_handle_*"),
                                                                          ("contexts", "src/entry_tag.c: metac_new_*_context, metac_new_union_member_permanent_selection")],
    technique=PV + ": the answer as an expression over hierarchy and context",
    note="What a handler does if a named sibling is missing or no cast case fits is not prescribed. Counts have the 32 bits of metac_num_t.")
add(id="C29", title="Operations over a compound visit every one of its parts",
    statement="Whatever the number of members, elements, parameters, enumerators, children or cases of a compound, an operation that goes over them "
              "(print, map, copy, compare, delete, declare, call, look up) starts with the first, advances by one, ends with the last of that same compound, "
              "counts with at least 32 bits, and in no pass leaves out its part, its part's result or its part's text. A search stops early only when it has found "
              "or failed.",
    over=["inputs", "programs"], quant="all compounds, all part counts, all failure points of a pass",
    why="Small samples are covered by almost any bound; a skipped first or last part or a dropped child result shows only for particular data.",
    files=["src/value_deep.c", "src/value_string.c", "src/entry.c", "src/entry_cdecl.c", "src/entry_tag.c", "src/value_with_args.c", "src/value.c"],
    mech=[("deep operations", "src/value_deep.c: metac_value_copy_ex, metac_value_equal_ex, metac_new_memory_map_ex"),
          ("text", "src/value_string.c: metac_value_string_ex; src/entry_cdecl.c"),
          ("look-ups", "src/entry.c, src/entry_tag.c")],
    technique=PV + ", per loop: start, step, bound and effect of each pass over an indexed whole",
    note="The unspecified (\"...\") parameter, and parts for which the pass records a failure that ends the operation, are excused.")
add(id="C30", title="Deep comparison calls values equal only if they are",
    statement="metac_value_equal_ex answers `equal' only if at every place of the two structures size, number of parts, kind, position in its block and the place "
              "where a cycle closes agree, every leaf was compared with its counterpart and compared equal, and so were the bytes of a union that is compared as memory "
              "and the pointers that are compared as values. A difference once seen is never taken back by a later part, and `different' is answered only if such a "
              "comparison failed. Leaves of one value compare equal exactly if what is read from both is equal.",
    over=["inputs", "programs"], quant="all pairs of structures, all modes, all orders of parts",
    why="Samples compare structures that differ in one obvious leaf; a difference only in the shape of a cycle, in the last compared part or in a mode's extra "
        "comparison is not seen by them.",
    files=["src/value_deep.c", "src/value.c", "src/value_base_type.c"],
    mech=[("walk", "src/value_deep.c: metac_value_equal_ex"), ("leaves", "src/value.c, src/value_base_type.c: metac_value_equal_*")],
    technique=PV + ", per pass of the walk: facts on the path against what is recorded",
    note="The construction of the two memory maps is not part of this property. Failing calls may answer with an error.")
add(id="C31", title="A deep copy has the source's values, shape and its own memory",
    statement="When metac_value_copy_ex succeeds, every leaf of the destination was set from the leaf of the source at the same place, every part of the destination "
              "lies at its source part's offset and has its type, every pointer leads to the copy of what the source's pointer leads to (same offset into it; a pointer "
              "that closes a cycle leads to the copy of the cycle's start), pointers without a mapped target are NULL or the plain value as the mode says, a NULL "
              "pointer is copied as NULL, unions are copied or cleared whole as the mode says, and blocks are allocated in the size of their source.",
    over=["inputs", "programs"], quant="all sources, all modes, all previous contents of the destination",
    why="Tests copy small trees into zeroed memory; cycles, interior pointers, modes and old destination contents combine without bound.",
    files=["src/value_deep.c", "src/value.c", "src/value_base_type.c"],
    mech=[("walk", "src/value_deep.c: metac_value_copy_ex"), ("blocks", "src/value_deep.c: pre-allocation callback"),
          ("leaves", "src/value.c, src/value_base_type.c: metac_value_copy_*")],
    technique=PV + ", per pass of the walk: what is read, written, allocated and linked for each kind of entry",
    note="The construction of the memory map (which pointer belongs to which block) is not part of this property.")
GS = "Go SSA: value numbering along every control-flow path of every function (one pass per loop, functions of the package without loops inlined)"
add(id="C16", title="Tag strings are looked up key by key, quotes and escapes respected",
    statement="Whatever the tag string and the key, metac_entry_tag_string_lookup answers with a copy of the raw text between the quotes of the first pair "
              "key:\"value\" whose key is the one asked for, in its full length (no prefix, no longer key), and with NULL if there is none or tag, string or key is "
              "missing. Pairs are separated by spaces (or nothing); a \\ in a value takes the next character with it, so \\\" does not end it; whatever stands "
              "inside a value (spaces, colons, text that looks like a pair) is never taken for a pair; a word without a colon, and a key whose colon is not followed by a quote, "
              "is skipped up to the next space, and the pairs after it are found.",
    over=["inputs"], quant="all tag strings, all keys",
    why="Tags are free text; what a key answers depends on everything that stands before it.",
    files=["src/entry_tag.c", "include/metac/reflect/entry_tag.h"], mech=[("scanner", "src/entry_tag.c: metac_entry_tag_string_lookup")],
    technique=PV + ": the scanner's transition relation against the grammar's automaton (product of states, positions symbolic)",
    note="A key that starts with a colon and a space between colon and quote are left open. A scan that is not one loop over the characters is not judged.")
add(id="C17", title="The tree of debug entries is the tree of the DWARF data",
    statement="For any DWARF data that can be read, NewData stores every entry but null ones under its own offset; its parent is the entry whose list of children it stands in (the root, offset 0, "
              "for compile units and other top entries), and it is appended to that parent's children in reading order, whether lists of children end with a null entry "
              "or at the entry named as sibling. Null entries never remove the root. No entry is passed over, and reading ends only at the end of the data; a failure to read is an error and no data.",
    over=["inputs"], quant="all DWARF data, from any compiler",
    why="Compilers differ in siblings, null entries, nesting and kinds of units; a test sees one compiler's output.",
    files=["pkg/dwarfy/dwarf.go"], mech=[("levels", "pkg/dwarfy/dwarf.go: NewData (stack of parents)")],
    technique=GS + ": per pass over the entries, the stack before and after, what is stored where, and the facts about null entries, siblings and units",
    note="")
add(id="C18", title="Overrides win and everything they do not name is kept",
    statement="For any module specification and any list of overrides, merging gives a table in which every entry named by an override has the override's value (null and empty values "
              "included), every entry not named keeps its own, and tables on both sides are merged by the same rule at every depth; lists and other values are replaced as a whole. "
              "Overrides apply from the first to the last, each to the result of those before. The specification given is not changed. An override is the content of the file it names "
              "(--file:) or the text itself, JSON if it starts with a brace, YAML otherwise; one that cannot be read, parsed or merged is an error, and an empty one changes nothing.",
    over=["inputs"], quant="all specifications and overrides, all depths",
    why="Precedence has to hold for every shape on both sides at every depth; tests try a few.",
    files=["pkg/override/override.go"], mech=[("merge", "pkg/override/override.go: Merge, mergeTables"), ("list", "pkg/override/override.go: MergeAll"), ("reading", "pkg/override/override.go: New")],
    technique=GS + ": decision table of one entry (named or not, table or not on either side) against what the path does with it",
    note="The deep copy comes from a third-party package that is not available offline; its signature stands in for it.")
add(id="C20", title="A module name never leaves the look-up paths, and look-up follows their order",
    statement="For any module name and any list of look-up paths, files are opened and kinds asked for an instance only when the name holds no slash or backslash and is "
              "neither `.' nor `..'; such names are refused with an error, all others are looked up. InfoByName reports, in the order of the look-up paths, every path with a readable "
              "description of a known kind, with that path and that kind, and a path without one does not end the look-up. NewInstance tries what was found in that order and "
              "returns the first instance that loads; one that does not load does not keep later ones from being tried; otherwise an error is returned. Without "
              "a name, the given spec file's folder, file name and kind are used; with a name and no spec file, module.yaml.",
    over=["inputs"], quant="all module names, all lists of paths, all states of the file system",
    why="A test tries a few names against the modules that exist; containment and order have to hold for every name and every set of directories.",
    files=["pkg/module/module.go"], mech=[("look-up", "pkg/module/module.go: InfoByName, NewInstance"), ("containment", "pkg/module/module.go: nameIsLegal and its callers")],
    technique=GS + ": facts known of the name when a path is joined, order of the passes over the look-up paths, effects of each outcome",
    note="Links in the file system are not part of it: containment is that of names.")
add(id="C21", title="Debug data survive conversion to unstructured, JSON and YAML form and back",
    statement="For any debug data, converting them to the unstructured form, to JSON or to YAML and back gives the same data: every entry under its own offset, every "
              "tag, parent, list of children, field and file name, in the same order, and each field's value in the Go type of its DWARF class whichever decoder it came from "
              "(addresses and type signatures uint64, references Offset, constants and section offsets int64, blocks and expressions lists of int). A missing mandatory key, a "
              "value of the wrong type or a text that is no number is an error. Building an entry from DWARF takes over the tag, every field, and for compile units every file.",
    over=["inputs"], quant="all debug data; JSON numbers up to the 53 bits its decoder keeps",
    why="The tests convert a handful of entries; attribute classes, value types, empty lists and decoders combine into far more cases.",
    files=["pkg/dwarfy/dwarf.go"], mech=[("unstructured form", "pkg/dwarfy/dwarf.go: ToUnstructured, New*FromUnstructured"), ("types of values", "pkg/dwarfy/dwarf.go: fixValBasedOnClass"),
          ("text forms", "pkg/dwarfy/dwarf.go: NewDataFromJsonBuffer, NewDataFromYamlBuffer, ToJsonBuffer, ToYamlBuffer; struct tags"), ("from DWARF", "pkg/dwarfy/dwarf.go: NewField, NewEntry")],
    technique=GS + ": keys and fields of writer and reader compared, type of each class's value per path, completeness of each pass over a list",
    note="Numbers beyond 53 bits in JSON are decoded by encoding/json into float64 and are outside the claim (YAML keeps them).")
add(id="C32", title="Blocks inside other blocks are recorded as such and not released on their own",
    statement="For any object: the target of every pointer that is followed is recorded under its own address, and of two that begin at one address the bigger one is "
              "kept. Of the recorded blocks that have a size, one that begins inside another is recorded with its distance from that block's start, whatever the order in "
              "which the pointers were met; one that begins right behind another does not count as a part of it. A deep free goes over all blocks and releases exactly "
              "those that begin inside no other, each once and at its address.",
    over=["inputs", "histories"], quant="all object graphs whose blocks nest, all orders of discovery",
    why="Whether blocks touch, nest or share an address depends on where a run's objects happen to lie; a test sees one layout.",
    files=["src/value_deep.c"], mech=[("map", "src/value_deep.c: metac_new_value_memory_map_ex"), ("sweep", "src/value_deep.c: _identify_allocatable_entries"), ("release", "src/value_deep.c: _value_free, metac_value_free_ex")],
    technique=PV + ": what each pass of the sweep keeps and records under the bound it has found for address and end, the sorted order and the collection it relies on, the recording of a pointer's target, the release callback",
    note="Partial overlaps are only warned about by the code and are outside the claim. Blocks without size (counted pointers with count 0) are outside it too: the sweep passes over them, so one that points into "
         "another block keeps offset 0 and, by reading, would be released by a deep free; this was seen late and has not been demonstrated or repaired.")
add(id="C33", title="Generated declarations, read back by a compiler, mean the type they came from",
    statement="The text of metac_entry_cdecl for any type and name, given to a C compiler, declares that name with that very type: derived declarators nest in the "
              "right order and are parenthesised where C demands.",
    over=["inputs"], quant="all types",
    why="Nesting of declarators is unbounded.",
    files=["src/entry_cdecl.c"], mech=[("declarators", "src/entry_cdecl.c")], technique="", note="")
NA["C33"] = ("The meaning of the produced text is given by the C grammar; deciding it needs a grammar-aware string analysis of text pasted together over "
             "unboundedly many passes with format strings computed at run time. What is decidable of it (formats match, no part left out, name and type reach the "
             "text) is claimed under C06, C24 and C29.")
add(id="C34", title="The generated reflection data agree with the compiler",
    statement="For any C program, the sizes, offsets, bit positions, constants and links in the C source generated by metac from the program's DWARF data are those the "
              "compiler used for that program.",
    over=["programs"], quant="all programs, compilers and flags",
    why="The input is another program's debug information.",
    files=["pkg/dwarfy", "pkg/metadb", "modules"], mech=[("generator", "pkg/dwarfy, pkg/metadb, modules")], technique="", note="")
NA["C34"] = ("The oracle is the compiler's own layout of the user's program: nothing in this repository's source determines it. The third-party "
             "packages of the generator are not available offline either, so its data base half (pkg/metadb) cannot be type-checked here; its front half is claimed under C21.")
