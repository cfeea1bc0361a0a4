TECH = 'CBMC code contracts (goto-instrument --dfcc) enforced on the real functions, loops unwound to completion with unwinding assertions'
TECHB = 'Function contracts (pre- and postconditions against a reference) checked on the real code by CBMC within the stated bounds, and by native pseudo-random execution beyond them; labelled bounded, nothing counted as proved'
TECHINV = TECH + '; loops of unbounded length by loop invariants attached at cut points (assert on entry, havoc, assume, assert after one iteration)'
TECHT = 'Contracts of every task of the walk (CBMC, function by function: iterator, hash map, value layer, tags and handlers replaced by the contracts C07, C06, C01/C03/C05/C12/C19, C13/C14 check) discharged on the real functions for all contents and modes, with the number of parts of one value bounded; whole graphs by native pseudo-random execution against an independent reference (bounded)'
PENDING = 'check not built yet'

P('C01', 'Scalar reads and writes are bit-exact and type-checked',
  'Reading any scalar value with the accessor of its type yields exactly the stored bytes, and writing stores exactly the given value and changes no byte outside it; comparing and copying two scalars of a type agree with the C operators, and widening an integer gives what a C conversion gives. '
  'An accessor of any other type (name, encoding or size), a value that is not a scalar, a missing argument, or a write through a const-qualified type is refused with an error and changes neither memory nor the output variable.',
  ['inputs', 'programs'], 'every one of the 17 C scalar types, every bit pattern and address, every type name, encoding and size in the description, values reached as plain type, variable, member or parameter through typedefs and qualifiers',
  'tests try a few values per type and almost no mismatching accessor; aliasing of neighbouring bytes, wrong-type refusals and const refusals are over all types and bit patterns',
  ['src/value_base_type.c', 'src/value.c', 'src/entry.c'],
  [('type check by name, encoding and size', 'src/entry.c'), ('byte copy between variable and memory', 'src/value.c'), ('typed wrappers', 'src/value_base_type.c')],
  level='proof', technique=TECH,
  note='Deductive proof by bit-precise bounded-complete symbolic execution: every obligation of every accessor contract is discharged for all inputs. Type names up to 25 characters (all accepted names are shorter), one typedef and one qualifier (longer chains are C03). Trusts CBMC and its libc models; LP64 little-endian.')

P('C02', 'Bit-field reads and writes touch exactly the declared bits',
  'Reading an integer bit-field returns exactly the bits the debug information assigns to it, zero- or sign-extended to the accessor type. '
  'Writing replaces exactly those bits with the low bits of the given value and leaves every other bit of the structure unchanged. '
  'A wrong accessor type or a const-qualified field is refused without changing anything.',
  ['inputs', 'programs'], 'every width 1..8*sizeof(type), every bit position including fields that straddle storage units (packed), both DWARF 3 (offset from the most significant bit of the storage unit) and DWARF 4+ (offset from the structure start) layouts, every content of the surrounding memory, all 11 integer types',
  'tests use a dozen fixed layouts; correctness is per (width, position, layout convention, content) and the failures sit at the extremes',
  ['src/value.c', 'src/entry.c', 'src/value_base_type.c'],
  [('offset normalisation of both DWARF conventions', 'src/entry.c'), ('masked byte-wise read and write', 'src/value.c')],
  level='proof', technique=TECH,
  note='All widths, positions, contents and types within a 24-byte structure window discharged bit-exactly. Trusts CBMC; little-endian branch only.')

P('C03', 'Type resolution sees through any chain of typedefs and qualifiers',
  'Resolving a type description skips every typedef, qualifier, variable, member and named parameter, in any number and order, and yields exactly the first description that is none of these together with exactly the set of qualifiers met on the way. '
  'The byte size of a description is the size of the type it resolves to multiplied by the lengths of all array dimensions passed on the way; it is an error, leaving the result untouched, when the chain ends in void, a type without a size or an array of unknown length.',
  ['inputs', 'programs'], 'chains of any length and any mix of kinds, any array lengths and sizes',
  'tests resolve a handful of short chains; the guarantee is over unbounded chains and every order of qualifiers',
  ['src/entry.c'], [('resolution loop', 'src/entry.c'), ('byte size loop', 'src/entry.c')],
  level='proof', technique=TECHINV,
  note='Both loops are proved by invariant for chains of any length (byte-size arithmetic within leaf sizes below 256, lengths below 29, accumulated factors below 4096). When an edit removes the loop the invariant is written for, the verdict falls back to the bounded units (all chains up to 6) and sampling (up to 40), and the evidence says so.')

P('C04', 'Enumeration values round-trip and map to their declared names',
  'Reading an enumeration returns the stored integer for every storage size (1, 2, 4 or 8 bytes, sign-extended when a negative enumerator is declared), writing stores exactly that many bytes, or exactly the bits of an enumeration bit-field, and reading back returns what was written whenever it fits. '
  'Looking a number up yields the name of the first enumerator declared with that number and nothing when there is none; the textual form is that name, or the decimal number when there is none.',
  ['inputs', 'programs'], 'every storage size 1, 2, 4, 8, every stored value, any number of enumerators in any order with duplicates',
  'tests use one or two small enums of int size', ['src/value.c', 'src/entry.c'],
  [('sized read and write', 'src/value.c'), ('enumerator search', 'src/entry.c')],
  level='proof', technique=TECHINV,
  note='Read, write, compare, copy, widen: discharged for every content, offset, storage size. Name lookup and the sign test: search loop by invariant, any number of enumerators (plus all enumerations of up to 5 enumerators unwound). Text: sampled natively (CBMC has no vsnprintf model).')

P('C05', 'Members, elements and parameters resolve to the right place, never outside',
  'Selecting a member, array element or parameter by number yields the description at that position and, for values, the address base plus the declared offset (or index times element size); a number outside the declared range, or selecting on the wrong kind of type, yields nothing. '
  'Selecting by name yields the position of the first entry with that name, whatever follows it, and an error when no entry has it.',
  ['inputs', 'programs'], 'any number of members, parameters and elements, any offsets and sizes, any index including negative and huge, any names including absent (anonymous) ones',
  'tests walk a few structs with in-range indices', ['src/entry.c', 'src/value.c'],
  [('range checks and name search', 'src/entry.c'), ('address computation', 'src/value.c')],
  level='proof', technique=TECHINV,
  note='Selection by number for any count; search by name by loop invariant for any count (plus 0..4 entries unwound, names from a pool with prefixes, the empty name and no name); element addresses for all indices with element sizes 1,2,3,4,8,12,16,40 and, bounded, any size below 256; nested member paths bounded to 3 steps.')

P('C19', 'Pointer values are read, written, compared and followed exactly',
  'Reading a pointer value returns exactly the stored address; writing stores exactly the given address and changes nothing else; two pointers are equal exactly when they hold the same address, and copying stores exactly the source address. A value that is not a pointer, or a missing argument, is refused without changing memory. '
  'Untyped pointers and pointers to incomplete types are recognised as such, the pointed-to type is the declared one, the text of a pointer is NULL or its address, and during a walk a loop is reported exactly when an enclosing pointer holds the same address, at the distance of the nearest such pointer.',
  ['inputs', 'programs', 'histories'], 'every address including NULL, every pointed-to type, pointers reached as variable, member or parameter through typedefs and qualifiers, walks of any depth',
  'tests use a few live pointers; refusals, neighbouring memory and deep walks are over all addresses and depths', ['src/value.c', 'src/entry.c'],
  [('pointer access', 'src/value.c'), ('loop detection', 'src/value.c')],
  level='proof', technique=TECHINV,
  note='Loop detection is proved by invariant for any depth, the iterator level and path lookup assumed by the contract that C07 checks. Text: sampled natively.')

P('C06', 'The hash map behaves as a map over every history of operations',
  'After any sequence of put, memoize, remove and growth, lookups return the value most recently stored for a key that is present and nothing for one that is not, the size is the number of distinct keys present, and iteration visits every present entry exactly once. '
  'Put reports the value it replaced, remove returns the removed value; when memory runs out the operation reports it and the map keeps all its previous contents.',
  ['histories', 'inputs', 'fault_sequences'], 'any sequence of operations, any hash function including one where all keys collide, any initial capacity, allocation failure at any point',
  'tests insert a fixed set of keys; collisions, growth in mid-history and allocation failure are not sampled', ['src/hashmap.c'],
  [('bucket chains and key search', 'src/hashmap.c'), ('growth', 'src/hashmap.c')], 
  level='proof', technique=TECHINV,
  note='Every operation is verified on an arbitrary chain of a bucket array of any size (search loops by invariant, an arbitrary hash and equality function), growth, iteration and deletion by invariants on both nested loops for any number of buckets and entries; those units read the private structures. Signed wrap-around in the hash mixing is treated as machine arithmetic. 20000 native histories against a reference model, with and without injected allocation failures, use the public interface only.')

P('C07', 'The work scheduler visits every task once, children before completion',
  'The recursive work iterator hands out each submitted task, then its sub-tasks in the order they were requested, and returns to the parent after all of them are finished, with results, inputs and outcomes delivered to the parent in request order; the walk ends exactly when the first task is finished. '
  'A task may request further sub-tasks at any visit, also after it has fetched all results. Depth, per-level inputs, state and context always describe the path from the current task to the root; a request that runs out of memory is reported and changes nothing.',
  ['histories', 'programs'], 'every tree of tasks of any shape and every order of done/fail, request and result-fetch calls',
  'one test walks a small tree; the interleavings of requesting, fetching and failing are not sampled', ['src/iterator.c'],
  [('task stack and dependency queues', 'src/iterator.c')],
  level='proof', technique=TECHINV,
  note='Every public function is verified on an arbitrary task tree: append and dequeue on a queue of any length, next, level, path lookup, queue size and result lookup by loop invariants for any tree (partial correctness; termination of next is only exercised by the sampled histories). Those units read the private task structure; 20000 native histories against a reference model use the public interface only.')

P('C08', 'A deep copy equals its source and shares no memory with it',
  'Deep-copying a value reproduces its whole reachable structure: every scalar, enumeration, bit-field, array element, union member and pointed-to block selected by the handlers has the same content in the copy, NULL stays NULL, and two pointers that referred to one block (or to places inside one block, or to each other in a cycle) refer to one copied block at the same places. In tree mode every pointer gets a block of its own instead. '
  'No copied pointer leads into the source, every allocated block is reachable from the copy, nothing outside the destination is written and the source is unchanged. A value holding a pointer, union or flexible array nobody explains is refused in the strict modes, and nothing is leaked.',
  ['inputs', 'programs'], 'every object graph (trees, shared blocks, interior pointers, overlapping arrays, cycles, NULLs, zero-length arrays) over every type the library supports; pointers lead to heap blocks other than the memory of the value itself, tree mode without cycles, structures without const members',
  'tests copy a few fixed graphs', ['src/value_deep.c'], [('memory map and block copying', 'src/value_deep.c')],
  level='other', technique=TECHT,
  note='The life of every task of the map-building and copying walks is discharged for any value of each kind (int, enum, pointer, struct, union, array, call, variable parameters), tag, handler answer, mode, and failure of a part or of memory; up to 3 parts per value, up to 3 blocks per map (bounded). Composition over a whole graph follows from the iterator contract and is argued, not machine-checked; whole graphs are executed natively against an independent reference walk (bounded).')

P('C09', 'Deep delete frees every reachable block exactly once',
  'Deleting a value deeply frees each heap block that is reachable from it exactly once and frees nothing else: not the value itself, not interior or overlapping parts of a block, not a block twice even when it is shared or part of a cycle. A value holding a pointer, union or flexible array nobody explains is refused in the strict modes, and nothing is freed.',
  ['inputs', 'programs'], 'every object graph over every supported type; pointers lead to heap blocks other than the memory of the value itself', 'tests free a few fixed graphs', ['src/value_deep.c'],
  [('memory map', 'src/value_deep.c')],
  level='other', technique=TECHT,
  note='The life of every task of the map-building walk and the release of any one block of a map are discharged for any value of each kind, tag, handler answer, mode and failure; up to 3 parts per value, up to 3 blocks per map when telling blocks from places inside them (bounded). Composition over a whole graph follows from the iterator contract and is argued, not machine-checked; whole graphs are executed natively against an independent reference walk (bounded).')

P('C10', 'Deep comparison is true exactly when the structures have equal content',
  'Two values of one type compare equal exactly when every reachable scalar, enumeration, bit-field, element, selected union member and pointed-to block matches, NULL matches only NULL, sequences have equal length and the pointers of one form loops where the other does; a difference anywhere makes them unequal. Comparison is reflexive and symmetric, terminates on cyclic data and modifies nothing; a value holding a pointer, union or flexible array nobody explains is refused in the strict modes.',
  ['inputs', 'programs'], 'every pair of object graphs of the same type; floating-point content compares as C does (NaN excluded)', 'tests compare a few fixed pairs', ['src/value_deep.c'],
  [('parallel walk', 'src/value_deep.c')],
  level='other', technique=TECHT,
  note='The life of every task of the map-building and comparing walks is discharged for any pair of values of each kind, mode and failure; up to 3 parts per value (bounded). Composition over a whole graph follows from the iterator contract and is argued, not machine-checked; pairs of whole graphs (equal, or different in one place) are executed natively against an independent reference walk (bounded).')

P('C11', 'Printf formats are parsed as the C library does',
  'For every well-formed printf format using literal widths and precisions and the length modifiers hh, h, l, ll and L, the number of arguments reported, and the flags, width, precision, length and type of every conversion, are those the C standard assigns, also for conversions that directly follow each other; literal text and %% consume no argument, and no character outside the string is read. '
  'Capturing the arguments of a format stores one parameter per conversion, in order, with the type the conversion asks for and the value passed; a string is captured completely with its terminator, whatever its length, and is independent of the caller\'s memory. A printf-like call whose variable part is tagged as such has its arguments captured by the format passed in the parameter before that part, and is refused when there is none.',
  ['inputs'], 'every format string and argument list', 'tests parse a fixed list of formats', ['src/printf_format.c'],
  [('specifier parser', 'src/printf_format.c'), ('argument capture', 'src/printf_format.c')],
  level='other', technique=TECHB,
  note='Bounded: every string of up to 9 characters for one conversion and up to 5 for counting; every conversion and length modifier (and strings of up to 15 characters) for the capture of arguments of any content, against the contracts of the storage (C12); longer formats and formats of up to 6 conversions are sampled natively.')

P('C12', 'Captured call parameters are stored in order and returned intact',
  'Parameters recorded for a call are returned with the same count, order, type and content, are independent of the memory they were captured from, nested parameter lists included; a copy is equal and independent, an index out of range yields nothing, and deleting a list releases everything it holds exactly once.',
  ['histories', 'inputs'], 'any sequence of appended parameters of any size and nesting', 'tests capture a few signatures', ['src/value_with_args.c'],
  [('parameter storage list', 'src/value_with_args.c')],
  level='proof', technique=TECHINV,
  note='Append, lookup, copy and clean-up are proved on a storage of any length (list loops by invariant, on the private list structures; contents up to 24 bytes, an arbitrary byte of them checked); call results proved. Capture of 1 to 3 parameters of each type from a variable argument list is discharged for any content; complex, long double and nested histories are sampled natively.')

P('C13', 'Tags are found for exactly the entries they were set on',
  'The tag looked up for a variable, member or parameter is the one set for that very entry in the first applicable category that has one (own, external, or for its final type when the category covers final types), else the default, and never that of another entry; overriding is refused or performed as requested, replaced and deleted tags and their contexts are released exactly once. '
  'A key looked up in a tag string returns the text between the quotes (escapes as written) of the first key:"value" item with exactly that key, skipping words that are no such item, and nothing for an absent key or a value that does not end, reading only inside the string.',
  ['inputs', 'histories'], 'any set of tagged entries, any tag string', 'tests use a few tag strings', ['src/entry_tag.c'],
  [('category maps', 'src/entry_tag.c'), ('tag-string scanner', 'src/entry_tag.c')],
  level='proof', technique=TECHINV,
  note='Lookup is proved for any number of own categories by loop invariant (external maps: all configurations of up to 3 categories), setting for every state of the map; the hash map is assumed by the contract C06 verifies. Tag strings: every string of up to 6 (thorough 8) characters, longer ones sampled. Histories on layered maps with and without allocation failures are sampled natively.')

P('C14', 'Built-in tag handlers select what the tagged declaration says',
  'The built-in handlers report, for a tagged pointer or flexible array, exactly the element count held by the named sibling field or call parameter, the length of a zero-terminated string including its terminator, the enclosing structure of an embedded member, the union member its selector field names (or the permanently selected one), or the array of the cast target type with the counted length. When the named field does not exist nothing is selected, and a field that holds no number, a selector value or member name without a match, or a missing configuration is an error; requests of another kind are left alone.',
  ['inputs', 'programs'], 'every field value, string content, offset and configuration', 'tests use one structure per handler', ['src/entry_tag.c'],
  [('handlers', 'src/entry_tag.c')],
  level='proof', technique=TECHINV,
  note='Field searches by loop invariant for any number of members; container-of for all offsets in a 64-byte window; configurations (cases, names) bounded as stated; the iterator path and metac_value_num assumed by the contracts C07 and C01 verify. Parameters of calls and long strings sampled natively.')

P('C15', 'Rendered strings show every value completely and deterministically',
  'The string rendered for a value contains every scalar and enumerator in the form C would print it, every member with its name in declaration order, every array element, the union member its handler selects, and (in deep mode) the content of every block a pointer leads to, correctly nested and never truncated, whatever its length; character arrays that hold a printable zero-terminated text are shown as string literals with the C escapes, NULL as NULL, unexplained pointers as addresses; a call is shown as name(parameters in order), a va_list as VA_LIST(...). '
  'In deep mode a pointer that leads back to a block being shown is refused (no string) instead of looping. The value is unchanged, the same value always gives the same text and nothing but the string stays allocated.',
  ['inputs', 'programs'], 'every value of every supported type; unions without a handler show no member', 'tests compare a few fixed outputs', ['src/value_string.c', 'src/value_base_type.c', 'src/value.c', 'include/metac/backend/string.h'],
  [('renderer', 'src/value_string.c'), ('scalars', 'src/value_base_type.c')],
  level='other', technique=TECHT,
  note='Every task of the rendering walk is verified against the text its parts contribute, for every kind of value, handler outcome and point of failure, with vsnprintf by ISO C and up to 3 parts (texts of parts by representatives; dsprintf for any characters); string literals for every char in every place of arrays of up to 3; whole texts are compared with those of an independent renderer for pseudo-random types, graphs and calls.')

P('C16', 'Generated declarations are valid C for the described type',
  'The declaration text generated for a type contains exactly one placeholder for the name and, with the name filled in, declares an object of exactly that type in C syntax; for a variable or function it contains the name instead and no placeholder. Names of any length are complete and nothing but the text stays allocated.',
  ['programs'], 'every composition of pointers, arrays, functions, const, volatile and restrict, typedefs, named and unnamed structs, unions and enums, bit-fields and variable parameter lists', 'tests list some declarations', ['src/entry_cdecl.c', 'include/metac/backend/string.h'],
  [('declarator construction', 'src/entry_cdecl.c')],
  level='other', technique=TECHT,
  note='Every task of the walk is verified against the declaration assembled from those of its parts, for every kind of entry and point of failure, with vsnprintf by ISO C and up to 3 members or parameters; whole declarations are read back by an independent parser of C declarations for pseudo-random types.')

P('C17', 'Database lookup by name and place finds exactly the described entry',
  'Looking up a variable by file, declaration location name and variable name returns its description exactly when the database holds one unambiguous entry for the three, and nothing otherwise, whatever the number of other files, locations and names.',
  ['inputs', 'configurations'], 'every sorted database and every query', 'tests query a few names in one generated database', ['src/entry_db.c'],
  [('three-level binary search', 'src/entry_db.c')],
  level='proof', technique=TECH,
  note='For databases of any size the C library bsearch is assumed by its ISO C contract, with its preconditions and the comparison functions checked; additionally every database of up to 3 items per level with names of up to 2 bytes is executed with a concrete bsearch, and large ones are sampled natively.')

P('C18', 'Running out of memory is reported without leak or corruption',
  'When an allocation fails at any point inside an operation of the library (hash map, tag map, iterator, tag contexts and handlers, capture of call parameters, deep copy, delete and comparison, strings of values and declarations), the operation either reports a failure or, if it did not need that memory, delivers exactly the result it would have delivered otherwise; it never reports success with a part missing. '
  'An operation that reports a failure has released everything it allocated (a deep copy through the caller\'s own free function), frees nothing else, does not crash, and leaves the values, maps and storages it was given usable; a deep delete that fails has freed nothing. The destination of a failed deep copy has no specified content.',
  ['fault_sequences'], 'every allocation site and every point of failure, every input of the operations', 'tests never inject allocation failure', ['src'],
  [('hash map', 'src/hashmap.c'), ('iterator', 'src/iterator.c'), ('tags and handlers', 'src/entry_tag.c'), ('captured parameters', 'src/value_with_args.c'), ('deep operations', 'src/value_deep.c'), ('strings', 'src/value_string.c'), ('declarations', 'src/entry_cdecl.c')],
  level='other', technique=TECHINV + '; deep operations, rendering and handlers by native execution with an allocation failing at every sampled point (bounded)',
  note='Proved for hash map, iterator, captured parameters, tag maps and contexts (every allocation may fail in those obligations); bounded for the rest.')

P('C30', 'Extracted descriptions match what the compiler emitted',
  'For every compiled program the extracted descriptions give the kinds, names, sizes, offsets, encodings and links that the DWARF data of the object file states, and duplicates from several compilation units are merged only when they are the same type.',
  ['programs'], 'every object file with DWARF 3, 4 or 5', 'tests run the extractor on a few programs', ['cmd', 'pkg'],
  [('DWARF reader and database builder (Go)', 'pkg')],
  na='The extractor is written in Go; no contract-based deductive verifier for Go (Gobra or the like) is installed and none can be fetched, so no contract can be discharged on that code.')
