import json, os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Map is an insertion-ordered dictionary under any hash seed and memory failure",
"A keyed map behaves as an insertion-ordered dictionary: lookups by key, by position and by value, inserts (duplicate keys refused), updates, removals by key and by position, growth, rehashing and clearing all agree with a plain ordered dictionary, for every history of operations, every initial capacity and every hash seed obtained from the clock and the random source. An operation that runs out of memory reports failure and leaves the map's observable contents exactly as they were and the map usable; a removed key is never found again and every other key still is. Once the map is cleared nothing it allocated is still held.",
["histories","fault_sequences","configurations"],
"All histories of insert/set/remove/lookup/rehash/clear over colliding and non-colliding non-empty keys and non-empty values of any length, all values of the clock and random source that seed the hash, and a memory failure at any allocation of any operation.",
"The map test inserts a handful of keys under one wall-clock seed, never removes then looks up colliding keys under other seeds, and never fails an allocation.",
["map/map.c","map/map.h","harbol_common_includes.h"],
[("open-addressed bucket index over parallel entry arrays","map/map.c:harbol_map_insert,harbol_map_get_entry_index"),("entry removal by shifting the parallel arrays","map/map.c:harbol_map_idx_rm; harbol_common_includes.h:multi_array_shift_up"),("all-or-nothing multi-buffer growth","harbol_common_includes.h:harbol_multi_recalloc"),("hash seed taken from time and rand","map/map.c:harbol_map_init")],
["return values of every public map operation","entry order and values read back by position and key after each step","live allocation count after clear"],
[("entries","keys, values, lengths in insertion order","map/map.h:struct HarbolMap")])

p("C02","Dynamic array matches a sequence model, atomic under memory failure",
"A growable array behaves as a sequence of fixed-size elements for every history of inserting, appending, popping, peeking, reading, writing, swapping, deleting by index, range or value, shifting, searching, counting, filling, copying, concatenating, growing, resizing and shrinking, whether or not growth moves its storage. An operation that runs out of memory or is given an out-of-range position reports failure and leaves the elements unchanged. The reported length never exceeds the reported capacity, no operation touches memory outside the array, and clearing releases everything.",
["histories","fault_sequences","inputs"],
"All operation histories over element sizes 1..64 bytes with any in-range or out-of-range position, and a memory failure at any allocation.",
"The tests run one short fixed script per operation with a single element type and no failing allocation.",
["array/array.c","array/array.h","harbol_common_includes.h"],
[("grow/resize/shrink through zeroing reallocation","array/array.c:harbol_array_grow,harbol_array_resize,harbol_array_shrink; harbol_common_includes.h:harbol_recalloc"),("element shifting on delete","harbol_common_includes.h:array_shift_up"),("bounds checks before access","array/array.c:harbol_array_get,harbol_array_set,harbol_array_del_by_range")],
["returned pointers, flags and copied-out elements","element bytes over the reported length after every step"],
[("table/cap/len","storage, capacity, element count","array/array.h:struct HarbolArray")])

p("C03","Deque matches a double-ended queue model, atomic under memory failure",
"A deque behaves as a double-ended queue for every history of pushing and popping at either end, peeking at either end, walking by node handle in both directions, resetting and growing: both walks visit exactly the live elements in order, and a handle keeps naming the same element until that element is removed. A push that runs out of memory reports failure and changes nothing. Draining, resetting or clearing releases every element, and the deque is reusable afterwards.",
["histories","fault_sequences"],
"All histories of front/back pushes and pops, resets and clears over any initial capacity, including draining to empty and refilling, with a memory failure at any allocation.",
"The test pushes a few elements and pops them once; it never empties and refills from the other end, recycles slots across growth, or fails an allocation.",
["deque/deque.c","deque/deque.h","harbol_common_includes.h"],
[("index-linked nodes with a free-slot chain","deque/deque.c:harbol_deque_append,harbol_deque_prepend,harbol_deque_pop_front,harbol_deque_pop_back"),("growth of three parallel arrays","deque/deque.c; harbol_common_includes.h:harbol_multi_recalloc")],
["popped values","forward and backward walks after each step","live allocation count"],
[("head/tail/freed","ends of the live list and of the free chain","deque/deque.h:struct HarbolDeque")])

p("C04","Strings stay NUL-terminated and length-exact, atomic under memory failure",
"For every history of building, appending, copying, formatting, replacing, removing, trimming, case-changing, reversing, searching and counting, a string's contents equal what a plain byte-string model gives, its reported length is exact and its text is terminated there, also for text that holds zero bytes in everything that goes by length, and no operation reads or writes outside its storage, also when its argument aliases the string itself. An operation that runs out of memory reports failure and leaves the string as it was. Clearing or freeing releases everything.",
["histories","fault_sequences","inputs"],
"All operation histories on NUL-free text of any length including empty and never-initialised strings, any replacement counts and ranges, and a memory failure at any allocation.",
"The test calls each operation once on a fixed sentence; multi-occurrence replacements, aliasing, empty strings and failing allocations are untouched.",
["str/str.c","str/str.h","harbol_common_includes.h"],
[("resize-then-write with terminator","harbol_common_includes.h:harbol_resize_string; str/str.c:harbol_string_add_cstr,harbol_string_copy_cstr"),("occurrence replacement and range replacement","str/str.c:harbol_string_replace_cstr,harbol_string_replace_range"),("two-pass formatting","str/str.c:harbol_string_format_va")],
["contents, reported length and terminator after every step","return values"],
[("cstr/len","heap text and its length","str/str.h:struct HarbolString")])

p("C05","Byte buffer matches a byte-sequence model through memory and disk failures",
"A byte buffer's contents after any history of inserting integers, floats, text, objects, zeros and other buffers, deleting ranges, copying and clearing equal the concatenation a plain byte sequence would hold (scalars in native byte order), with the reported length exact. Writing it to a stream reports success only if every byte was accepted by the stream, and loading a file appends exactly the file's bytes or reports failure and leaves the buffer as it was. A failed operation of any kind changes nothing and leaks nothing.",
["histories","fault_sequences"],
"All operation histories; memory failure at any allocation; short reads, read errors, seek errors, full disk, and files that change size while being read.",
"The test writes one buffer to a healthy disk and reads it back; no failing allocation, short read or full disk ever occurs.",
["bytebuffer/bytebuffer.c","bytebuffer/bytebuffer.h","harbol_common_includes.h"],
[("growth before insertion","bytebuffer/bytebuffer.c"),("whole-buffer stream write and load","bytebuffer/bytebuffer.c:harbol_bytebuffer_to_file,harbol_bytebuffer_insert_from_file,harbol_bytebuffer_insert_from_filename")],
["buffer bytes and length after every step","bytes on the simulated disk","return values"])

p("C06","Tree matches a rooted ordered tree model, atomic under memory failure",
"A tree behaves as a rooted, ordered tree of data nodes for every history of inserting children by value or by node, finding children by value or position, replacing a node's data, and removing children by value, node or position: siblings keep their order, the data read back is the data stored, and removing a child releases its whole subtree. An operation that runs out of memory reports failure, changes nothing and leaks nothing. Clearing the root releases the whole tree.",
["histories","fault_sequences"],
"All operation histories over trees of any shape with data of any non-zero size, and a memory failure at any allocation.",
"The test builds one two-level tree with one data size and never fails an allocation.",
["tree/tree.c","tree/tree.h","array/array.c"],
[("child array of owned nodes","tree/tree.c:harbol_tree_insert_val,harbol_tree_insert_node"),("recursive release","tree/tree.c:harbol_tree_clear,harbol_tree_rm_val,harbol_tree_rm_index")],
["full traversal after each step","live allocation count"])

p("C07","Tuples and variants keep field layout and values under memory failure",
"A tuple built from field sizes gives every field its own aligned, non-overlapping slot (or gap-free slots when packed), matching the layout of the corresponding C structure, and a stored field is read back unchanged whatever other fields are written afterwards. A variant always holds the last value successfully stored together with its size and type tag. Construction or an update that runs out of memory reports failure, leaves any previous value intact and leaks nothing.",
["histories","fault_sequences","inputs"],
"All field lists of supported sizes with total size under 64 KiB, all set/get histories, and a memory failure at any allocation.",
"The tests use two fixed field lists and one variant, and never fail an allocation.",
["tuple/tuple.c","tuple/tuple.h","variant/variant.c","variant/variant.h"],
[("offset computation with padding","tuple/tuple.c:harbol_tuple_init"),("bounds-checked field access","tuple/tuple.c:harbol_tuple_get,harbol_tuple_set"),("value replacement","variant/variant.c:harbol_variant_set")],
["field bytes after each write","structure export","variant data, size and tag"])

p("C08","Object pool hands out distinct zeroed blocks until exhausted",
"An object pool never hands out a block that is already in use or that overlaps another or lies outside the pool, hands out exactly as many blocks as its capacity before refusing, gives every block zero-filled, never alters the contents of blocks in use, and makes a returned block available again, for every interleaving of allocations and releases by any number of clients. Releasing a pointer that is null or outside the pool has no effect. Creation under memory failure reports failure and leaks nothing.",
["histories","schedules","fault_sequences"],
"All interleavings of allocate/release/write operations of several clients over pools of any block size of at least one machine word and any block count, heap-backed or caller-backed, and memory failure at creation.",
"The test allocates three objects in order and frees them once; release orders, exhaustion and interleaved clients are not explored.",
["allocators/objpool/objpool.c","allocators/objpool/objpool.h"],
[("in-band free list with lazy initialisation","allocators/objpool/objpool.c:harbol_objpool_alloc,harbol_objpool_free")],
["addresses and contents of every live block after each step","remaining capacity"],
[("next/free_blocks","free-list head and count","allocators/objpool/objpool.h")])

p("C09","Region and double-ended stack allocators never overlap or overrun",
"Memory handed out by a region or by either end of a double-ended stack allocator is zero-filled or untouched as documented, inside the backing buffer, large enough, and disjoint from every other piece still in use, for every history of allocations, resets and resizes; a request that does not fit, including an absurdly large one, is refused without changing anything. The reported remaining space accounts for what was handed out. Creation or resizing under memory failure is reported, leaves the allocator unchanged and leaks nothing.",
["histories","fault_sequences","inputs"],
"All histories of front/back allocations of any request size up to the maximum size value, resets, resizes and clears over heap-backed and caller-backed buffers, with memory failure at any allocation.",
"The tests make a few fitting allocations; near-full, oversized and interleaved front/back requests and failing resizes are not explored.",
["allocators/region/region.c","allocators/bistack/bistack.c"],
[("bump pointers with size alignment","allocators/region/region.c:harbol_region_alloc; allocators/bistack/bistack.c:harbol_bistack_alloc_front,harbol_bistack_alloc_back"),("margin check","allocators/bistack/bistack.c:harbol_bistack_get_margins")],
["addresses and fill patterns of all live pieces after each step"])

p("C10","Reading files into memory is truthful under short reads and I/O errors",
"Every operation that reads a file or stream into memory (raw buffer, text, string or code points) either reports failure or delivers exactly the bytes the device returned, with the exact length, however the device splits its reads. A missing, unreadable, unseekable or failing file, or a memory failure, is never reported as complete success with wrong, invented or uninitialised content. No file stays open and no memory stays allocated after a failure.",
["fault_sequences","inputs","schedules"],
"All file contents and sizes, all ways the device splits reads, read/seek/open errors at any point, files that shrink or grow between being measured and being read, and a memory failure at any allocation.",
"The tests only read small healthy files; the device never returns a short read or an error.",
["harbol_common_includes.h","str/str.c","lex/lex.c","bytebuffer/bytebuffer.c"],
[("measure, allocate, read","harbol_common_includes.h:get_file_size,make_buffer_from_file,make_buffer_from_binary,make_buffer_from_text"),("string load","str/str.c:harbol_string_read_from_file,harbol_string_read_file"),("code point load","lex/lex.c:runes_from_stream")],
["returned bytes and lengths against the bytes delivered by the simulated device","open handle count","live allocation count"])

p("C11","A saved configuration loads back identically, or the save reports failure",
"Saving a configuration to a file reports success only if every byte reached the file, and loading a file whose save was reported successful yields the same sections, keys, order, types and values (floating-point values to the printed precision; a number without a finite value makes the save fail); the same holds for rendering to text and parsing the text. With overwriting disabled whatever an existing file holds is kept and the configuration is appended after it. A save that fails for lack of disk space, memory, or an I/O error reports failure, leaks nothing, and leaves no file handle open.",
["fault_sequences","histories","crash_points"],
"All configurations built from any nesting of sections and any keys and text values free of the format's own control markers (<math, <enum>, <include>), saved with a disk error or disk-full at any byte, failing open or close, or memory failure at any allocation, then reloaded after any number of save/load cycles.",
"The test saves one fixed configuration to a healthy disk and prints it.",
["cfg/cfg.c","cfg/cfg.h"],
[("recursive text rendering","cfg/cfg.c:harbol_cfg_to_str"),("recursive file writing","cfg/cfg.c:harbol_cfg_build_file")],
["bytes on the simulated disk","return value","structural equality of reloaded configuration"])

p("C12","Parsing any damaged configuration file terminates cleanly and leaks nothing",
"Parsing a configuration whose text has been torn, truncated, bit-flipped, spliced or reordered at arbitrary points, which includes other files that are missing, failing, damaged or include each other, always terminates, never touches memory outside its own, and yields either a well-formed configuration that can be traversed, rendered and freed, or nothing. Undamaged input parses to exactly the values written in it and draws no complaint, text torn off at any byte keeps every setting that was complete (only a number may be cut short, nothing else appears, and a half written setting is complained about on the error stream), and a memory or read failure during parsing of the parsed file is reported by returning nothing rather than a silently incomplete configuration; an included file that cannot be read, or is already being parsed, is warned about and left out. In every case everything allocated is released when the result is freed and no file stays open.",
["inputs","fault_sequences","crash_points"],
"All damage (crash truncation point, torn and flipped bytes) to well-formed configuration files, all include graphs, read/open/seek errors and short reads, and a memory failure at any allocation of the parse.",
"The test parses one healthy file and a few fixed fragments.",
["cfg/cfg.c","lex/lex.c","math/math_parser.c","map/map.c"],
[("recursive-descent parser with error exits","cfg/cfg.c:harbol_cfg_parse_cstr,harbol_cfg_parse_file"),("string and number lexing","lex/lex.c"),("recursive free","cfg/cfg.c:harbol_cfg_free")],
["returned structure","bounded step count","live allocations and open handles"])

p("C13","Typed configuration access by path is exact and atomic under memory failure",
"Reading a setting by its dotted path returns a value only when a value of exactly that type exists there, and writing a setting by path afterwards reads back as written, changes no other setting, refuses to change a setting's type unless conversion was requested, and never creates a setting. A write that runs out of memory reports failure and leaves the whole configuration, including the target setting, as it was. Nothing is leaked once the configuration is freed.",
["histories","fault_sequences","inputs"],
"All histories of typed reads, writes, conversions and null-settings over any nested configuration and any path, existing or not, with a memory failure at any allocation.",
"The test sets a few known paths once on one fixed configuration.",
["cfg/cfg.c","cfg/cfg.h","map/map.c","variant/variant.c"],
[("path resolution","cfg/cfg.c:_get_var and harbol_cfg_get_*"),("typed store with optional conversion","cfg/cfg.c:harbol_cfg_set_*")],
["all paths read back after each step","return values","live allocation count"])

p("C14","Plugin lifecycle balances every load and reports failures and changes truthfully",
"For every history of loading, symbol lookup, change detection, reloading and unloading, each successful load is matched by exactly one close by the time the plugin is cleared, the load and unload callbacks run exactly when documented with the right reloading flag, and every lookup goes to the library currently loaded. A failed load, reload or memory allocation is reported, leaves a plugin that can be safely cleared or retried, and leaks no handle or memory. A change is reported exactly when the file's modification time differs from that of the last successful load or change report, whichever way the clock moved.",
["histories","fault_sequences"],
"All operation histories, library load and lookup failures, file status failures, clock jumps in either direction of the file's modification time, and memory failures.",
"The test loads one plugin that always loads, never fails a load or a reload, and cannot move file times or exhaust memory.",
["plugins/plugins.c","plugins/plugins.h"],
[("load/clear/reload state machine","plugins/plugins.c:harbol_plugin_load,harbol_plugin_clear,harbol_plugin_reload"),("modification time comparison","plugins/plugins.c:harbol_plugin_changed")],
["simulated dynamic-loader handle table","callback log","simulated file times"])

p("C15","Plugin directory scan visits each matching file once despite failures",
"Scanning a plugin directory calls the visitor exactly once for every regular file with the wanted extension in the directory and the directories below it, with its correct path and name, and never for directories or other files, in whatever order the directory lists its entries and however deep directories are nested (as far as paths go), and always terminates: where a link leads back into a directory that is being scanned, it is not entered again, and no path is visited twice. An entry whose status cannot be read is skipped without affecting the others, and a directory that cannot be opened is reported as failure without any visit. No directory handle stays open afterwards.",
["inputs","fault_sequences","schedules"],
"All directory contents and listing orders, wanted extensions, and failures of opening, listing or entry status at any point.",
"The test scans one real directory with a fixed, healthy listing.",
["plugins/plugins.c","plugins/tinydir.h"],
[("directory iteration","plugins/plugins.c:harbol_plugin_dir_open; plugins/tinydir.h")],
["visitor log","simulated directory handle count","bounded step count"])

p("C16","Diagnostics render every label and note or fail cleanly, on any stream",
"A diagnostic built from source text shows each labelled source line and each message for the span it was given, counts exactly one emitted message per emission, and shows the source's lines as they are (line ends unified, each tab as four spaces). Under memory failure, an unreadable source file or a failing output stream, construction and labelling report failure, emission terminates without touching foreign memory, and nothing is leaked when the diagnostic is cleared. A one-line message writes exactly the documented text to its stream.",
["fault_sequences","inputs","histories"],
"All source texts and valid spans, all orders of adding labels and notes and emitting, output streams failing at any byte, unreadable sources, and a memory failure at any allocation.",
"The test emits two fixed diagnostics to the terminal.",
["msg_span/msg_span.c","msg_sys/msg_sys.c"],
[("line splitting","msg_span/msg_span.c:harbol_msg_span_init"),("label rendering","msg_span/msg_span.c:harbol_msg_span_emit_to_stream"),("message header","msg_sys/msg_sys.c:harbol_write_msg")],
["bytes delivered to the simulated stream","message counter","live allocation count"])

p("C17","Independent objects used from different threads never affect each other",
"Threads that each work only on their own objects (containers, strings, configurations, parsers, renderers, expression evaluation, generators and allocators) observe exactly the results they would observe running alone, for every interleaving of the threads, including when one thread's allocations fail. In particular no operation keeps hidden state between or across calls that another thread's or a later call's result depends on.",
["schedules","histories","fault_sequences"],
"All interleavings, at any instruction block, of threads working on disjoint objects, with memory failures confined to some of the threads.",
"All tests are single-threaded.",
["cfg/cfg.c","map/map.c","str/str.c","lex/lex.c","math/math_parser.c","array/array.c","deque/deque.c","mtwister/mtwister.h"],
[("all state reachable from the caller's object","whole library"),("recursive rendering without shared indentation state","cfg/cfg.c:harbol_cfg_to_str")],
["per-thread result log against the same thread run alone"])

p("C18","Lexing and decoding of cut or corrupted text is contained and loss-free",
"Skipping, lexing and UTF-8 decoding of text that was cut off or corrupted at an arbitrary byte never reads beyond the text's terminator and always makes a defined stopping point inside the text available; undamaged text is decoded and re-encoded without loss. When memory runs out while a token or code point sequence is being collected, the operation reports failure and never reports success with a shortened token. Nothing is leaked.",
["inputs","fault_sequences","crash_points"],
"All truncation points and byte corruptions of texts holding comments, quoted strings, escapes, numbers, identifiers and multi-byte characters, and a memory failure at any allocation.",
"The tests lex fixed healthy literals only.",
["lex/lex.c","lex/lex.h"],
[("terminator checks in scanners","lex/lex.c:skip_*,clear_*,lex_*"),("length-checked UTF-8 decoding","lex/lex.c:read_utf8,utf8_cstr_to_rune,get_str_rune_len")],
["end pointers, tokens, code points","memory accesses past the terminator"])

p("C19","Memory pool allocations never overlap and survive exhaustion and reuse",
"Memory handed out by a memory pool lies inside the pool, is zero-filled, is at least as large as requested and disjoint from every other live piece, whose contents no operation alters, for every interleaving of allocations, resizes and releases by any number of clients; resizing preserves the common prefix. A request that does not fit, a foreign pointer or an already released one is refused without damage, a request that fits into unused memory, into a hole just released or into two released neighbours is served, the remaining space accounts for what is handed out, and releasing everything makes the space allocatable again. Creation under memory failure is reported and leaks nothing.",
["histories","schedules","fault_sequences"],
"All interleavings of allocate, resize, release of several clients over pools of any size, heap-backed or caller-backed, up to and past exhaustion.",
"The pool's own test program does not even link in this tree, so nothing samples it.",
["allocators/mempool/mempool.c","allocators/mempool/mempool.h","allocators/region/region.c"],
[("size-sorted free lists with splitting","allocators/mempool/mempool.c:harbol_freelist_insert,harbol_mempool_alloc,harbol_mempool_free")],
["addresses and contents of every live piece after each step"])

p("C20","Number lexing accepts exactly the documented literal grammar",
"Lexing a numeric literal in either supported style accepts exactly the documented grammar (prefixes, digit separators, exponents, suffixes) and the conversion yields the literal's value.",
["inputs"],"All literal texts.","The tests lex a fixed list of literals.",
["lex/lex.c","lex/lex.h"],[("number lexers","lex/lex.c:lex_c_style_number,lex_go_style_number,convert_*")],["token text, error code, value"])

p("C21","Math expressions evaluate exactly under any resolver; damaged ones are contained",
"Evaluating an arithmetic expression yields the value its grammar defines, honouring precedence, associativity, brackets, constants, built-in functions and caller-supplied names, whatever the caller's resolver does: every name is resolved exactly once, in the order the evaluation reaches it, with its complete text and the caller's data, functions are applied to the arguments the grammar gives them, and a resolver or function may keep state or evaluate other expressions in the middle. Text that is cut off, corrupted or nested without end always terminates, never reads outside the expression or alters it, and asks only about names that are in it.",
["inputs","histories"],"All expressions of the documented grammar (unary plus over values that are not negative), all resolver behaviours (known values, functions, unknown names, a function announced but not given, one offered but not announced, state kept between calls, re-entrant evaluation), and any damage to the text.","The tests evaluate a fixed list of expressions with one stateless resolver.",
["math/math_parser.c","math/math_parser.h"],[("recursive descent evaluator","math/math_parser.c:harbol_math_parse_expr"),("tokeniser","math/math_parser.c:_harbol_math_get_token"),("resolver protocol","math/math_parser.h:HarbolMathVarFunc")],["returned value","resolver and function calls","expression text"])

p("C22","Mersenne twister reproduces the reference sequence for every seed",
"The pseudo-random generator yields the published reference sequence for every seed and its derived ranges stay within the requested bounds.",
["inputs"],"All seeds and draw counts.","No test compares against the reference sequence.",
["mtwister/mtwister.h"],[("state recurrence and tempering","mtwister/mtwister.h")],["drawn values"])

p("C23","Integer helper utilities compute their documented functions",
"Bit, alignment, bounds, power-of-two and hash helpers return their documented mathematical result for every argument.",
["inputs"],"All argument values.","No test covers the helpers directly.",
["harbol_common_includes.h"],[("helpers","harbol_common_includes.h:harbol_align_size,harbol_pad_size,int_log2,bitwise_ceil,is_*_in_bounds")],["returned value"])

p("C24","Shared buffer helpers keep every buffer intact through memory failures",
"The buffer helpers every container is built on behave as documented for every history of use: buffers made together exist all or none, resized together they all take the new size or all stay exactly as they were, grown parts are zero-filled and kept parts unchanged, removing elements from one or from several parallel buffers closes the gap and zero-fills what it frees, and released buffers leave no reference behind. Copies of data and text and formatted text are complete, terminated and independent of what they were made from. Under a memory failure, or for a size that cannot be represented, the operation reports failure, changes nothing and leaks nothing.",
["histories","fault_sequences","configurations"],"All histories of making, growing, shrinking, shifting, writing and releasing up to six parallel buffers of any element sizes and lengths (also absurdly large ones), of resizing text, and of copying and formatting, with a memory failure at any allocation and blocks that do or do not move.","The tests use the helpers only through containers, with an allocator that never fails.",
["harbol_common_includes.h"],[("resizing","harbol_common_includes.h:harbol_recalloc,harbol_multi_calloc,harbol_multi_recalloc,harbol_resize_string"),("shifting","harbol_common_includes.h:array_shift_up,multi_array_shift_up"),("copies","harbol_common_includes.h:dup_data,dup_cstr,sprintf_alloc"),("release","harbol_common_includes.h:harbol_cleanup,harbol_multi_cleanup")],["buffer contents and sizes","return values","live blocks"])

p("C25","Intrusive lists hold exactly their nodes, in order, through any shared history",
"Nodes embedded in a user's own structures and linked with the intrusive single, double and triple links form exactly the sequence their history built, whatever list a node was in before and whatever its links still contain: adding at the head, at the tail or after a node puts it there and nowhere else, removing takes out that node only, walking forward ends after the last node, walking backward visits the same nodes in reverse, and head and tail always name the first and the last node, or nothing. Other links of a node and the data around them are never touched, and a client that stands in the middle of a walk goes on correctly while others add and remove.",
["histories","schedules"],"All histories of several clients adding, removing and moving nodes between several lists, with and without a tail, with nodes that are new, reused or hold stale links.","No test uses the intrusive lists.",
["harbol_common_includes.h"],[("single links","harbol_common_includes.h:harbol_link_add_after,harbol_link_add_to_head,harbol_link_add_to_tail"),("double links","harbol_common_includes.h:harbol_bilink_add_after,harbol_bilink_add_to_head,harbol_bilink_add_to_tail,harbol_bilink_remove"),("third link","harbol_common_includes.h:harbol_trilink_get_c,harbol_trilink_set_c")],["order of every list in both directions","heads and tails","node data"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
