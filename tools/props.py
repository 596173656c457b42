"""The properties and what decides them; tools/mkmeta.py writes properties.jsonl and MANIFEST.json from here."""
PROPS = []
HOOKS = None
NOTES = ("TLA+ with TLC throughout. spec/ holds one specification per component with an exhaustively checked model, a "
         "small graph model whose transitions are replayed into the real code, and a trace specification that judges "
         "every recorded call. See DESIGN.md; known findings and repaired defects are in known_findings.txt.")
TECH = "TLA+ spec, TLC model checking, spec-generated behaviours replayed and recorded traces validated against the spec"


def P(id, title, statement, over, quant, why, files, mech, note, level="model_checking", technique=TECH, observe=None,
      na=None):
    PROPS.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None),
        technique=technique, level=level, level_note=note, not_applicable=na))


BIND = ("Exhaustive over the model's small constants; the code is bound by replaying every transition of the small model "
        "and by validating seeded random histories, so it covers the executions generated, under AddressSanitizer. ")

P("C01", "Hash tables answer every call as a finite map would",
  "After any sequence of set, get, delete, iterate and copy calls, a table answers each call exactly as a map from keys "
  "to values: a plain table refuses a second value for a key, a table that allows duplicates treats each key's values as a "
  "stack with the newest on top, and deletion affects only the named entry. A get or delete "
  "that finds nothing answers NULL with errno ENOENT, one that finds a NULL value does not. Iteration visits every entry exactly once "
  "(also when the callback deletes the entry it is visiting), stops with the callback's non-zero result, and copying adds "
  "the source's entries without changing the source. None of this depends on key kind, size hint, bucket count, hash "
  "function or on which keys collide.",
  ["inputs", "histories", "configurations"],
  "every call history over every key type, hash/compare pair, size hint and flag combination",
  "The table test sets and gets a fixed list of keys in one table size with little collision, and never deletes from the "
  "middle of a chain, iterates while deleting, or uses the hint and duplicate flags together.",
  ["src/libzt/zt_table.c", "src/libzt/zt_table.h"],
  [("bucket chains, push-front insertion", "zt_table_set"), ("predecessor tracking", "zt_table_del"),
   ("per-bucket walk", "zt_table_for_each"), ("bucket rounding", "zt_table_init")],
  BIND + "TableImpl shows the bucket-chain algorithm refines the map. Trusts the driver's hash/compare wrappers.")

P("C02", "Sets behave as mathematical sets",
  "Insert, remove, membership, size, iteration, subset and equality on a set agree with those of a finite set of values "
  "after any history. Union, intersection and difference add exactly the elements of that combination to the destination "
  "and leave the operands alone, and destroying a set hands each element to the destructor exactly once.",
  ["inputs", "histories"],
  "every history of operations over any number of sets, including operands that overlap, are empty or already share "
  "elements with the destination",
  "The set test builds two small disjoint-ish sets once and checks a few memberships; removal and non-empty destinations "
  "are not covered.",
  ["src/libzt/zt_set.c", "src/libzt/zt_set.h", "src/libzt/zt_table.c"],
  [("one table entry per element", "zt_set_insert"), ("iterator callbacks", "zt_set_union, zt_set_intersection, "
    "zt_set_difference")],
  BIND + "Elements are integers by value and pointers by identity, the two ways the API identifies them.")

P("C03", "Red-black trees are ordered, balanced maps under any history",
  "After any sequence of insertions and removals the tree contains exactly the nodes inserted and not removed, in-order "
  "iteration from the first to the last (and back) lists them in key order, and searches find a key exactly when it is "
  "present. Inserting a key that is already present leaves the tree unchanged and returns the resident node. The tree keeps the "
  "red-black balance rules, so its height stays within twice the logarithm of its size.",
  ["inputs", "histories"],
  "every insertion/removal history over every set of keys",
  "The red-black test inserts and removes a fixed small set and prints; rebalancing cases on removal depend on the exact "
  "history and are reached only by accident.",
  ["src/libzt/zt_tree.c", "src/libzt/zt_tree.h"],
  [("insertion repair", "zt_rbtree_insert"), ("removal repair", "zt_rbtree_remove"), ("neighbour walk",
    "zt_rbtree_next, zt_rbtree_prev")],
  BIND + "The driver reads shape and colours through the public node fields.")

P("C04", "Intrusive lists, stacks and queues keep their order and lose nothing",
  "After any history of adding at either end, removing, joining lists and iterating, a list holds exactly the elements put "
  "in and not taken out, in the order the calls imply, and forward, backward and removal-safe iteration all visit exactly "
  "those. Stacks return elements last-in first-out, queues first-in first-out, an empty one reports that it is empty, and "
  "joining a list moves all of its elements and never corrupts either list.",
  ["histories"],
  "every history over several lists, including empty ones and iteration that removes the visited element",
  "The list tests use one short fixed sequence each and never join an empty list or dequeue from an empty queue.",
  ["src/libzt/zt_list.h", "src/libzt/zt_stack.h", "src/libzt/zt_queue.h"],
  [("circular doubly linked nodes", "zt_elist_add, zt_elist_remove, zt_elist_join"),
   ("wrappers", "zt_stack_pop, zt_queue_dequeue")],
  BIND)

P("C05", "Linked lists: sort, merge, split and reverse preserve the values",
  "Pushing, popping, moving pairs, indexing and reversing a linked list act on it exactly as on a sequence of values. "
  "Sorting yields a permutation of the same values in non-decreasing order, merging two sorted lists yields a sorted list "
  "of all their values, and splitting leaves the longer front half in place and returns the rest. No operation loses, "
  "duplicates or invents a value, whatever the length, order or number of equal keys.",
  ["inputs", "histories"],
  "every list content and every history, for strict and non-strict comparison functions",
  "The linked-list test sorts and reverses one or two hand-made lists; odd lengths, ties, already sorted and long inputs "
  "take other paths through split and merge.",
  ["src/libzt/zt_llist.c", "src/libzt/zt_llist.h"],
  [("merge sort over split", "zt_llist_sort"), ("destructive merge", "zt_llist_nmerge"), ("slow/fast walk",
    "zt_llist_split")],
  BIND + "Stability is not claimed; merge is claimed for sorted inputs and split for lists of at least two pairs.")

P("C06", "Memory pools never hand out overlapping or lost elements",
  "Every element a pool hands out is storage of at least the pool's element size inside one of its pages, distinct "
  "from every element not yet given back, and its contents stay intact until it is given back, whatever other elements are "
  "allocated or freed meanwhile. A new page is taken only when no existing page has room and an emptied page is returned "
  "exactly when the release policy (or release callback) says so; a failed allocation yields NULL and changes nothing. The "
  "statistics always agree with the pages and elements outstanding; a pool is found by exactly its own name, and a "
  "group serves a request from its pool of the closest sufficient size (NULL when it is too large); destroying pools returns their pages. "
  "A display of a pool, a group or all pools reports the same numbers and changes nothing; a heap is one named block of its own.",
  ["histories", "configurations", "fault_sequences"],
  "every history of allocations and frees over every element size, page capacity, free policy and failing page allocation",
  "The memory test allocates and frees one fixed sequence from one or two pools and never has an allocation fail; a page "
  "returned or refilled at the wrong moment shows only for particular interleavings of frees over several pages.",
  ["src/libzt/zt_mem.c", "src/libzt/zt_mem.h"],
  [("page free lists", "zt_mem_pool_alloc, zt_mem_pool_release"), ("page pressure policy", "zt_default_release_test"),
   ("size classes", "zt_mem_pool_group_alloc, zt_mem_pool_group_init")],
  BIND + "Pages are observed by wrapping malloc and free at link time; the value passed to release callbacks is not claimed.")

P("C07", "Hierarchical pools free exactly what was allocated below them",
  "Every chunk belonging to a pool (allocated, a copied string, or an existing buffer added to it) keeps its contents until "
  "its pool is destroyed. Destroying a pool destroys every subpool below it, frees each of their chunks exactly once (through "
  "its own callback when it has one, else free) and touches nothing else: its parent, siblings and their chunks stay usable.",
  ["histories"],
  "every history of allocating, adding buffers, creating subpools and destroying pools, over any tree of pools",
  "The ez_mempool test builds one small tree and destroys it from the top; destroying an inner subpool and continuing to use "
  "the rest is not exercised, and nothing counts the frees.",
  ["src/libzt/zt_ez_mempool.c", "src/libzt/zt_ez_mempool.h"],
  [("chunk list", "zt_ez_mempool_alloc, zt_ez_mempool_add_buffer"), ("subpool links", "zt_ez_mempool_init, zt_ez_mempool_destroy")],
  BIND + "All heap traffic of the library is counted by link-time wrappers.")

P("C08", "The garbage collector frees garbage and never anything reachable",
  "An object reachable from a protected object is never released, even when references change between incremental marking "
  "steps, provided stored references are reported with zt_gc_mark, and a newly registered object is safe until the next "
  "collection or registration; nothing is released while collection is disabled; an object that became unreachable is released within three full "
  "collections, and enough partial ones alone release it as well. One incremental step marks no more objects than configured; a "
  "step is taken by itself when as many objects as configured were registered since the last one. Every registered object is passed to the "
  "release callback exactly once over the collector's life, at the latest when it is destroyed.",
  ["histories", "schedules"],
  "every history of allocations, mutations of the object graph, full and partial collections, enabling and disabling, over "
  "every graph shape and collector parameter",
  "The gc test builds one object graph and runs collections without mutating the graph between partial scans.",
  ["src/libzt/zt_gc.c", "src/libzt/zt_gc.h"],
  [("tri-colour lists", "zt_gc_register, zt_gc_collect"), ("incremental marking", "zt_gc_collect (partial)"),
   ("write barrier", "zt_gc_mark"), ("colour switch and sweep", "zt_gc_switch, zt_gc_free_white")],
  BIND + "GcImpl shows the tri-colour algorithm refines the reachability specification.")

P("C09", "Byte buffers are lossless FIFO streams",
  "What is added to a buffer (bytes, formatted text, another buffer, or written in place through its tail) comes out of it "
  "byte for byte in order: its contents after any history are those added and not yet drained, its length is their number. "
  "Searching finds the first occurrence or reports none, removing reads the oldest bytes, reserving or expanding leaves at "
  "least the requested space without changing the contents, the reported free space is really writable, a failed growth is "
  "reported and changes nothing, and freeing the buffer returns all of its memory.",
  ["inputs", "histories", "fault_sequences"],
  "every history of adds, drains, removals, reservations and failing allocations, for every size of data",
  "There is one short buffer test with small sizes; the mix of drained space in front, realignment and growth depends on "
  "the order and sizes of calls.",
  ["src/libzt/zt_buf.c", "src/libzt/zt_buf.h"],
  [("drained prefix and realignment", "zt_buf_align, zt_buf_expand"), ("drain", "zt_buf_drain")],
  BIND + "Allocation failure is injected by wrapping malloc and realloc.")

P("C10", "Arrays keep their elements under put, get, resize and copy",
  "An array returns for each index the last element put there, zero for elements never put. Resizing keeps the elements that "
  "still fit and zero-fills new ones, a copy equals its original and is independent of it, replacing the data makes the "
  "array hold exactly that data, setting the length never loses the kept elements, and all memory is given back when the "
  "array is freed.",
  ["inputs", "histories"],
  "every element size, length and history of puts, gets, resizes, copies and replacements",
  "The array test fills one array of one element size and never resizes it repeatedly or copies it and then writes to both.",
  ["src/libzt/zt_array.c", "src/libzt/zt_array.h"],
  [("element addressing", "zt_array_put, zt_array_get"), ("growth and zero fill", "zt_array_resize, zt_array_copy")],
  BIND + "Indexes within the length, as the interface requires.")

P("C11", "Pointer arrays keep order and own exactly the members they hold",
  "A pointer array is a sequence: adding appends (NULL is ignored), deleting a member removes every occurrence and calls the "
  "free callback once per occurrence, moving a member to another index, concatenating an array and copying out act as on "
  "sequences, and an index outside the array is refused. Growing or shrinking capacity never changes the contents. Members are released exactly once, "
  "by the callback when one is set, when they are deleted or the array is freed with its members, and never otherwise.",
  ["histories"],
  "every history over several arrays, including duplicates, an array concatenated with itself and repeated resizing",
  "The pointer-array test adds a few distinct members and deletes one; duplicates, growth boundaries and resizing below the "
  "contents are not covered.",
  ["src/libzt/zt_ptr_array.c", "src/libzt/zt_ptr_array.h"],
  [("compacting removal", "zt_ptr_array_del"), ("capacity", "zt_ptr_array_resize"), ("move and cat",
    "zt_ptr_array_move_idx_to_idx, zt_ptr_array_cat")],
  BIND + "The order of the members left after a deletion is not claimed.")

P("C12", "Binary streams read back what was written, in either byte order",
  "A stream is a byte tape with one position: writes put their bytes at the position, overwriting or extending the tape, and "
  "reads return what was written there, for every width of integer, float and raw block. With the byte order flipped every "
  "value is stored reversed, so that reading with the same setting returns it unchanged and with the other returns it "
  "byte-swapped. Rewinding, truncating and cloning do exactly that; a clone is independent and keeps the byte order.",
  ["inputs", "histories"],
  "every interleaving of typed writes, reads, rewinds, truncations, clones and byte-order changes, for all values",
  "The stream test writes a few values and reads them back once; overwriting in the middle, clones and switched byte order "
  "on partly read streams are other histories.",
  ["src/libzt/zt_bstream.c", "src/libzt/zt_bstream.h"],
  [("array-backed tape", "zt_bstream_write, zt_bstream_read"), ("byte swapping", "_array_put_rev, _array_get_rev"),
   ("truncate", "zt_bstream_truncate")],
  BIND + "Reads stay inside what has been written, as the interface requires.")

P("C13", "Configuration files are read as written, or refused",
  "Parsing an INI-style file yields exactly the blocks and variables it defines, with integer, float, boolean, string and "
  "reference typing by the text of the value, quotes protecting ; and #, comments and blank lines ignored, and the last "
  "definition of a name winning; references to existing variables follow later changes of them. A malformed or overlong "
  "line is refused as a whole file, never a crash or an endless loop; getting with the right type returns the value, with a "
  "wrong type or a missing name it fails and leaves the caller's variable alone; setting adds or replaces one variable; calls "
  "without a configuration do nothing.",
  ["inputs", "histories"],
  "every file content and every history of get and set calls",
  "The configuration test reads one well-formed example file.",
  ["src/libzt/zt_cfg.c", "src/libzt/zt_cfg/cfg_ini.c", "src/libzt/zt_cfg/cfg_private.c", "src/libzt/zt_cfg.h"],
  [("line parser", "zt_cfg/cfg_ini.c"), ("typing", "get_type"), ("references", "zt_cfg_priv_set, zt_cfg_priv_get")],
  BIND + "The grammar is specified in TLA+ over character codes, including number text. Number formats outside C's int and "
  "float syntax and the exact longest line are not relied upon.")

P("C14", "Command lines are processed as documented, or the error is reported",
  "Each option of a command line acts on exactly its own variable: a long option takes its value after '=' or from the next "
  "argument, a short one attached, after '=' or from the next argument, and short flags may be grouped, the last one taking a "
  "value; processing stops at the first argument that is no option and tells how many were used. An unknown option, a "
  "missing value, an invalid number or boolean and a number out of range are reported to the error function, as are "
  "definitions without a name or help, with invalid or repeated names; the usage text shows every option and all the words "
  "of its help, wrapped to the screen.",
  ["inputs", "configurations"],
  "every set of option definitions and every argument vector",
  "The option test processes one fixed command line against one definition table.",
  ["src/libzt/zt_opts.c", "src/libzt/zt_opts.h"],
  [("argument walk", "zt_opt_process_args"), ("value lookup", "zt_opt_get_value"), ("conversions",
    "zt_opt_long, zt_opt_intmax, zt_opt_bool_int"), ("definition check", "zt_opt_validate_default")],
  BIND + "A long name written with a single dash is left open; names begin with a letter or digit.")

P("C15", "Thread pools process each item exactly once and shut down under every schedule",
  "Every item inserted before the pool is killed is taken by exactly one input worker, its result is handed exactly once to "
  "an output worker, and the finalizer runs when a callback asks for it; items are taken in the order inserted. A worker "
  "that waits is woken when there is work, so nothing stays in a queue while a thread sleeps; and killing the pool returns "
  "under every schedule, with every thread ended, every queue drained and no callback running afterwards. A pool that "
  "cannot be initialised gives back all it took.",
  ["schedules", "histories"],
  "every interleaving of inserting, working and killing threads, for every number of threads and kind of pool",
  "The thread test inserts a few items under whatever schedule the machine happens to give.",
  ["src/libzt/zt_threads.c", "src/libzt/zt_threads.h", "src/libzt/zt_threads"],
  [("queues and workers", "zt_threadpool_input_worker, zt_threadpool_output_worker"), ("insert", "zt_threadpool_insert_iput"),
   ("shutdown", "zt_threadpool_kill"), ("primitive indirection", "zt_threads_lock, zt_threads_cond_wait")],
  "ThreadPool.tla states the pool's observable behaviour, ThreadPoolImpl.tla its algorithm (locks, conditions, queues), "
  "checked by TLC to refine it and to terminate under weak fairness. The real pool runs under a deterministic scheduler "
  "(its own pluggable thread primitives) on schedules generated from the specification and at random, and on real threads; "
  "every recorded history is checked against the specification. Inserting after kill, and output workers that feed the "
  "input queue, are not claimed.")

P("C16", "Log messages are written whole, filtered by level, with the requested parts",
  "A message is written exactly when its level is at most the logger's level, as one whole line, once, and is in its file when the call returns: the parts its options ask for (date, host, "
  "program, process id, level), source position if debugging information was set for this very call by this thread, then "
  "the formatted text. Files are appended to or overwritten as asked, several threads may write at once with lines whole "
  "and each thread's in order, system-log messages get the matching priority, and error messages end with the error's text; "
  "without a logger the default one is used, made on demand for standard error; closing a logger releases it and its file once; one that "
  "cannot be opened is refused and keeps nothing.",
  ["histories", "inputs", "schedules"],
  "every history of opening, configuring, writing and closing loggers, all texts, with several writing threads",
  "The log test writes some messages and looks at no output; option combinations, percent signs in names and failure to open "
  "are not exercised.",
  ["src/libzt/zt_log.c", "src/libzt/zt_log.h", "src/libzt/zt_log"],
  [("line assembly", "zt_log_gen_fmt, zt_log_vprintf"), ("default logger", "zt_log_logger"), ("file logger", "zt_log_file"),
   ("debug info", "zt_log_set_debug_info")],
  BIND + "The environment (host name, clock, process id, syslog) is replaced by recorded stand-ins.")

P("C17", "IPv4 tables find exactly the networks that contain an address",
  "A search of a table answers with one of that table's networks that contains the network asked for, and answers with none "
  "only if none does, whatever the table's size, the prefix lengths in it and the other tables alive; the network of all "
  "addresses answers everything. A network's address, mask and broadcast address follow from its text; prefix lengths over "
  "32 count as 32; text that is no address or prefix length is refused; lookups keep no memory, and destroying a table gives "
  "back all of it.",
  ["inputs", "histories"],
  "every history of additions and searches over several tables of any size, for all texts",
  "The test adds seven fixed networks to one table of 1024 slots.",
  ["src/libzt/zt_ipv4_tbl.c", "src/libzt/zt_ipv4_tbl.h"],
  [("search by prefix length", "zt_ipv4_tbl_search_node"), ("insertion", "zt_ipv4_tbl_add_node"), ("text to network", "zt_ipv4_str2net"),
   ("element pools", "zt_ipv4_tbl_init")],
  BIND + "Networks are bit prefixes in the specification; Ipv4Impl.tla states the bucket search and is checked to refine it. "
  "Which containing network answers is not claimed, nor are octal, hexadecimal and shortened addresses.")

P("C18", "Base 64, 32 and 16 encoding and decoding are inverse and follow the alphabets",
  "Encoding data gives the text its alphabet and padding rules define, and decoding that text gives back exactly the data, for "
  "every length and byte. Decoding skips blanks, line breaks and padding; text with a character outside the alphabet or an "
  "incomplete hexadecimal pair is refused. A size asked for beforehand is enough, a buffer that is too small is reported and "
  "not written past, and a missing buffer with a length is refused.",
  ["inputs"],
  "every byte string and text, every alphabet, padding choice and buffer size",
  "The test encodes and decodes the RFC examples with sufficient buffers.",
  ["src/libzt/zt_base.c", "src/libzt/zt_base.h"],
  [("encoding by groups", "zt_base_encode"), ("decoding by groups", "zt_base_decode"), ("size queries", "zt_base_encode and zt_base_decode without output")],
  BIND + "Which bits of an incomplete last group are ignored is not claimed beyond the data's own.")

P("C19", "Identifiers are unique, name-based ones reproducible, their text forms exact",
  "Random identifiers carry version 4 and differ from each other, whichever threads, forked children or other processes make "
  "them. Name-based ones are the SHA-1 of name space and name with version 5; each identifier has one text of each of four "
  "forms, which reads back as the same identifier; other text is refused. Buffers are filled only when large enough and the "
  "size needed is reported; comparison is a total order.",
  ["inputs", "schedules", "histories"],
  "every identifier and text, name and name space; every mix of threads and processes that generate",
  "The test round-trips some identifiers in one thread and compares a few well-known ones.",
  ["src/libzt/zt_uuid.c", "src/libzt/zt_uuid.h"],
  [("random identifiers", "zt_uuid4"), ("per-thread state", "zt_uuid4_get_ctx"), ("name-based identifiers", "zt_uuid5"),
   ("base 62", "base62_encode_int64, base62_decode_int64"), ("text forms", "zt_uuid_fillstr, zt_uuid_fromstr, zt_uuid_isvalid")],
  BIND + "Uniqueness is checked on everything generated in a run, not proved. Whether validity checking refuses base 62 text for "
  "more than 128 bits is left open; reading it must.")

P("C20", "SHA-1 digests depend on the message only, however it is fed",
  "The digest is the SHA-1 of the whole message however it was cut into updates, with other hashes computed at the same time, "
  "for every length including beyond 2^32 bits and 2^32 bytes; hashing leaves the caller's data as it was. A digest's text is its 40 "
  "hexadecimal digits, terminated, and reads back as the digest.",
  ["inputs", "histories"],
  "every message, cutting and interleaving of contexts",
  "The test hashes the three standard messages, each fed at once.",
  ["src/libzt/zt_sha1.c", "src/libzt/zt_sha1.h"],
  [("buffering", "zt_sha1_update"), ("padding and length", "zt_sha1_finalize"), ("rounds", "_sha1_transform"), ("text", "zt_sha1_tostr, zt_str_tosha1")],
  BIND + "Updates of 4 GiB and more at once are not claimed.")

P("C21", "String slices and searches name exactly the characters they should",
  "A slice given by two positions, counted from either end and in either order, names the characters between them, both "
  "included, and an empty string has only the empty slice. Copying, joining, repeating, reversing, mapping and comparing slices "
  "agree with doing so on those characters, and searching finds the first or last position in the slice that matches, or says that "
  "there is none. Cutting a line's end or blanks changes nothing else, and no call reads or writes beyond its strings.",
  ["inputs"],
  "every string, pair of positions, pattern and set of characters",
  "The test calls each function once or twice on two alphabets with slices in the middle; ends, empty strings, repeated "
  "characters and slices of equal length are not covered.",
  ["src/libzt/zt_cstr.c", "src/libzt/zt_cstr.h"],
  [("positions", "IDXLEN, CONVERT and IDXORDER"), ("searches", "zt_cstr_find, zt_cstr_any, zt_cstr_upto and their reverses"),
   ("ends", "zt_cstr_strip, zt_cstr_chomp, zt_cstr_rspn")],
  BIND + "Negative positions beyond the start of the string are not claimed. A character's position is 0 also when it is absent.")

P("C22", "Cutting strings and taking paths apart lose and invent nothing",
  "Splitting at delimiters gives the pieces between them in order and none that is empty, cutting and tokenising visit each "
  "delimiter once, and nothing is read outside the string. The directory and the last name of a path put together are the "
  "path again, whatever separators lead, trail or repeat, and appending a name to a path puts one separator between. A "
  "result never exceeds the room given for it.",
  ["inputs"],
  "every string, delimiter, path and buffer size",
  "The tests use a few well-formed paths and one sentence.",
  ["src/libzt/zt_cstr.c", "src/libzt/zt_cstr.h"],
  [("last component", "zt_cstr_basename, zt_cstr_dirname"), ("joining", "zt_cstr_path_append"),
   ("pieces", "zt_cstr_split, zt_cstr_cut, zt_cstr_tok")],
  BIND + "Tokenising an empty string may yield nothing or an empty piece; the delimiter NUL is not claimed.")

P("C23", "Formatting prints what printf prints, however it is asked to",
  "Characters outside a directive pass unchanged and a doubled % or ~ prints one; a directive (d u o x p c s e f g, with flags, "
  "width and precision, also as arguments, and registered conversions) prints its argument as printf does, for every value and "
  "length. Formatting through a function, to a stream, into a new string or into a buffer gives the same text and its "
  "length; a buffer gets as much as fits, terminated, and nothing beyond it is written.",
  ["inputs"],
  "every format of registered conversions, argument value, string length and buffer size",
  "The tests compare some twenty fixed formats, with none of the ends of the number range and no text longer than its room.",
  ["src/libzt/zt_format.c", "src/libzt/zt_format.h"],
  [("directives", "zt_fmt_vformat"), ("padding", "zt_fmt_puts, zt_fmt_putd"), ("conversions", "cvt_d, cvt_u, cvt_o, cvt_x, cvt_p, cvt_f, cvt_s, cvt_c"),
   ("the buffer's end and a new string's growth", "zt_fmt_insert, zt_fmt_append")],
  BIND + "Exact decimal arithmetic for numbers k/2^n. A # with a string starts that many characters into it. Not claimed: "
  "flags +, blank and # with u o x p, a point without digits, infinities and NaN, precision above 99, buffers of size 0.")

P("C24", "A seed decides the random sequence, which is the Mersenne Twister's",
  "After seeding with a number or an array of any positive length, a generator yields the published MT19937 sequence for "
  "that seed, for as many draws as are made; generators are independent of each other, and the three real forms lie in "
  "[0,1], [0,1) and (0,1) and are the number drawn, scaled.",
  ["inputs", "histories"],
  "every seed, array of seeds, number of draws and interleaving of generators",
  "The test compares the first numbers for one array of four seeds.",
  ["src/libzt/zt_random.c", "src/libzt/zt_random.h"],
  [("seeding", "zt_random_srandom, zt_random_initstate"), ("blocks of 624", "zt_random_uint32"), ("reals", "zt_random_real1, zt_random_real2, zt_random_real3")],
  BIND + "The model runs a small twister block by block in lockstep with its recurrence; the trace is judged with the full one.")

P("C25", "Hashes are FNV-1a of exactly the given bytes",
  "The 32 and 64 bit hashes of a buffer of any length and content, NULs and high bytes included, and of a string up to its "
  "terminator are the FNV-1a hashes, so that hashing a part with the result of the part before as the start equals "
  "hashing the whole; a start of 0 is the standard one. Folding a hash to n bits (n below 32) gives a value below 2^n which is the published xor-fold.",
  ["inputs"],
  "every byte string, start value and number of bits",
  "No test covers the hashes except through tables, where any function will do.",
  ["src/libzt/zt_hash.c", "src/libzt/zt_hash.h"],
  [("buffers", "zt_hash32_buff, zt_hash64_buff"), ("strings", "zt_hash32_cstr, zt_hash64_cstr"), ("folding", "ZT_HASH24_MASK, ZT_HASH_SUB32_MASK and others")],
  BIND)

P("C26", "Checked arithmetic gives the exact result or fails its assertion",
  "With assertions enabled, adding, subtracting, multiplying and dividing signed and unsigned integers returns the exact "
  "result whenever the type holds it and otherwise (overflow, division by zero) fails the assertion, never the other way round; with assertions "
  "compiled out every result that the type holds is still exact.",
  ["inputs", "configurations"],
  "every operation, type and pair of operands",
  "The test tries a handful of operand pairs that fit and expects no assertion to fail.",
  ["src/libzt/zt_int.h"],
  [("conditions", "ZT_INT_SIGNED_ADD, ZT_INT_UNSIGNED_SUB, ZT_INT_SIGNED_DIV and others")],
  BIND + "All pairs of the 8 bit types are tried; wider types at and about their ends and at random.")

P("C27", "Sums and differences of times are exact and zt_time measures what it ran",
  "Adding and subtracting normalised times gives the exact, normalised result, also when the result is stored in an operand, and comparing "
  "two times has the sign of their difference. zt_time calls the function exactly as often as asked, with its data, returns the last "
  "call's result and reports the time used less the calibrated overhead; elapsed times and their printed text agree with the clock readings.",
  ["inputs", "histories"],
  "every pair of normalised times, count and clock reading",
  "The tests add and compare a few times and print an elapsed one without looking at it.",
  ["src/libzt/zt_time.c", "src/libzt/zt_time.h"],
  [("arithmetic", "zt_add_time, zt_sub_time, zt_diff_time, zt_cmp_time"), ("measuring", "zt_time, zt_calibrate_time, zt_time_result_to_elapsed"),
   ("text", "zt_time_print_result, zt_time_strf_result")],
  BIND + "Times that are not normalised, negative counts and seconds near the end of the type are not claimed.")

P("C28", "Dumps, hexadecimal digits and decimal text show exactly the data",
  "A dump shows every byte once, in rows of sixteen with its address and printable characters, for any length, past 2^32 too, and stops when "
  "told to. Data turned to hexadecimal digits and back is the same data, bad digits and odd counts are reported, and a decimal "
  "number's text reads as that number over the whole range. No call writes past the room it was given, and the size it asks for "
  "is enough.",
  ["inputs"],
  "every byte string, text, integer and buffer size",
  "The tests dump one text and convert a few sufficient buffers.",
  ["src/libzt/zt_cstr.c", "src/libzt/zt_cstr.h"],
  [("rows", "zt_hexdump, zt_hexdump_str, zt_hexdump_default_printer"), ("digits", "zt_binary_to_hex, zt_hex_to_binary"),
   ("numbers", "zt_cstr_itoa, zt_cstr_int_display_len")],
  BIND + "Addresses that do not start a row of sixteen are not claimed.")

P("C29", "Making directories and writing pid files does exactly what was asked, or fails",
  "zt_mkdir with parents reports success exactly when the path is a directory afterwards, also while other processes make the same "
  "directories, never takes a file for a directory, ends when the system refuses, and creates nothing that is not on the path; without "
  "parents it makes just the last one. zt_path_exists, zt_find_basedir and zt_writepid answer what the file system and the path "
  "say, with an interrupted write taken up again, and no call reads or writes beyond the text it was given.",
  ["inputs", "schedules", "fault_sequences"],
  "every path, tree, refusal and interleaving of concurrent callers",
  "The tests make one tree; refusals, files in the way and concurrent callers are not tried.",
  ["src/libzt/zt_path.c", "src/libzt/zt_path.h", "src/libzt/zt_daemon.c"],
  [("making", "zt_mkdir, _mkdir"), ("finding", "zt_path_exists, zt_find_basedir"), ("pid files", "zt_writepid")],
  "The system calls of concurrent zt_mkdir calls are interleaved exhaustively in the model, with refusals; every transition of the small "
  "model and seeded random histories, including injected refusals and directories appearing in between, are replayed into the code. "
  "errno, symbolic links and directories removed meanwhile are not claimed.")

P("C30", "Test suites run what was asked and report what happened",
  "Running a program of suites runs exactly the tests asked for (all, a suite, or one by name), each once in order, with its suite's "
  "set up before and tear down after it even when the test fails or throws. The lines reported, the totals and the program's "
  "answer say which tests succeeded, how many assertions held and why a test failed; a name that matches nothing is reported.",
  ["programs", "histories"],
  "every set of suites, tests, outcomes and arguments",
  "The framework's own tests count one suite's assertions; failing tests are never run by the suite.",
  ["src/libzt/zt_unit.c", "src/libzt/zt_unit.h"],
  [("running", "zt_unit_run, zt_unit_run_suite, zt_unit_run_test, zt_unit_run_by_name, zt_unit_main"),
   ("raising", "zt_unit_test_raise, ZT_UNIT_ASSERT and others"), ("registering", "zt_unit_register_suite, zt_unit_unregister_test and others")],
  BIND + "Whether a single test run by name counts as a run of its suite is left open.")

P("C31", "A program's name and directory are those it was started with",
  "The program's directory is the one in the path it was given, made absolute from the current directory; for a name alone it is the first "
  "directory of PATH that has the program, empty parts standing for the current directory, which is also the answer when none has it "
  "(without PATH it is where the running program lies). The program's name is the one given, without its directories when asked, and "
  "both stay as they are until others are given.",
  ["inputs", "configurations", "histories"],
  "every program path, PATH, current directory and set of files",
  "The test tries five spellings in one directory; searching PATH is disabled in it.",
  ["src/libzt/zt_progname.c", "src/libzt/zt_progname.h"],
  [("directory", "zt_progpath, zt_os_progpath"), ("name", "zt_progname")],
  BIND + "A directory found by a relative part of PATH may be told relatively; names about as long as PATH_MAX are only made not to overrun.")

P("C32", "Exit handlers run once each, newest first, with their datum",
  "When the program ends in an orderly way every registered exit handler runs exactly once with its own datum, the newest first; "
  "handlers registered by a running handler run too, before the older ones, as do those registered by the C library's own exit handlers, and an abrupt end runs none.",
  ["programs", "histories"],
  "every sequence of registrations, by the program and by handlers, and every way to end",
  "No test ends a process to see its handlers run.",
  ["src/libzt/zt_atexit.c", "src/libzt/zt_atexit.h"],
  [("registering", "zt_atexit"), ("running", "_atexit_call")],
  BIND + "Registrations from several threads at once and the order among handlers given to the C library are not claimed.")

P("C33", "A daemon is one detached process, or the call ends them all",
  "Becoming a daemon leaves exactly one process going on: in a session of its own that it does not lead, in the directory and with the file "
  "creation mask asked for, its standard descriptors on the null device and no other descriptor open, whatever was open before; the "
  "caller's process ends, successfully and only once the daemon is on its own. If the system refuses a step no process goes on.",
  ["schedules", "fault_sequences", "configurations"],
  "every set of refused steps, set of open descriptors, directory, mask and interleaving of the processes",
  "The daemon test never becomes a daemon, it only writes a pid file.",
  ["src/libzt/zt_daemon.c", "src/libzt/zt_daemon.h"],
  [("detaching", "zt_daemonize")],
  "The three processes are interleaved exhaustively in the model under every set of refusals; real calls, under every set of refusals and "
  "with random descriptors, directories and masks, are judged by the same outcome predicate. Descriptors above the soft limit, buffered "
  "output and the caller's exit status after a refusal other than the first are not claimed.")

P("C34", "Failed assertions and allocations are reported and never passed over",
  "An assertion evaluates its condition once, does nothing when it holds, and otherwise logs condition, file, line and function, in the log before the "
  "program ends, and then aborts, returns or goes on as its kind says; only the kinds meant to vanish do so when assertions are compiled out, and then do "
  "not evaluate it. Memory asked for is there in full (cleared, copied or kept as asked), also when the size would overflow, or the program "
  "logs that and aborts.",
  ["inputs", "configurations", "fault_sequences", "crash_points"],
  "every assertion kind, build configuration, size, count and refused request",
  "The tests let two assertions return and none abort, and never run out of memory.",
  ["src/libzt/zt_assert.c", "src/libzt/zt_assert.h", "src/libzt/zt_malloc.c", "src/zt.h"],
  [("reports", "_zt_log_assertion, _zt_log_abort"), ("kinds", "zt_assert, zt_assert_always, zt_assert_return, zt_abort"),
   ("memory", "zt_malloc, zt_calloc, zt_realloc, zt_strdup, zt_free")],
  BIND + "Requests for nothing at all (count or size 0) are not claimed.")

P("C35", "The helper macros compute what they are named for, whatever the arguments",
  "Absolute value, minimum, maximum, ceiling, floor and clamp give the right number, setting and unsetting bits changes just those bits of a "
  "word of any width and testing tells whether any is set, array sizes and ends, member offsets and containers are exact and indentation is "
  "as wide as asked, with every argument any expression of any integer type.",
  ["inputs", "programs"],
  "every argument value, word and mask type",
  "The test tries a few plain numbers.",
  ["src/libzt/zt_macros.h"],
  [("numbers", "ABS, CLAMP, CEILING, FLOOR, MAX, MIN"), ("bits", "ZT_BIT_SET, ZT_BIT_UNSET, ZT_BIT_ISSET, ZT_BIT_ISUNSET"),
   ("layout", "sizeof_array, endof_array, zt_offsetof, zt_containerof"), ("indentation", "INDENT, INDENT_PAD, INDENT_TO")],
  BIND + "How often an argument is evaluated is not claimed; a signed mask with its top bit set is not either.")

P("C36", "Thread primitives reach the callbacks set last and keep their pthread promises",
  "Every zt_threads call passes its arguments unchanged to the callback set last and returns what that gave; an incomplete set is refused and "
  "leaves the old one, and without callbacks a call does nothing. Pool callbacks are set one by one, those not given stay, and NULL restores "
  "them all. On pthreads a lock has one holder until given back, waiting for a condition releases and retakes it and is ended by a signal, by "
  "a broadcast to everyone or by its time limit, a thread's result reaches its join, and ended, cancelled and detached threads end so.",
  ["histories", "schedules"],
  "every history of setting callbacks and calling, and every history of commands of several threads, locks and conditions",
  "The thread test uses one set of callbacks and a few threads; it looks at neither arguments nor who holds what when.",
  ["src/libzt/zt_threads.c", "src/libzt/zt_threads.h", "src/libzt/zt_threads/zt_threads_pthreads.c"],
  [("indirection", "zt_threads_set_lock_callbacks, zt_threads_set_cond_callbacks, zt_threads_set_cntrl_callbacks"),
   ("pool callbacks", "zt_threadpool_set_callbacks"), ("pthread primitives", "zt_threads_pthreads_lock, zt_threads_pthreads_cond_wait")],
  BIND + "Threads are looked at when all of them have come to rest, so what happens between is seen only by its results.")


P("C37", "Releasing an object gives back all it held, and nothing else",
  "Making or using an object of any kind changes only what that object itself holds (memory, open files), looking at it changes nothing, doing the "
  "same again and again holds no more than once, and releasing it gives all of it back and touches neither other objects nor what the caller owns. A "
  "refused making and a computing call hold nothing once their result is freed.",
  ["histories", "programs"],
  "every interleaved history of making, using, looking at and releasing objects of every kind, and every refused making",
  "No test looks at what is still allocated or open after it.",
  ["src/libzt/zt_cfg.c", "src/libzt/zt_cfg/cfg_ini.c", "src/libzt/zt_opts.c", "src/libzt/zt_unit.c", "src/libzt/zt_table.c",
   "src/libzt/zt_set.c", "src/libzt/zt_cstr.c", "src/libzt/zt_log.c", "src/libzt/zt_log/log_file.c", "src/libzt/zt_ipv4_tbl.c",
   "src/libzt/zt_progname.c", "src/libzt/zt_mem.c", "src/libzt/zt_ptr_array.c", "src/libzt/zt_buf.c", "src/libzt/zt_path.c"],
  [("configurations", "zt_cfg_ini, cfg_destructor"), ("containers", "zt_table_destroy, zt_set_destroy, zt_ptr_array_free"),
   ("strings", "zt_cstr_split, zt_cstr_cut, zt_cstr_path_append"), ("logs", "zt_log_file, zt_log_close")],
  BIND + "What the library keeps once for the whole process, the collector's own struct, the thread pool's, typed memory sets, exit handlers "
  "and an option given twice are not claimed; running out of memory ends the program (C34).")
