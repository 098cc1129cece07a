# The properties, first part: data formats, storage, queues, containers, strings.
# P(id, title, statement, over, quantifier text, why tests can't, files, mechanisms, technique, level note)
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, tech, note, observe=None):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, quant=" ".join(quant.split()),
                      why=" ".join(why.split()), files=["util/" + f for f in files], mech=mech, tech=tech,
                      note=" ".join(note.split()), observe=observe))


P("C01", "Compact binary data: what is written is what is read",
  """Data written with the compact binary writer, or computed by the constant serializer, is laid out as documented
  (key, size, data; nested objects with the size of their contents), both produce the same bytes for the same data, and
  the parser finds every field and nested object that was written with exactly the value or the bytes written, and
  nothing under keys, sizes or types which were not written.""",
  ["inputs", "programs"],
  "All trees of fields, raw bytes and nested objects, for integer and string keys (shorter, equal and padded), and 8, 16 and 32 bit sizes.",
  "The tests write and read a handful of fixed documents; the property ranges over every tree, key type and size type.",
  ["compact_binary_writer.hh", "compact_binary_serializer.hh", "compact_binary_parser.hh"],
  [("writer emits key, size, data and patches the size of objects when they end", "util/compact_binary_writer.hh: field, raw, begin_object, end_object"),
   ("parser walks the items by their sizes", "util/compact_binary_parser.hh: get_size_and_offset"),
   ("string keys are compared up to the terminator", "util/compact_binary_parser.hh: compare_nullterm_array")],
  "property-based testing: round trip of generated documents against a reference encoder",
  "Random trees up to some 10 items and 3 levels deep, checked byte by byte against an encoder written from the documented format.")

P("C02", "Compact binary parser: any bytes are handled without reading outside",
  """Looking up any key as a value, as raw bytes, as a nested object or for its size, in arbitrary, truncated or corrupted data,
  never reads outside of the data, always ends, never returns bytes which are not inside of the data, and gives what the
  documented format says: the first item with that key which lies before any item that does not fit, or nothing.""",
  ["inputs"],
  "All byte strings, and valid documents with damaged sizes, keys or ends, for all key and size types including 64-bit sizes.",
  "The tests parse well-formed data and a few truncations; memory safety must hold for every byte string.",
  ["compact_binary_parser.hh"],
  [("bounds checks before each item is skipped or returned", "util/compact_binary_parser.hh: get, get_node, advance")],
  "property-based testing and fuzzing: differential against an overflow-free reference decoder, under AddressSanitizer",
  "Structured and mutated byte strings; data is placed in exact heap blocks so that any access outside is caught. libFuzzer in the thorough tier.")

P("C03", "Compact binary writer: never writes outside of the buffer it was given",
  """Whatever is written into a buffer of whatever size, in whatever order of calls, only bytes inside of the buffer are written;
  the reported size is the size that the complete data needs, overflow is reported exactly when that is more than the buffer has, and the part
  that fits is the same as in a larger buffer. Ends without a begin are ignored, and objects nested too deeply corrupt nothing.""",
  ["inputs", "histories"],
  "All sequences of writer calls, also unbalanced ones, with buffers from 0 bytes to larger than needed.",
  "The tests overflow one buffer in one place; each call may be the one that crosses the end, including the late patching of sizes.",
  ["compact_binary_writer.hh"],
  [("each byte is bounds checked, the position counts on", "util/compact_binary_writer.hh: emit, write_at"),
   ("depth is limited", "util/compact_binary_writer.hh: begin_object, end_object")],
  "property-based testing: generated call sequences, truncation compared with the full output, under AddressSanitizer",
  "Random call sequences on exact-size heap buffers, compared with the same calls on a large buffer and with a reference encoder.")

P("C04", "Wear levelling: the last saved value survives restarts, faults included",
  """After a successful save, reading returns that value, now and after any number of restarts, until another save succeeds; cells are used one after
  the other and the storage is erased only when no blank cell is left. If a save, erase or read fails or is torn by a power loss,
  then the reader gets the newest cell which is readable and valid (or a failure if there is none), never an invalid value, and later saves work again.""",
  ["histories", "fault_sequences", "crash_points"],
  "All histories of saves, reads and restarts, from blank or filled storage of any number of cells, with write, erase and read failures, torn writes and bad cells at any point.",
  "The tests go around the cells once without faults; what matters is where a restart or a fault falls.",
  ["wear_level.hh"],
  [("the newest valid cell is looked for from the end", "util/wear_level.hh: constructor, read"),
   ("the next writable cell is used, or all are erased", "util/wear_level.hh: write")],
  "stateful property-based testing with fault injection: simulated flash against a model of cells and position",
  "A simulated flash block (erase sets bits, writing clears them) with injected faults, and an exact model of cells, position and results.")

P("C05", "SPSC FIFO: a queue that loses, invents and reorders nothing",
  """For any sequence of operations from one thread, the single-producer single-consumer FIFO (of fixed or run-time size) gives back the elements in the order they were put, each exactly once and unchanged;
  put fails, without any effect, exactly when the FIFO is full and get exactly when it is empty. Taking by move or with a default, removing, resetting, setting the read or write position, construction from a span, resizing, and the counts of used and free
  places all agree with that, also when the positions wrap around.""",
  ["histories"],
  "All sequences of FIFO operations, for several capacities and element types, starting near the wrap-around of the position counters.",
  "The tests fill and empty a small FIFO a few times; the positions may be anywhere in their range, and every mix of operations is possible.",
  ["lockfree_fifo_spsc.hh", "lockfree_fifo_spsc_dyn.hh"],
  [("free-running positions, masked or taken modulo the size", "util/lockfree_fifo_spsc.hh, util/lockfree_fifo_spsc_dyn.hh")],
  "stateful property-based testing against a reference queue",
  "Random histories with a reference that knows every element by position; run-time sizes that are no power of 2 are not taken over the wrap of size_t (known finding).")

P("C06", "SPSC FIFO: safe between a producer thread and a consumer thread",
  """With one thread putting and another one getting, taking by move, removing or resetting (with the producer checking for free space and the consumer for used space), in every interleaving and with every memory order effect that the C++ memory model allows,
  the consumer gets the elements put, in order, each once and completely written, and the producer never overwrites an element that has not been taken. Neither thread accesses an element while the other one does,
  and what a thread is told about free or used places it can rely on.""",
  ["schedules"],
  "All interleavings of short producer and consumer programs, with stale reads as allowed by the memory orders used.",
  "The tests are single-threaded, or run on a strongly ordered machine, which hides missing acquire and release operations.",
  ["lockfree_fifo_spsc.hh", "lockfree_fifo_spsc_dyn.hh"],
  [("positions are stored with release and loaded with acquire order", "util/lockfree_fifo_spsc.hh: put, get"),],
  "property-based schedule exploration: generated interleavings and stale reads on a simulated std::atomic with race detection",
  "The real headers are compiled against a stand-in for std::atomic which runs the threads as fibers, picks the interleaving and, for loads, any value the memory order allows, and keeps vector clocks to report races on elements.")

P("C07", "Pools: distinct live objects, exact capacity, stable values",
  """A pool hands out a place exactly while fewer objects than its capacity are alive, never one that is in use, with a fresh object in it if one was asked for, and objects keep their address (or index) and value until they are destroyed;
  destroying succeeds exactly for an object that is alive (not for one destroyed before, or from elsewhere) and frees only that place. The size, the query for use and clearing agree with that.""",
  ["histories"],
  "All sequences of create, destroy (also of foreign or dead objects), clear and access, for several capacities and element types.",
  "The existing tests do not cover the pools; exhaustion, reuse and foreign pointers depend on the history.",
  ["pool.hh", "thread_safe_pool.hh"],
  [("used flag per entry", "util/pool.hh: create, destroy; util/thread_safe_pool.hh")],
  "stateful property-based testing against a reference set of live objects",
  "Random histories on small pools with the set of live objects as the oracle.")

P("C08", "Thread-safe pool: one owner at a time, in every interleaving",
  """When several threads create, use and destroy entries of a thread-safe pool, in every interleaving and with every memory order effect that the C++ memory model allows, an entry is never owned by two threads at once,
  creating fails only if every entry was in use at some time during the call, of several threads destroying an entry exactly one succeeds,
  and what the previous owner did to an entry (clearing included) is complete before the next owner, or a thread which finds the entry unused, sees it.""",
  ["schedules"],
  "All interleavings of short programs on 2 or 3 threads, with stale reads as allowed by the memory orders used.",
  "There are no tests of it, and a native test would only see the interleavings and memory orders of one machine.",
  ["thread_safe_pool.hh"],
  [("compare-and-exchange of the used flags", "util/thread_safe_pool.hh: create, destroy")],
  "property-based schedule exploration: generated interleavings and stale reads on a simulated std::atomic with race detection",
  "As C06. A creation may skip an entry only if it was in use at the time it was looked at.")

P("C09", "Circular buffers: the newest elements, from the oldest to the newest",
  """A circular buffer holds the elements put in and not yet taken out, and gives them from the oldest to the newest; when it is full, putting overwrites the oldest element, and taking from an empty one gives nothing (or a default value) and changes nothing.
  Its counts, emptiness, fullness, positions, first element and peeking agree with that; filling the buffer sets every element, of any size, and setting the head gives a fixed delay, for every capacity and however often the positions went around.""",
  ["histories"],
  "All sequences of operations on both kinds of buffer, for capacities which are powers of 2 and, where allowed, others.",
  "The tests push and pop a few elements; the wrap-around position and fullness depend on the whole history.",
  ["circular_buffer.hh", "circular_buffer_opt.hh"],
  [("head, tail and count with wrap-around", "util/circular_buffer.hh, util/circular_buffer_opt.hh")],
  "stateful property-based testing against a reference queue",
  "Random histories compared with a reference queue after every operation.")

P("C10", "Delay-line access: blocks cross the end of the buffer correctly",
  """Reading or writing a block of a circular delay memory, forwards or backwards, moves the read or write position by exactly the length of the block, wraps at the end of the buffer (also in the middle of a block) and reports whether it did, and leaves all other samples
  untouched. Crossfaded writes mix the new and old samples by the given phase, and without crossfade the samples are stored exactly. Whether a marker position was crossed is reported exactly as the positions were stepped through.""",
  ["histories", "inputs"],
  "All positions, block lengths, directions, phases, and buffer sizes, for float and integer samples.",
  "The tests use few positions and lengths; the error cases are blocks that end at, or go over, the end.",
  ["circular_buffer_ext.hh", "circular_buffer_block.hh"],
  [("positions wrap at the bounds of the memory", "util/circular_buffer_ext.hh"), ("a block is copied in two parts when it goes past the end", "util/circular_buffer_block.hh")],
  "stateful property-based testing against a sample-by-sample reference memory",
  "Random histories against a reference that moves one sample at a time.")

P("C11", "Circular stack: last in, first out, forgetting the oldest when full",
  """The circular stack gives back the newest element first; pushing onto a full stack forgets the oldest element only, and popping or looking at the top of an empty one gives nothing (or zero) and changes nothing.
  Its size, emptiness, top element, construction from values and clearing agree with that, for every capacity and however often it went around.""",
  ["histories"],
  "All sequences of push, pop and access, for several capacities and element types.",
  "The tests wrap around a small stack once or twice.",
  ["circular_stack.hh"],
  [("head position with wrap-around, and a count", "util/circular_stack.hh")],
  "stateful property-based testing against a reference stack",
  "Random histories against std::vector which drops its front when it exceeds the capacity.")

P("C12", "Fixed vector: a vector that refuses to grow beyond its capacity",
  """The fixed-capacity vector behaves as a vector: pushing, inserting, erasing (one element or a range), popping, resizing and clearing move the other elements in order and change nothing else. Pushing, inserting or erasing that would exceed the capacity or is
  at a position outside is refused without any effect, and resizing stops at the capacity. Elements, size, available places, iteration, spans and the last element agree with the contents.""",
  ["histories"],
  "All sequences of operations, at every position, for several capacities and element types.",
  "The tests check each operation on one or two vectors; shifting elements goes wrong only at particular positions and fill levels.",
  ["fixed_vector.hh"],
  [("bounds checks, and shifting of elements", "util/fixed_vector.hh")],
  "stateful property-based testing against std::vector",
  "Random histories against std::vector, under AddressSanitizer.")

P("C13", "Sequential map: a map which keeps the order of insertion",
  """The sequential map holds at most one value per key and keeps the pairs in the order in which the keys were first added; assigning to an existing key replaces its value in place, while inserting leaves it. In a full map an insertion is refused and an assignment through
  [] takes the place of the last pair. Lookup, iteration, erasing (which keeps the order of the others), clearing, size, fullness and emptiness agree with that, and a lookup in a constant map of a missing key gives the default and changes nothing.""",
  ["histories"],
  "All sequences of insertion, assignment, lookup and removal, for integer and string keys and values and several capacities.",
  "The tests look at a few keys; whether keys and values stay aligned depends on the history.",
  ["sequential_map.hh"],
  [("keys and values in step", "util/sequential_map.hh")],
  "stateful property-based testing against a reference list of pairs",
  "Random histories against a list of pairs.")

P("C14", "Seq map: a map which drops its oldest entries",
  """The fixed-size map returns for every key the value most recently stored for it, and entries keep the order of insertion when others are removed; when it is full, an insertion which may overwrite replaces the oldest entry and one which may not is refused.
  Removal by key or of the last entry removes exactly this one, and size and lookups agree with that.""",
  ["histories"],
  "All sequences of insertion, removal, overwrite and lookup, for integer and string keys and several capacities.",
  "The tests do few removals and wrap once; keys and values must stay aligned for every history.",
  ["seq_map.hh"],
  [("keys and values in arrays kept in step", "util/seq_map.hh")],
  "stateful property-based testing against a reference list of pairs",
  "Random histories against a list of pairs; inserting a key which is already there is not generated, the code leaves open what it means.")

P("C15", "Double-buffered stream: all accepted data goes out, once and in order",
  """Data accepted for transmission is handed to the hardware exactly once, in order, at once if no transmission is in progress and otherwise when the one in progress ends, together with everything else accepted by then.
  There is never more than one transmission in progress, the data in progress does not change, and a block is refused, without any effect, exactly when it does not fit into the space left.""",
  ["histories"],
  "All interleavings of transmit calls of any length with completions (also spurious ones), for several sizes and element types.",
  "The tests follow two or three fixed sequences.",
  ["doublebuf_stream.hh"],
  [("two buffers, one in transmission while the other one fills", "util/doublebuf_stream.hh: transmit, tx_done_callback, start_tx")],
  "stateful property-based testing: generated histories, invariants over what the simulated hardware receives",
  "Random histories; the hardware is simulated and keeps a copy of what it was given. Transmission functions which fail are generated for their results only.")

P("C16", "Integer to text: exact digits within the buffer",
  """Converting an integer to decimal text gives exactly its sign and digits, terminated, for all values of the type; it never writes beyond the given buffer. If the text does not fit, the plain conversion says so, and the chopping one keeps the sign and the least
  significant digits that fit. The number of digits reported is right for all values.""",
  ["inputs"],
  "All 32-bit integers, and all buffer sizes and widths.",
  "The tests convert about ten numbers; 0, INT_MIN, powers of ten and short buffers are each special.",
  ["int_to_str.cc", "int_to_str.hh", "math.hh"],
  [("digits are produced in reverse", "util/int_to_str.cc")],
  "property-based testing: differential against std::to_string",
  "Random and boundary-biased values, every size, on exact heap buffers under AddressSanitizer.")

P("C17", "Print: every value comes out as its text",
  """Printing emits exactly the text of each argument in order: integers in decimal, or in hexadecimal with upper case digits and without leading zeros, strings and string views with exactly their characters (whether terminated or not), and nothing else, for all values
  including the extremes of each type.""",
  ["inputs"],
  "All integer values of all widths, all strings and string views, and all combinations of arguments.",
  "The tests print a dozen values.",
  ["print.hh"],
  [("conversion of each type", "util/print.hh")],
  "property-based testing: differential against standard formatting",
  "Random argument lists, with output captured and compared with the text made by the standard library.")

P("C18", "Static string: bounded, terminated, and equal to its truncated source",
  """A fixed-capacity string always holds exactly the first characters of what was last copied into it, up to its capacity, is always null-terminated, and never reads beyond the source or writes beyond its storage.
  Its length, free space, iteration, conversions, comparisons, clearing and copies between strings of different capacities (volatile ones included) agree with that content.""",
  ["inputs", "histories"],
  "All sources (terminated or not, shorter, equal or longer than the capacity) and sequences of operations, for several capacities.",
  "The tests copy a few strings; the boundary is at each capacity and for each kind of source.",
  ["static_string.hh"],
  [("copies are limited to the capacity and terminated", "util/static_string.hh")],
  "stateful property-based testing against std::string",
  "Random histories against std::string; sources are exact heap blocks under AddressSanitizer.")

P("C19", "String utilities: replacing, splitting, comparing and finding words",
  """Replacing all occurrences gives what replacing each non-overlapping occurrence from left to right gives; tokenizing gives the non-empty parts between delimiters in order; case-insensitive comparison orders and equates strings as comparing their lower-case
  forms does. Looking for a word finds it, in any case, exactly when it is the whole name or is separated from the rest of it by spaces.""",
  ["inputs"],
  "All strings, patterns, replacements (also ones which contain the pattern), delimiters and cases.",
  "The tests have at most a few strings per function, and none for replacing or comparing.",
  ["string_util.hh", "string_compare.hh", "contains_word.hh"],
  [("string scanning", "util/string_util.hh, util/string_compare.hh, util/contains_word.hh")],
  "property-based testing: differential against simple reference implementations",
  "Random strings over small alphabets so that matches are frequent.")

P("C20", "Versions: parsing, ordering and compatibility",
  """Parsing a version gives the numbers written, separated by dots, with missing, too large or malformed ones being zero, and notes whether it is a pre-release (with a dash after the last number; the suffix can contain dots), without reading beyond the text. Versions are ordered as the sequence of
  their numbers, a pre-release before its release; a host is compatible exactly with the same major and at most its minor version, and setting a field to a number that does not fit is refused.""",
  ["inputs"],
  "All version texts, well-formed or not, terminated or not, and all pairs of versions.",
  "The tests parse about twenty strings.",
  ["version_tools.hh"],
  [("parsing and comparison", "util/version_tools.hh")],
  "property-based testing: reference parser, and order laws against tuples",
  "Random and mutated texts on exact heap buffers; with suffixes which contain dots and dashes.")

P("C21", "Stored callables: call what was stored, copy what was captured",
  """A stored function or callback calls exactly the callable last stored in it, with the arguments given (references and moved objects included) and its result returned, for every callable that fits into its size; it says whether one is stored.
  A copy has its own copy of the callable with its captures and state, independent of the original's, and every stored object is destroyed exactly once.""",
  ["histories"],
  "All sequences of storing, copying, moving, clearing and calling, for callables of several sizes, alignments and copy behaviours.",
  "The tests store lambdas with trivial captures; ownership errors appear only with captures that own something, after copies.",
  ["callable.hh"],
  [("type-erased invoke and manage functions over an inline buffer", "util/callable.hh")],
  "stateful property-based testing with instrumented captures",
  "Random histories over several slots; captures count their lives and own heap memory under AddressSanitizer.")

P("C22", "Interpolated tables: exact linear interpolation, in range for every input",
  """Looking up an interpolated array or a lookup table gives the linear interpolation between the two neighbouring points (the exact point at a point), for every position; outside of the range, the wrapping functions go around, also for negative positions, and
  lookup tables are clamped to their ends. No lookup reads outside of the table, and tables generated from a function hold the values of that function at equally spaced positions.""",
  ["inputs"],
  "All tables, phases and indices (also negative, large and at the boundaries), for several sizes and number types.",
  "The tests look up a few positions in a few tables.",
  ["interp_array.hh", "lookup_table.hh", "lut.hh"],
  [("index and fraction, wrapped or clamped", "util/interp_array.hh: interp, interp_wrap, closest; util/lookup_table.hh")],
  "property-based testing: differential against interpolation in long double",
  "Random tables and boundary-biased positions, tolerance derived from the rounding of the index.")

P("C23", "Table-driven math approximates the exact functions everywhere",
  """Sine, cosine, tangent, powers of two, pitch multiples, logarithmic frequency and fast sine approximate the exact function for every argument, within the error that linear interpolation of their table makes,
  also for negative arguments and those outside of the first cycle, and every entry of the tables is the function's value.""",
  ["inputs"],
  "All arguments within the accuracy of float, and all table entries.",
  "The tests compare a few dozen arguments with wide tolerances.",
  ["math_tables.hh", "math_tables.cc", "math.hh"],
  [("tables of 2048 points, linearly interpolated", "util/math_tables.cc, util/math_tables.hh")],
  "property-based testing: differential against <cmath> in double",
  "Random and boundary-biased arguments; tolerances are the interpolation error plus rounding.")

P("C24", "Scalar math helpers are exact over their whole domain",
  """Clamping, minimum and maximum, differences, mapping between ranges, interpolation, wrapping, plateaus, powers of two, logarithms of base 2 and integer powers, saturation, byte order changes, floating point classification and rounding, random numbers within limits and
  adjacent differences give the mathematically defined result for every argument in their domain, including the extremes of every integer type.""",
  ["inputs"],
  "All arguments, for all integer and floating point types.",
  "The tests check one to ten values of each function, for one type.",
  ["math.hh"],
  [("the functions themselves", "util/math.hh")],
  "property-based testing: differential against definitions in wider arithmetic",
  "Random and boundary-biased arguments of each type.")
