SQ = "Existing tests run a handful of fixed examples; "
prop("C01", "The parallel task queue runs every task exactly once and waits for all",
 "Running a queue of N tasks calls the task function exactly once for every index 0..N-1 and for nothing else, with never more tasks in flight than the machine's hardware concurrency (at least one), and returns only after every task has finished, with their effects visible to the caller. This holds for every N (0 included), every hardware concurrency (0 = unknown included), every order in which threads run and tasks finish, and it never deadlocks or spins forever. All available cores can be used at once (tasks may wait for each other up to that number), and a task that throws neither stops the others nor ends the program.",
 ["schedules", "configurations"], "All interleavings of the queue's main loop and its workers for N in 0..6 and reported hardware concurrency 0..4 within a preemption bound of 1-4 (thorough 2-6) by size; tasks that wait for each other; all subsets of throwing tasks for N up to 4; delay-bounded schedules of 7..33 tasks on 0..8 cores; a free-running ThreadSanitizer pass.",
 SQ + "test_mt_thread runs the queue on the host's one schedule and core count; which worker finishes first, slot reuse and the unknown core count are never controlled.",
 ["datas/multi_thread.hpp"], [("slot array of futures polled in submission loop, drained at the end", "datas/multi_thread.hpp:RunThreadedQueue")],
 "stateless model checking of the real queue: preemption-bounded enumeration of schedules under an interposed pthread/futex scheduler",
 "Exhaustive over thread schedules up to the stated preemption bound at synchronisation points, for the listed queue sizes and core counts; data races between scheduling points are left to a free-running ThreadSanitizer pass.")
prop("C02", "Log messages written by concurrent threads arrive whole, once, and in order",
 "Every message completed on any thread is delivered exactly once, whole and unmixed with other threads' text, to every registered sink; messages of one thread arrive in the order that thread wrote them, and a thread's message is not affected by what another thread is composing. Each sink receives the message type prefix, and the thread identifier when enabled, as part of the same message; sinks registered without colour never receive colour changes of their own, and coloured warnings and errors return to the normal colour. A sink registered while others log receives the messages completed afterwards.",
 ["schedules", "histories"], "All interleavings of 2 threads (preemption bound 5, thorough 7), 2 threads x 2 messages (4, 5), 3 threads (3, 4) and of registration against logging (2, 3), messages of up to 3 fragments, 1-2 sinks; all sequential histories up to depth 5 (thorough 6) over 9 operations; a free-running ThreadSanitizer pass.",
 SQ + "no test logs from two threads at once or looks at what a sink received.",
 ["datas/master_printer.hpp", "datas/master_printer.cpp", "datas/internal/master_printer_ix.inl"],
 [("per-thread string stream plus one mutex around delivery", "datas/master_printer.cpp")],
 "stateless model checking of the real printer: preemption-bounded schedule enumeration, plus all sequential message histories against a reference log",
 "Exhaustive over schedules up to the preemption bound for the listed drivers and over all bounded histories.")
prop("C03", "Archive entries can be opened from several threads at once",
 "Opening entries of one mounted ZIP archive concurrently from several threads gives each caller exactly the bytes of the entry it asked for, independent of the interleaving, and without deadlock, also when some of them ask for entries that do not exist.",
 ["schedules"], "All interleavings without a preemption bound of 2 threads opening one entry each by name, iterator, range, listing or missing name; bound 5 (thorough 7) for 2 entries per thread, 3 (5) for 3 threads, 2 (3) for 4 threads; every lock, seek and piece of a read of the underlying stream is a scheduling point; archives of 1-3 entries; a free-running ThreadSanitizer pass with 2-4 threads.",
 SQ + "the archive reader is not run by any test at all.",
 ["datas/zip_vfs.hpp", "formats/ZIP_istream.inl"], [("archive stream guarded by a mutex while an entry is copied out", "datas/zip_vfs.hpp:ZIPVFS")],
 "stateless model checking of the real archive reader: preemption-bounded schedule enumeration with stream operations as scheduling points",
 "Exhaustive over schedules up to the preemption bound for the listed drivers.")
prop("C04", "A mounted ZIP archive lists and returns exactly its stored entries",
 "Mounting a well-formed archive of uncompressed entries makes every non-empty entry, and only those, findable by its exact name, iterable once, with size and bytes equal to what was stored, whatever the number of entries, name lengths, extra fields, comments and data sizes. Archives with encrypted or compressed entries, unknown blocks, or cut short at any byte are rejected with an exception or yield only genuine entries; they never yield wrong bytes, crash or hang. Opened entries are independent of each other and may be moved; the header structures are written and read in the documented layout.",
 ["inputs", "fault_sequences"], "All archives of 0-3 entries (thorough 4) over 9 entry kinds x 7 trailers; name/extra lengths to 65535 x data lengths to 65537; name triples; every cut of 60 archives x 7 trailers; 15 methods x 17 flag settings x 3 positions; every single-bit, 0, 1 and 255 change of every byte (thorough every value); header structures over 15 patterns per field.",
 SQ + "the archive reader is only compiled by the test build, never run.",
 ["datas/zip_vfs.hpp", "formats/ZIP.hpp", "formats/ZIP_istream.inl"], [("local header walk building a name to (offset, size) map", "datas/zip_vfs.hpp")],
 "exhaustive enumeration of bounded archives, truncations and corruptions against a reference archive model",
 "Exhaustive within the listed alphabet; run with AddressSanitizer.")
prop("C05", "Base-128 integers survive a write and a read, keeping the stream in step",
 "Writing any unsigned or signed 64-bit integer in base-128 form and reading it back returns the same value and consumes exactly the bytes written, so values written after it are also read back unchanged. Values in the range -64..63 signed and 0..127 unsigned take one byte, every further 7 bits take one byte more and no encoding exceeds nine bytes; reading a truncated encoding reports a stream failure instead of looping or crashing.",
 ["inputs", "histories"], "All values within 2^14 of every power of two and of zero, both signs; all triples from the boundary set written back to back; all truncations.",
 SQ + "the base-128 tests cover about 60 listed values.",
 ["datas/base_128.hpp"], [("7-bit groups with continuation bit, sign bit in last group, raw ninth byte", "datas/base_128.hpp:buint128,bint128")],
 "exhaustive enumeration of boundary neighbourhoods and of all write/read sequences from a boundary alphabet against a reference codec",
 "Exhaustive over the stated neighbourhoods and sequences; values between them share the byte-length class of a covered value.")
prop("C06", "Binary writer and reader agree on every sequence of operations",
 "Any sequence of values, strings, arrays, counted containers and custom objects written with the binary writer is read back unchanged by the same sequence of reads, consuming exactly the bytes written; the plain-data encoding is the in-memory one (or its byte reversal when swapping is on) packed without gaps. Tell, Seek, Skip, Push/Pop, relative origin, alignment padding and size behave as one consistent cursor over the file, on streams and on files alike, and opening a missing file raises the documented error.",
 ["histories", "inputs"], "All operation sequences up to depth 4 over an alphabet of about 25 typed writes and cursor moves, swapping on/off, compared byte by byte with a reference byte vector; then all read sequences.",
 SQ + "the bincore tests run three fixed sequences.",
 ["datas/binreader_ref.hpp", "datas/binwritter_ref.hpp", "datas/internal/bincore.hpp", "datas/internal/bincore_endian.hpp", "datas/internal/bincore_file.hpp", "datas/internal/bincore_navi.hpp"],
 [("type-dispatched Read/Write overloads", "datas/binwritter_ref.hpp, datas/binreader_ref.hpp"), ("relative origin and padding arithmetic", "datas/internal/bincore_navi.hpp")],
 "explicit-state exploration of all bounded operation sequences on the real reader/writer against a reference byte-vector cursor",
 "Exhaustive up to the stated depth and alphabet.")
prop("C07", "Byte-swapping reverses each scalar once and is its own inverse",
 "Swapping a value of any supported type (integers, floats, enums, arrays, vectors of any lane count, flags, classes and nested classes offering a swap) reverses the bytes of each scalar element in place and touches nothing else, so swapping twice gives the original. Data written by a swapping writer is the byte-swapped image of what the plain writer gives, leaves the caller's object unmodified, and a swapping reader restores it.",
 ["inputs", "programs"], "Every supported type shape with all byte patterns from a basis that identifies each byte uniquely, all 16-bit values, and all walking-bit patterns for wider ones; both conditional-swap settings.",
 SQ + "test_endian checks one value per type.",
 ["datas/endian.hpp", "datas/endian_fwd.hpp", "datas/internal/bincore_endian.hpp", "datas/binwritter_ref.hpp", "datas/binreader_ref.hpp"],
 [("FByteswapper overload set with SFINAE dispatch", "datas/endian.hpp")],
 "exhaustive enumeration of type shapes and distinguishing byte patterns against a byte-reversal model",
 "Byte permutation is data-independent in the reference; patterns identify every byte, so a wrong permutation cannot pass.")
prop("C08", "Setting one packed bit-field member changes that member only",
 "For any bit-field layout over any storage width, setting a member makes reading it return the value truncated to the member's width, leaves every other member's value unchanged, and never writes outside the declared bits. This holds for every sequence of sets from any starting storage value.",
 ["inputs", "histories"], "All layouts of an 8-bit store into consecutive members with all storage values and all member values; representative layouts of 16/32/64-bit stores including full-width members, with all boundary values and all set sequences to depth 3.",
 SQ + "two fixed layouts are tested with one value each.",
 ["datas/bitfield.hpp", "datas/internal/bitfield.inl"], [("compile-time offset and mask per member", "datas/bitfield.hpp, datas/internal/bitfield.inl")],
 "explicit-state exploration of all set/get transitions over bounded layouts against a bit-vector model",
 "All compositions of 8 bits are generated as types; wide stores use boundary layouts.")
prop("C09", "Mirroring a packed bit-field for the other byte order keeps member values",
 "Byte-swapping a bit-field whose layout is declared for the other byte order gives members equal to those of the original layout, for every storage value, and applying the conversion twice (or out-of-place and in-place) gives back the original. A byte-order-mirrored field produced on one side of a stream is read with the same member values on the other.",
 ["inputs"], "All layouts of an 8-bit store and representative 16/32/64-bit layouts with all (8/16-bit) or walking/boundary storage values.",
 SQ + "test_bf_01 swaps one value of one layout.",
 ["datas/bitfield.hpp", "datas/internal/bitfield.inl"], [("SwapEndian re-packing members", "datas/internal/bitfield.inl")],
 "exhaustive enumeration of storage values over bounded layouts against a reference re-packing model",
 "Exhaustive over 8/16-bit storage; boundary values over wider storage.")
prop("C10", "A flag set behaves as the mathematical set of its enumerators",
 "A flag set over any scoped enumeration and storage width contains exactly the flags added and not since removed: adding, removing, assigning by boolean, testing, comparing and combining behave as set operations, duplicates and absent removals are no-ops, and the stored integer always has exactly the bits 1<<value of the members. This holds for every enumerator value the storage can hold, including bits 31..63 in 64-bit storage.",
 ["histories", "inputs"], "All states of an 8-bit flag set and all operations from each; every single bit position and pair for 16/32/64-bit storage.",
 SQ + "three fixed sequences are tested.",
 ["datas/flags.hpp"], [("bit per enumerator in a chosen integer", "datas/flags.hpp:es::Flags")],
 "explicit-state search over all states and operations of the flag set against a reference set",
 "Complete state graph for 8-bit storage, all bits and pairs for wider storage.")
prop("C11", "Small-float conversions are exact on decode and nearest-neighbour on encode",
 "Decoding any encoding of a small float format (half, the 10- and 11-bit unsigned ones, 8-bit and other mantissa/exponent splits, packed R11G11B10 triples), scalar or vector, gives exactly the value the format defines, including zero, subnormals, infinities and the sign of zero, and not-a-number stays not-a-number; encoding a decoded finite value gives back the same encoding. Encoding any other finite in-range float gives an encoding adjacent to it, and encoding is monotone.",
 ["inputs"], "All encodings of every format (all 65536 halfs and so on), scalar and vector paths, and for encode every representable value, every midpoint, its float neighbours and a stride over all float exponents.",
 SQ + "about ten constants are tested.",
 ["datas/float.hpp"], [("exponent rebias and mantissa shift", "datas/float.hpp:esFloat")],
 "total enumeration of the finite encoding space and of all rounding boundaries against an arithmetic reference",
 "Decode is checked on the whole space; encode on every representable value, midpoint and neighbour.")
prop("C12", "Texture and vertex element formats decode to their defined values",
 "For every supported pairing of element layout and numeric type, decoding the raw bytes gives each channel the value its layout and type define (integer unchanged, normalised to code divided by the largest code to float precision, where the lowest signed code goes just below -1 and 32-bit unsigned ones drop their lowest bit, small floats exact), in channel order with absent channels zero, reading only the element's own bytes. Sampling a strided buffer decodes every element in place and rejects strides smaller than the element and requests of the wrong kind; unsupported pairings are refused with an exception.",
 ["inputs", "configurations"], "Every (layout, type) pairing; every code of every channel with the other channels at extremes; all counts 0..4 and strides size-1..size+3.",
 SQ + "the format tests decode one buffer of a few elements for some pairings.",
 ["uni/format.hpp", "uni/internal/format_full.hpp", "uni/uni_format.cpp"], [("codec registry keyed by layout and data type", "uni/uni_format.cpp"), ("per-pair decoders", "uni/internal/format_full.hpp")],
 "exhaustive enumeration of pairings and per-channel codes on the real codecs against a reference decoder",
 "Channels are checked over every code with neighbours at extremes; element over-reads detected with AddressSanitizer on exact-size buffers.")
prop("C13", "String view searches and edits like the standard string",
 "Every query on a string view (find, reverse find, the first/last-of and not-of families, compare and relational operators, substrings, copy, prefix/suffix removal, resizing, swapping, iteration, conversion and unformatted streaming) gives the same answer as the standard string holding the same characters, for every character type, all contents, needles, positions and counts, including embedded zeros and empty views. Positions past the end raise the same out-of-range error where the standard string raises it (at, substr, copy, compare of parts), and no call reads outside the viewed characters.",
 ["inputs"], "All strings up to length 5 (thorough 7) over a 3-letter alphabet with the zero and a negative character, all needles up to length 3 (4), all positions 0..len+2, npos-1 and npos, all counts; wide, 16- and 32-bit characters to length 4 (6).",
 SQ + "no test calls the search functions.",
 ["datas/string_view.hpp", "datas/internal/string_view.inl"], [("hand-written search loops", "datas/internal/string_view.inl")],
 "exhaustive enumeration of all bounded strings, needles and positions against std::string",
 "Small-scope exhaustive; run with AddressSanitizer on exact-size buffers.")
prop("C14", "A parsed path splits into folder, name and extension that rebuild it",
 "For every path string, the folder (with its trailing separator), file name and extension reported concatenate back to the path (with backslashes normalised to slashes), the extension is the part from the last dot of the last component (none when the only dot is the very first character of the path), the folder ends at the last separator, exploding lists the components between separators in order, and loading a new path, also an empty one, replaces all earlier results. Branch catching gives the folder's text before the path's first component joined with the path when the folder contains that component, and otherwise the folder followed by the file name; nothing reads outside the strings.",
 ["inputs", "histories"], "All paths up to length 6 (thorough 8) over {a, b, '.', '/', '\\\\'} and up to 11 (14) over {'.', '/'}, narrow and wide; all ordered pairs of paths up to length 4 (5) for reuse; all path/folder pairs up to length 5/4 (6/5) for branch catching.",
 SQ + "five fixed paths are tested.",
 ["datas/fileinfo.hpp"], [("last separator / last dot positions recorded at load", "datas/fileinfo.hpp")],
 "exhaustive enumeration of all bounded path strings against a reference splitter",
 "Small-scope exhaustive; run with AddressSanitizer.")
prop("C15", "Textual numbers set reflected members with exact value or defined clamping",
 "Setting a reflected numeric member from text stores the number when it fits, and otherwise stores the nearest limit and reports out-of-range; a negative number for an unsigned member is stored modulo the member's width and reported as a sign mismatch, and malformed or empty text reports invalid input and leaves the member unchanged. This holds for every integer width, signedness, floating type (whose nearest limits are the largest and the smallest normal number of the text's sign), bit-field member, sign, base prefix (0x, -0x), padding and surrounding whitespace. The typed integer/float setters store what a C++ conversion of the number to the member's type gives.",
 ["inputs", "configurations"], "8-bit members: every value in +-1200, 16-bit: every value in +-70000 (decimal and hex); every type: all values within 2 of every power of two up to 2^66 and of ten up to 10^23 x 5 leading x 9 trailing decorations x 3 zero paddings x sign forms; all texts up to length 5 (6 thorough) over 9 characters; floats: all 2^21 (2^27 thorough) leading bit patterns, doubles all 2^17 (2^20) x 3, all texts up to length 6 (7) over 8 characters and 19 mantissas x 841 exponents; bit fields: 148 layouts covering every member width of 8 to 64 bit storage, signed and unsigned, x all values (width <= 9) or limit neighbourhoods x 3 storage fillings.",
 SQ + "reflector tests check about ten literals per width.",
 ["datas/reflector.cpp", "datas/reflector.hpp", "datas/internal/reflector_class.hpp"], [("sign and range checks with per-width limits", "datas/reflector.cpp")],
 "exhaustive enumeration of boundary values and short literals against an arbitrary-precision reference parser",
 "Exhaustive within the literal alphabet and the limit neighbourhoods.")
prop("C16", "Setting a reflected member changes that member and nothing else",
 "Any reflective set, by index or name, with or without element index, changes only the addressed member or element of the object; a set that addresses nothing it can set (unknown name, bad index or element, a member of another kind) changes nothing and reports an error, and malformed text is reported and never reaches beyond the addressed member. Bytes of the object outside the addressed member, sibling bit-field members and memory after the object are never touched, for every member kind and every index.",
 ["inputs", "histories"], "A class with 60 members of every kind; every member x 32 indices x 32 elements (in and out of range, up to 2^64-1) x all entry points by number and name x a text alphabet per kind, over two object fillings, with a whole-object image compare; all list texts up to 5 (thorough 7) tokens; nested members two levels deep; all ordered pairs of sets.",
 SQ + "tests only look at the member they set.",
 ["datas/reflector.cpp", "datas/internal/reflector.inl", "datas/internal/reflector_class.hpp"], [("type/offset table driven stores", "datas/reflector.cpp")],
 "exhaustive enumeration of set operations from several object states with whole-object frame checks against a reference object",
 "Exhaustive over member kinds, indices and a value alphabet; run with AddressSanitizer.")
prop("C17", "A reflected value printed as text and set back gives the same value",
 "For every reflected member (numbers, booleans, strings, enums, flags, vectors, matrices-as-arrays, fixed arrays, nested classes and arrays of them, bit-field members), reading it as text and setting another instance from that text yields an equal member, to the printed precision for floating values. Element access by index agrees with the printed whole, and nested classes reached by name, index or array element are the same storage as the C++ member.",
 ["inputs"], "60 members of every kind; all 8-bit values, every 37th (thorough: all) 16-bit value, +-1 around every power of two and ten, floats over every exponent (doubles every 7th) x 7 mantissas, every named flag subset and enumerator, in every element position; combinations for up to 4 elements; all strings up to 4 (5) over 13 characters; 27 indices x 27 elements.",
 SQ + "round trips are checked for a few fixed values.",
 ["datas/reflector.cpp", "datas/reflector.hpp", "datas/refl_array.hpp"], [("GetReflectedValue formatting and SetReflectedValue parsing", "datas/reflector.cpp")],
 "exhaustive enumeration of member kinds and value alphabets on the real reflector; differential round trip and reference formatting",
 "Exhaustive within the value alphabets.")
prop("C18", "Enums and flags convert between names and numbers without loss",
 "Every declared enumerator prints as its declared name and its name (case as declared) sets exactly its value, for every underlying width and sign and every explicit or implicit value; unknown names are refused without changing the member. Flag members print exactly the names of the set bits and setting 'A | B' sets exactly those bits, for bits up to the width of the storage.",
 ["inputs", "configurations"], "704 declared enums: every combination of value forms (implicit, decimal, hexadecimal, octal, negative, largest) for three enumerators x 7 width/scope forms, plus duplicates, negatives, 63 enumerators; all enumerators, neighbouring and (8 bit) all values, near-miss names; flags over all 256 8-bit storages, every bit and pair of 16 and 64 bit storages, all pairs (small enums: triples) of names. Oracle: the compiler's enumerator values.",
 SQ + "five enums are tested by a few names each.",
 ["datas/internal/reflector_enum.hpp", "datas/internal/reflector_enum_reg.hpp", "datas/reflector.cpp"], [("compile-time enum tables with name hashes", "datas/internal/reflector_enum.hpp")],
 "exhaustive enumeration of enumerators, flag subsets and near-miss names against a reference table",
 "Exhaustive over the declared enums and subsets listed.")
prop("C19", "A saved reflected object loads back equal, alone or amid other data",
 "Saving any reflected object in binary form and loading it restores every member and consumes exactly what was written, so several objects can be stored back to back and between other data. Loading data of another version of the class with as many members (reordered, renamed or changed in kind or size) restores the members both sides share, disturbs no other, reports stored values that do not fit, and leaves the stream at the end of the object; data with another number of members, or of another class, is reported and changes nothing. Members without a stored form or of unregistered classes and truncated or damaged input are reported without crashing.",
 ["inputs", "histories", "fault_sequences"], "Every scalar slot of a class of all member kinds x every value around each power of two (8-bit exhaustively; 16-bit in thorough) x fillings; all texts over 5 letters up to length 3 (thorough 5) and around each length encoding; four-level nesting leaf by leaf; all sequences of up to 3 (5) objects of 7 classes x 3 gaps x 5 placements; all pairs of member subsets and orders of a 5-member class x renamings; all 31 x 31 pairs of member kinds x 36 value pairs; all truncation points; all (quick: a sixth of the) values of every byte.",
 SQ + "one object is saved and loaded once into the same class.",
 ["datas/reflector_io.cpp", "datas/reflector_io.hpp"], [("per-member records keyed by name hash with stored type and size", "datas/reflector_io.cpp:ReflectorBinUtil")],
 "exhaustive enumeration of object states, store sequences, schema pairs and truncations on the real serializer against a reference object model",
 "Exhaustive within the alphabets; run with AddressSanitizer.")
prop("C20", "A saved type database describes the same classes and enums after loading",
 "Saving a set of reflected classes and enums and loading it yields, for every one of them, the same name, members in order, names, hashes, aliases, descriptions, kinds, sizes, offsets and enumerator values as the compiled-in description, wherever in a stream it is stored. Truncated or foreign input is refused without crash.",
 ["inputs", "fault_sequences", "histories"], "All subsets of up to 3 and of at least 13 (thorough: all 2^15) of 15 classes covering every declaration form; all 128 subsets of 7 enums x 5 class sets x 13 positions x 3 tails x 3 stream origins (quick: one in eight); all ordered triples of classes; all pairs of 20 databases in one stream, apart and into one description; all truncation points, all id bits, newer versions.",
 SQ + "one fixed set is saved and loaded, and alias hashes are not compared.",
 ["datas/reflector_io.cpp", "datas/reflector_io.hpp"], [("relocatable image with pointer fix-up lists", "datas/reflector_io.cpp:ReflectorIO")],
 "exhaustive enumeration of type subsets and stream placements with field-by-field comparison against the compiled-in descriptors",
 "Exhaustive over subsets of the feature set.")
prop("C21", "A reflected object saved as XML loads back equal",
 "Saving any reflected object to an XML node and loading it into a fresh instance restores every member, in the flat form and in the nested forms, for every member kind (C strings, which an object does not own, excepted) and every text content including markup characters and surrounding spaces, in memory and through a printed document; numbers keep their printed digits. Nodes with unknown names, missing members, bad indices or unregistered classes leave the other members loaded and never crash.",
 ["inputs"], "Every scalar slot of a class of all member kinds x value alphabets (all named flag sets, all enumerators) x 6 storage forms x in memory, raw and indented print; all texts over {a < & \" space '} up to length 3 (thorough 5) and {> ] { } - ;} up to 2 (4); 23 classes of every declaration form, all ordered pairs in one document and one loaded as the other; every node and attribute of the saved tree removed, emptied, renamed and extended by 48 names, given 18 values.",
 SQ + "one object per form is tested and its strings hold no markup.",
 ["datas/reflector_xml.cpp", "datas/reflector_xml.hpp", "datas/pugiex.hpp"], [("member to attribute/child mapping", "datas/reflector_xml.cpp")],
 "exhaustive enumeration of object states and tree mutations on the real XML mapping; differential round trip",
 "Exhaustive within the alphabets; run with AddressSanitizer.")
prop("C22", "A directory scan finds exactly the matching files, each once",
 "Scanning a directory lists every regular file at any depth (links to such files included) whose name contains one of the filters (every file when there are none), each exactly once with its usable path, and nothing else, for every directory tree and file name, with or without trailing separator and whether or not the file system provides entry types. Links to folders are neither followed nor listed, results accumulate until cleared. Clearing results or filters affects only the following scans, and an unreadable or missing directory yields an error or no entries, not a crash.",
 ["inputs", "histories"], "All directory trees up to 5 nodes (thorough 6) over 6 names x 7 filter sets x 5 spellings of the folder; trees up to 3 (4) nodes without entry types; all histories of 5 (6) operations out of 8; all pairs of 23 unusual names; all sets of up to 4 (10) of ten node kinds; up to 3000 files and depth 200; each folder in turn refused.",
 SQ + "one tree in the source directory is scanned.",
 ["datas/directory_scanner.cpp", "datas/directory_scanner.hpp"], [("recursive readdir walk with name filters", "datas/directory_scanner.cpp")],
 "exhaustive enumeration of bounded directory trees and scan histories against a reference walk",
 "Exhaustive up to the tree size; runs in a scratch directory.")
prop("C23", "File kind queries and directory creation match the file system",
 "The file type query reports File exactly for regular files (through links), Directory exactly for directories, Invalid for other kinds of node and Error for paths that cannot be examined. Creating the folders of a path (the text after the last separator being a file name) or of a set of files creates every missing level and nothing else, leaves existing nodes alone, and stops at components that are no folder. Creating a single folder succeeds exactly when it was created, with the given mode.",
 ["inputs", "histories"], "41 nodes of every kind, all 65536 mode values through a stand-in for the status query; all paths of up to 4 (thorough 5) components out of 10 in four spellings; all sets of up to 3 (4) of 14 file paths under 4 base folders; single folders over 15 paths x 9 modes x 3 masks.",
 SQ + "no test calls these functions.",
 ["datas/stat.cpp", "datas/stat.hpp", "datas/internal/stat_ix.inl"], [("stat mode classification; component-wise mkdir", "datas/internal/stat_ix.inl, datas/stat.cpp")],
 "exhaustive enumeration of node kinds and path shapes in a scratch directory against a reference model",
 "Exhaustive within the alphabet; runs in a scratch directory.")
prop("C24", "A borrowed buffer is used while it lasts, then owned memory takes over safely",
 "A container using the hybrid allocator over a caller's buffer keeps exactly the elements pushed through any sequence of linking, growth, copy, move, assignment, swap and destruction, using the buffer until it outgrows it; the borrowed buffer is never freed, never shared by two containers, never written past the part that was lent or after it was given back, and memory the container allocated itself is released exactly once. The hybrid deleter likewise destroys owned objects exactly once and unowned ones never.",
 ["histories"], "All operation sequences up to depth 4 (thorough 5) of 50 operations over two containers and two buffers lending 0, 1 or 3 elements, three element types; all deleter histories up to depth 4 (5) over two pointers.",
 SQ + "one sequence is tested.",
 ["datas/allocator_hybrid.hpp", "datas/deleter_hybrid.hpp"], [("allocator remembering the borrowed range", "datas/allocator_hybrid.hpp")],
 "explicit-state exploration of all bounded operation sequences against a reference vector, with allocation accounting",
 "Exhaustive up to the depth; AddressSanitizer and counting new/delete.")
prop("C25", "Polymorphic lists iterate every element and destroy exactly what they own",
 "A list interface over stored elements reports its true size, indexing and iteration visit each element once in order and agree with each other, and elements obtained by value from a list stay valid for their lifetime and are destroyed exactly once if and only if they are owned. This holds for every sequence of moves, conversions to a base interface and destruction.",
 ["histories"], "Lists of 0..3 elements, five storage flavours, all operation sequences to depth 3 (thorough 4) of 34 operations with lifetime accounting; value lists of 0..300 elements.",
 SQ + "no test instantiates these containers.",
 ["uni/common.hpp", "uni/list.hpp", "uni/list_vector.hpp", "uni/virtual_iterator.hpp", "datas/deleter_hybrid.hpp"], [("Element with conditional deleter; virtual iterator", "uni/common.hpp, uni/list.hpp")],
 "explicit-state exploration of all bounded operation sequences with lifetime accounting against a reference list",
 "Exhaustive up to the depth; AddressSanitizer and instance counting.")
prop("C26", "Pointer fix-up resolves every offset exactly once",
 "Fixing up an image's embedded offsets against a base turns each non-null offset into the address base+offset exactly once however often and in whatever order fix-up is requested, leaves null offsets null, and dereferences to the stored data; after the fix-up session is cleared and a fresh image is loaded it works again. 32-bit and 64-bit pointer forms behave alike.",
 ["histories"], "All sequences up to depth 3 (thorough 4) of 18 fix-up, assignment and clear-and-reload operations on two images of 3 pointers, every target pattern (null, shared data, another pointer) and four layouts with the root inside the image; chains of 1..40 pointers requested three times in every rotation.",
 SQ + "no test uses these pointers.",
 ["datas/pointer.hpp"], [("list of already fixed slots per thread", "datas/pointer.hpp:es::Pointer_t")],
 "explicit-state exploration of all bounded fix-up histories against a reference image",
 "Exhaustive up to the depth for both pointer widths.")
prop("C27", "Name hashes equal the published Jenkins hashes for every length",
 "The one-at-a-time hash (canonical form; the default form is the same recurrence with each step carried out in 64 bits and cut back to 32) and the lookup3 hash (hashword over the key padded with zeros to whole words) give the published algorithm's value for every input string and seed, identically at compile time and at run time and for every way of passing the string (literal, view, pointer and length); inputs are only read within their length. Hash values compare equal exactly when equal and order strictly and totally.",
 ["inputs"], "All lengths 0..66 (thorough 130) with every byte position taking every value, all strings up to length 4 (5) over 8 byte values including 0 and those above 127, six seeds.",
 SQ + "no test compares a hash to its definition.",
 ["datas/jenkinshash.hpp", "datas/jenkinshash3.hpp"], [("constexpr recursive hashes", "datas/jenkinshash.hpp, datas/jenkinshash3.hpp")],
 "exhaustive enumeration of lengths, byte positions and byte values against reference implementations",
 "Exhaustive over length and single-position variations.")
prop("C28", "Text conversion between UTF-8, UTF-16 and wide strings loses nothing",
 "Converting any sequence of Unicode scalar values, given as C string or string object, from UTF-16, UTF-32 or the platform's wide form (UTF-32 where wide characters have 32 bits) to UTF-8, or from UTF-8 to the wide form, gives the standard encoding, and converting back restores it, for every code point and every adjacent combination, embedded zeros and empty text included. Ill-formed UTF-8 (bad lead or continuation bytes, overlong forms) and code points above U+10FFFF raise a range error; text cut inside its last character converts up to that character or is refused.",
 ["inputs"], "All 1,112,064 scalar values singly, and all sequences up to length 3 (thorough 4) over 12 boundary code points; all byte strings up to length 3 (4) over 23 lead/continuation bytes.",
 SQ + "no test converts text.",
 ["datas/unicode.hpp", "datas/tchar.hpp"], [("codecvt-based conversions", "datas/unicode.hpp")],
 "total enumeration of code points and exhaustive short sequences against a reference encoder",
 "Every code point is covered; sequences up to length 3 over boundaries.")
prop("C29", "Vector types compute lane by lane, identically in scalar and SIMD form",
 "Every arithmetic, bitwise, shift, comparison, dot, cross, length, normalise, conversion, printing and element access operation of the 2-, 3- and 4-lane vectors gives lane-by-lane the same result as the scalar operator on that lane, for vector and scalar right-hand sides, with the SIMD and scalar variants agreeing and compound assignment agreeing with the binary form. Floating lanes compare equal within the (settable, for SIMD) epsilon; ordering comparisons hold when every lane is so ordered. Operands other than the target are not modified.",
 ["inputs"], "15 scalar and 3 SIMD types; all pairs of vectors over 8 (2 lanes), 7 (3 lanes, thorough 8) and 5 (4 lanes, thorough 6) ordinary and as many extreme lane values; every pair of 8x8 values in each lane; all unary operations over 8 values per lane.",
 SQ + "a few vectors are tested, and several scalar operators are never instantiated.",
 ["datas/vectors.hpp", "datas/vectors_simd.hpp"], [("operator templates and SSE intrinsics", "datas/vectors.hpp, datas/vectors_simd.hpp")],
 "exhaustive enumeration of operations over a lane-value alphabet against scalar references",
 "Exhaustive over the alphabets; a mixed-lane <= or >= (some lanes less, some equal), unsigned lanes above 2^31 converted to float and non-integral SIMD float to integer conversion are left unspecified.")
prop("C30", "Matrix algebra laws hold for transforms built from parts",
 "Composing a matrix from translation, rotation and scale and decomposing it returns the parts (uniquely when all scales have one sign, and always parts that compose to the same matrix); rotation from and to quaternions agrees up to sign for every rotation including half turns; the product applies the left transform to row vectors first and is associative with the identity as neutral element; the inverse times the matrix is identity; transposing exchanges rows and columns and twice is identity. Results hold to float accuracy for every combination.",
 ["inputs"], "About 950 rotations (all quaternions with components in -2..2 (thorough -3..3), 15 degree steps and turns within 1e-5 of a half turn about 7 axes) x 6 translations x 6 scales x 8 sign patterns; all pairs and triples of a sub-lattice of transforms.",
 SQ + "four single examples are tested.",
 ["datas/matrix44.cpp", "datas/matrix44.hpp"], [("SSE matrix operations", "datas/matrix44.cpp")],
 "exhaustive enumeration over finite rotation groups and a rotation/translation/scale lattice against double-precision references",
 "Exhaustive over the lattice with stated tolerances.")
prop("C31", "Block texture decoding gives each pixel its defined colour in place",
 "Decoding a block-compressed texture gives every pixel of the image the value defined by the block format's endpoints and index bits (blue first; interpolated values within one step, nine for the SIMD decoder's approximate colours), placed at its own coordinate, writing only inside the output. The first block of BC5 goes to the first output byte and the second to the next; with the computed blue option the third follows from the other two. This holds for every endpoint order, index and block position; the colour of fully transparent BC1 pixels is free.",
 ["inputs"], "Per format all index codes at all 16 positions, all endpoint channel values, both endpoint orders, images of 1..3 x 1..3 blocks.",
 SQ + "no test decodes a block.",
 ["formats/BlockDecoder.h", "formats/BlockDecoder.inl", "formats/BlockDecoderSimd.hpp"], [("block decode loops", "formats/BlockDecoder.inl")],
 "exhaustive enumeration of endpoint and index codes at every position against a reference decoder",
 "Exhaustive per channel and per position.")
prop("C32", "DDS headers describe their pixel data exactly",
 "For every pixel format (other than the video ones) and every width, height and mip count, the DDS header helpers report the correct bits per pixel (none for unknown codes) and block compression, and the sizes and offsets of one surface's levels: each level at least one pixel, whole 4x4 blocks when block compressed, contiguous and ending exactly at the total size, never writing more levels than the table has. Converting between legacy and extended headers keeps bits per pixel, block compression and the position of each colour channel, refuses without a change what has no counterpart, comes back to the same format, and only loses information (sRGB) when asked to. Headers have the documented layout and written and read back are equal.",
 ["inputs", "configurations"], "All 101 non-video extended and all legacy pixel formats x widths and heights 1..20 (thorough 33) and around powers of two up to 16384 x all mip counts of a full chain; level counts up to 79; every header word x 34 values. Sizes of packed 4:2:2 formats and of 1-bit images with partial bytes are not claimed.",
 SQ + "no test uses the DDS helpers.",
 ["formats/DDS.hpp"], [("size computation and format tables", "formats/DDS.hpp")],
 "exhaustive enumeration of formats and dimensions against a reference size model",
 "Exhaustive within the dimension set.")
prop("C33", "Swizzled texture addressing visits every pixel exactly once",
 "For every power-of-two texture size, square, wide, tall or a strip, the swizzled address mapping is a bijection from pixel coordinates onto 0..width*height-1 following Morton bit interleaving of the common low bits, the remaining bits of the longer side following above.",
 ["inputs"], "All power-of-two sizes up to 256x256, every coordinate.",
 SQ + "no test uses the addressing.",
 ["formats/addr_ps3.hpp"], [("Morton bit spreading", "formats/addr_ps3.hpp")],
 "total enumeration of coordinates of all bounded sizes against a reference interleaving",
 "Total for sizes up to the bound.")
prop("C34", "Encrypted data decrypts to the original in every cipher mode",
 "Encrypting then decrypting any buffer with the same key, mode and initialisation vector restores it, leaves bytes after the last whole block unchanged and touches nothing outside the buffer. The block cipher produces the published Blowfish ciphertexts for every non-empty key, including keys with bytes above 127, the second variant its byte-reversed counterpart however the key is given, and every mode follows its definition. Every call starts from the set vector and leaves it unchanged, so cutting a buffer at block boundaries and carrying the chaining value over gives the same bytes; the XOR cipher is its own inverse for every key length including none.",
 ["inputs", "histories"], "Published test vectors; key lengths 1..80, every key byte value at every position of keys up to 8 (thorough 16) bytes, thorough all 2-byte keys; blocks with every one or two bits set or clear; every mode x 4 vectors (thorough 68) x lengths 0..48 (96); all cuts of up to 7 (10) blocks; all sequences of 5 (6) calls over 11 operations.",
 SQ + "the ciphers are not compiled by the build at all.",
 ["datas/encrypt/blowfish.cpp", "datas/encrypt/blowfish.h", "datas/encrypt/encryptor.hpp", "datas/encrypt/xorenc.hpp"], [("Feistel rounds and chaining modes", "datas/encrypt/blowfish.cpp")],
 "exhaustive enumeration of keys lengths/bytes, modes, lengths and call splits against published vectors and a reference cipher",
 "Exhaustive within the stated alphabet; reference implementation validated with published vectors.")
prop("C35", "Core helpers: padding, trimming, tags and signed splitting are exact",
 "Alignment padding returns the smallest amount reaching the next multiple for every offset and power-of-two alignment; whitespace trimming removes exactly the leading/trailing whitespace of every string including empty and all-blank ones; four-character codes are built from the tag's bytes in order whatever their values, and a tag in an error message prints as its characters (or as hex bytes when any is not alphanumeric), stopping at the first zero or the given size and never reading beyond it; power-of-two, quantisation fraction, hex digit, end-of-container and dispose helpers give exact answers.",
 ["inputs"], "All offsets 0..9000 x alignments 1..65536 and all offsets within 3 of a power of two x all alignments; all strings up to length 6 (thorough 8) over 6 characters; all tag bytes per position for 1-, 2- and 4-byte tags, 4 byte values in every position of 8-byte tags.",
 SQ + "one padding example is tested.",
 ["datas/supercore.hpp", "datas/except.hpp"], [("inline helper functions", "datas/supercore.hpp"), ("FourCC decompile in exceptions", "datas/except.hpp")],
 "exhaustive enumeration of bounded inputs against reference definitions",
 "Exhaustive within the bounds.")
prop("C36", "Reflection metadata: names, aliases and descriptions lead to the same member",
 "Every reflected member can be looked up by its name and by its alias, and both reach the same member; listing members gives each exactly once in declared order with the name (or alias when asked), value and description declared for it; types registered at run time are found by their hash and unregistered ones are reported, and the settings help and log list exactly the declared settings.",
 ["programs", "inputs"], "Classes covering every declaration form (plain, extended, templated, nested), every member, every formatting option.",
 SQ + "a few members of two classes are looked up.",
 ["datas/reflector.cpp", "datas/reflector.hpp", "datas/settings_manager.hpp", "datas/internal/reflector_class_reg.hpp"], [("compile-time tables of names, hashes, aliases and descriptions", "datas/internal/reflector_class.hpp")],
 "exhaustive enumeration of declaration forms, members and formatting options against a reference description",
 "Exhaustive over the listed declaration forms.")
prop("C37", "RIFF/WAVE chunks are walked and described exactly",
 "A WAVE file produced with the provided headers (chunks padded to even sizes as RIFF requires) has consistent sizes, and walking its chunks from the first visits every chunk once and ends at the end of the file, for every chunk order and size; data and loop accessors point into their chunk, known chunks are recognised, and computed frame size and byte rate equal the block arithmetic for whole-byte samples. The audio headers have their documented size, identifiers and field positions.",
 ["inputs"], "All sequences of up to 3 chunks (thorough 4) over six chunk kinds and sizes 0..8 and around 256 and 65536; every chunk size below 2^18 (2^22) and around each power of two; all formats x 0..16 channels x 9 rates x 5 widths.",
 SQ + "no test uses the headers.",
 ["formats/WAVE.hpp", "formats/MSF.hpp", "formats/VAG.hpp", "formats/XVAG.hpp", "formats/FWSE.hpp"], [("header structures and next-chunk arithmetic", "formats/WAVE.hpp")],
 "exhaustive enumeration of bounded chunk sequences against a reference walk",
 "Exhaustive within the bounds.")
prop("C38", "A failing check makes the test run fail and names the case",
 "The unit testing helpers count every failing case and only those: the run result equals the number of failing cases, each failing case is named once in the output and its failing check reported once, a case stops at its first failing check, checks evaluate compound expressions as written, and expected-exception checks accept exactly the expected exception type. The loop macros the runner is built from visit every argument once, in order, for every supported argument count.",
 ["histories"], "Every check form (19) passing and failing, all sequences of up to 3 checks in a case, all outcomes of 4 cases over all triples of check forms; 1..89 loop arguments.",
 SQ + "tests only exercise the passing side.",
 ["datas/unit_testing.hpp", "datas/macroLoop.hpp"], [("check macros returning from the case", "datas/unit_testing.hpp")],
 "exhaustive enumeration of pass/fail histories against the expected count",
 "Exhaustive for up to 4 cases.")
prop("C39", "Scene interfaces give what they declare and refuse the rest",
 "Reading a transform or track value in a form its declared kind does not have raises an unsupported-call error (a runtime error), and in the declared form when the class does not provide it an unhandled-call error (a logic error); setting a property a class does not let be set raises a runtime error. Resampling vertex data applies the declared unpacking (none, add minimum, multiply by minimum, maximum plus value times minimum) to every element and lane; transform parts default to the identity and compare equal exactly when all three parts do; walking a skeleton or motion visits its bones or tracks once in order.",
 ["inputs", "configurations"], "All transform and track kinds x all getters; all unpack kinds x all lane value patterns from a 5-value alphabet x 0..4 elements; skeletons and motions of 0..64 elements; every (format, layout) pairing through a descriptor.",
 SQ + "no test touches these interfaces.",
 ["uni/model.hpp", "uni/motion.hpp", "uni/skeleton.hpp", "uni/rts.hpp", "uni/internal/model.inl", "uni/internal/motion.inl", "uni/internal/skeleton.inl", "uni/internal/exception.hpp"], [("refusals by declared kind", "uni/internal/exception.hpp:ThrowVoidCall"), ("unpacking", "uni/internal/model.inl:PrimitiveDescriptor::Resample")],
 "exhaustive enumeration of kinds, getters and value patterns on real implementations of the interfaces against a reference",
 "Total over the kinds; value patterns bounded.")
prop("C40", "XML files load and save as asked, and failures name what failed",
 "Saving a document to a file writes exactly what the chosen formatting flags, indentation and encoding mean, and loading gives exactly the tree the chosen parsing flags and encoding mean, so that a saved document loads back equal. A missing file, an unwritable file and a text without any element are each reported by their own exception, any other malformed text by a runtime error that names the file, the kind of fault and its offset, and node errors name the node, its place in the file and what is missing in it. Collecting children gives those of exactly the asked name, or all of them, in document order.",
 ["inputs", "configurations"], "All 2^14 sets of parsing flags and all 2^9 sets of formatting flags x 10 encodings over documents with every node kind; all documents built of up to 5 (thorough 6) steps; all texts of up to 4 (thorough 5) characters over a 12-character markup alphabet; all child lists of up to 5 (thorough 7).",
 SQ + "no test touches these helpers.",
 ["datas/pugiex.hpp"], [("loading and its errors", "datas/pugiex.hpp:XMLFromFile"), ("saving", "datas/pugiex.hpp:XMLToFile"), ("children", "datas/pugiex.hpp:XMLCollectChildren")],
 "exhaustive enumeration of flags, documents and short texts on the real helpers against pugixml used directly",
 "Documents and texts bounded; total over flags.")
prop("C41", "Python sees skeletons and motions as they are, with right ownership and errors",
 "Through the Python objects every name (any bytes), index, parent, transform, transform kind, duration, frame rate, motion kind, track kind, bone and sampled value is the native object's one, lists have its length and elements and can be iterated several times at once, enumerations give exactly their names and values, and setting the frame rate reaches the native object. Every operation that cannot succeed (index outside of the list or of a wrong type, times that are not numbers, wrong arguments, values that a track or bone cannot give, a frame rate that is missing, not a number or read only) leaves an error indicator and no result, changes nothing and never lets a C++ exception into the interpreter. Results carry their own reference, and once the last reference goes the Python object's memory and the native object it owns are freed exactly once, in whatever order objects are released.",
 ["inputs", "histories"], "All bone forests of up to 3 (thorough 4) bones x transform kinds x names x indexes; all lists of up to 4 (thorough 5) times of 6 classes x 7 track kinds x failing sample; all sequences of up to 3 (thorough 4) frame rate settings; list sizes to 257 x 14 index classes; all histories of 6 (thorough 7) list operations with two iterators and of 5 (thorough 6) object operations; every enumerator and every one-letter change of one.",
 SQ + "the only test is a Python 2 script of one skeleton and one motion that is not run here, and reference faults do not show in a short script.",
 ["uni/python/uni_python.cpp", "uni/python/pymotion.inl", "uni/python/pyskeleton.inl", "uni/python/pylist.hpp", "uni/python/pyenum.hpp", "uni/python/pyrts.hpp", "datas/python/matrix44.hpp", "datas/python/vectors.hpp", "datas/python/reflected_enum.hpp", "datas/pythonex.hpp"], [("sampling", "uni/python/pymotion.inl:MotionTrack::GetValues"), ("lists", "uni/python/pylist.hpp:List"), ("bones", "uni/python/pyskeleton.inl:Bone"), ("enumerations", "datas/python/reflected_enum.hpp:ReflectedEnumPy")],
 "exhaustive exploration of object graphs, arguments and call histories on the real binding code, run over a stand-in for the Python 2.7 C API that counts references and live objects",
 "The interpreter is the stand-in in harness/pystub (no Python 2 is installed); lifetime of borrowed native objects is the embedding program's duty; failing allocations are not explored.")
prop("C42", "Node suffixes and Havok presets say exactly what was asked",
 "The suffix of a 3ds Max node, after any history of added channels, colours and uses, is a bracket with U and the channels' numbers in ascending order when there are any, then N, S and M when normals, skin and morph are used, with the class name around it when one is given; a colour adds one channel however often it is asked for, generating a suffix changes neither the class name nor a later suffix, and the same holds in narrow and wide builds. A saved Havok preset is one child of the given node with the preset's name, its scale to six digits, its correction matrix as the signed axis letters of its non-zero elements in row order, and its extensions in order; it changes neither the preset nor the node's other children.",
 ["histories", "inputs"], "All histories of up to 5 (thorough 6) suffix calls over 13 calls; channel pairs from -130 to 130, up to 300 channels; all 3^9 matrices of 0, 1 and -1; 16 scales x 6 names x 5 extension lists.",
 SQ + "no test uses these helpers.",
 ["MAXex/NodeSuffix.h", "MAXex/hk_preset.hpp"], [("suffix", "MAXex/NodeSuffix.h:Generate"), ("presets", "MAXex/hk_preset.hpp:SaveHKPreset")],
 "exhaustive enumeration of call histories and presets on the real helpers against a reference",
 "3ds Max types are stood for by a minimal matrix; full colours are added at most once per suffix.")
prop("C43", "Operations on separate objects in several threads do not disturb each other",
 "A library operation running in one thread gives the result and leaves the bytes it gives when it runs alone, whatever another thread does at the same time with objects of its own, or when both only read (call const members of) one shared object: reflected text, numbers, enumerations, flags and subclasses, binary and XML saving and loading, the class database, streams, files, variable-length integers, byte swapping, hashes, character conversion, paths, directory scans, folder making, ZIP archives, vectors and their comparison tolerance, matrices, vertex formats, half floats, lists, pointers and allocators, ciphers, block decoders, DDS and WAVE layouts. This holds from the first use of each in the process on, neither operation waits for ever for the other, and no two such operations make unordered accesses to the same memory.",
 ["schedules", "inputs"], "51 operations, every ordered pair; a preemption of the first operation at every one of its basic blocks (other pairs up to block 700 in quick), two preemptions for pairs whose lengths multiply to at most 12000 (thorough 200000); first use of each in a new process at every block (thorough: every pair, up to block 600); data races of every pair.",
 SQ + "the tests run these operations in one thread only, and a shared buffer or cache gives the right answer there every time.",
 ["datas/*", "formats/*", "uni/*"], [("thread-local tolerance", "datas/vectors_simd.hpp:__V4SimdFltType_EPSILON"), ("thread-local printer", "datas/master_printer.hpp:MasterPrinterThread"), ("const encoders", "datas/encrypt/blowfish.cpp:Encode"), ("reflector text", "datas/reflector.cpp:GetReflectedValue")],
 "exhaustive exploration of preemption points of the real code under a controlled scheduler (basic-block instrumentation), plus happens-before race detection of every pair",
 "Types are registered before the threads start; a preemption happens only at the start of a basic block of library code; the C and C++ libraries and pugixml are taken to be thread safe; registration of printer functions and types from several threads at once is not claimed here.")
