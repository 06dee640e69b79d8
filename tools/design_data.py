HEAD = '''# Model checking PreCore

(generated by `tools/design.py` from `tools/design_data.py`, the harnesses and the findings)

## How every property is decided

All properties are decided by *bounded exhaustive exploration of the real code*: no abstraction of the code is checked,
the only models are the oracles, so there is no binding between model and code to keep up to date.

* **sequential properties** - a harness (`harness/Cxx.cpp`, compiled on every run with the sources of `/repo` it needs)
  enumerates *every* input, operation sequence, object state or declaration form up to the bound written below and
  compares each step of the real code with a small, boring reference written independently in the harness. Where there
  is state (streams, bit-fields, flag sets, containers, fix-up tables, scanners, cipher contexts, registries) it is an
  explicit exploration of operation histories from enumerated start states.
* **concurrent properties** (C01-C03) - stateless model checking of the real code: `harness/sched.hpp` interposes the
  pthread, semaphore, futex-free condition and sleep entry points, runs one thread at a time under a controlled
  scheduler and enumerates all schedules up to a preemption bound, with detection of deadlock, livelock and runaway
  schedules. Schedules are replayed from their choice list. The same driver bodies run free under ThreadSanitizer so
  that unsynchronised accesses *between* scheduling points do not go unnoticed.
* **faults** - truncation at every byte, single byte damage, failing or short streams, foreign data, refused folders and
  unregistered types are enumerated as part of the inputs.

Nothing is sampled: no random numbers are used anywhere, `VERIF_SEED` is recorded only.

`tools/check.py ID tier` reads the directives at the top of the harness, compiles its variants (usually an optimised and
an AddressSanitizer build of the same exploration; variants marked `+thorough` only in the thorough tier), runs the
sections as shards over 8 processes, re-runs a section that reported anything before reporting (replay), applies
`known_findings.json`, writes `evidence/ID.json` (distinct states, transitions, traces, time per section and what was
capped) and prints the `VIOLATION`/`KNOWN-FINDING` lines with a replay file (`check.py ID --replay FILE`). A crash,
sanitizer report, uncaught exception or hang inside a case is a violation of that case: every shard runs in a forked
process that publishes the case it is in. Memory is limited (3 GB per process) so that a runaway allocation is a
violation and not the end of the sandbox. The quick tier costs 3-40 s per property including compilation; the thorough
tier extends the alphabets and depths of the same enumeration (up to 10 minutes).

What the harnesses use of the code is its public interface only; they do not look at source text, names of locals or
layout of private members (exceptions: the pinned storage layouts that are part of a format).

No `/repo` hooks were needed; the commits in `/repo` are all `fix:` commits.

## Properties
'''
D = {}
def d(i, a, b, c): D[i] = (a, b, c)
d('C01', 'all schedules with up to 2 (thorough 3) preemptions of the real task queue with 1-4 cores reported and 0-9 tasks, tasks with results, throwing tasks, timed waits allowed to time out; free runs under ThreadSanitizer', 'call count of each task, number of tasks in flight, call has returned only after the last task, results in order, exception reaches the caller', 'a test sees one schedule; the lost wake-up, the early return and the empty core count only show under particular ones')
d('C02', 'all schedules up to the preemption bound of 2-3 threads writing messages to every mix of plain and coloured sinks, registering sinks meanwhile; all operation histories up to depth of one thread on each sink mix', 'list of messages each thread finished: sink text must be an interleaving of whole messages in per thread order', 'interleaving of partial messages needs a switch between two particular sink calls')
d('C03', 'all schedules up to the preemption bound of 2-4 threads opening, reading and closing entries of one mounted archive; archives of 1-2 byte entries, archives with every header field above 255 and 65535 bytes, two archives used by the same threads', 'the bytes stored', 'the shared stream position is only disturbed between one seek and its read')
d('C04', 'all archives of up to three entries over a set of names, sizes, methods, flag and extra field combinations; every truncation; damage of every header byte; real files; directory structures; size fields of every record around its limits', 'independent ZIP writer and reader', 'tests mount two archives')
d('C05', 'all values near every power of two and every 7 bit boundary, both signs; all sequences of such values up to length 3 (thorough 4); every truncation', 'reference codec, and position of the stream', 'the defect found needed a value below -2^55')
d('C06', 'all histories of writer/reader operations (write of each type, push/pop of origin, seek, skip, padding, swap setting) to depth 4 (thorough 5), all open errors, moves; containers, plain arrays and terminated texts of every size class to 131073 elements over targets already holding something', 'byte array with cursor, origin stack and swap setting', 'needs particular orders of push, seek, pop and swap')
d('C07', 'every 16 bit value; every byte pattern position of all scalar, class and array types, in all way/byte order settings; arrays, vectors and element-wise swaps of 127 to 100003 elements', 'byte reversal', 'arrays and nested classes recurse by type; one wrong specialisation is enough')
d('C08', 'every layout (composition) of 8 bits in 8, 16, 32, 64 bit storage with every storage value of 8 bits and every member value; wide layouts at bit boundaries', 'bit vector', 'tests use one layout')
d('C09', 'every layout of 8 bits x storage values x both directions; wide layouts', 'reference re-packing, member values equal, conversion is its own inverse', 'tests use one layout')
d('C10', 'every set value of 8 enumerators with every operation and operand; enumerators at 0, 7, 8, 31, 32, 63 in every storage; packs of up to 64 enumerators', 'std::set of enumerators', 'positions above 31 need 64 bit arithmetic')
d('C11', 'every half, 11, 10 and 8 bit code; every boundary float (codes, midpoints, neighbours), special floats; packed triples', 'double arithmetic from the IEEE-like definition, nearest neighbour by search', 'rounding, subnormals and zeros are single codes among 65536')
d('C12', 'every channel code of every format x other channels at extremes; every 16 bit element; every pairing of format and value type; strided sampling', 'decoder driven by the names of the formats', 'tests decode one element of a few formats')
d('C13', 'every pair of strings up to length 4-5 over three characters, each method and position, char and wchar_t; views of 254 to 65537 characters around the limits of narrow counters', 'std::basic_string', 'the wrong cases were matches at the end, empty views and positions past the end')
d('C14', 'every string up to length 7 (thorough 9) over letters, dot, slash, backslash; every pair for reuse of one object; paths of 200 to 70001 characters with a separator or dot at every position', 'reference splitter; parts rebuild the path', 'order of dots and separators')
d('C15', 'every value of 8 and 16 bit members and of 8/16/32/64 bit at boundaries, each with every decoration (blank, sign, base, suffix); every short text; float and double bit patterns by exponent and mantissa boundaries; bit-field members of every width', 'independent parser with exact integers', 'overflow and clamping are at single values')
d('C16', 'every member of a class holding every member kind x every index and element x a text alphabet x fillings; nested objects; every pair of sets; every arrangement of list punctuation; malformed and surplus elements at every index', 'byte image of the object; only bytes of the addressed element may change', 'neighbour damage is invisible to a test reading back one member')
d('C17', 'every value of narrow members, boundary values of others, all contents of 2-3 element arrays, strings over punctuation; reads by index and element; arrays of 255 to 60000 elements of every kind; enums nobody registered', 'reference printer; set into two differently filled objects gives the same bytes', 'single values (flags above bit 31, negative enumerators) fail')
d('C18', '96 generated enum declarations (class, sizes, literal bases, gaps, duplicates) x every storage value of 8/16 bits or neighbourhood of the enumerators x texts; flag lists of every length up to the width and long paddings; unknown names at every place of the list', 'values of the compiler', 'literals in other bases, top bits')
d('C19', 'every slot of every member kind x values x placement in streams; texts; all nested classes; object sequences; version pairs (reordered, renamed, added, removed, retyped members); truncation at every byte; damage of every byte; arrays of more than 255 elements and more than 65535 bytes, long texts', 'member by member comparison of two objects, stream position', 'nesting two deep, data in front or behind, cut files')
d('C20', 'all sets (up to 4) of 14 classes and 7 enums in one database, all placements, orders, several databases in one stream, truncations, foreign data; more than 255 types and enumerators in one database, long names', 'compiled-in descriptions field by field', 'aliases, offset placement and damaged input are not in tests')
d('C21', 'every slot x value and texts in six storage forms x three printings; all declaration forms; two objects in one document; documents of other classes; mutations of every node and attribute', 'object equality, node names and structure; nothing changes outside the object', 'markup text, nameless members, wrong indices')
d('C22', 'every tree of up to 4 nodes of files, folders, links, sockets, pipes, fifo; filters; histories of scan, clear, filter; d_type unknown file systems by an interposed readdir; refused folders; folders given with the closing quote a shell left; paths longer than 255 and 1024 characters', 'reference walk over the model tree', 'tests scan the project folder')
d('C23', 'every node kind, every st_mode value through an interposed stat, every path of up to 4 parts with existing prefixes, sets of files; files, folders and archives under a base folder other than the current one', 'model of the file system and the mode bits', 'sockets and block devices share mode bits')
d('C24', 'every history of container operations to depth 4 (thorough 5-6) for borrowed buffers of 0-4 elements, elements of several sizes up to 104 bytes, allocators with state and allocator-extended construction, allocation accounting', 'std::vector contents, who owns which block, bounds of the borrowed buffer', 'growth, copy and swap at particular fill levels')
d('C25', 'every history of list operations to depth 4-5 for every list flavour; lists beyond 255, 65535 and 100000 elements', 'reference list and lifetime counters', 'double or missing destruction depends on the flavour and history')
d('C26', 'every image of up to 4 slots x targets x fix-up order and repeats for 32 and 64 bit pointers; targets beyond 64 KiB and 2 GiB of the pointer where representable', 'reference image', 'resolving twice, resolving null, negative offsets')
d('C27', 'every length 0-64 x every byte value at every position (against a base), every string to length 3 over an alphabet, seeds, compile time against run time; strings of lengths to 70000 around 12 byte blocks', 'lookup3 / one-at-a-time from the publications', 'the tail switch differs by length modulo 12')
d('C28', 'every code point; every sequence of boundary code points to length 3; every byte string of lead and tail classes; terminated C strings of both widths', 'reference encoder', 'surrogate boundary and plane ends')
d('C29', 'operand tuples over an alphabet of signs, zeros, fractions, magnitudes and wrap limits for every operator, lane count, element type; lengths of vectors of extreme magnitude', 'scalar operator per lane; scalar and SIMD equal', 'one operator of one lane of one type may be wrong')
d('C30', 'rotations about every axis grid, translations, scales; pairs and triples; matrices of arbitrary (not only rotation) contents for product and transpose', 'double precision reference', 'sign and order errors cancel in symmetric examples')
d('C31', 'every endpoint pair by boundary, every index position, alpha mode; every block position in images of several sizes and pitches; blocks far from the origin of images up to 70000 blocks wide or high', 'format definition in exact arithmetic', 'the wrong block modes were not exercised by tests at all (no decoder test exists)')
d('C32', 'every format code x sizes 1-20 and powers of two x mips x arrays x cube; every header bit alone', 'model from the format name', 'no tests exist for DDS')
d('C33', 'every power-of-two size pair to 64x64 wholly (bijection), long strips, large textures at single bits', 'bit interleaving', 'collisions show for tall textures only')
d('C34', 'keys of every length 1-72 and byte class, blocks, modes, splits of a buffer into calls, call sequences, own key interface, xor; buffers of 127 to 131073 blocks in every mode, xor keys and data to 140003 bytes', 'Blowfish from its definition, published vectors', 'no tests exist')
d('C35', 'every text to length 6 over blanks, line ends, letters; every padding value/alignment near boundaries; every tag', 'definition', 'empty and all-blank views')
d('C36', 'every declaration form x member x name or alias x every operation and text, compared with the access by index; all names that are no member (prefixes, case changes, short strings); every subset and order of registrations of 8 types; help of six settings classes under every subset of registered types; every sequence of logs; member paths through deeply nested objects', 'tables written down by hand; expected help and log text', 'aliases, reordered bit-fields and unregistered types are not in tests')
d('C37', 'every sequence of up to 4 chunks of boundary sizes, format blocks, audio headers', 'list of chunks written', 'odd sizes')
d('C38', 'every outcome history of up to 4 cases x check kinds; loop macros of every argument count 0-88+; checks whose arguments are expressions with side effects or commas', 'expected failure count and message', 'a test framework error hides other failures')
d('C39', 'every interface getter x declared kind; resampling fractions; descriptor values; iteration', 'reference', 'refusals are never hit in tests')
d('C40', 'every parse and format flag set, encoding, small document, short text, child list, unusable file', 'pugixml called directly with its own constants; positions in the file', 'no test loads or saves through these helpers, and faults show only on odd flags, malformed texts or unusable files')
d('C41', 'every bone forest, list of times, index class, frame rate setting, enumerator name and history of list and object operations', 'the native objects, a count of live objects and references kept by the stand-in interpreter, and the error indicator protocol of the C API', 'Python 2 is not installed so the project cannot run its only script; leaks, missing references and escaping exceptions show only over histories')
d('C42', 'every history of suffix calls, every matrix of 0, 1 and -1, scales, names and extension lists', 'the definition of the suffix text; pugixml reading back the built and saved document', 'no test uses these helpers and wrong orders show only after particular histories')
d('C43', 'every ordered pair of 51 operations on own or shared constant objects; a preemption at every basic block of the first, two preemptions for short pairs, first use in new processes; every pair once under ThreadSanitizer', 'the result the operation gives alone in a process of its own; happens-before order of its accesses', 'a shared buffer, cache or chain vector gives the right answer in every single-threaded test')
TAIL = '''
## Corrected false alarms (properties or machinery, not the code)

* C29: epsilon equality is a tolerance, not bitwise; `INT_MIN / -1` and dot products of inexact operands are excluded.
* C30: quaternion convention, and transforms with non-uniform scale inverted twice, are not claimed.
* C31: tolerance of one step for interpolated colours (nine for the SIMD decoder).
* C01: the scheduler's thread table was too small for code that keeps many threads unjoined; it is larger now.
* C22: refused folders use real permissions of an unprivileged user, not an intercepted `opendir`.
* C38: the wording of failure lines is free; only the outcome, the counts and the values shown are claimed.
* C02: the matcher accepted empty messages as lost ones; they are skipped now.
* C03: the first exception of a process initialises the unwinder and adds scheduling points; the scheduler restarts once.
* C15: typed setters store the low bits of what they are given (pinned by the existing tests).
* C16: malformed texts: a bool becomes false with InvalidFormat (pinned); lists and flags with bad parts apply the valid ones.
* C17: floats below the smallest normal value are clamped when set.
* C19: restated - no type information is stored with an object, C strings and bit-fields at the root have no stored form.
* C21: carriage returns (XML line end normalisation) and C strings are excluded.
* C36: the log's file name was compared with the coarse clock; now with the clock the code uses.

## Limits

* Python bindings run over a stand-in for the Python 2.7 C API (`harness/pystub/Python.h`): no Python 2 is installed, and
  the code does not compile for Python 3. The stand-in models slots, references and the error indicator, not the language.
* `MAXex` (but its node suffix and preset helpers, C42) and the `*_win.inl` files need SDKs or systems that are not here;
  nothing is claimed for them.
* A BitFieldType with a single member does not compile; it is no declaration form.
* Member counts above 65535 per array, and elements above 255 bytes, are outside the 16 byte member record (known findings).
* A change that makes a harness fail to compile is reported as an error of the check (exit 2), not as a violation.
'''
CAUGHT = {}
