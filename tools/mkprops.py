#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties, in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "The loading cache behaves as a bounded least-recently-used cache",
  "For every sequence of gets and releases, a cache returns exactly the value the loader produces for the requested key, and an item that is still held is never evicted, overwritten or freed. When every slot of the key's shard is held the get reports failure and nothing else changes; otherwise the least recently used unheld item makes way, a get that fails to load takes no slot for good, and a resident key is served without calling the loader. The hit and miss counters match the history exactly and freeing the cache returns all of its memory.",
  ["histories", "configurations", "fault_sequences"],
  "all interleaved get/release sequences over any keys (negative and extreme values, colliding shards), any capacity and shard count, any placement of loader failures",
  "CacheTests use a handful of fixed capacities with int keys 0..n and always-successful loaders; they never model recency, never fail a load, and never use negative hash keys.",
  ["cache.c", "cache.h", "tree.c"],
  [("loading LRU cache", "cache.c: fiftyoneDegreesCacheGet / fiftyoneDegreesCacheRelease")],
  [("linked list + tree per shard", "recency order and key lookup", "cache.c")],
  ["return of get", "item contents while held", "loader calls", "hits/misses", "allocator balance"])

p("C02", "The loading cache is correct under every thread schedule",
  "When several threads get and release items concurrently, every item returned holds the value for the requested key for as long as that thread holds it, whatever the other threads do. Gets report failure only when every slot of the shard could be held, the counters add up to the number of gets, the threads never deadlock, and afterwards the cache works sequentially as if the gets had happened in some order.",
  ["schedules"],
  "all interleavings (at the granularity of individual memory accesses) of 2-4 threads performing gets and releases on few keys and small shards",
  "The multi-threaded tests depend on whatever schedule the OS picks, and look only at aggregate counts.",
  ["cache.c", "threading.c"],
  [("per shard mutex and atomic reference counts", "cache.c")],
  [], ["values observed while held", "counters", "deadlock", "use after free"])

p("C03", "The ordered tree behaves as an ordered map and stays balanced",
  "For every sequence of inserts, lookups, deletions and re-insertions the tree contains exactly the keys inserted and not deleted, finds each in its own node, and enumerates each of them exactly once. Its height never exceeds twice the base-two logarithm of its size plus two.",
  ["histories"],
  "all operation sequences over distinct signed 64-bit keys, including extremes, ordered, reversed and clustered insertions, deletions in any order, re-use of deleted nodes",
  "There is no test of the tree itself; the cache tests exercise a few insertions with small ascending keys.",
  ["tree.c", "tree.h"],
  [("red-black insert and delete", "tree.c")], [], ["find", "count", "in-order iteration", "depth"])

p("C04", "A collection's content does not depend on how it is stored",
  "For any data, any header form (explicit count or byte length, fixed or variable width) and any loading configuration (in memory, from file, cached with any capacity and concurrency, partly preloaded, or a chain of these), every item obtained by index or offset has exactly the bytes in the data, at any point of any history of gets and releases. Items held at the same time never disturb each other, the reported count and element size are those of the data (whose byte length is a multiple of any fixed element size), and the source position after creation is just past the collection.",
  ["inputs", "histories", "configurations"],
  "all data sets, header forms, configurations and access histories with several items held at once",
  "CollectionTests check a few fixed sizes with strings of one pattern and a fixed list of configurations.",
  ["collection.c", "collection.h", "cache.c", "file.c"],
  [("four collection implementations", "collection.c")], [], ["bytes returned by get", "header values", "file position"])

p("C05", "Bad requests and bad data files are refused cleanly by collections",
  "A request beyond the end of a collection, a data source shorter than its header claims, or a failing seek or read yields no item and a status saying why (or no collection at all) instead of foreign memory. The failure leaks no memory, file handle or cache slot, frees nothing twice, and leaves every other item, and later valid requests, unaffected.",
  ["inputs", "fault_sequences", "histories"],
  "any out-of-range index or offset, truncation at any byte, any header values, any placement of read and seek failures in a history of gets",
  "The tests only try one index past the end; no test truncates a file or fails a read.",
  ["collection.c", "string.c", "profile.c", "component.c", "file.c"],
  [("bounds checks and exception setting", "collection.c")], [], ["exception status", "null results", "allocator balance", "handles available afterwards"])

p("C06", "Searches over sorted data find an entry exactly when it is there",
  "Searching a sorted collection between any two indexes returns the index and the content of an entry that compares equal exactly when one exists in that range, and otherwise reports not found, whatever the size of the collection, including empty and single-entry ones. No search leaks or keeps hold of entries other than the one it returns, whether it succeeds, fails to find or meets an error.",
  ["inputs", "configurations"],
  "all sorted collections (every size from zero), all ranges, all present and absent keys, in every storage configuration",
  "The tests search one collection per configuration for entries that sit at regular positions.",
  ["collection.c", "value.c", "profile.c"],
  [("binary search", "collection.c: fiftyoneDegreesCollectionBinarySearch")], [], ["returned index", "returned item", "held items"])

p("C07", "Pools hand each resource to one holder at a time and never lose one",
  "For every sequence of taking and returning, a pool hands out distinct resources, refuses exactly when all of its resources are out, and can hand out all of them again after they come back. A pool of file handles reads the file independently through every handle, opens no more handles than configured, reports the reason when it cannot be created, and closes every handle exactly once when it is released.",
  ["histories", "fault_sequences", "configurations"],
  "all take/return histories, all pool sizes, any failure to create a resource at any point",
  "PoolTests take and return in one fixed order with no creation failures.",
  ["pool.c", "pool.h", "file.c"],
  [("lock-free stack of resources", "pool.c")], [], ["identity of items", "null on exhaustion", "open descriptors", "bytes read"])

p("C08", "Pools stay exclusive and complete under every thread schedule",
  "Whatever the interleaving of threads taking and returning resources, no resource is ever held by two threads, no thread is refused while a resource lies unused for the whole of its attempt, and once all are returned all can be taken again. No schedule makes the threads block for ever.",
  ["schedules"],
  "all interleavings, at memory access granularity, of 2-4 threads taking and returning resources, including histories in which a resource leaves and re-enters the pool while another thread is half way through taking it",
  "The multi-threaded pool tests rely on the OS schedule and cannot force a resource to leave and re-enter in a window of a few instructions.",
  ["pool.c", "threading.h"],
  [("double-width compare and swap", "pool.c")], [], ["identity of items held", "items available at the end"])

p("C09", "A shared resource lives exactly as long as somebody uses it",
  "For every sequence of acquiring, releasing, replacing and freeing, a user keeps seeing the resource that was active when it acquired, unfreed, until it releases; a replaced resource is freed exactly once, at the moment of its last release or of its replacement if unused. Acquiring always gives the newest resource, the reported use count equals the number of users, and shutting down frees everything exactly once.",
  ["histories"],
  "all sequences of acquire, release, replace, failed replace and free over any number of generations and users (the memory of the manager outlives them)",
  "The resource tests use two generations and a fixed order of release.",
  ["resource.c", "resource.h"],
  [("counted handles", "resource.c")], [], ["freed flag of each resource", "handle identity", "use count", "allocator balance"])

p("C10", "Replacing a shared resource is safe under every thread schedule",
  "When threads acquire, release and replace a shared resource concurrently, no user ever sees a freed resource, every resource that was replaced is freed exactly once after its last user is gone, and the one installed last remains active. No replacement is silently lost.",
  ["schedules"],
  "all interleavings, at the granularity of individual memory accesses, of several users and replacers, the manager being freed once no thread acquires or replaces",
  "The multi-threaded tests depend on the OS schedule and use a single replacing thread.",
  ["resource.c"],
  [("compare and swap of the active handle and of the use counter", "resource.c")], [], ["freed flag while held", "free counts", "active resource at the end"])

p("C11", "Memory accounting is exact and lossless",
  "With tracking on, the amount reported as allocated is always the sum of the sizes of the live allocations, the maximum is its highest value since the last reset, and both are right after any sequence of allocations and releases from any number of threads; allocated blocks are aligned as asked, hold their contents and do not overlap. A memory reader never moves past its end: an advance that does not fit is refused and leaves it where it was.",
  ["histories", "schedules", "inputs"],
  "all sequences of allocate, aligned allocate (counted as its size rounded up to the alignment), free, reset (forgets what was allocated before it, and precedes use by threads) over any sizes and alignments, from one or several threads under any interleaving",
  "MemoryLeakTests allocate three blocks in one thread.",
  ["memory.c", "memory.h", "tree.c"],
  [("sharded tree of allocation records", "memory.c")], [], ["allocated and maximum counters", "block contents", "alignment"])

p("C12", "Whole-file operations are exact or say they failed",
  "Reading a file into memory, writing a file, copying a file, taking its size and deleting it either have precisely their stated effect on the bytes and report success, or report a failure status that fits the cause; success is never reported for a short read, a short write or a missing file. Splitting and composing path names yields the same name for any mixture of directories, dots and extensions, and never writes past the given buffer. Looking for a data file finds the nearest one in that sub folder of the current directory or of any directory above it, and reports that there is none or no room for its path otherwise.",
  ["inputs", "fault_sequences"],
  "any contents and size (including empty and larger than the internal buffer), any path shape, any failure of open, read, write, seek or close at any point",
  "FileTests use one small file in one directory and never inject an I/O failure.",
  ["file.c", "file.h"],
  [("chunked copy and read", "file.c")], [], ["status", "bytes on disk", "buffer guard bytes"])

p("C13", "Temporary copies are private, reusable only if equal, and cleaned up safely",
  "A new temporary file is a byte-exact copy of its master, under a fresh name in the first usable candidate directory, and nothing else is created; a file offered for re-use was made from a master of the same name, starts with the same bytes as the master in the compared portion, and lies in one of the candidate directories. Clean-up deletes exactly the unused temporary copies of that master in those directories: never the master, never a file in use, never anyone else's file, and the count it reports is the number deleted.",
  ["inputs", "configurations", "histories"],
  "any set of files and directories (look-alike names, equal and unequal contents, unusable directories, files held open), any order of candidate directories, any number of copies",
  "FileTests use one directory, one master and at most a couple of copies.",
  ["file.c"],
  [("temp file naming, comparison and in-use detection", "file.c")], [], ["directory listing before and after", "contents", "status", "reported name"])

p("C14", "Reading a text file line by line loses and invents nothing",
  "For any file and any buffer that can hold its longest line, the callback receives every non-empty line exactly once, in order, without its line ending, regardless of where the buffer boundaries fall. Reading with a limit delivers exactly the first lines up to that limit, empty and missing files are handled cleanly, nothing outside the buffer is touched and the file is closed again.",
  ["inputs"],
  "all file contents (LF, CRLF, mixed, no final newline, empty lines, empty file), all admissible buffer sizes, all limits",
  "TextFileTests read one generated file with one buffer size.",
  ["textfile.c", "textfile.h"],
  [("refilled buffer scan", "textfile.c")], [], ["lines delivered", "buffer guard bytes"])

p("C15", "Reading a YAML file delivers every document's pairs faithfully",
  "For any file of documents made of one or more key and value lines, the callback receives each document once and in order with exactly its pairs, in order, trimmed of quoting, the colon and one white space after it, for any buffer that can hold the longest line and any sufficient key and value buffers. Limits stop at exactly the requested number of documents, longer keys or values are cut at the buffer size, pairs beyond the given array are left out, and no input makes the reader write outside the given buffers or loop for ever or leave the file open.",
  ["inputs"],
  "all well-formed documents of the supported form with any buffer sizes for the exact content, and arbitrary bytes for memory safety and termination",
  "YamlFileTests read one family of generated files with one set of buffer sizes.",
  ["yamlfile.c", "yamlfile.h", "textfile.c"],
  [("character state machine over a refilled buffer", "yamlfile.c")], [], ["documents delivered", "status", "buffer guard bytes"])

p("C16", "IP addresses are parsed to the right bytes or rejected",
  "Parsing the text of any IPv4 or IPv6 address in any accepted spelling gives its version and exactly its bytes, and text that is not an address is rejected or at least never touches memory outside the result or the text. Parsing depends only on the given range of characters, and comparison orders addresses of one version as their bytes do.",
  ["inputs"],
  "all addresses in all spellings (leading zeros, case, compressed zeros at any place, embedded IPv4, surrounded by other header text), and arbitrary strings",
  "The tests try some fifteen literals.",
  ["ip.c", "ip.h", "IpAddress.cpp"],
  [("segment iteration and byte emission", "ip.c")], [], ["type and bytes", "out of bounds accesses"])

p("C17", "Stored floating point numbers and coordinates keep their value",
  "Every single-precision number, including zero and subnormals, survives conversion to the stored form and back with its value unchanged in both the portable and the native representation, an infinity stays one and a not-a-number stays one. Conversion of any stored bit pattern gives the number those bits denote, and a coordinate string yields exactly its two numbers.",
  ["inputs"],
  "all 2^32 single-precision bit patterns, all pairs of them",
  "FloatTests check about twenty values.",
  ["float.c", "float.h", "coordinate.c"],
  [("explicit encode and decode", "float.c")], [], ["bit patterns"])

p("C18", "String helpers agree with their mathematical definition",
  "Case-insensitive comparison is a consistent total preorder on strings that agrees with comparing lower-cased characters, length-limited comparison compares exactly the given number of characters and stops at the first difference, and substring search returns the first occurrence of a non-empty text exactly when there is one. None of them reads past the terminator or the given length, for any bytes including those above 127.",
  ["inputs"],
  "all strings of any bytes and lengths, overlapping prefixes, empty strings and needles, buffers without slack",
  "There are no direct tests of these functions.",
  ["string.c", "string.h"],
  [("character loops", "string.c")], [], ["sign of result", "pointer returned", "memory accesses"])

p("C19", "The header list is unique, complete and searchable",
  "The unique headers built from any stream of header names contain every distinct non-empty name exactly once ignoring case, with its id, together with the constituent names of each combined header as segments in order, and nothing else. Looking a name up, with or without the upper-case prefix when that is enabled, finds the header of that name ignoring case exactly when it is present.",
  ["inputs", "configurations"],
  "all sequences of names: duplicates, differing case, empty names, one-letter names, combined names with any placement of separators, any number of segments; no name itself starts with the upper-case prefix where that is enabled",
  "HeadersTests use a few fixed lists.",
  ["headers.c", "headers.h"],
  [("unique list construction", "headers.c")], [], ["list contents", "index by name", "allocator balance"])

p("C20", "Evidence iteration delivers exactly the matching evidence, real and combined",
  "Iterating over evidence for a set of prefixes calls back exactly once per matching pair in order, with the converted value, stopping early when asked to, and returns that number; names are mapped to prefixes case-sensitively at the start only. Combined-header evidence is produced exactly for those combined headers all of whose parts are available, from the first of the given sources which has them all, with the parts' values joined in order and cut at the buffer size, and removing it leaves the evidence as it was.",
  ["inputs", "histories"],
  "all sets of headers, combined headers (of more than one part), evidence pairs under each prefix, prefix masks, buffer sizes (at least 2) and early stops; there is room for as many combined values as there are combined headers",
  "The evidence tests use three headers and fixed lengths.",
  ["evidence.c", "evidence.h", "pseudoheader.c", "pseudoheader.h"],
  [("evidence array with trailing pseudo evidence", "evidence.c, pseudoheader.c")], [], ["callback sequence", "counts", "allocator balance"])

p("C21", "Overrides take effect for exactly the evidence that names them",
  "Override values extracted from evidence are exactly those whose key names a required property, with the configured prefix, ignoring case, and each keeps the last applicable value; queries report presence and content for those properties and for no other. Profile identifiers and override lists in evidence are extracted exactly, in order and without inventing any for malformed text.",
  ["inputs", "histories"],
  "all lists of properties (names differ ignoring case and do not start with 51D_), prefix settings, evidence names and values (case variations, near misses, one-letter names, malformed and huge numbers), any order of additions",
  "OverridesTests check one name casing and a reset.",
  ["overrides.c", "overrides.h"],
  [("override arrays filled from evidence", "overrides.c")], [], ["values reported per property", "profile ids delivered"])

p("C22", "Required properties resolve to exactly the requested available ones",
  "From any request (a list, a separated string, a previous selection, or nothing at all) the selection contains each requested property that the data set offers exactly once, sorted ignoring case, each with its data set index, and nothing else; requesting nothing selects everything. Finding a property by name ignoring case, by data set index, or reading a name back by position are mutually consistent, and the evidence properties attached are those the data set gives for it.",
  ["inputs"],
  "all offered property names (non-empty, differing ignoring case) and all requests (duplicates, unknown names, mixed case, names that are prefixes of others, empty names, repeated separators), as array, string or existing selection",
  "PropertiesTests use three or four fixed names.",
  ["properties.c", "properties.h"],
  [("name filtering and sorted lookup", "properties.c")], [], ["selected names and indexes", "lookup results", "allocator balance"])

p("C23", "Loading, reloading and releasing a data set is all or nothing",
  "Whatever the configuration (in memory, streamed, temporary copy, re-used copy) a data set is initialised from exactly the bytes of the named file or block; a failed load or reload reports why, keeps the active data set working, and leaves no memory, file handle or temporary file behind. After a successful reload new users get the new data, earlier users keep the old until they release it, and then its memory and temporary file are gone. This also holds when several threads use and reload the data set at once.",
  ["histories", "configurations", "fault_sequences", "schedules"],
  "all sequences of init, get, release, reload from file and memory, failed reloads of every kind, in every configuration, and every interleaving of such sequences in several threads; a temporary copy shared by data sets goes with the last of them that streams from it",
  "There is no test of the data set life cycle in this repository.",
  ["dataset.c", "dataset.h", "resource.c", "file.c"],
  [("data set initialisation and replacement", "dataset.c")], [], ["data read by users", "status", "allocator balance", "directory listing"])

p("C24", "Profiles, properties, values and components resolve consistently",
  "In any valid data set, looking up a profile by id, a property or a value by name, or a component's pairs gives exactly the entity with that key and nothing for absent keys; iterating a profile's values for a property delivers exactly the profile's values belonging to that property, in order, and iterating profiles for a property and value delivers exactly the profiles that have it. This holds in every storage configuration, and every item taken is released exactly once.",
  ["inputs", "configurations"],
  "all generated data sets (any number of properties, values, profiles, components; properties without values, profiles without values, values at the ends of the ranges) and all present and absent keys",
  "No test in this repository touches profiles, values, properties or components.",
  ["profile.c", "property.c", "value.c", "component.c", "string.c"],
  [("binary searches and linked offsets", "profile.c, value.c, property.c, component.c")], [], ["entities returned", "callback sequences", "held items"])

p("C25", "Running out of memory is reported, never fatal",
  "If any single allocation, or every allocation from some point on, fails during the creation or use of a cache, pool, collection, header list, evidence, property selection or data set, the operation reports failure through its documented channel without crashing. Everything allocated before the failure can still be released, nothing is leaked or freed twice, and repeating the operation once memory is available succeeds.",
  ["fault_sequences"],
  "every allocation index within each scenario, single and persistent failures, in builds where assertions are off (several assertions state that memory was there)",
  "No test makes an allocation fail.",
  ["cache.c", "pool.c", "collection.c", "headers.c", "evidence.c", "properties.c", "overrides.c", "file.c", "dataset.c"],
  [("null checks after allocation", "throughout")], [], ["return values", "allocator balance", "result of the retry"])

p("C26", "Every status and exception is explained in full",
  "Each status code yields its own message with the file name inserted in full exactly where the message calls for it, however long that name is and whatever characters it contains, and unknown codes are named by number. Exception messages contain the status message, source file, function and line in full.",
  ["inputs"],
  "all codes, known or not, including extreme integers; file names of any length and content, or none; any source position",
  "StatusTests use one short file name.",
  ["status.c", "exceptionsc.c", "Exceptions.cpp"],
  [("sized formatting", "status.c, exceptionsc.c")], [], ["message text", "memory accesses"])

p("C27", "Typed results say exactly what the stored values say",
  "Reading a property's result as text, boolean, integer, decimal or list gives the conversion of exactly the stored values: one value converts, several are joined for text and refused for scalar types, none or an unknown property gives a no-value with the engine's reason and message. Asking by name in any case or by index gives the same answer, and taking the value of a no-value raises the error for its reason.",
  ["inputs"],
  "all lists of stored values (those read as numbers are numbers within range), all reasons, all property names and indexes including invalid ones",
  "EngineTests and ValueTests check a few literals.",
  ["ResultsBase.cpp", "ResultsBase.hpp", "Value.hpp", "Exceptions.cpp"],
  [("type conversion on top of the engine's values", "ResultsBase.cpp, Value.hpp")], [], ["values, reasons, exceptions"])

p("C28", "Configuration and evidence wrappers reflect exactly what was set",
  "Each configuration wrapper reads back the last value set and passes precisely that to the engine, independent copies are taken of everything passed in, and asking questions never changes the answer to later questions. The evidence map converts to exactly its recognised entries, each with the right prefix, name and value, as often as it is asked and after any modification, and all memory is returned.",
  ["histories", "inputs"],
  "all sequences of setters, getters and conversions with any strings without NUL, lists and sizes",
  "The wrapper tests set one value and read it once.",
  ["ConfigBase.cpp", "CollectionConfig.cpp", "RequiredPropertiesConfig.cpp", "EvidenceBase.cpp", "IpAddress.cpp"],
  [("copies held by the wrappers", "ConfigBase.cpp, RequiredPropertiesConfig.cpp, EvidenceBase.cpp")], [], ["getters", "native structures", "allocator balance"])

p("C29", "Reusable buffers and item lists keep what they hold",
  "A buffer that is asked for any sequence of positive sizes always has at least the requested room, is reallocated only when too small, and is freed once; a list holds every added item until it is released, returns each by position, and releases each item exactly once.",
  ["histories"],
  "all sequences of size requests, resets, additions (up to the capacity asked for) and releases",
  "There are no direct tests of buffers, and lists are filled once.",
  ["data.c", "data.h", "list.c", "list.h"],
  [("used/allocated bookkeeping", "data.c, list.c")], [], ["room and contents", "release calls", "allocator balance"])

p("C30", "Signals wake waiting threads and are never lost",
  "A thread waiting on a signal proceeds exactly when the signal has been set since it last proceeded, whether the set happened before or during the wait, and a new signal lets the first waiter through according to its initial state. No schedule of setters and waiters loses a wake-up or lets more waiters through than there were sets.",
  ["schedules"],
  "all interleavings of setting and waiting threads at memory access granularity",
  "ThreadingTests only ask whether the library is thread safe.",
  ["threading.c", "threading.h"],
  [("condition variable with a flag", "threading.c")], [], ["wake-ups per set", "deadlock", "allocator balance"])

p("C31", "All build variants give the same answers",
  "Given the same inputs, the full build, the memory-only build, the single-threaded build and the build without exceptions produce identical results for every operation they have in common.",
  ["configurations", "inputs"],
  "all generated operation scripts over the shared API, in each build variant; requests that are refused are compared between builds with exceptions only, the others being documented to make no checks",
  "The tests are compiled in one variant only.",
  ["collection.c", "cache.c", "pool.c", "resource.c", "string.c", "headers.c", "memory.c", "exceptions.h", "threading.h"],
  [("conditional compilation", "throughout")], [], ["recorded result trace of each variant"])

p("C32", "Metadata objects and engine metadata are faithful and ordered consistently",
  "A metadata object returns exactly what it was built from, stays the same when its sources or copies change, and equals another exactly when the keys are equal; value keys are strictly and totally ordered consistently with equality. An engine's evidence keys are exactly the distinct keys for its plain headers and overridable properties, its update address is the explicit one or else composed from licence, product and type, and automatic updates are on exactly when there is an address.",
  ["inputs", "histories"],
  "all field contents, all pairs and triples of keys, all header lists, override lists and address settings",
  "The metadata tests build one object; the engine tests use fixed keys.",
  ["ComponentMetaData.cpp", "PropertyMetaData.cpp", "ProfileMetaData.cpp", "ValueMetaData.cpp", "EntityMetaData.hpp", "MetaData.cpp", "EngineBase.cpp"],
  [("value objects", "*MetaData.cpp"), ("key list and URL", "EngineBase.cpp")], [], ["getters", "operators", "keys", "URL"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
