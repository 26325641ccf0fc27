"""Which harness, build variant and sources decide each property."""
DEBUG = ["-D_DEBUG"]
W = ["-w"]
SAN = ["-fsanitize=address,bounds,integer-divide-by-zero,return,vla-bound", "-fno-sanitize-recover=all",
       "-fno-omit-frame-pointer"]
INIT = ["-ftrivial-auto-var-init=pattern"]
# Arithmetic as in the repository's own unoptimized build, where overflow wraps (abs(INT_MIN) is negative).
WRAP = ["-fwrapv", "-fno-strict-aliasing"]
VARIANTS = {
    # the library as the tests build it, under AddressSanitizer
    "asan": dict(lib=["-g", "-O1"] + DEBUG + W + SAN + INIT + WRAP,
                 harness=["-g", "-O1"] + DEBUG + W + SAN + INIT,
                 link=["-fsanitize=address,bounds"]),
    # the same without asserts (a release build)
    "asan-release": dict(lib=["-g", "-O1", "-DNDEBUG"] + W + SAN + INIT + WRAP,
                 harness=["-g", "-O1", "-DNDEBUG"] + W + SAN + INIT,
                 link=["-fsanitize=address,bounds"]),
    # no sanitizer: speed, huge sizes
    "plain": dict(lib=["-g", "-O1"] + DEBUG + W + INIT + WRAP, harness=["-g", "-O2"] + DEBUG + W, link=[]),
    # every memory access calls back into lib/sched.hpp, which runs the threads as fibers
    "sched": dict(lib=["-g", "-O1", "-fsanitize=thread"] + DEBUG + W + INIT + WRAP, harness=["-g", "-O1"] + DEBUG + W, link=[]),
}
SCHED_LD = ["-Wl," + ",".join("--wrap=" + f for f in (
    "malloc free calloc aligned_alloc posix_memalign fread fseek sched_yield usleep pthread_mutex_init pthread_mutex_destroy "
    "pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy "
    "pthread_cond_wait pthread_cond_signal pthread_cond_broadcast").split())]
MEMORY_ONLY = ["-DFIFTYONE_DEGREES_MEMORY_ONLY"]
CHECKS = {
    "C01": dict(parts=[dict(src=["checks/c01.cpp"], variant="asan")],
        technique="stateful model-based property testing with loader fault injection",
        note="Random histories against an LRU reference model; sampled, single threaded, shards of up to about 50 slots."),
    "C03": dict(parts=[dict(src=["checks/c03.cpp"], variant="asan")],
        technique="stateful model-based property testing",
        note="Random histories against an ordered map with full comparison after each step; up to 120 nodes."),
    "C17": dict(parts=[dict(src=["checks/c17.cpp"], variant="asan-release")],
        technique="round-trip and reference-value property testing over bit patterns",
        note="Sampled in quick; every pattern of the drawn 2^20 blocks in thorough (not guaranteed to draw every block)."),
    "C18": dict(parts=[dict(src=["checks/c18.cpp"], variant="asan")],
        technique="property testing against reference definitions with guarded buffers",
        note="Strings up to about 80 bytes."),
    "C29": dict(parts=[dict(src=["checks/c29.cpp"], variant="asan")],
        technique="stateful model-based property testing with allocation fault injection",
        note="Random request sequences; list capacities up to 60."),
    "C14": dict(parts=[dict(src=["checks/c14.cpp"], variant="asan")],
        technique="property testing against a reference line splitter with guarded buffers",
        note="Files up to a few hundred bytes; blank lines count as no line."),
    "C16": dict(parts=[dict(src=["checks/c16.cpp"], variant="asan", cxx=["IpAddress.cpp"])],
        technique="grammar-based generation with round-trip and differential (inet_pton) oracles",
        note="Sampled addresses and spellings; malformed text is only required to be memory safe and deterministic."),
    "C19": dict(parts=[dict(src=["checks/c19.cpp"], variant="asan")],
        technique="property testing against a reference model of the unique header list",
        note="Up to 20 names per list."),
    "C04": dict(parts=[dict(src=["checks/c04.cpp"], variant="asan"),
            dict(src=["checks/c04.cpp"], variant="asan", prefix="memory-only", scale=0.3, libflags=MEMORY_ONLY, cflags=MEMORY_ONLY)],
        technique="stateful model-based and differential property testing over storage configurations",
        note="Random data and histories; up to 300 items and 4 collections on one file."),
    "C05": dict(parts=[dict(src=["checks/c05.cpp"], variant="asan", ld=["-Wl,--wrap=fread,--wrap=fseek"]),
            dict(src=["checks/c05.cpp"], variant="asan", ld=["-Wl,--wrap=fread,--wrap=fseek"], prefix="memory-only", scale=0.3, libflags=MEMORY_ONLY, cflags=MEMORY_ONLY)],
        technique="property testing with damaged inputs and injected read faults under AddressSanitizer",
        note="Random truncations, byte damage and single faults; up to 30 items."),
    "C06": dict(parts=[dict(src=["checks/c06.cpp"], variant="asan"),
            dict(src=["checks/c06.cpp"], variant="asan", prefix="memory-only", scale=0.3, libflags=MEMORY_ONLY, cflags=MEMORY_ONLY)],
        technique="property testing against a linear-search oracle",
        note="Up to 400 entries; failing comparisons and unreadable entries included."),
    "C24": dict(parts=[dict(src=["checks/c24.cpp"], variant="asan"),
            dict(src=["checks/c24.cpp"], variant="asan", prefix="memory-only", scale=0.3, libflags=MEMORY_ONLY, cflags=MEMORY_ONLY)],
        technique="property testing of generated data sets against an in-memory model",
        note="Random well-formed data sets (up to about 9 properties, 60 values each, 60 profiles) in mixed storage configurations."),
    "C07": dict(parts=[dict(src=["checks/c07.cpp"], variant="asan")],
        technique="stateful model-based property testing with creation faults and descriptor limits",
        note="Concurrency up to 40 and the largest possible (65535); single threaded."),
    "C12": dict(parts=[dict(src=["checks/c12.cpp"], variant="asan", ld=["-Wl,--wrap=fread"])],
        technique="stateful model-based property testing with injected device faults",
        note="Files up to 40000 bytes; faults are read errors part way and file size limits."),
    "C13": dict(parts=[dict(src=["checks/c13.cpp"], variant="asan")],
        technique="stateful model-based property testing against a model of the directory tree",
        note="Up to 3 masters, 4 directories and 14 operations per history; in use by this or another process."),
    "C09": dict(parts=[dict(src=["checks/c09.cpp"], variant="asan")],
        technique="stateful model-based property testing with allocation faults",
        note="Up to 3 managers and 70 operations per history; single threaded."),
    "C11": dict(parts=[dict(src=["checks/c11.cpp"], variant="asan", ld=["-Wl,--wrap=malloc,--wrap=aligned_alloc,--wrap=free"]),
                       dict(src=["checks/c11.cpp"], variant="asan", prefix="fresh", ld=["-Wl,--wrap=malloc,--wrap=aligned_alloc,--wrap=free"], cflags=["-DFIRST_USE"]),
                       dict(src=["checks/c11.cpp"], variant="asan", prefix="tracked", ld=["-Wl,--wrap=malloc,--wrap=aligned_alloc,--wrap=free"],
                            libflags=["-DFIFTYONE_DEGREES_MEMORY_TRACK_ENABLED"], cflags=["-DFIFTYONE_DEGREES_MEMORY_TRACK_ENABLED", "-DFIRST_USE"]),
                       dict(src=["checks/c11s.cpp"], variant="sched", ld=SCHED_LD)],
        technique="stateful model-based property testing with allocation faults, and schedule fuzzing",
        note="Up to 120 operations per sequential history; up to 4 threads with 8 operations each."),
    "C22": dict(parts=[dict(src=["checks/c22.cpp"], variant="asan")],
        technique="property testing against a reference selection with injected read and allocation faults",
        note="Up to 30 offered properties and 14 requested names."),
    "C20": dict(parts=[dict(src=["checks/c20.cpp"], variant="asan")],
        technique="property testing against a reference model of the evidence",
        note="Up to 8 headers and about 30 pairs."),
    "C21": dict(parts=[dict(src=["checks/c21.cpp"], variant="asan")],
        technique="stateful model-based property testing with allocation faults",
        note="Up to 8 properties and 14 pairs per evidence; values up to 32766 characters."),
    "C23": dict(parts=[dict(src=["checks/c23.cpp"], variant="asan-release"),
            dict(src=["checks/c23.cpp"], variant="asan-release", prefix="memory-only", scale=0.3, libflags=MEMORY_ONLY, cflags=MEMORY_ONLY),
            dict(src=["checks/c23s.cpp"], variant="sched", ld=SCHED_LD)],
        technique="stateful model-based property testing with damaged data, missing files and allocation faults; schedule fuzzing of concurrent reloads",
        note="A data set type written for the check; up to 14 operations per history; up to 4 threads of 5 operations with sequentially consistent interleavings."),
    "C15": dict(parts=[dict(src=["checks/c15.cpp"], variant="asan", ld=["-Wl,--wrap=fread"])],
        technique="grammar-based generation against the generated documents, metamorphic buffer sizes, and injected read faults",
        note="Up to 7 documents of 12 pairs, or one of up to 70000; malformed text is judged for memory safety, termination and independence of the buffer."),
    "C26": dict(parts=[dict(src=["checks/c26.cpp"], variant="asan", cxx=["Exceptions.cpp"])],
        technique="property and metamorphic testing of messages with allocation faults",
        note="Names up to 70000 characters; sampled codes."),
    "C27": dict(parts=[dict(src=["checks/c27.cpp"], variant="asan", cxx=["Exceptions.cpp", "ResultsBase.cpp"])],
        technique="property testing of typed results against the stored values",
        note="Up to 12 properties and 6 values each; numbers in range."),
    "C28": dict(parts=[dict(src=["checks/c28.cpp"], variant="asan", cxx=["Exceptions.cpp", "ConfigBase.cpp", "CollectionConfig.cpp", "RequiredPropertiesConfig.cpp", "EvidenceBase.cpp"])],
        technique="stateful model-based property testing",
        note="Up to 25 operations, 4 evidence maps; IpAddress is covered by C16."),
    "C32": dict(parts=[dict(src=["checks/c32.cpp"], variant="asan", cxx=["Exceptions.cpp", "ConfigBase.cpp", "RequiredPropertiesConfig.cpp", "EvidenceBase.cpp", "ResultsBase.cpp", "EngineBase.cpp", "MetaData.cpp", "ComponentMetaData.cpp", "PropertyMetaData.cpp", "ProfileMetaData.cpp", "ValueMetaData.cpp", "Date.cpp"])],
        technique="stateful model-based and algebraic-law property testing",
        note="Up to 8 value keys per set and 8 engine settings per history."),
    "C08": dict(parts=[dict(src=["checks/c08.cpp"], variant="sched", ld=SCHED_LD)],
        technique="schedule fuzzing: generated programs and thread schedules on an instrumented build, against exclusivity and completeness oracles",
        note="Up to 4 threads, 4 resources and 8 operations each; sequentially consistent interleavings at every memory access."),
    "C02": dict(parts=[dict(src=["checks/c02.cpp"], variant="sched", ld=SCHED_LD)],
        technique="schedule fuzzing: generated programs and thread schedules on an instrumented build, against value, refusal and counter oracles",
        note="Up to 4 threads, 3 shards of up to 9 slots and 7 operations each; sequentially consistent interleavings at every memory access."),
    "C30": dict(parts=[dict(src=["checks/c30.cpp"], variant="sched", ld=SCHED_LD)],
        technique="schedule fuzzing with a linearizability check of every history against an auto-reset event",
        note="Up to 5 threads, 2 signals and 4 operations each; POSIX implementation only."),
    "C10": dict(parts=[dict(src=["checks/c10.cpp"], variant="sched", ld=SCHED_LD)],
        technique="schedule fuzzing: generated programs and thread schedules on an instrumented build, with every freed block watched",
        note="Up to 4 threads and 7 operations each; freed memory is not reused within a case; one listed finding."),
    "C25": dict(parts=[dict(src=["checks/c25.cpp"], variant="asan-release", cxx=True),
            dict(src=["checks/c25.cpp"], variant="asan-release", cxx=True, prefix="memory-only", scale=0.3, libflags=MEMORY_ONLY, cflags=MEMORY_ONLY)],
        technique="allocation fault injection at every point of generated scenarios, differential against the undisturbed run",
        note="Scenarios of up to about 40 operations; a sample of the (allocation, single or persistent, give up or retry) points of each in quick."),
    "C31": dict(parts=[dict(src=["checks/c31.cpp"], variant="asan", nolib=True, interpreter="checks/c31_ops.cpp", ld=["-ldl"], shared={
            "full": ["-D_DEBUG"], "release": ["-DNDEBUG"], "memory-only": ["-D_DEBUG", "-DFIFTYONE_DEGREES_MEMORY_ONLY"],
            "single-threaded": ["-D_DEBUG", "-DFIFTYONE_DEGREES_NO_THREADING"], "cache-validate": ["-D_DEBUG", "-DFIFTYONE_DEGREES_CACHE_VALIDATE"],
            "without-exceptions": ["-D_DEBUG", "-DFIFTYONE_DEGREES_EXCEPTIONS_DISABLED"],
            "smallest": ["-DNDEBUG", "-DFIFTYONE_DEGREES_EXCEPTIONS_DISABLED", "-DFIFTYONE_DEGREES_MEMORY_ONLY", "-DFIFTYONE_DEGREES_NO_THREADING"]})],
        technique="differential property testing: generated scripts run in seven builds, their recorded results compared",
        note="Scripts of up to 120 operations on one part of the library at a time; one thread; the C library only."),
}
NOT_APPLICABLE = {}
