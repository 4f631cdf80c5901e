"""What each check runs.  A stage is one harness mode in one build variant:
quick/thorough are case counts, shards the number of processes they are split over."""
CHECKS = {}


def check(pid, technique, level, note, rule, stages, assumptions=(), require=None, **kw):
    CHECKS[pid] = dict(technique=technique, level=level, note=note, rule=rule, stages=stages,
                       assumptions=list(assumptions), require=require or {}, **kw)


def S(harness, variant, mode, quick, thorough, **kw):
    return dict(harness=harness, variant=variant, mode=mode, quick=quick, thorough=thorough, **kw)


check("C01", "online ordered-set model monitor under ASan/UBSan", "exploration",
      "Every operation of generated histories is compared with std::set; sizes up to tens of thousands; not exhaustive.",
      "A case is one list (key type, comparator, insertion pattern, size) with lookups and iterator moves between insertions; non-trivial with at least two insertions; distinct by key sequence.",
      [S("h_skiplist", "asan", "seq", 480, 6000), S("h_skiplist", "plain", "seq", 480, 12000),
       S("h_skiplist", "asan", "tall", 4, 24, shards=4)],
      ["the comparator is a consistent total order and keys are distinct, as the header requires"],
      {"inserts": 100000, "full_scans": 1000, "inserts_into_very_large_lists": 8000000})
check("C02", "readers at every atomic step of an insertion, controlled interleavings, ThreadSanitizer", "exploration",
      "Judges every reader result against the bounds given by insertions completed before and begun by the end; all steps of each insertion are observed, schedules of several readers are sampled; ordering weaker than x86 is judged by ThreadSanitizer only.",
      "A case is one list with its insertions and reader operations; non-trivial when a reader operation ran during an insertion; distinct by key order and schedule.",
      [S("h_skiplist", "asan", "step", 640, 6000, defs=("VH_STEP",), optional_build=True),
       S("h_skiplist", "plain", "fiber", 12000, 120000, defs=("VH_STEP",), optional_build=True),
       S("h_skiplist", "tsan", "conc", 96, 1200, shards=4, weight=4),
       S("h_skiplist", "plain", "conc", 400, 6000, shards=2, weight=4)],
      ["one writer at a time", "weak-memory reorderings are visible to ThreadSanitizer as races, not executed on this x86 machine"],
      {"reader_checks": 1000})
check("C03", "interval, pattern and accounting monitor under ASan; ThreadSanitizer for the usage figure", "exploration",
      "Every returned block is checked against all others of its arena and re-read; sizes from 1 byte to a little over 4 GiB, one to three arenas in turn; not exhaustive.",
      "A case is one to three arenas with a generated sequence of plain and aligned requests; non-trivial with at least two; distinct by the request sequence.",
      [S("h_arena", "asan", "seq", 800, 12000), S("h_arena", "plain", "seq", 1600, 30000), S("h_arena", "plain", "huge", 12, 60, shards=1),
       S("h_arena", "tsan", "conc", 32, 600, shards=4, weight=4)],
      ["requests are at least one byte, as the header requires; one allocating thread"],
      {"allocations": 1000, "usage_changes_seen_by_other_threads": 1})
CW = ("pthread_mutex_lock", "pthread_mutex_unlock")
check("C04", "online map-model monitor over generated histories under ASan/UBSan", "exploration",
      "Each lookup result is judged against the last insertion under that key and all removals seen; histories are generated, not enumerated.",
      "A case is one cache with a history of inserts, lookups, erases, releases and prunes over a key set (colliding, same bucket, binary, empty, long); non-trivial when at least one lookup hit, or with capacity 0; distinct by the history.",
      [S("h_cache", "asan", "map", 1600, 8000, wraps=CW), S("h_cache", "plain", "map", 4800, 30000, wraps=CW)],
      ["the sum of charges does not overflow"], {"lookup_hits": 1000, "insertions": 1000})
check("C05", "exact LRU reference model compared with deleter calls after every operation", "exploration",
      "The expected victim set of every operation is computed and compared; parts of the cache are discovered by displacement, so no internal constant is assumed.",
      "A case is one history over one cache with a capacity from 0 to the largest size value; non-trivial when an eviction happened; distinct by the history.",
      [S("h_cache", "asan", "lru", 2400, 8000, wraps=CW), S("h_cache", "plain", "lru", 4800, 30000, wraps=CW)],
      ["the sum of charges does not overflow", "an entry's recency is the moment its last handle was released"], {"evictions": 500})
check("C06", "per-entry deleter ledger, heap accounting under ASan, concurrent histories", "exploration",
      "Every entry is followed to exactly one deleter call with the right arguments at the right operation; concurrent runs check count, arguments and held handles.",
      "A case is one history ended by destroying the cache; non-trivial with more than one entry (concurrent: with overlapping operations); distinct by the history.",
      [S("h_cache", "asan", "del", 1600, 16000, wraps=CW), S("h_cache", "plain", "del", 3200, 40000, wraps=CW),
       S("h_cache", "tsan", "concdel", 16, 300, wraps=CW, shards=2, weight=4), S("h_cache", "asan", "concdel", 16, 400, wraps=CW, shards=2, weight=4)],
      ["all handles are released before the cache is destroyed, as the code asserts"], {"entries_followed_to_deletion": 1000, "heap_comparisons": 10})
check("C07", "per-key linearizability of recorded call/return histories; ThreadSanitizer; delays at lock boundaries", "exploration",
      "Each key's recorded history is searched for a legal order; schedules are sampled with random delays around every mutex operation.",
      "A case is a set of rounds of threads working on one cache, every key's history of a round checked; non-trivial when operations overlapped; distinct by the recorded timing.",
      [S("h_cache", "tsan", "conc", 96, 1800, wraps=CW, shards=2, weight=4), S("h_cache", "plain", "conc", 320, 9000, wraps=CW, shards=2, weight=4), S("h_cache", "asan", "conc", 24, 600, wraps=CW, shards=2, weight=4)],
      ["an entry may vanish at any moment in runs with eviction or pruning"], {"overlapping_event_pairs": 100, "ids_compared": 1000})
check("C08", "total charge compared with the sum over entries found by lookup", "exploration",
      "The reported total is compared with an independent sum obtained through lookups after operations and after concurrent rounds.",
      "A case is one history with comparisons at quiescent points; non-trivial when several entries were found, or with capacity 0; distinct by the history.",
      [S("h_cache", "asan", "charge", 800, 4000, wraps=CW), S("h_cache", "plain", "charge", 3200, 30000, wraps=CW),
       S("h_cache", "plain", "conccharge", 48, 1200, wraps=CW, shards=2, weight=4), S("h_cache", "tsan", "conccharge", 8, 100, wraps=CW, shards=2, weight=4)],
      ["the sum of charges does not overflow"], {"charge_comparisons": 1000})
check("C09", "independent reference codec compared on generated and swept values, exact-size buffers under ASan", "exploration",
      "Sequences and values are generated, with strings of up to 2^32-1 bytes; the quick run sweeps a sample of the 32-bit range, the thorough run all 2^32 values.",
      "A case is a sequence of encoded items after a prefix plus 400 single values, or one block of 2^20 values of the 32-bit range; distinct by content.",
      [S("h_values", "asan", "coding", 240, 4000), S("h_values", "plain", "coding", 400, 8000), S("h_values", "plain", "sweep", 4096, 4096), S("h_values", "plain", "vcoding", 4, 40, shards=1, weight=4, as_gb=48, mem_gb=16)],
      ["strings shorter than 4 GiB"], {"items": 1000, "values": 100000})
check("C10", "reference decoder compared on enumerated and generated byte strings in exact-size blocks under ASan", "exploration",
      "All strings up to 6 bytes over six boundary bytes are enumerated; longer inputs are generated from valid encodings by cutting, corrupting and padding, and payloads of up to 2^32-1 bytes are there, or lack a byte.",
      "A case is a share of the enumeration and 300 generated inputs, each through all five decoders; distinct by content.",
      [S("h_values", "asan", "decode", 8000, 120000), S("h_values", "plain", "decode", 16000, 300000), S("h_values", "plain", "vdecode", 1, 4, shards=1, weight=4, as_gb=48, mem_gb=16)],
      ["when significant bits beyond the width are set, only success and consumption are judged"], {"accepted": 1000, "rejected": 1000})
check("C11", "byte-wise reference order compared on enumerated and generated pairs in exact-size blocks under ASan", "exploration",
      "All pairs and triples of strings up to 3 bytes over five boundary bytes are enumerated; longer pairs are generated, up to strings of more than 4 GiB that differ in one byte.",
      "A case is one first string against all others and 120 generated pairs; distinct by content.",
      [S("h_values", "asan", "slice", 6000, 120000), S("h_values", "plain", "slice", 16000, 300000), S("h_values", "plain", "vslice", 1, 12, shards=1, weight=4, as_gb=48, mem_gb=16)],
      ["indexing and prefix removal within bounds"], {"pairs": 10000})
check("C12", "value model of statuses after every operation, heap accounting under ASan", "exploration",
      "Histories over six status objects; all six are compared after each step; messages of up to 2 GiB.",
      "A case is one history of creations, copies, moves, swaps and destructions; distinct by the operation sequence.",
      [S("h_values", "asan", "status", 4000, 80000), S("h_values", "plain", "status", 8000, 200000), S("h_values", "plain", "vstatus", 3, 24, shards=1, weight=4, as_gb=48, mem_gb=16)],
      ["a moved-from status is only required to stay destructible and assignable"], {"histories": 100})
check("C13", "128-bit reference arithmetic and reference escaper on exact-size blocks under ASan", "exploration",
      "Boundary values are enumerated; digit strings with leading zeros (up to 2^32 of them), long runs and every following byte are generated.",
      "A case is 900 numbers, digit strings and escaped strings; distinct by content.",
      [S("h_values", "asan", "decimal", 1200, 40000), S("h_values", "plain", "decimal", 3200, 100000), S("h_values", "plain", "vdecimal", 1, 8, shards=1, weight=4, as_gb=48, mem_gb=16)], [], {"strings": 10000})
check("C14", "independent reference hash on exact-size blocks under ASan, at varied alignments", "exploration",
      "Generated strings of all tail lengths, seeds and alignments, and some of up to 4 GiB.",
      "A case is 250 strings hashed in three placements; distinct by content.",
      [S("h_values", "asan", "hash", 3200, 60000), S("h_values", "plain", "hash", 12000, 200000), S("h_values", "plain", "vhash", 2, 24, shards=1, weight=4, as_gb=48, mem_gb=16)], [], {"hashes": 10000})
check("C15", "64-bit modular reference for every seed; range and parity monitors on draws", "exploration",
      "All 2^32 seeds are tried for the first value (hence every state of the sequence); draws are sampled.",
      "A case is one block of 2^24 seeds, or one seed with its sequence and draws; distinct by seed or block.",
      [S("h_values", "plain", "seeds", 256, 256), S("h_values", "asan", "random", 3200, 60000), S("h_values", "plain", "random", 8000, 120000)], [], {"seeds_tried": 4294967296, "draws": 100000})

MW = ("pthread_mutex_lock", "pthread_mutex_unlock")
check("C16", "online file-system model monitor under ASan/UBSan, heap accounting", "exploration",
      "Every call of generated histories is compared with a model of names and byte strings; write and read sizes cluster around the 8 KiB blocks.",
      "A case is one history over up to eight names with up to six open handles of each kind; non-trivial when something was read; distinct by the operation sequence.",
      [S("h_memenv", "asan", "model", 1600, 20000, wraps=MW), S("h_memenv", "plain", "model", 3200, 60000, wraps=MW), S("h_memenv", "asan", "crowd", 4, 60, wraps=MW, shards=4), S("h_memenv", "plain", "crowd", 8, 200, wraps=MW, shards=4), S("h_memenv", "plain", "huge", 1, 3, wraps=MW, shards=1, weight=4, as_gb=20, mem_gb=14)],
      ["reading at a position beyond the end may be refused or return nothing", "files in nested directories may be listed in any form"],
      {"reads_compared": 1000, "renames_over_existing": 100, "handles_outliving_their_name": 100, "heap_comparisons": 100, "max_files_at_once": 10000})
check("C17", "calls interrupted at every lock boundary by other calls, recorded histories searched for an explaining order; self-describing records; ThreadSanitizer", "exploration",
      "Every pair of generated calls is run with the second one at each lock boundary of the first; larger histories are sampled with delays.",
      "A case is a pair of call sequences at all interruption points, a set of concurrent rounds, or one long append/read/truncate run; non-trivial when calls overlapped; distinct by calls and timing.",
      [S("h_memenv", "asan", "pair", 1600, 20000, wraps=MW), S("h_memenv", "plain", "pair", 3200, 60000, wraps=MW),
       S("h_memenv", "tsan", "conc", 48, 900, wraps=MW, shards=2, weight=4), S("h_memenv", "plain", "conc", 160, 5000, wraps=MW, shards=2, weight=4),
       S("h_memenv", "tsan", "stress", 16, 300, wraps=MW, shards=2, weight=4), S("h_memenv", "asan", "stress", 24, 400, wraps=MW, shards=2, weight=4)],
      ["a handle truncated below its position may refuse, stay or return to the end"],
      {"calls_run_inside_another": 500, "histories_checked": 1000, "overlapping_calls": 500, "records_read_back": 1000})
check("C18", "recording target environment: call log, arguments, outputs and statuses compared", "exploration",
      "All 19 operations with random arguments and all six outcome kinds, through one and two wrapper levels, and over the in-memory environment.",
      "A case is 60 calls through wrappers or 80 calls on an in-memory environment over a recording base; distinct by calls and outcomes.",
      [S("h_memenv", "asan", "wrap", 4000, 60000, wraps=MW), S("h_memenv", "asan", "delegate", 2000, 20000, wraps=MW), S("h_memenv", "plain", "delegate", 4000, 60000, wraps=MW)],
      [], {"forwarded_calls": 1000, "memenv_calls_over_recording_base": 1000})
SW = ("open", "openat", "creat", "close", "read", "pread", "pread64", "readv", "write", "pwrite", "pwrite64", "writev", "fsync", "fdatasync", "syncfs", "lseek", "lseek64", "stat", "lstat", "fstat", "access", "mmap", "munmap", "rename", "unlink", "remove", "mkdir", "rmdir", "opendir", "fdopendir", "readdir", "closedir", "fcntl", "ftruncate", "dup", "fdopen", "fopen",
      "mkdirat", "unlinkat", "renameat", "renameat2", "faccessat", "fstatat", "euidaccess", "eaccess", "truncate", "dup3", "preadv", "pwritev",
      "dup2", "open64", "openat64", "creat64", "mmap64", "stat64", "lstat64", "fstat64", "fstatat64", "readdir64", "fopen64", "ftruncate64", "truncate64", "preadv64", "pwritev64")
LIMS = ("1000:1000", "0:1000", "0:0", "2:2")
check("C19", "writer model and direct system-call reads compared after each call, under ASan/UBSan, in all access modes", "exploration",
      "Every append, flush, close, read and skip of generated histories is compared with the bytes on disk and the model; append sizes cluster around the 64 KiB buffer.",
      "A case is one history over up to three files with a writer and several readers; distinct by operations and sizes.",
      [S("h_posix", "asan", "rw:" + l, 480, 6000, wraps=SW, shards=4) for l in LIMS] + [S("h_posix", "plain", "rw:" + l, 800, 12000, wraps=SW, shards=4) for l in LIMS] + [S("h_posix", "plain", "big:" + l, 30, 600, wraps=SW, shards=1, as_gb=200) for l in LIMS],
      ["a file open for random access is not truncated meanwhile", "a random read that starts beyond the end may be refused or return nothing"],
      {"disk_comparisons": 1000, "random_reads": 1000, "sequential_reads": 1000, "reads_crossing_end": 100, "reads_of_huge_files": 1000})
check("C20", "twin directory trees: environment call against the direct system call, whole trees compared after every call", "exploration",
      "Statuses, results and complete tree snapshots are compared after every call of generated histories, with missing paths, wrong kinds, links, loops, over-long names, paths spelt up to and beyond the longest the system takes, and directories of up to 70,000 entries.",
      "A case is one history of up to 60 calls on two identical trees; non-trivial when calls succeeded and failed; distinct by the history.",
      [S("h_posix", "asan", "ns", 400, 8000, wraps=SW), S("h_posix", "plain", "ns", 640, 20000, wraps=SW)],
      ["the check runs as root: permission failures are represented by wrong kinds, loops and long names"],
      {"operations_failing": 1000, "operations_succeeding": 1000, "histories_with_long_paths": 100, "max_entries_in_a_directory": 10000})
LL = ("0:0", "1:0", "0:1", "2:1", "1:3", "5:4")
check("C25", "interposed open/close/mmap/munmap accounting at every call, budget probes after every history", "exploration",
      "Live mappings and descriptors are counted at every system call; after each history the budgets are probed to be fully usable again.",
      "A case is one history (or one run of several threads) under one pair of limits; non-trivial with several opens; distinct by history and limits.",
      [S("h_posix", "asan", "limits:" + l, 300, 3000, wraps=SW, shards=2) for l in LL] + [S("h_posix", "plain", "limdef:0:%d" % n, 6, 120, wraps=SW, shards=1) for n in (64, 200, 1024)] + [S("h_posix", "plain", "limconc:" + l, 120, 1600, wraps=SW, shards=1, weight=4) for l in LL] + [S("h_posix", "tsan", "limconc:" + l, 40, 400, wraps=SW, shards=1, weight=4) for l in LL],
      ["a call in progress may hold one descriptor beyond the limit"],
      {"opens": 1000, "failed_opens": 100})
check("C26", "position-determined content compared in many threads, delays at system calls, ThreadSanitizer", "exploration",
      "Reads of shared and separate objects in all three access modes; schedules are sampled.",
      "A case is one run of several threads over one to three objects; non-trivial when reads overlapped; distinct by seed.",
      [S("h_posix", v, "reads:" + l, 200 if v == "tsan" else 480, 3200, wraps=SW, shards=1, weight=4, as_gb=100) for l in LIMS for v in ("tsan", "plain")] + [S("h_posix", "asan", "reads:" + l, 120, 1600, wraps=SW, shards=1, weight=4) for l in LIMS],
      [], {"reads_begun_during_another": 1000})
check("C21", "interposed system calls: every call of each script failing with every plausible error, combinations, interruptions and short transfers", "exploration",
      "All single faults at all system calls of each generated script are run, and samples of combinations; statuses, bytes on disk, descriptors and mappings are judged.",
      "A case is one script (writer, readers, helpers, names, locks, logger) with all its single faults and 30 combinations; distinct by script.",
      [S("h_fault", "asan", "fault:" + l, q, 12 * q, wraps=SW, shards=s) for l, q, s in (("1000:1000", 240, 4), ("0:1000", 72, 2), ("0:0", 72, 2), ("2:2", 72, 2))] + [S("h_fault", "plain", "fault:" + l, q, 25 * q, wraps=SW, shards=s) for l, q, s in (("1000:1000", 480, 4), ("0:1000", 120, 2), ("0:0", 120, 2))],
      ["a failed sync or close of a written file loses the data not yet synced", "calls without a status (FileExists, destructors, Log) are exempt"],
      {"single_faults": 1000, "fault_combinations": 1000, "runs_with_only_interruptions_or_short_transfers": 100})
check("C22", "shadow storage fed by interposed system calls, judged at every call boundary; processes killed at every system call", "exploration",
      "Every system-call boundary of generated write workloads is a power-failure point in the shadow and a kill point for a real process.",
      "A case is one workload on one file (manifest or not, several path forms, with or without faults); non-trivial with a successful sync, or several kill points.",
      [S("h_fault", "asan", "shadow", 4000, 40000, wraps=SW), S("h_fault", "plain", "shadow", 16000, 200000, wraps=SW), S("h_fault", "plain", "kill", 400, 8000, wraps=SW),
       S("h_fault", "fsync", "shadow", 2000, 20000, wraps=SW)],
      ["fsync, fdatasync and syncfs make everything written so far durable, and a failed one nothing", "judged while no earlier call on the file has failed"],
      {"successful_syncs_judged": 1000, "directory_syncs_seen": 100, "crash_points_with_new_manifest_bytes": 100, "process_crash_points": 100})
LW = SW + MW
UW = LW + ("gettimeofday", "clock_gettime", "time", "_ZNSt6chrono3_V212system_clock3nowEv")
check("C23", "holder model over several processes, calls interrupted at every system call and mutex boundary, F_GETLK probes from other processes", "exploration",
      "Histories with process exit and death against a model; every boundary of a lock or unlock call is interrupted by other calls; threads in several processes with owners kept in shared memory.",
      "A case is one history over up to three processes and five files, one pair of calls at all interruption points, one concurrent run, or one second name for a file; distinct by operations or timing.",
      [S("h_lock", "asan", "hist", 80, 3000, wraps=LW), S("h_lock", "plain", "hist", 480, 20000, wraps=LW),
       S("h_lock", "asan", "pair", 160, 6000, wraps=LW), S("h_lock", "plain", "pair", 640, 30000, wraps=LW),
       S("h_lock", "plain", "conc", 160, 4000, wraps=LW, shards=2, weight=4), S("h_lock", "tsan", "conc", 40, 800, wraps=LW, shards=2, weight=4),
       S("h_fault", "asan", "lockfault:1000:1000", 40, 600, wraps=SW, shards=2),
       S("h_lock", "plain", "alias", 24, 200, wraps=LW)],
      ["local file system; processes do not fork while holding a lock", "attempts overlapping another attempt by the same process may be refused"],
      {"locks_refused": 500, "interruption_points": 1000, "holder_processes_ended": 50, "probes_during_a_hold": 500})
DW = MW + ("_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", "_ZNSt18condition_variable10notify_oneEv", "_ZNSt18condition_variable10notify_allEv")
check("C24", "per-item ledgers over random scheduling programs with delays at mutex and condition operations, fresh processes, ThreadSanitizer", "exploration",
      "Every item handed over is followed to exactly one run; unsynchronised payloads make missing ordering visible; schedules are sampled.",
      "A case is one program of callers, bursts, idle gaps, nested items and started threads; non-trivial with more than one item; distinct by the program and its delays.",
      [S("h_sched", "plain", "flood", 2, 40, wraps=DW), S("h_sched", "asan", "flood", 1, 10, wraps=DW), S("h_sched", "tsan", "flood", 1, 10, wraps=DW), S("h_sched", "plain", "crowd", 8, 100, wraps=DW, shards=1), S("h_sched", "tsan", "crowd", 2, 20, wraps=DW, shards=1),
       S("h_sched", "tsan", "sched", 120, 2000, wraps=DW, shards=2, weight=4), S("h_sched", "plain", "sched", 400, 8000, wraps=DW, shards=2, weight=4), S("h_sched", "asan", "sched", 120, 2000, wraps=DW, shards=2, weight=4),
       S("h_sched", "tsan", "first", 60, 1200, wraps=DW, shards=2, weight=4), S("h_sched", "plain", "first", 200, 6000, wraps=DW, shards=2, weight=4)],
      ["an item that has not run after 30 s without further calls counts as lost"],
      {"items_run": 10000, "items_handed_over_by_other_items": 500, "threads_started": 200, "repeated_calls": 1000, "max_backlog": 66000})
check("C31", "holder, token and wake-up accounting with delays at mutex and condition operations, ThreadSanitizer", "exploration",
      "Random programs over one mutex and its condition variables; waiters are known to wait before signals are counted; schedules are sampled.",
      "A case is one program (critical sections left by every path, bounded buffer, or waiters and signals); non-trivial when threads contended or waited; distinct by program and timing.",
      [S("h_sched", v, m, q if v == "tsan" else 3 * q, 40 * q, wraps=DW, shards=2, weight=4) for m, q in (("excl", 100), ("queue", 150), ("wake", 150)) for v in ("tsan", "plain")],
      ["a program that makes no progress for 30 s counts as hanging"],
      {"critical_sections": 10000, "tokens": 10000, "signals_to_known_waiters": 500, "broadcasts_to_known_waiters": 100})
check("C27", "log file bytes parsed and compared with an independent formatting after every call, concurrent self-describing entries, sanitizers", "exploration",
      "Every call's entry is compared byte for byte; message lengths sweep the region around 512 bytes including the header and go up to 200 KB.",
      "A case is one log with up to 60 calls, reopenings and second loggers, or one run of several threads on one logger; non-trivial with several lines (concurrent: overlapping calls); distinct by content.",
      [S("h_util", "asan", "log", 240, 6000, wraps=UW), S("h_util", "plain", "log", 800, 30000, wraps=UW)] +
      [S("h_util", "plain", "logtz:%d:%d" % (z, z), 60, 2000, wraps=UW, shards=1) for z in range(8)] +
      [S("h_util", "plain", "logvast", 1, 6, wraps=UW, shards=1), S("h_util", "tsan", "logconc", 40, 600, wraps=UW, shards=2, weight=4), S("h_util", "plain", "logconc", 200, 5000, wraps=UW, shards=2, weight=4), S("h_util", "asan", "logconc", 40, 800, wraps=UW, shards=2, weight=4)],
      ["concurrent callers use one logger object", "formatting itself (vsnprintf) succeeds"],
      {"lines_checked": 5000, "concurrent_entries": 5000, "calls_begun_during_another": 500})
check("C28", "instrumented environment failing each step of each helper in turn, content and object accounting, heap accounting under ASan", "exploration",
      "Every step of every generated call is made to fail once; reads return short fragments from foreign memory; the real environments are compared by direct reads.",
      "A case is the three helpers on one content with every step failing in turn, or twelve whole-file writes and reads on the real environments; distinct by content.",
      [S("h_util", "asan", "helpers", 2400, 40000, wraps=UW), S("h_util", "plain", "helpers", 4800, 120000, wraps=UW), S("h_util", "asan", "helpenv", 480, 8000, wraps=UW), S("h_util", "plain", "helpenv", 1200, 40000, wraps=UW)],
      ["a failed open stores a null result, as Env requires"],
      {"steps_made_to_fail": 2000, "runs_without_failure": 1000, "whole_files_compared": 1000})
RL = ("1000:1000", "0:1000", "7:0")
check("C30", "replacement performed at every system-call and mutex boundary of each reader, replacement loops with self-describing versions, sanitizers", "exploration",
      "Each boundary of each generated reader is a replacement point, for pairs of sizes around page and buffer boundaries; loops with several readers are sampled; POSIX (mapped and by descriptor) and in-memory (limits 7:0).",
      "A case is one reader and sizes at all replacement points, or one loop of replacements with several readers; non-trivial when a replacement happened inside a read; distinct by parameters or timing.",
      [S("h_util", "asan", "swap:" + l, 240, 4000, wraps=UW, shards=4) for l in RL] + [S("h_util", "plain", "swap:" + l, 480, 12000, wraps=UW, shards=4) for l in RL] +
      [S("h_util", v, "swaploop:" + l, 16 if v == "tsan" else 40, 600, wraps=UW, shards=1, weight=4) for l in RL for v in ("tsan", "plain")],
      ["random access through objects that hold the file open (mapped or by descriptor); files opened anew for every read are not claimed"],
      {"replacement_points": 2000, "reads_during_replacements": 1000})
TW = SW + ("gettimeofday", "clock_gettime", "time", "_ZNSt6chrono3_V212system_clock3nowEv", "_ZNSt6chrono3_V212steady_clock3nowEv")
check("C32", "readings bracketed by independent clocks and under a set clock, measured sleeps under signals, fresh programs using the default environment from static initialisation to exit", "exploration",
      "Differences of readings are judged against four kernel clocks and, with the time source interposed, up to the year 2200; sleeps are timed; whole programs are run to their exit.",
      "A case is a set of readings, a set of simultaneous sleeps, one program with its script of uses, or three requests for the test directory; distinct by its parameters.",
      [S("h_env", "plain", "faketime", 400, 8000, wraps=TW, shards=2), S("h_env", "plain", "clock", 80, 800, wraps=TW, shards=2), S("h_env", "tsan", "clock", 16, 200, wraps=TW, shards=1),
       S("h_env", "plain", "sleep", 24, 320, wraps=TW, shards=4), S("h_env", "plain", "deflt", 200, 3000, wraps=TW, shards=4), S("h_env", "asan", "deflt", 60, 800, wraps=TW, shards=4), S("h_env", "tsan", "deflt", 40, 400, wraps=TW, shards=4),
       S("h_env", "plain", "testdir", 160, 1600, wraps=TW, shards=2), S("h_env", "asan", "testdir", 60, 600, wraps=TW, shards=2)],
      ["a step of the system's clock is no fault of the environment: one agreeing kernel clock suffices", "a sleep is judged too long only when it is so six times"],
      {"pairs_of_readings": 10000, "sleeps": 20, "programs_run": 50, "test_directories": 100})
check("C33", "close-on-exec state of every descriptor inspected at every system-call boundary, programs started at sampled boundaries", "exploration",
      "Every boundary of generated histories over all kinds of objects is inspected; at a sample of them a program is started and what it inherited is listed.",
      "A case is one history of opening, using and closing writers, readers, logs, locks and listings under one pair of limits; non-trivial when descriptors were open; distinct by the history.",
      [S("h_env", "plain", "exec:" + l, 480, 6000, wraps=TW, shards=2) for l in LIMS] + [S("h_env", "asan", "exec:" + l, 120, 1600, wraps=TW, shards=2) for l in LIMS],
      ["the system offers close-on-exec at opening (HAVE_O_CLOEXEC), as the project's own configuration finds here"],
      {"boundaries_inspected": 10000, "open_descriptors_inspected": 10000, "programs_started": 50})
check("C34", "counted costs: key comparisons, basic blocks run (compiler coverage callbacks), bytes moved, allocations, system calls", "exploration",
      "Costs are counted, not timed, at sizes growing by factors of four; the verdict is their growth and generous absolute bounds.",
      "A case is one component grown step by step under one pattern, or one history of calls on files; distinct by its random choices.",
      [S("h_cost", "cov", "list", 24, 600, wraps=SW), S("h_cost", "cov", "cache", 24, 600, wraps=SW), S("h_cost", "cov", "arena", 24, 400, wraps=SW, shards=2), S("h_cost", "cov", "mem", 24, 400, wraps=SW, shards=4), S("h_cost", "cov", "values", 24, 400, wraps=SW, shards=4)] +
      [S("h_cost", "cov", "sys:" + l, 48, 1200, wraps=SW, shards=2) for l in ("1000:1000", "0:1000", "0:0")],
      ["costs inside the C and C++ libraries are counted by their bytes moved and blocks allocated only"],
      {"measurements": 5000, "operations_measured": 1000000, "appends_measured": 100000})
check("C35", "live heap bytes counted at every allocation, compared with the model's contents throughout long histories", "exploration",
      "Histories of up to a million operations with bounded contents; bounds are several times what is needed now.",
      "A case is one long history on a cache, the in-memory environment, a skip list or the POSIX environment; distinct by its random choices.",
      [S("h_cost", "cov", "space", 64, 1600, wraps=SW)],
      ["memory is what malloc has handed out; kernel memory and fragmentation are not counted"],
      {"measurements": 5000, "operations_measured": 1000000})
check("C36", "results of deterministic work beside other threads and handed between threads compared with the same work alone; ThreadSanitizer", "exploration",
      "Each piece of work is run alone, beside 1 to 5 others and with its steps in different threads; all its results must be the same, and no race may be reported.",
      "A case is a set of workers, each with a deterministic program over objects of its own (and shared ones through const calls); distinct by the workers' results.",
      [S("h_threads", v, m, q, 40 * q, shards=s, weight=4) for m, q in (("mixed:3:3", 48), ("coding", 24), ("values", 24), ("list", 16), ("cache", 16), ("mem", 24), ("posix:2:2", 24), ("log", 24)) for v, s in (("tsan", 2), ("plain", 1))],
      ["a reader is closed before its file is written over"],
      {"results_compared": 100000, "steps_beside_others": 5000, "steps_handed_over": 1000})
check("C37", "snapshots of process, C library and caller state compared around every stretch of calls; permissions of everything created", "exploration",
      "After every call the caller's own descriptors, mappings and files are looked at, after every few calls the state of the process and of the C library.",
      "A case is one history over all components under one umask and one set of signal dispositions, alone or in threads; distinct by the history.",
      [S("h_global", v, "global:" + l, q, 30 * q, shards=2) for l in ("1000:1000", "2:2", "0:0") for v, q in (("asan", 100), ("plain", 400))] + [S("h_global", "plain", "fresh", 240, 4000, shards=2), S("h_global", "asan", "fresh", 60, 1000, shards=1)],
      [],
      {"operations": 10000, "files_and_directories_made": 500, "descriptors_and_mappings_watched": 100000, "process_states_compared": 500, "operations_with_few_descriptors_left": 1000})
_all = [("h_skiplist", "seq", 120, ()), ("h_skiplist", "tall", 2, ()), ("h_arena", "seq", 200, ()), ("h_cache", "map", 400, CW), ("h_cache", "lru", 400, CW), ("h_cache", "del", 400, CW),
        ("h_values", "coding", 60, ()), ("h_values", "decode", 200, ()), ("h_values", "slice", 200, ()), ("h_values", "status", 800, ()), ("h_values", "decimal", 240, ()), ("h_values", "hash", 160, ()), ("h_values", "random", 200, ()),
        ("h_memenv", "model", 400, MW), ("h_memenv", "pair", 240, MW), ("h_memenv", "wrap", 160, MW), ("h_memenv", "delegate", 160, MW),
        ("h_posix", "ns", 80, SW), ("h_fault", "shadow", 160, SW), ("h_lock", "pair", 80, LW), ("h_util", "log", 80, UW), ("h_util", "helpers", 160, UW), ("h_util", "helpenv", 40, UW),
        ("h_util", "swap:1000:1000", 40, UW), ("h_util", "swap:7:0", 40, UW)] + \
       [("h_posix", "rw:" + l, 48, SW) for l in LIMS] + [("h_posix", "limits:" + l, 40, SW) for l in ("0:0", "2:1")] + [("h_fault", "fault:" + l, 24, SW) for l in ("1000:1000", "0:1000", "0:0")]
_conc = [("h_cache", "conc", 8, CW), ("h_cache", "concdel", 8, CW), ("h_memenv", "stress", 8, MW), ("h_sched", "sched", 24, DW), ("h_sched", "queue", 24, DW), ("h_util", "logconc", 24, UW), ("h_util", "swaploop:1000:1000", 8, UW), ("h_posix", "reads:2:2", 24, SW)]
_vg = [("h_skiplist", "seq", 8, ()), ("h_arena", "seq", 16, ()), ("h_cache", "map", 24, CW), ("h_cache", "lru", 16, CW), ("h_values", "coding", 8, ()), ("h_values", "decode", 16, ()), ("h_values", "status", 160, ()), ("h_values", "decimal", 24, ()), ("h_values", "hash", 16, ()), ("h_values", "slice", 8, ()),
       ("h_memenv", "model", 16, MW), ("h_posix", "rw:1000:1000", 8, SW), ("h_posix", "rw:0:1", 8, SW), ("h_posix", "ns", 8, SW), ("h_util", "log", 8, UW), ("h_util", "helpers", 8, UW), ("h_fault", "fault:1000:1000", 8, SW)]
check("C29", "AddressSanitizer, UndefinedBehaviorSanitizer and valgrind memcheck over every other check's workloads, heap and descriptor comparisons", "exploration",
      "Runs the workloads of all components with sanitizer reports, failed assertions, crashes and left-over memory or descriptors as the verdict; memcheck adds uninitialised reads.",
      "A case is one case of another check's workload; distinct as there.",
      [S(h, "asan", m, q, 20 * q, wraps=w, shards=2) for h, m, q, w in _all] + [S(h, "asan", m, q, 20 * q, wraps=w, shards=1, weight=4) for h, m, q, w in _conc] +
      [S(h, "clang", m, (q + 3) // 4, 20 * q, wraps=w, shards=1) for h, m, q, w in _all + _conc] +
      [S(h, "vg", m, q, 20 * q, wraps=w, shards=2) for h, m, q, w in _vg],
      ["hostile inputs within each component's documented preconditions"],
      {"heap_comparisons": 500}, only_keys=r"^mem:|^crash:|leak")

# Release builds compile the assertions out: some cases of each fast workload run without them.
_release = ("seq", "fiber", "map", "lru", "del", "conc", "charge", "coding", "decode", "slice", "status", "decimal", "hash", "random", "model", "pair", "delegate", "rw", "ns", "limconc", "reads", "fault", "shadow", "hist", "sched", "excl", "queue", "wake", "log", "helpers", "swap", "deflt", "testdir", "exec", "global")
for _p, _c in CHECKS.items():
    for _s in [s for s in _c["stages"] if s["variant"] == "plain" and s["mode"].split(":")[0] in _release]:
        _c["stages"].append(dict(_s, variant="ndebug", quick=(_s["quick"] + 7) // 8, thorough=_s["thorough"] // 8, shards=1))
