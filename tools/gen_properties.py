#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit the table here, then re-run."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

p("C01", "The skip list is an ordered set, whatever is inserted and in whatever order",
  "After any sequence of distinct insertions, a membership query answers true exactly for the inserted keys, and the iterator operations (seek to first, last or a target; next; previous; valid; key) visit exactly the inserted keys in the order of the list's comparator, each once. Seeking to a target lands on the smallest key not less than it, or becomes invalid when there is none; stepping before the first or past the last key makes the iterator invalid. This holds for every key type and comparator the list is instantiated with, at any size, and inserting never fails or aborts for a key not yet present.",
  ["inputs", "histories"], "every insertion order, key distribution, comparator and interleaving of inserts, lookups and iterator moves",
  "skiplist_test has no test case at all; no insertion is ever executed by the suite.",
  ["db/skiplist.h", "util/random.h", "util/arena.cc"],
  [("search descends levels and links per level", "db/skiplist.h:FindGreaterOrEqual/Insert"), ("backward search", "db/skiplist.h:FindLessThan/FindLast"), ("tower height choice", "db/skiplist.h:RandomHeight")],
  [("next_", "per-level successor links", "db/skiplist.h:Node"), ("max_height_", "levels in use", "db/skiplist.h")],
  ["Contains, Insert and Iterator calls compared with an ordered-set model after every operation"])

p("C02", "Skip list readers run lock-free beside a writer and see every completed insert",
  "With one writer inserting and any number of readers searching and iterating without locks, every insertion that completed before a read operation began is visible to it, every key a reader obtains is one whose insertion had at least begun, and it is seen fully constructed. Forward iteration is strictly ascending and never skips a key whose insertion completed before the traversal passed its position; backward steps and seeks obey the same bounds. No execution has a data race, a crash or a non-terminating read.",
  ["schedules"], "every interleaving of one writer's insertions with any number of concurrent reader operations, including every intermediate state of an insertion",
  "No test touches the skip list, and the suite has no multi-threaded test; publication order matters only in windows of a few instructions.",
  ["db/skiplist.h", "util/arena.h"],
  [("release-store publication after the new node is initialised", "db/skiplist.h:Insert/SetNext"), ("acquire loads by readers", "db/skiplist.h:Next"), ("racy height read is harmless", "db/skiplist.h:GetMaxHeight")],
  [("next_", "atomic links", "db/skiplist.h:Node"), ("max_height_", "atomic height", "db/skiplist.h")],
  ["reader operations run at every atomic step of an insertion; timed reader/writer event logs; ThreadSanitizer reports"])

p("C03", "Arena memory is disjoint, aligned, stable and accounted for",
  "Every allocation returns a block of at least the requested size that overlaps no other block of the same arena, keeps its contents unchanged until the arena is destroyed, and, for aligned allocations, starts at an address suitably aligned for a pointer and any 8-byte value. The reported memory usage never decreases, is at least the sum of all sizes handed out, stays within a bounded overhead of it, and may be read by other threads while one thread allocates. Destroying the arena returns all its memory.",
  ["inputs", "histories", "schedules"], "every sequence of plain and aligned allocations of sizes from 1 byte to many blocks, with concurrent readers of the usage figure",
  "arena_test uses one fixed sequence, never checks alignment or overlap directly (its pattern check compares a recorded value only), and reads usage from one thread.",
  ["util/arena.cc", "util/arena.h"],
  [("bump pointer with slop for alignment", "util/arena.cc:AllocateAligned"), ("separate block for large requests", "util/arena.cc:AllocateFallback"), ("usage counter", "util/arena.cc:AllocateNewBlock")],
  [("alloc_ptr_", "next free byte", "util/arena.h"), ("alloc_bytes_remaining_", "bytes left in the block", "util/arena.h"), ("memory_usage_", "usage estimate", "util/arena.h")],
  ["addresses and sizes returned, bytes re-read later, MemoryUsage() after each call, live heap bytes after destruction"])

p("C04", "A cache lookup returns the latest value inserted under that exact key or nothing",
  "For any history of inserts, lookups, erases, releases and prunes, a lookup either misses or returns a handle whose value is the one most recently inserted under that exact byte-string key; a value that was replaced, erased or evicted is never returned again. An entry that still has an unreleased handle and was neither replaced nor erased is always found, and a cache of zero capacity never finds anything. Distinct keys never answer for one another, even when they collide in the cache's internal hashing, are empty or contain NUL bytes.",
  ["inputs", "histories"], "every operation history over every set of keys, values, charges and capacities, including many keys per hash bucket and repeated table growth",
  "cache_test replays a few fixed histories with 4-byte keys and capacity 1000; table resizing under colliding hashes, replacement while pinned and empty or long keys are not explored.",
  ["util/cache.cc", "include/lsmdb/cache.h", "util/hash.cc"],
  [("chained hash table with growth", "util/cache.cc:HandleTable"), ("replacement and removal", "util/cache.cc:FinishErase")],
  [("table_", "key to entry map", "util/cache.cc:LRUCache"), ("in_cache", "entry is reachable by lookup", "util/cache.cc:LRUHandle")],
  ["every Insert/Lookup/Erase/Release/Prune/Value result compared with a map model that is told of removals by the deleter"])

p("C05", "The cache evicts only unpinned entries, oldest use first, only when over-full",
  "An entry leaves the cache without being erased, replaced or pruned only during an insertion that finds the combined charge above the capacity of the part of the cache its key belongs to, and then unpinned entries of that part leave in the order in which they were last in use (oldest first) and only until the charge fits again. When an insertion returns, either the charge of that part is within its capacity or every entry left in it is pinned; so the unpinned charge kept never exceeds the requested capacity rounded up by the cache's partitioning. Pruning removes exactly the unpinned entries.",
  ["inputs", "histories", "configurations"], "every history of inserts with any charges, lookups, releases, erases and prunes, at any capacity from 0 to the largest size value",
  "cache_test's eviction tests use equal small charges, one capacity and short pinning patterns, and check only a few survivors rather than the exact victim order.",
  ["util/cache.cc"],
  [("eviction loop on insert", "util/cache.cc:LRUCache::Insert"), ("LRU and in-use lists", "util/cache.cc:Ref/Unref"), ("capacity split among shards", "util/cache.cc:ShardedLRUCache")],
  [("lru_", "unpinned entries, oldest first", "util/cache.cc:LRUCache"), ("usage_", "charge held", "util/cache.cc:LRUCache"), ("capacity_", "charge allowed", "util/cache.cc:LRUCache")],
  ["deleter calls during each operation compared with an exact LRU model; parts discovered by observing which keys displace each other"])

p("C06", "Each cache entry's deleter runs exactly once, and never while a handle is held",
  "For every successful insertion, the deleter passed with it is called exactly once, with exactly the key and value of that insertion, no later than when the cache has been destroyed and the last handle was released. It is never called while any handle to that entry is unreleased, so a held handle's value stays valid across eviction, replacement, erasure and pruning. It is called as soon as the entry has left the cache and its last handle is released, not later.",
  ["histories", "schedules"], "every history and every interleaving of inserts, lookups, releases, erases, prunes and destruction",
  "cache_test records deleter calls for a handful of fixed single-threaded histories.",
  ["util/cache.cc", "include/lsmdb/cache.h"],
  [("reference counting", "util/cache.cc:Ref/Unref"), ("destruction of remaining entries", "util/cache.cc:~LRUCache")],
  [("refs", "handles plus the cache's own reference", "util/cache.cc:LRUHandle")],
  ["per-insertion deleter counter, key/value echo, handle count at the time of the call, memory-error reports on values freed by the deleter"])

p("C07", "The cache is linearizable under concurrent use and its ids are unique",
  "When threads concurrently insert, look up, erase, release, prune and query one shared cache, each key's operations take effect atomically in some order consistent with real time, as if performed one after another on a map. Ids handed out by the cache are never repeated, in any thread. No execution has a data race, a deadlock or a corrupted entry.",
  ["schedules"], "every interleaving of operations by any number of threads on few or many keys, with or without eviction",
  "All cache tests are single-threaded; NewId is called twice.",
  ["util/cache.cc", "util/mutexlock.h"],
  [("per-shard mutex", "util/cache.cc:LRUCache"), ("id mutex", "util/cache.cc:NewId")],
  [("mutex_", "guards a shard", "util/cache.cc:LRUCache"), ("last_id_", "last id given", "util/cache.cc")],
  ["call/return event histories checked per key for linearizability; ids collected from all threads; ThreadSanitizer reports"])

p("C08", "The cache's total charge is the sum of the charges of the entries it holds",
  "At every quiescent point the reported total charge equals the sum of the charges given for exactly those entries a lookup would find. Entries that were erased, replaced, evicted or pruned no longer count, even while handles to them are held, and entries in a zero-capacity cache never count. After everything has been erased or pruned without outstanding handles the total is zero.",
  ["histories", "schedules"], "every operation history with arbitrary charges, and quiescent points after concurrent histories",
  "TotalCharge is never called by any test.",
  ["util/cache.cc"],
  [("usage increments and decrements", "util/cache.cc:LRUCache::Insert/FinishErase"), ("sum over shards", "util/cache.cc:TotalCharge")],
  [("usage_", "charge held per shard", "util/cache.cc:LRUCache")],
  ["TotalCharge() compared with the model's sum after every operation and after joins"])

p("C09", "Integer and string encodings round-trip and have one fixed byte format",
  "For every 32- and 64-bit value, fixed-width encoding is the little-endian bytes and variable-length encoding is the minimal base-128 form with least-significant group first, of the length the length function predicts; decoding returns the same value and consumes exactly the encoded bytes. Any sequence of encoded integers and length-prefixed strings appended one after another to the same buffer, after any existing content, decodes to the same sequence. Encoders leave what was already in the buffer unchanged and write no byte beyond the encoding.",
  ["inputs"], "every value, every byte string and every concatenation of encodings",
  "There is no coding test; the suite uses only 4-byte fixed encoding of small integers as cache keys.",
  ["util/coding.cc", "util/coding.h"],
  [("fixed encoders and decoders", "util/coding.h"), ("varint encoders and decoders", "util/coding.cc")],
  [], ["bytes produced and values decoded compared with an independent reference codec; exact-size buffers under AddressSanitizer"])

p("C10", "Decoders never read outside the input and reject truncated or overlong encodings",
  "Given any byte string, the variable-length integer and length-prefixed-string decoders read no byte outside it, and report failure exactly when no complete encoding (at most 5 bytes for 32-bit, 10 for 64-bit, and as many payload bytes as the prefix announces) starts there. On success the remaining input is exactly what follows the encoding and a returned string lies inside the input. Decoding an encoding cut at any point fails and leaves the caller able to detect it by the returned flag alone.",
  ["inputs"], "every byte string, including truncations and corruptions of valid encodings and prefixes announcing up to 2^32-1 bytes",
  "No decoder of variable-length data is called by any test.",
  ["util/coding.cc", "util/coding.h"],
  [("limit checks in the decode loops", "util/coding.cc:GetVarint32PtrFallback/GetVarint64Ptr"), ("payload length check", "util/coding.cc:GetLengthPrefixedSlice")],
  [], ["decoder results compared with a reference decoder on inputs held in exact-size heap blocks under AddressSanitizer"])

p("C11", "Slices compare as unsigned byte strings, giving one consistent total order",
  "Comparing two slices gives the sign of the lexicographic comparison of their bytes as unsigned values with a shorter prefix ordered first; it is antisymmetric and transitive, and it is zero exactly when the equality operator says equal and the inequality operator says not. Prefix tests, indexing, dropping a prefix, clearing and conversion to a string agree with the same byte string, including embedded NUL and high bytes. No operation reads outside the referenced bytes.",
  ["inputs"], "every pair and triple of byte strings of any length and content",
  "Slices are used incidentally; no test compares slices with NUL, high or unequal-length bytes.",
  ["include/lsmdb/slice.h"],
  [("compare, equality, prefix", "include/lsmdb/slice.h")],
  [], ["results compared with a byte-wise reference on exact-size heap blocks"])

p("C12", "A status keeps its kind and message through any copying, moving and assigning",
  "A status created for success or for one of the five error kinds with one or two messages answers every kind query and prints its text exactly so (kind label, message, and ': ' plus the second message when that is not empty), whatever bytes the messages contain. Any chain of copies, moves, swaps, assignments and self-assignments leaves the destination with the source's kind and text and every copy independent of the lifetime of the others. No such chain leaks or frees memory twice.",
  ["inputs", "histories"], "every kind, every pair of message strings including empty, long and binary ones, and every chain of copy and move operations",
  "status_test covers one move construction and one self-move with fixed short messages; no copies.",
  ["include/lsmdb/status.h", "util/status.cc"],
  [("owned message block, deep copy", "util/status.cc:CopyState"), ("copy assignment and move", "include/lsmdb/status.h")],
  [("state_", "owned kind and message, null for success", "include/lsmdb/status.h")],
  ["kind queries and text compared with a value model after every operation; live heap bytes at the end"])

p("C13", "Decimal printing and parsing are inverse; escaped text is printable and exact",
  "Every unsigned 64-bit number prints as its canonical decimal form, and parsing a byte string consumes exactly its longest leading run of digits and yields their value; parsing fails exactly when there is no leading digit or the run exceeds the largest 64-bit value, and a failed parse never reports a value as success. Escaping replaces exactly the bytes outside the printable ASCII range by \\x and two lowercase hex digits and leaves every other byte as it is. Appending variants leave earlier content unchanged.",
  ["inputs"], "every 64-bit value and every byte string, with any number of leading zeros and any trailing bytes",
  "logging_test samples fixed numbers and near-maximum values; escaping is untested; leading zeros, long digit runs and bytes after overflow are untested.",
  ["util/logging.cc", "util/logging.h"],
  [("overflow check in the digit loop", "util/logging.cc:ConsumeDecimalNumber"), ("escape range", "util/logging.cc:AppendEscapedStringTo")],
  [], ["results compared with 128-bit reference arithmetic and a reference escaper"])

p("C14", "The hash is one fixed function of the bytes, length and seed alone",
  "The hash of a byte string under a seed is the same 32-bit value on every call, at every alignment and in every thread, depends only on the n bytes given, and equals the documented murmur-like function with bytes taken as unsigned and little-endian words. It reads no byte outside the n given. Equal slices therefore always hash alike, whatever surrounds them in memory.",
  ["inputs"], "every byte string of every length, alignment, surrounding memory and seed",
  "hash_test checks six vectors, all at one alignment, only one longer than 4 bytes.",
  ["util/hash.cc", "util/coding.h"],
  [("word loop and tail switch", "util/hash.cc:Hash")],
  [], ["values compared with an independent reference implementation on exact-size blocks at every alignment"])

p("C15", "The pseudo-random generator follows its documented sequence and ranges",
  "From any seed the generator produces the documented multiplicative sequence x -> 16807*x mod (2^31-1), never the fixed points 0 or 2^31-1, treating those two seeds (after dropping the top bit) as 1. A uniform draw for n lies in [0, n-1], a skewed draw for k lies in [0, 2^k-1], and a one-in-n draw is true exactly when the next value is divisible by n. Equal seeds give equal sequences.",
  ["inputs", "histories"], "every 32-bit seed, every position in the sequence and every argument",
  "There is no test of the generator; arena_test only uses it.",
  ["util/random.h"],
  [("shift-and-add reduction modulo 2^31-1", "util/random.h:Next"), ("seed sanitising", "util/random.h:Random")],
  [("seed_", "current state", "util/random.h")],
  ["draws compared with 64-bit modular arithmetic"])

p("C16", "The in-memory environment behaves as a simple file system for any history",
  "For any single-threaded history of creating, overwriting, appending to, reading, skipping, renaming, removing, sizing and listing files, the in-memory environment gives the results of a model in which a name maps to a growing byte string: creating truncates, opening for append creates the file when absent and otherwise keeps its content, renaming moves the content and replaces the target (and does nothing when both names are the same), and existence, size and listing reflect this at once. Open handles stay usable and refer to the same file after it is renamed, removed or overwritten. Reads return exactly the bytes available at the position, unchanged while the buffer and the handle are kept, skips stop at the end of the file, opening a missing file for reading reports not-found with a null result, other operations on missing files report an error, and no history crashes or leaks.",
  ["histories", "inputs"], "every history of operations over any set of names, write sizes crossing internal block boundaries, and open handles",
  "memenv_test runs a few fixed scripts: it never appends to a file that does not exist, never renames over an existing or the same name, and never keeps handles across removal.",
  ["helpers/memenv/memenv.cc", "include/lsmdb/env.h"],
  [("reference-counted block files", "helpers/memenv/memenv.cc:FileState"), ("name table", "helpers/memenv/memenv.cc:InMemoryEnv")],
  [("file_map_", "name to file", "helpers/memenv/memenv.cc"), ("blocks_", "file content", "helpers/memenv/memenv.cc"), ("refs_", "handles plus the directory entry", "helpers/memenv/memenv.cc")],
  ["every call's result compared with a model file system; live heap bytes after destruction"])

p("C17", "Concurrent use of the in-memory environment is atomic per call and race-free",
  "When threads operate concurrently on one in-memory environment, each name operation takes effect atomically in an order consistent with real time, each append adds its bytes contiguously and entirely, and each read returns a contiguous piece of the content the file had at one instant during the call. A read that starts after an append returned sees that append's bytes. A file removed or replaced while others hold handles to it is neither corrupted nor freed under them, and no execution has a data race.",
  ["schedules"], "every interleaving of name operations, appends, reads, skips, truncations and handle releases by any number of threads",
  "memenv_test is single-threaded.",
  ["helpers/memenv/memenv.cc"],
  [("environment mutex", "helpers/memenv/memenv.cc:InMemoryEnv"), ("per-file content and reference mutexes", "helpers/memenv/memenv.cc:FileState")],
  [("mutex_", "guards the name table", "helpers/memenv/memenv.cc"), ("blocks_mutex_", "guards content", "helpers/memenv/memenv.cc"), ("refs_mutex_", "guards the reference count", "helpers/memenv/memenv.cc")],
  ["call/return histories of name operations checked for linearizability; self-describing records read back; ThreadSanitizer reports"])

p("C18", "Environment wrappers forward faithfully and only replace what they override",
  "A wrapping environment passes every operation it does not override to its target with the same arguments, exactly once, and returns the target's result and outputs unchanged, for success and for every error. The in-memory environment never touches the underlying environment's files or directories, but hands scheduling, thread start, clock and sleep to it. The default behaviour of an environment without append support is to report not-supported with a null result.",
  ["inputs", "programs"], "every operation, argument and target outcome, including failing targets",
  "No test wraps a recording target; memenv_test uses only file operations.",
  ["include/lsmdb/env.h", "helpers/memenv/memenv.cc", "util/env.cc"],
  [("forwarding methods", "include/lsmdb/env.h:EnvWapper"), ("in-memory overrides", "helpers/memenv/memenv.cc:InMemoryEnv")],
  [("target_", "wrapped environment", "include/lsmdb/env.h:EnvWapper")],
  ["calls logged by a recording target environment"])

p("C19", "Bytes written through the POSIX environment are read back exactly",
  "For any sequence of appends of any sizes with flushes, syncs and closes anywhere between them, once the last flush, sync or close returned success the file contains exactly the appended bytes in order, preceded by the former content if and only if it was opened for append; deleting an unclosed writer also writes everything out. Reading it sequentially with any mixture of reads and skips, at random offsets and lengths whether the file is memory-mapped or read by descriptor, or whole, returns exactly the bytes at those positions. Reads crossing the end return the bytes that exist, skips stop at the end, empty files can be opened, and no offset or length makes a read return bytes outside the file. What a read returned stays unchanged while its buffer and the file object are kept, whatever is done meanwhile.",
  ["inputs", "histories", "configurations"], "every sequence of append sizes around the 64 KiB buffer, every offset and length up to the 64-bit limits, with and without memory mapping and permanent descriptors",
  "There is no test of the POSIX environment at all.",
  ["util/env_posix.cc", "include/lsmdb/env.h", "util/env.cc"],
  [("write buffer", "util/env_posix.cc:PosixWritableFile"), ("read paths", "util/env_posix.cc:PosixSequentialFile, PosixRandomAccessFile, PosixMmapReadableFile")],
  [("buf_", "bytes not yet written", "util/env_posix.cc:PosixWritableFile"), ("pos_", "bytes in the buffer", "util/env_posix.cc:PosixWritableFile")],
  ["file bytes read by direct system calls and every Env read, compared with the model string"])

p("C20", "POSIX file operations have exactly the named effect and report failures",
  "Existence, size, listing, create and remove of files and directories, and rename agree with the real file system before and after every operation: success means exactly the requested change happened, and any failure leaves the file system unchanged and returns an error status. Operations on a missing file or path report not-found, other failures an I/O error, and the message names the path; failed opens store a null result. Listing clears earlier results and contains every entry exactly once.",
  ["histories", "inputs"], "every history of operations over files, directories, missing paths, wrong kinds and permission-like failures",
  "There is no test of the POSIX environment; error paths are never taken.",
  ["util/env_posix.cc"],
  [("error mapping", "util/env_posix.cc:PosixError"), ("thin wrappers over system calls", "util/env_posix.cc:PosixEnv")],
  [], ["a model of the tree and direct system-call snapshots compared after every call"])

p("C21", "An I/O fault is never silent: a call that reports success has done its work",
  "Whatever single system call or combination of calls fails or completes only partly during writing, flushing, syncing, closing, reading, listing, sizing, locking or opening, either some call of the operation reports a non-success status or the full effect is there; in particular if every append, flush, sync and close returned success then all bytes are in the file in order. Interrupted writes and sequential reads and short writes are retried without losing, duplicating or failing anything. No failure path leaks a descriptor or a mapping or crashes.",
  ["fault_sequences"], "every system call of each workload failing with each plausible error, being interrupted, or completing partly, alone and in combination",
  "No test injects faults below the environment.",
  ["util/env_posix.cc"],
  [("retry loops and error propagation", "util/env_posix.cc:WriteUnbuffered/Read"), ("cleanup on failed opens", "util/env_posix.cc:NewRandomAccessFile/LockFile/NewLogger")],
  [], ["interposed system calls with an injection plan; statuses, file bytes and open descriptors and mappings afterwards"])

p("C22", "After a successful sync the data survives a crash at any later point",
  "When a sync returns success and no earlier call on that file failed, every byte appended to that file before it is on durable storage, so any later process or power failure preserves it; after a successful flush or close a process crash preserves it. For a manifest file the sync also makes the entries of its directory durable, and does so before the bytes it finds still buffered are handed to the file, so that no crash leaves a durable manifest record naming a file whose directory entry is lost. Sync reports failure whenever it could not establish this.",
  ["crash_points", "fault_sequences"], "a crash before or after every system call of every write workload, with unsynced data lost or kept arbitrarily",
  "No test syncs a real file or simulates a crash.",
  ["util/env_posix.cc", "util/env.cc"],
  [("buffer flush, then data sync", "util/env_posix.cc:PosixWritableFile::Sync/SyncFd"), ("directory sync for manifests first", "util/env_posix.cc:SyncDirIfManifest")],
  [("is_manifest_", "name starts with MANIFEST", "util/env_posix.cc:PosixWritableFile"), ("dirname_", "directory to sync", "util/env_posix.cc:PosixWritableFile")],
  ["a shadow storage model fed by interposed system calls, evaluated at every call boundary; child processes killed at chosen calls"])

p("C23", "At most one holder has a file lock, across threads and processes",
  "At any time at most one successful lock of a given file is outstanding among all threads and processes; an attempt while it is held fails at once with an error and a null result, without blocking, and leaves the holder's lock fully in force. After an unlock, or the exit or death of the holding process, the lock can be taken again by anyone. Failed attempts leak no descriptor and do not affect other files' locks.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of lock and unlock calls by threads and processes, including failed attempts, process death and failing system calls",
  "The only lock test exercises the in-memory environment's no-op locks.",
  ["util/env_posix.cc"],
  [("in-process table of locked names", "util/env_posix.cc:PosixLockTable"), ("fcntl advisory lock across processes", "util/env_posix.cc:LockOrUnlock")],
  [("locked_files_", "names locked by this process", "util/env_posix.cc:PosixLockTable")],
  ["holder intervals logged by threads and child processes; a prober process after every step"])

p("C24", "Scheduled background work and started threads run exactly once, off the caller",
  "Every function handed to the scheduler or thread starter, by any thread, including from inside other background work, runs exactly once with the argument given with it, never inside the call that hands it over, not on the caller's thread unless the caller is itself background work, and does not need any further call to get going. Handing over work never waits for other work to finish. What the caller did before handing the work over is visible to it without further synchronisation, and the function object is kept alive until it has run.",
  ["schedules"], "every interleaving of scheduling calls from any number of threads with the execution of earlier work, including bursts, idle gaps and nested scheduling",
  "No test schedules background work or starts a thread.",
  ["util/env_posix.cc", "port/port_stdcxx.h"],
  [("queue with condition variable", "util/env_posix.cc:Schedule/BackgroundThreadMain"), ("detached threads", "util/env_posix.cc:StartThread")],
  [("background_work_queue_", "work not yet started", "util/env_posix.cc"), ("started_background_thread_", "worker exists", "util/env_posix.cc")],
  ["per-item execution counters, thread ids, argument echoes and unsynchronised payloads under ThreadSanitizer"])

p("C25", "Open random-access files stay within the descriptor and mapping budgets",
  "However many random-access files are open at once, the process never holds more memory mappings for them than the mapping limit, nor more descriptors for them than the read-only file limit (plus one per call in progress), and all of them still read correctly. Closing a file or failing to open one gives its share back, so after any history of opens, failures and closes the full budgets are available again and no descriptor or mapping is left. The budgets hold when many threads open and close at once.",
  ["histories", "configurations", "schedules", "fault_sequences"], "every history and interleaving of opens, reads, closes and failed opens under every pair of limits, including zero",
  "No test opens a file through the POSIX environment.",
  ["util/env_posix.cc", "util/env_posix_test_helper.h"],
  [("counting limiter", "util/env_posix.cc:Limiter"), ("fallback to per-read opens", "util/env_posix.cc:PosixRandomAccessFile")],
  [("acquires_allowed_", "budget left", "util/env_posix.cc:Limiter")],
  ["interposed open/close/mmap/munmap counts and /proc/self/fd at every step and at quiescence"])

p("C26", "One random-access file can be read by many threads at once",
  "Any number of threads may read one random-access file object, and different objects for the same file, at the same time, with each read returning exactly the bytes at its own offset regardless of the others, before, at the same time or later. This holds for memory-mapped, permanently open and open-on-read files alike. No execution has a data race.",
  ["schedules", "configurations"], "every interleaving of concurrent reads at any offsets in every access mode",
  "No test reads a POSIX file, and none reads from two threads.",
  ["util/env_posix.cc"],
  [("positional reads, immutable objects", "util/env_posix.cc:PosixRandomAccessFile/PosixMmapReadableFile")],
  [], ["bytes returned to each thread compared with a position-determined pattern; ThreadSanitizer reports"])

p("C27", "Each log call adds exactly one complete, correctly formatted line",
  "For any format, arguments and message length, a log call appends to the log file one entry consisting of a header (the call's local date and time and the calling thread's id) and exactly the formatted message, ended by exactly one newline (one is added only if the message does not already end with one), in the file by the time the call returns. Entries of concurrent callers of one logger are never interleaved or lost, opening an existing log keeps its earlier content, and logging to a null logger does nothing. No message length up to a gigabyte causes memory errors or truncation.",
  ["inputs", "schedules"], "every message length around and beyond the internal 512-byte buffer, every content, and every interleaving of loggers",
  "No test creates a POSIX logger.",
  ["util/posix_logger.h", "util/env.cc", "util/env_posix.cc"],
  [("two-pass formatting", "util/posix_logger.h:Logv"), ("one write per entry", "util/posix_logger.h:Logv")],
  [], ["log file bytes parsed after every call and after concurrent runs"])

p("C28", "Whole-file write and read helpers are exact, or fail cleanly, on any environment",
  "Writing a string to a file through any environment either succeeds and leaves exactly those bytes (after a sync first, when the syncing variant is used), or returns the first failing step's error, having deleted the file and released the writer (a failed open is returned as it is, with nothing else done). Reading a whole file either returns all its bytes, replacing the output's earlier content, or the failing step's error. Neither uses a file object after a failed open nor leaks one in any outcome.",
  ["inputs", "fault_sequences", "configurations"], "every file size, every environment and every step failing",
  "The helpers are used twice in one test, with 13 bytes and no failure.",
  ["util/env.cc", "include/lsmdb/env.h"],
  [("step-by-step error handling", "util/env.cc:DoWriteStringToFile/ReadFileToString")],
  [], ["call log of an instrumented environment that fails the k-th step, live file objects, bytes left"])

p("C29", "No use within the contract causes memory errors, undefined behaviour or leaks",
  "Across every component, any sequence of calls that respects the documented preconditions runs without out-of-bounds or use-after-free access, uninitialised control decisions, undefined arithmetic, failed internal assertions or leaked memory and descriptors. After all objects are destroyed the heap returns to its earlier level. This holds for hostile sizes and contents as well as for ordinary ones.",
  ["inputs", "histories", "programs"], "every in-contract call sequence over all components together",
  "The suite runs without sanitizers on fixed scripts and never touches the skip list or the POSIX environment.",
  ["db/skiplist.h", "util/arena.cc", "util/cache.cc", "util/coding.cc", "util/env_posix.cc", "helpers/memenv/memenv.cc", "util/status.cc", "util/logging.cc", "util/posix_logger.h"],
  [("ownership and bounds discipline", "all components")],
  [], ["AddressSanitizer and UndefinedBehaviorSanitizer reports, live heap bytes at quiescence, valgrind memcheck reports (uninitialised reads)"])

p("C30", "A reader racing an atomic replacement sees the old or the new file, whole",
  "While one thread or process replaces a file by writing a new one and renaming it over the old name, any concurrent open and read of that name, by sequential or whole-file reading, or through a random-access object that keeps the file open, yields exactly the complete old or the complete new content. It never yields a mixture, a truncated or extended version, a missing file or a crash, whatever the two sizes are. Once the rename has returned, later opens yield the new content.",
  ["schedules", "crash_points"], "every interleaving of the reader's system calls with the replacement, for any pair of sizes",
  "No test renames a file that another party is reading.",
  ["util/env_posix.cc", "util/env.cc", "helpers/memenv/memenv.cc"],
  [("rename system call", "util/env_posix.cc:RenameFile"), ("size and content taken from the opened file", "util/env_posix.cc:NewRandomAccessFile")],
  [], ["replacement performed at every system-call boundary of each reader; concurrent replacement loops"])

p("C31", "Mutexes exclude, and condition waits neither lose wakeups nor run unlocked",
  "At most one thread at a time is between acquiring and releasing a mutex, also when the scoped lock is left by any path, and what one holder wrote the next one sees. A waiter on a condition releases the mutex while waiting and holds it again when the wait returns; a signal given after it began waiting wakes at least one waiter and a broadcast wakes all. No program using them with the usual predicate loop hangs.",
  ["schedules"], "every interleaving of locking, waiting, signalling and broadcasting threads",
  "No test uses the mutex or condition variable from two threads.",
  ["port/port_stdcxx.h", "util/mutexlock.h"],
  [("adopt and release of the native lock around the wait", "port/port_stdcxx.h:CondVar::Wait"), ("scoped lock", "util/mutexlock.h")],
  [("mu_", "native mutex", "port/port_stdcxx.h")],
  ["holder counters inside critical sections, token and barrier accounting, ThreadSanitizer reports"])

p("C32", "The default environment is one usable object with true clock, sleep and temp dir",
  "Every call of the default environment's accessor, by any thread and at any time from static initialisation to exit handlers and static destructors, returns the same fully usable object, and a program that used it ends normally even with work still queued. The difference of two clock readings is the time that passed between them in microseconds, for readings decades apart too; a sleep lasts at least as long as requested even when signals arrive, returns at once for zero or negative values, and holds up no other caller. The test directory is the one named by TEST_TMPDIR when that is set and not empty and otherwise one of the effective user's own; it is the same on every call and exists when its parent does.",
  ["inputs", "schedules", "configurations"], "every time of use in a program's life, every clock value up to the year 2200, every sleep length and arrival of signals, every user and TEST_TMPDIR",
  "No test uses the POSIX environment's clock, sleep or test directory, and none can see what happens after main returns.",
  ["util/env_posix.cc"],
  [("function-local singleton in static storage, never destroyed", "util/env_posix.cc:SingletonEnv/Env::Default"), ("gettimeofday conversion", "util/env_posix.cc:NowMicros"), ("sleep_for", "util/env_posix.cc:SleepForMicroseconds"), ("test directory naming", "util/env_posix.cc:GetTestDirectory")],
  [("env_storage_", "storage of the default environment", "util/env_posix.cc:SingletonEnv")],
  ["clock readings bracketed by kernel clocks or under a set clock, measured sleeps, exit status and output of whole programs, existence of the directory"])

p("C33", "No file, log or lock the environment has open is inherited by a started program",
  "A program started by any thread with exec, at any moment between two system calls of the environment, inherits no descriptor of any file, directory, log or lock file the POSIX environment has open. So a child process can neither keep a removed file's space in use nor write to or hold open the files of the store. This holds for files opened for writing, appending, sequential and random reading, for logs and lock files, and during listings and directory syncs.",
  ["schedules", "histories"], "every moment of every history of opening, using and closing files at which another thread may start a program",
  "No test starts another program.",
  ["util/env_posix.cc"],
  [("close-on-exec in every open", "util/env_posix.cc:kOpenBaseFlags")],
  [("kOpenBaseFlags", "flags or-ed into every open", "util/env_posix.cc")],
  ["descriptor flags at every system-call boundary and the descriptors a started program reports"])

p("C34", "Costs stay bounded: logarithmic searches, constant-time cache, few writes",
  "Inserting, searching and seeking in a skip list take on average a number of key comparisons logarithmic in its size, whatever the insertion order, and stepping forward takes none that grows with it. Cache and arena operations and calls on in-memory files cost the same on average however much is held (name lookups at most logarithmically more), apart from the bytes they handle; encoding, decoding, hashing, comparing, escaping and parsing are linear in the bytes handled. The POSIX writer collects small appends, so that apart from flushes and syncs it makes no more than about one write call per 4 KiB appended; every other POSIX operation makes a bounded number of system calls besides those its bytes or names need.",
  ["inputs", "histories"], "every size, insertion order, key set and history of operations, at sizes beyond any test's",
  "Tests run on a handful of entries, where every data structure is fast; a degenerate tower height, a hash table that never grows or an unbuffered writer gives the same results.",
  ["db/skiplist.h", "util/cache.cc", "util/arena.cc", "helpers/memenv/memenv.cc", "util/env_posix.cc", "util/coding.cc", "util/hash.cc", "util/logging.cc"],
  [("tower heights", "db/skiplist.h:RandomHeight"), ("table growth", "util/cache.cc:HandleTable::Resize"), ("write buffer", "util/env_posix.cc:PosixWritableFile::Append"), ("block lookup", "helpers/memenv/memenv.cc:FileState::Read")],
  [("kBranching, kMaxHeight", "shape of the towers", "db/skiplist.h"), ("length_, elems_", "table size and load", "util/cache.cc"), ("pos_", "bytes buffered", "util/env_posix.cc")],
  ["key comparisons, executed basic blocks, bytes moved, allocations and system calls per operation"])

p("C35", "Memory in use follows what is stored, not how many operations have run",
  "However many operations have run, the heap memory a component holds stays within a constant factor of, plus a fixed amount per object above, the most its contents have been: cache entries that left the cache with no handle on them, replaced, truncated or removed in-memory files without open handles, finished background work, released locks and closed files hold none that grows. Searching a skip list takes no memory and inserting takes a bounded amount per key; a POSIX writer, reader or logger holds a fixed amount however much passes through it. Once everything stored has been removed and all objects are destroyed, what remains does not grow with the history.",
  ["histories"], "every long history of operations whose contents stay bounded",
  "Tests stop after a few operations, and leak checkers see only memory that is unreachable at the end, not what is kept and grows while a program runs.",
  ["util/cache.cc", "helpers/memenv/memenv.cc", "db/skiplist.h", "util/arena.cc", "util/env_posix.cc", "util/posix_logger.h"],
  [("entries freed with the last reference", "util/cache.cc:LRUCache::Unref"), ("blocks freed on truncation and with the last reference", "helpers/memenv/memenv.cc:FileState"), ("work items popped", "util/env_posix.cc:BackgroundThreadMain"), ("lock table entries removed", "util/env_posix.cc:PosixLockTable::Remove")],
  [("table_, lru_", "entries held", "util/cache.cc"), ("blocks_", "file content", "helpers/memenv/memenv.cc"), ("background_work_queue_", "pending work", "util/env_posix.cc")],
  ["bytes handed out by malloc, compared with the contents throughout each history"])

p("C36", "Threads that use different objects never disturb one another",
  "When threads at the same time use different slices, statuses, generators, skip lists, arenas, caches, in-memory environments, files and loggers, and call the coding, hashing, printing, parsing and whole-file functions on data of their own, each obtains exactly the results it would obtain alone, also when these uses are the first in the program. The same holds for threads that call only const operations on one slice, status or finished skip list. An object may be handed from thread to thread, with synchronization, at any point of its use: no result depends on which thread made the call. No such use has a data race.",
  ["schedules", "programs", "histories"], "every set of concurrently running programs over objects of their own and every way of handing an object between threads",
  "No test uses one of these components from two threads; hidden shared or per-thread state gives right results in one thread.",
  ["util/coding.cc", "util/logging.cc", "util/status.cc", "util/hash.cc", "util/arena.cc", "db/skiplist.h", "util/cache.cc", "helpers/memenv/memenv.cc", "util/env.cc", "util/env_posix.cc", "util/posix_logger.h"],
  [("scratch buffers on the stack or in the object", "util/coding.cc:PutVarint64, util/env_posix.cc:PosixWritableFile::buf_, util/posix_logger.h:Logv"), ("deep copies of status states", "util/status.cc:CopyState"), ("per-list generator", "db/skiplist.h:rnd_")],
  [("state_", "message of a status", "include/lsmdb/status.h"), ("rnd_", "generator of a skip list", "db/skiplist.h"), ("buf_", "buffered bytes", "util/env_posix.cc")],
  ["every result of deterministic programs, alone, beside others and handed between threads; race reports"])

p("C37", "Calls leave the process's state and everything not named in them alone",
  "No call of the library changes the state of the process or the calling thread: working directory, umask, identity, signal dispositions and mask, timers, environment variables, locale, resource limits, priority, or the hidden state of the C library that callers use (random sequences, strtok, static results, open listings). It writes nothing to standard output or error, starts no processes, closes, moves or alters no descriptor or mapping of the caller, and creates, changes and removes no file other than the ones its arguments name. Files it creates have permissions 0644 and directories 0755, less the umask, and existing files and directories keep their permissions and owner. This holds on success and failure and while other threads open and close descriptors.",
  ["histories", "configurations", "schedules"], "every history of calls, umask, set of signal dispositions and set of resources the caller holds, and every interleaving of its own opens and closes with the calls",
  "Tests look at results only; a descriptor closed twice, a memory range unmapped too far or a consumed random sequence hurts code elsewhere in the process.",
  ["util/env_posix.cc", "util/posix_logger.h", "util/env.cc", "helpers/memenv/memenv.cc", "util/cache.cc", "util/random.h", "util/logging.cc"],
  [("each descriptor closed exactly once", "util/env_posix.cc:PosixWritableFile::Close/~PosixWritableFile, PosixRandomAccessFile"), ("unmapping exactly what was mapped", "util/env_posix.cc:~PosixMmapReadableFile"), ("creation modes", "util/env_posix.cc:NewWritableFile/NewAppendableFile/LockFile/NewLogger/CreateDir"), ("generators of their own, re-entrant time conversion", "util/random.h, util/posix_logger.h:Logv")],
  [("fd_", "descriptor of a file", "util/env_posix.cc"), ("mmap_base_, length_", "mapping of a file", "util/env_posix.cc")],
  ["snapshots of process and C library state around stretches of calls; the caller's descriptors, mappings and files after every call"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
