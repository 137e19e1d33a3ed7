#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line) from the table below."""
import json, os
L = "lib/include/sse/schemes/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (len(title), title)
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

p("C01", "Asynchronous I/O completes every accepted request exactly once, with own data",
  "Every read or write request that an I/O scheduler accepts leads to exactly one call of the callback given with that request, with the caller's own data pointer and the number of bytes the kernel really transferred (a negative value or a short count when the transfer failed or was short), and the transfer moves exactly the requested bytes between the requested buffer and file offset. A request that is refused (misaligned buffer, length or offset, or a kernel-backed scheduler that was already drained) is reported by the return value and never calls back. A batch submission behaves like the individual submissions of its elements and returns the number of accepted ones.",
  ["schedules", "inputs", "fault_sequences"],
  "every mix of single and batched reads and writes, from one or several threads, on both back ends, at any queue depth, with short transfers, failing transfers, partially accepted submissions and interrupted waits",
  "The tests run 1000 in-order requests from one thread and one queue depth and look only at data; which completion belongs to which request, and what happens on partial acceptance, errors and short transfers, depends on the schedule and on kernel answers that a test never sees.",
  ["lib/abstractio/linux_aio_scheduler.cpp", "lib/abstractio/thread_pool_aio_scheduler.cpp", L+"abstractio/scheduler.hpp"],
  [("request object carried through the kernel and notified by the completion thread", "lib/abstractio/linux_aio_scheduler.cpp notify_loop, submit_iocbs"),
   ("task closure per request on the shared I/O pool", "lib/abstractio/thread_pool_aio_scheduler.cpp")],
  ["callbacks of submit_pread/submit_preads/submit_pwrite", "file contents after the writes", "interposed libaio / pread / pwrite calls"])

p("C02", "Draining the I/O scheduler waits for all requests; submission never gets stuck",
  "When the call that waits for completions returns, and when a scheduler is destroyed, the callbacks of all requests accepted before have returned. Submitting, waiting and destroying always terminate: no sequence of full submission queues, partially accepted batches, interrupted or failed kernel calls, or concurrent submitters leaves a thread blocked forever. After waiting for completions on a kernel-backed scheduler new requests are refused, and a duplicate of a scheduler is a fresh, usable scheduler of the same kind.",
  ["schedules", "fault_sequences"],
  "every interleaving of submitters and the completion thread, every pattern of queue-full answers, and every queue size from 1 up",
  "A lost wake-up or a wrong outstanding count needs a completion to slip between a queue-full answer and the start of the wait, or a kernel call to be interrupted; the tests neither provoke nor detect it.",
  ["lib/abstractio/linux_aio_scheduler.cpp", "lib/abstractio/thread_pool_aio_scheduler.cpp"],
  [("stop flag plus submitted/completed/failed counts", "lib/abstractio/linux_aio_scheduler.cpp notify_loop"),
   ("condition variable for a full submission queue", "lib/abstractio/linux_aio_scheduler.cpp submit_iocbs"),
   ("running request count under a lock", "lib/abstractio/thread_pool_aio_scheduler.cpp wait_completions")],
  ["return of wait_completions and of the destructor against the callback log", "progress watchdog"])

p("C03", "The append-only vector returns, at each index, exactly the value appended there",
  "Appending to the on-disk vector returns consecutive positions starting at 0, each handed out once, and after commit a synchronous, asynchronous or batched read of a position yields byte for byte the value appended there, for any mix and concurrency of synchronous and asynchronous appends, with or without a reserved size, in buffered and in direct mode. The same holds after the vector is closed and reopened, in the same or the other access mode, and after the access mode is switched on a committed vector. Each asynchronous read calls its callback exactly once.",
  ["histories", "inputs", "schedules", "configurations"],
  "every sequence of appends (synchronous, asynchronous, concurrent), reservation, commit, reopen, mode switch and reads, for value sizes that are and are not multiples of the page size",
  "The tests append 1000 values one after another with a single kind of append; mixing kinds, concurrent appends and reservations reach different file offsets.",
  [L+"abstractio/awonvm_vector.hpp", "lib/utils/utils.cpp"],
  [("position counter and positioned writes", L+"abstractio/awonvm_vector.hpp push_back, async_push_back"),
   ("positioned reads with an owned aligned buffer", L+"abstractio/awonvm_vector.hpp get, async_get, async_gets"),
   ("drain of the scheduler before commit", L+"abstractio/awonvm_vector.hpp commit")],
  ["return values and callbacks", "bytes of the file", "size()"])

p("C04", "The append-only vector enforces its life cycle and bounds and reports failures",
  "A vector accepts appends only before commit and reads only after it: an append after commit, a read before commit and a read at or beyond the size each fail with an exception, change nothing and never call back, and a vector opened on a non-empty file is committed with as many entries as the file holds. Commit, destruction and reopening are idempotent, and moving a vector transfers its whole state so that the source can be destroyed without touching the new owner or any other open file. A read, or a synchronous append, that the system fails or cuts short is reported (exception or empty result), never returned as data.",
  ["histories", "inputs", "fault_sequences"],
  "every order of life-cycle operations, every index at and beyond the bounds, and every failing or short system call",
  "The tests follow the one legal order of calls with in-range indexes and a kernel that never fails.",
  [L+"abstractio/awonvm_vector.hpp"],
  [("committed flag and size checks", L+"abstractio/awonvm_vector.hpp"),
   ("move constructor and destructor", L+"abstractio/awonvm_vector.hpp")],
  ["exceptions", "callbacks", "open file descriptors", "size()/is_committed()"])

p("C05", "The allocation graph's flow computation yields a valid maximum flow",
  "For every directed graph with a source, a sink, edge capacities and any number of parallel edges, cycles and self-loops, the computed flow respects 0 <= flow <= capacity on every edge and conservation at every inner vertex, and its value equals the maximum flow (the minimum cut). A path reported by the search is a real augmenting path from source to sink whose bottleneck is the reported amount, and one is reported exactly when one exists. Calls out of phase (adding edges after computing, reading flows before they are available, computing twice) and edges to out-of-range vertices are refused with an exception and leave the graph unchanged. Two graphs compare equal exactly when they have the same vertices and edges in the same state.",
  ["inputs", "histories"],
  "every finite graph, capacities including 0 and large values, and every order of calls",
  "The tests check eleven hand-made graphs; correctness of augmenting paths through reverse edges depends on graph shape.",
  ["lib/tethys/tethys_graph.cpp", L+"tethys/details/tethys_graph.hpp"],
  [("Ford-Fulkerson search over forward and reverse residual edges", "lib/tethys/tethys_graph.cpp find_source_sink_path"),
   ("residual update and conversion", "lib/tethys/tethys_graph.cpp compute_residual_maxflow, transform_residual_to_flow")],
  ["per-edge and per-vertex flows, total flow", "independent max-flow and min-cut computed from the same edges"])

p("C06", "The parallel flow computation gives a maximum flow under every schedule",
  "Computing the flow with a thread pool gives, for every graph and every scheduling of the per-component jobs, a valid flow of exactly the same value as the sequential computation on the same graph, including graphs with many components, isolated vertices and vertices adjacent only to the source or the sink. It always terminates, and works on a pool of any positive size, including one that is busy with other work or runs several computations at once.",
  ["schedules", "inputs"],
  "every graph, pool size and interleaving of the jobs",
  "The tests repeat eleven tiny graphs, most with a single component, under whatever schedule occurs.",
  ["lib/tethys/tethys_graph.cpp", L+"utils/thread_pool.hpp"],
  [("component labelling; each job restricted to its component", "lib/tethys/tethys_graph.cpp compute_connected_components, parallel_compute_residual_maxflow")],
  ["flows after the parallel run against the sequential run and an independent oracle"])

p("C07", "Bucket allocation conserves lists, never overfills buckets, minimises overflow",
  "After allocation no bucket holds more than its capacity, and every inserted list is split exactly between its two candidate buckets and the overflow, with a non-negative part in each and parts summing to its length; the set of overflowing lists reported is exactly the set of lists whose overflow part is positive. The total overflow is the minimum possible for the given lists and buckets. Lists longer than a bucket, the reserved index, and operations out of phase (inserting after allocating, allocating twice, reading the result before) are refused with an exception.",
  ["inputs", "histories"],
  "every multiset of lists (length 0 to the capacity, any two candidate buckets, equal or not) and every bucket capacity and count",
  "No stable test runs the allocator at all; optimality and conservation are statements about every input.",
  ["lib/tethys/tethys_allocator.cpp", L+"tethys/details/tethys_allocator.hpp", "lib/tethys/tethys_graph.cpp"],
  [("excess/deficit edges, max flow, trimming of overfull buckets", "lib/tethys/tethys_allocator.cpp allocate"),
   ("overflow set", "lib/tethys/tethys_allocator.cpp stashed_edges")],
  ["allocation graph and overflow set after allocate()", "independent optimum (min-cost/max-flow oracle)"])

p("C08", "A static list store returns exactly the stored list for every key",
  "For every set of distinct keys with lists that fit in a bucket (the empty list included), looking a key up in the built store returns exactly its list as a multiset, whether its elements ended up in the first bucket, the second, the overflow file or split among them, and looking up any other key returns nothing. Synchronous, asynchronous and bucket-level lookups agree, in buffered and direct mode, and each asynchronous lookup calls back exactly once. Lists that are too long and a second build are refused with an exception.",
  ["inputs", "schedules", "histories"],
  "every key/list collection including colliding buckets, overflowing buckets and block-boundary lengths, every encoder offered for the buckets, and every order of asynchronous completions",
  "The (unbuilt) store test uses seven keys and three list lengths.",
  [L+"tethys/tethys_store_builder.hpp", L+"tethys/tethys_store.hpp", L+"tethys/encoders/encode_separate.hpp", L+"tethys/encoders/encode_encrypt.hpp", L+"abstractio/kv_serializer.hpp"],
  [("encode: split of a list between incoming, overflow and outgoing parts", L+"tethys/encoders/encode_separate.hpp"),
   ("build: bucket filling and overflow serialisation", L+"tethys/tethys_store_builder.hpp"),
   ("lookup: two buckets plus overflow map", L+"tethys/tethys_store.hpp")],
  ["results of get_list, async_get_list, get_buckets + decode"])

p("C09", "Tethys: searching any keyword returns exactly its documents, for every database",
  "After a database of keyword lists is built into the static encrypted index, a search by the client, answered by the server and decoded by the client, returns exactly the documents of the keyword as a multiset, for lists of every length (empty, shorter than, equal to, and multiples of a bucket, and longer), and nothing for a keyword that was never inserted. This still holds after client and server are closed and reopened from their files.",
  ["inputs", "histories", "configurations"],
  "every database (number of keywords, list lengths including exact multiples of the bucket capacity, skewed sizes, overflowing parameters) and restart",
  "The (unbuilt) test has one database and three keywords, none at a block boundary.",
  [L+"tethys/tethys_builder.hpp", L+"tethys/tethys_client.hpp", L+"tethys/tethys_server.hpp", L+"tethys/encoders/encode_separate.hpp", L+"tethys/details/tethys_utils.hpp"],
  [("splitting a list into blocks and the per-keyword block counter", L+"tethys/tethys_builder.hpp insert_list"),
   ("token derivation", L+"tethys/details/tethys_utils.hpp"),
   ("bucket encryption", L+"tethys/encoders/encode_encrypt.hpp")],
  ["results of search_request / search / decode_search_results"])

p("C10", "The on-disk cuckoo table returns every inserted value and nothing else",
  "After the table is built and committed, looking up an inserted key returns exactly its value, synchronously and asynchronously (one callback per lookup), and looking up any other key reports that it is absent. No insertion, whatever the collisions and displacement chains it causes, changes or loses the value of another key without the builder reporting it. This holds after reopening the file, and the builder leaves no temporary file behind.",
  ["inputs", "histories", "schedules"],
  "every set of distinct keys that the table can place, at every load, for adversarially colliding keys and every order of insertion and of asynchronous completions",
  "The (unbuilt) test inserts 10000 pseudo-random keys at one load and never looks up an absent key.",
  [L+"oceanus/cuckoo.hpp", "lib/oceanus/cuckoo.cpp", L+"oceanus/details/cuckoo.hpp", L+"oceanus/oceanus.hpp"],
  [("displacement loop between two tables", "lib/oceanus/cuckoo.cpp insert"),
   ("materialisation of both tables", L+"oceanus/cuckoo.hpp commit"),
   ("two-location lookup with key comparison", L+"oceanus/cuckoo.hpp get, async_get")],
  ["get / async_get results", "files left in the directory"])

p("C11", "Pluto: searching any keyword returns exactly its documents, for every database",
  "After a database of keyword lists is built into the hybrid static index (full blocks in a hash table, the rest in the bucket store), a search returns exactly the documents of the keyword as a multiset, for lists of every length, with either hash-table back end, and nothing for a keyword that was never inserted. This still holds after client and server are closed and reopened from their files.",
  ["inputs", "histories", "configurations"],
  "every database (list lengths including exact multiples of the block length), every declared size, both hash-table back ends, and restart",
  "The (unbuilt) test compares sets on one database, which hides duplicates and padding, with no list at a block boundary.",
  [L+"pluto/pluto_builder.hpp", L+"pluto/pluto_server.hpp", L+"pluto/pluto_client.hpp", L+"pluto/types.hpp", L+"pluto/rocksdb_store.hpp", "lib/pluto/rocksdb_store.cpp"],
  [("block splitting and padding blocks", L+"pluto/pluto_builder.hpp"),
   ("block enumeration until the first absent key", L+"pluto/pluto_server.hpp search")],
  ["results of search_request / search / decode_search_results"])

p("C12", "Sophos: every search returns exactly the documents inserted for the keyword",
  "After any history of insertions and searches, a search of a keyword returns exactly the documents inserted for it so far (as a multiset, each insertion once) and nothing from other keywords, and nothing for an unknown keyword. All search variants - sequential, callback-based, parallel and asynchronous, with any positive thread count - return the same multiset, and each callback is called once per document. The history may include closing and reopening client and server and reloading the client from its saved keys.",
  ["histories", "inputs", "schedules", "configurations"],
  "every interleaving of insertions and searches over any keywords and documents, any thread count, and restarts at any point",
  "The (unbuilt) tests search three keywords with one to three documents each.",
  ["lib/sophos/sophos_client.cpp", "lib/sophos/sophos_server.cpp", "lib/sophos/sophos_common.cpp", L+"sophos/sophos_client.hpp", L+"sophos/sophos_server.hpp"],
  [("token chain through the trapdoor permutation, per-keyword counter", "lib/sophos/sophos_client.cpp"),
   ("chain walk, sequential and split over threads", "lib/sophos/sophos_server.cpp")],
  ["search results of every variant against a plaintext multimap"])

p("C13", "Diana: every search returns exactly the documents inserted for the keyword",
  "After any history of single and bulk insertions and searches, a search of a keyword returns exactly the documents inserted for it so far (as a multiset) and nothing from other keywords, and nothing for an unknown keyword. All search variants - sequential, callback-based, parallel and light parallel, with any positive thread count and with or without deletion of the results - return the same multiset, and a search that deletes its results removes exactly these entries. The number of matches the client gives for a keyword is the number of its insertions. The history may include closing and reopening client and server.",
  ["histories", "inputs", "schedules", "configurations"],
  "every interleaving of insertions and searches over any keywords and documents, any thread count and number of matches, and restarts at any point",
  "The (unbuilt) tests search a few keywords with few documents and one split of the work.",
  [L+"diana/diana_client.hpp", L+"diana/diana_server.hpp", L+"diana/types.hpp", "lib/diana/diana_common.cpp"],
  [("leaf index per insertion and constrained key per search", L+"diana/diana_client.hpp"),
   ("splitting the leaf range over threads", L+"diana/diana_server.hpp")],
  ["search results of every variant against a plaintext multimap", "database size after deleting searches"])

p("C14", "Janus: a search returns the inserted documents minus the deleted ones",
  "After any history of insertions, deletions and searches (in which a document deleted from a keyword is inserted for it again only after the keyword's next search), a search of a keyword returns exactly the documents inserted for it and not deleted from it since, and nothing from other keywords. Earlier searches (whose results the server caches), the number and order of deletions, and the variant of search used (sequential or parallel, any positive thread count) never change the result, and the history may include closing and reopening client and server.",
  ["histories", "inputs", "schedules"],
  "every interleaving of insertions, deletions and searches over any keywords and documents, within the number of deletions per keyword the key structure supports",
  "The (unbuilt) tests run one fixed history.",
  ["lib/janus/janus_client.cpp", "lib/janus/janus_server.cpp", L+"janus/types.hpp"],
  [("insertion and deletion sub-instances, puncturable encryption per search epoch", "lib/janus/janus_client.cpp"),
   ("decryption with punctured keys and result cache", "lib/janus/janus_server.cpp")],
  ["search results against a plaintext model"])

p("C15", "Every update of a dynamic index uses a fresh, unlinkable token",
  "Over any history of the dynamic schemes (any keywords, documents, searches, concurrent operations, restarts, and writes of the client's stores that fail), the tokens the client sends for insertions and deletions are pairwise distinct, so that no stored entry is ever overwritten. None of the tokens the server can derive from the search requests it has received so far equals the token of a later update (forward privacy as the server observes it). Neither a restart of the client nor a kill at any moment makes it repeat a token.",
  ["histories", "schedules", "crash_points"],
  "every history, including concurrent operations on the same keyword, client restarts between any two operations and kills at any write",
  "Tests only look at search results, which stay right for a while even when tokens repeat or are predictable, and never run insertions concurrently.",
  ["lib/sophos/sophos_client.cpp", L+"diana/diana_client.hpp", "lib/janus/janus_client.cpp", "lib/utils/rocksdb_wrapper.cpp"],
  [("persistent per-keyword counter advanced before a token is made", "lib/utils/rocksdb_wrapper.cpp get_and_increment"),
   ("token derivation from keyword secret and counter", "lib/sophos/sophos_client.cpp, "+L+"diana/diana_client.hpp")],
  ["update requests leaving the client", "tokens the server derives while answering"])

p("C16", "The key-value and list stores behave as durable maps",
  "The persistent entry store (whose keys all have one length) and the list store behave like a map from byte-string keys to values: a lookup returns exactly the value of the last successful put of that very key, a removed or never inserted key is reported absent, and lists come back with the same elements in the same order, whichever overload (string, array or pointer key) is used. Everything acknowledged is still there after a flush, after closing and reopening, and after the process is killed at any moment and the store reopened, and no partially written entry ever appears.",
  ["histories", "inputs", "crash_points"],
  "every sequence of put, overwrite, get, remove, flush and reopen over keys of any length and content, and a kill between or during any two operations",
  "The tests insert three keys, and close the store orderly.",
  [L+"utils/rocksdb_wrapper.hpp", "lib/utils/rocksdb_wrapper.cpp"],
  [("database options (write-ahead log, table formats)", L+"utils/rocksdb_wrapper.hpp"),
   ("key slices built from each overload", L+"utils/rocksdb_wrapper.hpp")],
  ["return values of get/put/remove", "state after reopen or kill"])

p("C17", "Keyword counters count exactly, also under concurrency, restart and kill",
  "The counter of a key that is absent starts at 0 (or at the given default) on its first increment and grows by exactly one with each further one, and reading, setting and removing a key behave like a map without touching other keys. Concurrent get-and-increment operations on one key return pairwise distinct consecutive values and none is lost, and concurrent operations of any kind take effect one after the other (no increment revives a counter removed in between or undoes a value set in between). After a reopen or a kill at any moment a counter holds at least every acknowledged increment and at most one per increment that was started. An increment that cannot read the stored value fails instead of starting over.",
  ["histories", "schedules", "crash_points"],
  "every sequence and interleaving of operations on any keys, and a kill at any point",
  "The tests count to one, from one thread, and close the store orderly; a repeated counter value silently destroys forward privacy.",
  ["lib/utils/rocksdb_wrapper.cpp", L+"utils/rocksdb_wrapper.hpp"],
  [("read-modify-write of a stored 32-bit value", "lib/utils/rocksdb_wrapper.cpp get_and_increment, increment")],
  ["returned values", "stored values after reopen or kill"])

p("C18", "The thread pool runs every accepted task exactly once and drains before it ends",
  "Every task accepted by the pool runs exactly once, on some worker, and its future delivers its own result or its own exception; tasks of a one-thread pool run in submission order, and a pool of n threads can run n blocking tasks at the same time. Joining and destroying the pool return only after all accepted tasks have finished, an exception in a task affects no other task, and submitting to a stopped pool is refused with an exception. No interleaving of submitters, workers and joining leaves a task unrun or a thread blocked.",
  ["schedules", "histories"],
  "every number of workers and submitters, tasks that submit further tasks, throw or block, and every moment of joining or destroying",
  "The tests use the pool only through the flow computation; lost wake-ups and early shutdown depend on the schedule.",
  [L+"utils/thread_pool.hpp"],
  [("queue under a mutex with a condition variable, stop flag", L+"utils/thread_pool.hpp")],
  ["execution log of tasks, futures, return of join and destructor"])

p("C19", "Directory removal deletes exactly the given tree; file helpers tell the truth",
  "Removing a directory deletes everything below the given path and the directory itself and nothing else: symbolic links inside, or the given path itself when it is one, are removed as links, never followed, whatever they point to, and names with unusual characters, deep nesting, empty directories and read-only files make no difference; removing a missing path succeeds without effect. If something cannot be removed the call reports it by an exception, and releases what it holds. The current directory of the process stays what it was, also while a tree is being removed. The queries for existence, file or directory kind and file size, and the creation, opening and removal of files and directories, report exactly what the file system shows, and opening an existing file keeps its contents.",
  ["inputs", "fault_sequences", "configurations"],
  "every directory tree with files, links (dangling, to files, to directories, upwards, to the outside, cyclic), special files and permissions",
  "Tests only remove flat directories of database files they have just created.",
  ["lib/utils/utils.cpp", L+"utils/utils.hpp"],
  [("physical tree walk in post-order", "lib/utils/utils.cpp remove_directory")],
  ["file system snapshot before and after"])

p("C20", "Concurrent use of the library is free of data races",
  "Using the library from several threads in the ways it is built for - parallel flow computation, several schedulers and vectors at once, thread pools, concurrent lookups in one store, concurrent appends, logging and first use of shared services, and parallel searches of the schemes - executes no data race: any two conflicting accesses to the library's own memory are ordered. In particular the first use of a lazily created shared service by several threads at once creates it once.",
  ["schedules"],
  "every interleaving of concurrent callers of operations that are meant to be used concurrently",
  "Tests hardly run anything concurrently and cannot see a race that happens not to change a result.",
  ["lib/tethys/tethys_graph.cpp", "lib/abstractio/linux_aio_scheduler.cpp", "lib/abstractio/thread_pool_aio_scheduler.cpp", "lib/utils/logger.cpp", L+"utils/thread_pool.hpp", L+"abstractio/awonvm_vector.hpp", "lib/sophos/sophos_server.cpp", L+"diana/diana_server.hpp", "lib/janus/janus_server.cpp"],
  [("atomics, mutexes, condition variables and futures", "the files above"),
   ("partition of the graph by component", "lib/tethys/tethys_graph.cpp")],
  ["ThreadSanitizer reports whose stacks touch the library's code"])

p("C21", "Decoding untrusted or damaged data is memory-safe and always terminates",
  "Decoding buckets received from a server with arbitrary contents (wrong key, garbage, truncated or maliciously chosen lengths), a damaged or truncated table or overflow file, and damaged stored entries never reads or writes outside the given data, never allocates without bound and always terminates, either with some result or with an exception. Results for well-formed parts that precede the damage are unaffected.",
  ["inputs", "fault_sequences"],
  "every byte content of a bucket, of a table, of an overflow file and of a stored entry",
  "Tests only decode what the library has just encoded.",
  [L+"tethys/encoders/encode_separate.hpp", L+"tethys/encoders/encode_encrypt.hpp", L+"abstractio/kv_serializer.hpp", L+"tethys/tethys_store.hpp", L+"tethys/tethys_client.hpp"],
  [("bucket decoding loop", L+"tethys/encoders/encode_separate.hpp decode_single_bucket"),
   ("overflow file deserialisation", L+"tethys/encoders/encode_separate.hpp deserialize_key_value")],
  ["sanitizer reports, exceptions and results on mutated inputs"])

p("C22", "Encodings, masks, serialisers and iterators are exact",
  "Hexadecimal rendering of a byte string, an array or an integer is the exact fixed-width lower-case rendering of its full value, and masking a value twice with the same mask gives the value back and flips exactly the mask's bits. The alignment test is true exactly for multiples of the alignment. Writing key-value pairs with the streaming serialiser and reading them back gives the same pairs in the same order for any contents, and the concatenating iterator visits exactly the elements of the first container followed by those of the second, with increments, comparisons and end conditions that agree, for const and mutable access.",
  ["inputs"],
  "every value, string, array length and element type, mask, alignment, and pair of containers of any lengths",
  "Tests only use these through higher layers, with a few values.",
  ["lib/utils/utils.cpp", L+"utils/utils.hpp", L+"utils/concat_iterator.hpp", L+"abstractio/kv_serializer.hpp"],
  [("formatting and masking functions", L+"utils/utils.hpp"),
   ("iterator switching containers", L+"utils/concat_iterator.hpp"),
   ("serialiser and deserialisation loop", L+"abstractio/kv_serializer.hpp")],
  ["return values against an independent reference"])

p("C23", "Memory and descriptors are neither leaked nor misused on any path",
  "Whatever sequence of operations is run - successes, refused calls, failing or short system calls, exceptions, cancelled or repeated use, destruction in any state - the library never touches freed or uninitialised memory, never overruns a buffer, executes no undefined operation, frees every block exactly once and closes every file descriptor it opened exactly once and no other. After the objects are destroyed, memory in use and the set of open descriptors are what they were before.",
  ["inputs", "histories", "fault_sequences", "schedules"],
  "every workload of the other properties, plus failing allocation-free system calls at every point",
  "Tests run without sanitizers, never make a system call fail, and leaks do not fail them.",
  ["lib/abstractio/linux_aio_scheduler.cpp", "lib/abstractio/thread_pool_aio_scheduler.cpp", L+"abstractio/awonvm_vector.hpp", "lib/utils/utils.cpp", "lib/utils/rocksdb_wrapper.cpp", "lib/tethys/tethys_graph.cpp"],
  [("ownership of request objects, buffers and descriptors", "the files above")],
  ["AddressSanitizer, LeakSanitizer and UBSan reports", "/proc/self/fd before and after"])

p("C24", "Logging goes where it was directed; every benchmark leaves one true record",
  "At any moment all messages of the library at or above the configured level go to the logger set last, each once and unchanged, and to none after logging was silenced; redirecting, silencing and changing the level work in any order and any number of times. Every benchmark object leaves exactly one record in the benchmark file, with its message, its item count, the time from its creation to its first stop (its destruction if never stopped), and that time per item.",
  ["histories"],
  "every sequence of redirections, level changes, messages and benchmarks",
  "No test looks at the log or at a benchmark record.",
  ["lib/utils/logger.cpp", L+"utils/logger.hpp"],
  [("shared logger", "lib/utils/logger.cpp logger, set_logger"), ("benchmark record written by the destructor", "lib/utils/logger.cpp ~Benchmark")],
  ["lines received by a sink", "lines of the benchmark file"])

p("C25", "Remote operation: searches over RPC return exactly what was acknowledged",
  "Running Sophos or Diana over RPC: after any history of single insertions, update sessions (fed by several threads), loads of a JSON file, searches, restarts of either side and switches between synchronous and asynchronous server search, a remote search returns, and gives to its callback once, every document whose insertion was acknowledged and nothing that was not inserted for that keyword; what is under way or whose acknowledgement was lost may or may not be there. Network failures at any call or in the middle of a stream crash and block neither side, and later calls work. A request to a server that is not set up, a second or malformed setup and a request with fields of another size are answered with an error status, change nothing, and serving goes on. Session calls out of phase are refused without effect, a file that cannot be loaded is reported as such and leaves no session open, and opening a runner on an incomplete, damaged or foreign directory throws.",
  ["inputs", "histories", "fault_sequences", "schedules"],
  "every history of runner calls, every loss of a request, reply or stream, every malformed request, any number of processors reported by the machine",
  "The upstream runner tests make a few insertions and searches over a network that never fails; they are not built here.",
  ["lib/sophos/sophos_client_runner.cpp", "lib/sophos/sophos_server_runner.cpp", "lib/diana/client_runner.cpp", "lib/diana/server_runner.cpp"],
  [("message_to_request and the request handlers", "lib/sophos/sophos_server_runner.cpp, lib/diana/server_runner.cpp"),
   ("bulk update state", "lib/sophos/sophos_client_runner.cpp, lib/diana/client_runner.cpp"),
   ("key files of both sides", "the four runners")],
  ["results and callbacks of remote searches", "status of every call", "exceptions of constructors and session calls"])

p("C26", "The server's side never sees keywords, documents or anything linking updates",
  "What leaves the client - update and search requests, the tables of the static schemes - and what the server keeps on disk contains no keyword and no document identifier in clear (apart from results of searches, which the server learns and Janus caches). Two updates have nothing in common, whether they concern the same keyword, the same document, or neither; no mask and no key and nonce of the stream cipher hides two different plaintexts; every bucket of a table is encrypted, the unused ones included. A search request gives away the update tokens of the keyword searched and of no other, and the requests for different keywords have nothing in common. The sizes of requests and tables, and the number of full blocks Pluto stores, depend on the declared number of entries only, not on how they are distributed.",
  ["inputs", "histories"],
  "every history of insertions, deletions, searches and restarts, every database of a given size",
  "Tests decrypt what they encrypted: client and server that agree on sending everything in clear pass them all.",
  ["lib/sophos/sophos_client.cpp", "lib/sophos/sophos_common.cpp", L+"diana/diana_client.hpp", L+"diana/diana_common.hpp", "lib/diana/diana_common.cpp", "lib/janus/janus_client.cpp", L+"tethys/encoders/encode_encrypt.hpp", L+"tethys/tethys_store_builder.hpp", L+"pluto/pluto_builder.hpp"],
  [("one-time masks of the documents", "lib/sophos/sophos_common.cpp gen_update_token_masks, "+L+"diana/diana_common.hpp"),
   ("bucket encryption under the table index as nonce", L+"tethys/encoders/encode_encrypt.hpp"),
   ("dummy blocks", L+"pluto/pluto_builder.hpp build")],
  ["bytes of every request", "bytes of the server's files", "arguments of the stream cipher"])

p("C27", "The random database generator makes exactly the documents and keywords announced",
  "For every requested size N and every number of processors the machine reports, 0 included, the generator gives its callback N different documents. Each has exactly one keyword of each of the six percentage families, consistent with each other, and exactly one of each of the nine group families, each pair once. The groups of a family and thread are filled one after the other: all but the last match exactly as many documents as their name announces; the percentage keywords match the announced share of the documents. Random groups match at most as many documents as announced, no document is in two groups of one family. All callbacks have returned when the generation ends.",
  ["inputs", "schedules"],
  "every number of documents and of processors",
  "The test generates one database of 1001 documents and looks at a few sums of it.",
  ["lib/utils/db_generator.cpp"],
  [("families of keywords", "lib/utils/db_generator.cpp generation_job"), ("one job per processor", "lib/utils/db_generator.cpp gen_db")],
  ["pairs given to the callback"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
