"""Which harness runs decide which property."""
A = ["the kernel, libaio, RocksDB, spdlog and the C++ runtime behave as documented",
     "a run observes the executions it makes, not all executions"]

CHECKS = {
    "C01": dict(
        technique='runtime monitor of callbacks and file contents, with injected kernel faults, under ASan/UBSan',
        note='Each executed request is matched to exactly one completion and its bytes; holds on the executions made (schedules and fault plans drawn from the seed), not on all of them. Trusts the kernel and the interposed calls.',
        rule="a case = one scheduler, workload and fault plan drawn from the seed; distinct = distinct generator states",
        runs=[dict(src="io.cpp", mode="c01scale", shards=6), dict(src="io.cpp", flavor="asan", mode="c01", shards=16)], parallel=16,
        must=["c01.requests_aio", "c01.requests_pool", "c01.batches", "c01.refused", "c01scale.requests_on_one_scheduler", "c01scale.far_requests",
              "c01scale.large_requests"],
        assumptions=A),
    "C02": dict(
        technique='runtime monitor of drains with injected queue-full and interrupted kernel calls; progress watchdog; ASan/UBSan',
        note="Every drain observed returned after all callbacks; 'never blocks' is decided as progress within a generous watchdog, confirmed by a second run.",
        rule="a case = one scheduler, workload and fault plan drawn from the seed; distinct = distinct generator states",
        runs=[dict(src="io.cpp", flavor="asan", mode="c02", shards=16)], parallel=16,
        must=["c02.drains", "c02.outstanding_when_waiting", "c02.duplicates_used"],
        assumptions=A),
    "C03": dict(
        technique='history generation against a reference sequence model, under ASan/UBSan',
        note='Each read is compared with a model of the appended values, over generated histories with concurrent appends; holds on the histories executed.',
        rule="a case = one vector history (value size, scheduler, mode, appends, reopenings) drawn from the seed",
        runs=[dict(src="vector.cpp", mode="c03scale", shards=4), dict(src="vector.cpp", mode="c03", shards=16)], parallel=16,
        must=["c03.sync_appends", "c03.async_appends", "c03.concurrent_phases", "c03.async_reads", "c03.batch_reads",
              "c03.reopens", "c03.mode_switches", "c03scale.appends_of_many", "c03scale.far_reads"],
        assumptions=A),
    "C04": dict(
        technique='life-cycle history generation and system-call fault injection against a reference model, under ASan/UBSan',
        note='Every illegal call and injected failure observed was reported and left model, file and descriptors unchanged.',
        rule="a case = one order of life-cycle operations, or one fault plan, drawn from the seed",
        runs=[dict(src="vector.cpp", mode="c04life", shards=8), dict(src="vector.cpp", mode="c04fault", shards=8)],
        parallel=16,
        must=["c04life.illegal_appends", "c04life.illegal_reads", "c04life.life_moves", "c04life.opened_existing",
              "c04fault.reported_read_failures"],
        assumptions=A),
    "C05": dict(
        technique='generated graphs checked by an independent max-flow/min-cut oracle, under ASan/UBSan',
        note='Validity and optimality decided per graph by an independent Dinic implementation and a residual search; holds on the graphs generated.',
        rule="a case = one graph; distinct = distinct edge lists",
        runs=[dict(src="graph.cpp", mode="c05scale", shards=4, args=["--stall", "200"]), dict(src="graph.cpp", mode="c05", shards=8)], parallel=12,
        must=["c05.positive_flows", "c05.paths_checked", "c05.illegal_calls", "c05.comparisons", "c05scale.many_vertices"], assumptions=A),
    "C06": dict(
        technique='generated graphs and pool loads; parallel result against an independent oracle, under ASan/UBSan',
        note='As C05, over repeated schedules; only the schedules that occurred are covered.',
        rule="a case = one graph, pool size and surrounding load; distinct = distinct edge lists and pool sizes",
        runs=[dict(src="graph.cpp", mode="c06scale", shards=4, args=["--stall", "200"]), dict(src="graph.cpp", mode="c06", shards=8)], parallel=12,
        must=["c06.parallel_runs", "c06.simultaneous_runs", "c06.positive_flows", "c06scale.many_vertices"], assumptions=A),
    "C07": dict(
        technique='generated list multisets against an independent optimum, under ASan/UBSan',
        note='Conservation, capacities and optimality decided per instance by an independent max-flow oracle; holds on the instances generated.',
        rule="a case = one multiset of lists; distinct = distinct multisets",
        runs=[dict(src="graph.cpp", mode="c07scale", shards=4, args=["--stall", "200"]), dict(src="graph.cpp", mode="c07", shards=8)], parallel=12,
        must=["c07.lists", "c07.allocations_with_overflow", "c07.illegal_calls", "c07scale.allocations_of_many_lists", "c07scale.allocations_in_many_buckets"], assumptions=A),
}

NOT_CLAIMED = {}

CHECKS["C16"] = dict(
    technique="generated histories against a reference map, with reopening and killed processes, under ASan/UBSan",
    note="Every lookup compared with a model map; after each kill (SIGKILL at an arbitrary moment of a working process) every acknowledged write was found whole. Holds on the histories and kill moments executed. Loss of power (unsynced page cache) is outside the property.",
    rule="a case = one history of one store (key length, value type), or one series of killed writers, drawn from the seed",
    runs=[dict(src="store.cpp", mode="c16", shards=8), dict(src="store.cpp", mode="c16kill", shards=8), dict(src="store.cpp", mode="c16scale", shards=4),
          dict(src="store.cpp", mode="c16lin", shards=4)], parallel=8,
    must=["c16scale.entries", "c16scale.long_lists", "c16lin.overlapping_bursts", "c16.puts", "c16.removes", "c16.overwrites", "c16.list_puts", "c16.reopens", "c16.flushes", "c16kill.kills", "c16kill.ops_before_kill"],
    assumptions=A)
CHECKS["C17"] = dict(
    technique="generated and concurrent histories against a reference counter map, with killed processes and damaged files, under ASan/UBSan",
    note="Sequential values compared with a model; concurrent ones checked for distinctness and range, and short bursts of mixed operations for linearizability; after each SIGKILL the stored count lies between the acknowledged and the started increments. Holds on the schedules and kill moments executed.",
    rule="a case = one history of one counter store, or one series of killed writers, drawn from the seed",
    runs=[dict(src="store.cpp", mode="c17scale", shards=2), dict(src="store.cpp", mode="c17", shards=8), dict(src="store.cpp", mode="c17kill", shards=8),
          dict(src="store.cpp", mode="c17lin", shards=4)], parallel=8,
    must=["c17scale.increments_of_one_counter", "c17lin.overlapping_bursts", "c17.get_and_increments", "c17.concurrent_increments", "c17.reopens", "c17kill.kills", "c17kill.increments_before_kill"],
    assumptions=A)
CHECKS["C18"] = dict(
    technique="execution log of generated task mixes with injected delays against the pool's contract, under ASan/UBSan and TSan",
    note="Every accepted task of every generated mix ran exactly once and before join/destruction returned, on the schedules that occurred (many short runs, sleeping and busy workers, joining against submitters). A thread blocked forever is decided by a progress watchdog.",
    rule="a case = pool size, submitters, task mix and way of ending, drawn from the seed; distinct = distinct such tuples",
    runs=[dict(src="util.cpp", mode="c18scale", shards=4), dict(src="util.cpp", mode="c18", shards=8), dict(src="util.cpp", flavor="tsan", mode="c18", shards=2, quick=300, thorough=4000)], parallel=8,
    must=["c18.tasks", "c18.throwing_tasks", "c18.joins", "c18.barriers", "c18.subtasks", "c18.refused", "c18.destroyed_while_blocked", "c18scale.tasks_queued_at_once"],
    assumptions=A)
CHECKS["C22"] = dict(
    technique="generated values against independent reference implementations, under ASan/UBSan",
    note="Every result compared with an independently written rendering, mask, list or concatenation; holds on the values generated.",
    rule="a case = a batch of strings, integers, arrays, masks, pair lists and container pairs drawn from the seed",
    runs=[dict(src="util.cpp", mode="c22scale", shards=4), dict(src="util.cpp", mode="c22", shards=4)],
    must=["c22.hex_arrays", "c22.hex_strings", "c22.masks", "c22.kv_pairs", "c22.empty_first", "c22.empty_second", "c22.alignments", "c22scale.long_strings", "c22scale.many_pairs", "c22scale.concurrent_renderings"],
    assumptions=A)
CHECKS["C24"] = dict(
    technique="generated histories of logger operations and benchmarks against a reference, under ASan/UBSan",
    note="The lines that reach a monitoring sink and the benchmark file are compared with a model; holds on the histories generated.",
    rule="a case = a sequence of logger operations, or a group of benchmarks, drawn from the seed",
    runs=[dict(src="util.cpp", mode="c24", shards=2)],
    must=["c24.messages", "c24.silenced", "c24.redirections", "c24.records"],
    assumptions=A)
CHECKS["C19"] = dict(
    technique="generated trees and fault plans; file-system snapshots and interposed destructive calls as the oracle, under ASan/UBSan",
    note="For every generated tree the removal deleted the tree and nothing else (snapshot comparison), or reported a failure; run as an unprivileged user in a scratch directory. File systems other than the sandbox's, and mount points inside a tree, are not covered.",
    rule="a case = one directory tree (links, special files, odd names, permissions, failing entries), or one sequence of file operations, drawn from the seed",
    runs=[dict(src="fs.cpp", mode="c19", shards=8)],
    must=["c19.removed", "c19.links", "c19.specials", "c19.missing_removed", "c19.queries", "c19.file_operations"],
    assumptions=A)
CRYPTO = dict(crypto=True)
CHECKS["C08"] = dict(
    technique="generated key/list collections against a reference map, with concurrent lookups, under ASan/UBSan",
    note="Every lookup of every variant compared with the stored list as a multiset; holds on the collections, page and value sizes and schedules executed. Ciphers are replaced by a stand-in with the same interface (crypto-tk is not available here).",
    rule="a case = one collection of keys and lists (page size, value size, encoder, key shape, lengths, declared size) drawn from the seed",
    runs=[dict(src="tethys.cpp", mode="c08scale", shards=4, args=["--stall", "200"], opts=CRYPTO), dict(src="tethys.cpp", mode="c08", shards=20, opts=CRYPTO), dict(src="tethys.cpp", mode="c08fault", shards=6, opts=CRYPTO)], parallel=26,
    must=["c08scale.many_lists", "c08.lookups_present", "c08.lookups_absent", "c08.async_lookups", "c08.with_overflow_file", "c08.refused_lists",
          "c08.lists_partly_in_overflow", "c08.direct", "c08.destroyed_with_lookups_running", "c08fault.overflow_write_failures", "c08fault.lookups_reported_empty"],
    assumptions=A)
CHECKS["C21"] = dict(
    technique="structure-aware mutation of encoded buckets, overflow files and stored values, under ASan/UBSan with allocation metering",
    note="Every decoding of every mutated input stayed inside its data, within an allocation bound, ended, and gave the values that precede the damage; holds on the mutations executed.",
    rule="a case = a set of encoded lists and a series of mutations of their bytes, drawn from the seed",
    runs=[dict(src="tethys.cpp", mode="c21", shards=8, opts=CRYPTO), dict(src="static.cpp", mode="c21pluto", shards=16, opts=CRYPTO),
          dict(src="janus.cpp", mode="c21janus", shards=8, opts=CRYPTO)],
    parallel=32,
    must=["c21.damaged_buckets", "c21.lists_before_damage", "c21.damaged_stashes", "c21.stash_exceptions",
          "c21.stores_on_damaged_stash", "c21.clients_on_damaged_stash",
          "c21pluto.damaged_blocks", "c21pluto.damaged_files", "c21pluto.searches_refused", "c21pluto.searches_next_to_damage",
          "c21janus.damaged_caches", "c21janus.searches_on_damaged_cache"],
    assumptions=A)
CHECKS["C10"] = dict(
    technique="generated key sets against a reference map, concurrent and failing asynchronous lookups, under ASan/UBSan",
    note="Every lookup compared with a model; a key may only be missing if the builder reported a failed insertion. Holds on the key sets, loads and schedules executed.",
    rule="a case = one table (page size, key shape, load, search depth) drawn from the seed",
    runs=[dict(src="oceanus.cpp", mode="c10scale", shards=2, opts=CRYPTO), dict(src="oceanus.cpp", mode="c10", shards=24, opts=CRYPTO), dict(src="oceanus.cpp", mode="c10move", shards=4, opts=CRYPTO)],
    parallel=28,
    must=["c10scale.many_keys", "c10.lookups_present", "c10.lookups_absent", "c10.async_lookups", "c10.insertions_reported", "c10.tables_complete",
          "c10.lookups_failed_reported", "c10.reserved_key_insertions", "c10move.moves"],
    assumptions=A)
CHECKS["C09"] = dict(
    technique="generated inverted indexes against a reference map, with reopening and concurrent searches, under ASan/UBSan",
    note="Every search of every generated database compared with the plain index, unknown keywords included; holds on the databases executed. Ciphers are replaced by a stand-in with the same interface (crypto-tk is not available here).",
    rule="a case = one database (page size, keywords, list lengths, declared size, JSON or calls) drawn from the seed",
    runs=[dict(src="static.cpp", mode="c09scale", shards=6, opts=CRYPTO), dict(src="static.cpp", mode="c09", shards=24, opts=CRYPTO)], parallel=24,
    must=["c09scale.very_long_lists", "c09.searches_known", "c09.searches_unknown", "c09.exact_multiples", "c09.empty_lists", "c09.long_lists",
          "c09.with_client_stash", "c09.json_databases", "c09.concurrent_rounds"],
    assumptions=A)
CHECKS["C11"] = dict(
    technique="generated inverted indexes against a reference map, both hash-table back ends, reopening and concurrent searches, under ASan/UBSan",
    note="Every search of every generated database compared with the plain index; a build may only fail when the cuckoo table reports it. Holds on the databases executed; ciphers are a stand-in.",
    rule="a case = one database (back end, page size, list lengths, declared size) drawn from the seed",
    runs=[dict(src="static.cpp", mode="c11scale", shards=6, opts=CRYPTO), dict(src="static.cpp", mode="c11", shards=24, opts=CRYPTO)], parallel=24,
    must=["c11scale.very_long_lists", "c11.searches_known", "c11.searches_unknown", "c11.exact_multiples", "c11.long_lists", "c11.full_blocks",
          "c11.with_client_stash", "c11.json_databases", "c11.moved_builders"],
    assumptions=A)
CHECKS["C12"] = dict(
    technique="generated, partly concurrent histories against a reference multimap, with restarts, every search variant, under ASan/UBSan",
    note="Every search of every variant compared with a plaintext multimap, for generated histories, thread counts and numbers of processors; holds on the histories and schedules executed. The trapdoor permutation and PRFs are a stand-in (RSA with a short modulus).",
    rule="a case = one history (keywords, insertions, searches, restarts, processors) drawn from the seed",
    runs=[dict(src="sophos.cpp", mode="c12scale", shards=1, args=["--stall", "300"], opts=CRYPTO), dict(src="sophos.cpp", mode="c12", shards=16, opts=CRYPTO)], parallel=16,
    must=["c12scale.entries_of_one_keyword", "c12.insertions", "c12.searches_known", "c12.searches_unknown", "c12.concurrent_insertions", "c12.concurrent_searches",
          "c12.searches_while_inserting", "c12.restarts", "c12.light_callback", "c12.parallel_callback"],
    assumptions=A)
CHECKS["C13"] = dict(
    technique="generated, partly concurrent histories against a reference multimap, with restarts, every search variant, under ASan/UBSan",
    note="Every search of every variant compared with a plaintext multimap, and the database's number of entries with the model, for generated histories and thread counts; holds on the histories and schedules executed. The constrained PRF is a stand-in.",
    rule="a case = one history (keywords, single and bulk insertions, searches, deleting searches, restarts) drawn from the seed",
    runs=[dict(src="diana.cpp", mode="c13scale", shards=1, args=["--stall", "300"], opts=CRYPTO), dict(src="diana.cpp", mode="c13", shards=16, opts=CRYPTO), dict(src="diana.cpp", mode="c13small", shards=4, opts=CRYPTO)], parallel=20,
    must=["c13scale.entries_of_one_keyword", "c13.insertions", "c13.bulk_insertions", "c13.searches_known", "c13.searches_unknown", "c13.concurrent_insertions",
          "c13.concurrent_searches", "c13.deleting_searches", "c13.restarts", "c13.vector", "c13.tl_callback", "c13.databases_counted",
          "c13small.insertions"],
    assumptions=A)
CHECKS["C14"] = dict(
    technique="generated histories with deletions against a reference multimap, with restarts, reordered updates, every search variant, under ASan/UBSan",
    note="Every search of every variant compared with a plaintext model for generated histories; holds on the histories executed. Puncturable encryption is a stand-in that decrypts only if all puncture indices are used exactly once. A document deleted and inserted again between two searches is outside the property.",
    rule="a case = one history (keywords, insertions, deletions, searches, restarts, delivery order) drawn from the seed",
    runs=[dict(src="janus.cpp", mode="c14", shards=16, opts=CRYPTO), dict(src="janus.cpp", mode="c14epochs", shards=4, opts=CRYPTO)], parallel=20,
    must=["c14.insertions", "c14.deletions", "c14.deletions_after_search", "c14.several_deletions_between_searches", "c14.searches_known",
          "c14.searches_unknown", "c14.searches_all_deleted", "c14.restarts", "c14.parallel", "c14.parallel_tl", "c14.reordered_updates",
          "c14.concurrent_insertions", "c14.concurrent_deletions", "c14epochs.epochs"],
    assumptions=A)
CHECKS["C15"] = dict(
    technique="trace monitor of all tokens sent and derivable, over generated concurrent histories, restarts, kills at chosen writes and failing writes",
    note="Every token that left a client was compared with all earlier tokens and with all tokens computable from the search requests made before, over generated histories; clients were killed at chosen writes of their stores, or had writes fail. Holds on the histories, schedules and crash points executed; the cryptographic primitives are stand-ins with the same interface.",
    rule="a case = one history of one client (keywords, updates, searches, restarts), or one series of killed clients, drawn from the seed",
    runs=[dict(src=f"{s}.cpp", mode=m, shards=n, opts=CRYPTO) for s in ("janus", "sophos", "diana") for m, n in (("c15kill", 8), ("c15", 8))],
    parallel=20,
    must=["c15.tokens_of_insertion", "c15.tokens_of_deletion", "c15.tokens_of_bulk_insertion", "c15.tokens_of_concurrent_insertion", "c15.derived_known",
          "c15.restarts", "c15.concurrent_searches", "c15kill.kills", "c15kill.rounds_with_failing_writes", "c15kill.derived_known"],
    assumptions=A)

RACE = [("io", "c01", 8, 96, 800), ("io", "c02", 8, 96, 800), ("vector", "c03", 8, 48, 400), ("vector", "c04life", 4, 32, 300),
        ("graph", "c06", 4, 80, 800), ("util", "c18", 4, 320, 4000), ("util", "c20first", 48, 48, 400), ("util", "c22scale", 2, 2, 20), ("store", "c17", 4, 24, 200), ("store", "c17lin", 2, 4, 40), ("graph", "c06scale", 2, 2, 10),
        ("tethys", "c08", 6, 24, 200), ("oceanus", "c10", 6, 24, 200), ("static", "c09", 6, 24, 200), ("static", "c11", 6, 24, 200),
        ("sophos", "c12", 6, 24, 200), ("diana", "c13", 6, 24, 200), ("janus", "c14", 6, 24, 200), ("janus", "c15", 4, 8, 100),
        ("runner", "c25", 6, 24, 200)]
WITH_CRYPTO = {"tethys", "oceanus", "static", "sophos", "diana", "janus", "dbgen", "leak", "runner"}
def part_opts(s):
    return dict(crypto=True, rpc=True) if s == "runner" else dict(crypto=True) if s in WITH_CRYPTO else {}
CHECKS["C20"] = dict(
    technique="ThreadSanitizer over the concurrent workloads of all parts, first uses of shared services in fresh processes",
    note="No data race, lock-order inversion or misuse of a synchronisation object touching the library or the memory it hands to its callers was reported on the executions made. RocksDB is not instrumented: its own synchronisation is trusted, and its calls are modelled as ordered per database by a stand-in only in so far as they hand over memory.",
    rule="a case = one concurrent workload (see the properties of the parts), or one simultaneous first use, drawn from the seed",
    runs=[dict(src=f"{s}.cpp", flavor="tsan", mode=m, shards=n, quick=q, thorough=th, opts=part_opts(s))
          for s, m, n, q, th in RACE],
    only_keys=r"^tsan:|^first:", parallel=24,
    must=["c01.requests_aio", "c01.requests_pool", "c02.drains", "c03.concurrent_phases", "c06.parallel_runs", "c18.tasks", "c20first.first_loggers",
          "c20first.first_pools", "c20first.first_schedulers", "c20first.shared_pools_counted", "c17.concurrent_increments", "c08.async_lookups",
          "c10.async_lookups", "c09.concurrent_rounds", "c11.concurrent_rounds", "c12.concurrent_searches", "c12.searches_while_inserting",
          "c13.concurrent_searches", "c14.concurrent_insertions", "c15.concurrent_searches", "c25.concurrent_searches"],
    assumptions=A + ["a race is seen only if the two accesses are executed unordered in a run; RocksDB's internal synchronisation is correct"])

# (harness, mode, processes, quick, thorough, cases under memcheck: quick, thorough)
MEM = [("io", "c01", 8, 160, 4000, 12, 200), ("io", "c02", 4, 80, 2000, 6, 100), ("vector", "c03", 4, 60, 1500, 8, 100),
       ("vector", "c04life", 8, 120, 3000, 8, 100), ("vector", "c04fault", 8, 120, 3000, 12, 200), ("graph", "c05", 2, 100, 5000, 6, 100),
       ("graph", "c06", 2, 40, 1000, 3, 40), ("graph", "c07", 2, 100, 5000, 6, 100), ("util", "c18", 4, 200, 4000, 12, 200),
       ("util", "c22", 2, 60, 2000, 3, 60), ("util", "c24", 1, 12, 200, 4, 40), ("store", "c16", 8, 8, 160, 2, 16), ("store", "c17", 4, 8, 200, 1, 30),
       ("fs", "c19", 4, 80, 4000, 10, 200), ("tethys", "c08", 8, 40, 1000, 8, 120), ("tethys", "c08fault", 4, 40, 1000, 6, 100),
       ("tethys", "c21", 4, 40, 1000, 4, 60), ("oceanus", "c10", 6, 30, 1000, 6, 100), ("oceanus", "c10move", 2, 8, 100, 4, 40),
       ("static", "c09", 6, 12, 300, 4, 60), ("static", "c11", 6, 12, 300, 4, 60), ("static", "c21pluto", 4, 8, 200, 2, 30),
       ("sophos", "c12", 6, 12, 300, 1, 20), ("sophos", "c15", 2, 2, 60, 0, 10), ("diana", "c13", 6, 12, 300, 2, 30), ("diana", "c15", 2, 2, 60, 0, 10),
       ("janus", "c14", 6, 12, 300, 2, 30), ("janus", "c21janus", 4, 8, 200, 1, 20), ("janus", "c15", 2, 2, 60, 0, 10),
       ("runner", "c25", 6, 12, 300, 1, 4), ("dbgen", "c27", 1, 8, 200, 0, 0)]
CHECKS["C23"] = dict(
    technique="AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer and memcheck over the workloads and fault plans of all parts; balance of descriptors per case",
    note="No invalid access, use of uninitialised memory, mismatched or double release, undefined operation, leak or unbalanced descriptor was reported on the executions made, fault-injected ones included. RocksDB and libstdc++ are not instrumented for ASan; memcheck observes them.",
    rule="a case = one workload or fault plan of one part (see the properties of the parts), drawn from the seed",
    # the slow ones first
    runs=[dict(src=f"{s}.cpp", mode=m, flavor="memcheck", shards=min(2, max(mq, 1)), quick=mq, thorough=mt, args=["--stall", "300"],
               opts=part_opts(s), tiers=("quick", "thorough") if mq else ("thorough",))
          for s, m, _, _, _, mq, mt in reversed(MEM)]
    + [dict(src=f"{s}.cpp", mode=m, shards=n, quick=q, thorough=th, args=["--fds"], opts=part_opts(s))
       for s, m, n, q, th, _, _ in MEM],
    only_keys=r"^(asan|ubsan|leak|memcheck|fd|crash|assert):", parallel=20,
    must=["c01.batches", "c02.drains", "c03.async_reads", "c04life.life_moves", "c04fault.reported_read_failures", "c05.positive_flows", "c06.parallel_runs",
          "c07.allocations_with_overflow", "c18.tasks", "c22.kv_pairs", "c24.messages", "c16.reopens", "c17.reopens", "c19.removed", "c08.destroyed_with_lookups_running",
          "c08fault.overflow_write_failures", "c21.damaged_buckets", "c10.lookups_present", "c10move.moves", "c09.searches_known", "c11.searches_known",
          "c21pluto.damaged_blocks|c21pluto.damaged_files", "c12.searches_known", "c13.searches_known", "c14.searches_known", "c21janus.damaged_caches", "c15.derived_known",
          "c03.descriptor_balances"],
    assumptions=A + ["code of RocksDB, spdlog and the C++ runtime is observed by memcheck only"])

RPC = dict(crypto=True, rpc=True)
CHECKS["C25"] = dict(
    technique="generated histories over RPC with lost calls and broken streams against a reference multimap, under ASan/UBSan",
    note="Every remote search compared with what was acknowledged and what was under way, for generated histories; holds on the histories and schedules executed. gRPC is absent here: a stand-in carries the encoded messages, loses calls, breaks streams and watches for what gRPC forbids.",
    rule="a case = one history of a client and a server runner (insertions, sessions, JSON files, searches, restarts, losses) drawn from the seed",
    runs=[dict(src="runner.cpp", mode="c25", shards=20, opts=RPC)], parallel=20,
    must=["c25.insertions", "c25.sessions", "c25.session_insertions", "c25.searches_known", "c25.searches_unknown", "c25.searches_async", "c25.searches_sync",
          "c25.json", "c25.damaged_json", "c25.restarts", "c25.refused_requests", "c25.refused_before_setup", "c25.second_setups", "c25.out_of_phase",
          "c25.incomplete_directories", "c25.lost_requests", "c25.lost_replies", "c25.broken_searches", "c25.broken_sessions", "c25.searches_during_a_session",
          "c25.abandoned_sessions", "c25.calls_without_server", "c25.concurrent_searches"],
    assumptions=A)

CHECKS["C26"] = dict(
    technique="monitor of everything the server's side receives and stores (requests, tables, database files) and of every use of the stream cipher",
    note="Requests, tables and files of generated histories contained no keyword or document, nothing two updates have in common, no reused mask or keystream, no token of a keyword that was not searched, and had the same size whatever was stored. Holds on the histories executed; that the primitives themselves hide what they are given is assumed (they are stand-ins). Pluto's complete blocks are stored in clear: a known finding.",
    rule="a case = one history of a dynamic scheme, or two databases of the same declared size for a static scheme, drawn from the seed",
    runs=[dict(src="leak.cpp", mode="c26", shards=14, opts=CRYPTO), dict(src="leak.cpp", mode="c26static", shards=6, opts=CRYPTO)], parallel=20,
    must=["c26.updates_seen", "c26.masks", "c26.searches_known", "c26.tokens_given_away", "c26.server_bytes", "c26.client_restarts", "c26.bulk_insertions",
          "c26static.blocks_encrypted", "c26static.table_buckets", "c26static.tables_compared"],
    assumptions=A)

CHECKS["C27"] = dict(
    technique="generated database sizes and numbers of processors; every generated pair recorded and judged against the description of the database, under ASan/UBSan and TSan",
    note="All pairs of each generated database were recorded and compared with what the keywords' names announce. The random choices of the generator are its own: shares are judged with a margin of 12 standard deviations.",
    rule="a case = one database size and number of processors; distinct = distinct pairs of them",
    runs=[dict(src="dbgen.cpp", mode="c27", shards=12, opts=CRYPTO), dict(src="dbgen.cpp", mode="c27race", flavor="tsan", shards=2, opts=CRYPTO)], parallel=14,
    must=["c27.documents", "c27.complete_groups", "c27.shares_checked", "c27.concurrent_callbacks", "c27.random_groups_2", "c27.random_groups_3", "c27.unknown_processors", "c27race.documents"],
    assumptions=A)
