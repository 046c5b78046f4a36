"""Registry: property -> how it is checked."""

CHECKS = {}
NOT_APPLICABLE = {}

ASAN = ("gcc 13, libstdc++, AddressSanitizer; the reference models in the harness")


def check(pid, technique, note, bins, assumptions=(), level="model_checking"):
    CHECKS[pid] = dict(technique=technique, note=note, bins=bins,
                       assumptions=[ASAN] + list(assumptions), level=level)


def seq(pid, name, scenarios, technique, note, assumptions=(), **kw):
    b = dict(name=name, harness=["harness/%s.cpp" % name], mode="asan")
    if scenarios:
        b["scenarios"] = scenarios
    b.update(kw)
    check(pid, technique, note, [b], assumptions)


OPS = "exhaustive enumeration of bounded operation sequences on the real code against a reference model"
INP = "exhaustive enumeration of a bounded input space on the real code against a reference model"

seq("C40", "bitmap", None, OPS,
    "Complete within: 2 mutations (thorough 3) from every container kind, all operand pairs of 10 "
    "shapes, every truncation. Values are drawn from container and word boundaries only.")
seq("C41", "range", None, INP,
    "Complete for all lists of up to 3 ranges over two 6-point universes (at 0 and at INT64_MAX).")
seq("C42", "binpack", None, INP, "Complete for all lists of up to 5 items over 8 weights.")
seq("C43", "stream", ["bytearray*", "window*", "buffered*", "typed_huge"], OPS,
    "Complete for streams of up to 4 bytes, 3 operations, all windows, all buffer sizes, 4-5 operations "
    "on a buffered stream of 8 bytes, one injected "
    "source failure at each call.")
seq("C44", "stream", ["typed*", "string_limit", "segments*"], OPS,
    "Complete for the listed value kinds and sequence lengths, both byte orders, every truncation.",
    ["strings longer than 65535 bytes are outside the contract of the in-memory writer"])
seq("C45", "memseg", ["find", "chars", "compare3", "variable_part", "equal", "order", "copy", "long*"], INP,
    "Complete for texts of up to 4 symbols in all layouts of the given segment sizes.")
check("C46", INP, "Complete for regions of up to 6-8 bytes at every offset of every layout.",
      [dict(name="memseg", harness=["harness/memseg.cpp"], mode="asan",
            scenarios=["copy", "values", "bits", "equal", "order", "find", "long*"]),
       dict(name="stream", harness=["harness/stream.cpp"], mode="asan", scenarios=["segments*"])])
seq("C47", "codec", ["varint*"], INP,
    "Complete for sequences of up to 4 boundary values and byte strings of up to 4 significant bytes "
    "plus all over-long encodings.")
seq("C48", "codec", ["blob"], INP,
    "Complete over boundary field values, every truncation and single-byte corruption.")
seq("C49", "textfmt", ["escape*", "partition*"], INP,
    "Complete for all names of up to 2 bytes and longer ones over the relevant alphabet.")
seq("C50", "textfmt", ["timestamp*"], INP, "Complete over boundary instants.")
seq("C51", "index_algebra", ["bsi*"], OPS,
    "Complete for 4 rows (thorough 5) over 6 value universes, all comparison operators and literals.")
seq("C53", "index_algebra", ["global_index*"], INP,
    "Complete for all pairs of results over 4 row ids in 4 kinds, every truncation.")
seq("C54", "index_algebra", ["bloom*"], INP,
    "Complete for all sets of up to 3 of 12 boundary hashes in 20 filter configurations.")


def conc(pid, name, scenarios, technique, note, assumptions=(), **kw):
    b = dict(name=name, harness=["harness/%s.cpp" % name], mode="sched")
    if scenarios:
        b["scenarios"] = scenarios
    b.update(kw)
    check(pid, technique, note, [b], assumptions)


SCHED = ("stateless exploration of all thread interleavings of the real code under a controlled scheduler, up to "
         "a preemption bound, with a happens-before data-race detector")
SA = ["sequentially consistent interleavings only; weaker memory orders are covered by the race detector, which "
      "treats every atomic access as synchronising"]

BASE = dict(name="base", harness=["harness/base.cpp"], mode="asan")
CONC = dict(name="conc", harness=["harness/conc.cpp"], mode="sched")
check("C56", SCHED + "; plus exhaustive sequential histories against a model",
      "Complete for 2 threads with 2-3 operations and 2 preemptions, and for all sequential histories of 3-4 "
      "operations.", [dict(CONC, scenarios=["pool*"]), dict(BASE, scenarios=["pool*"])], SA)
conc("C57", "conc", ["executor*"], SCHED,
     "Complete for pools of 1-2 threads, up to 3 tasks, 1-2 preemptions (thorough: one more).", SA)
conc("C58", "conc", ["future*"], SCHED, "Complete for up to 3 tasks on 1-2 threads, 1-2 preemptions.", SA)
conc("C59", "conc", ["queue*", "map*"], SCHED,
     "Complete for 2 threads x 2 operations and 3 threads x 1 operation, 2 preemptions; every history is checked "
     "for linearizability by brute force.", SA)
check("C60", SCHED + "; plus exhaustive sequential histories against a model",
      "Complete for 2 threads x 2 operations, 2 preemptions, and all sequential histories of 4-5 operations.",
      [dict(CONC, scenarios=["metrics*"]), dict(BASE, scenarios=["metrics*"])], SA)
conc("C61", "conc", ["registry*"], SCHED, "Complete for 2-3 threads, 2 preemptions.", SA)
seq("C55", "base", ["map*", "collections"], OPS,
    "Complete for all histories of 4 (5) operations over 3 keys, and all pairs of lists of up to 4 elements.")
seq("C65", "base", ["codes*"], INP,
    "Complete over all byte codes, the names and their one-edit neighbourhood, lists of up to 3 deletion files, "
    "every truncation, every header byte value.")
seq("C67", "base", ["hash*"], INP, "Complete for byte strings of up to 6 (9) bytes over 3-4 values.")
seq("C68", "base", ["whole_file"], INP,
    "Complete for 9 lengths around the request size, one failure at each request, both completion orders.")

# ---- the table ---------------------------------------------------------------------------------
CORE_A = ["Arrow is replaced by a small stand-in (shim/) and manifest and data files use a simple format "
          "registered by the harness; the store is simulated with POSIX-like semantics; executors run tasks inline"]


def core(name, scenarios, **kw):
    b = dict(name=name, harness=["harness/%s.cpp" % name], mode="plain", roots=("common", "core"), allow_arrow=True,
             shim=True, extra_src=["shim/mini.cpp", "harness/core/det.cpp", "harness/core/exec.cpp"],
             scenarios=scenarios)
    b.update(kw)
    return b


CRASH = ("stateless exploration of the real code on a simulated store: every crash point, fault point and torn write "
         "of bounded histories, checked against a reference history")
IL = ("stateless exploration of the real code on a simulated store: all interleavings of the processes' store "
      "operations up to a switch bound, checked against a reference history")
check("C01", CRASH, "Complete for one stop or one failure (thorough: more) per run, 6 request kinds, 5 starting tables.",
      [core("core_commit", ["crash", "fault"])], CORE_A)
check("C02", IL, "Complete for 2 committers with 2 forced switches, 3 with 1 (thorough 4 and 2), all pairs of 6 request "
      "kinds; stops at any change.",
      [core("core_commit", ["race2", "race3", "race_crash", "retry_exhausted"])], CORE_A)
check("C03", CRASH, "Complete for histories of 3 hand-ins of 5 (7) sets by 2 users with 1 (2) stops.",
      [core("core_commit", ["idempotent"])], CORE_A)
check("C04", OPS, "Complete for all sequences of 3 (4) calls of 14 kinds.", [core("core_commit", ["conflict"])], CORE_A)
check("C05", OPS, "Complete for histories of 5 (6) commits under all given thresholds.",
      [core("core_commit", ["merge"])], CORE_A)
check("C06", CRASH + "; and all bounded interleavings with a commit or another expiration",
      "Complete for chains of 2-4 (5) snapshots, one (two) stops or failures, one (two) forced switches.",
      [core("core_snap", ["expire*"])], CORE_A)
check("C07", INP, "Complete for chains of 0-5 snapshots of 4 kinds and all given settings.",
      [core("core_snap", ["policy"])], CORE_A)
check("C08", CRASH + "; and all bounded interleavings with a commit or an expiration",
      "Complete for 0-4 snapshots, 13 stray files, one failure; 1 (2) forced switches.",
      [core("core_snap", ["orphan*"])], CORE_A)
check("C09", INP, "Complete for 22 ranges of snapshots, 19 x 19 hint contents, one failing operation.",
      [core("core_snap", ["find"])], CORE_A)
check("C10", IL + "; every crash and fault point", "Complete for 2 (3) processes with 3 forced switches.",
      [core("core_snap", ["create*"])], CORE_A)
check("C11", OPS, "Complete for histories of 4 (5) one-row commits and placements of 3 (4) rows.",
      [core("core_read", ["travel", "scan_filter"])], CORE_A)
check("C12", OPS, "Complete for all sequences of 5 (6) steps of 4 kinds under 7 start positions.",
      [core("core_read", ["follow"])], CORE_A)
check("C14", OPS, "Complete for histories of 4 records over 2 keys with all cuts between them.",
      [core("core_table", ["dedup", "seq_field", "ignore_delete"]), core("core_read", ["composite"])], CORE_A)
check("C15", OPS, "Complete for histories of 3 to 4 records with all cuts between them.",
      [core("core_table", ["partial_update", "sequence_group"])],
      list(CORE_A) + ["a deletion followed by an insertion of the key within one commit is left out: merging it before "
                      "writing is by design not the same as merging it on reading"])
check("C16", OPS, "Complete for histories of 3 to 4 records with all cuts between them.",
      [core("core_table", ["aggregation"])], CORE_A)
check("C18", OPS, "Complete for tables of 3 records, all projections and about 100 predicates.",
      [core("core_read", ["filter", "batches"])], CORE_A)
check("C25", IL + "; every fault point followed by a retry", "Complete for 2 committers and one failure.",
      [core("core_commit", ["row_*"])], CORE_A)

SHIM = dict(allow_arrow=True, shim=True, extra_src=["shim/mini.cpp"])
SHIM_A = ["Arrow is replaced by a small stand-in (shim/), which these parts use only through text helpers"]
PATHS = dict(name="paths", harness=["harness/paths.cpp"], mode="asan", roots=("common",), **SHIM)
check("C62", SCHED + "; plus exhaustive sequential histories against a model",
      "Complete for 3 requests of 2 threads with 2 (3) preemptions, all histories of 2 (3) of 81 calls, and 9 orders of up to 40 roots.",
      [dict(PATHS, scenarios=["resolving*"]),
       dict(name="conc_fs", harness=["harness/conc_fs.cpp"], mode="sched", roots=("common",), **SHIM)], SA + SHIM_A)
LOCALFS = dict(name="localfs", harness=["harness/localfs.cpp"], mode="plain", roots=("common", "fs/local"),
               ldflags=["-Wl,--wrap=%s" % w for w in
                        ("access stat lstat opendir remove unlink rmdir mkdir rename renameat2 link fopen open fread "
                         "pread fwrite write fflush fclose fsync fdatasync").split()], **SHIM)
LOCALFS_A = SHIM_A + ["runs on a real directory as an unprivileged user; system calls are intercepted at the library "
                      "boundary; a power loss keeps what was synced and either all or none of the rest of each file"]
check("C63", OPS + "; with a fault at each system call and all bounded interleavings of two processes",
      "Complete for the given numbers of operations and one fault.",
      [dict(LOCALFS, scenarios=["tree*", "wrong_scheme", "streams", "stream_faults", "dir_race", "store_*"])], LOCALFS_A)
check("C64", CRASH.replace("simulated store", "real directory") + "; and all bounded interleavings of two processes",
      "Complete for one stop, loss or failure and 2 (3) forced switches.",
      [dict(LOCALFS, scenarios=["store_*", "tree", "stream_faults"])], LOCALFS_A)
check("C69", INP, "Complete for texts of up to 7 (9) characters and pairs of up to 4.",
      [dict(PATHS, scenarios=["path_*", "object_store"])], SHIM_A)
VALUES = dict(name="values", harness=["harness/values.cpp"], mode="asan", roots=("common", "core"), allow_arrow=True,
              shim=True, extra_src=["shim/mini.cpp"])
check("C66", OPS, "Complete for 3 (4) settings out of 17, 5 paths, two results from one builder.",
      [dict(VALUES, scenarios=["scan_context", "commit_context", "plans"])], SHIM_A)
check("C70", INP, "Complete for sequences of 4 (5) of 3-4 boundary values in all column types; columns of up to 1000 values in 20 arrangements.",
      [dict(VALUES, scenarios=["column_stats*", "nested_stats"])],
      SHIM_A + ["floating point columns without NaN"])
check("C71", OPS, "Complete for 3 statuses or results and 2 (3) operations over all pairs.",
      [dict(VALUES, scenarios=["status_*", "results", "result_pointers"])], SHIM_A)

FINDEX = dict(name="file_index", harness=["harness/file_index.cpp"], mode="asan", roots=("common", "core"),
              allow_arrow=True, shim=True, extra_src=["shim/mini.cpp", "harness/core/exec.cpp"])
check("C19", INP, "Complete for columns of up to 4 (5) rows over null and 2-3 values in 11 types, 4 forms of the bitmap "
      "index, all conditions over the values and their neighbours; containers of 2 columns with 8 sets of indexes.",
      [FINDEX], SHIM_A)
check("C52", INP, "Complete for all AND/OR trees of 3 answers over 3 rows, lists of up to 3 (4) values, and containers of 2 "
      "columns with 8 sets of indexes.",
      [dict(name="index_algebra", harness=["harness/index_algebra.cpp"], scenarios=["file_index*"]),
       dict(FINDEX, scenarios=["reader_lists*", "evaluate"])], SHIM_A)
check("C26", INP, "Complete for columns of up to 4 rows in 16 types with all conditions over their values and neighbours, "
      "all trees of depth 2 over 5 (9) conditions, all pairs of literals.",
      [dict(FINDEX, name="predicates", harness=["harness/predicates.cpp"])], SHIM_A)
check("C72", INP, "Complete for all sets of 2 (3) of 49 options with all their texts, all texts of bounded length, all "
      "units with numbers around every limit.",
      [dict(FINDEX, name="options", harness=["harness/options.cpp"])], SHIM_A)
ROWS = dict(FINDEX, name="rows", harness=["harness/rows.cpp"])
check("C22", INP + "; all bounded histories of changes of a row",
      "Complete for rows of up to 2 (3) fields and arrays of up to 3 elements in 16 types over null, boundary values and "
      "neighbours in all forms, rows and arrays of up to 130 elements with every single null, 4 (5) changes of a row.",
      [dict(ROWS, scenarios=["rows", "wide_rows", "arrays", "row_history"])], SHIM_A)
check("C23", INP, "Complete for all pairs of rows of one field in 16 types and two fields in 4 types, both directions; batches "
      "of up to 2 rows and 10 numbers of buckets.", [dict(ROWS, scenarios=["row_pairs", "buckets"])], SHIM_A)
check("C73", INP, "Complete for all pairs of 116 unscaled numbers around powers of ten and two with 8 scales, all changes of "
      "scale and precision over 9 scales and 6 precisions, 30 instants in 4 units.",
      [dict(ROWS, scenarios=["decimals", "rescale", "times"])], SHIM_A)
check("C74", INP, "Complete for partitions of 1-2 keys in 7 types over null, boundary values and neighbours, both spellings.",
      [dict(ROWS, scenarios=["partition_values"])], SHIM_A)

META = dict(FINDEX, name="meta", harness=["harness/meta.cpp"])
check("C21", INP, "Complete for data files, index files, manifests and snapshots with up to 2-3 properties (thorough 3-4) away from the "
      "usual one, over boundary values of each.", [dict(META, scenarios=["stored_files", "stored_indexes", "snapshots"])], SHIM_A)
check("C27", INP, "Complete for lists of up to 2 messages and splits of up to 2 files with 1-2 (2-3) unusual properties, in every "
      "version read.", [dict(META, scenarios=["commit_messages", "splits"])], SHIM_A)
check("C28", INP, "Complete for schemas of 1-3 columns of 17 types nested up to 2 levels with 3 (4) deviations, and for every "
      "documented spelling of a type.", [dict(META, scenarios=["schemas", "type_texts"])], SHIM_A)

PLAN = dict(FINDEX, name="plan", harness=["harness/plan.cpp"])
check("C13", INP, "Complete for lists of up to 4 (5) files over 4 keys, 3 files over 3 (4) keys in 3 levels with 28 (36) "
      "settings, 4 (5) appended files, 3 (4) files over 4 row ids.",
      [dict(PLAN, scenarios=["sections", "merge_splits", "append_splits"])], SHIM_A)
check("C17", INP + "; all bounded histories of deletions; every failing read",
      "Complete for 3 (4) deletions of 8 rows, files of up to 4 (5) rows in all batches with all selections and all marked "
      "rows under 3 readers, 3 files in a row, every cut and every changed byte of the head of a stored vector.",
      [dict(PLAN, scenarios=["vectors", "vector_files", "batches", "scores", "concatenated", "row_ids"])], SHIM_A)

check("C20", SCHED, "Complete for up to 3 groups of rows, 2 readers and 1-2 threads with 1 delay (thorough: 4 groups, 3 readers, 2 "
      "delays), and for up to 4 (6) rows converted by 1-2 threads with 1 (2) preemptions, or by 3-5 threads.",
      [dict(name="prefetch", harness=["harness/prefetch.cpp"], mode="sched", roots=("common", "core"), allow_arrow=True,
            shim=True, extra_src=["shim/mini.cpp"], first_inc=["harness/tbb_model"])],
      SA + SHIM_A + ["the bounded queue of oneTBB is replaced by a model with the same order of events "
                     "(harness/tbb_model)"])
