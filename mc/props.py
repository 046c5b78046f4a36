"""Source of properties.jsonl and of the checks section of MANIFEST.json (see mc/gen.py)."""

PROPS = {}


def prop(pid, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    assert len(title) <= 80, (pid, len(title))
    assert pid not in PROPS, pid
    anchors = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                   observe_at=observe, hook_needed=hook)
    if state:
        anchors["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    PROPS[pid] = dict(id=pid, title=title, statement=statement,
                      quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=anchors)


S = "src/paimon/"
I = "include/paimon/"

prop("C40", "Row-id bitmaps behave as sets of integers",
     "A bitmap of row ids, 32-bit or 64-bit, contains exactly the ids that the operations applied to "
     "it put there: adding, range adding, flipping, intersecting, uniting, subtracting, iterating, "
     "seeking, counting, copying and moving all agree with mathematical sets, up to the largest "
     "representable id. Serializing and reading back gives an equal bitmap, and input that is cut "
     "short is refused with an error.",
     ["inputs", "histories"],
     "every sequence of operations on bitmaps of every container kind, every pair of operands, "
     "every truncation of a serialized bitmap",
     "Tests apply single operations to small hand-picked sets; ids at container and 2^31/2^32 "
     "boundaries, mixed container kinds and self-aliasing operands are not combined.",
     [S + "common/utils/roaring_bitmap32.cpp", S + "common/utils/roaring_bitmap64.cpp",
      I + "utils/roaring_bitmap32.h", I + "utils/roaring_bitmap64.h"],
     [("wrappers over the roaring container library", S + "common/utils/roaring_bitmap32.cpp"),
      ("iterator with seek", S + "common/utils/roaring_bitmap64.cpp")],
     ["public bitmap API"])

prop("C41", "Row-id range algebra neither loses nor invents rows",
     "Merging, intersecting, excluding, ordering and grouping closed row-id ranges preserves exactly "
     "the covered set of row ids, including ranges that end at the largest row id. Merged output is "
     "sorted and disjoint, and ranges are grouped together exactly when they are connected through "
     "overlapping ranges.",
     ["inputs"],
     "all lists of ranges over a small universe placed at zero and at the 64-bit limit",
     "Tests use a dozen literal lists, none of which touches the end of the id space.",
     [S + "common/utils/range.cpp", I + "utils/range.h", S + "common/utils/range_helper.h"],
     [("sort-and-merge of ranges", S + "common/utils/range.cpp"),
      ("grouping of overlapping ranges", S + "common/utils/range_helper.h")],
     ["range API"])

prop("C42", "Packing items into bins keeps every item once, in order",
     "Distributing weighted items into bins emits every item exactly once and in the given order, "
     "and never emits an empty bin. A bin exceeds the target weight only when a single item in it "
     "already does, and an item starts a new bin only when it would not have fitted.",
     ["inputs"],
     "all item lists up to a length with weights around the target, including zero and huge weights",
     "The existing test packs one list of small numbers.",
     [S + "common/utils/bin_packing.h"],
     [("ordered packing", S + "common/utils/bin_packing.h")],
     ["packing function"])

prop("C43", "Byte input streams read the right bytes at the right position",
     "For every sequence of reads, positioned reads and seeks, memory streams, windows onto a stream "
     "and buffered streams return exactly the bytes of the underlying data at the reported position. "
     "A request that leaves the stream's bounds fails without moving the position, a failing source is "
     "reported, and a short read is never presented as complete.",
     ["histories", "inputs", "fault_sequences"],
     "all operation sequences up to a depth over small streams, all window placements, all buffer "
     "sizes, and an injected failure at every source call",
     "Tests follow one fixed script per stream and never let the source fail.",
     [S + "common/io/byte_array_input_stream.cpp", S + "common/io/offset_input_stream.cpp",
      S + "common/io/buffered_input_stream.cpp"],
     [("window bounds", S + "common/io/offset_input_stream.cpp"),
      ("buffer refill", S + "common/io/buffered_input_stream.cpp")],
     ["InputStream interface"])

prop("C44", "Typed data streams round-trip values in the documented byte order",
     "Values, strings and byte blocks written through the typed output streams are read back equal, in "
     "the byte order chosen, whatever the segment size of the writer. The produced bytes are exactly the "
     "documented encoding, and every truncated input or failing source yields an error instead of a "
     "value.",
     ["inputs", "histories", "fault_sequences"],
     "all sequences of writes of all value kinds in both byte orders, every segment size, every cut "
     "position of the produced bytes",
     "Tests write one of each kind once and read it back whole.",
     [S + "common/io/data_input_stream.cpp", S + "common/io/data_output_stream.cpp",
      S + "common/io/memory_segment_output_stream.cpp"],
     [("byte swapping", S + "common/io/data_input_stream.cpp"),
      ("segment switching", S + "common/io/memory_segment_output_stream.cpp")],
     ["typed stream API", "produced bytes"])

prop("C45", "Binary strings behave as their byte sequence for any memory layout",
     "Length, comparison, equality, hashing, substring, search, concatenation, trimming, case mapping and "
     "copying of a binary string give the same answer for a given text no matter how its bytes are spread "
     "over memory segments. Order is unsigned byte order, substring counts characters, and no operation "
     "reads outside the string even when its bytes end inside a character.",
     ["inputs", "configurations"],
     "all short texts over ASCII, multi-byte and malformed characters times all segment layouts",
     "Tests use valid text in one or two layouts.",
     [S + "common/data/binary_string.cpp", S + "common/data/binary_string.h",
      S + "common/data/binary_section.cpp"],
     [("multi-segment access", S + "common/data/binary_string.cpp")],
     ["binary string API"])

prop("C46", "Memory segment operations equal flat byte-array operations",
     "Copying, comparing, equality, searching, bit access, typed loads and stores and hashing over a region "
     "spread across several memory segments equal the same operation on one flat byte array. Nothing outside "
     "the addressed region is read or changed.",
     ["inputs", "configurations"],
     "all segment sizes, offsets, lengths and contents within small bounds",
     "Tests use fixed offsets that never straddle more than one boundary.",
     [S + "common/memory/memory_segment.cpp", S + "common/memory/memory_segment.h",
      S + "common/memory/memory_segment_utils.cpp", S + "common/utils/murmurhash_utils.h"],
     [("segment-straddling loops", S + "common/memory/memory_segment_utils.cpp")],
     ["segment utilities"])

prop("C47", "Delta varint encoding is lossless and rejects malformed bytes",
     "Every sequence of 64-bit integers survives encoding and decoding unchanged, including sequences whose "
     "differences overflow, and the bytes are the documented zig-zag varint form. Bytes that end inside a "
     "number or describe a number wider than 64 bits are refused.",
     ["inputs"],
     "all short sequences over boundary values and all short byte strings over significant byte values",
     "Tests cover two dozen literal sequences.",
     [S + "common/utils/delta_varint_compressor.cpp", S + "common/utils/delta_varint_compressor.h"],
     [("zig-zag and varint loops", S + "common/utils/delta_varint_compressor.cpp")],
     ["compress/decompress"])

prop("C48", "Blob descriptors round-trip and malformed ones are refused",
     "A blob descriptor that is serialized and read back has the same location, offset and length and "
     "serializes to the same bytes. Bytes that are cut short, carry another version or magic, or claim an "
     "impossible length are refused and never crash the reader.",
     ["inputs"],
     "all descriptors over boundary values, every truncation and every single-byte corruption",
     "Tests corrupt three chosen positions.",
     [S + "common/data/blob_descriptor.cpp", S + "common/data/blob_descriptor.h"],
     [("header validation", S + "common/data/blob_descriptor.cpp")],
     ["serialize/deserialize"])

prop("C49", "Partition paths are injective and reversible",
     "The directory name generated for a partition identifies it: two different partition specifications "
     "never share a path, and undoing the percent escapes of the path gives back the specification, for every "
     "byte that can occur in names and values. Escaped names never contain path separators, equals signs or "
     "control bytes, empty names are refused, and the paths of the enclosing levels are prefixes of it.",
     ["inputs"],
     "all names of up to two arbitrary bytes, all longer names over the escaping-relevant alphabet, all "
     "specifications of up to two keys",
     "Tests escape a handful of literals.",
     [S + "core/utils/partition_path_utils.cpp", S + "core/utils/partition_path_utils.h"],
     [("percent escaping", S + "core/utils/partition_path_utils.cpp")],
     ["generated directory names"])

prop("C50", "Timestamps convert, order and print consistently",
     "A timestamp converts between milliseconds plus nanoseconds, microseconds and nanoseconds without loss "
     "within the target's resolution, before and after the epoch, and refuses values that do not fit. Order "
     "agrees with time order, and the printed form denotes exactly that instant.",
     ["inputs"],
     "all combinations of boundary milliseconds and nanosecond parts",
     "Tests use ten literal instants.",
     [S + "common/data/timestamp.cpp", I + "data/timestamp.h"],
     [("floor division for negative instants", S + "common/data/timestamp.cpp")],
     ["timestamp API"])

prop("C51", "Bit-sliced indexes answer comparisons exactly",
     "For every set of indexed rows and every literal, the rows a bit-sliced index reports as equal to, below, "
     "above or non-null are exactly those whose value satisfies the comparison, before and after the index is "
     "written and read back. Values outside the declared range or rows added twice are refused, so are "
     "index bytes cut short or of a newer format version, and other damage never crashes the reader.",
     ["inputs", "histories"],
     "all assignments of boundary values to a few rows, all literals around them, every truncation and "
     "corruption of the header",
     "No stable test exercises this index.",
     [S + "common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp",
      S + "common/file_index/bsi/bit_slice_index_roaring_bitmap.h"],
     [("slice-wise comparison", S + "common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp")],
     ["index query results"])

prop("C52", "Combining file index answers never drops a row that may match",
     "Combining the answers of several file indexes with AND and OR keeps every row that each side allowed in "
     "the way the connective demands: a file is skipped only when no row can match, and row sets combine "
     "exactly. An index that cannot be read never causes a file to be skipped, and one that cannot answer a "
     "condition keeps the file.",
     ["inputs", "fault_sequences"],
     "all AND/OR trees of three answers over all-rows, no-rows, every small row set and an unreadable index, all "
     "lists of values asked of an index that only knows single values",
     "Tests combine three fixed pairs.",
     [S + "common/file_index/file_index_result.cpp", S + "common/file_index/file_index_reader.cpp",
      S + "common/file_index/bitmap/bitmap_index_result.cpp", I + "file_index/file_index_result.h",
      I + "file_index/bitmap_index_result.h"],
     [("result combination", S + "common/file_index/file_index_result.cpp"),
      ("lists of values", S + "common/file_index/file_index_reader.cpp"),
      ("bitmap combination", S + "common/file_index/bitmap/bitmap_index_result.cpp")],
     ["combined result"])

prop("C53", "Global index results combine, shift and serialize exactly",
     "AND, OR and offsetting of global index results yield exactly the corresponding set of row ids with every "
     "score still attached to its own row, do not change their operands, and report ambiguous scores instead "
     "of choosing. A result that is serialized and read back is equal, and truncated or mis-versioned bytes are "
     "refused. A result that cannot be computed is reported as such every time and never taken for an empty one.",
     ["inputs", "histories"],
     "all pairs of row sets over ids on both sides of 2^32 in every result kind, every truncation and "
     "corruption of the serialized form",
     "Tests combine a few literal results; result kinds supplied by plugins are never mixed in.",
     [S + "common/global_index/global_index_result.cpp",
      S + "common/global_index/bitmap_global_index_result.cpp",
      S + "common/global_index/bitmap_vector_search_global_index_result.cpp"],
     [("score re-alignment", S + "common/global_index/bitmap_vector_search_global_index_result.cpp"),
      ("serialization", S + "common/global_index/global_index_result.cpp")],
     ["result iterators", "serialized bytes"])

prop("C54", "Bloom filters have no false negatives",
     "Every hash added to a bloom filter is found afterwards, also when the filter is rebuilt from its stored "
     "bits at any offset, for every size and false-positive rate. An empty filter contains nothing, and the "
     "filter is as large as the requested rate needs.",
     ["inputs"],
     "all small sets of boundary hashes times filter sizes and rates",
     "Tests add a random sample of values with one size.",
     [S + "common/utils/bloom_filter64.cpp", S + "common/utils/bloom_filter64.h"],
     [("double hashing and bit addressing", S + "common/utils/bloom_filter64.cpp")],
     ["membership answers", "stored bits"])

prop("C56", "Memory accounting is exact and memory is aligned under concurrency",
     "A memory pool reports exactly the bytes that are outstanding, and its peak is the largest amount that was "
     "ever outstanding at once, whichever threads allocate, grow and free. Blocks are aligned as requested, keep "
     "their content when resized, and the default pool is one object for the whole process.",
     ["schedules", "histories"],
     "all interleavings of two or three allocating threads up to the preemption bound; all bounded sequences of "
     "allocate, resize and free",
     "Unit tests allocate from one thread; a lost update of a counter needs a preemption between two instructions.",
     [S + "common/memory/memory_pool.cpp", I + "memory/memory_pool.h", S + "common/memory/bytes.cpp",
      I + "memory/bytes.h"],
     [("usage and peak counters", S + "common/memory/memory_pool.cpp")],
     ["CurrentUsage", "MaxMemoryUsage", "block contents"])

prop("C57", "A thread pool runs every submitted task exactly once",
     "Every task handed to an executor runs exactly once and is complete when the executor has been destroyed, "
     "also when tasks are submitted from several threads or from other tasks and when the pool is shut down at "
     "once. As many tasks as there are threads can run at the same time, and nothing deadlocks.",
     ["schedules"],
     "all interleavings of submitters, workers and shutdown up to the preemption bound",
     "A lost wake-up or a dropped task at shutdown shows in a handful of schedules that a test run rarely takes.",
     [S + "common/executor/executor.cpp", I + "executor.h"],
     [("task queue, worker loop and shutdown", S + "common/executor/executor.cpp")],
     ["task effects", "termination"])

prop("C58", "Asynchronous results arrive complete, in order and with their errors",
     "The result or the exception of an asynchronous task reaches exactly the caller who waits for it, and "
     "collecting several results returns them in the order of submission. Waiting returns only after every task "
     "has finished, and a caller that drops its handle neither blocks nor cancels the task.",
     ["schedules", "fault_sequences"],
     "all interleavings of two to three tasks, each succeeding, failing or throwing, with their waiters",
     "Tests wait for tasks that always finish in submission order on an idle machine.",
     [S + "common/executor/future.h", S + "common/executor/executor.cpp"],
     [("Via, Wait, CollectAll", S + "common/executor/future.h")],
     ["collected values", "propagated exceptions"])

prop("C59", "Shared queues and maps are linearizable",
     "Every concurrent history of the shared queue and of the shared map can be explained by some sequential "
     "order of the same operations that respects real time: nothing is lost, duplicated, reordered or half "
     "applied.",
     ["schedules", "histories"],
     "all interleavings of two threads with two operations and three threads with one, over every choice of "
     "operations",
     "Tests count elements after all threads have ended, which cannot see a non-atomic check-then-act.",
     [S + "common/utils/threadsafe_queue.h", S + "common/utils/concurrent_hash_map.h"],
     [("queue operations", S + "common/utils/threadsafe_queue.h"),
      ("map operations", S + "common/utils/concurrent_hash_map.h")],
     ["operation results"])

prop("C60", "Metrics never lose an update and merge exactly",
     "A counter set by any thread is read back as last set, merging adds the counters of the other collection and "
     "overwriting replaces them, atomically with respect to concurrent readers and writers. Two collections that "
     "absorb each other at the same time do not deadlock.",
     ["schedules", "histories"],
     "all interleavings of set, merge, overwrite and read by two threads; all bounded sequential histories",
     "Tests use metrics from one thread.",
     [S + "common/metrics/metrics_impl.cpp", S + "common/metrics/metrics_impl.h"],
     [("counter map and its lock", S + "common/metrics/metrics_impl.cpp")],
     ["counter values", "rendered text"])

prop("C61", "Process-wide registries are created once and are safe to share",
     "However many threads ask for a process-wide object first, exactly one is created and every caller sees it "
     "fully built. Registering, looking up and removing factories from several threads leaves every registered "
     "factory reachable under its own name, and the fault hook counts every call exactly once.",
     ["schedules"],
     "all interleavings of the first accesses by two to three threads up to the preemption bound",
     "Tests touch the registry from one thread after it was created.",
     [S + "common/factories/singleton.cpp", I + "factories/singleton.h",
      S + "common/factories/factory_creator.cpp", S + "common/factories/io_hook.cpp"],
     [("double-checked creation", I + "factories/singleton.h"),
      ("factory map", S + "common/factories/factory_creator.cpp")],
     ["object identity", "lookup results"])

prop("C55", "Insertion-ordered maps and collection helpers behave as specified",
     "An insertion-ordered map keeps every key once, in the order of first insertion, through any history of "
     "insertions, assignments, removals and copies, and copies are independent. The collection helpers for "
     "containment, duplicates, positions and equality give the exact answer.",
     ["histories", "inputs"],
     "all histories of four to five operations over three keys; all pairs of short lists",
     "Tests replay a few literal histories.",
     [S + "common/utils/linked_hash_map.h", S + "common/utils/object_utils.h", S + "common/utils/long_counter.h",
      S + "common/utils/scope_guard.h"],
     [("order list and index", S + "common/utils/linked_hash_map.h")],
     ["iteration order", "lookup results"])

prop("C65", "Stored codes and names decode to what was encoded, anything else is refused",
     "Row kinds, file kinds, file sources, startup modes and lists of deletion files have one fixed stored form "
     "each, and reading it back gives the same value for every format version. Unknown codes, truncated and "
     "corrupted bytes are refused or read as some value, never crash.",
     ["inputs"],
     "all byte values, all names and their neighbourhood, all short lists of deletion files in every version, "
     "every truncation and header corruption",
     "Tests round-trip the valid values only.",
     [S + "common/types/row_kind.h", S + "common/types/row_kind.cpp", S + "core/manifest/file_kind.cpp",
      S + "core/manifest/file_source.h", S + "core/table/source/startup_mode.cpp",
      S + "core/catalog/identifier.cpp", S + "core/table/source/deletion_file.h"],
     [("code tables", S + "common/types/row_kind.h"),
      ("deletion file list layout", S + "core/table/source/deletion_file.h")],
     ["decoded values", "stored bytes"])

prop("C67", "Hashes and byte order match the stored format on every input",
     "The hash of a byte sequence depends only on its bytes and equals the reference hash that other engines use "
     "for bucketing, wherever the bytes are stored. Byte-order conversion reverses exactly the bytes of a value.",
     ["inputs"],
     "all byte strings of up to nine bytes over boundary values, at several offsets, in every memory form",
     "Tests compare a few literal strings, so a wrong tail byte or sign shows only for particular lengths.",
     [S + "common/utils/murmurhash_utils.h", S + "common/utils/math.h"],
     [("word and tail mixing", S + "common/utils/murmurhash_utils.h")],
     ["hash values"])

prop("C68", "Reading a whole file delivers every byte or an error",
     "Reading a complete stream, in one request or in several asynchronous ones completing in any order, returns "
     "exactly the stream's bytes. If any request fails or returns less than asked, the caller gets an error and "
     "never partial data.",
     ["inputs", "fault_sequences", "schedules"],
     "lengths around every request boundary, a failure at each request, both completion orders",
     "Tests read small files that always succeed.",
     [S + "common/utils/stream_utils.h"],
     [("chunked asynchronous read", S + "common/utils/stream_utils.h")],
     ["returned bytes", "returned status"])

# ---- the table: commits and snapshots --------------------------------------------------------

CM = S + "core/operation/file_store_commit_impl.cpp"
RC = S + "core/catalog/renaming_snapshot_commit.h"

prop("C01", "A commit takes effect completely or not at all",
     "Whatever single store operation of a commit, overwrite or partition drop fails, tears or turns out to be the "
     "last one before the process dies, the table afterwards holds either its previous content or that content "
     "with the whole request applied. A commit that reported success is in the table, a later process can always "
     "commit, and handing the interrupted request in again completes it exactly once.",
     ["crash_points", "fault_sequences", "inputs"],
     "every store operation of every request kind on tables with and without history and manifest merging, stopping "
     "there, failing before or after its effect, or tearing the write",
     "Tests commit on a healthy disk or fail at sampled points; they do not look at the table after every possible "
     "interruption, nor try to go on from there.",
     [CM, RC, S + "core/manifest/manifest_file.cpp", S + "core/manifest/manifest_list.cpp",
      S + "core/utils/objects_file.h", S + "common/fs/file_system.cpp"],
     [("write manifests, then publish one snapshot file", CM),
      ("publish by renaming", RC), ("cleaning up after a failure", CM)],
     ["snapshot and manifest files in the store", "returned status"])

prop("C02", "Concurrent commits neither get lost nor overwrite each other",
     "When several processes commit to one table at the same time, every one that is told it succeeded is in the "
     "table exactly once, snapshot ids are contiguous, and each snapshot is its predecessor plus exactly one of the "
     "requests. This holds also when one of them dies in the middle, and a process that gives up after losing too "
     "often leaves the table as if it had never tried.",
     ["schedules", "crash_points"],
     "all interleavings of the snapshot operations of two and three committers, up to a bound on forced switches, "
     "for all pairs of request kinds, with one of them dying at any of its changes",
     "Tests commit from one thread; a lost update needs a particular interleaving of two processes.",
     [CM, RC, S + "core/utils/snapshot_manager.cpp", S + "common/fs/file_system.cpp"],
     [("optimistic retry on the next snapshot id", CM), ("rename without replacing", RC)],
     ["snapshot and manifest files in the store", "returned status"])

prop("C03", "Handing a commit in again never applies it twice",
     "Filtered commits apply exactly those of the given commits that their user has not committed yet, in order, "
     "and say how many those were. This holds for every history of repeated, partial and overlapping hand-ins of "
     "several users, also when a process dies in the middle of one.",
     ["histories", "crash_points"],
     "all histories of three hand-ins of sets of three numbered commits by two users, a process stopping at any "
     "store change",
     "Tests repeat one commit once; duplicates appear for particular histories of partial and interrupted retries.",
     [CM, S + "core/utils/snapshot_manager.cpp"],
     [("filtering by the latest snapshot of the user", CM)],
     ["snapshot and manifest files in the store", "returned count"])

prop("C04", "Each request changes exactly the files it names, or is refused",
     "After any sequence of additions, replacements, removals, overwrites and partition drops the table holds "
     "exactly the files those requests leave, no other partition is touched, and record counts agree. A checked "
     "request that removes a file which is not in the table, adds one that is, or names data that does not exist is "
     "refused and leaves nothing behind.",
     ["histories", "inputs"],
     "all sequences of three calls of fourteen kinds on tables with one to three earlier commits, with and without "
     "manifest merging",
     "Tests check single requests; conflicts arise from particular sequences across partitions and buckets.",
     [CM, S + "core/manifest/file_entry.h", S + "core/operation/append_only_file_store_scan.cpp"],
     [("conflict check over the changed partitions", CM), ("netting additions against removals",
                                                            S + "core/manifest/file_entry.h")],
     ["snapshot and manifest files in the store", "returned status"])

prop("C05", "Merging manifests never changes what a table contains",
     "Whenever commits combine, compact or rewrite manifest files, the set of live files of every snapshot stays "
     "what the requests made it, for every history and every threshold setting. Manifest file counts, sizes and "
     "partition statistics describe their contents.",
     ["histories", "configurations"],
     "all histories of five commits of several kinds under all combinations of the merge thresholds",
     "Tests merge a few hand-made lists; losing or reviving a file needs a particular order of additions and "
     "removals across manifests and thresholds.",
     [S + "core/operation/manifest_file_merger.cpp", S + "core/manifest/manifest_file.cpp",
      S + "core/manifest/file_entry.h"],
     [("minor and full merging", S + "core/operation/manifest_file_merger.cpp")],
     ["manifest files in the store"])

prop("C06", "Expiring snapshots never harms a snapshot that is kept",
     "At every moment of an expiration, wherever it fails or the process dies, and however it interleaves with a "
     "commit or another expiration, every snapshot to be kept exists, is unchanged, and has all of its data, "
     "manifest and schema files. Running it again finishes the job, and commits remain possible throughout.",
     ["crash_points", "fault_sequences", "schedules"],
     "every store operation of expirations over four kinds of histories, stopping or failing there, and all "
     "interleavings with a commit or a second expiration up to a bound on forced switches",
     "Tests expire once without failures; deleting a shared file too early shows only in particular histories or "
     "interruptions.",
     [S + "core/operation/expire_snapshots.cpp", S + "core/utils/snapshot_manager.cpp"],
     [("skipping files used by the first kept snapshot", S + "core/operation/expire_snapshots.cpp"),
      ("order of deletions", S + "core/operation/expire_snapshots.cpp")],
     ["all files in the store"])

prop("C07", "Expiration keeps what the retention settings promise and frees the rest",
     "An expiration removes the oldest snapshots first and exactly as many as the minimum and maximum counts, the "
     "retention time and the per-run limit say, and reports that number. It deletes precisely the files that only "
     "removed snapshots used, and contradictory settings are refused without deleting anything.",
     ["configurations", "histories"],
     "chains of up to five snapshots of four kinds, all minimum and maximum counts, ages and limits",
     "Tests sample a handful of settings; off-by-one errors need particular combinations of counts, ages and limits.",
     [S + "core/operation/expire_snapshots.cpp", S + "core/options/expire_config.h"],
     [("policy loop", S + "core/operation/expire_snapshots.cpp")],
     ["all files in the store", "returned count"])

prop("C08", "Cleaning orphan files deletes only what nobody needs",
     "Cleaning never deletes a file that a snapshot uses, one newer than the threshold, one the caller asked to "
     "retain, or one of a kind it does not know, whatever single store operation fails and however it interleaves "
     "with a commit or an expiration. Without failures it deletes every old orphan and reports exactly those, and a "
     "table with features it does not support is refused untouched.",
     ["fault_sequences", "schedules", "histories", "configurations"],
     "tables of up to four snapshots, stray files of thirteen kinds and three ages, unsupported features, a failure "
     "of any one operation, interleavings with a commit or expiration",
     "Tests clean quiet tables; unsafe deletion needs a failure or a concurrent commit at the wrong moment.",
     [S + "core/operation/orphan_files_cleaner_impl.cpp", S + "core/operation/orphan_files_cleaner.cpp"],
     [("used files against listed files", S + "core/operation/orphan_files_cleaner_impl.cpp"),
      ("refusing unsupported tables", S + "core/operation/orphan_files_cleaner_impl.cpp")],
     ["all files in the store", "returned set"])

prop("C09", "The current snapshot is found whatever the hints say",
     "Looking up the latest or the earliest snapshot, or a user's latest one, gives the right answer however stale, "
     "torn, garbled or absent the hint files are and whatever temporary files lie around. When a store operation "
     "fails, the lookup fails or is still right, never wrong.",
     ["inputs", "fault_sequences"],
     "all contiguous ranges of snapshots within two windows, nineteen contents of each hint, a failure of any one "
     "operation",
     "Tests use correct hints; a wrong answer needs a particular disagreement between hint and directory.",
     [S + "core/utils/snapshot_manager.cpp", S + "core/utils/file_utils.h"],
     [("hint first, listing as fallback", S + "core/utils/snapshot_manager.cpp")],
     ["returned snapshot ids"])

prop("C10", "A table is created once, completely, or not at all",
     "When several processes create the same table with different definitions, exactly one wins and the stored "
     "definition is exactly the winner's. Creation that is interrupted or fails at any store operation leaves no "
     "table or the complete one, always returns, and can be repeated; an existing table is never replaced.",
     ["schedules", "crash_points", "fault_sequences"],
     "all interleavings of two creations at every store operation with up to three forced switches, one process "
     "dying anywhere; every operation failing once or from then on",
     "Tests create a table from one thread on a healthy disk.",
     [S + "core/schema/schema_manager.cpp", S + "core/catalog/file_system_catalog.cpp",
      S + "common/fs/file_system.cpp"],
     [("storing the first schema without replacing", S + "core/schema/schema_manager.cpp")],
     ["schema files in the store", "catalog listing", "returned status"])

MT = S + "core/mergetree/"
prop("C11", "Any snapshot, partition, bucket or limit reads exactly its own rows",
     "Reading a snapshot by its number gives what the table held right after that commit, however many commits "
     "follow. Restricting a scan to partitions or a bucket gives exactly the rows there, whatever the size of the "
     "splits, and a limit still gives that many rows if the table has them.",
     ["histories", "inputs", "configurations"],
     "all histories of up to four one-row commits with every snapshot read after every commit, and all placements of "
     "three rows over partitions, buckets and commits with every partition set, bucket, limit and two split sizes",
     "Tests read a few prepared tables; a lost or foreign row needs a particular placement or history.",
     [S + "core/operation/file_store_scan.cpp", S + "core/operation/key_value_file_store_scan.cpp",
      S + "core/operation/append_only_file_store_scan.cpp", S + "core/table/source/data_table_batch_scan.cpp",
      S + "core/table/source/snapshot/snapshot_reader.cpp"],
     [("filtering manifest entries", S + "core/operation/file_store_scan.cpp"),
      ("making splits", S + "core/table/source/snapshot/snapshot_reader.cpp")],
     ["rows read through the public interface"])

prop("C12", "Following a table delivers every change exactly once, in order",
     "A streaming scan starts where its start mode says and then delivers, plan by plan, the changes of each later "
     "snapshot exactly once and in order, whenever it is asked relative to the commits. It delivers nothing while "
     "there is nothing new, and fails rather than skips when the snapshot it needs has expired.",
     ["histories", "schedules"],
     "all sequences of five commits, expirations and requests for a plan under seven start positions, on tables with "
     "and without a key",
     "Tests follow one fixed sequence of commits; a skipped or repeated snapshot depends on when plans are asked for.",
     [S + "core/table/source/data_table_stream_scan.cpp", S + "core/table/source/snapshot/starting_scanner.h"],
     [("the next snapshot to deliver", S + "core/table/source/data_table_stream_scan.cpp")],
     ["plans and the rows read from them"])

prop("C14", "A keyed table holds, per key, the record that comes last",
     "However records are cut into batches, commits and writers, the table holds for every key the record that is "
     "last by the sequence fields and then by arrival, and none if that one is a deletion. Deletions that are set "
     "to be ignored change nothing, and no row appears that was not written.",
     ["histories", "inputs", "configurations"],
     "all histories of four records over two keys, all cuts between them, all orders of one or two sequence fields "
     "including missing values, both directions, single and composite keys of several types",
     "Tests write a few batches in a handy order; the wrong record wins only for particular orders across cuts.",
     [MT + "merge_tree_writer.cpp", MT + "compact/deduplicate_merge_function.h",
      S + "core/io/key_value_in_memory_record_reader.cpp", MT + "compact/sort_merge_reader_with_loser_tree.cpp",
      S + "core/operation/merge_file_split_read.cpp"],
     [("sort and merge before writing", S + "core/io/key_value_in_memory_record_reader.cpp"),
      ("merge on reading", MT + "compact/sort_merge_reader_with_loser_tree.cpp")],
     ["rows read through the public interface"])

prop("C15", "Partial updates merge to the last value of every column",
     "In a partial-update table each column of a key holds the last value given for it, a missing value never "
     "erases one, and columns of a sequence group follow that group's own order. Cutting the same records into "
     "other batches, commits or writers does not change the result, and deletions act as configured.",
     ["histories", "inputs", "configurations"],
     "all histories of three to four partial records and deletions over the configured modes and all cuts",
     "Tests merge a few lists in memory; errors appear for particular cuts where a partly merged record is written "
     "and merged again.",
     [MT + "compact/partial_update_merge_function.cpp", MT + "compact/partial_update_merge_function.h",
      S + "core/io/key_value_in_memory_record_reader.cpp"],
     [("merging columns and groups", MT + "compact/partial_update_merge_function.cpp")],
     ["rows read through the public interface"])

prop("C16", "Aggregating tables hold the aggregate of all records of a key",
     "Each column of an aggregating table holds its function applied to all records of the key in order, retractions "
     "taken back where the function allows it. The result does not depend on how the records were cut into batches, "
     "commits and writers.",
     ["histories", "inputs", "configurations"],
     "all histories of three to four records and retractions for every supported function and all cuts",
     "Tests aggregate a few lists in memory; order and cuts matter only for particular functions.",
     [MT + "compact/aggregate/aggregate_merge_function.cpp", MT + "compact/aggregate/field_sum_agg.h",
      S + "core/io/key_value_in_memory_record_reader.cpp"],
     [("merging with field functions", MT + "compact/aggregate/aggregate_merge_function.cpp")],
     ["rows read through the public interface"])

prop("C18", "Projections, predicates and batch sizes never change which rows match",
     "Reading any list of columns gives those columns of exactly the rows of the table, for every batch size and any "
     "number of merge threads. A predicate pushed down, with or without exact filtering, drops no row that satisfies "
     "it, and with exact filtering keeps no row that does not.",
     ["inputs", "configurations", "histories"],
     "all projections, batch sizes and about a hundred predicates over tables of three records in all cuts, with and "
     "without a key and with and without file statistics",
     "Tests push a few predicates; a row is lost for particular combinations of predicate, statistics and files that "
     "must be merged.",
     [S + "common/predicate/leaf_predicate_impl.h", S + "common/predicate/compound_predicate_impl.h",
      S + "core/operation/key_value_file_store_scan.cpp", S + "core/operation/merge_file_split_read.cpp",
      S + "core/operation/raw_file_split_read.cpp", S + "common/reader/predicate_batch_reader.cpp"],
     [("skipping files by statistics", S + "core/operation/key_value_file_store_scan.cpp"),
      ("filtering rows", S + "common/reader/predicate_batch_reader.cpp")],
     ["rows read through the public interface"])

prop("C25", "Row ids are unique and stay with their rows",
     "In a table with row tracking, every added file gets a range of row ids that overlaps no other and that "
     "continues where the previous snapshot ended, and the next free id is recorded with the snapshot. This holds "
     "for concurrent commits and for commits retried after a failure at any store operation.",
     ["schedules", "fault_sequences", "histories"],
     "every store operation of a commit failing followed by a retry with the same messages, and all bounded "
     "interleavings of two committers",
     "Tests assign ids once in one thread; overlaps come from retries and lost races.",
     [CM, S + "core/manifest/manifest_entry.h"],
     [("assigning ids from the latest snapshot", CM)],
     ["manifest entries and snapshots in the store"])

# ---- file systems and paths ------------------------------------------------------------------

LF = S + "fs/local/local_file_system.cpp"
I2 = "include/paimon/"
prop("C66", "A scan or commit does exactly what its caller configured",
     "The context handed to a scan or a commit carries every setting the caller made, the last one winning, and the "
     "documented default for everything else. Building a second context from the same builder starts from the "
     "defaults again, and a context without a table path is refused.",
     ["inputs", "histories"],
     "all sequences of up to three settings, finishing, one more setting and finishing again, over five forms of path",
     "Tests set every option once; a setting that leaks into the next context or overrides another needs a particular "
     "sequence.",
     [S + "core/operation/scan_context.cpp", S + "core/operation/commit_context.cpp", I2 + "scan_context.h",
      I2 + "commit_context.h", S + "core/table/source/plan_impl.cpp", S + "core/table/source/plan_impl.h"],
     [("builder state and its reset", S + "core/operation/scan_context.cpp")],
     ["accessors of the built context"])

prop("C70", "Column statistics bound exactly the values collected",
     "After any sequence of values and missing values, starting from any known bounds, the statistics of a column "
     "give the smallest and largest value and the number of missing ones, for every column type.",
     ["inputs", "histories"],
     "all sequences of up to four boundary values and missing values, from three starting points, in eleven types",
     "Tests collect a few ascending values; a bound that is not moved needs a particular order.",
     [S + "common/format/column_stats.cpp", I2 + "format/column_stats.h"],
     [("updating bounds and counts", S + "common/format/column_stats.cpp")],
     ["accessors of the statistics"])

prop("C71", "Errors and results are passed on unchanged and nothing is leaked",
     "However a status or a result is copied, moved, assigned, combined or returned through the propagation "
     "helpers, it keeps its kind, message, detail or value. Two statuses are equal exactly if all of these are, and "
     "every held value is destroyed exactly once.",
     ["histories", "inputs"],
     "all sequences of two or three operations on three statuses or results of all kinds, over all pairs of operands",
     "Tests copy and move once; a lost error or a value destroyed twice needs a particular sequence of assignments "
     "between results and errors.",
     [I2 + "status.h", I2 + "result.h", S + "common/utils/status.cpp", I2 + "string_builder.h", I2 + "compare.h"],
     [("the state of a status", I2 + "status.h"), ("value or status in one object", I2 + "result.h")],
     ["accessors, equality, printed text"])

prop("C62", "A path always reaches the one file system of its scheme and authority",
     "Every operation on a path is carried out, with unchanged arguments, by the file system configured for the "
     "path's scheme, or the default one, and its answer is handed back. Each scheme and authority is served by one "
     "instance however many threads ask first, and a failed creation is reported to its caller and not remembered.",
     ["schedules", "histories", "fault_sequences"],
     "all bounded histories of operations on paths of several schemes and authorities; all interleavings of two "
     "threads' first requests up to the preemption bound; one failing creation",
     "Tests ask in one thread and look at one or two schemes.",
     [S + "common/fs/resolving_file_system.cpp", S + "common/fs/resolving_file_system.h",
      S + "common/fs/file_system_factory.cpp"],
     [("cache of file systems and its lock", S + "common/fs/resolving_file_system.cpp")],
     ["calls arriving at the file systems", "returned status"])

prop("C63", "The local file system behaves like a file tree and reports every failure",
     "After any sequence of operations the tree on disk, every listing, status and stream position are what a plain "
     "model of files and directories says, and an operation that cannot be done changes nothing and is an error; no file "
     "stays open once its stream is gone. A file removed by another process while a directory is listed does not make the listing fail, and directories "
     "can be created by several processes at once.",
     ["histories", "schedules", "fault_sequences", "inputs"],
     "all bounded sequences of operations on a small tree, on input and output streams, with a failing or short system "
     "call at each place; all interleavings of two processes' system calls",
     "Tests run one operation at a time on a healthy disk.",
     [LF, S + "fs/local/local_file.cpp", S + "common/fs/file_system.cpp"],
     [("file operations", LF), ("system calls", S + "fs/local/local_file.cpp")],
     ["directory tree", "returned values", "returned status"])

prop("C64", "A file stored atomically appears whole, once, or not at all",
     "A process stopped, or losing power, anywhere while storing a file atomically leaves the final name absent or "
     "with the complete contents on disk. When several processes store, rename to or create the same name without "
     "overwriting, exactly one succeeds, its contents stay, and the others are told so.",
     ["crash_points", "schedules", "fault_sequences"],
     "a stop or power loss before each system call and inside each write, a failure of each system call, and all "
     "interleavings of two processes' system calls",
     "Tests store a file once without a stop or a competitor.",
     [S + "common/fs/file_system.cpp", LF, S + "fs/local/local_file.cpp"],
     [("write to a temporary name, rename", S + "common/fs/file_system.cpp"), ("rename without replacing", LF)],
     ["directory tree after the stop", "returned status"])

prop("C69", "Path text is taken apart, joined and normalised consistently",
     "Every path text splits into the same scheme, authority and path wherever it is used, its normal form names the "
     "same file without doubled or trailing slashes, and joining puts exactly one slash in between. The "
     "temporary name of a file lies in the same directory, is hidden, and never repeats.",
     ["inputs"],
     "all texts of bounded length over letters, slash and colon, and all pairs of them",
     "Tests list a few typical paths.",
     [S + "common/utils/path_util.cpp", S + "common/utils/path_util.h", S + "common/fs/file_system.cpp"],
     [("parsing and normalising", S + "common/utils/path_util.cpp")],
     ["returned texts"])

FIX = S + "common/file_index/"
prop("C19", "An index never hides a row that meets the condition",
     "Whatever a bitmap, bit slice or bloom filter index answers to a condition on its column, alone, in a container "
     "with others or over a whole table, every row that meets the condition is among the rows left to read; a bitmap "
     "index asked about equality leaves exactly those. A torn index, or a read that fails or comes up short, is an "
     "error and not a smaller answer, also when the same reader is asked again.",
     ["inputs", "configurations", "fault_sequences"],
     "all columns of a few rows over null and boundary values in every type, all forms of the index, all comparisons "
     "with the values and their neighbours and combinations of them; a cut at each byte and a fault at each read",
     "Tests compare answers for a few hand-made columns and literals that equal stored values.",
     [FIX + "bitmap/bitmap_file_index.cpp", FIX + "bitmap/bitmap_file_index_meta_v1.cpp",
      FIX + "bitmap/bitmap_file_index_meta_v2.cpp", FIX + "bsi/bit_slice_index_bitmap_file_index.cpp",
      FIX + "bsi/bit_slice_index_roaring_bitmap.cpp", FIX + "bloomfilter/bloom_filter_file_index.cpp",
      FIX + "bloomfilter/fast_hash.cpp", FIX + "file_index_format.cpp", S + "core/io/file_index_evaluator.cpp"],
     [("answers of the bitmap index", FIX + "bitmap/bitmap_file_index.cpp"),
      ("answers of the bit slice index", FIX + "bsi/bit_slice_index_bitmap_file_index.cpp"),
      ("container of indexes", FIX + "file_index_format.cpp"),
      ("combining answers", S + "core/io/file_index_evaluator.cpp")],
     ["rows left by each answer", "returned status"])

PR = S + "common/predicate/"
prop("C26", "A condition is evaluated as its logic says, on rows and on statistics",
     "Every condition, alone or combined by and, or and negation, selects exactly the rows for which it is true, an "
     "unknown comparison counting as false, whether it is asked of a row or of a batch of columns. Asked of the "
     "smallest and largest value and the number of nulls of a file, it never rules out a file that holds a matching row.",
     ["inputs"],
     "all columns of a few rows over null and boundary values in every type, all comparisons with the values and their "
     "neighbours, all bounded trees of them, all pairs of literals of every type",
     "Tests evaluate a few conditions on a few rows of some types.",
     [PR + "predicate_builder.cpp", PR + "leaf_predicate_impl.h", PR + "compound_predicate_impl.h",
      PR + "and.cpp", PR + "or.cpp", PR + "equal.cpp", PR + "not_equal.cpp", PR + "less_than.cpp", PR + "in.cpp",
      PR + "not_in.cpp", PR + "multi_literals_leaf_function.h", PR + "null_false_leaf_binary_function.h",
      PR + "literal.cpp", PR + "literal_converter.cpp", PR + "predicate_utils.cpp", PR + "predicate_validator.h"],
     [("comparison of one column", PR + "leaf_predicate_impl.h"), ("and, or, not", PR + "compound_predicate_impl.h"),
      ("order of literals", PR + "literal.cpp")],
     ["rows selected", "files ruled out", "returned status"])

prop("C72", "Every documented option takes effect exactly as documented",
     "Any set of options gives each named setting its value and every other one its documented default, or is refused "
     "when a text is malformed or out of range, however the options are combined, copied or assigned. Amounts, "
     "durations, numbers, lists and dates in their texts mean what the documentation says for every spelling.",
     ["inputs", "configurations"],
     "all sets of 2-3 of the documented options with valid and malformed texts, all units with numbers around every "
     "limit, all texts of bounded length",
     "Tests set a handful of options at once, to valid and typical values.",
     [S + "common/defs.cpp", I2 + "defs.h", S + "core/core_options.cpp", S + "common/options/memory_size.cpp",
      S + "common/options/time_duration.cpp", S + "common/utils/string_utils.cpp", S + "common/utils/options_utils.h"],
     [("option texts to settings", S + "core/core_options.cpp"), ("names of options", S + "common/defs.cpp"),
      ("amounts", S + "common/options/memory_size.cpp")],
     ["every setting after parsing", "returned status"])

prop("C22", "A row or array holds exactly the values written, in every form it takes",
     "Whatever values and nulls are written, a row or array gives back exactly those at every position, after any sequence "
     "of changes, copied, serialized and read back, spread over memory pieces, projected, shifted or held as columns. "
     "Equal values always give equal rows with equal hashes, whichever way they were built.",
     ["inputs", "histories"],
     "rows and arrays of bounded size over every type with null, boundary values and neighbours in every form, and every "
     "position of a null among up to 130 fields",
     "Tests build a few rows of typical values and read them back in one form.",
     [S + "common/data/binary_row.cpp", S + "common/data/binary_array.cpp", S + "common/data/binary_row_writer.cpp",
      S + "common/data/abstract_binary_writer.cpp", S + "common/data/serializer/binary_row_serializer.cpp",
      S + "common/utils/serialization_utils.h", S + "common/utils/projected_row.h", S + "common/data/columnar/columnar_row.cpp"],
     [("fixed and variable part of a row", S + "common/data/abstract_binary_writer.cpp"),
      ("null bits", S + "common/data/binary_row.cpp"), ("rows in streams", S + "common/data/serializer/binary_row_serializer.cpp")],
     ["values read back", "equality and hash of rows", "serialized bytes"])

prop("C23", "Rows are ordered by their values and equal keys go to one bucket",
     "Rows compare by the chosen fields in the chosen order and direction, nulls first, exactly as their values do, and two "
     "rows are equal exactly when all their values are. The bucket of a row is within range and depends only on its key "
     "values and the number of buckets, never on the other rows of a batch.",
     ["inputs", "configurations"],
     "all pairs of rows over every type with null, boundary values and neighbours, all field orders, batches of rows and "
     "numbers of buckets",
     "Tests compare a few rows and hash a few batches.",
     [S + "core/utils/fields_comparator.cpp", S + "core/utils/fields_comparator.h", I2 + "utils/bucket_id_calculator.h",
      S + "common/utils/bucket_id_calculator.cpp"],
     [("comparison of fields", S + "core/utils/fields_comparator.cpp"), ("bucket of a key", S + "common/utils/bucket_id_calculator.cpp")],
     ["comparison results", "bucket ids"])

prop("C73", "Decimals and instants keep their exact worth",
     "Decimals compare as the numbers they denote whatever their scales, survive their byte form, and change scale by "
     "rounding half away from zero or report that they do not fit. An instant keeps its worth through every unit that can "
     "hold it, before and after the epoch.",
     ["inputs"],
     "all pairs of unscaled numbers around powers of ten and two and all scales, all boundary instants and units",
     "Tests compare and convert a handful of literals.",
     [S + "common/data/decimal.cpp", I2 + "data/decimal.h", S + "common/utils/decimal_utils.cpp",
      S + "common/utils/date_time_utils.h"],
     [("comparison across scales", S + "common/data/decimal.cpp"), ("change of scale", S + "common/utils/decimal_utils.cpp"),
      ("units of time", S + "common/utils/date_time_utils.h")],
     ["comparison results", "bytes", "converted values"])

prop("C74", "The texts of a partition name exactly its values",
     "The values of a partition turned into texts and back are the same values, for every type a partition key can have and "
     "in both spellings of dates; a null or empty value becomes the configured default name and is null again when read. "
     "A specification without one of the keys is refused.",
     ["inputs", "configurations"],
     "partitions of 1-2 keys over null, boundary values and neighbours of each supported type",
     "Tests convert one or two partitions of typical values.",
     [S + "common/utils/binary_row_partition_computer.cpp", S + "common/utils/data_converter_utils.h"],
     [("values to texts", S + "common/utils/binary_row_partition_computer.cpp")],
     ["partition texts", "partition rows"])

prop("C21", "What is recorded about files and snapshots is read back unchanged",
     "A data file, index file, manifest or snapshot that is recorded is read back with every property as it was, including "
     "absent ones, sizes and row ids beyond 32 bits, empty texts and statistics. A snapshot is also read from any order of "
     "its documented properties, ignoring unknown ones, and one without a required property or cut short is refused.",
     ["inputs"], "every combination of up to 2-4 unusual properties over boundary values",
     "Tests record a few typical files; a property lost only when absent, empty or large goes unseen.",
     [S + "core/io/data_file_meta_serializer.cpp", S + "core/io/data_file_meta.cpp", S + "core/index/index_file_meta_serializer.cpp",
      S + "core/manifest/manifest_file_meta_serializer.cpp", S + "core/manifest/manifest_entry_serializer.cpp",
      S + "core/manifest/index_manifest_entry_serializer.cpp", S + "core/snapshot.cpp", S + "core/stats/simple_stats.cpp"],
     [("records of files", S + "core/io/data_file_meta_serializer.cpp"), ("snapshot text", S + "core/snapshot.cpp")],
     ["records read back", "snapshot text"])

prop("C27", "Commit messages and splits survive the trip between processes",
     "A commit message or split written by one process is read by another with the same files, deletions, ranges and scores, "
     "in the current version and, up to what that version could say, in every older version still supported. "
     "A message or split cut short, with bytes behind it or of an unknown version is refused, never read as something else.",
     ["inputs"], "messages and splits with up to 2-3 unusual properties, 9 and 7 versions, 41 cuts of each",
     "Tests hold one stored example per version.",
     [S + "core/table/sink/commit_message_serializer.cpp", S + "core/table/sink/commit_message.cpp", S + "core/table/source/split.cpp",
      S + "core/table/source/data_split_impl.cpp", S + "core/io/data_file_meta_first_row_id_legacy_serializer.cpp"],
     [("versions of messages", S + "core/table/sink/commit_message_serializer.cpp"), ("versions of splits", S + "core/table/source/split.cpp")],
     ["messages read", "splits read"])

prop("C28", "A schema is stored and read with the same columns, types and keys",
     "A schema written as text and read again has the same columns with their ids, types at every level of nesting, "
     "nullability, descriptions, keys, options and comment. Every documented spelling of a type means that type, in either "
     "case and however spaced, and any other text is refused.",
     ["inputs", "configurations"], "schemas of 1-3 columns nested up to 2 levels; every spelling and precision of 24 types",
     "Tests read a handful of schemas.",
     [S + "core/schema/table_schema.cpp", S + "common/types/data_field.cpp", S + "common/types/data_type.cpp",
      S + "common/types/data_type_json_parser.cpp", S + "common/utils/rapidjson_util.h"],
     [("schema text", S + "core/schema/table_schema.cpp"), ("type text", S + "common/types/data_type_json_parser.cpp")],
     ["schemas read"])

prop("C13", "Planning puts every file into one split and keeps together what must merge",
     "Planning a read puts every file into exactly one split. Files that may hold versions of the same row, or other columns "
     "of it, are in the same split and are not read as they are, unless each of them is already free of outdated versions. "
     "Splits are filled in order up to the target size, and appended files stay in the order in which they were written.",
     ["inputs", "configurations"], "lists of files with any key ranges, levels, deletions, sizes and row ids",
     "Tests plan a few hand-made lists of files; a file lost or torn away shows only for particular overlaps and sizes.",
     [S + "core/table/source/merge_tree_split_generator.cpp", S + "core/table/source/append_only_split_generator.h",
      S + "core/table/source/data_evolution_split_generator.cpp", S + "core/mergetree/compact/interval_partition.cpp",
      S + "core/mergetree/sorted_run.h", S + "common/utils/bin_packing.h"],
     [("splits of merged tables", S + "core/table/source/merge_tree_split_generator.cpp"),
      ("sections", S + "core/mergetree/compact/interval_partition.cpp"), ("filling splits", S + "common/utils/bin_packing.h")],
     ["splits planned"])

prop("C17", "Deleted and unselected rows are left out and all others are read once",
     "Reading a file hands out each row that is selected and not deleted exactly once and in order, with its own row id, "
     "score and kind, however the file is cut into batches, and several files one after the other. "
     "Rows recorded as deleted stay so when the record is stored and read again, and a record that is cut short or damaged in "
     "its head, or a failing read, is reported.",
     ["inputs", "histories", "fault_sequences"],
     "all ways to cut a file into batches, all selections, all marked rows, all bounded histories of deletions",
     "Tests use one or two batch sizes and a few deleted rows.",
     [S + "core/deletionvectors/apply_deletion_vector_batch_reader.h", 
      S + "core/deletionvectors/bitmap_deletion_vector.h", S + "core/deletionvectors/deletion_vector.cpp",
      S + "common/file_index/bitmap/apply_bitmap_index_batch_reader.h", S + "common/reader/predicate_batch_reader.cpp",
      S + "common/reader/concat_batch_reader.cpp", S + "common/reader/complete_row_kind_batch_reader.cpp",
      S + "common/reader/reader_utils.cpp", S + "core/io/complete_row_tracking_fields_reader.cpp",
      S + "common/global_index/complete_index_score_batch_reader.cpp"],
     [("deleted rows", S + "core/deletionvectors/bitmap_deletion_vector.h"),
      ("selections", S + "common/reader/reader_utils.cpp"), ("row ids", S + "core/io/complete_row_tracking_fields_reader.cpp")],
     ["rows read", "stored vectors"])

prop("C20", "Reading ahead and merging in other threads changes nothing but the speed",
     "Rows read ahead by several readers come out once, in the order of the file and with their own row numbers, and rows "
     "merged and converted by other threads come out once each, whatever the threads do when. A failing read is reported and "
     "not taken for the end, and closing a reader at any time ends all its work, hands back every batch and never hangs.",
     ["schedules", "fault_sequences"], "all interleavings up to a bound of delays or preemptions, each failing call, closing at any point",
     "Tests run a few schedules; a hang or a lost batch needs a particular one.",
     [S + "common/reader/prefetch_file_batch_reader_impl.cpp", S + "core/io/async_key_value_producer_and_consumer.cpp",
      S + "common/utils/threadsafe_queue.h", S + "common/executor/future.h"],
     [("reading ahead", S + "common/reader/prefetch_file_batch_reader_impl.cpp"),
      ("converting in threads", S + "core/io/async_key_value_producer_and_consumer.cpp")],
     ["rows handed out", "status of a read", "return of closing"])
