"""Per property: what the enumerated executions are compared with, used to write DESIGN.md."""
ORACLE = {
"C01": "After every stop, failure or torn write a second process opens the table through the real code and an independent observer (harness/core/observe.h) walks snapshot, manifest lists and manifests: the table must equal the reference history with the request either absent or complete, every file a snapshot names must exist, and the answer given to the caller must agree (success means present; an error means absent or, where the outcome is unknown to the caller, either).",
"C02": "Brute-force search for a serial order of the requests that explains the final chain of snapshots; ids are consecutive, every success appears exactly once, a refused request not at all, rows are those of the serial order.",
"C03": "A reference set of (user, identifier) pairs: whatever the order of hand-ins, filters and stops, each set of messages is in the chain at most once, and exactly once when a hand-in succeeded.",
"C04": "A model of the table as a map from file to partition and bucket; each call either changes the model as requested or is refused and changes nothing.",
"C05": "The contents computed by replaying all changes by hand, compared with what the manifests of every snapshot say after every merge.",
"C06": "Every snapshot that the retention settings keep is read completely, file by file, at every stop, failure or interleaving; nothing they name may be missing; a repeated run finishes the work.",
"C07": "The documented rule (number kept at least and at most, age, consumers, limit per run) evaluated by an independent function over the chain.",
"C08": "The set of files reachable from any snapshot, tag or branch, plus everything younger than the threshold, plus everything outside the table; none of these may be deleted, and with no failure every other file is.",
"C09": "The greatest and least snapshot file present, computed by listing the simulated directory.",
"C10": "At most one creator succeeds; the schema stored is that creator's; after a stop a reader sees either no table or the complete one; a later creation succeeds or finds it.",
"C11": "A reference history of rows per snapshot; each combination of snapshot, partition, bucket and limit must deliver the corresponding rows (for a limit: some of them, enough of them).",
"C12": "The concatenation of all planned increments compared with the difference of the reference history between start position and end.",
"C13": "By definition: every file in exactly one split; two files whose key ranges touch (directly or through others) in one split and in sections that separate them; sizes and counts as the settings say.",
"C14": "The record with the greatest (sequence fields, arrival) per key, computed over the flat list of records, for every way of cutting the list into commits and files.",
"C15": "A fold of the records per key by the documented rule for partial updates and sequence groups.",
"C16": "A fold of the records per key and column by the documented aggregate, including retraction where it is allowed.",
"C17": "A boolean per row kept by the harness; after every read the rows delivered are those not deleted and selected, in order, with the right row numbers.",
"C18": "Rows evaluated one by one with a three-valued evaluator written for the harness; the rows delivered must contain all that match and their projected values must be right.",
"C19": "Every row of the column evaluated by hand: a row that meets the condition is never excluded by the index; for exact indexes the answer is exactly the matching rows.",
"C20": "The sequential reading of the same file; under every schedule the batches, row numbers, errors and statistics must be the same, every task must end, and no two accesses may race.",
"C21": "The record handed to the writer compared field by field with the record read back, plus fixed expectations for the stored layout.",
"C22": "A vector of optional values kept by the harness compared through every accessor after every step, and across every conversion between the forms of a row.",
"C23": "Order: comparison of the values by their own type. Buckets: the published hash of the key's bytes, computed independently.",
"C25": "Row ids over the whole chain are disjoint, start where the previous commit ended and never move; the counter in the snapshot equals the total.",
"C26": "Three-valued evaluation written for the harness; for statistics: the condition over all value lists with these statistics, enumerated.",
"C27": "The object before serialization compared with the one after, field by field, in each version that can be read.",
"C28": "The schema before writing compared with the one after reading; type texts compared with the grammar in the documentation.",
"C40": "std::set of integers with the same history; every query, iterator, serialization and truncation compared.",
"C41": "Sets of integers obtained by expanding the ranges.",
"C42": "By definition: concatenation of the bins is the input; no bin but single-item ones is over the target; no two neighbours fit into one bin beyond the documented rule.",
"C43": "A flat byte vector and a position; each call compared, with the source failing at each call in turn.",
"C44": "An independent encoder; reading back at each position, from each truncation.",
"C45": "std::string with the same bytes, for every layout of segments and offsets.",
"C46": "A flat byte vector; bounds reported, nothing outside the region touched (AddressSanitizer plus guard bytes).",
"C47": "An independent zig-zag delta encoder; decoding of arbitrary bytes either gives the values that encode to them or an error.",
"C48": "The fields written; golden bytes; truncated and changed input is refused or decodes to what the bytes say.",
"C49": "An independent escaper, and injectivity over all pairs.",
"C50": "128-bit arithmetic over days, milliseconds and nanoseconds.",
"C51": "The list of optional values filtered by hand.",
"C52": "The set of rows that can match, computed from the operands; an error stays an error however often it is asked.",
"C53": "Sets of row ids with scores as maps; union, intersection, shift and serialization computed on the maps.",
"C54": "Every inserted hash is found; union and serialization preserve this.",
"C55": "A vector of pairs kept in order of insertion; list helpers by their definition.",
"C56": "The sum and running maximum of live allocations; alignment and contents of each block; under schedules the maximum lies between what must and what can have been in use.",
"C57": "Every task runs exactly once, on a worker; shutting down returns; a task that waits for another never deadlocks while a worker is idle.",
"C58": "The values and exceptions of the tasks, in order; a dropped future harms nobody.",
"C59": "Brute-force linearizability of every recorded history against a queue and a map.",
"C60": "Map of counters; under schedules no increment is lost.",
"C61": "One instance, registered names found by all threads, no data race.",
"C62": "A map from (scheme, authority) to the file system created for it; each created once.",
"C63": "A tree of names kept by the harness; each call gives the documented answer, a failing system call gives an error, no descriptor stays open.",
"C64": "At each stop, power loss or interleaving, the file is absent, old or completely new, no temporary file survives a success, and of two creators one wins.",
"C65": "Tables of codes and names copied from the specification.",
"C66": "Settings applied to a record kept by the harness, compared with the context obtained and with the plan it leads to.",
"C67": "Reference implementations of the hashes written from their publications.",
"C68": "The bytes of the file; an error when any part could not be read.",
"C69": "A parser written from the grammar; joining and taking apart are inverse.",
"C70": "Minimum, maximum and number of nulls of the list.",
"C71": "A record of code, message and details per status, moved with it; values counted to find leaks and double frees.",
"C72": "A table of all documented options with defaults, types, limits; and reference parsers.",
"C73": "128-bit and decimal arithmetic written for the harness.",
"C74": "Printing and parsing written for the harness; distinct values give distinct texts.",
}
