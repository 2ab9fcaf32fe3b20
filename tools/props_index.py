p("P14", "Index searches are sound always and exact while small",
  "Every search of the vector index (nearest k, within a distance, by distance alone; any metric, any allow list) returns only vectors it holds and the list allows, each once, with its true distance, nearest first, within the bounds asked for. While fewer vectors were ever added than the configured number of links, if the allow list is shorter than the flat-search cutoff, or if the search may keep as many candidates as there are vectors and every vector can be reached from every other along the links, no vector left out is nearer than one returned or within the distance asked for. Vectors that are empty or of another dimension are refused and the rest are accepted. Search settings changed at run time take effect.",
  ["inputs", "histories", "configurations"], "all histories of additions, flushes, reopenings and searches; all metrics, link counts, search widths, cutoffs, ids (dense or sparse), dimensions, queries, distances and allow lists",
  "The index tests use one metric and few fixed vectors and queries; an error shows only for particular distance orders, ties, allow lists or cutoffs.",
  [H + "search.go", H + "search_with_max_dist.go", H + "flat_search.go", H + "insert.go", H + "distancer/", H + "priorityqueue/"], "knnSearchByVector, searchLayerByVector, flatSearch, KnnSearchByVectorMaxDist, SearchByVectorDistance, ValidateBeforeInsert, searchTimeEF, UpdateUserConfig", ["graph nodes and links", "result queue"])
p("P15", "The stored graph is always well formed",
  "After every flush the stored index holds exactly the vectors added, each as it was added (normalised for cosine); every node has one list of links for each of its levels, no list is longer than configured, names a node twice or names a node that is not stored or does not reach that level, and the stored entrypoint is a stored node of the highest level. While fewer vectors were ever added than the configured number of links, every node can be reached from the entrypoint.",
  ["inputs", "histories", "configurations"], "all histories of additions, flushes and reopenings with all metrics, link counts and ids",
  "The tests never look at the stored graph; a lost or dangling link shows only in a few searches of a large index.",
  [H + "insert.go", H + "neighbor_connections.go", H + "heuristic.go", H + "vertex.go", H + "index.go"], "neighborFinderConnector, selectNeighborsHeuristic, vertex serialisation, Flush", ["stored nodes", "stored entrypoint"])
p("P16", "Flushing and reopening an index keeps everything at any size",
  "Reopening an index yields exactly the vectors, links and document count of the last flush, and later additions, searches and flushes behave as if it had never been closed. This holds for any number of vectors and any ids, including more vectors than the initial capacity or the node cache holds.",
  ["histories", "crash_points", "inputs"], "all histories of additions, flushes and reopenings, with up to 10500 vectors and ids beyond 40000",
  "The tests stay far below the capacity and cache limits at which the index grows and evicts, and reopen once.",
  [H + "index.go", H + "insert.go", H + "vertex.go"], "Flush, LoadEntrypoint, lazy node loading, node cache eviction, growth of the node array", ["node cache", "stored nodes", "document count"])
p("P25", "A deleted vector is never found again",
  "Once vectors were deleted from an index that keeps at least one other, no search of any kind returns them, whatever was added, flushed, deleted and searched before and after, and the others are still found as if the deleted ones had never been asked for.",
  ["histories", "inputs"], "all histories of additions, flushes, deletions and searches within one process, including deletions of the entrypoint",
  "The tests of deletion use one fixed order of operations; the failures depend on which node is the entrypoint and which links lead through deleted nodes.",
  [H + "delete.go", H + "search.go", H + "insert.go"], "tombstones, replacement of a deleted entrypoint, filtering of results", ["tombstones", "entrypoint"])
p("P17", "A commit log cut off anywhere restores all complete changes",
  "Reading a commit log back gives the graph that the logged changes describe: nodes with their levels and links, entrypoint and top layer, and tombstones. If the file ends at any byte, because the process died while writing, reading it does not fail and gives exactly the graph of the changes that were written completely, together with the length of that part. (Histories as an index logs them: links only of nodes added before. Product-quantiser entries are not covered.)",
  ["histories", "crash_points", "inputs"], "all sequences of changes of a graph, any ids up to tens of thousands, and every length the file can be cut to",
  "Tests cut one file at one place; every field of every kind of entry is a place of its own.",
  [H + "commit_logger.go", H + "commitlog/logger.go", H + "deserializer.go", H + "corrupt_commit_logs_fixer.go"], "entry encoding of the logger, Deserializer.Do and its per-entry readers", ["commit log file"])
p("P18", "The commit log of an index describes its stored graph",
  "If an index is given a commit log, then after every flush reading the log back gives the very nodes, levels, links (in their order), entrypoint and top layer that the index stored, whatever was added and flushed in whatever order.",
  ["histories", "inputs", "configurations"], "all histories of additions and flushes, all metrics, link counts and ids",
  "It compares two representations for all insertion orders; the tests look at neither.",
  [H + "insert.go", H + "neighbor_connections.go", H + "commit_logger.go", H + "deserializer.go"], "commit log calls during insertion and linking", ["commit log", "stored nodes", "stored entrypoint"])
p("P19", "Maintenance of commit logs never changes the graph they describe",
  "Switching to a new commit log file, condensing old files, combining small ones, doing this in the background at any moment, failing while doing it, a crash at any moment of it, and reopening, does not change the graph restored from the files: it is always that of all logged changes in their order, including deletions, cleared links, removed tombstones and resets. (Not covered: product-quantiser entries.)",
  ["histories", "fault_sequences", "crash_points", "schedules"], "all histories of changes interleaved with switching, condensing, combining, reopening, crashing, and writes failing at any byte",
  "Which entries may be dropped depends on what older files say; tests condense a few hand-written files.",
  [H + "commit_logger.go", H + "condensor.go", H + "commit_log_combiner.go", H + "deserializer.go", H + "commitlog/logger.go"], "SwitchCommitLogs, MemoryCondensor, CommitLogCombiner, maintenance cycles, state of a restore across files", ["commit log files"])
p("P20", "A priority queue always yields its extreme item",
  "A min (max) queue used by the searches yields, at every pop and top, an item that was inserted and not yet popped and than which none is nearer (farther); the length is the number of such items; a reset queue is empty and has the capacity asked for.",
  ["inputs", "histories"], "all sequences of insertions, pops and resets, with ties, large and small distances and many items",
  "Heap order depends on the whole history of the queue; tests use a few.",
  [H + "priorityqueue/queue.go"], "heap insertion, removal and reset", ["heap"])
p("P21", "A visited list holds exactly what was visited since its reset",
  "A visited list, whether its own or borrowed from a pool, says of any number that it was visited if and only if it was visited since the list was created, borrowed or last reset, however many resets it has seen and however large the numbers are; lists borrowed at the same time are independent.",
  ["inputs", "histories", "schedules"], "all sequences of visits, resets (far beyond 255), borrowing and returning, also concurrently",
  "The version marker of a list wraps around after 255 resets and lists grow with the numbers visited.",
  [H + "visited/list_set.go", H + "visited/pool.go"], "version marker, growth, pool", ["visited lists", "pool"])
p("P22", "Index settings given take effect, others have their defaults",
  "Settings for an index are accepted if and only if all of them can be used (numbers in range, known encoders and distributions, right shape); then each setting given has the given value, whether it came as a JSON number or as a floating-point number (whole numbers too large become the largest one), and every other its documented default. A change of settings is refused if and only if it changes one that cannot change, and an incomplete internal configuration is refused.",
  ["configurations", "inputs"], "all combinations of settings, number types and unusable values",
  "The combinations of settings and types are many; tests list some.",
  [H + "user_config.go", H + "pq_config.go", H + "config.go", H + "config_update.go"], "ParseAndValidateConfig, ValidateUserConfigUpdate, Config.Validate", [])
p("P23", "Distances are what their metric says",
  "For vectors of any one dimension each metric (cosine on normalised vectors, dot product, squared euclidean, manhattan, hamming) gives its mathematical value, the same whether computed at once or step by step or in either order, and an error for vectors of different dimensions. Normalising yields the vector of length one in the same direction for vectors of any magnitude, and leaves the zero vector alone. The distance of two places on the globe is their great-circle distance, for all places including antipodes.",
  ["inputs"], "all dimensions, including those around the block sizes of unrolled and vectorised loops, vectors of very large and very small magnitude, all pairs of places",
  "Errors hide in loop remainders, extreme magnitudes and single directions.",
  [H + "distancer/"], "distance providers, Normalize, geo distance", [])
p("P27", "A backup of the commit log describes the index at the moment it was begun",
  "After maintenance of an index's commit log is paused and the log switched to a new file, the files listed for the backup together describe exactly the graph that was stored at that moment (its nodes, levels, links, entrypoint and top layer). Nothing that happens until maintenance is resumed, additions and background maintenance included, changes those files or what they describe; changes made later are not in them, but are in the log as a whole, which goes on describing the stored graph during the backup and after maintenance is resumed. All this holds whenever the backup is begun, right after the log was started too.",
  ["histories", "schedules", "crash_points"], "all histories of additions, flushes and backups, with background maintenance at any moment",
  "No test adds to an index during a backup, and timing decides which files there are.",
  [H + "backup.go", H + "commit_logger.go", H + "maintenance.go"], "PauseMaintenance, SwitchCommitLogs, ListFiles, ResumeMaintenance", ["commit log files", "stored nodes"])
p("P28", "The buffered writer of commit logs writes every byte once and in order",
  "Whatever is written to the buffered writer of commit logs, as bytes, single bytes, strings or characters, of any length compared with the buffer, is at any moment either in the file, in the order written and nothing twice, or counted as waiting in the buffer, and after a flush all of it is in the file. When the file cannot be written to, what is in it is still a beginning of what was written, the error is reported, and from then on every write and flush fails until the writer is reset to another file, which makes it empty and usable again.",
  ["inputs", "histories", "fault_sequences"], "all sequences of writes, flushes and resets, buffer sizes, and files that cannot grow beyond any size",
  "The cases are in the fill of the buffer when something arrives; the repository has no test of it, and its one use has a buffer of 1 MB.",
  [H + "bufiowriter.go"], "bufWriter", ["buffer", "file"])
p("P29", "A server starts with the settings of its environment",
  "Each setting of the server (storage endpoint, chain endpoint, postage stamp, embedding service, user, password, pod) has the value of its environment variable if that is not empty, else the value it was given, else its default (storage endpoint and stamp have one); it is verbose if it was told so or VERBOSE is one of on, enabled, 1 or true.",
  ["configurations"], "all combinations of given settings and environment variables",
  "There are too many combinations, and the tests run with one.",
  ["adapters/handlers/environment.go", "adapters/handlers/defaults.go"], "FromEnv, SetDefaults", [])
