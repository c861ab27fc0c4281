MAPSRC = ["pkg/mapserver/updater/updater.go", "pkg/db/mysql/certs.go", "pkg/db/mysql/dirty.go", "pkg/db/mysql/smt.go", "pkg/db/mysql/mysql.go", "tools/create_schema.sh"]
MAPNOTE = ("Seeded search, not exhaustive: random universes of chains, names and policies, random operation sequences, schedules and faults. "
           "The database is an in-process engine running the repository's own schema and stored procedures; it is assumed to behave like MySQL for these statements. "
           "The reference tree and proof verifier are independent implementations.")

prop("C01", "The published map equals the ingested data",
 "After a map update that completed without failure, the published map holds, for every domain, exactly the set of identifiers of the certificates (each leaf naming the domain together with its whole chain) and of the policies that were ingested and not pruned since, and holds no other domain. The root depends only on that content, not on the order, batching or repetition of the ingestions that led to it.",
 ["histories", "inputs", "schedules"],
 "all sequences of ingestions (any batch sizes, repeated certificates, shared and cross-signed chains, odd names), prunes, map updates and process restarts, under every interleaving of the parallel database workers",
 "the tests ingest a handful of fixed certificates once; they do not cover histories of several batches, prunes and updates, nor batch sizes around the internal limits, nor worker interleavings",
 MAPSRC + ["pkg/mapserver/trie/trie.go", "pkg/util/certificate.go"],
 [("only certificates not yet present are inserted, with their domains marked dirty", "pkg/mapserver/updater/updater.go UpdateWithKeepExisting"),
  ("dirty domains are coalesced into one payload per domain", "tools/create_schema.sh calc_dirty_domains, pkg/db/mysql/dirty.go"),
  ("dirty payloads are hashed into the sparse Merkle tree", "pkg/mapserver/updater/updater.go UpdateSMT")],
 ["root table", "tree table", "responder proofs"], note=MAPNOTE)

prop("C02", "Failed or interrupted map operations can be repeated without losing data",
 "If an ingestion, a policy insertion, a prune or a map update fails or the process dies in it at any point, repeating the operation until it succeeds and then completing one map update brings the published map to exactly the content a failure-free history would have produced. Nothing that was acknowledged before is lost.",
 ["fault_sequences", "crash_points", "histories"],
 "all sequences of database errors, lost requests and replies, dropped connections, temporary-file errors and process crashes at any statement of any operation, for all histories of operations",
 "no test injects a database failure or a crash between the several non-transactional statements of an ingestion or an update",
 MAPSRC,
 [("a certificate row is written after everything derived from it, and the dirty mark before", "pkg/mapserver/updater/updater.go insertCerts, insertPolicies"),
  ("dirty domains are cleared only after the new root is stored", "pkg/mapserver/mapserver.go update, pkg/db/mysql/dirty.go CleanupDirty"),
  ("coalescing marks each dirty domain when done", "tools/create_schema.sh calc_dirty_domains")],
 ["root table", "tree table", "returned errors"], note=MAPNOTE)

prop("C03", "The stored map root always leads to a complete old or new map",
 "Whatever point of a map update fails or crashes, the stored root leads to a complete tree, and that tree holds either the content published before that update or the new content, never a mixture or a tree with missing nodes. A freshly started process can serve proofs from it without any repair.",
 ["crash_points", "fault_sequences"],
 "all database failures and process crashes at any statement of a map update, including an update that repeats a failed one",
 "tests never interrupt an update between writing nodes, removing nodes and storing the root",
 ["pkg/mapserver/updater/updater.go", "pkg/mapserver/trie/trie.go", "pkg/mapserver/trie/trie_cache.go", "pkg/db/mysql/smt.go"],
 [("new nodes are written, then the root is replaced, then old nodes are removed", "pkg/mapserver/updater/updater.go UpdateSMT"),
  ("nodes used by the new tree are never removed", "pkg/mapserver/trie/trie.go storeNode, deleteOldNode")],
 ["root and tree tables after the crash"], note=MAPNOTE)

prop("C04", "Pruning removes exactly the expired certificates and their descendants",
 "Pruning at an instant removes exactly the certificates whose expiration lies before that instant together with every certificate issued, directly or through others, by a removed one; certificates expiring at or after it, with unexpired ancestors, stay. The next map update reflects the removal in every domain affected, regardless of the time zone of the host and of earlier failed prunes.",
 ["inputs", "histories", "fault_sequences"],
 "all certificate forests, all instants (in particular one second around an expiration), time zones, and prunes repeated after failures",
 "tests prune one fixed forest at one instant",
 ["tools/create_schema.sh", "pkg/db/mysql/certs.go", "pkg/mapserver/mapserver.go"],
 [("recursive query for expired certificates and descendants", "tools/create_schema.sh prune_expired"),
  ("comparison in UTC", "pkg/db/mysql/certs.go pruneCerts")],
 ["certs table", "published map"], note=MAPNOTE)

prop("C05", "Map server proofs are correct at any time and cannot be forged",
 "Every response obtained from the map server, also while the map is being updated, verifies with the client's verifier and states the truth about the map whose root it carries: presence with the domain's value, or absence. A response altered in any way that makes a false statement about the signed root is never accepted by the verifier, and malformed responses are rejected without crashing the client.",
 ["schedules", "inputs", "histories"],
 "all map contents and histories, all queried names (present, absent, neighbours in the tree), all interleavings of queries with map updates, and responses tampered with in every field",
 "tests verify a few honest proofs at rest",
 ["pkg/mapserver/responder/responder.go", "pkg/mapserver/trie/trie_merkle_proof.go", "pkg/mapserver/prover/prover.go"],
 [("Merkle audit path per domain part", "pkg/mapserver/trie/trie_merkle_proof.go merkleProof"),
  ("one consistent tree and signature per response", "pkg/mapserver/responder/responder.go GetProof"),
  ("verification of inclusion and non-inclusion", "pkg/mapserver/trie/trie_merkle_proof.go VerifyInclusion, VerifyNonInclusion")],
 ["responses", "verifier results"], note=MAPNOTE)

prop("C06", "Every response carries a valid signature of the very root it proves against",
 "The tree head signature in a response verifies with the map server's public key over exactly the root in the same response, also when the responder reloads the root concurrently or a reload fails.",
 ["schedules", "fault_sequences"],
 "all interleavings of queries with root reloads, and failing reloads",
 "tests only query a responder at rest",
 ["pkg/mapserver/responder/responder.go"],
 [("root and signature are replaced together", "pkg/mapserver/responder/responder.go ReloadRootAndSignTreeHead")],
 ["responses"], note=MAPNOTE)

SRVSRC = ["pkg/mapserver/mapserver.go", "pkg/mapserver/updater/updater.go", "pkg/mapserver/logfetcher/httplogfetcher.go", "pkg/mapserver/responder/responder.go"]
SRVNOTE = ("Seeded search, not exhaustive. CT logs are simulated servers on a simulated network; database and file system are simulated; "
           "the map server process is the real code with all its goroutines under the seeded scheduler.")

prop("C07", "Update requests are answered exactly once, after the update is visible",
 "A caller of PruneAndUpdate gets exactly one answer. A nil answer means that one complete update cycle that began after the request has been ingested, published and is what the server serves from then on: everything the CT logs had announced when the request was made is in the map that the next query is answered from. An error answer means the cycle failed. PruneAndUpdateIfPossible refuses exactly when a cycle is already running and then returns at once. Requests do not run concurrently, and stopping the server leaves no caller waiting and makes nothing panic.",
 ["schedules", "fault_sequences", "histories"],
 "all numbers and timings of concurrent update requests, caller deadlines, failing cycles (CT log, network, database), growth of the logs during the cycle and server stops at any point",
 "the tests request one update at a time from a healthy server",
 SRVSRC,
 [("one goroutine serves the update requests and answers them", "pkg/mapserver/mapserver.go NewMapServer, PruneAndUpdate, PruneAndUpdateIfPossible"),
  ("prune, fetch, coalesce, SMT, cleanup, reload", "pkg/mapserver/mapserver.go pruneAndUpdate")],
 ["return values", "HTTP responses", "root table"], note=SRVNOTE)

prop("C08", "The stored tree is a function of its entries and survives failures",
 "Whatever the keys and the sequence of insertions, changes and removals, single or in batches, stored at once or after several updates: the root equals that of the sparse Merkle tree over the current entries, each key is answered with its value or its absence, and each proof, plain or compressed, verifies against that root. Once nodes are stored, another process finds the whole tree under the root; until old nodes are removed, the previous tree stays whole as well. Readers of the same tree during updates and of the stored tree get true answers or errors. A failure to store or remove nodes can be repaired by calling again; after a failed update or a crash the tree opened from the published root is whole and can be updated. Without failures the database ends up with exactly the nodes of the current tree.",
 ["inputs", "schedules", "fault_sequences", "crash_points", "histories"],
 "all key sets (with common prefixes of any length), all histories of insertions and removals, failing and partial writes, crashes between any two steps, concurrent readers",
 "tests use random keys, which never share more than a few bits, and a database that never fails",
 ["pkg/mapserver/trie/trie.go", "pkg/mapserver/trie/trie_cache.go", "pkg/mapserver/trie/trie_tools.go", "pkg/mapserver/trie/trie_merkle_proof.go"],
 [("updates of nodes", "pkg/mapserver/trie/trie.go update, maybeMoveUpShortcut, storeNode, deleteOldNode"), ("storing and removing nodes", "pkg/mapserver/trie/trie_cache.go storeUpdatedNodes, deleteRemovedNodes"),
  ("reading", "pkg/mapserver/trie/trie_tools.go Get, LoadCache; pkg/mapserver/trie/trie_merkle_proof.go")],
 ["roots, values and proofs", "tree table"], note="Seeded search, not exhaustive; the tree is real code on a store that belongs to the simulator. Keys that differ in the last bit only are left out: leaves carry their height as a byte, in which 256 and 0 coincide; SHA-256 names never do that. AtomicUpdate, which nothing calls, is left out.")

prop("C09", "A failing database read is reported, never answered with partial data",
 "When the database fails during a read, before or between rows, the caller gets an error; an operation that reports success returned or used the complete data. A later fault-free operation is not affected by the failure.",
 ["fault_sequences", "schedules"],
 "all read failures (error replies, connection loss, errors after some rows) at every query of queries, payload retrievals, ingestions and map updates",
 "no test makes a query fail after some rows were delivered",
 ["pkg/db/mysql/certs.go", "pkg/db/mysql/policies.go", "pkg/db/mysql/common.go", "pkg/db/mysql/dirty.go", "pkg/db/mysql/mysql.go", "pkg/db/mysql/smt.go"],
 [("row iteration errors are checked", "pkg/db/mysql/*.go after rows.Next loops")],
 ["returned payloads, proofs, published map"], note=MAPNOTE)

prop("C13", "Pipelines deliver every message once, report every error, and end",
 "Whatever the shape of a pipeline and the way its stages are scheduled, each message that a stage emits on an output reaches exactly one stage linked to it, once, and through a link of one stage to one stage in the order it was emitted; a stage with sequential inputs reads them in turn. When no stage fails, all messages of the sources are processed before Wait returns without error. When stages fail, Wait returns an error that mentions each failure and none that did not happen, and stages before the failing one stop. Pipelines always end: no stage, goroutine or Wait blocks forever, no channel operation panics, nothing runs anymore once Wait returned, and a pipeline can be resumed afterwards. Stages that resume automatically go on with the data that they did not process; StopAndWait stops a stage and those after it completely; stages that exclude each other never process at the same time; joined pipelines behave as one.",
 ["inputs", "schedules", "fault_sequences", "histories"],
 "all graphs, sending modes, numbers of messages, failures at any stages and messages, resumptions and stops, under all interleavings of the stages",
 "tests run a dozen fixed pipelines under whatever schedule the machine happens to choose, with failures at fixed messages",
 ["pkg/pipeline/stage.go", "pkg/pipeline/source.go", "pkg/pipeline/sink.go", "pkg/pipeline/pipeline.go", "pkg/pipeline/join.go", "pkg/pipeline/withOptions.go", "pkg/pipeline/stall_resume.go"],
 [("life of a stage", "pkg/pipeline/stage.go processThisStage, breakPipelineAndWait"), ("sending to the next stages", "pkg/pipeline/stage.go sendOutputsConcurrent, sendOutputsSequential, sendOutputsCyclesAllowed"),
  ("reading from several stages", "pkg/pipeline/stage.go readIncomingConcurrently"), ("automatic resumption", "pkg/pipeline/withOptions.go")],
 ["messages at each stage", "return value of Wait", "goroutines"], note="Seeded search, not exhaustive; the stage functions belong to the simulator, everything else of the pipeline is real code; the scheduler is simulated.")

prop("C14", "The log verifier accepts exactly what is true of the append-only policy log",
 "Given a tree head of the policy log that a client trusts, the log verifier accepts a proof of inclusion only if the leaf is among the leaves of that tree, and a newer tree head only if its tree extends the trusted one (anything extends the empty tree); a proof with an earlier tree head only if both hold. No proof a lying log can assemble changes that: proofs of other leaves, positions, sizes or histories, damaged, truncated or extended ones, inner nodes offered as leaves, or none at all. It accepts every correct proof: one obtained earlier remains acceptable together with a correct consistency proof while the log grows, and one correct proof suffices among proofs for other positions of that tree. A missing tree head yields an error. Clients that share a verifier do not influence each other.",
 ["inputs", "fault_sequences", "histories"],
 "all histories of the log and of clients holding its tree heads and proofs, and all forks and forged proofs of a lying log",
 "the tests verify one recorded proof and one recorded consistency proof of one log",
 ["pkg/logverifier/verifier.go"],
 [("a leaf and its position against the trusted tree head", "pkg/logverifier/verifier.go VerifyInclusionByHash"),
  ("the new tree head extends the trusted one", "pkg/logverifier/verifier.go VerifyRoot"),
  ("proof with an earlier tree head", "pkg/logverifier/verifier.go VerifyInclusionWithPrevLogRoot")],
 ["return values"], note="Seeded search, not exhaustive; tree heads and honest proofs come from a real Trillian log in a simulated deployment that grows meanwhile, lies from a simulated Byzantine log; truth from a reference implementation of RFC 6962 over the leaves of the log.")

prop("C19", "The policy log client neither loses documents nor returns false proofs",
 "AddLeaves reports each leaf it is given either as failed, once and with its error, or the policy log has accepted it. FetchInclusions returns for each leaf either a proof or a failure; every proof verifies against the tree head returned with it, which the log has signed, and likewise consistency proofs verify between the given roots, even while other clients make the log grow. QueueRPCs leaves each document in the exchange folder until the log has accepted it, also when the client process ends at any moment, and reports what it could not add or prove. No call outlasts its context, calls fail only if something went wrong, and no answer of the server crashes the client. Once failures stop, QueueRPCs gets all documents of the folder into the log and their proofs within bounded time, whether or not the log has them already.",
 ["schedules", "fault_sequences", "crash_points", "histories"],
 "all interleavings of several clients with the signer of the log, failures, delays and stale or incomplete answers of log and network, file failures, and instants at which the client ends",
 "pkg/policylog has no unit tests; its integration program needs a running Trillian log",
 ["pkg/policylog/client/logclient.go", "pkg/policylog/client/concurrentfunc.go", "pkg/policylog/client/adminclient.go", "pkg/policylog/client/grpcconn.go", "pkg/policylog/client/logconfig.go", "pkg/policylog/server/util/serverutil.go", "pkg/logverifier/verifier.go"],
 [("distribution of leaves to workers", "pkg/policylog/client/concurrentfunc.go AddLeaves, worker_addLeaf"),
  ("proofs and their tree head", "pkg/policylog/client/concurrentfunc.go FetchInclusions, worker_fetchInclusion"),
  ("documents of the exchange folder", "pkg/policylog/client/logclient.go QueueRPCs, readRPCFromFileToBytes")],
 ["return values", "exchange folder", "leaves of the log"], note="Seeded search, not exhaustive; Trillian's log server, its sequencer and gRPC are real, storage is Trillian's in-memory storage, network, files, clock and scheduler are simulated.")

prop("C20", "A policy CA issues only requests that are logged and agreed to by the owner",
 "When the policy CA grants a signing request, the certificate it returns has exactly the requested content, contains the timestamps that the configured CT logs returned for it, one of each log, is signed by the CA, still carries a valid signature of the owner if the request has one, and has been sent in this final form to every log; the CA has stored it. If any log fails at any step the caller gets an error and the CA has stored nothing, so that the request can be repeated; without failures every proper request is granted. A request that names as its owner a certificate issued by this CA or configured in it, but is not signed with that certificate's key over exactly this content, or names one that cannot own, is refused and reaches no log. Certificates altered afterwards do not verify. Requests prepared by the CA have distinct serial numbers and lie within the validity of the CA. A CA does not start with a damaged configuration or a key that is not its own.",
 ["inputs", "fault_sequences", "histories"],
 "all histories of requests and owners, all forgeries, and failures of each log before or after it did its work at every step",
 "tests run the procedure once, with logs that never fail and no forged request",
 ["pkg/pca/pca.go", "pkg/pca/config.go", "pkg/common/crypto/crypto.go", "pkg/domainowner/domainowner.go"],
 [("procedure of a request", "pkg/pca/pca.go SignAndLogRequest"), ("consent of the owner", "pkg/pca/pca.go canSkipCoolOffPeriod, pkg/common/crypto/crypto.go VerifyOwnerSignature"),
  ("identification of signers", "pkg/common/crypto/crypto.go ComputeHashAsSigner")],
 ["issued certificates", "store of the CA", "requests at the logs"], note="Seeded search, not exhaustive; CA, domain owner and signatures are real, the log servers belong to the simulator.")

prop("C21", "The HTTP fetcher returns exactly the requested log entries or an error",
 "A fetch of entries [a,b] from a CT log server delivers, over its batches, exactly the certificates of those entries with their chains, in log order, each once; if that is impossible (errors, malformed or excessive answers, connection problems) it delivers a correct prefix and then exactly one error. It never hangs longer than its request time limits, never crashes on an answer, and a stopped, aborted or failed fetch neither affects the next one nor leaves anything running that keeps requesting entries.",
 ["schedules", "fault_sequences", "inputs"],
 "all ranges and batch boundaries, all legitimate partial answers, all malformed answers and connection failures, and all sequences of complete, partial, aborted and repeated fetches, under all interleavings of the background download",
 "tests fetch a few ranges from a recorded or live server that behaves",
 ["pkg/mapserver/logfetcher/httplogfetcher.go"],
 [("background fetch in batches", "pkg/mapserver/logfetcher/httplogfetcher.go fetch, getRawEntriesInBatches, getRawEntries"),
  ("start and stop", "pkg/mapserver/logfetcher/httplogfetcher.go StartFetching, StopFetching, NextBatch")],
 ["returned batches", "requests at the CT log"], note=SRVNOTE)

prop("C22", "The local fetcher returns exactly the rows of contiguous files or an error",
 "Fetching from a folder of CSV files continues exactly at the recorded size: the target is the end of the longest run of contiguous files within the row limit (at least one file), and the batches hold every unexpired certificate of those files with its chain exactly once and count every expired one as excluded. Files that are unreadable, malformed or cut in the middle of a row or of their compressed data make the fetch end with an error; they are never skipped silently, never crash the process, and an aborted fetch neither affects the next one nor leaves anything running.",
 ["inputs", "schedules", "fault_sequences"],
 "all sets of files (gaps, new files, subfolders, plain and compressed), row limits and batch sizes, damaged contents and file system errors, under all interleavings of the reader and parser goroutines",
 "tests read one good folder",
 ["pkg/mapserver/logfetcher/locallogfetcher.go", "pkg/util/csv_files.go"],
 [("file chain and target size", "pkg/mapserver/logfetcher/locallogfetcher.go Initialize, GetCurrentState, getGzFileChain"),
  ("readers, parsers and batching", "pkg/mapserver/logfetcher/locallogfetcher.go processIncomingFiles, ingestWithCSV")],
 ["returned batches", "returned sizes"], note="Seeded search, not exhaustive; the file system is simulated, parsers and compression are real.")

prop("C23", "What is recorded as ingested from a CT log is really stored",
 "The size recorded for a CT log never exceeds what the log announced, never decreases, carries the tree head belonging to that size, and every unexpired certificate of the log below that size is stored. After a failure or crash at any point the next successful update continues so that no entry is ever skipped, and once faults stop everything announced gets ingested.",
 ["crash_points", "fault_sequences", "histories"],
 "all failures of logs, network, database and process at any point of an update, logs that answer with older tree heads, and logs growing meanwhile",
 "tests run one update against a well behaved log",
 SRVSRC + ["pkg/db/mysql/mysql.go"],
 [("the log state is written after the batch was stored", "pkg/mapserver/updater/updater.go UpdateNextBatch, updateCerts"),
  ("recorded size and tree head", "pkg/db/mysql/mysql.go UpdateLastCTlogServerState, LastCTlogServerState")],
 ["ctlog_server_last_status table", "certs table"], note=SRVNOTE)

prop("C26", "Every API request is answered with correct data or a clean error",
 "Every HTTP request to the map server gets a complete, well-formed answer: for valid requests exactly the proofs or payloads that belong to the map and to each requested identifier, in order; for invalid requests a client error. No request, also malformed, oversized or concurrent with updates, crashes the server or affects other requests.",
 ["inputs", "schedules", "fault_sequences"],
 "all requests (names, identifier lists, malformed and missing parameters, unknown paths) in all interleavings with map updates",
 "tests send a handful of well-formed requests",
 ["pkg/mapserver/mapserver.go", "pkg/mapserver/responder/responder.go", "pkg/domain/parser.go", "pkg/db/mysql/certs.go", "pkg/db/mysql/policies.go"],
 [("request handlers", "pkg/mapserver/mapserver.go apiGetProof, apiGetPayloads, apiGetCertPayloads, apiGetPolicyPayloads")],
 ["HTTP responses"], note=SRVNOTE)

CMDSRC = ["cmd/mapserver/main.go", "pkg/util/signal_handler.go", "pkg/util/ticker.go", "pkg/util/time_wrap.go", "pkg/mapserver/mapserver.go"]

prop("C24", "The map server stops in time, cleanly and without loss when asked to",
 "When the running map server process receives SIGTERM or SIGINT it ends by itself within its ten second grace period, without panicking and with status zero, whatever it is doing: idle, answering queries, in an update cycle, waiting for a slow database or CT log. Requests that are being processed at that time still get their complete and correct answers. A signal during the start or the initial update ends the process in that time too. A process started afterwards serves a complete map, and its next update brings everything that is missing.",
 ["schedules", "crash_points", "histories"],
 "all instants of the signal relative to start-up, initial update, queries and update cycles, stalled databases and CT logs, and all histories of processes",
 "the tests never deliver a signal to a server that is doing something",
 CMDSRC,
 [("signal to context cancellation, and the panic of last resort", "pkg/util/signal_handler.go ContextWithCancelOnSignal"),
  ("graceful shutdown of the HTTP server", "pkg/mapserver/mapserver.go listen"),
  ("orderly end of the command", "cmd/mapserver/main.go run, runWithConfig")],
 ["exit status and time", "HTTP responses", "root table"], note=SRVNOTE)

prop("C25", "Update cycles start exactly on the configured schedule",
 "The map server starts an update cycle at the first occurrence, in UTC, of the configured time of day after its start, and then every configured interval, whatever the host's time zone. At no other time does it update. Cycles never overlap: a cycle that is due while the previous one still runs does not start before that one ended. A failing or long cycle does not keep later ones from starting at their times, and a cycle during which nothing failed leaves everything the CT logs had announced in the published map.",
 ["histories", "schedules", "fault_sequences", "inputs"],
 "all times of day, intervals, start times and time zones, with cycles that fail or last longer than the interval",
 "the tests run a timer for some hundred milliseconds; no test covers days of schedule, time zones, or cycles that overrun",
 CMDSRC,
 [("next time of day", "pkg/util/time_wrap.go NextTimeOfDay"),
  ("first run and ticker", "pkg/util/ticker.go RunWhen"),
  ("the cycle and its refusal while one runs", "cmd/mapserver/main.go runWithConfig, pkg/mapserver/mapserver.go PruneAndUpdateIfPossible")],
 ["times of database and CT log requests", "root table"], note=SRVNOTE)

INGSRC = ["cmd/ingest/main.go", "cmd/ingest/run.go", "cmd/ingest/processor.go", "cmd/ingest/csvSplitWorker.go", "cmd/ingest/toChainWorker.go", "cmd/ingest/toChainPtrWorker.go", "cmd/ingest/chainToCertWorker.go", "cmd/ingest/chainPtrToCertPtrWorker.go", "cmd/ingest/journal/journal.go", "cmd/ingest/journal/list_files.go",
          "pkg/mapserver/updater/manager.go", "pkg/mapserver/updater/certsWorker.go", "pkg/mapserver/updater/domainWorker.go", "pkg/mapserver/updater/csv.go", "pkg/pipeline/stage.go", "pkg/util/certificate.go"]
INGNOTE = "Seeded search, not exhaustive; database, file system, clock and scheduler are simulated, the ingest command is real and runs as a process."

prop("C10", "A successful ingest has stored and published every certificate of its files",
 "When the ingest command ends with status zero, every unexpired certificate of the bundle files that were pending when it started, with the certificates of its chain, its names and the links between them, is in the database as the bundle contains it, each with its own identifier, expiration, payload and a parent of one of its chains; nothing that is in no bundle is stored, no temporary file is left, and with a strategy that updates the map the published map contains all of it. This holds for any number of workers, batch sizes and order of rows, certificates sharing issuers and names, and repeated and overlapping bundles.",
 ["inputs", "schedules", "fault_sequences", "histories"],
 "all contents and layouts of bundles, worker counts, batch sizes, strategies and sequences of runs, under all interleavings of the pipeline stages and failures of files and database",
 "tests ingest one or two well formed files, mostly with mocked batches",
 INGSRC,
 [("from rows to certificates", "cmd/ingest/csvSplitWorker.go, toChainWorker.go, chainToCertWorker.go"), ("deduplication and links", "pkg/mapserver/updater/certsWorker.go, domainWorker.go"),
  ("phases after a batch", "cmd/ingest/run.go RunIngest")],
 ["certs, domains, domain_certs and dirty tables", "root table", "exit status"], note=INGNOTE)

prop("C11", "The ingest journal claims only what is stored and never forgets it",
 "At every moment, also after a crash, a full disk or a failed write, the journal file is a readable journal. Every entry that it marks as complete is completely stored in the database, it marks the map as updated only if all of these are published, and what it once marked it keeps. After a successful run it marks all files of that run, and the CT log size recorded from it never includes an entry that was not ingested. Damaged files are never marked.",
 ["crash_points", "fault_sequences", "histories"],
 "all instants of crashes and failures of files, directory, journal and database over all sequences of runs",
 "tests write and read a journal without failures and mock the ingestion",
 INGSRC,
 [("atomic replacement of the journal", "cmd/ingest/journal/journal.go writeLocked"), ("progress after each batch", "cmd/ingest/run.go RunIngest, cmd/ingest/journal/journal.go CommitProgress"),
  ("recorded size of the log", "cmd/ingest/run.go completedCTLogSize")],
 ["journal file", "database tables"], note=INGNOTE)

prop("C12", "The ingest command ends, reports every failure, and completes when repeated",
 "The ingest command always ends: after success, after a failure of a file, a worker or the database, and after being asked to stop, no stage of its pipeline waits forever for another one, and it does not crash. If any pending file is damaged or anything failed so that something is not stored, the exit status is not zero; if nothing failed it is zero, whatever the numbers of workers. Repeating it after any sequence of failures, crashes and interruptions ingests and publishes everything that is missing.",
 ["schedules", "fault_sequences", "crash_points", "histories"],
 "all failures at any stage and row, interruptions at any time, worker counts, and damaged files, under all interleavings of the stages",
 "tests stop a pipeline with a few prepared errors and do not run the command under failures",
 INGSRC,
 [("propagation of errors between stages", "pkg/pipeline/stage.go, pkg/pipeline/pipeline.go"), ("end of the command", "cmd/ingest/main.go mainFunction, cmd/ingest/processor.go Wait")],
 ["exit status and time", "database tables", "root table"], note=INGNOTE)
