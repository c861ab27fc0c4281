package main

// part is a scenario that contributes runs to a check.
type part struct {
	scenario string
	quick    int // runs
	thorough int
	params   map[string]int64
}

// plan says how a property is decided.
type plan struct {
	parts []part
	rule  string
	real  []string
	stub  []string
}

var commonStub = []string{
	"Go runtime scheduler, clocks, timers and select: seeded simulation scheduler (virtual time)",
}

var dbReal = []string{"pkg/db/mysql", "pkg/mapserver/updater (updater.go)", "pkg/mapserver/trie", "pkg/mapserver/responder", "pkg/mapserver/prover",
	"pkg/util", "pkg/common", "tools/create_schema.sh (schema and stored procedures)", "database/sql", "go-sql-driver/mysql"}
var dbStub = append([]string{
	"MySQL server: in-process wire-protocol server with a SQL engine that runs the repository's schema and stored procedures",
	"network: simulated TCP", "file system under the temporary directory: simulated",
}, commonStub...)

const mapRule = "each run draws a random universe of certificate chains, names and policies, a random sequence of map server operations, a scheduling policy and (where the property calls for it) faults from its seed; a run is non-trivial when at least two operations ran and the published map holds at least two domains"

func mapPlan(quick, thorough int) *plan {
	return &plan{parts: []part{{"mapdb", quick, thorough, nil}}, rule: mapRule, real: dbReal, stub: dbStub}
}

var serverReal = append([]string{"pkg/mapserver (mapserver.go: HTTP API, update queue)", "pkg/mapserver/updater", "pkg/mapserver/logfetcher (HTTP)", "pkg/mapserver/config",
	"net/http", "certificate-transparency-go client"}, dbReal...)
var serverStub = append([]string{"CT log servers: simulated, over real net/http on the simulated network, with legitimate partial answers and lagging heads, and faults"}, dbStub...)

const serverRule = "each run draws certificates, CT logs, a sequence of operations (log growth, update requests by several callers, queries, restarts, cancellations, odd requests), a scheduling policy and faults of logs, network, database, temporary files and process from its seed; a run is non-trivial when the published map holds at least two domains"

func serverPlan(quick, thorough int, more ...part) *plan {
	return &plan{parts: append([]part{{"server", quick, thorough, nil}}, more...), rule: serverRule, real: serverReal, stub: serverStub}
}

const bothRule = "runs of scenario mapdb: " + mapRule + "; runs of scenario server: " + serverRule

func bothPlan(mq, mt, sq, st int, more ...part) *plan {
	return &plan{parts: append([]part{{"mapdb", mq, mt, nil}, {"server", sq, st, nil}}, more...), rule: bothRule, real: serverReal, stub: serverStub}
}

const cmdRule = "each run draws certificates, CT logs, an update schedule and a sequence of processes of the map server command, each with its arguments, faults of logs, network and database, stalled database statements, and its end (signal or power loss during start-up, idle time, queries or an update cycle); a run is non-trivial when the published map holds at least two domains at the end"

func cmdPlan(quick, thorough int) *plan {
	return &plan{parts: []part{{"cmd", quick, thorough, nil}}, rule: cmdRule, real: append([]string{"cmd/mapserver (main.go)", "os/signal (delivery to channels)"}, serverReal...),
		stub: append([]string{"operating system signals and exit: delivered and observed by the simulator"}, serverStub...)}
}

const ingestRule = "each run draws CT log entries (chains, alternate chains, expired and odd certificates), their bundle files and directories (plain and compressed, nested, overlapping, missing, damaged), a sequence of processes of the ingest command with their strategies, worker counts and batch sizes, faults of database, bundles, temporary files and journal, signals and crashes; a run is non-trivial when the published map holds at least two domains"

func ingestPlan(quick, thorough int) *plan {
	return &plan{parts: []part{{"ingest", quick, thorough, nil}}, rule: ingestRule,
		real: []string{"cmd/ingest (with journal)", "pkg/pipeline", "pkg/mapserver/updater (manager, workers, updater)", "pkg/mapserver/trie", "pkg/db/mysql", "pkg/util", "pkg/common",
			"tools/create_schema.sh (schema and stored procedures)", "compress/gzip", "encoding/csv", "database/sql", "go-sql-driver/mysql"},
		stub: append([]string{"operating system signals and exit: delivered and observed by the simulator", "reading the journal, bundles and the temporary directory: simulated file system with crash semantics"}, dbStub...)}
}

var plans = map[string]*plan{
	"C01": bothPlan(4000, 60000, 600, 10000, part{"cmd", 300, 6000, nil}),
	"C02": bothPlan(4000, 60000, 600, 10000, part{"cmd", 300, 6000, nil}),
	"C03": bothPlan(4000, 60000, 600, 10000),
	"C04": mapPlan(4000, 60000),
	"C05": bothPlan(2000, 30000, 600, 10000),
	"C06": bothPlan(2000, 30000, 600, 10000),
	"C07": serverPlan(1500, 25000),
	"C09": bothPlan(3000, 40000, 400, 10000),
	"C10": ingestPlan(5000, 60000),
	"C11": ingestPlan(5000, 60000),
	"C12": ingestPlan(5000, 60000),
	"C13": {parts: []part{{"pipeline", 25000, 500000, nil}}, rule: "each run draws the graph of a pipeline (layers, links, shared links, shortcuts, sending and reading modes, sources and sinks, cuts of joined pipelines), its messages, slow and stalled stages, failures of stages, resumptions and stops, and a scheduling policy; a run is non-trivial when more than one message goes through at least three stages",
		real: []string{"pkg/pipeline", "pkg/util (errors)"},
		stub: append([]string{"functions of the stages: they belong to the simulator, which records the messages and decides failures and delays"}, commonStub...)},
	"C08": {parts: []part{{"trie", 2500, 100000, nil}, {"mapdb", 800, 20000, nil}}, rule: "scenario trie: each run draws up to 50 keys with common prefixes of chosen lengths, up to eleven publications of one to three updates each, readers, failures of the store and crashes; a run is non-trivial when the tree had more than two keys; scenario mapdb: " + mapRule,
		real: append([]string{"pkg/mapserver/trie"}, dbReal...),
		stub: append([]string{"scenario trie: table of tree nodes (interface trie.DBConn): belongs to the simulator"}, dbStub...)},
	"C14": {parts: []part{{"policylog", 1500, 30000, nil}}, rule: "each run draws one to three policy log clients, their operations (adding leaves, proofs, roots, consistency, documents in the exchange folder), the pace of the signer, faults of the log server, network and files, and crashes of the client, then, from tree heads the log signed at different sizes, forks of its history, forged proofs and correct ones; a run is non-trivial when at least two operations ran and the log holds a leaf",
		real: []string{"pkg/policylog/client", "pkg/policylog/server/util (Main)", "pkg/logverifier", "Trillian log server, sequencer and admin server", "google.golang.org/grpc"},
		stub: append([]string{"Trillian's storage: its in-memory implementation, with detection of duplicates as in its MySQL storage", "the signer's loop around Trillian's sequencer", "network: simulated TCP", "file system: simulated"}, commonStub...)},
	"C19": {parts: []part{{"policylog", 1800, 40000, nil}}, rule: "each run draws one to three policy log clients, their operations (adding leaves, proofs, roots, consistency, documents in the exchange folder), the pace of the signer, faults of the log server, network and files, and crashes of the client; a run is non-trivial when at least two operations ran and the log holds a leaf",
		real: []string{"pkg/policylog/client", "pkg/policylog/server/util (Main)", "pkg/logverifier", "Trillian log server, sequencer and admin server", "google.golang.org/grpc"},
		stub: append([]string{"Trillian's storage: its in-memory implementation, with detection of duplicates as in its MySQL storage", "the signer's loop around Trillian's sequencer", "network: simulated TCP", "file system: simulated"}, commonStub...)},
	"C20": {parts: []part{{"pca", 2500, 60000, nil}}, rule: "each run draws a policy CA with its configuration, logs and known owners, a sequence of proper and forged signing requests of several parties, and failures and delays of the logs and the file system; a run is non-trivial when at least two certificates can act as owners",
		real: []string{"pkg/pca", "pkg/common/crypto", "pkg/common (policy documents)", "pkg/domainowner", "pkg/util (keys)", "crypto/rsa"},
		stub: append([]string{"CT log servers (interface LogServerRequester): belong to the simulator, sign with the real code", "file system: simulated"}, commonStub...)},
	"C21": {parts: []part{{"httpfetch", 3000, 50000, nil}}, rule: "each run draws one or two fetchers with their CT logs, a sequence of complete, partial, aborted and repeated fetches with random ranges and batch sizes, and faults of the logs and the network; a run is non-trivial when at least two operations ran",
		real: []string{"pkg/mapserver/logfetcher (HTTP)", "certificate-transparency-go client and parsers", "net/http"},
		stub: append([]string{"CT log servers: simulated, over real net/http on the simulated network"}, commonStub...)},
	"C22": {parts: []part{{"localfetch", 3000, 50000, nil}}, rule: "each run draws a folder of CSV and gzip files (gaps, damaged rows, truncated files), batch and ingestion limits, a sequence of complete and aborted fetches while files are added and time passes, and file system faults; a run is non-trivial when rows were fetched",
		real: []string{"pkg/mapserver/logfetcher (local)", "pkg/util (files)", "encoding/csv", "compress/gzip", "os"},
		stub: append([]string{"file system: simulated"}, commonStub...)},
	"C23": serverPlan(1500, 25000),
	"C24": cmdPlan(4000, 60000),
	"C25": cmdPlan(4000, 60000),
	"C26": serverPlan(1500, 25000),
}
