package main

import (
	"fmt"
	"runtime"
	"strings"

	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/db/mysql"
	"github.com/netsec-ethz/fpki/tools"
	"github.com/netsec-ethz/fpki/verifsim/kit"
	"github.com/netsec-ethz/fpki/verifsim/simdb"
	"github.com/netsec-ethz/fpki/verifsim/simfs"
	"github.com/netsec-ethz/fpki/verifsim/simmysql"
	"github.com/netsec-ethz/fpki/verifsim/simnet"
)

// world is the environment of the simulated processes.
type world struct {
	k      *kit.Kit
	net    *simnet.Net
	fs     *simfs.FS
	db     *simdb.DB
	sql    *simmysql.Server
	tables []string // tables that focus chooses from
	files  bool     // focus may choose temporary files
	logs   bool     // sizes of CT logs are recorded
}

const dbAddr = "127.0.0.1:3306"

func newWorld(k *kit.Kit) *world {
	w := &world{k: k}
	w.net = simnet.New(k)
	w.fs = simfs.New(k, mysql.TemporaryDir, "/data")
	w.db = simdb.NewDB()
	simdb.ReadFile = w.fs.ReadFile
	w.fs.SiteOf = func(p string) string {
		if strings.HasPrefix(p, "/mnt/data/tmp/") {
			return "tmp"
		}
		return ""
	}
	if err := w.db.LoadSchema(tools.CreateSchemaScript()); err != nil {
		k.Inconclusive("schema: %v", err)
	}
	w.sql = simmysql.New(k, w.db, w.net)
	w.sql.Idle = w.idle
	w.sql.Serve(dbAddr)
	return w
}

// focus makes the statements about one table (or the temporary files of one kind) fail much more
// often than others, in some runs: most statements are about few tables. It returns whether nothing
// else fails.
func (w *world) focus(sites ...string) bool {
	r := w.k.Rand("focus")
	if !r.Chance(1, 2) {
		return false
	}
	later, only := []int{0, r.Intn(4), r.Intn(12)}[r.Intn(3)], r.Chance(3, 4)
	if r.Chance(1, 2) {
		w.sql.KillClients = false
	}
	if w.files && r.Chance(1, 6) {
		w.fs.FocusWord = r.Pick("certs-", "domain_certs-", "domains-", "dirty-", "csv")
		ops := []string{"create", "open", "write", "close", "unlink"}
		if r.Chance(2, 3) {
			i := r.Intn(len(ops))
			ops = ops[i : i+1]
		}
		w.k.Tracef("faults of files %s: %v only %v later %d", w.fs.FocusWord, ops, only, later)
		if only {
			w.k.ClearRates()
		}
		for _, o := range ops {
			w.k.SetRate("tmp.focus."+o, []float64{.2, .5, 1}[r.Intn(3)])
			w.k.SetLater("tmp.focus."+o, later)
		}
		return only
	}
	tables := w.tables
	if tables == nil {
		tables = []string{"root", "root", "dirty", "dirty", "tree", "certs", "domains", "domain_certs", "domain_payloads", "policies", "domain_policies", "ctlog_server_last_status", "CALL", "TRUNCATE"}
		if w.logs {
			tables = append(tables, "ctlog_server_last_status", "ctlog_server_last_status")
		}
	}
	w.sql.Focus = tables[r.Intn(len(tables))]
	if len(sites) == 2 && r.Chance(2, 3) {
		i := r.Intn(2)
		sites = sites[i : i+1]
	}
	w.k.Tracef("faults of statements about %s: %v only %v later %d", w.sql.Focus, sites, only, later)
	if only {
		w.k.ClearRates()
	}
	for _, s := range sites {
		w.k.SetRate(s+".focus", []float64{.2, .5, 1, 1}[r.Intn(4)])
		w.k.SetLater(s+".focus", later)
	}
	return only
}

// single restricts the faults to a single one: the failure of one statement of a chosen kind.
func (w *world) single(focus ...string) {
	r := w.k.Rand("single")
	if focus == nil {
		focus = []string{"prune_expired", "prune_expired", "root", "root", "root", "calc_dirty_domains", "dirty", "certs", "domains", "domain_certs", "domain_payloads", "tree", "ctlog_server_last_status", "ctlog_server_last_status", "TRUNCATE"}
	}
	w.k.ClearRates()
	w.k.SetBudget(1)
	w.sql.KillClients = false
	w.sql.Focus = r.Pick(focus...)
	w.sql.NoSlow = true
	site, later := r.Pick("db.write", "db.read"), []int{0, r.Intn(3), r.Intn(8)}[r.Intn(3)]
	if contains([]string{"prune_expired", "calc_dirty_domains", "TRUNCATE"}, w.sql.Focus) {
		site, later = "db.write", r.Intn(4)
	} else if w.sql.Focus == "root" && r.Chance(1, 2) {
		site = "db.read"
	}
	w.k.Tracef("single fault of statements about %s: %s later %d", w.sql.Focus, site, later)
	w.k.SetRate(site+".focus", 1)
	w.k.SetLater(site+".focus", later)
}

// idle tells whether the statement coalesces a part of the names of which none is dirty.
func (w *world) idle(sql string) bool {
	part := 0
	if n, _ := fmt.Sscanf(strings.TrimSpace(sql), "CALL calc_dirty_domains(%d,", &part); n != 1 {
		return false
	}
	rows, ok := w.db.Rows("dirty", "domain_id", "coalesced")
	if !ok {
		return false
	}
	for _, r := range rows {
		id, _ := r[0].(string)
		if done, _ := r[1].(int64); len(id) > 0 && int(id[0]>>3) == part && done == 0 {
			return false
		}
	}
	return true
}

func dbConfig() *db.Configuration {
	return db.NewConfig(mysql.WithDefaults(), db.WithDB("fpki"))
}

// mayCrash arranges, when the run's faults say so, that the process dies at some statement from now
// on. calm ends that.
func (w *world) mayCrash(n uint32) {
	f := w.k.Draw("proc", kit.KindProb{Kind: "kill", Weight: 2, ArgMin: 1, ArgMax: 1500},
		kit.KindProb{Kind: "kill", Weight: 3, ArgMin: 1500, ArgMax: 15000}, kit.KindProb{Kind: "kill", Weight: 2, ArgMin: 15000, ArgMax: 150000})
	if f != nil {
		runtime.VerifKillAfter(n, uint64(f.Arg))
	}
}

// mayCrashWithin is mayCrash for short operations.
func (w *world) mayCrashWithin(n uint32, steps int64) {
	if f := w.k.Draw("proc", kit.KindProb{Kind: "kill", Weight: 1, ArgMin: 1, ArgMax: steps, LogScale: true}); f != nil {
		runtime.VerifKillAfter(n, uint64(f.Arg))
	}
}

func (w *world) calm() { runtime.VerifKillCancel() }
