package main

import (
	"bytes"
	"compress/gzip"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/signal"
	"path"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	ingestcmd "github.com/netsec-ethz/fpki/cmd/ingest"
	"github.com/netsec-ethz/fpki/verifsim/kit"
)

func init() {
	register(&scenario{name: "ingest", run: ingestScenario, preempts: []uint64{0, 5, 50, 500}})
}

const ingestDeadline = 3 * time.Hour

// ctdir is a directory with the entries of a CT log.
type ctdir struct {
	path, url string
	entries   []*xcert   // by index in the log
	chains    [][]*xcert // the chains the log presents for the entries
	base      int        // index of the first entry on disk
	bundles   []*bundle
	done      map[int]bool // indices the journal marks as complete
	recorded  int64        // size of the log recorded in the database
}

func (d *ctdir) key() string { return path.Base(d.path) }

// bundle is a file with the entries a..b.
type bundle struct {
	a, b    int
	path    string
	present bool
	bad     string // the present content is damaged in this way
}

func (b *bundle) plain() bool { return strings.HasSuffix(b.path, ".csv") }

func (b *bundle) covered(done map[int]bool) bool {
	for i := b.a; i <= b.b; i++ {
		if !done[i] {
			return false
		}
	}
	return true
}

// ingestRun is the ingest command, run several times as a process.
type ingestRun struct {
	one      bool // at most one fault
	cross    bool // chains differ often
	lastOnly bool // the previous process only ingested
	*world
	r       *kit.Rng
	u       *universe
	keys    []ID
	now     time.Time
	dirs    []*ctdir
	journal string

	node   uint32
	exited bool
	code   int
	exitAt int64
	stdout bool

	// Journal flags.
	coalesced, updated bool
	jobs               int
	faulty             bool
	touched            bool // a process died or failed since the last complete one
}

func ingestScenario(k *kit.Kit) {
	if !syscall.VerifShim {
		k.Inconclusive("the system calls of golang.org/x/sys/unix could not be redirected")
	}
	w := newWorld(k)
	w.sql.Serve("/var/run/mysqld/mysqld.sock")
	r := k.Rand("ingest")
	x := &ingestRun{world: w, r: r, now: time.Now()}
	x.setup()
	os.VerifExit = func(code int) {
		n := runtime.VerifNode()
		if n == 0 {
			return
		}
		if n == x.node && !x.exited {
			x.exited, x.code, x.exitAt = true, code, runtime.VerifMono()
			k.Tracef("EXIT %d", code)
		}
		runtime.VerifWake()
		k.Kill(n)
		select {}
	}
	k.Quiet(true)
	n := r.Range(1, 5)
	for i := 0; i < n; i++ {
		x.step(i)
	}
	x.finish()
}

func (x *ingestRun) setup() {
	k, r, w := x.k, x.r, x.world
	day := 24 * time.Hour
	uc := uniConf{names: r.Range(2, 14), cas: r.Range(1, 6), leaves: r.Range(3, 30), expMin: 30 * day, expMax: 300 * day,
		caExpMin: 20 * day, caExpMax: 3000 * day, maxDepth: 3, oddNames: r.Chance(1, 3), maxNames: r.Range(1, 6), twins: r.Chance(1, 3), quirks: r.Chance(1, 3)}
	if r.Chance(1, 6) {
		uc.caExpMin = -100 * day
	}
	if r.Chance(1, 4) {
		localZone(k)
	}
	if r.Chance(1, 12) {
		uc.cas, uc.maxDepth, uc.long = r.Range(6, 14), 15, true
	}
	if r.Chance(1, 5) {
		uc.cross, uc.twins, uc.maxDepth = true, false, r.Range(3, 5)
		uc.cas = r.Range(2, 5)
	}
	x.cross = uc.cross
	x.u = newUniverse(r, x.now, uc)
	if r.Chance(1, 2) {
		old := uc
		old.expMin, old.expMax = -90*day, -day
		for i := r.Range(1, 6); i > 0; i-- {
			x.u.leaf(r, x.now, old, x.u.cas[r.Intn(len(x.u.cas))])
		}
	}
	x.keys = x.u.keys()
	x.journal = "/data/state/journal.json"
	w.fs.MkdirAll("/data/state")
	w.fs.MkdirAll("/data/tmp")
	nd := 1
	if r.Chance(1, 3) {
		nd = 2
	}
	for i := 0; i < nd; i++ {
		x.addDir(i)
	}
	w.fs.SiteOf = func(p string) string {
		switch {
		case strings.HasPrefix(p, "/mnt/data/tmp/"):
			return "tmp"
		case strings.HasPrefix(p, "/data/in/"):
			return "in"
		case strings.HasPrefix(p, "/data/state/"):
			return "jrn"
		}
		return ""
	}
	k.SetRate("proc", 0)
	w.sql.KillClients = false
	x.faulty = r.Chance(2, 3)
	if x.faulty {
		k.SetBudget(r.Range(1, 4))
		p := []float64{0.001, 0.01, 0.05}[r.Intn(3)]
		site := func(s string, q float64) {
			if r.Chance(1, 2) {
				k.SetRate(s, p*q)
			}
		}
		site("db.write", 4)
		for _, s := range []string{"db.read", "db.inner", "db.dial", "db.seg"} {
			site(s, 1)
		}
		for _, op := range []string{"create", "open", "read", "write", "close", "unlink", "rename", "fsync", "readdir"} {
			site("tmp."+op, 2)
			site("in."+op, 2)
			site("jrn."+op, 5)
		}
		w.fs.KillClients = r.Chance(1, 2)
		w.sql.KillClients = r.Chance(1, 2)
		if r.Chance(1, 2) {
			k.SetRate("proc", 0.7)
		}
		k.SetLater("proc", 1)
		w.tables = []string{"dirty", "dirty", "domains", "domain_certs", "domain_certs", "certs", "ctlog_server_last_status", "ctlog_server_last_status", "root", "root", "tree", "domain_payloads", "CALL"}
		sites := []string{"db.write", "db.read"}
		if r.Chance(3, 4) {
			sites = sites[:1]
		}
		w.files = true
		x.one = k.Rand("one").Chance(1, 2)
		if x.one {
			x.oneFault()
		} else {
			w.focus(sites...)
		}
	}
}

// oneFault restricts the faults to a single one: of a statement, or of an operation on a file.
func (x *ingestRun) oneFault() {
	k, r := x.k, x.k.Rand("one fault")
	k.ClearRates()
	k.SetBudget(1)
	x.fs.KillClients, x.sql.KillClients = false, false
	if r.Chance(1, 2) {
		x.single("calc_dirty_domains", "calc_dirty_domains", "dirty", "dirty", "root", "root", "tree", "certs", "domains", "domain_certs", "domain_payloads", "ctlog_server_last_status", "TRUNCATE", "processed_rows")
		return
	}
	site := r.Pick("in.open", "in.read", "in.read", "in.readdir", "in.close", "tmp.create", "tmp.write", "tmp.write", "tmp.close", "tmp.unlink",
		"jrn.create", "jrn.write", "jrn.fsync", "jrn.close", "jrn.rename", "jrn.open", "jrn.read", "jrn.unlink")
	later := []int{r.Intn(3), r.Intn(12), r.Intn(40)}[r.Intn(3)]
	k.Tracef("single fault: %s later %d", site, later)
	k.SetRate(site, 1)
	k.SetLater(site, later)
}

func (x *ingestRun) addDir(i int) {
	r := x.r
	d := &ctdir{path: fmt.Sprintf("/data/in/https:__ct%d.example_log%d", i, r.Intn(2)), done: map[int]bool{}, recorded: -1}
	d.url = strings.ReplaceAll(path.Base(d.path), "_", "/")
	n := r.Range(1, 24)
	for j := 0; j < n; j++ {
		c := x.u.any(r)
		if j > 0 && r.Chance(1, 8) {
			c = d.entries[r.Intn(j)]
		}
		d.entries = append(d.entries, c)
	}
	alt := x.acyclic() && (x.cross || r.Chance(1, 2))
	for _, c := range d.entries {
		l := c.chain()
		if alt && len(l) > 0 && (r.Chance(1, 3) || x.cross && r.Chance(1, 3)) {
			// The log presents another certificate of one of the issuers.
			j := r.Intn(len(l))
			var tw []*xcert
			for _, t := range x.u.cas {
				if t.n == l[j].n && t != l[j] {
					tw = append(tw, t)
				}
			}
			if len(tw) > 0 {
				t := tw[r.Intn(len(tw))]
				l = append(append(l[:j:j], t), t.chain()...)
				x.k.Tracef("chain of %s: %v", c, l)
			}
		}
		d.chains = append(d.chains, l)
	}
	if r.Chance(1, 6) {
		d.base = r.Intn(3) * 10
	}
	// Subdirectories with bundles.
	roots := []string{""}
	if r.Chance(1, 4) {
		roots = append(roots, r.Pick("a", "part1", "zz", "c/d"))
	}
	if r.Chance(1, 8) {
		roots = roots[1:]
		if len(roots) == 0 {
			roots = []string{"only"}
		}
	}
	add := func(a, b int, plain bool) {
		dir := path.Join(d.path, roots[r.Intn(len(roots))])
		p := path.Join(dir, "bundled", fmt.Sprintf("%d-%d.gz", a, b))
		if plain {
			p = path.Join(dir, fmt.Sprintf("%d-%d.csv", a, b))
		}
		d.bundles = append(d.bundles, &bundle{a: a, b: b, path: p})
	}
	size := r.Range(1, 8)
	plains := r.Chance(1, 4)
	for a := 0; a < n; {
		b := min(a+r.Range(0, size), n-1)
		add(a+d.base, b+d.base, plains && r.Chance(1, 2))
		a = b + 1
	}
	for i := r.Intn(3); i > 0 && r.Chance(1, 2); i-- { // overlapping bundles
		a := r.Intn(n)
		b := min(a+r.Range(0, size), n-1)
		dup := false
		for _, f := range d.bundles {
			dup = dup || f.a == a+d.base && f.b == b+d.base
		}
		if !dup {
			add(a+d.base, b+d.base, plains && r.Chance(1, 2))
		}
	}
	x.fs.MkdirAll(d.path)
	for _, f := range d.bundles {
		x.fs.MkdirAll(path.Join(path.Dir(strings.Replace(f.path, "/bundled/", "/", 1)), "bundled"))
	}
	x.dirs = append(x.dirs, d)
}

// acyclic tells whether no CA issued, directly or not, a certificate to one of its own issuers.
func (x *ingestRun) acyclic() bool {
	next := map[int]map[int]bool{}
	for _, c := range x.u.cas {
		if c.parent != nil {
			if next[c.n] == nil {
				next[c.n] = map[int]bool{}
			}
			next[c.n][c.parent.n] = true
		}
	}
	state := map[int]int{}
	var visit func(n int) bool
	visit = func(n int) bool {
		if state[n] != 0 {
			return state[n] == 2
		}
		state[n] = 1
		for m := range next[n] {
			if !visit(m) {
				return false
			}
		}
		state[n] = 2
		return true
	}
	for n := range next {
		if !visit(n) {
			return false
		}
	}
	return true
}

func (d *ctdir) chain(i int) []*xcert { return d.chains[i-d.base] }

func (d *ctdir) entry(i int) *xcert { return d.entries[i-d.base] }

// live tells whether the entry has to be ingested.
func (x *ingestRun) live(c *xcert) bool { return c.exp > x.now.Unix() }

func row(r *kit.Rng, i int, c *xcert, chain []*xcert) string {
	var ch []string
	for _, p := range chain {
		ch = append(ch, base64.StdEncoding.EncodeToString(p.raw))
	}
	q := func(s string) string {
		if r.Chance(1, 20) {
			return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
		}
		return s
	}
	third := fmt.Sprint(c.n)
	if r.Chance(1, 20) {
		third = `"a,b"`
	}
	f := []string{fmt.Sprint(i), q("x"), third, q(base64.StdEncoding.EncodeToString(c.raw)), q(strings.Join(ch, ";"))}
	for j := r.Intn(3); j > 0; j-- {
		f = append(f, q("y"))
	}
	f = append(f, fmt.Sprintf("%d.%d", c.exp, r.Intn(3)))
	return strings.Join(f, ",")
}

// arrive puts the bundle on the disk, damaged if bad is not empty.
func (x *ingestRun) arrive(d *ctdir, f *bundle, bad string) {
	r := x.r
	var rows []string
	for i := f.a; i <= f.b; i++ {
		rows = append(rows, row(r, i, d.entry(i), d.chain(i)))
	}
	if bad == "garbage-row" {
		rows[r.Intn(len(rows))] = r.Pick("garbage", "1,2,3,4,5,6", fmt.Sprintf("a,b,c,%%%%%%,,%d.0", x.now.Add(time.Hour).Unix()), fmt.Sprintf("0,x,1,%s,,%d.0", base64.StdEncoding.EncodeToString([]byte("no certificate")), x.now.Add(time.Hour).Unix()))
	}
	text := strings.Join(rows, r.Pick("\n", "\n", "\r\n"))
	if !r.Chance(1, 6) {
		text += "\n"
	}
	b := []byte(text)
	if bad == "cut" && f.plain() {
		// In the middle of the certificate of the last row.
		last := strings.LastIndex(strings.TrimRight(text, "\r\n"), "\n") + 1
		b = b[:last+r.Range(1, 20)]
	}
	if !f.plain() {
		var z bytes.Buffer
		w := gzip.NewWriter(&z)
		w.Write(b)
		w.Close()
		b = z.Bytes()
		switch bad {
		case "cut":
			b = b[:r.Intn(len(b))]
		case "no-gzip":
			b = []byte("this is no gzip file at all")
		}
	}
	x.k.Tracef("file %s (%d bytes) %s", f.path, len(b), bad)
	x.fs.Put(f.path, b)
	f.present, f.bad = true, bad
}

// change adds and repairs files.
func (x *ingestRun) change(all bool) {
	r := x.r
	if !all && r.Chance(1, 10) {
		return // nothing new
	}
	for _, d := range x.dirs {
		for _, f := range d.bundles {
			switch {
			case f.present && f.bad != "" && (all || r.Chance(2, 3)):
				x.arrive(d, f, "")
			case !f.present && (all || r.Chance(1, 2)):
				bad := ""
				if !all && r.Chance(1, 12) {
					bad = r.Pick("cut", "garbage-row", "no-gzip")
					if bad == "no-gzip" && f.plain() {
						bad = "cut"
					}
				}
				x.arrive(d, f, bad)
			}
		}
	}
}

// launch starts the command as a new process.
func (x *ingestRun) launch(args ...string) {
	k := x.k
	runtime.VerifRunResets("pkg/util/")
	os.Setenv("TMPDIR", "/data/tmp")
	os.Chdir("/")
	os.Args = append([]string{"ingest"}, args...)
	flag.CommandLine = flag.NewFlagSet(os.Args[0], flag.ExitOnError)
	runtime.VerifRunResets("cmd/ingest/")
	signal.VerifReset()
	x.node = k.NewNode()
	x.exited, x.code = false, 0
	k.Tracef("LAUNCH %v", os.Args)
	k.Go(x.node, "command", func() {
		ingestcmd.VerifMain()
		os.Exit(0)
	})
}

// wait lets time pass until the process ended.
func (x *ingestRun) wait(d time.Duration) (o kit.Outcome) {
	k := x.k
	o = k.WaitUntil(d, func() bool { return x.exited || runtime.VerifDead(x.node) })
	if x.db.Unsupported != "" {
		k.Inconclusive("simulated database: unsupported: %s", x.db.Unsupported)
	}
	switch o {
	case kit.Panicked:
		m, wh := kit.PanicText(kit.LastPanic)
		k.Fail("", "panic:"+wh, "the ingest command panics in %s: %s", wh, m)
		k.Stop()
	case kit.Hung:
		k.Fail("C12", "busy", "the ingest command does not come to rest (step budget exhausted)")
		k.Stop()
	}
	return o
}

var ingestStrategies = []string{"", "", "", "onlyingest", "onlyingest", "skipingest", "onlysmtupdate", "recordctsize"}

// run is one process from start to end.
type ingestProc struct {
	d        *ctdir
	strategy string
	plain    bool
	args     []string
	pending  []*bundle
	bad      bool // some input is damaged
	killed   bool
	signals  int
	nf       bool // faults were injected
}

func (x *ingestRun) proc(strategy string, d *ctdir) *ingestProc {
	r := x.r
	p := &ingestProc{d: d, strategy: strategy}
	p.plain = r.Chance(1, 2)
	few := func() string {
		if r.Chance(1, 2) {
			return fmt.Sprint(r.Range(1, 2))
		}
		return fmt.Sprint(r.Range(1, 8))
	}
	p.args = []string{"-numfiles", few(), "-numparsers", few(), "-numdechainers", few(), "-numdbworkers", few(),
		"-multiinsert", r.Pick("1", "2", "3", "5", "20", "10000"), "-journal", x.journal}
	if strategy != "" || r.Chance(1, 8) {
		p.args = append(p.args, "-strategy", strategy)
	}
	if r.Chance(1, 2) {
		p.args = append(p.args, "-filebatch", fmt.Sprint(r.Range(1, 4)))
	}
	if p.plain {
		p.args = append(p.args, "-includeplaincsvs")
	}
	dir := d.path
	switch r.Intn(6) {
	case 0:
		dir += "/"
	case 1:
		dir = strings.Replace(dir, "/in/", "/in/./", 1)
	}
	p.args = append(p.args, dir)
	p.find()
	return p
}

func (p *ingestProc) find() {
	p.pending, p.bad = nil, false
	for _, f := range p.d.bundles {
		if f.present && (!f.plain() || p.plain) && !f.covered(p.d.done) {
			p.pending = append(p.pending, f)
			p.bad = p.bad || f.bad != ""
		}
	}
}

func (p *ingestProc) ingests() bool   { return p.strategy == "" || p.strategy == "onlyingest" }
func (p *ingestProc) publishes() bool { return p.strategy == "" || p.strategy == "skipingest" }

func (x *ingestRun) step(i int) {
	k, r := x.k, x.r
	strategy := ingestStrategies[r.Intn(len(ingestStrategies))]
	d := x.dirs[r.Intn(len(x.dirs))]
	if strategy == "onlysmtupdate" && !x.coalesced {
		strategy = "skipingest" // the operator's duty: the map is updated after coalescing
	}
	if x.sql.Focus == "ctlog_server_last_status" && r.Chance(1, 2) {
		strategy = "recordctsize"
	}
	if contains([]string{"dirty", "domains", "domain_certs", "certs"}, x.sql.Focus) && r.Chance(3, 4) {
		strategy = r.Pick("", "onlyingest")
	}
	late := contains([]string{"root", "tree", "domain_payloads", "CALL", "calc_dirty_domains", "processed_rows", "TRUNCATE"}, x.sql.Focus)
	switch {
	case x.lastOnly && r.Chance(1, 2):
		// The usual next step.
		strategy = "skipingest"
	case late && r.Chance(1, 2):
		strategy = "onlyingest"
	case late:
		strategy = r.Pick("skipingest", "onlysmtupdate", "onlysmtupdate", "")
		if strategy == "onlysmtupdate" && !x.coalesced {
			strategy = "skipingest"
		}
	}
	if strategy == "recordctsize" && len(d.done) == 0 && r.Chance(3, 4) {
		strategy = ""
	}
	x.lastOnly = strategy == "onlyingest"
	x.change(false)
	p := x.proc(strategy, d)
	faulty := x.faulty && (r.Chance(2, 3) || x.one || x.sql.Focus != "" && r.Chance(2, 3))
	sig := 0
	if r.Chance(1, 4) {
		sig = r.Range(1, 4)
	}
	if !k.Op(i, "ingest %s: %v, faults %v, signals %d", d.key(), p.args, faulty, sig) {
		return
	}
	x.exec(p, faulty, sig)
}

func (x *ingestRun) exec(p *ingestProc, faulty bool, sig int) {
	k := x.k
	before := x.readJournal(false)
	nf := k.NFaults()
	temps := x.fs.List("/mnt/data/tmp")
	k.Quiet(!faulty)
	x.launch(p.args...)
	if faulty {
		x.mayCrash(x.node)
	}
	start := runtime.VerifMono()
	if sig > 0 {
		x.signals(p, sig)
	}
	if !x.exited && !runtime.VerifDead(x.node) {
		x.wait(ingestDeadline)
	}
	x.calm()
	k.Quiet(true)
	p.nf = k.NFaults() != nf
	p.killed = !x.exited
	k.Check()
	if p.killed && !runtime.VerifDead(x.node) {
		k.Fail("C12", "hang", "the ingest command (strategy %q) still runs after %s; damaged input %v, signals %d, faults %d", p.strategy, time.Duration(runtime.VerifMono()-start), p.bad, p.signals, k.NFaults()-nf)
		k.Stop()
	}
	k.Tracef("ended: killed %v status %d", p.killed, x.code)
	if p.killed {
		k.Cover("killed")
		if x.r.Chance(1, 2) {
			// The machine of the command stops, not only its process.
			k.Cover("power-loss")
			k.Tracef("power loss")
			x.fs.PowerLoss()
		}
	} else {
		k.Cover(fmt.Sprintf("exit-%d", x.code))
	}
	x.after(p, before, temps)
}

// signals sends signals to the process.
func (x *ingestRun) signals(p *ingestProc, n int) {
	k, r := x.k, x.r
	terms := 0
	for i := 0; i < n; i++ {
		x.wait(time.Duration(r.Intn(1000)) * time.Duration([]int64{10e3, 100e3, 2e6}[r.Intn(3)]))
		if x.exited || runtime.VerifDead(x.node) {
			return
		}
		sg := []syscall.Signal{syscall.SIGINT, syscall.SIGTERM, syscall.SIGUSR1, syscall.SIGUSR1}[r.Intn(4)]
		if !signal.VerifHandled(sg) {
			continue // still starting, or almost at the end
		}
		k.Tracef("SIGNAL %v", sg)
		signal.VerifDeliver(sg)
		p.signals++
		k.Cover("signal-" + sg.String())
		if sg == syscall.SIGUSR1 {
			continue
		}
		terms++
		if terms == 2 {
			at := runtime.VerifMono()
			x.wait(time.Minute)
			k.Check()
			if !x.exited && !runtime.VerifDead(x.node) {
				k.Fail("C12", "no-force", "a second termination signal does not end the ingest command within a minute")
				k.Kill(x.node)
				return
			}
			k.Tracef("forced after %s", time.Duration(runtime.VerifMono()-at))
			if x.exited && x.code == 0 {
				k.Cover("forced-but-done")
			}
		}
	}
	if terms > 0 && !x.exited && !runtime.VerifDead(x.node) {
		// It has to end by itself before long; it is allowed to complete what it does.
		x.wait(30 * time.Minute)
		k.Check()
		if !x.exited && !runtime.VerifDead(x.node) {
			k.Fail("C12", "no-interrupt", "asked to stop, the ingest command (strategy %q) still runs after half an hour", p.strategy)
			k.Kill(x.node)
		}
	}
}

type jInfo struct {
	ok                 bool
	jobs               int
	coalesced, updated bool
	size               int64
	done               map[string]map[int]bool
}

// readJournal reads the journal file the way a user would.
func (x *ingestRun) readJournal(must bool) (j jInfo) {
	k := x.k
	b, ok := x.fs.Get(x.journal)
	if !ok {
		return
	}
	var f struct {
		Jobs []struct {
			Coalesced, UpdatedSMT bool
			RecordedCTLogSize     int64
			CompletedIndices      map[string][]string
		}
	}
	k.Check()
	if err := json.Unmarshal(b, &f); err != nil {
		k.Fail("C11", "unreadable", "the journal is not readable: %v", err)
		k.Stop()
	}
	j.ok, j.jobs, j.done = true, len(f.Jobs), map[string]map[int]bool{}
	if len(f.Jobs) == 0 {
		return
	}
	l := f.Jobs[len(f.Jobs)-1]
	j.coalesced, j.updated, j.size = l.Coalesced, l.UpdatedSMT, l.RecordedCTLogSize
	for key, ivs := range l.CompletedIndices {
		m := map[int]bool{}
		for _, iv := range ivs {
			var a, b int
			if n, err := fmt.Sscanf(iv, "%d-%d", &a, &b); n != 2 || err != nil || a > b || b > a+100000 {
				k.Fail("C11", "interval", "the journal has interval %q", iv)
				continue
			}
			for i := a; i <= b; i++ {
				m[i] = true
			}
		}
		j.done[key] = m
	}
	return
}

// stored is what the database holds.
type stored struct {
	certs map[ID]bool
	links map[ID]map[ID]bool // domain ID to certificate ID
	names map[ID]string
}

// readStored reads the database and checks that it holds nothing but truth.
func (x *ingestRun) readStored() *stored {
	k := x.k
	s := &stored{map[ID]bool{}, map[ID]map[ID]bool{}, map[ID]string{}}
	certs, ok1 := x.db.Rows("certs", "cert_id", "parent_id", "expiration", "payload")
	links, ok2 := x.db.Rows("domain_certs", "domain_id", "cert_id")
	names, ok3 := x.db.Rows("domains", "domain_id", "domain_name")
	if !ok1 || !ok2 || !ok3 {
		k.Inconclusive("the database schema is not the expected one")
	}
	k.Check()
	for _, r := range certs {
		id, ok := toID(r[0])
		c := x.u.byID[id]
		if !ok || c == nil {
			k.Fail("C10", "foreign-cert", "the database holds a certificate with ID %x that no input file contains", r[0])
			continue
		}
		if p, _ := r[3].(string); p != string(c.raw) {
			k.Fail("C10", "payload", "certificate %s is stored with wrong payload (%d bytes for %d)", c, len(p), len(c.raw))
		}
		if c.parent == nil {
			if p, _ := r[1].(string); p != "" {
				k.Fail("C10", "parent", "certificate %s is stored with parent %x although it has none", c, r[1])
			}
		} else if pid, ok := toID(r[1]); !ok || x.u.byID[pid] == nil || !x.u.byID[pid].ca || x.u.byID[pid].n != c.parent.n {
			k.Fail("C10", "parent", "certificate %s is stored with parent %x instead of %x", c, r[1], c.parent.id)
		} else {
			// Any certificate of the issuer is right.
			c.parent = x.u.byID[pid]
		}
		if e, _ := r[2].(string); e != time.Unix(c.exp, 0).UTC().Format(time.DateTime) {
			k.Fail("C10", "expiry", "certificate %s is stored with expiry %q instead of %s", c, e, time.Unix(c.exp, 0).UTC().Format(time.DateTime))
		}
		s.certs[id] = true
	}
	byName := map[ID]string{}
	for _, c := range x.u.byID {
		for _, n := range c.names {
			byName[sha256.Sum256([]byte(n))] = n
		}
	}
	for _, r := range links {
		d, ok1 := toID(r[0])
		id, ok2 := toID(r[1])
		c := x.u.byID[id]
		ok := ok1 && ok2 && c != nil
		if ok {
			ok = false
			for _, n := range c.names {
				ok = ok || sha256.Sum256([]byte(n)) == d
			}
		}
		if !ok {
			k.Fail("C10", "foreign-link", "the database links domain %q (%x) with certificate %v (%x), which is not issued for it", byName[d], r[0], c, r[1])
			continue
		}
		if s.links[d] == nil {
			s.links[d] = map[ID]bool{}
		}
		s.links[d][id] = true
	}
	for _, r := range names {
		d, ok := toID(r[0])
		n, _ := r[1].(string)
		if !ok || byName[d] != n {
			k.Fail("C10", "foreign-name", "the database stores name %q for domain ID %x of %q", n, r[0], byName[d])
			continue
		}
		s.names[d] = n
	}
	return s
}

func toID(v any) (id ID, ok bool) {
	s, _ := v.(string)
	if len(s) != len(id) {
		return id, false
	}
	copy(id[:], s)
	return id, true
}

// missing tells what the database lacks of a certificate of a log.
func (s *stored) missing(c *xcert, chain []*xcert) string {
	for _, y := range append([]*xcert{c}, chain...) {
		if !s.certs[y.id] {
			if y == c {
				return "the certificate"
			}
			return fmt.Sprintf("the issuer %s", y)
		}
	}
	for _, n := range c.names {
		d := ID(sha256.Sum256([]byte(n)))
		if !s.links[d][c.id] {
			return fmt.Sprintf("the link with name %q", n)
		}
		if _, ok := s.names[d]; !ok {
			return fmt.Sprintf("the name %q", n)
		}
	}
	return ""
}

// complete checks that all entries lo..hi of the log are stored.
func (x *ingestRun) complete(prop, sig, why string, s *stored, d *ctdir, idx []int) {
	k := x.k
	k.Check()
	for _, i := range idx {
		if i < d.base || i >= d.base+len(d.entries) {
			k.Fail("C11", "unknown-index", "the journal marks entry %d of %s as complete, which no file contains", i, d.key())
			continue
		}
		c := d.entry(i)
		if !x.live(c) {
			continue
		}
		if m := s.missing(c, d.chain(i)); m != "" {
			kind := strings.Fields(m)[1]
			k.Fail(prop, sig+":"+kind, "%s, but %s of entry %d (%s) of %s is not in the database", why, m, i, c, d.key())
			return
		}
	}
}

// after checks the state at the end of a process.
func (x *ingestRun) after(p *ingestProc, before jInfo, temps []string) {
	k := x.k
	s := x.readStored()
	j := x.readJournal(true)
	ok := !p.killed && x.code == 0
	lost := "C10"
	if p.nf && k.Targets("C12") {
		lost = "C12" // it did not report the failure
	}
	// Everything the journal claims is true, and it never forgets.
	k.Check()
	if before.ok && !j.ok {
		k.Fail("C11", "lost", "the journal is gone")
		k.Stop()
	}
	for _, d := range x.dirs {
		idx := sortedInts(j.done[d.key()])
		for i := range before.done[d.key()] {
			if !j.done[d.key()][i] {
				k.Fail("C11", "forgot", "the journal no longer marks entry %d of %s as complete", i, d.key())
				break
			}
		}
		x.complete("C11", "claims", "the journal marks it as complete", s, d, idx)
		for _, f := range d.bundles {
			if f.present && f.bad != "" && f.covered(j.done[d.key()]) && !f.covered(before.done[d.key()]) && !x.coveredByOthers(d, f) {
				k.Fail("C11", "damaged", "the journal marks %s as complete although the file is damaged (%s)", f.path, f.bad)
			}
		}
		d.done = map[int]bool{}
		for _, i := range idx {
			d.done[i] = true
		}
	}
	x.coalesced, x.updated, x.jobs = j.coalesced, j.updated, j.jobs
	// A process that was successful did its work.
	if ok {
		k.Check()
		for _, f := range p.pending {
			if !p.ingests() {
				break
			}
			if f.bad != "" {
				k.Fail("C12", "damaged-accepted", "the exit status is 0 although %s is damaged (%s)", f.path, f.bad)
				continue
			}
			var idx []int
			for i := f.a; i <= f.b; i++ {
				idx = append(idx, i)
			}
			x.complete(lost, "lost", "the command ended successfully", s, p.d, idx)
			if !f.covered(p.d.done) {
				k.Fail("C11", "unmarked", "the command ended successfully, but the journal does not mark %s as complete", f.path)
			}
		}
		for _, n := range x.fs.List("/mnt/data/tmp") {
			if !contains(temps, n) {
				k.Fail("C10", "temp", "the command ended successfully, but leaves temporary file %s", n)
				break
			}
		}
	} else if !p.killed && !p.nf && p.signals == 0 && !(p.bad && p.ingests()) && !x.mayRefuse(p) {
		k.Fail("C12", "error", "the command (strategy %q) fails with status %d although nothing went wrong", p.strategy, x.code)
	}
	if p.strategy == "recordctsize" {
		x.recorded(p, ok)
	}
	if ok && (p.publishes() || p.strategy == "onlysmtupdate" && before.coalesced) {
		x.published(lost, "published", fmt.Sprintf("after the command (strategy %q) ended successfully", p.strategy), s)
	} else if j.updated {
		x.published("C11", "claims-update", "although the journal says that the map was updated with all complete entries", s)
	}
	h := uint64(0)
	for _, d := range x.dirs {
		h = h*31 + uint64(len(d.done))
	}
	k.State(h*1009 + uint64(len(s.certs)*64+len(s.links)))
}

// mayRefuse tells whether the command may refuse to do anything.
func (x *ingestRun) mayRefuse(p *ingestProc) bool {
	return p.strategy == "recordctsize" && x.prefix(p.d) == 0
}

// prefix is the number of entries from the start of the log that are complete.
func (x *ingestRun) prefix(d *ctdir) (n int64) {
	for d.done[int(n)] {
		n++
	}
	return
}

// coveredByOthers tells whether undamaged files hold all entries of the bundle.
func (x *ingestRun) coveredByOthers(d *ctdir, f *bundle) bool {
	m := map[int]bool{}
	for _, g := range d.bundles {
		if g.present && g.bad == "" {
			for i := g.a; i <= g.b; i++ {
				m[i] = true
			}
		}
	}
	return f.covered(m)
}

// recorded checks the size of the log that the map server would continue from.
func (x *ingestRun) recorded(p *ingestProc, ok bool) {
	k := x.k
	rows, good := x.db.Rows("ctlog_server_last_status", "url_hash", "size")
	if !good {
		k.Inconclusive("the database schema is not the expected one")
	}
	h := sha256.Sum256([]byte(p.d.url))
	size := int64(-1)
	for _, r := range rows {
		if s, _ := r[0].(string); s == string(h[:]) {
			size, _ = r[1].(int64)
		}
	}
	want := x.prefix(p.d)
	k.Check()
	if size > want {
		k.Fail("C11", "recorded-size", "size %d is recorded for %s, but only its first %d entries are complete", size, p.d.url, want)
	}
	if ok && size < want {
		k.Fail("C11", "recorded-size", "after success size %d is recorded for %s, but its first %d entries are complete", size, p.d.url, want)
	}
	p.d.recorded = size
	k.Cover("recorded")
}

// published checks the published map for all names whose certificates are all complete.
func (x *ingestRun) published(prop, sig, when string, s *stored) {
	k := x.k
	m := newModel()
	open := map[string]bool{}
	for _, d := range x.dirs {
		for i := range d.entries {
			c := d.entries[i]
			if !x.live(c) {
				continue
			}
			if d.done[i+d.base] {
				m.addLeaf(c)
				continue
			}
			// It may or may not be there, but only if a file had it.
			for _, n := range c.names {
				open[n] = true
			}
		}
	}
	root, got, err := x.auditTree(x.keys)
	k.Check()
	if err != nil {
		k.Fail(prop, sig+"-corrupt", "%s, the published root %x cannot be served: %v", when, short(root), err)
		k.Stop()
	}
	want := m.mapping()
	for n := range open {
		h := ID(sha256.Sum256([]byte(n)))
		delete(want, h)
		delete(got, h)
	}
	if !eqMapping(want, got) {
		k.Fail(prop, sig, "%s, the published map is wrong: %s", when, x.u.diffMapping(want, got))
		k.Stop()
	}
	if len(want) > 1 {
		k.Res.Nontriv = true
	}
	k.Cover("published")
}

// finish ingests everything without faults.
func (x *ingestRun) finish() {
	k := x.k
	k.Quiet(true)
	k.Tracef("faults stop")
	x.change(true)
	for _, d := range x.dirs {
		p := x.proc("", d)
		if !p.plain {
			p.plain = true
			p.args = append([]string{"-includeplaincsvs"}, p.args...)
			p.find()
		}
		x.exec(p, false, 0)
		k.Check()
		if x.code != 0 || p.killed {
			k.Fail("C12", "final", "without faults and with undamaged files the command fails with status %d", x.code)
			k.Stop()
		}
	}
	s := x.readStored()
	for _, d := range x.dirs {
		var idx []int
		for i := range d.entries {
			idx = append(idx, i+d.base)
		}
		x.complete("C12", "final-lost", "the final command ended successfully", s, d, idx)
	}
	x.published("C12", "final-published", "after everything was ingested", s)
}

func sortedInts(m map[int]bool) (l []int) {
	for i := range m {
		l = append(l, i)
	}
	sort.Ints(l)
	return
}

func contains(l []string, s string) bool {
	for _, y := range l {
		if y == s {
			return true
		}
	}
	return false
}
