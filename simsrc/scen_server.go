package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"crypto/tls"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"runtime"
	"strings"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db/mysql"
	"github.com/netsec-ethz/fpki/pkg/mapserver"
	mapCommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/config"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/verifsim/kit"
)

func init() {
	register(&scenario{name: "server", run: serverScenario, preempts: []uint64{0, 5, 50, 500}})
}

// serverRun is a complete map server fed by simulated CT logs and queried over HTTP.
type serverRun struct {
	ctx   context.Context // of the server
	asked [][]ID          // earlier requests for payloads
	*world
	single  bool // at most one fault
	u       *universe
	r       *kit.Rng
	m       *model
	reg     registry
	keys    []ID
	logs    []*ctlog
	sizes   []int
	node    uint32
	cl      uint32 // client node
	srv     *mapserver.MapServer
	cancel  context.CancelFunc
	listen  *kit.Task
	lErr    error
	faulty  bool
	loose   bool // the published map is not exactly known
	last    mapping
	pend    []*pendingResp
	stopQ   bool
	failed  bool // some update failed since the last success
	maybeUp bool
	gone    bool      // the server context was cancelled
	plain   bool      // no folders, no TLS
	tls     bool      // the API is served over TLS
	rows    int       // limit of rows per update and local log
	since   time.Time // begin of the updates not accounted for
}

type pendingResp struct {
	name string
	resp []*mapCommon.MapServerResponse
}

func serverScenario(k *kit.Kit) {
	w := newWorld(k)
	r := k.Rand("server")
	x := &serverRun{world: w, r: r, m: newModel(), reg: registry{}, last: mapping{}}
	x.reg.add(x.last)
	x.setup()
	k.Quiet(true)
	x.start()
	nops := r.Range(3, 9)
	for i := 0; i < nops; i++ {
		x.op(i)
	}
	k.Quiet(true)
	x.faulty = false
	k.Tracef("faults stop")
	if x.gone {
		x.restart()
	}
	more := 0
	for _, l := range x.logs {
		l.lag, l.hold = false, false
		l.unhide()
		more += len(l.files)
	}
	x.update(1, false, 0)
	for ; more > 0 && !x.complete(); more-- { // the rows per update are limited
		x.update(1, false, 0)
	}
	if x.loose {
		x.update(1, false, 0)
	}
	if x.loose {
		k.Fail("C07", "never", "without faults the published map does not get up to date")
	}
	x.queryAll()
	for i, l := range x.logs {
		k.Check()
		if x.sizes[i] != l.size() {
			k.Fail("C23", "incomplete", "after faults stopped and an update succeeded, log %s is recorded up to %d of %d entries", l.url(), x.sizes[i], l.size())
		}
	}
	if len(x.last) >= 2 {
		k.Res.Nontriv = true
	}
	if left := w.fs.List(mysql.TemporaryDir); len(left) > 0 && k.NFaults() == 0 {
		k.Fail("C17", "leftover", "temporary files left behind: %v", left)
	}
}

func (x *serverRun) setup() {
	k, r, w := x.k, x.r, x.world
	uc := uniConf{names: r.Range(2, 12), cas: r.Range(1, 4), leaves: r.Range(3, 25), pols: r.Intn(3),
		expMin: -3 * 24 * time.Hour, expMax: 40 * 24 * time.Hour, caExpMin: 10 * 24 * time.Hour, caExpMax: 100 * 24 * time.Hour,
		maxDepth: r.Range(1, 3), oddNames: r.Chance(1, 4), maxNames: r.Range(1, 4), quirks: true, twins: true}
	if k.Thorough() && r.Chance(1, 4) {
		uc.leaves = r.Range(30, 300)
	}
	if r.Chance(1, 4) {
		localZone(k)
	}
	if r.Chance(1, 12) {
		uc.cas, uc.maxDepth, uc.long = r.Range(6, 14), 15, true
	}
	x.u = newUniverse(r, time.Now(), uc)
	x.keys = x.u.keys()
	w.fs.MkdirAll(mysql.TemporaryDir)
	w.fs.MkdirAll("/data")
	w.fs.Put("/data/cert.pem", serverCertPEM)
	w.fs.Put("/data/key.pem", serverKeyPEM)
	nl := r.Range(1, 3)
	rows := []int{1, 5, 20, 1000}[r.Intn(4)]
	local := r.Chance(1, 3) && !x.plain
	if local {
		nl = max(nl, 2)
	}
	site := w.fs.SiteOf
	w.fs.SiteOf = func(p string) string {
		if strings.HasPrefix(p, "/data/csv") {
			return "csv"
		}
		return site(p)
	}
	x.rows = rows
	x.tls = r.Chance(1, 8) && !x.plain
	if x.tls {
		k.Cover("tls")
	}
	for i := 0; i < nl; i++ {
		if local && i > 0 {
			l := newLocalLog(w, i, rows)
			l.grow(pickEntries(r, x.u, r.Range(0, 20))...)
			k.Cover("local-log")
			x.logs = append(x.logs, l)
			x.sizes = append(x.sizes, 0)
			continue
		}
		l := newCTLog(w, i)
		if r.Chance(1, 2) {
			l.maxResp = []int{1, 2, 3, 7, 50, 127}[r.Intn(6)]
		}
		l.lag = r.Chance(1, 4)
		if r.Chance(2, 3) {
			n := r.Range(0, 12)
			if r.Chance(1, 12) {
				n = r.Range(120, 300) // more than a batch
			}
			l.grow(pickEntries(r, x.u, n)...)
		}
		x.logs = append(x.logs, l)
		x.sizes = append(x.sizes, 0)
	}
	w.net.FaultSite = func(a string) string {
		switch {
		case a == dbAddr:
			return "db"
		case strings.HasPrefix(a, "ct"):
			return "ctnet"
		}
		return ""
	}
	x.faulty = r.Chance(4, 5)
	rate := func(site string, v ...float64) { k.SetRate(site, v[r.Intn(len(v))]) }
	if k.Targets("C05") || k.Targets("C06") {
		x.faulty = r.Chance(1, 2)
	}
	if x.faulty {
		rate("ct.sth", 0, .1, .3)
		rate("ct.entries", 0, .1, .4)
		rate("ctnet.dial", 0, .1)
		rate("ctnet.seg", 0, .02)
		if local {
			rate("csv.open", 0, .02, .1)
			rate("csv.read", 0, .02, .1)
			rate("csv.readdir", 0, .02, .1)
		}
		if r.Chance(1, 2) {
			rate("db.write", 0, .02, .1)
			rate("db.read", 0, .02, .1)
			rate("db.inner", 0, .05)
			rate("db.seg", 0, 0, .01)
			rate("tmp.create", 0, .05)
			rate("tmp.write", 0, .05)
		}
		rate("proc", 0, 0, .2, .4)
		w.sql.KillClients = r.Chance(1, 3)
		k.SetBudget(r.Range(1, 8))
		w.files, w.logs = true, true
		if !w.focus("db.write", "db.read") && r.Chance(1, 2) {
			w.single()
			x.single = true
		}
	}
}

func (x *serverRun) conf() *config.Config {
	c := &config.Config{DBConfig: dbConfig(), CertificatePemFile: "/data/cert.pem", PrivateKeyPemFile: "/data/key.pem",
		HttpAPIPort: 8443, CsvIngestionMaxRows: uint64(x.rows), CertificateFolders: map[string]string{}}
	for _, l := range x.logs {
		if l.folder != "" {
			c.CertificateFolders[l.url()] = l.folder
		}
		c.CTLogServerURLs = append(c.CTLogServerURLs, l.url())
	}
	return c
}

// start launches a new map server process.
func (x *serverRun) start() {
	k := x.k
	q := k.IsQuiet()
	k.Quiet(true)
	x.node = k.NewNode()
	x.cl = k.NewNode()
	x.gone = false
	ctx, cancel := context.WithCancel(context.Background())
	x.cancel = cancel
	a := x.do(x.node, "start", time.Hour, func() error {
		s, err := mapserver.NewMapServer(ctx, x.conf())
		x.srv = s
		return err
	})
	if !a.ok() {
		k.Fail("C03", "start", "a fresh map server cannot start on the stored data: %s", a)
		k.Fail("", "start", "a fresh map server cannot start on the stored data: %s", a)
		k.Stop()
	}
	x.listenOn(ctx)
	k.Quiet(q)
}

// listenOn makes the server answer requests.
func (x *serverRun) listenOn(ctx context.Context) {
	srv := x.srv
	x.ctx = ctx
	x.lErr = nil
	x.listen = x.k.Go(x.node, "listen", func() {
		if x.tls {
			x.lErr = srv.Listen(ctx)
		} else {
			x.lErr = srv.ListenWithoutTLS(ctx)
		}
	})
	x.k.Sleep(100 * time.Millisecond)
}

// shutdown makes the server stop listening, and listen again.
func (x *serverRun) shutdown(callers int) {
	k := x.k
	if x.gone {
		return
	}
	srv := x.srv
	var tasks []*kit.Task
	for i := 0; i < callers; i++ {
		tasks = append(tasks, k.Go(x.node, "shutdown", func() { srv.Shutdown(context.Background()) }))
	}
	o := k.Wait(time.Hour, append(tasks, x.listen)...)
	k.Check()
	switch o {
	case kit.Done:
	case kit.Panicked:
		m, wh := kit.PanicText(kit.LastPanic)
		k.Fail("C07", "panic:"+wh, "stopping the API makes the server panic: %s", m)
		k.Stop()
	default:
		k.Fail("C07", "shutdown-hang", "%d callers stop the API of the server, but not all calls and the listener return (%s)", callers, o)
		k.Stop()
	}
	if x.lErr != nil {
		k.Fail("C24", "listen-error", "listening ends with an error when the API is stopped: %v", x.lErr)
	}
	k.Cover("shutdown")
	if callers > 1 {
		x.restart()
		return
	}
	x.listenOn(x.ctx)
	k.Check()
	x.do(x.cl, "query", time.Hour, func() error {
		if _, code, err := x.getProof("absent-after-restart.org"); err != nil || code == 0 {
			k.Fail("C26", "listen-again", "the server listens again after it stopped, but a query gets no answer: %d, %v", code, err)
		}
		return nil
	})
}

func (x *serverRun) restart() {
	x.k.Kill(x.node)
	x.k.Kill(x.cl)
	x.start()
}

func (x *serverRun) op(i int) {
	k, r := x.k, x.r
	w := map[string]int{"grow": 4, "update": 6, "query": 3, "advance": 2, "restart": 1, "busy": 1, "cancel": 1, "policy": 1, "api": 1}
	switch {
	case k.Targets("C26"):
		w["api"], w["query"] = 6, 3
		w["shutdown"] = 1
	case k.Targets("C07"):
		w["busy"] = 3
		w["shutdown"] = 1
	}
	if x.single {
		w = map[string]int{"grow": 4, "update": 8, "query": 1, "restart": 1, "policy": 1}
	}
	tot := 0
	for _, n := range kit.SortedKeys(w) {
		tot += w[n]
	}
	c := r.Intn(tot)
	kind := ""
	for _, n := range kit.SortedKeys(w) {
		if c -= w[n]; c < 0 {
			kind = n
			break
		}
	}
	// All random choices are made before the operation may be left out.
	li, n, callers := r.Intn(len(x.logs)), r.Range(1, 10), []int{1, 1, 1, 2, 3}[r.Intn(5)]
	growing, adv := r.Chance(1, 4), time.Duration(r.Range(1, 1000))*time.Duration([]int64{1e9, 60e9, 3600e9}[r.Intn(3)])
	deadline := time.Duration(0)
	if r.Chance(1, 6) {
		deadline = time.Duration(r.Range(1, 3000)) * time.Millisecond
	}
	if x.single && r.Chance(3, 4) {
		callers, growing, deadline = 1, false, 0
	}
	days := time.Duration(0)
	if x.single && kind == "update" && r.Chance(2, 3) {
		days = time.Duration(r.Range(1, 20)) * 24 * time.Hour
	}
	es := pickEntries(r, x.u, n)
	if !k.Op(i, "%s", map[string]string{"grow": fmt.Sprintf("grow log %d by %d", li, n), "update": fmt.Sprintf("update by %d callers (growing %v, deadline %s)", callers, growing, deadline), "advance": "advance " + adv.String()}[kind]+map[bool]string{true: kind}[kind != "grow" && kind != "update" && kind != "advance"]) {
		return
	}
	switch kind {
	case "grow":
		x.logs[li].grow(es...)
	case "advance":
		k.Sleep(adv)
	case "update":
		if days > 0 {
			k.Sleep(days)
		}
		x.update(callers, growing, deadline)
	case "query":
		x.queryAll()
	case "restart":
		x.restart()
	case "busy":
		x.busy()
	case "shutdown":
		x.shutdown(callers)
	case "cancel":
		x.cancelServer()
	case "policy":
		x.policy()
	case "api":
		x.apiAbuse()
	}
}

// readSizes returns what the database records about the logs.
func (x *serverRun) readSizes() (sizes []int) {
	k := x.k
	sizes = make([]int, len(x.logs))
	var stored []bool
	var ids []ID
	err := x.quietly("read sizes", func() error {
		c, err := mysql.Connect(dbConfig())
		if err != nil {
			return err
		}
		defer c.Close()
		ctx := context.Background()
		for i, l := range x.logs {
			n, sth, err := c.LastCTlogServerState(ctx, l.url())
			if err != nil {
				return err
			}
			sizes[i] = int(n)
			k.Check()
			if n < 0 || int(n) > l.size() || (n > 0 && !l.served[int(n)]) {
				k.Fail("C23", "size", "log %s is recorded with size %d, which it never announced", l.url(), n)
			}
			if n > 0 && !bytes.Equal(sth, l.sig(int(n))) {
				k.Fail("C23", "sth", "log %s: the tree head recorded with size %d is another one (%q)", l.url(), n, sth)
			}
			if sizes[i] < x.sizes[i] {
				k.Fail("C23", "regress", "the recorded size of log %s goes back from %d to %d", l.url(), x.sizes[i], n)
			}
			for _, e := range l.entries[:min(sizes[i], l.size())] {
				ids = append(ids, e.cert.id)
			}
		}
		if len(ids) > 0 {
			stored, err = c.CheckCertsExist(ctx, ids)
		}
		return err
	})
	if err != nil {
		k.Fail("", "read-sizes", "reading the recorded sizes fails: %v", err)
		k.Stop()
	}
	now := time.Now().Unix()
	x.since = time.Now()
	for i, id := range ids {
		k.Check()
		if stored[i] {
			continue
		}
		exp := false
		c := x.u.byID[id]
		for p := c; p != nil; p = p.parent {
			exp = exp || p.exp < now
		}
		if !exp {
			k.Fail("C23", "lost", "certificate %s is in the part of a log recorded as ingested but it is not stored", c)
			break
		}
	}
	return
}

// update lets callers request updates and waits for their answers.
func (x *serverRun) update(callers int, growing bool, deadline time.Duration) {
	k, r := x.k, x.r
	if x.gone {
		x.restart()
	}
	nf := k.NFaults()
	before := x.catchUp()
	announced := make([]int, len(x.logs))
	for i, l := range x.logs {
		announced[i] = l.target(before[i])
		if l.lag && len(l.oldSTH) > 0 {
			announced[i] = l.oldSTH[len(l.oldSTH)-1]
		}
	}
	t0 := time.Now()
	// The map as it will be when exactly one update runs.
	want := x.m.clone()
	want.prune(t0.Unix())
	exact := callers == 1 && !growing && !x.hasLag() && deadline == 0
	if exact {
		w2 := want.clone()
		for i, l := range x.logs {
			for _, c := range x.ingested(l, before[i], l.target(before[i]), t0) {
				w2.addLeaf(c)
			}
		}
		x.reg.add(w2.mapping())
	}
	x.stopQ = false
	var readers []*kit.Task
	if r.Chance(2, 3) {
		for i := 0; i < r.Range(1, 2); i++ {
			readers = append(readers, x.reader(i))
		}
	}
	k.Quiet(!x.faulty)
	x.mayCrash(x.node)
	errs := make([]error, callers)
	answered := make([]bool, callers)
	possible := make([]bool, callers)
	kinds := make([]bool, callers) // true: IfPossible
	var tasks []*kit.Task
	srv := x.srv
	var cancels []context.CancelFunc
	for i := 0; i < callers; i++ {
		i := i
		kinds[i] = r.Chance(1, 4)
		delay := time.Duration(0)
		if i > 0 {
			delay = time.Duration(r.Intn(2000)) * time.Millisecond
		}
		ctx := context.Background()
		if deadline > 0 && i == 0 {
			var cf context.CancelFunc
			ctx, cf = context.WithTimeout(ctx, deadline)
			cancels = append(cancels, cf)
		}
		tasks = append(tasks, k.Go(x.node, fmt.Sprintf("update caller %d", i), func() {
			time.Sleep(delay)
			if kinds[i] {
				possible[i], errs[i] = srv.PruneAndUpdateIfPossible(ctx)
			} else {
				possible[i] = true
				errs[i] = srv.PruneAndUpdate(ctx)
			}
			answered[i] = true
		}))
	}
	if growing {
		for g := 0; g < 3; g++ {
			k.WaitUntil(time.Duration(r.Intn(200))*time.Millisecond, func() bool { return false }, tasks...)
			l := x.logs[r.Intn(len(x.logs))]
			l.grow(pickEntries(r, x.u, r.Range(1, 4))...)
		}
	}
	o := k.Wait(2*time.Hour, tasks...)
	k.Quiet(true)
	x.stopQ = true
	if x.db.Unsupported != "" {
		k.Inconclusive("simulated database: unsupported: %s", x.db.Unsupported)
	}
	switch o {
	case kit.Done, kit.Killed:
	case kit.Panicked:
		m, wh := kit.PanicText(kit.LastPanic)
		k.Fail("", "panic:"+wh, "the map server panics during an update: %s at %s", m, wh)
		k.Stop()
	default:
		k.Fail("C07", "hang", "not every update request is answered: %v (%s)", answered, o)
		if !k.Targets("C07") {
			k.Fail("", "hang", "not every update request is answered: %v (%s)", answered, o)
		}
		k.Stop()
	}
	k.Wait(time.Hour, readers...)
	x.calm()
	for _, c := range cancels {
		c()
	}
	crashed := runtime.VerifDead(x.node)
	t1 := time.Now()
	oks, ran := 0, 0
	var lastErr error
	for i := range errs {
		k.Check()
		if !answered[i] {
			continue
		}
		if possible[i] {
			ran++
		}
		if errs[i] == nil && possible[i] {
			oks++
		}
		if errs[i] != nil {
			lastErr = errs[i]
			k.Cover("update-error")
			if k.NFaults() == nf && deadline == 0 {
				k.Fail("C07", "spurious", "an update request fails although nothing went wrong: %v", errs[i])
			}
			if !possible[i] {
				k.Fail("C07", "possible-error", "PruneAndUpdateIfPossible reports no update but an error: %v", errs[i])
			}
		}
		if kinds[i] && !possible[i] {
			k.Cover("ifpossible-refused")
			if callers == 1 {
				k.Fail("C07", "idle-refused", "PruneAndUpdateIfPossible reports a running update although the server is idle")
			}
		}
	}
	k.Tracef("update: %d callers, %d ran, %d ok, crashed %v, last error %v", callers, ran, oks, crashed, lastErr)
	after := x.readSizes()
	x.sizes = after
	ambiguous := false
	for _, c := range x.u.byID {
		if c.exp >= t0.Unix()-1 && c.exp <= t1.Unix()+1 {
			ambiguous = true
		}
	}
	if callers == 1 && ran == 1 && oks == 1 && !crashed {
		for i := range x.logs {
			if after[i] < announced[i] && after[i] <= before[i] && announced[i] > before[i] {
				k.Fail("C07", "not-ingested", "an update reports success but log %d, announced with %d entries before, is recorded with %d", i, announced[i], after[i])
			}
		}
		x.m = want
	} else if oks > 0 {
		// At least one complete update ran; which expired entries it still saw is not known.
		for i := range x.logs {
			if after[i] < announced[i] && announced[i] > before[i] {
				k.Fail("C07", "not-ingested", "an update reports success but log %d, announced with %d entries before, is recorded with %d", i, announced[i], after[i])
			}
		}
	}
	x.account(before, after, t0)
	root, got, err := x.auditTree(x.keys)
	k.Check()
	if err != nil {
		k.Fail("C03", "corrupt", "after an update (%d requests, %d ok, crashed %v) the published root %x cannot be served: %v", callers, oks, crashed, short(root), err)
		k.Fail("", "corrupt", "after an update (%d requests, %d ok, crashed %v) the published root %x cannot be served: %v", callers, oks, crashed, short(root), err)
		k.Stop()
	}
	k.State(kit.Hash64(string(root)))
	x.reg.add(got)
	exactNow := callers == 1 && ran == 1 && oks == 1 && !ambiguous && !crashed
	for i, l := range x.logs {
		for n := range l.served {
			if n > after[i] && x.loose {
				exactNow = false // an earlier failed update may have stored more than this one saw
				k.Cover("stored-ahead")
				break
			}
		}
	}
	if exactNow {
		if w := x.m.mapping(); !eqMapping(w, got) {
			k.Fail("C07", "content", "after a successful update the published map differs from the logs' content up to the recorded sizes: %s", x.u.diffMapping(w, got))
			k.Fail("", "content", "after a successful update the published map differs from the logs' content up to the recorded sizes: %s", x.u.diffMapping(w, got))
			k.Stop()
		}
		x.loose = false
		k.Cover("update-exact")
	} else if ran > 0 || crashed {
		x.loose = true
	}
	if callers > 1 && oks > 0 && oks == ran && !crashed && !growing {
		k.Cover("update-concurrent-ok")
	}
	x.last = got
	x.judgePending(callers == 1)
	if crashed {
		k.Cover("crash")
		x.restart()
	} else if oks > 0 && oks == ran && lastErr == nil {
		// The answer means that queries see the update: the responder serves the stored root.
		x.servesRoot(root)
	}
}

// ingested lists what an update beginning at t takes from the log between two sizes. Expired rows of
// a folder are left out.
func (x *serverRun) ingested(l *ctlog, from, to int, t time.Time) (cs []*xcert) {
	for _, e := range l.entries[from:to] {
		if l.folder == "" || e.cert.exp >= t.Unix() {
			cs = append(cs, e.cert)
		}
	}
	return
}

// account adds to the model what updates since t took from the logs.
func (x *serverRun) account(before, after []int, t time.Time) {
	now := time.Now().Unix()
	for i, l := range x.logs {
		for _, c := range x.ingested(l, before[i], after[i], t) {
			x.m.addLeaf(c)
		}
		if l.folder == "" {
			continue
		}
		for j, e := range l.entries[:l.size()] {
			if j < before[i] {
				continue
			}
			// Whether the chain of such a row is stored is not known.
			if x := e.cert.exp; x <= now+1 && (x >= t.Unix()-1 || l.tried[j]) {
				k := l.w.k
				k.Cover("row-expires-meanwhile")
				k.Stop()
			}
			l.tried[j] = e.cert.exp >= t.Unix()
		}
	}
}

// complete says whether all logs are recorded completely.
func (x *serverRun) complete() bool {
	for i, l := range x.logs {
		if x.sizes[i] != l.size() {
			return false
		}
	}
	return true
}

func (x *serverRun) hasLag() bool {
	for _, l := range x.logs {
		if l.lag {
			return true
		}
	}
	return false
}

// servesRoot checks that the API serves proofs for the root now.
func (x *serverRun) servesRoot(root []byte) {
	k := x.k
	name := x.pick(x.r)
	if !validName(name) {
		return
	}
	x.do(x.cl, "query after update", time.Hour, func() error {
		resp, code, err := x.getProof(name)
		k.Check()
		if err != nil || code != 200 {
			k.Fail("C07", "unserved", "after a successful update the query for %q fails: %d %v", name, code, err)
			return nil
		}
		for _, p := range resp {
			if !bytes.Equal(p.PoI.Root, root) {
				k.Fail("C07", "old-root", "an update request was answered, but a query made after the answer is served from root %x instead of %x", short(p.PoI.Root), short(root))
			}
		}
		return nil
	})
}

func (x *serverRun) pick(r *kit.Rng) string {
	if r.Chance(1, 4) {
		return x.u.absent[r.Intn(len(x.u.absent))]
	}
	return x.u.names[r.Intn(len(x.u.names))]
}

func (x *serverRun) client() *http.Client {
	return &http.Client{Transport: &http.Transport{DisableKeepAlives: true, TLSClientConfig: &tls.Config{InsecureSkipVerify: true}}, Timeout: 30 * time.Second}
}

func (x *serverRun) get(path string) (body []byte, code int, err error) {
	scheme := "http"
	if x.tls {
		scheme = "https"
	}
	resp, err := x.client().Get(scheme + "://127.0.0.1:8443" + path)
	if err != nil {
		return nil, 0, err
	}
	defer resp.Body.Close()
	body, err = io.ReadAll(resp.Body)
	return body, resp.StatusCode, err
}

func (x *serverRun) getProof(name string) (resp []*mapCommon.MapServerResponse, code int, err error) {
	b, code, err := x.get("/getproof?domain=" + url.QueryEscape(name))
	if err != nil || code != 200 {
		return nil, code, err
	}
	err = json.Unmarshal(b, &resp)
	return
}

// reader queries over HTTP while updates run.
func (x *serverRun) reader(i int) *kit.Task {
	k := x.k
	r := k.Rand(fmt.Sprintf("reader%d-%d", i, len(k.Res.Trace)))
	return k.Go(x.cl, "reader", func() {
		for n := 0; !x.stopQ && n < 60; n++ {
			name := x.pick(r)
			resp, code, err := x.getProof(name)
			switch {
			case err != nil:
				k.Cover("query-failed-during-update")
			case code != 200:
				k.Cover(fmt.Sprintf("query-%d-during-update", code))
			default:
				k.Cover("query-during-update")
				x.pend = append(x.pend, &pendingResp{name, resp})
			}
			time.Sleep(time.Duration(r.Intn(20000)) * time.Microsecond)
		}
	})
}

func (x *serverRun) judgePending(known bool) {
	for _, p := range x.pend {
		for _, r := range p.resp {
			if r == nil || r.DomainEntry == nil {
				x.k.Fail("C26", "null", "the API answered a query for %q with an incomplete response", p.name)
				continue
			}
			if !known && x.reg[sigOfRoot(r.PoI.Root)] == nil {
				x.k.Cover("intermediate-root") // published by an update before the last one
				continue
			}
			x.judge(x.reg, r, "http-during-update")
		}
	}
	x.pend = nil
}

// queryAll asks for everything and compares with the model.
func (x *serverRun) queryAll() {
	k, r := x.k, x.r
	if x.gone || x.loose || !eqMapping(x.last, x.m.mapping()) {
		return
	}
	x.do(x.cl, "query", 10*time.Hour, func() error {
		for _, n := range append(append([]string{}, x.u.names...), x.u.absent...) {
			resp, code, err := x.getProof(n)
			k.Check()
			if err != nil {
				k.Fail("C26", "getproof", "GET /getproof for %q fails although nothing went wrong: %v", n, err)
				continue
			}
			if code != 200 {
				if validName(n) {
					k.Fail("C26", "getproof-code", "GET /getproof for %q is answered with %d", n, code)
				}
				continue
			}
			if !validName(n) {
				k.Fail("C26", "getproof-invalid", "GET /getproof for the invalid name %q is answered with %d", n, code)
				continue
			}
			x.expectHonest(x.m, n, resp, "http")
		}
		x.payloadQueries(r)
		return nil
	})
	if r.Chance(1, 2) || k.Targets("C26") {
		// Several clients at once: every one gets its own answer.
		var tasks []*kit.Task
		for i := 0; i < r.Range(2, 4); i++ {
			cr := kit.NewRng(r.U64())
			tasks = append(tasks, k.Go(x.cl, "payload client", func() { x.payloadQueries(cr) }))
		}
		k.MustDone(k.Wait(time.Hour, tasks...), "payload queries", time.Hour)
		k.Cover("concurrent-payload-queries")
	}
}

// payloadQueries checks the payload endpoints.
func (x *serverRun) payloadQueries(r *kit.Rng) {
	k := x.k
	for n := 0; n < 3; n++ {
		var ids []ID
		for _, c := range append(append([]*xcert{}, x.u.leaves...), x.u.cas...) {
			if r.Chance(1, 3) {
				ids = append(ids, c.id)
			}
		}
		for _, p := range x.u.pols {
			if r.Chance(1, 2) {
				ids = append(ids, p.id)
			}
		}
		if r.Chance(1, 3) {
			ids = append(ids, sha256.Sum256([]byte("unknown")))
		}
		if r.Chance(1, 4) && len(ids) > 0 { // the same ID several times
			for j := r.Range(1, 4); j > 0; j-- {
				ids = append(ids, ids[r.Intn(len(ids))])
			}
		}
		if r.Chance(1, 30) { // a long request
			for j := r.Range(50, 1200); j > 0; j-- {
				if len(ids) > 0 && r.Chance(1, 2) && j < 500 {
					ids = append(ids, ids[r.Intn(len(ids))])
				} else {
					ids = append(ids, sha256.Sum256([]byte(fmt.Sprint("unknown", j))))
				}
			}
			k.Cover("long request")
		}
		for i, j := range r.Perm(len(ids)) {
			ids[i], ids[j] = ids[j], ids[i]
		}
		if r.Chance(1, 3) && len(ids) > 0 { // a single ID
			ids = ids[:1]
		}
		if r.Chance(1, 3) && len(x.asked) > 0 { // an earlier request again
			ids = x.asked[r.Intn(len(x.asked))]
		}
		if len(ids) == 0 {
			continue
		}
		x.asked = append(x.asked, ids)
		for _, ep := range []string{"getpayloads", "getcertpayloads", "getpolicypayloads"} {
			b, code, err := x.get("/" + ep + "?ids=" + hex.EncodeToString(glue(ids)))
			k.Check()
			if err != nil || code != 200 {
				k.Fail("C26", ep+"-error", "GET /%s of %d IDs fails although nothing went wrong: %d %v %s", ep, len(ids), code, err, b)
				continue
			}
			var got [][]byte
			if err := json.Unmarshal(b, &got); err != nil || len(got) != len(ids) {
				k.Fail("C26", ep+"-shape", "GET /%s of %d IDs returns %d payloads (%v)", ep, len(ids), len(got), err)
				continue
			}
			for i, id := range ids {
				var want []byte
				if c := x.m.certs[id]; c != nil && ep != "getpolicypayloads" {
					want = c.raw
				}
				if p := x.pol(id); p != nil && x.m.pols[p.name][p.id] && ep != "getcertpayloads" {
					want = p.raw
				}
				if !bytes.Equal(want, got[i]) {
					k.Fail("C26", ep+"-payload", "GET /%s returns %d bytes at the position of ID %x, want %d", ep, len(got[i]), id[:4], len(want))
				}
			}
		}
	}
}

func (x *serverRun) pol(id ID) *xpol {
	for _, p := range x.u.pols {
		if p.id == id {
			return p
		}
	}
	return nil
}

// apiAbuse sends odd requests, alone and concurrently with honest ones.
func (x *serverRun) apiAbuse() {
	k := x.k
	if x.gone {
		return
	}
	r := k.Rand(fmt.Sprintf("abuse%d", len(k.Res.Trace)))
	var tasks []*kit.Task
	for i := 0; i < r.Range(1, 4); i++ {
		tasks = append(tasks, k.Go(x.cl, "abuse", func() {
			for n := 0; n < 6; n++ {
				path, want := "", 400
				switch r.Intn(9) {
				case 0:
					path = "/getproof"
				case 1:
					path = "/getproof?domain=" + url.QueryEscape(r.Pick("", "..", "a..b", "-x.com", strings.Repeat("a.", 200)+"com", "com", "\x00", "a b.com", "☃.com"))
					want = 0
				case 2:
					path = "/getpayloads?ids=" + strings.Repeat("a", r.Range(1, 63))
				case 3:
					path = "/getpayloads?ids=" + strings.Repeat("zz", 32)
				case 4:
					path = "/getcertpayloads?ids=" + strings.Repeat("g0", 32*r.Range(1, 3))
				case 5:
					path = "/" + r.Pick("getpayloads", "getcertpayloads", "getpolicypayloads")
					want = 0
				case 6:
					path, want = "/nothing", 404
				case 7:
					path = "/getpolicypayloads?ids=" + strings.Repeat("00", 32) + "1"
				case 8:
					path = "/getpayloads?ids=" + strings.ToUpper(hex.EncodeToString(x.u.leaves[0].id[:]))
					want = 200
				}
				b, code, err := x.get(path)
				k.Check()
				if err != nil {
					k.Fail("C26", "abuse-drop", "GET %.60q is not answered: %v", path, err)
				} else if want != 0 && code != want {
					k.Fail("C26", "abuse-code", "GET %.60q is answered with %d instead of %d: %.100s", path, code, want, b)
				} else if code != 200 && code != 400 && code != 404 {
					k.Fail("C26", "abuse-status", "GET %.60q is answered with %d: %.100s", path, code, b)
				}
			}
		}))
	}
	o := k.Wait(time.Hour, tasks...)
	if o == kit.Panicked {
		m, wh := kit.PanicText(kit.LastPanic)
		k.Fail("C26", "panic:"+wh, "the map server process panics on a request: %s", m)
		k.Stop()
	}
	if o != kit.Done {
		k.Fail("C26", "hang", "API requests are not answered (%s)", o)
		k.Stop()
	}
	k.Cover("api-abuse")
}

// busy checks PruneAndUpdateIfPossible against an update known to be in progress.
func (x *serverRun) busy() {
	k := x.k
	if x.gone {
		x.restart()
	}
	l := x.logs[0]
	x.catchUp()
	l.hold = true
	srv := x.srv
	var e1, e2 error
	t1 := k.Go(x.node, "long update", func() { e1 = srv.PruneAndUpdate(context.Background()) })
	k.WaitUntil(time.Minute, func() bool { return l.held > 0 }, t1)
	if l.held == 0 {
		l.hold = false
		k.Fail("C07", "no-fetch", "an update does not contact the CT log server")
		k.Stop()
	}
	poss, done := true, false
	t2 := k.Go(x.node, "if possible", func() { poss, e2 = srv.PruneAndUpdateIfPossible(context.Background()); done = true })
	o := k.Wait(2*time.Second, t2)
	k.Check()
	if !done || poss || e2 != nil {
		k.Fail("C07", "busy", "PruneAndUpdateIfPossible during a running update: returned %v, possible %v, error %v (%s)", done, poss, e2, o)
	}
	third := k.Go(x.node, "queued", func() { srv.PruneAndUpdate(context.Background()) })
	k.Sleep(time.Second)
	if third.Done {
		k.Fail("C07", "not-queued", "PruneAndUpdate returns while an earlier update is still running and before its own one ran")
	}
	l.hold = false
	o = k.Wait(time.Hour, t1, t2, third)
	if o != kit.Done {
		k.Fail("C07", "hang", "update requests are not answered (%s)", o)
		k.Stop()
	}
	_ = e1
	x.absorb()
	k.Cover("busy")
}

// catchUp reads the sizes. A statement given up by an earlier update may have run since then.
func (x *serverRun) catchUp() []int {
	since := x.since
	after := x.readSizes()
	for i := range after {
		if after[i] != x.sizes[i] {
			x.k.Cover("late-size")
			x.account(x.sizes, after, since)
			x.loose = true
			break
		}
	}
	x.sizes = after
	return after
}

// absorb takes whatever updates did into account, without exact knowledge.
func (x *serverRun) absorb() {
	since := x.since
	after := x.readSizes()
	x.account(x.sizes, after, since)
	x.sizes = after
	root, got, err := x.auditTree(x.keys)
	if err != nil {
		x.k.Fail("C03", "corrupt", "after updates the published root %x cannot be served: %v", short(root), err)
		x.k.Stop()
	}
	x.reg.add(got)
	x.last = got
	x.loose = true
}

// cancelServer ends the server's context, sometimes while updates run.
func (x *serverRun) cancelServer() {
	k, r := x.k, x.r
	if x.gone {
		x.restart()
		return
	}
	x.catchUp()
	srv := x.srv
	var tasks []*kit.Task
	n := r.Intn(3)
	for i := 0; i < n; i++ {
		tasks = append(tasks, k.Go(x.node, "caller", func() { srv.PruneAndUpdate(context.Background()) }))
	}
	k.WaitUntil(time.Duration(r.Intn(100))*time.Millisecond, func() bool { return false }, tasks...)
	k.Tracef("server context cancelled")
	x.cancel()
	x.gone = true
	var e error
	var p bool
	var ep error
	late := k.Go(x.node, "late caller", func() {
		time.Sleep(time.Duration(r.Intn(2000)) * time.Millisecond)
		e = srv.PruneAndUpdate(context.Background())
		p, ep = srv.PruneAndUpdateIfPossible(context.Background())
	})
	o := k.Wait(time.Hour, append(tasks, late, x.listen)...)
	k.Check()
	switch o {
	case kit.Done:
	case kit.Panicked:
		m, wh := kit.PanicText(kit.LastPanic)
		k.Fail("C07", "panic:"+wh, "stopping the server makes it panic: %s", m)
		k.Stop()
	default:
		k.Fail("C07", "stop-hang", "after the server context ended, calls into the server do not return (%s)", o)
		k.Stop()
	}
	if x.lErr != nil {
		k.Fail("C24", "listen-error", "listening ends with an error when the server context ends: %v", x.lErr)
	}
	_, _, _ = e, p, ep
	x.absorb()
	k.Cover("cancel")
	x.restart()
}

// policy stores a policy certificate through the updater, as the command line tool does.
func (x *serverRun) policy() {
	if len(x.u.pols) == 0 || x.gone {
		return
	}
	p := x.u.pols[x.r.Intn(len(x.u.pols))]
	srv := x.srv
	a := x.do(x.node, "insert policy", time.Hour, func() error {
		return updater.UpdateWithKeepExisting(context.Background(), srv.Conn, nil, nil, nil, nil, nil, []common.PolicyDocument{p.doc})
	})
	if !a.ok() {
		x.k.Fail("C01", "policy", "storing a policy fails although nothing went wrong: %s", a)
		return
	}
	x.m.addPolicy(p)
	x.loose = true
}
