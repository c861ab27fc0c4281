package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"runtime"
	"time"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/db/mysql"
	"github.com/netsec-ethz/fpki/pkg/grpc/grpcclient"
	"github.com/netsec-ethz/fpki/pkg/grpc/grpcserver"
	mapCommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/responder"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/verifsim/kit"
)

func init() {
	register(&scenario{name: "mapdb", run: mapdb, preempts: []uint64{0, 5, 50, 500}})
}

type mapOp struct {
	kind   string // ingest, overwrite, policies, prune, cycle, query, advance, restart
	leaves []*xcert
	pols   []*xpol
	d      time.Duration
	raw    bool // ingest: through UpdateCertsLocally
}

func (o *mapOp) String() string {
	if o.raw {
		return fmt.Sprintf("ingest raw %v", o.leaves)
	}
	switch o.kind {
	case "ingest", "overwrite":
		return fmt.Sprintf("%s %v %d policies", o.kind, o.leaves, len(o.pols))
	case "advance":
		return fmt.Sprintf("advance %s", o.d)
	}
	return o.kind
}

// mapdbRun is a map server's storage life: ingestion, pruning, map updates, queries, crashes.
type mapdbRun struct {
	*world
	u          *universe
	r          *kit.Rng
	m          *model // what has been stored by acknowledged operations
	reg        registry
	keys       []ID
	last       mapping // content of the published map
	pending    []*mapOp
	node       uint32
	conn       db.Conn
	resp       *responder.MapResponder
	faulty     bool
	cyclesOnly bool // faults in map updates only
	reader     bool
	stopRd     bool
	dirty      bool // operations acknowledged since the last cycle
	loose      bool // an operation failed and was not repeated yet
	now        func() time.Time
	forge      *forger
	grpc       bool // queries also over gRPC
	port       int
}

func mapdb(k *kit.Kit) {
	w := newWorld(k)
	r := k.Rand("mapdb")
	x := &mapdbRun{world: w, r: r, m: newModel(), reg: registry{}}
	now := time.Now()
	uc := uniConf{names: r.Range(2, 14), cas: r.Range(0, 5), leaves: r.Range(3, 30), pols: r.Intn(5),
		expMin: -5 * 24 * time.Hour, expMax: 40 * 24 * time.Hour, caExpMin: 24 * time.Hour, caExpMax: 100 * 24 * time.Hour,
		maxDepth: r.Range(1, 4), oddNames: r.Chance(1, 3), maxNames: r.Range(1, 6), twins: true, quirks: r.Chance(1, 3)}
	if k.Thorough() && r.Chance(1, 3) {
		uc.names, uc.leaves, uc.cas = r.Range(10, 60), r.Range(30, 150), r.Range(2, 9)
	}
	if r.Chance(1, 8) {
		uc.cas, uc.maxDepth, uc.long = r.Range(6, 14), 15, true
		k.Cover("long-chains")
	}
	big := k.Targets("C01") && r.Chance(1, 60)
	if big {
		uc.names, uc.leaves = r.Range(30, 200), []int{999, 1000, 1001, 1500, 2000}[r.Intn(5)]-uc.cas
	}
	if k.Targets("C04") {
		uc.expMin, uc.caExpMin, uc.caExpMax = -20*24*time.Hour, -5*24*time.Hour, 60*24*time.Hour
	}
	if r.Chance(1, 3) || k.Targets("C04") {
		localZone(k)
	}
	x.u = newUniverse(r, now, uc)
	x.keys = x.u.keys()
	x.last = mapping{}
	x.reg.add(x.last)
	if k.Targets("C05") {
		x.forge = &forger{w: w, r: k.Rand("forge"), reg: x.reg, pool: map[string][]*mapCommon.MapServerResponse{}, keys: x.keys}
	}
	w.fs.MkdirAll(mysql.TemporaryDir)

	switch {
	case k.Targets("C02"):
		x.faulty = true
		k.SetRate("db.write", []float64{0, .02, .1, .3}[r.Intn(4)])
		k.SetRate("db.read", []float64{0, 0, .02, .1}[r.Intn(4)])
		k.SetRate("db.inner", []float64{0, .05, .3}[r.Intn(3)])
		k.SetRate("db.dial", []float64{0, 0, .1}[r.Intn(3)])
		k.SetRate("db.seg", []float64{0, 0, .02}[r.Intn(3)])
		for _, s := range []string{"tmp.create", "tmp.open", "tmp.write", "tmp.close", "tmp.unlink"} {
			k.SetRate(s, []float64{0, 0, .05}[r.Intn(3)])
		}
		k.SetRate("proc", []float64{0, .1, .4}[r.Intn(3)])
		w.sql.KillClients = r.Chance(2, 3)
		k.SetBudget(r.Range(1, 6))
	case k.Targets("C03"):
		x.faulty = true
		x.cyclesOnly = r.Chance(2, 3)
		w.sql.KillClients = true
		k.SetRate("db.write", []float64{.1, .4}[r.Intn(2)])
		k.SetRate("db.read", []float64{0, .05}[r.Intn(2)])
		k.SetRate("proc", []float64{0, .2, .5}[r.Intn(3)])
		k.SetBudget(r.Range(1, 4))
	case k.Targets("C09"):
		x.faulty = true
		k.SetRate("db.read", []float64{.05, .2, .5}[r.Intn(3)])
		k.SetRate("db.seg", []float64{0, 0.05}[r.Intn(2)])
		k.SetBudget(r.Range(1, 8))
	case k.Targets("C06"), k.Targets("C05"):
		if r.Chance(1, 2) {
			x.faulty = true
			x.cyclesOnly = true
			k.SetRate("db.read", []float64{.1, .4}[r.Intn(2)])
			k.SetRate("db.write", []float64{0, .1}[r.Intn(2)])
			k.SetBudget(r.Range(1, 6))
		}
	case k.Targets("C04"), k.Targets("C08"):
		if r.Chance(1, 3) {
			x.faulty = true
			k.SetRate("db.write", .15)
			k.SetRate("db.inner", .3)
			k.SetBudget(r.Range(1, 3))
		}
	}
	switch {
	case x.faulty && r.Chance(1, 12) && (k.Targets("C02") || k.Targets("C03") || k.Targets("C09")):
		// Only the reading of the root fails, now and then: a process must not go on as if the tree were empty.
		k.ClearRates()
		w.sql.Focus = "root"
		w.sql.KillClients = false
		k.SetRate("db.read.focus", []float64{.1, .3, .6}[r.Intn(3)])
		k.SetLater("db.read.focus", r.Intn(8))
		k.Tracef("faults of reading the root")
	case k.Targets("C09"):
		w.focus("db.read")
	case x.faulty && !k.Targets("C05") && !k.Targets("C06"):
		w.files = true
		w.focus("db.write", "db.read")
	}
	k.Quiet(true)
	x.reader = k.Targets("C05") || k.Targets("C06")
	x.grpc = (x.reader || k.Targets("C09")) && r.Chance(1, 4)
	os.Args = os.Args[:1] // the gRPC packages parse the arguments
	x.port = 50050
	x.restart()
	nops := r.Range(4, 16)
	if big {
		nops = r.Range(3, 6)
	}
	for i := 0; i < nops; i++ {
		o := x.gen()
		if !k.Op(i, "%s", o) {
			continue
		}
		x.exec(o)
	}
	// Faults stop: whatever failed is repeated, and the next cycle has to bring everything out.
	k.Quiet(true)
	k.Tracef("faults stop; %d operations to repeat", len(x.pending))
	x.faulty = false
	for len(x.pending) > 0 {
		o := x.pending[0]
		x.pending = x.pending[1:]
		x.exec(o)
	}
	x.exec(&mapOp{kind: "cycle"})
	x.exec(&mapOp{kind: "query"})
	if len(x.last) >= 2 && len(k.Res.Ops) >= 2 {
		k.Res.Nontriv = true
	}
	if left := w.fs.List(mysql.TemporaryDir); len(left) > 0 && k.NFaults() == 0 {
		k.Fail("C17", "leftover", "temporary files left behind: %v", left)
	}
}

func (x *mapdbRun) gen() *mapOp {
	r := x.r
	k := x.k
	w := map[string]int{"ingest": 6, "overwrite": 1, "policies": 1, "prune": 1, "cycle": 4, "query": 1, "advance": 1, "restart": 1}
	switch {
	case k.Targets("C04"):
		w["prune"], w["advance"] = 5, 3
	case k.Targets("C03"):
		w["cycle"] = 8
	case k.Targets("C09"), x.reader:
		w["query"], w["cycle"] = 5, 6
	}
	if contains([]string{"root", "tree", "domain_payloads", "dirty", "CALL", "TRUNCATE"}, x.sql.Focus) {
		w["cycle"] = 9
	}
	tot := 0
	for _, n := range kit.SortedKeys(w) {
		tot += w[n]
	}
	c := r.Intn(tot)
	o := &mapOp{}
	for _, n := range kit.SortedKeys(w) {
		if c -= w[n]; c < 0 {
			o.kind = n
			break
		}
	}
	switch o.kind {
	case "ingest", "overwrite":
		n := r.Range(1, 8)
		if len(x.u.leaves) > 900 {
			n = len(x.u.leaves)
		}
		p := r.Perm(len(x.u.leaves))
		for i := 0; i < n && i < len(p); i++ {
			o.leaves = append(o.leaves, x.u.leaves[p[i]])
		}
		if r.Chance(1, 3) && len(x.u.cas) > 0 { // a CA certificate on its own
			o.leaves = append(o.leaves, x.u.cas[r.Intn(len(x.u.cas))])
		}
		if r.Chance(1, 5) && n < 100 { // the same certificate twice in a batch
			o.leaves = append(o.leaves, o.leaves[r.Intn(len(o.leaves))])
		}
		if r.Chance(1, 4) && len(x.u.pols) > 0 {
			o.pols = append(o.pols, x.u.pols[r.Intn(len(x.u.pols))])
		}
		o.raw = o.kind == "ingest" && len(o.pols) == 0 && r.Chance(1, 4) && wellFormed(o.leaves)
	case "policies":
		for _, i := range r.Perm(len(x.u.pols)) {
			o.pols = append(o.pols, x.u.pols[i])
			if r.Chance(1, 2) {
				break
			}
		}
	case "advance":
		o.d = time.Duration(r.Range(1, 1000)) * time.Duration([]int64{1e9, 60e9, 3600e9}[r.Intn(3)])
		if r.Chance(1, 2) && len(x.u.leaves) > 0 {
			// exactly to, or one second around, an expiration
			c := x.u.leaves[r.Intn(len(x.u.leaves))]
			if d := time.Unix(c.exp, 0).Sub(time.Now()) + time.Duration(r.Range(-1, 1))*time.Second; d > 0 && d < 60*24*time.Hour {
				o.d = d
			}
		}
	}
	return o
}

// restart starts a new process incarnation.
func (x *mapdbRun) restart() {
	if x.node != 0 {
		x.k.Kill(x.node)
	}
	q := x.k.IsQuiet()
	x.k.Quiet(true)
	x.node = x.k.NewNode()
	a := x.do(x.node, "start", time.Hour, func() error {
		c, err := mysql.Connect(dbConfig())
		if err != nil {
			return err
		}
		x.conn = c
		x.resp, err = responder.NewMapResponder(context.Background(), c, serverKey)
		return err
	})
	if a.ok() && x.grpc {
		a = x.serveGRPC()
	}
	x.k.Quiet(q)
	if !a.ok() {
		x.k.Fail("C03", "start", "a fresh process cannot start on the stored data: %s", a)
		x.k.Fail("", "start", "a fresh process cannot start on the stored data: %s", a)
		x.k.Stop()
	}
}

// serveGRPC starts a gRPC server, which keeps the map that is published now.
func (x *mapdbRun) serveGRPC() attempt {
	var srv *grpcserver.ResponderServer
	a := x.do(x.node, "start gRPC server", time.Hour, func() (err error) {
		srv, err = grpcserver.NewGRPCServer(context.Background(), x.conn, serverKey)
		return
	})
	if a.ok() {
		x.port++
		port := x.port
		x.k.Go(x.node, "gRPC server", func() { srv.StartWork(make(chan byte), port) })
		x.k.WaitUntil(time.Minute, func() bool { return x.net.Listening(fmt.Sprintf("127.0.0.1:%d", port)) })
	}
	return a
}

// getProof asks the responder, over gRPC or directly.
func (x *mapdbRun) getProof(r *kit.Rng, name string) ([]*mapCommon.MapServerResponse, string, error) {
	if x.grpc && r.Chance(1, 3) {
		resp, err := grpcclient.GetProofs(name, x.port)
		if err == nil {
			x.k.Cover("gRPC answer")
		} else {
			x.k.Cover("gRPC error")
		}
		return resp, "grpc-", err
	}
	resp, err := x.resp.GetProof(context.Background(), name)
	return resp, "", err
}

// exec runs one operation to the end, or leaves it pending when a fault made it fail.
func (x *mapdbRun) exec(o *mapOp) {
	k := x.k
	ctx := context.Background()
	switch o.kind {
	case "advance":
		k.Sleep(o.d)
		return
	case "restart":
		x.restart()
		return
	case "query":
		x.query()
		return
	case "cycle":
		x.cycle()
		return
	}
	nf := k.NFaults()
	k.Quiet(!x.faulty || x.cyclesOnly)
	x.mayCrash(x.node)
	var a attempt
	var pruneAt int64
	switch o.kind {
	case "ingest", "overwrite", "policies":
		a = x.do(x.node, o.kind, time.Hour, func() error {
			if o.raw {
				k.Cover("ingest-raw")
				var certs [][]byte
				chains := make([][][]byte, len(o.leaves))
				for i, c := range o.leaves {
					certs = append(certs, c.raw)
					for _, p := range c.chain() {
						chains[i] = append(chains[i], p.raw)
					}
				}
				return (&updater.MapUpdater{Conn: x.conn}).UpdateCertsLocally(ctx, certs, chains)
			}
			pols := make([]common.PolicyDocument, len(o.pols))
			for i, p := range o.pols {
				pols[i] = p.doc
			}
			leaves := make([]ctx509.Certificate, len(o.leaves))
			chains := make([][]*ctx509.Certificate, len(o.leaves))
			for i, c := range o.leaves {
				leaves[i] = *c.ct
				for _, p := range c.chain() {
					chains[i] = append(chains[i], p.ct)
				}
			}
			certs, ids, parents, names := util.UnfoldCerts(leaves, chains)
			exp := util.ExtractExpirations(certs)
			if o.kind == "overwrite" {
				return updater.UpdateWithOverwrite(ctx, x.conn, names, ids, parents, certs, exp, pols)
			}
			return updater.UpdateWithKeepExisting(ctx, x.conn, names, ids, parents, certs, exp, pols)
		})
	case "prune":
		a = x.do(x.node, "prune", time.Hour, func() error {
			now := time.Now()
			pruneAt = now.Unix()
			return x.conn.PruneCerts(ctx, now)
		})
	}
	x.calm()
	k.Quiet(true)
	if a.ok() {
		x.apply(o, pruneAt)
		x.dirty = true
		if runtime.VerifDead(x.node) {
			x.restart()
		}
		return
	}
	if k.NFaults() == nf {
		k.Fail("", "spurious:"+o.kind, "%s fails although nothing went wrong: %s", o, a)
		k.Stop()
	}
	k.Cover("failed:" + o.kind)
	x.loose = true
	x.pending = append(x.pending, o)
	if runtime.VerifDead(x.node) {
		k.Cover("crash:" + o.kind)
		x.restart()
	}
	if x.r.Chance(2, 3) {
		o := x.pending[len(x.pending)-1]
		x.pending = x.pending[:len(x.pending)-1]
		x.exec(o)
	}
}

// wellFormed tells whether all certificates and those of their chains can be parsed without warning.
func wellFormed(cs []*xcert) bool {
	for _, c := range cs {
		for _, p := range append([]*xcert{c}, c.chain()...) {
			if _, err := ctx509.ParseCertificate(p.raw); err != nil {
				return false
			}
		}
	}
	return true
}

func (x *mapdbRun) apply(o *mapOp, pruneAt int64) {
	for _, c := range o.leaves {
		x.m.addLeaf(c)
	}
	for _, p := range o.pols {
		x.m.addPolicy(p)
	}
	if o.kind == "prune" {
		if n := x.m.prune(pruneAt); n > 0 {
			x.k.Cover("pruned")
		}
	}
}

// cycle brings the stored certificates into the published map.
func (x *mapdbRun) cycle() {
	k := x.k
	ctx := context.Background()
	want := x.m.mapping()
	nf := k.NFaults()
	var stage string
	if len(x.pending) == 0 {
		x.reg.add(want)
	}
	var readers []*kit.Task
	x.stopRd = false
	strict := len(x.pending) == 0
	if x.reader && strict {
		for i := 0; i < x.r.Range(1, 3); i++ {
			readers = append(readers, x.startReader(i))
		}
	}
	// For C03 the faults often come in one chosen stage of the update only.
	focus := ""
	switch {
	case k.Targets("C03"):
		focus = x.r.Pick("", "smt", "smt", "smt", "cleanup", "reload")
	case k.Targets("C09"):
		focus = x.r.Pick("", "coalesce", "smt", "reload")
	case k.Targets("C06"), k.Targets("C05"):
		focus = x.r.Pick("", "cleanup", "reload", "reload")
	}
	k.SetLater("db.read", 0)
	if (k.Targets("C09") || k.Targets("C02") || k.Targets("C03")) && x.r.Chance(2, 3) {
		n := 1 + x.r.Intn(8)
		if x.r.Chance(1, 3) {
			n = x.r.Intn(60)
		}
		k.SetLater("db.read", n)
	}
	enter := func(s string) {
		stage = s
		if focus != "" {
			k.Quiet(!x.faulty || s != focus)
			if s == focus {
				x.mayCrash(x.node)
			} else {
				x.calm()
			}
		}
	}
	k.Quiet(!x.faulty)
	if focus == "" {
		x.mayCrash(x.node)
	}
	a := x.do(x.node, "cycle", time.Hour, func() error {
		enter("coalesce")
		if err := updater.CoalescePayloadsForDirtyDomains(ctx, x.conn); err != nil {
			return err
		}
		enter("smt")
		if err := updater.UpdateSMT(ctx, x.conn); err != nil {
			return err
		}
		enter("cleanup")
		if err := x.conn.CleanupDirty(ctx); err != nil {
			return err
		}
		enter("reload")
		return x.resp.ReloadRootAndSignTreeHead(ctx, serverKey)
	})
	x.calm()
	k.Quiet(true)
	x.stopRd = true
	k.Wait(time.Hour, readers...)
	crashed := runtime.VerifDead(x.node)
	if !a.ok() {
		if k.NFaults() == nf {
			k.Fail("", "spurious:cycle:"+stage, "the map update fails in stage %s although nothing went wrong: %s", stage, a)
			k.Stop()
		}
		k.Cover("failed:cycle:" + stage)
		if crashed {
			k.Cover("crash:cycle:" + stage)
		}
	}
	// Whatever happened, the published root has to lead to a complete map.
	root, got, err := x.auditTree(x.keys)
	k.Check()
	if err != nil {
		p := "C03"
		if k.NFaults() == 0 {
			p = "C01"
			k.Fail("C08", "corrupt", "after a map update without faults the stored tree is unusable: %v", err)
		}
		if k.Targets("C02") || k.Targets("C04") {
			p = k.Spec.Prop
		}
		k.Fail(p, "corrupt:"+stage, "after a map update that ended with %q in stage %q, the published root %x cannot be served: %v", a, stage, short(root), err)
		k.Stop()
	}
	k.State(kit.Hash64(string(root)))
	x.reg.add(got)
	if a.ok() && strict {
		if !eqMapping(got, want) {
			p, sig := "C01", "content"
			if k.NFaults() > 0 {
				p, sig = "C02", "content"
			}
			if k.Targets("C04") || k.Targets("C09") {
				p = k.Spec.Prop
			}
			k.Fail(p, sig, "after a complete map update the published map differs from the ingested data: %s", x.u.diffMapping(want, got))
			k.Stop()
		}
		x.dirty = false
	} else if !a.ok() && strict {
		if !eqMapping(got, want) && !eqMapping(got, x.last) {
			k.Fail("C03", "mixture", "after a map update that failed in stage %q the published map is neither the old nor the new one: %s", stage, x.u.diffMapping(want, got))
			k.Stop()
		}
	}
	x.last = got
	if k.Targets("C08") {
		x.exactNodes(got)
	}
	if crashed {
		x.restart()
	} else if x.reader {
		x.probe()
	}
	if !a.ok() && x.r.Chance(1, 2) {
		x.cycle()
	}
}

var errStop = errors.New("stop")

// exactNodes checks that the table of tree nodes holds what the tree of m consists of, and nothing else
// if nothing failed so far.
func (x *mapdbRun) exactNodes(m mapping) {
	k := x.k
	w := &trieWorld{k: k, r: k.Rand("exact"), content: m}
	ref := &treeStore{w: w, rows: map[ID][]byte{}}
	w.n = k.NewNode()
	k.Must(w.n, "reference tree", time.Hour, func() { w.build(ref) })
	k.Kill(w.n)
	n := 0
	rows, good := x.db.Rows("tree", "key32", "value")
	if !good {
		k.Inconclusive("the database schema is not the expected one")
	}
	for _, row := range rows {
		key, _ := toID(row[0])
		want, ok := ref.rows[key]
		value, _ := row[1].(string)
		switch {
		case ok && string(want) != value:
			k.Fail("C08", "rows", "the stored tree with %d keys: node %x differs", len(m), key[:4])
		case ok:
			n++
		case k.NFaults() == 0:
			k.Fail("C08", "garbage", "the stored tree with %d keys: node %x is not part of it", len(m), key[:4])
		}
	}
	k.Check()
	if n != len(ref.rows) {
		k.Fail("C08", "rows", "the stored tree with %d keys: %d of %d nodes are stored", len(m), n, len(ref.rows))
	}
}

// startReader queries the responder while the map is being updated.
func (x *mapdbRun) startReader(i int) *kit.Task {
	r := x.k.Rand(fmt.Sprintf("reader%d-%d", i, len(x.k.Res.Trace)))
	// Some readers are another map server, started while the map is being updated.
	fresh := r.Chance(1, 3)
	return x.k.Go(x.node, "reader", func() {
		for n := 0; !x.stopRd && n < 400; n++ {
			name := x.pickName(r)
			var resp []*mapCommon.MapServerResponse
			var how string
			var err error
			if fresh {
				var rs *responder.MapResponder
				if rs, err = responder.NewMapResponder(context.Background(), x.conn, serverKey); err == nil {
					x.k.Cover("started-during-update")
					how = "fresh-"
					resp, err = rs.GetProof(context.Background(), name)
				}
			} else {
				resp, how, err = x.getProof(r, name)
			}
			if err != nil {
				x.k.Cover("query-error-during-update")
				continue
			}
			x.k.Cover("query-during-update")
			for _, p := range resp {
				x.judge(x.reg, p, how+"during-update")
			}
			if x.forge != nil {
				x.forge.learn(resp...)
			}
			time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
		}
	})
}

func (x *mapdbRun) pickName(r *kit.Rng) string {
	if r.Chance(1, 4) {
		return x.u.absent[r.Intn(len(x.u.absent))]
	}
	return x.u.names[r.Intn(len(x.u.names))]
}

// probe asks the running responder, whatever it currently serves, sometimes while it reloads.
func (x *mapdbRun) probe() {
	k, r := x.k, x.r
	ctx := context.Background()
	var tasks []*kit.Task
	if r.Chance(1, 3) {
		k.Quiet(!x.faulty)
		for i := 0; i < r.Range(1, 3); i++ {
			tasks = append(tasks, k.Go(x.node, "reload", func() {
				if err := x.resp.ReloadRootAndSignTreeHead(ctx, serverKey); err != nil {
					k.Cover("failed-reload")
				}
			}))
		}
	}
	for i := 0; i < r.Range(1, 3); i++ {
		qr := kit.NewRng(r.U64())
		tasks = append(tasks, k.Go(x.node, "probe", func() {
			for n := 0; n < 10; n++ {
				resp, how, err := x.getProof(qr, x.pickName(qr))
				if err != nil {
					k.Cover("query-error")
					continue
				}
				for _, p := range resp {
					x.judge(x.reg, p, how+"after-update")
				}
			}
		}))
	}
	k.MustDone(k.Wait(time.Hour, tasks...), "queries", time.Hour)
	k.Quiet(true)
}

// query asks a freshly started responder about every name.
func (x *mapdbRun) query() {
	k := x.k
	ctx := context.Background()
	if x.dirty || x.loose || len(x.pending) > 0 {
		return
	}
	if !eqMapping(x.last, x.m.mapping()) {
		return
	}
	nf := k.NFaults()
	k.Quiet(!k.Targets("C09"))
	k.SetLater("db.read", x.r.Intn(40))
	all := append(append([]string{}, x.u.names...), x.u.absent...)
	x.do(x.node, "query", 10*time.Hour, func() error {
		for _, n := range all {
			resp, err := x.resp.GetProof(ctx, n)
			if err != nil {
				if k.NFaults() == nf && validName(n) {
					k.Fail("C05", "query-error", "query for %q fails although nothing went wrong: %v", n, err)
				}
				continue
			}
			x.expectHonest(x.m, n, resp, "at-rest")
			if x.forge != nil {
				x.forge.learn(resp...)
			}
		}
		return nil
	})
	if x.grpc {
		a := x.serveGRPC()
		if !a.ok() && k.NFaults() == nf {
			k.Fail("C05", "grpc-start", "starting a gRPC server fails although nothing went wrong: %s", a)
		}
		if a.ok() {
			x.do(x.node, "query over gRPC", 10*time.Hour, func() error {
				for _, n := range all {
					resp, err := grpcclient.GetProofs(n, x.port)
					if err != nil {
						if k.NFaults() == nf && validName(n) {
							k.Fail("C05", "grpc-error", "the gRPC query for %q fails although nothing went wrong: %v", n, err)
						}
						continue
					}
					k.Cover("gRPC answer")
					x.expectHonest(x.m, n, resp, "grpc")
				}
				return nil
			})
		}
	}
	x.payloads(nf)
	k.Quiet(true)
	if x.forge != nil {
		x.forge.attack(300)
	}
}
