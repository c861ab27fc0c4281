package main

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/base64"
	"encoding/csv"
	"errors"
	"fmt"
	"path"
	"reflect"
	"runtime"
	"strings"
	"time"
	"unsafe"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/netsec-ethz/fpki/pkg/mapserver/logfetcher"
	"github.com/netsec-ethz/fpki/verifsim/kit"
)

func init() {
	register(&scenario{name: "httpfetch", run: httpFetchScenario, preempts: []uint64{0, 3, 20, 200}})
	register(&scenario{name: "localfetch", run: localFetchScenario, preempts: []uint64{0, 3, 20, 200}})
}

// setInt sets an integer field of a struct under test, if it has one of that name: smaller internal
// batch sizes reach the same code with less data.
func setInt(p any, name string, v int64) bool {
	f := reflect.ValueOf(p).Elem().FieldByName(name)
	if !f.IsValid() {
		return false
	}
	f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
	switch f.Kind() {
	case reflect.Int, reflect.Int64, reflect.Int32:
		f.SetInt(v)
	case reflect.Uint, reflect.Uint64, reflect.Uint32:
		f.SetUint(uint64(v))
	default:
		return false
	}
	return true
}

func sameChain(got []*ctx509.Certificate, want []*xcert) bool {
	if len(got) != len(want) {
		return false
	}
	for i, g := range got {
		if g == nil || !bytes.Equal(g.Raw, want[i].raw) {
			return false
		}
	}
	return true
}

// httpFetchScenario drives HTTP log fetchers against simulated CT logs.
func httpFetchScenario(k *kit.Kit) {
	w := newWorld(k)
	r := k.Rand("httpfetch")
	if r.Chance(1, 4) {
		localZone(k)
	}
	u := newUniverse(r, time.Now(), uniConf{names: r.Range(2, 8), cas: r.Range(1, 4), leaves: r.Range(3, 20),
		expMin: -24 * time.Hour, expMax: 24 * time.Hour, caExpMin: time.Hour, caExpMax: 48 * time.Hour, maxDepth: r.Range(1, 4), maxNames: 3, quirks: true, twins: true})
	w.net.FaultSite = func(a string) string {
		if strings.HasPrefix(a, "ct") {
			return "ctnet"
		}
		return ""
	}
	if faulty := r.Chance(3, 4); faulty {
		k.SetRate("ct.entries", []float64{0, .02, .1, .3}[r.Intn(4)])
		k.SetRate("ct.sth", []float64{0, .1, .3}[r.Intn(3)])
		k.SetRate("ctnet.dial", []float64{0, .1}[r.Intn(2)])
		k.SetRate("ctnet.seg", []float64{0, .02}[r.Intn(2)])
		k.SetBudget(r.Range(1, 10))
	}
	node := k.NewNode()
	base := runtime.VerifCount(node)
	var tasks []*kit.Task
	nf := r.Range(1, 2)
	for i := 0; i < nf; i++ {
		l := newCTLog(w, i)
		if r.Chance(2, 3) {
			l.maxResp = []int{1, 2, 3, 7, 50, 127, 128}[r.Intn(7)]
		}
		n := r.Range(0, 40)
		sb, pb := int64(0), int64(0)
		switch r.Intn(6) {
		case 0:
			n = r.Range(100, 400)
		case 1, 2, 3:
			sb = int64(r.Range(1, 9))
			pb = sb * int64(r.Range(1, 5))
			n = r.Range(0, 120)
		}
		if k.Thorough() && r.Chance(1, 60) {
			n, l.maxResp = 16384+r.Range(-1, 200), 1000
		}
		l.grow(pickEntries(r, u, n)...)
		d := &httpDriver{k: k, l: l, r: kit.NewRng(r.U64()), base: i * 100, sb: sb, pb: pb}
		tasks = append(tasks, k.Go(node, fmt.Sprintf("fetcher %d", i), d.run))
	}
	k.MustDone(k.Wait(24*time.Hour, tasks...), "fetching", 24*time.Hour)
	// Nothing keeps talking to the logs after everything was stopped.
	if k.Res.Verdict == "" {
		k.Quiet(true)
		k.Sleep(5 * time.Minute) // idle connections are closed meanwhile
		if n := runtime.VerifCount(node); n > base {
			k.Dump()
			k.Fail("C21", "goroutines", "%d goroutines of the fetchers are still there long after they were stopped", n-base)
		}
		k.Res.Nontriv = len(k.Res.Ops) >= 2
	}
}

type httpDriver struct {
	k      *kit.Kit
	l      *ctlog
	r      *kit.Rng
	f      *logfetcher.HttpLogFetcher
	base   int
	sb, pb int64
}

func (d *httpDriver) run() {
	k, r, l := d.k, d.r, d.l
	f, err := logfetcher.NewHttpLogFetcher(l.url())
	if err != nil {
		k.Fail("C21", "new", "NewHttpLogFetcher: %v", err)
		return
	}
	d.f = f
	if d.sb > 0 {
		if setInt(f, "serverBatchSize", d.sb) && setInt(f, "processBatchSize", d.pb) {
			k.Cover("small-batches")
		}
	}
	ctx := context.Background()
	open := false
	nops := r.Range(2, 7)
	for i := 0; i < nops; i++ {
		n := l.size()
		kind := r.Pick("state", "full", "full", "full", "all", "partial", "partial", "deadline", "empty", "grow", "pause")
		s := r.Intn(n + 1)
		e := s + r.Intn(n+1-s) - 1
		if r.Chance(1, 2) && n > 0 {
			s, e = r.Intn(2), n-1
		}
		stop := r.Chance(1, 2)
		m := r.Intn(3)
		dl := time.Duration(r.Range(1, 3000)) * time.Millisecond
		es := pickEntries(r, nil2(l), r.Range(1, 20))
		dur := time.Duration(r.Range(1, 20)) * time.Second
		if !k.Op(d.base+i, "log %d: %s [%d,%d] of %d, stop %v", l.i, kind, s, e, n, stop) {
			continue
		}
		nf := k.NFaults()
		switch kind {
		case "grow":
			l.grow(es...)
		case "pause":
			time.Sleep(dur)
		case "state":
			t0 := time.Now()
			st, err := f.GetCurrentState(ctx, logfetcher.State{})
			k.Check()
			if err != nil {
				if k.NFaults() == nf {
					k.Fail("C21", "state-spurious", "GetCurrentState fails although nothing went wrong: %v", err)
				}
			} else if !l.served[int(st.Size)] || !bytes.Equal(st.STH, l.sig(int(st.Size))) {
				k.Fail("C21", "state", "GetCurrentState returns size %d with head %q, which the log did not answer", st.Size, st.STH)
			}
			if d := time.Since(t0); d > 45*time.Second {
				k.Fail("C21", "state-slow", "GetCurrentState takes %s", d)
			}
			continue
		case "all":
			if e < s {
				continue
			}
			var certs []ctx509.Certificate
			var chains [][]*ctx509.Certificate
			c, cancel := ctx, context.CancelFunc(func() {})
			if stop {
				c, cancel = context.WithTimeout(ctx, dl)
			}
			certs, chains, _, err = f.FetchAllCertificates(c, int64(s), int64(e))
			late := c.Err() != nil
			cancel()
			if late && errors.Is(err, context.DeadlineExceeded) {
				k.Cover("all-deadline")
				d.judge("FetchAllCertificates", s, e, certs, chains, nil, false, nf, true)
			} else {
				d.judge("FetchAllCertificates", s, e, certs, chains, err, true, nf, false)
			}
			open = false
			if err != nil {
				// Only the request in progress may still end: nothing is left of the fetch.
				time.Sleep(50 * time.Second)
				n0 := l.nEntries
				time.Sleep(50 * time.Second)
				k.Check()
				if l.nEntries != n0 {
					k.Fail("C21", "all-not-stopped", "log %d still gets requests for entries long after FetchAllCertificates failed with %v", l.i, err)
				}
			}
		case "empty":
			f.StartFetching(int64(s), int64(s)-1)
			d.drain(ctx, s, s-1, -1, k.NFaults(), false)
			open = false
		case "full":
			f.StartFetching(int64(s), int64(e))
			d.drain(ctx, s, e, -1, nf, false)
			open = false
			if stop {
				f.StopFetching()
			}
		case "deadline":
			f.StartFetching(int64(s), int64(e))
			c, cancel := context.WithTimeout(ctx, dl)
			d.drain(c, s, e, -1, nf, true)
			cancel()
			open = true
			if stop {
				f.StopFetching()
				open = false
			}
		case "partial":
			f.StartFetching(int64(s), int64(e))
			d.drain(ctx, s, e, m, nf, false)
			open = true
			if stop {
				f.StopFetching()
				open = false
			}
		}
	}
	if open {
		f.StopFetching()
	}
	time.Sleep(50 * time.Second)
	n0 := l.nEntries
	time.Sleep(30 * time.Second)
	k.Check()
	if l.nEntries != n0 {
		k.Fail("C21", "not-stopped", "log %d still gets requests for entries long after the fetch was stopped", l.i)
	}
}

func nil2(l *ctlog) *universe {
	u := &universe{}
	for _, e := range l.entries {
		u.leaves = append(u.leaves, e.cert)
	}
	if len(u.leaves) == 0 {
		return l.w.fallback()
	}
	return u
}

// fallback is a minimal universe.
func (w *world) fallback() *universe {
	return newUniverse(kit.NewRng(1), time.Now(), uniConf{names: 2, cas: 1, leaves: 3, expMin: time.Hour, expMax: 2 * time.Hour, caExpMin: 2 * time.Hour, caExpMax: 3 * time.Hour, maxDepth: 1, maxNames: 2})
}

// drain reads the batches of a fetch: at most max of them (all if negative).
func (d *httpDriver) drain(ctx context.Context, s, e, max, nf int, dead bool) {
	k, f := d.k, d.f
	var certs []ctx509.Certificate
	var chains [][]*ctx509.Certificate
	var last error
	ended := false
	for n := 0; max < 0 || n < max; n++ {
		t0 := time.Now()
		reqs := d.l.nEntries
		ok := f.NextBatch(ctx)
		// Every request ends after 10 s at most.
		if el, lim := time.Since(t0), time.Duration(d.l.nEntries-reqs+2)*15*time.Second; el > lim {
			k.Fail("C21", "slow", "NextBatch needs %s for %d requests", el, d.l.nEntries-reqs)
		}
		if !ok {
			ended = true
			break
		}
		c, ch, ex, err := f.ReturnNextBatch()
		if err != nil {
			last = err
			if dead && ctx.Err() != nil && errors.Is(err, ctx.Err()) {
				k.Cover("deadline")
				d.judge("batches", s, e, certs, chains, nil, false, nf, true)
				return
			}
			c2, cancel := context.WithTimeout(context.Background(), time.Minute)
			if f.NextBatch(c2) {
				_, _, _, err2 := f.ReturnNextBatch()
				k.Fail("C21", "after-error", "NextBatch returns more after the fetch failed with %v (%v)", err, err2)
			}
			cancel()
			ended = true
			break
		}
		if ex != 0 {
			k.Fail("C21", "excluded", "%d certificates of a CT log server are reported as excluded", ex)
		}
		if len(c) == 0 {
			k.Fail("C21", "empty-batch", "NextBatch announces a batch, but it is empty")
		}
		certs, chains = append(certs, c...), append(chains, ch...)
		if n > e-s+5 && n > 5 {
			k.Fail("C21", "endless", "%d batches for %d entries", n, e-s+1)
			return
		}
	}
	d.judge("batches", s, e, certs, chains, last, ended, nf, dead)
}

// judge compares what a fetch returned with the log.
func (d *httpDriver) judge(what string, s, e int, certs []ctx509.Certificate, chains [][]*ctx509.Certificate, err error, ended bool, nf int, dead bool) {
	k, l := d.k, d.l
	k.Check()
	want := max(0, e-s+1)
	if len(certs) != len(chains) {
		k.Fail("C21", "lengths", "%s of [%d,%d]: %d certificates with %d chains", what, s, e, len(certs), len(chains))
		return
	}
	if len(certs) > want {
		k.Fail("C21", "too-many", "%s of [%d,%d]: %d certificates", what, s, e, len(certs))
		return
	}
	for i := range certs {
		en := l.entries[s+i]
		if !bytes.Equal(certs[i].Raw, en.cert.raw) || !sameChain(chains[i], en.cert.chain()) {
			k.Fail("C21", "wrong-entry", "%s of [%d,%d]: position %d holds something else than entry %d of the log", what, s, e, i, s+i)
			return
		}
	}
	if err == nil && ended && len(certs) != want {
		k.Fail("C21", "incomplete", "%s of [%d,%d] ends without an error after %d of %d entries", what, s, e, len(certs), want)
	}
	if err != nil && k.NFaults() == nf && !dead {
		k.Fail("C21", "spurious", "%s of [%d,%d] fails although nothing went wrong: %v", what, s, e, err)
	}
	if err != nil {
		k.Cover("fetch-error")
	} else if ended {
		k.Cover("fetch-complete")
		k.State(uint64(want))
	} else {
		k.Cover("fetch-partial")
	}
}

// ---- local folder

type csvRow struct {
	c   *xcert
	exp int64 // expiration in the last column
	bad int   // kind of damage
}

type csvBundle struct {
	start, end int
	rows       []csvRow
	path       string
	gz         bool
	broken     bool
}

func csvFields(row csvRow, r *kit.Rng, kind int) []string {
	var ch []string
	for _, p := range row.c.chain() {
		ch = append(ch, base64.StdEncoding.EncodeToString(p.raw))
	}
	f := []string{"id", "1", "2", base64.StdEncoding.EncodeToString(row.c.raw), strings.Join(ch, ";"), "x,\"y\"", "z", fmt.Sprintf("%d.0", row.exp)}
	if r.Chance(1, 6) { // an unescaped SAN field
		f = append(f[:6], append([]string{"more", "columns"}, f[6:]...)...)
	}
	switch kind {
	case 1:
		f = f[:3]
	case 2:
		f[3] = "%%%"
	case 3:
		f[len(f)-1] = "never"
	case 4:
		f[4] = "AAAA;" + f[4]
	case 5:
		f[3] = base64.StdEncoding.EncodeToString(row.c.raw[:len(row.c.raw)-2])
	case 6:
		f[len(f)-1] = "99x.0"
	case 7:
		f[4] = strings.TrimPrefix(f[4]+";", ";") + base64.StdEncoding.EncodeToString(damage(row.c.raw, len(row.c.raw)))
	}
	return f
}

func (b *csvBundle) encode(r *kit.Rng) []byte {
	var buf bytes.Buffer
	cw := csv.NewWriter(&buf)
	for _, row := range b.rows {
		cw.Write(csvFields(row, r, row.bad))
	}
	cw.Flush()
	if r.Chance(1, 2) {
		buf.WriteString("\n")
	}
	if !b.gz {
		return buf.Bytes()
	}
	var z bytes.Buffer
	zw := gzip.NewWriter(&z)
	zw.Write(buf.Bytes())
	zw.Close()
	return z.Bytes()
}

// localFetchScenario drives a local log fetcher over folders of CSV files.
func localFetchScenario(k *kit.Kit) {
	w := newWorld(k)
	r := k.Rand("localfetch")
	if r.Chance(1, 4) {
		localZone(k)
	}
	u := newUniverse(r, time.Now(), uniConf{names: r.Range(2, 8), cas: r.Range(1, 4), leaves: r.Range(3, 20),
		expMin: -48 * time.Hour, expMax: 48 * time.Hour, caExpMin: time.Hour, caExpMax: 48 * time.Hour, maxDepth: r.Range(1, 4), maxNames: 3, quirks: true, twins: true})
	w.fs.SiteOf = func(p string) string {
		if strings.HasPrefix(p, "/data/csv") {
			return "csv"
		}
		return ""
	}
	if r.Chance(1, 2) {
		k.SetRate("csv.open", []float64{0, .05, .2}[r.Intn(3)])
		k.SetRate("csv.read", []float64{0, .05, .2}[r.Intn(3)])
		k.SetRate("csv.readdir", []float64{0, .05, .2}[r.Intn(3)])
		k.SetBudget(r.Range(1, 6))
	}
	d := &localDriver{k: k, w: w, r: r, u: u, max: []int{1, 10, 40, 1000}[r.Intn(4)]}
	d.genFiles(r.Range(0, 6))
	node := k.NewNode()
	base := runtime.VerifCount(node)
	k.MustDone(k.Wait(400*time.Hour, k.Go(node, "local fetcher", d.run)), "fetching", 400*time.Hour)
	if k.Res.Verdict == "" {
		k.Sleep(time.Minute)
		if n := runtime.VerifCount(node); n > base {
			k.Dump()
			k.Fail("C22", "goroutines", "%d goroutines of the fetcher are still there long after it was stopped", n-base)
		}
	}
	k.Res.Nontriv = d.total > 0
}

type localDriver struct {
	k       *kit.Kit
	w       *world
	r       *kit.Rng
	u       *universe
	bundles []*csvBundle
	next    int
	max     int
	total   int
}

// genFiles adds n files to the folder.
func (d *localDriver) genFiles(n int) {
	r := d.r
	d.w.fs.MkdirAll("/data/csv")
	for i := 0; i < n; i++ {
		if r.Chance(1, 8) {
			d.next += r.Range(1, 5) // a gap
		}
		b := &csvBundle{start: d.next, gz: r.Chance(1, 2)}
		rows := r.Range(1, 25)
		for j := 0; j < rows; j++ {
			c := d.u.leaves[r.Intn(len(d.u.leaves))]
			row := csvRow{c: c, exp: c.exp}
			if r.Chance(1, 20) {
				row.exp += int64(r.Pick2(-200*3600, 200*3600, -1, 1)) // the column disagrees with the certificate
			}
			b.rows = append(b.rows, row)
		}
		b.end = b.start + rows - 1
		d.next = b.end + 1
		if kind, j := r.Range(1, 7), r.Intn(rows); r.Chance(1, 8) {
			b.rows[j].bad = kind
			b.rows[j].exp = time.Now().Unix() + 90*24*3600
			d.k.Cover("bad-row")
		}
		ext := ".csv"
		if b.gz {
			ext = ".gz"
		}
		dir := "/data/csv"
		if r.Chance(1, 2) {
			dir = path.Join(dir, r.Pick("bundled", "0", "0/1"))
		}
		b.path = path.Join(dir, fmt.Sprintf("%d-%d%s", b.start, b.end, ext))
		data := b.encode(r)
		if b.gz && r.Chance(1, 12) {
			data = data[:len(data)-r.Range(1, min(len(data)-1, 40))]
			b.broken = true
			d.k.Cover("truncated-gz")
		}
		d.w.fs.Put(b.path, data)
		d.bundles = append(d.bundles, b)
	}
}

// chainFrom lists the files that continue at start.
func (d *localDriver) chainFrom(start int) (l []*csvBundle) {
	for {
		var nx *csvBundle
		for _, b := range d.bundles {
			if b.start == start {
				nx = b
			}
		}
		if nx == nil {
			return
		}
		l = append(l, nx)
		start = nx.end + 1
	}
}

func (d *localDriver) run() {
	k, r := d.k, d.r
	ctx := context.Background()
	f, err := logfetcher.NewLocalLogFetcher("local", "/data/csv", uint64(d.max))
	if err != nil {
		k.Fail("C22", "new", "NewLocalLogFetcher: %v", err)
		return
	}
	if r.Chance(1, 2) {
		setInt(f, "processBatchSize", int64(r.Range(1, 12)))
	}
	size := 0
	nops := r.Range(2, 6)
	for i := 0; i < nops; i++ {
		kind := r.Pick("cycle", "cycle", "cycle", "files", "partial", "advance")
		nfiles, adv := r.Range(1, 3), time.Duration(r.Range(1, 24))*time.Hour
		edge, off := r.Chance(1, 2), time.Duration(r.Pick2(-1, 0, 0, 1, -1e9, 1e9, -3e10, 3e10))
		pick := r.Intn(1 << 20)
		if !k.Op(i, "%s from %d", kind, size) {
			continue
		}
		switch kind {
		case "files":
			d.genFiles(nfiles)
			continue
		case "advance":
			time.Sleep(adv)
			continue
		}
		nf := k.NFaults()
		now := time.Now()
		if l := d.chainFrom(size); edge && len(l) > 0 {
			// The cycle starts around the expiration of one of the rows.
			b := l[pick%len(l)]
			row := b.rows[pick%len(b.rows)]
			if t := time.Unix(min(row.exp, row.c.exp), 0).Add(off); t.Before(now.Add(1000 * time.Hour)) {
				now = t
			}
		}
		if err := f.Initialize(now); err != nil {
			if k.NFaults() == nf {
				k.Fail("C22", "init-spurious", "Initialize fails although nothing went wrong: %v", err)
			}
			continue
		}
		st, err := f.GetCurrentState(ctx, logfetcher.State{Size: uint64(size), STH: []byte("old")})
		if err != nil {
			k.Fail("C22", "state-error", "GetCurrentState: %v", err)
			continue
		}
		want := size
		var files []*csvBundle
		for i, b := range d.chainFrom(size) {
			if i > 0 && b.end-size+1 > d.max {
				break
			}
			want = b.end + 1
			files = append(files, b)
		}
		k.Check()
		if int(st.Size) != want {
			k.Fail("C22", "state", "the folder continues from %d up to %d (at most %d rows), but GetCurrentState reports %d", size, want, d.max, st.Size)
			return
		}
		if want == size {
			if kind == "cycle" {
				f.StopFetching()
			}
			continue
		}
		f.StartFetching(int64(size), int64(want)-1)
		ok, done := d.drain(f, files, now, kind == "partial", nf)
		if done {
			if ok {
				size = want
			}
			f.StopFetching()
		}
	}
	f.StopFetching()
}

// drain reads the batches and compares them with the files. It reports whether the fetch succeeded
// and whether it ended.
func (d *localDriver) drain(f *logfetcher.LocalLogFetcher, files []*csvBundle, now time.Time, partial bool, nf int) (bool, bool) {
	k, r := d.k, d.r
	want := map[string]int{}
	key := func(raw []byte, chain [][]byte) string {
		return string(raw) + "|" + string(bytes.Join(chain, []byte("|")))
	}
	rows, expired, broken := 0, 0, false
	for _, b := range files {
		broken = broken || b.broken
		for _, row := range b.rows {
			rows++
			if row.bad > 0 && (row.bad != 4 && row.bad != 7 || !now.After(time.Unix(row.c.exp, 0))) {
				broken = true // chains are only parsed for unexpired certificates
			}
			if now.After(time.Unix(row.c.exp, 0)) || now.After(time.Unix(row.exp, 0)) {
				expired++
				continue
			}
			var ch [][]byte
			for _, p := range row.c.chain() {
				ch = append(ch, p.raw)
			}
			want[key(row.c.raw, ch)]++
		}
	}
	d.total += rows
	n, excl := 0, 0
	for b := 0; ; b++ {
		if partial && r.Chance(1, 3) {
			k.Cover("fetch-partial")
			return false, false
		}
		ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
		ok := f.NextBatch(ctx)
		cancel()
		if !ok {
			break
		}
		certs, chains, ex, err := f.ReturnNextBatch()
		if err != nil {
			k.Cover("fetch-error")
			if ctx.Err() == context.DeadlineExceeded {
				k.Fail("C22", "hang", "no batch within a minute")
				return false, true
			}
			if k.NFaults() == nf && !broken {
				k.Fail("C22", "spurious", "fetching local files fails although nothing went wrong: %v", err)
			}
			return false, true
		}
		if len(certs) != len(chains) || len(certs)+ex == 0 {
			k.Fail("C22", "lengths", "a batch of %d certificates with %d chains and %d excluded", len(certs), len(chains), ex)
			return false, true
		}
		excl += ex
		for i := range certs {
			var ch [][]byte
			for _, p := range chains[i] {
				ch = append(ch, p.Raw)
			}
			kk := key(certs[i].Raw, ch)
			if want[kk] == 0 {
				k.Fail("C22", "unexpected", "a batch holds a certificate with a chain that the files do not hold (again)")
				return false, true
			}
			want[kk]--
			n++
		}
	}
	k.Check()
	k.Cover("fetch-complete")
	if broken {
		// Rows that cannot be used may be skipped only if they are expired.
		k.Fail("C22", "silent", "files with unusable content are fetched without an error")
		return false, true
	}
	if n+excl != rows || excl != expired {
		k.Fail("C22", "incomplete", "the files hold %d rows (%d expired); fetched %d, excluded %d, without an error", rows, expired, n, excl)
		return false, true
	}
	k.State(uint64(rows)<<32 | uint64(expired))
	return true, true
}
