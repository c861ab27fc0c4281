package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"net/http"
	"runtime"
	"strconv"
	"time"

	ct "github.com/google/certificate-transparency-go"
	"github.com/google/certificate-transparency-go/tls"
	"github.com/netsec-ethz/fpki/verifsim/kit"
)

// ctEntry is one entry of a CT log.
type ctEntry struct {
	cert    *xcert
	precert bool
}

// ctlog is a simulated CT log server.
type ctlog struct {
	w       *world
	i       int
	host    string
	node    uint32
	rng     *kit.Rng
	entries []ctEntry
	// Legitimate behaviour.
	maxResp int  // entries per answer at most
	lag     bool // frontends may answer with an older tree head
	oldSTH  []int
	// Observations.
	nSTH, nEntries int
	sthAt          []time.Time
	served         map[int]bool // sizes ever answered in a tree head
	held           int          // requests being held
	hold           bool         // hold the tree head requests
	inFlight       int
	ranges         [][2]int
	reqs           func(path string)
	// A log whose entries come from files of a folder instead of a server.
	folder string
	rows   int // limit of rows per update
	files  []*localFile
	tried  map[int]bool // entries that an update may have stored
}

// localFile is a bundle file of a log's folder. Hidden ones are not there yet.
type localFile struct {
	start, end int
	path       string
	data       []byte
	hidden     bool
}

func newCTLog(w *world, i int) *ctlog {
	l := &ctlog{w: w, i: i, host: fmt.Sprintf("ct%d.sim:80", i), rng: w.k.Rand(fmt.Sprintf("ct%d", i)), maxResp: 1000, served: map[int]bool{}}
	l.node = w.k.NewNode()
	mux := http.NewServeMux()
	mux.HandleFunc("/log/ct/v1/get-sth", l.getSTH)
	mux.HandleFunc("/log/ct/v1/get-entries", l.getEntries)
	srv := &http.Server{Handler: mux}
	ready := false
	w.k.Go(l.node, "ct log", func() {
		ln := w.net.Listen(l.host)
		ready = true
		srv.Serve(ln)
	})
	w.k.WaitUntil(time.Second, func() bool { return ready })
	return l
}

func (l *ctlog) url() string { return "http://" + l.host + "/log" }

// newLocalLog makes a log whose entries are read from a folder.
func newLocalLog(w *world, i, rows int) *ctlog {
	l := &ctlog{w: w, i: i, host: fmt.Sprintf("ct%d.sim:80", i), rng: w.k.Rand(fmt.Sprintf("ct%d", i)), served: map[int]bool{}, tried: map[int]bool{},
		folder: fmt.Sprintf("/data/csv%d", i), rows: rows}
	w.fs.MkdirAll(l.folder)
	return l
}

// size is the number of entries that can be had from the log.
func (l *ctlog) size() int {
	if l.folder == "" {
		return len(l.entries)
	}
	n := 0
	for _, f := range l.files {
		if f.hidden {
			break
		}
		n = f.end
	}
	return n
}

// target is the size that an update reaches which starts at the recorded size.
func (l *ctlog) target(from int) int {
	if l.folder == "" {
		return l.size()
	}
	n := from
	for _, f := range l.files {
		if f.start < from {
			continue
		}
		if f.hidden || (n > from && f.end-from > l.rows) {
			break
		}
		n = f.end
	}
	return n
}

// addFiles puts entries in files of the folder.
func (l *ctlog) addFiles(es []ctEntry) {
	r := l.rng
	for len(es) > 0 {
		n := r.Range(1, len(es))
		b := &csvBundle{gz: r.Chance(1, 2)}
		for _, e := range es[:n] {
			b.rows = append(b.rows, csvRow{c: e.cert, exp: e.cert.exp})
		}
		f := &localFile{start: len(l.entries), end: len(l.entries) + n, data: b.encode(r), hidden: r.Chance(1, 6)}
		f.path = fmt.Sprintf("%s/%s%d-%d%s", l.folder, r.Pick("", "bundled/", "a/b/"), f.start, f.end-1, map[bool]string{true: ".gz", false: ".csv"}[b.gz])
		l.entries = append(l.entries, es[:n]...)
		es = es[n:]
		l.files = append(l.files, f)
		if !f.hidden {
			l.w.fs.Put(f.path, f.data)
		}
		l.w.k.Tracef("local log %d: file %s, hidden %v", l.i, f.path, f.hidden)
	}
	l.serve()
}

// unhide puts the missing files in place.
func (l *ctlog) unhide() {
	for _, f := range l.files {
		if f.hidden {
			f.hidden = false
			l.w.fs.Put(f.path, f.data)
		}
	}
	if l.folder != "" {
		l.serve()
	}
}

func (l *ctlog) serve() {
	for _, f := range l.files {
		if f.hidden {
			break
		}
		l.served[f.end] = true
	}
}

// sig is the (simulated) signature of the tree head of that size.
func (l *ctlog) sig(size int) []byte {
	if l.folder != "" {
		return nil
	}
	h := sha256.Sum256([]byte(fmt.Sprintf("sth %d %d", l.i, size)))
	return append([]byte(fmt.Sprintf("STH-%d-%d-", l.i, size)), h[:8]...)
}

func (l *ctlog) grow(es ...ctEntry) {
	if l.folder != "" {
		if l.rng.Chance(1, 2) {
			l.unhide()
		}
		l.addFiles(es)
		return
	}
	l.oldSTH = append(l.oldSTH, len(l.entries))
	l.entries = append(l.entries, es...)
}

// misbehave injects a fault of the HTTP server. It returns true if the request was answered.
func (l *ctlog) misbehave(site string, w http.ResponseWriter, r *http.Request) (*kit.Fault, bool) {
	f := l.w.k.Draw(site,
		kit.KindProb{Kind: "status", Weight: 3, ArgMin: 0, ArgMax: 3},
		kit.KindProb{Kind: "stall", Weight: 2, ArgMin: 1, ArgMax: 40, LogScale: true},
		kit.KindProb{Kind: "reset", Weight: 2},
		kit.KindProb{Kind: "truncate", Weight: 2, ArgMin: 0, ArgMax: 99},
		kit.KindProb{Kind: "badjson", Weight: 2, ArgMin: 0, ArgMax: 4},
		kit.KindProb{Kind: "special", Weight: 4, ArgMin: 0, ArgMax: 799},
	)
	if f == nil {
		return nil, false
	}
	switch f.Kind {
	case "status":
		w.WriteHeader([]int{500, 429, 503, 404}[f.Arg])
		return f, true
	case "stall":
		time.Sleep(time.Duration(f.Arg) * time.Second)
		return f, false
	case "reset":
		panic(http.ErrAbortHandler)
	case "badjson":
		w.Write([]byte([]string{"", "{", "null", "[]", `{"tree_size":"x","entries":7}`}[f.Arg]))
		return f, true
	}
	return f, false
}

func (l *ctlog) write(w http.ResponseWriter, f *kit.Fault, v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	if f != nil && f.Kind == "truncate" {
		w.Header().Set("Content-Length", strconv.Itoa(len(b)))
		w.Write(b[:len(b)*int(f.Arg)/100])
		panic(http.ErrAbortHandler)
	}
	w.Write(b)
}

func (l *ctlog) getSTH(w http.ResponseWriter, r *http.Request) {
	l.nSTH++
	l.sthAt = append(l.sthAt, time.Now())
	if l.reqs != nil {
		l.reqs("sth")
	}
	for l.hold {
		l.held++
		runtime.VerifWake()
		time.Sleep(200 * time.Millisecond)
		l.held--
	}
	f, done := l.misbehave("ct.sth", w, r)
	if done {
		return
	}
	size := l.size()
	if l.lag && len(l.oldSTH) > 0 && l.rng.Chance(1, 4) {
		size = l.oldSTH[len(l.oldSTH)-1]
		l.w.k.Cover("stale-sth")
	}
	sig := l.sig(size)
	ds := append([]byte{4, 3, byte(len(sig) >> 8), byte(len(sig))}, sig...)
	root := sha256.Sum256(sig)
	m := map[string]any{"tree_size": size, "timestamp": time.Now().UnixMilli(),
		"sha256_root_hash": root[:], "tree_head_signature": ds}
	if f != nil && f.Kind == "special" {
		switch f.Arg % 3 {
		case 0:
			m["sha256_root_hash"] = root[:7]
		case 1:
			m["tree_head_signature"] = []byte{4, 3, 9}
		case 2:
			delete(m, "tree_head_signature")
		}
	} else {
		l.served[size] = true
	}
	l.write(w, f, m)
}

func leafEntry(e ctEntry) ct.LeafEntry { return leafEntryBad(e, -1, 0) }

// leafEntryBad encodes an entry whose chain has an element that does not parse at position bad.
func leafEntryBad(e ctEntry, bad, how int) ct.LeafEntry {
	te := &ct.TimestampedEntry{Timestamp: 1700000000000, EntryType: ct.X509LogEntryType, X509Entry: &ct.ASN1Cert{Data: e.cert.raw}}
	chain := []ct.ASN1Cert{}
	for i, p := range e.cert.chain() {
		raw := p.raw
		if i == bad {
			raw = damage(raw, how)
		}
		chain = append(chain, ct.ASN1Cert{Data: raw})
	}
	var extra any = ct.CertificateChain{Entries: chain}
	if e.precert {
		te = &ct.TimestampedEntry{Timestamp: 1700000000000, EntryType: ct.PrecertLogEntryType,
			PrecertEntry: &ct.PreCert{IssuerKeyHash: sha256.Sum256(e.cert.raw), TBSCertificate: e.cert.ct.RawTBSCertificate}}
		extra = ct.PrecertChainEntry{PreCertificate: ct.ASN1Cert{Data: e.cert.raw}, CertificateChain: chain}
	}
	leaf, err := tls.Marshal(ct.MerkleTreeLeaf{Version: ct.V1, LeafType: ct.TimestampedEntryLeafType, TimestampedEntry: te})
	if err != nil {
		panic(err)
	}
	ed, err := tls.Marshal(extra)
	if err != nil {
		panic(err)
	}
	return ct.LeafEntry{LeafInput: leaf, ExtraData: ed}
}

// damage returns bytes that are no certificate.
func damage(raw []byte, how int) []byte {
	switch how % 4 {
	case 0:
		return append([]byte{}, raw[:len(raw)-1]...)
	case 1:
		return append(append([]byte{}, raw...), 0)
	case 2:
		return []byte("garbage")
	}
	return raw[: len(raw)/2 : len(raw)/2]
}

func (l *ctlog) getEntries(w http.ResponseWriter, r *http.Request) {
	l.nEntries++
	l.inFlight++
	defer func() { l.inFlight-- }()
	if l.reqs != nil {
		l.reqs("entries")
	}
	f, done := l.misbehave("ct.entries", w, r)
	if done {
		return
	}
	start, err1 := strconv.Atoi(r.URL.Query().Get("start"))
	end, err2 := strconv.Atoi(r.URL.Query().Get("end"))
	if err1 != nil || err2 != nil || start < 0 || end < start || start >= l.size() {
		l.w.k.Cover("ct-bad-range")
		http.Error(w, "bad range", 400)
		return
	}
	l.ranges = append(l.ranges, [2]int{start, end})
	want := end - start + 1
	end = min(end, l.size()-1, start+l.maxResp-1)
	es := []ct.LeafEntry{}
	for _, e := range l.entries[start : end+1] {
		es = append(es, leafEntry(e))
	}
	if len(es) < want {
		l.w.k.Cover("ct-partial")
	}
	if f != nil && f.Kind == "special" {
		at := int(f.Arg/8) % len(es)
		switch f.Arg % 8 {
		case 0:
			es = es[:0]
		case 1: // more than requested
			for i := 0; i < want+int(f.Arg)/8; i++ {
				es = append(es, es[0])
			}
		case 2:
			es[at].LeafInput = []byte("garbage")
		case 3:
			es[at].ExtraData = es[at].ExtraData[:len(es[at].ExtraData)/2]
		case 4: // a certificate that does not parse
			c := *l.entries[start+at].cert
			c.raw = damage(c.raw, int(f.Arg/8))
			es[at] = leafEntry(ctEntry{&c, false})
		case 5:
			es = nil
		case 6, 7: // a certificate of a chain does not parse
			e := l.entries[start+at]
			if n := len(e.cert.chain()); n > 0 {
				es[at] = leafEntryBad(e, int(f.Arg/16)%n, int(f.Arg/8))
				l.w.k.Cover("ct-bad-chain")
			}
		}
	}
	type entry struct {
		LeafInput []byte `json:"leaf_input"`
		ExtraData []byte `json:"extra_data"`
	}
	var out []entry
	for _, e := range es {
		out = append(out, entry{e.LeafInput, e.ExtraData})
	}
	l.write(w, f, map[string]any{"entries": out})
}

// pickEntries chooses what is appended to a log.
func pickEntries(r *kit.Rng, u *universe, n int) (es []ctEntry) {
	for i := 0; i < n; i++ {
		es = append(es, ctEntry{u.any(r), r.Chance(1, 4)})
	}
	return
}
