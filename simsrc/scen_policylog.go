package main

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"flag"
	"fmt"
	"strings"
	"time"

	"github.com/google/trillian"
	"github.com/google/trillian/extension"
	tlog "github.com/google/trillian/log"
	"github.com/google/trillian/quota"
	"github.com/google/trillian/server"
	"github.com/google/trillian/storage"
	"github.com/google/trillian/types"
	"github.com/google/trillian/util/clock"
	_ "github.com/netsec-ethz/fpki/verifsim/trillianmem"
	"github.com/transparency-dev/merkle/proof"
	"github.com/transparency-dev/merkle/rfc6962"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/logverifier"
	"github.com/netsec-ethz/fpki/pkg/policylog/client"
	serverutil "github.com/netsec-ethz/fpki/pkg/policylog/server/util"
	"github.com/netsec-ethz/fpki/verifsim/kit"
)

func init() {
	register(&scenario{name: "policylog", run: policyLogScenario, preempts: []uint64{0, 3, 20, 200}})
}

const plogAddr = "plog.sim:8090"

// policyLog is a policy log: the repository's server harness around Trillian's log server, with its
// storage in memory, and a signer.
type policyLog struct {
	w        *world
	k        *kit.Kit
	rng      *kit.Rng
	node     uint32
	srv      *server.TrillianLogRPCServer
	sp       storage.Provider
	treeID   int64
	accepted map[string]bool    // leaf values the log accepted (they will be included)
	leafIdx  map[string]int64   // integrated leaf hashes (filled by audit)
	roots    map[string]bool    // all signed log roots
	list     []*types.LogRootV1 // the same in order
	raw      []*trillian.SignedLogRoot
	interval time.Duration
	stopSign bool
	stopped  bool // the signer was stopped for a while
	lies     *kit.Rng
	ver      *logverifier.LogVerifier // one for all clients
}

func newPolicyLog(w *world) *policyLog {
	k := w.k
	l := &policyLog{w: w, k: k, rng: k.Rand("plog"), accepted: map[string]bool{}, roots: map[string]bool{}, lies: k.Rand("lies")}
	l.ver = logverifier.NewLogVerifier(nil)
	if l.lies.Chance(1, 3) {
		l.ver = logverifier.NewLogVerifier(rfc6962.DefaultHasher)
	}
	l.node = k.NewNode()
	sp, err := storage.NewProvider("memory", nil)
	if err != nil {
		k.Inconclusive("trillian: %v", err)
		k.Stop()
	}
	l.sp = sp
	m := serverutil.Main{
		RPCEndpoint: plogAddr,
		StatsPrefix: "log",
		DBClose:     sp.Close,
		Registry:    extension.Registry{AdminStorage: sp.AdminStorage(), LogStorage: sp.LogStorage(), QuotaManager: quota.Noop()},
		RegisterServerFn: func(s *grpc.Server, registry extension.Registry) error {
			l.srv = server.NewTrillianLogRPCServer(registry, clock.System)
			trillian.RegisterTrillianLogServer(s, l.srv)
			return nil
		},
		IsHealthy:        sp.AdminStorage().CheckDatabaseAccessible,
		AllowedTreeTypes: []trillian.TreeType{trillian.TreeType_LOG, trillian.TreeType_PREORDERED_LOG},
		ExtraOptions:     []grpc.ServerOption{grpc.ChainUnaryInterceptor(l.intercept)},
	}
	k.Go(l.node, "policy log server", func() {
		if err := m.Run(context.Background()); err != nil {
			k.Inconclusive("policy log server: %v", err)
		}
	})
	k.WaitUntil(time.Minute, func() bool { return w.net.Listening(plogAddr) })
	return l
}

// sign runs the signer.
func (l *policyLog) sign() {
	tlog.InitMetrics(nil)
	reg := extension.Registry{AdminStorage: l.sp.AdminStorage(), LogStorage: l.sp.LogStorage(), QuotaManager: quota.Noop()}
	sm := tlog.NewSequencerManager(reg, 0)
	info := &tlog.OperationInfo{Registry: reg, BatchSize: []int{1, 2, 5, 100}[l.rng.Intn(4)], NumWorkers: 1, TimeSource: clock.System}
	l.k.Go(l.node, "signer", func() {
		for {
			time.Sleep(l.interval)
			if l.stopSign {
				continue
			}
			// A wall clock that stands still would give two roots the same timestamp.
			time.Sleep(time.Millisecond)
			if _, err := sm.ExecutePass(context.Background(), l.treeID, info); err != nil {
				l.k.Inconclusive("signer: %v", err)
				return
			}
			l.observe()
		}
	})
}

// observe records the current root.
func (l *policyLog) observe() {
	resp, err := l.srv.GetLatestSignedLogRoot(context.Background(), &trillian.GetLatestSignedLogRootRequest{LogId: l.treeID})
	if err != nil {
		l.k.Inconclusive("reading the root: %v", err)
		return
	}
	l.record(resp.SignedLogRoot)
}

func (l *policyLog) record(slr *trillian.SignedLogRoot) {
	if slr == nil || l.roots[string(slr.LogRoot)] {
		return
	}
	var root types.LogRootV1
	if err := root.UnmarshalBinary(slr.LogRoot); err != nil {
		l.k.Inconclusive("root: %v", err)
		return
	}
	l.roots[string(slr.LogRoot)] = true
	l.list = append(l.list, &root)
	l.raw = append(l.raw, slr)
	l.k.State(kit.Hash64(string(root.RootHash)))
}

func (l *policyLog) size() uint64 {
	if len(l.list) == 0 {
		return 0
	}
	return l.list[len(l.list)-1].TreeSize
}

// published says whether a root was signed by the log.
func (l *policyLog) published(r *types.LogRootV1) bool {
	b, err := r.MarshalBinary()
	return err == nil && l.roots[string(b)]
}

func (l *policyLog) intercept(ctx context.Context, req any, info *grpc.UnaryServerInfo, handler grpc.UnaryHandler) (any, error) {
	site := ""
	switch req.(type) {
	case *trillian.QueueLeafRequest:
		site = "plog.add"
	case *trillian.GetInclusionProofByHashRequest, *trillian.GetConsistencyProofRequest, *trillian.GetLatestSignedLogRootRequest:
		site = "plog.get"
	default:
		site = "plog.admin"
	}
	f := l.k.Draw(site,
		kit.KindProb{Kind: "error-before", Weight: 4, ArgMin: 0, ArgMax: 4},
		kit.KindProb{Kind: "error-after", Weight: 4, ArgMin: 0, ArgMax: 4},
		kit.KindProb{Kind: "slow", Weight: 3, ArgMin: 1e6, ArgMax: 60e9, LogScale: true},
		kit.KindProb{Kind: "stall", Weight: 1},
		kit.KindProb{Kind: "stale", Weight: 3, ArgMin: 0, ArgMax: 9},
		kit.KindProb{Kind: "malformed", Weight: 2, ArgMin: 0, ArgMax: 9},
	)
	code := []codes.Code{codes.Unavailable, codes.Internal, codes.ResourceExhausted, codes.DeadlineExceeded, codes.Unknown}
	if f != nil {
		l.k.Tracef("  %s", info.FullMethod)
		switch f.Kind {
		case "error-before":
			return nil, status.Error(code[f.Arg], "simulated")
		case "slow":
			time.Sleep(time.Duration(f.Arg))
		case "stall":
			<-ctx.Done()
			return nil, ctx.Err()
		}
	}
	if r, ok := req.(*trillian.QueueLeafRequest); ok && r.Leaf != nil && l.accepted[string(r.Leaf.LeafValue)] {
		// The MySQL storage recognises duplicates, the one in memory does not.
		l.k.Cover("duplicate")
		resp := &trillian.QueueLeafResponse{QueuedLeaf: &trillian.QueuedLogLeaf{Leaf: r.Leaf, Status: status.New(codes.AlreadyExists, "leaf already exists").Proto()}}
		if f != nil && f.Kind == "error-after" {
			return nil, status.Error(code[f.Arg], "simulated")
		}
		return resp, nil
	}
	resp, err := handler(ctx, req)
	if err == nil {
		if r, ok := req.(*trillian.QueueLeafRequest); ok {
			l.accepted[string(r.Leaf.LeafValue)] = true
		}
	}
	if f == nil {
		return resp, err
	}
	switch f.Kind {
	case "error-after":
		return nil, status.Error(code[f.Arg], "simulated")
	case "stale": // another replica, which lags behind
		n := len(l.raw)
		if n == 0 {
			return resp, err
		}
		old := l.raw[max(0, n-1-int(f.Arg))]
		switch r := resp.(type) {
		case *trillian.GetLatestSignedLogRootResponse:
			return &trillian.GetLatestSignedLogRootResponse{SignedLogRoot: old}, nil
		case *trillian.GetConsistencyProofResponse:
			if r != nil {
				return &trillian.GetConsistencyProofResponse{SignedLogRoot: old}, nil
			}
		case *trillian.GetInclusionProofByHashResponse:
			return nil, status.Error(codes.NotFound, "no such leaf yet")
		}
	case "malformed":
		if err != nil {
			return resp, err
		}
		switch r := resp.(type) {
		case *trillian.GetLatestSignedLogRootResponse:
			switch f.Arg % 3 {
			case 0:
				r.SignedLogRoot = nil
			case 1:
				r.SignedLogRoot = &trillian.SignedLogRoot{}
			case 2:
				r.SignedLogRoot = &trillian.SignedLogRoot{LogRoot: []byte{0, 1, 2, 3}}
			}
		case *trillian.GetConsistencyProofResponse:
			r.Proof = nil
		case *trillian.GetInclusionProofByHashResponse:
			switch f.Arg % 4 {
			case 0, 1:
				r.Proof = nil
			case 2:
				r.SignedLogRoot = nil
			case 3:
				r.SignedLogRoot = &trillian.SignedLogRoot{LogRoot: []byte("no root")}
			}
		}
	}
	return resp, err
}

// audit reads the whole log directly.
func (l *policyLog) audit() map[string]bool {
	m := map[string]bool{}
	n := int64(l.size())
	if n == 0 {
		return m
	}
	resp, err := l.srv.GetLeavesByRange(context.Background(), &trillian.GetLeavesByRangeRequest{LogId: l.treeID, StartIndex: 0, Count: n})
	if err != nil {
		l.k.Inconclusive("reading the leaves: %v", err)
		l.k.Stop()
	}
	for _, x := range resp.Leaves {
		m[string(x.LeafValue)] = true
	}
	return m
}

type plogDoc struct {
	path string
	leaf []byte // what the log has to hold for it
	bad  bool   // not complete yet
}

// plogClient drives one client.
type plogClient struct {
	k      *kit.Kit
	w      *world
	l      *policyLog
	r      *kit.Rng
	i      int
	dir    string
	conf   string
	c      *client.LogClient
	made   int // faults when the client was made
	roots  []*types.LogRootV1
	sent   [][]byte // leaves handed over before
	docs   []*plogDoc
	names  int
	faulty bool
	synced uint64 // tree size of the last UpdateTreeSize
	pols   [][]byte
	held   []heldPoI
}

func (c *plogClient) open() error {
	c.made = c.k.NFaults()
	lc, err := client.NewLogClient(c.conf, c.l.treeID)
	c.c = lc
	c.synced = 0
	return err
}

func (c *plogClient) clean() bool {
	// A connection that failed once backs off for a while.
	return c.k.NFaults() == c.made && !c.l.stopped
}

func (c *plogClient) leaf() []byte {
	if len(c.sent) > 0 && c.r.Chance(1, 4) {
		return c.sent[c.r.Intn(len(c.sent))]
	}
	n := []int{1, 3, 40, 1000}[c.r.Intn(4)]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(c.r.U64())
	}
	return append([]byte(fmt.Sprintf("leaf %d.%d ", c.i, len(c.sent))), b...)
}

func (c *plogClient) timeout() time.Duration {
	if !c.faulty || c.r.Chance(1, 2) {
		return 5 * time.Minute
	}
	return time.Duration(c.r.Range(1, 1000)) * []time.Duration{100 * time.Microsecond, 10 * time.Millisecond, 100 * time.Millisecond}[c.r.Intn(3)]
}

func leafName(b []byte) string {
	return base64.URLEncoding.EncodeToString(rfc6962.DefaultHasher.HashLeaf(b))
}

// checkPoI verifies a proof of inclusion independently and with the repository's verifier.
func (c *plogClient) checkPoI(leaf []byte, p *client.PoIAndSTH) {
	k := c.k
	k.Check()
	if p == nil || len(p.PoIs) == 0 {
		k.Fail("C19", "no-proof", "a leaf was returned without any proof")
		return
	}
	if !c.l.published(&p.STH) {
		k.Fail("C19", "unknown-root", "a proof was returned with a tree head of size %d, root %x, that the log never signed", p.STH.TreeSize, short32(p.STH.RootHash))
		return
	}
	h := rfc6962.DefaultHasher.HashLeaf(leaf)
	for _, x := range p.PoIs {
		if err := proof.VerifyInclusion(rfc6962.DefaultHasher, uint64(x.LeafIndex), p.STH.TreeSize, h, x.Hashes, p.STH.RootHash); err != nil {
			k.Fail("C19", "bad-proof", "the proof of inclusion (index %d) does not verify with the tree head returned with it (size %d): %v", x.LeafIndex, p.STH.TreeSize, err)
			return
		}
	}
	if err := c.l.ver.VerifyInclusionByHash(&p.STH, h, p.PoIs); err != nil {
		k.Fail("C14", "rejects-inclusion", "the log verifier rejects a correct proof of inclusion: %v", err)
	}
	if len(c.held) < 20 {
		c.held = append(c.held, heldPoI{leaf, p})
	}
}

func short32(b []byte) []byte { return b[:min(4, len(b))] }

func (c *plogClient) add() {
	k, r := c.k, c.r
	n := []int{0, 1, 2, 5, 20}[r.Intn(5)]
	var data [][]byte
	for i := 0; i < n; i++ {
		if len(data) > 0 && r.Chance(1, 10) {
			data = append(data, data[r.Intn(len(data))])
			continue
		}
		data = append(data, c.leaf())
	}
	d := c.timeout()
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	res := c.c.AddLeaves(ctx, data)
	c.sent = append(c.sent, data...)
	k.Check()
	left := map[string]int{}
	for _, b := range data {
		left[string(b)]++
	}
	if len(res.Errs) != len(res.FailedLeaves) {
		k.Fail("C19", "add-report", "AddLeaves of %d leaves reports %d errors and %d failed leaves", n, len(res.Errs), len(res.FailedLeaves))
		return
	}
	for i, b := range res.FailedLeaves {
		if left[string(b)] == 0 {
			k.Fail("C19", "add-report", "AddLeaves reports the failure of a leaf that was not given (or too often): %.20q", b)
			return
		}
		if res.Errs[i] == nil {
			k.Fail("C19", "add-report", "AddLeaves reports a failed leaf without its error")
		}
		left[string(b)]--
	}
	for b, x := range left {
		if x > 0 && !c.l.accepted[b] {
			k.Fail("C19", "add-lost", "AddLeaves reports success for a leaf that the log never accepted: %.20q", b)
			return
		}
	}
	if len(res.Errs) > 0 {
		k.Cover("add-failed")
		if c.clean() && ctx.Err() == nil {
			k.Fail("C19", "add-spurious", "AddLeaves fails although nothing went wrong: %v", res.Errs[0])
		}
	}
}

func (c *plogClient) fetch() {
	k, r := c.k, c.r
	var data [][]byte
	for i := []int{0, 1, 3, 8}[r.Intn(4)]; i > 0; i-- {
		if len(c.sent) > 0 && !r.Chance(1, 8) {
			data = append(data, c.sent[r.Intn(len(c.sent))])
		} else {
			b := []byte(fmt.Sprintf("never added %d.%d", c.i, r.Intn(1000)))
			data = append(data, b)
		}
	}
	d := c.timeout()
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	in := c.l.audit()
	synced := c.synced
	res := c.c.FetchInclusions(ctx, data)
	k.Check()
	if len(res.Errs) != len(res.FailedLeaves) || len(res.Errs) != len(res.FailedLeavesName) {
		k.Fail("C19", "fetch-report", "FetchInclusions reports %d errors, %d failed leaves, %d names", len(res.Errs), len(res.FailedLeaves), len(res.FailedLeavesName))
		return
	}
	asked := map[string][]byte{}
	for _, b := range data {
		asked[leafName(b)] = b
	}
	failed := map[string]int{}
	for i, b := range res.FailedLeaves {
		if leafName(b) != res.FailedLeavesName[i] || asked[res.FailedLeavesName[i]] == nil {
			k.Fail("C19", "fetch-report", "FetchInclusions reports a failed leaf under the wrong name, or one that was not asked for")
			return
		}
		failed[res.FailedLeavesName[i]]++
	}
	for n, p := range res.PoIs {
		b, ok := asked[n]
		if !ok {
			k.Fail("C19", "fetch-report", "FetchInclusions returns a proof for a leaf that was not asked for")
			return
		}
		c.checkPoI(b, p)
		k.Cover("proof")
		delete(asked, n)
	}
	for n, b := range asked {
		if failed[n] == 0 {
			k.Fail("C19", "fetch-lost", "FetchInclusions returns neither a proof nor a failure for a leaf: %.20q", b)
			return
		}
		if in[string(b)] && synced > 0 && synced >= c.l.size() && c.clean() && ctx.Err() == nil {
			k.Fail("C19", "fetch-spurious", "FetchInclusions fails for a leaf that is in the tree although nothing went wrong: %v", res.Errs)
			return
		}
	}
}

func (c *plogClient) update() {
	ctx, cancel := context.WithTimeout(context.Background(), c.timeout())
	defer cancel()
	nf := c.k.NFaults()
	before := c.l.size()
	if err := c.c.UpdateTreeSize(ctx); err != nil {
		if c.clean() && ctx.Err() == nil {
			c.k.Fail("C19", "update-spurious", "UpdateTreeSize fails although nothing went wrong: %v", err)
		}
		return
	}
	if c.k.NFaults() == nf {
		c.synced = before
	}
}

func (c *plogClient) root() {
	k := c.k
	ctx, cancel := context.WithTimeout(context.Background(), c.timeout())
	defer cancel()
	nf := k.NFaults()
	before := c.l.size()
	root, err := c.c.GetCurrentLogRoot(ctx)
	k.Check()
	if err != nil {
		if c.clean() && ctx.Err() == nil {
			k.Fail("C19", "root-spurious", "GetCurrentLogRoot fails although nothing went wrong: %v", err)
		}
		return
	}
	if root == nil || !c.l.published(root) {
		k.Fail("C19", "unknown-root", "GetCurrentLogRoot returns a root that the log never signed: %v", root)
		return
	}
	if root.TreeSize < before && k.NFaults() == nf {
		k.Fail("C19", "old-root", "GetCurrentLogRoot returns the root of size %d although the log had %d already", root.TreeSize, before)
	}
	c.roots = append(c.roots, root)
}

func (c *plogClient) consistency() {
	k, r := c.k, c.r
	if len(c.roots) == 0 {
		return
	}
	a, b := c.roots[r.Intn(len(c.roots))], c.roots[r.Intn(len(c.roots))]
	if len(c.held) > 0 && r.Chance(1, 3) {
		a = &c.held[r.Intn(len(c.held))].p.STH
	}
	if a.TreeSize > b.TreeSize && !r.Chance(1, 5) {
		a, b = b, a
	}
	ctx, cancel := context.WithTimeout(context.Background(), c.timeout())
	defer cancel()
	hs, err := c.c.GetConsistencyProof(ctx, a, b)
	k.Check()
	if err != nil {
		// The server refuses proofs from the empty tree.
		if c.clean() && ctx.Err() == nil && a.TreeSize > 0 && a.TreeSize <= b.TreeSize {
			k.Fail("C19", "consistency-spurious", "GetConsistencyProof(%d, %d) fails although nothing went wrong: %v", a.TreeSize, b.TreeSize, err)
		}
		return
	}
	if err := proof.VerifyConsistency(rfc6962.DefaultHasher, a.TreeSize, b.TreeSize, hs, a.RootHash, b.RootHash); err != nil {
		k.Fail("C19", "bad-consistency", "GetConsistencyProof(%d, %d) succeeds but the proof does not verify: %v", a.TreeSize, b.TreeSize, err)
		return
	}
	if a.TreeSize == 0 {
		return
	}
	k.Cover("consistency")
	if _, err := c.l.ver.VerifyRoot(a, b, hs); err != nil {
		k.Fail("C14", "rejects-root", "the log verifier rejects a correct consistency proof (%d, %d): %v", a.TreeSize, b.TreeSize, err)
	}
	c.prev(a, b, hs)
	if k.Targets("C14") {
		c.l.attacks(10)
	}
}

// hand puts documents into the exchange folder.
func (c *plogClient) hand() {
	r := c.r
	for i := r.Range(0, 4); i > 0; i-- {
		raw := c.pols[r.Intn(len(c.pols))]
		c.names++
		d := &plogDoc{path: fmt.Sprintf("%s/rpc/%s%d", c.dir, r.Pick("a", "doc", "z-"), c.names)}
		doc, err := common.FromJSON(raw)
		if err != nil {
			c.k.Inconclusive("policy: %v", err)
			c.k.Stop()
		}
		if d.leaf, err = common.ToJSON(doc); err != nil {
			c.k.Inconclusive("policy: %v", err)
			c.k.Stop()
		}
		if c.faulty && r.Chance(1, 10) {
			d.bad = true
			c.w.fs.Put(d.path, raw[:r.Intn(len(raw))])
			c.k.Cover("incomplete-document")
		} else {
			c.w.fs.Put(d.path, raw)
		}
		c.docs = append(c.docs, d)
	}
}

// complete finishes the documents that were being written.
func (c *plogClient) complete(raw func(*plogDoc) []byte) {
	for _, d := range c.docs {
		if d.bad {
			d.bad = false
			c.w.fs.Put(d.path, raw(d))
		}
	}
}

// kept checks that no document was lost.
func (c *plogClient) kept(when string) {
	k := c.k
	k.Check()
	var left []*plogDoc
	for _, d := range c.docs {
		if _, ok := c.w.fs.Get(d.path); ok {
			left = append(left, d)
			continue
		}
		if d.bad || !c.l.accepted[string(d.leaf)] {
			k.Fail("C19", "lost-document", "%s: a document is no longer in the exchange folder although the log never accepted it: %s", when, d.path)
			k.Stop()
		}
	}
	c.docs = left
}

func (c *plogClient) queue(last bool) {
	k := c.k
	n, nbad := 0, 0
	leaves := map[string]int{}
	for _, d := range c.docs {
		n++
		if d.bad {
			nbad++
		}
		leaves[string(d.leaf)]++
	}
	d := c.timeout()
	if last {
		d = 20 * time.Minute
	}
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	start := time.Now()
	res, err := c.c.QueueRPCs(ctx)
	k.Check()
	if took := time.Since(start); took > d+time.Minute {
		k.Fail("C19", "context", "QueueRPCs returns %s after its context ended", took-d)
	}
	if err != nil {
		k.Cover("queue-failed")
		if nbad == 0 && c.clean() && ctx.Err() == nil {
			k.Fail("C19", "queue-spurious", "QueueRPCs fails although nothing went wrong: %v", err)
		}
		if last {
			k.Fail("C19", "stuck", "after all faults stopped a new client does not get %d documents (%d different) into the log: %v", n, len(leaves), err)
			k.Stop()
		}
		return
	}
	if res == nil {
		k.Fail("C19", "queue-report", "QueueRPCs returns nothing")
		return
	}
	if nbad > 0 {
		return // how many are skipped is free
	}
	if res.NumOfSucceedAddedLeaves+len(res.FailToAddLeaves) != n || len(res.FailToAddLeaves) != len(res.AddLeavesErrs) {
		k.Fail("C19", "queue-report", "QueueRPCs of %d documents reports %d added, %d not added, %d errors", n, res.NumOfSucceedAddedLeaves, len(res.FailToAddLeaves), len(res.AddLeavesErrs))
		return
	}
	bad := map[string]int{}
	for _, b := range res.FailToAddLeaves {
		bad[string(b)]++
		if bad[string(b)] > leaves[string(b)] {
			k.Fail("C19", "queue-report", "QueueRPCs reports the failure of a leaf that is none of the documents")
			return
		}
	}
	for b, x := range leaves {
		if bad[b] < x && !c.l.accepted[b] {
			k.Fail("C19", "queue-lost", "QueueRPCs reports that a document was added but the log never accepted it")
			return
		}
	}
	if len(res.RetrieveLeavesErrs) != len(res.FailToRetrievedLeaves) || len(res.RetrieveLeavesErrs) != len(res.FailToRetrieveLeavesName) {
		k.Fail("C19", "queue-report", "QueueRPCs reports %d errors, %d failed leaves, %d names", len(res.RetrieveLeavesErrs), len(res.FailToRetrievedLeaves), len(res.FailToRetrieveLeavesName))
		return
	}
	ok := 0
	for b := range leaves {
		if bad[b] == 0 { // a leaf that was handed over twice and failed once may be left for the next time
			ok++
		}
	}
	if res.NumOfRetrievedLeaves > len(leaves) || res.NumOfRetrievedLeaves+len(res.FailToRetrievedLeaves) < ok {
		k.Fail("C19", "queue-report", "QueueRPCs added %d different documents but reports %d proofs and %d failures", ok, res.NumOfRetrievedLeaves, len(res.FailToRetrievedLeaves))
		return
	}
	k.Cover("queued")
	if c.clean() && ctx.Err() == nil && (len(res.FailToAddLeaves) > 0 || len(res.FailToRetrievedLeaves) > 0) {
		k.Fail("C19", "queue-spurious", "QueueRPCs fails for %d + %d leaves although nothing went wrong: %v %v", len(res.FailToAddLeaves), len(res.FailToRetrievedLeaves), res.AddLeavesErrs, res.RetrieveLeavesErrs)
		return
	}
	if last && (len(res.FailToAddLeaves) > 0 || res.NumOfRetrievedLeaves != len(leaves)) {
		k.Fail("C19", "stuck", "after all faults stopped a new client gets only %d of %d documents into the log", res.NumOfRetrievedLeaves, len(leaves))
	}
}

func policyLogScenario(k *kit.Kit) {
	flag.Set("logtostderr", "true")
	w := newWorld(k)
	r := k.Rand("policylog")
	l := newPolicyLog(w)
	u := newUniverse(r, time.Now(), uniConf{names: r.Range(2, 6), cas: 1, leaves: 1, pols: r.Range(1, 6), expMin: time.Hour, expMax: 2 * time.Hour, caExpMin: time.Hour, caExpMax: 2 * time.Hour, maxDepth: 1, maxNames: 2})
	k.Quiet(true)
	w.net.LatMin, w.net.LatMax = time.Duration(r.Intn(200))*time.Microsecond, time.Duration(r.Range(200, 20000))*time.Microsecond
	w.net.FaultSite = func(a string) string {
		if strings.HasPrefix(a, "plog") {
			return "plognet"
		}
		return ""
	}
	w.fs.SiteOf = func(p string) string {
		if strings.Contains(p, "/rpc") {
			return "plogfs"
		}
		return ""
	}
	faulty := r.Chance(3, 4)
	if faulty {
		k.SetRate("plog.add", []float64{0, .05, .3}[r.Intn(3)])
		k.SetRate("plog.get", []float64{0, .05, .3}[r.Intn(3)])
		k.SetRate("plog.admin", []float64{0, 0, .2}[r.Intn(3)])
		k.SetRate("plognet.dial", []float64{0, .1}[r.Intn(2)])
		k.SetRate("plognet.seg", []float64{0, .01}[r.Intn(2)])
		k.SetRate("proc", []float64{0, .4}[r.Intn(2)])
		for _, s := range []string{"open", "read", "unlink", "getdents"} {
			k.SetRate("plogfs."+s, []float64{0, 0, .1}[r.Intn(3)])
		}
		k.SetBudget(r.Range(1, 8))
	}
	l.interval = time.Duration(r.Range(1, 300)) * []time.Duration{100 * time.Microsecond, time.Millisecond, 10 * time.Millisecond}[r.Intn(3)]
	// Set up the tree with the administration client.
	admin := map[string]any{"RpcMaxWaitingTimeInSec": r.Range(1, 60), "DisplayName": "t", "LogAddress": plogAddr, "OutPutPath": "/data/out"}
	b, _ := json.Marshal(admin)
	w.fs.Put("/data/admin.json", b)
	w.fs.MkdirAll("/data/out/trees_config")
	node := k.NewNode()
	var tree *trillian.Tree
	for try := 0; tree == nil; try++ {
		k.Quiet(try > 1)
		var err error
		nf := k.NFaults()
		k.Must(node, "creating a tree", time.Hour, func() {
			ac, e := client.GetAdminClient("/data/admin.json")
			if err = e; err == nil {
				tree, err = ac.CreateNewTree()
			}
		})
		k.Quiet(true)
		k.Check()
		if err != nil {
			tree = nil
			if k.NFaults() == nf {
				k.Fail("C19", "admin-spurious", "creating a tree fails although nothing went wrong: %v", err)
				k.Stop()
			}
			continue
		}
	}
	var stored trillian.Tree
	raw, ok := w.fs.Get(fmt.Sprintf("/data/out/trees_config/%d", tree.TreeId))
	if !ok || json.Unmarshal(raw, &stored) != nil || stored.TreeId != tree.TreeId {
		k.Fail("C19", "tree-file", "the configuration of the new tree was not stored: %q", raw)
		k.Stop()
	}
	l.treeID = tree.TreeId
	l.observe()
	l.sign()

	nc := r.Pick("1", "1", "2", "3")
	var clients []*plogClient
	var tasks []*kit.Task
	single := nc == "1"
	for i := 0; i < int(nc[0]-'0'); i++ {
		c := &plogClient{k: k, w: w, l: l, r: kit.NewRng(r.U64()), i: i, dir: fmt.Sprintf("/data/exchange%d", i), conf: fmt.Sprintf("/data/client%d.json", i), faulty: faulty}
		w.fs.MkdirAll(c.dir + "/rpc")
		b, _ := json.Marshal(map[string]any{"TreeId": tree.TreeId, "RPCAddress": plogAddr, "PolicyLogExchangePath": c.dir, "NumOfWorker": r.Range(1, 6)})
		w.fs.Put(c.conf, b)
		for j, p := range u.pols {
			if single || j%int(nc[0]-'0') == i || r.Chance(1, 3) {
				c.pols = append(c.pols, p.raw)
			}
		}
		if len(c.pols) == 0 {
			c.pols = append(c.pols, u.pols[0].raw)
		}
		clients = append(clients, c)
	}
	k.Quiet(false)
	for _, c := range clients {
		c := c
		c.made = -1
		if single {
			c.runCrashing()
			continue
		}
		tasks = append(tasks, k.Go(k.NewNode(), fmt.Sprintf("client %d", c.i), func() { c.run(c.r.Range(2, 6)) }))
	}
	if !single {
		k.MustDone(k.Wait(24*time.Hour, tasks...), "the clients", 24*time.Hour)
	}
	// Faults stop: new clients get everything into the log.
	k.Quiet(true)
	w.calm()
	l.stopSign = false
	l.interval = min(l.interval, 200*time.Millisecond)
	k.Sleep(3 * time.Minute)
	for _, c := range clients {
		c.kept("at the end")
		c.complete(func(d *plogDoc) []byte {
			// d.leaf is the document itself up to formatting.
			return d.leaf
		})
		c.faulty = false
		n := k.NewNode()
		k.Must(n, "the last QueueRPCs", time.Hour, func() {
			if err := c.open(); err != nil {
				k.Fail("C19", "open", "NewLogClient: %v", err)
				return
			}
			c.queue(true)
		})
		for _, d := range c.docs {
			if _, ok := w.fs.Get(d.path); ok {
				k.Fail("C19", "left-document", "a document is still in the exchange folder after QueueRPCs succeeded: %s", d.path)
			}
		}
		c.kept("after the last QueueRPCs")
	}
	k.Sleep(10 * time.Second)
	// Everything accepted is in the log, and a client can prove it.
	in := l.audit()
	var all [][]byte
	for _, b := range kit.SortedKeys(l.accepted) {
		if !in[b] {
			k.Inconclusive("the simulated log lost a leaf")
			k.Stop()
		}
		all = append(all, []byte(b))
	}
	c := clients[0]
	k.Must(k.NewNode(), "the last proofs", time.Hour, func() {
		if err := c.open(); err != nil {
			k.Fail("C19", "open", "NewLogClient: %v", err)
			return
		}
		c.update()
		c.sent = all
		res := c.c.FetchInclusions(context.Background(), all)
		for _, b := range all {
			if p := res.PoIs[leafName(b)]; p == nil {
				k.Fail("C19", "final-proof", "no proof for a leaf that is in the log: %v", res.Errs)
				return
			} else {
				c.checkPoI(b, p)
			}
		}
	})
	if len(c.roots) > 0 {
		c.root()
	}
	k.Must(k.NewNode(), "a client of a log that lies", time.Hour, func() { l.attacks(60) })
	k.Res.Nontriv = len(k.Res.Ops) >= 2 && len(all) > 0
}

// run performs operations on one client.
func (c *plogClient) run(nops int) {
	if c.c == nil {
		if err := c.open(); err != nil {
			c.k.Fail("C19", "open", "NewLogClient: %v", err)
			return
		}
	}
	for i := 0; i < nops; i++ {
		if !c.op(100*c.i+i, false) {
			return
		}
	}
}

func (c *plogClient) op(i int, single bool) bool {
	k, r := c.k, c.r
	kinds := []string{"add", "add", "add", "add", "update", "fetch", "fetch", "fetch", "fetch", "root", "consistency", "queue", "queue", "pause", "sign"}
	if single {
		kinds = append(kinds, "queue", "queue", "queue")
	}
	if k.Targets("C14") {
		kinds = append(kinds, "fetch", "fetch", "root", "root", "consistency", "consistency", "consistency", "consistency")
	}
	kind := kinds[r.Intn(len(kinds))]
	if !k.Op(i, "client %d: %s", c.i, kind) {
		return true
	}
	switch kind {
	case "add":
		c.add()
	case "update":
		c.update()
	case "fetch":
		if r.Chance(1, 2) {
			time.Sleep(time.Duration(r.Range(1, 100)) * c.l.interval / 10)
		}
		if r.Chance(4, 5) {
			c.update()
		}
		c.fetch()
	case "root":
		c.root()
	case "consistency":
		c.root()
		c.consistency()
	case "queue":
		c.hand()
		c.queue(false)
		c.kept("after QueueRPCs")
	case "pause":
		time.Sleep(time.Duration(r.Range(1, 1000)) * 5 * time.Millisecond)
	case "sign":
		if c.faulty {
			c.l.stopSign = !c.l.stopSign
			c.k.Tracef("signer stopped: %v", c.l.stopSign)
			c.l.stopped = true // calls may end without proofs now
		}
	}
	k.Tracef("%s done", kind)
	return true
}

// runCrashing is a single client whose process may crash and be restarted.
func (c *plogClient) runCrashing() {
	k := c.k
	node := k.NewNode()
	n := c.r.Range(2, 9)
	for i := 0; i < n; i++ {
		c.w.mayCrashWithin(node, 500)
		t := k.Go(node, fmt.Sprintf("op %d", i), func() {
			if c.c == nil {
				if err := c.open(); err != nil {
					k.Fail("C19", "open", "NewLogClient: %v", err)
					return
				}
			}
			c.op(i, true)
		})
		o := k.Wait(24*time.Hour, t)
		c.w.calm()
		if o == kit.Killed {
			k.Cover("crash")
			c.kept("after a crash")
			node = k.NewNode()
			c.c = nil
			continue
		}
		k.MustDone(o, "an operation of the client", 24*time.Hour)
	}
}
