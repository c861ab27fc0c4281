package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
	"github.com/netsec-ethz/fpki/verifsim/kit"
)

// Scenario trie: the sparse Merkle tree on a store that belongs to the simulator. Keys are chosen to
// share long prefixes, which names do not give. Updates, commits and removals as the map server does
// them, with concurrent readers, failures of the store and crashes.

func init() {
	register(&scenario{name: "trie", run: trieScenario, maxSteps: 60_000_000, preempts: []uint64{0, 3, 20, 200, 2000}})
}

// treeStore is the table of tree nodes. The stored bytes never alias those of the caller.
type treeStore struct {
	w    *trieWorld
	rows map[ID][]byte
}

type trieWorld struct {
	k     *kit.Kit
	r     *kit.Rng
	n     uint32
	store *treeStore
	slow  int

	root    []byte // published root
	content mapping
	clean   bool // the store holds nothing but the current tree
	pool    []ID
	limit   int
	faulty  bool // the store may fail
	twins   bool // keys may differ in the last bit only

	t      *trie.Trie
	hist   []snapshot // states that t takes, each one added before the update to it
	broken bool       // an update of t failed
}

type snapshot struct {
	root    []byte
	content mapping
}

var errStore = errors.New("the store fails")

func (s *treeStore) Close() error { return nil }

func (s *treeStore) nap() {
	if s.w.slow > 0 && s.w.r.Chance(1, 3) {
		time.Sleep(time.Duration(s.w.r.Intn(s.w.slow)) * time.Microsecond)
	}
}

func (s *treeStore) RetrieveTreeNode(ctx context.Context, key common.SHA256Output) ([]byte, error) {
	s.nap()
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if s.w.k.Draw("trie.read", kit.KindProb{Kind: "fail", Weight: 1}) != nil {
		return nil, errStore
	}
	v, ok := s.rows[key]
	s.nap()
	if !ok {
		return nil, nil
	}
	return append([]byte(nil), v...), nil
}

func (s *treeStore) UpdateTreeNodes(ctx context.Context, recs []*db.TreeNodeRecord) (int, error) {
	recs = append([]*db.TreeNodeRecord(nil), recs...)
	sort.Slice(recs, func(i, j int) bool { return bytes.Compare(recs[i].Key[:], recs[j].Key[:]) < 0 })
	s.nap()
	if err := ctx.Err(); err != nil {
		return 0, err
	}
	f := s.w.k.Draw("trie.write", kit.KindProb{Kind: "fail", Weight: 1}, kit.KindProb{Kind: "partial", Weight: 3, ArgMax: 1 << 16}, kit.KindProb{Kind: "fail-after", Weight: 1})
	if f != nil && f.Kind == "fail" {
		return 0, errStore
	}
	for i, r := range recs {
		if f != nil && f.Kind == "partial" && (f.Arg>>(i%16))&1 == 1 {
			continue
		}
		s.rows[ID(r.Key)] = append([]byte(nil), r.Value...)
		s.nap()
	}
	if f != nil {
		return 0, errStore
	}
	return len(recs), nil
}

func (s *treeStore) DeleteTreeNodes(ctx context.Context, keys []common.SHA256Output) (int, error) {
	keys = append([]common.SHA256Output(nil), keys...)
	sort.Slice(keys, func(i, j int) bool { return bytes.Compare(keys[i][:], keys[j][:]) < 0 })
	s.nap()
	if err := ctx.Err(); err != nil {
		return 0, err
	}
	f := s.w.k.Draw("trie.delete", kit.KindProb{Kind: "fail", Weight: 1}, kit.KindProb{Kind: "partial", Weight: 3, ArgMax: 1 << 16}, kit.KindProb{Kind: "fail-after", Weight: 1})
	if f != nil && f.Kind == "fail" {
		return 0, errStore
	}
	for i, key := range keys {
		if f != nil && f.Kind == "partial" && (f.Arg>>(i%16))&1 == 1 {
			continue
		}
		delete(s.rows, key)
		s.nap()
	}
	if f != nil {
		return 0, errStore
	}
	return len(keys), nil
}

func (w *trieWorld) open(root []byte, store *treeStore) *trie.Trie {
	t, err := trie.NewTrie(append([]byte(nil), root...), common.SHA256Hash, store)
	if err != nil {
		w.k.Fail("", "open", "the tree does not open: %v", err)
		w.k.Stop()
	}
	if len(root) == 0 {
		t.Root = nil
	}
	return t
}

func trieScenario(k *kit.Kit) {
	w := &trieWorld{k: k, r: k.Rand("trie"), content: mapping{}, clean: true}
	r := w.r
	w.store = &treeStore{w: w, rows: map[ID][]byte{}}
	w.slow = []int{0, 10, 2000}[r.Intn(3)]
	w.limit = []int{32, 32, 0, 4, 240, 252, 257}[r.Intn(7)]
	w.n = k.NewNode()
	// Keys: some unrelated, some that leave each other at a chosen bit.
	n := r.Range(2, 50)
	w.twins = r.Chance(1, 4)
	for len(w.pool) < n {
		var id ID
		if len(w.pool) > 0 && r.Chance(3, 4) {
			id = w.pool[r.Intn(len(w.pool))]
			b := []int{r.Intn(256), r.Intn(12), 255 - r.Intn(9), 4 * r.Intn(64), r.Intn(4)}[r.Intn(5)]
			id[b/8] ^= 1 << (7 - b%8)
			if r.Chance(1, 3) {
				for i := b + 1; i < 256; i++ {
					if r.Chance(1, 2) {
						id[i/8] ^= 1 << (7 - i%8)
					}
				}
			}
		} else {
			for i := range id {
				id[i] = byte(r.U64())
			}
			if r.Chance(1, 10) {
				id = ID{}
			}
			if r.Chance(1, 10) {
				for i := range id {
					id[i] = 0xff
				}
			}
		}
		// The height in the hash of a leaf is a byte: the leaf of a single key (256) and that of keys
		// which differ in the last bit only (0) are the same. Hashes of names never do that. With two
		// keys that stay in the tree, it never consists of a single key.
		if w.twins && len(w.pool) == 1 {
			id = w.pool[0]
			id[0] ^= 0x80
		}
		twin := false
		for _, o := range w.pool {
			o[31] ^= 1
			twin = twin || o == id
		}
		if !twin || w.twins {
			w.pool = append(w.pool, id)
		}
	}
	if r.Chance(1, 2) {
		w.faulty = true
		for _, s := range []string{"trie.read", "trie.write", "trie.delete"} {
			k.SetRate(s, []float64{0.002, 0.01, 0.05}[r.Intn(3)])
			if s != "trie.read" {
				k.SetRate(s, []float64{0, 0.1, 0.3}[r.Intn(3)])
			}
		}
	}
	ops := r.Range(2, 10)
	most := 0
	for i := 0; i < ops; i++ {
		w.cycle(i)
		most = max(most, len(w.content))
	}
	k.Quiet(true)
	w.cycle(ops)
	k.Res.Nontriv = most > 2
}

// run does fn on the node; false means that it failed or that the process died.
func (w *trieWorld) run(what string, fn func() error) bool {
	k := w.k
	var err error
	faults := k.NFaults()
	t := k.Go(w.n, what, func() { err = fn() })
	o := k.Wait(time.Hour, t)
	if o == kit.Killed {
		w.restart()
		return false
	}
	k.MustDone(o, what, time.Hour)
	k.Tracef("   %s: %v", what, err)
	if err != nil && k.NFaults() == faults {
		k.Fail("", "spurious", "%s fails although nothing went wrong: %v", what, err)
		k.Stop()
	}
	return err == nil
}

func (w *trieWorld) restart() {
	w.k.Tracef("   restart")
	w.k.Kill(w.n)
	w.n = w.k.NewNode()
	w.drop()
}

// batch draws the keys and values of an update, sorted by key.
func (w *trieWorld) batch(m mapping) (keys, values [][]byte, after mapping) {
	r := w.r
	after = mapping{}
	for id, v := range m {
		after[id] = v
	}
	n := r.Range(1, len(w.pool))
	if r.Chance(1, 3) {
		n = r.Range(1, min(4, len(w.pool)))
	}
	chosen := map[ID]bool{}
	for _, i := range r.Perm(len(w.pool))[:n] {
		chosen[w.pool[i]] = true
	}
	anchor := map[ID]bool{}
	if w.twins {
		for _, id := range w.pool[:2] {
			anchor[id] = true
			if _, ok := m[id]; !ok {
				chosen[id] = true
			}
		}
	}
	del := []int{0, 1, 1, 3, 5}[r.Intn(5)]
	var ids []ID
	for id := range chosen {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return bytes.Compare(ids[i][:], ids[j][:]) < 0 })
	for _, id := range ids {
		keys = append(keys, append([]byte(nil), id[:]...))
		if r.Intn(5) < del && !anchor[id] {
			values = append(values, trie.DefaultLeaf)
			delete(after, id)
			continue
		}
		v, ok := m[id]
		if !ok || r.Chance(2, 3) {
			for i := range v {
				v[i] = byte(r.U64())
			}
			if r.Chance(1, 20) {
				v = ID{}
			}
		}
		values = append(values, append([]byte(nil), v[:]...))
		after[id] = v
	}
	return
}

// cycle is one publication: updates and commits, then the new root, then the removal of old nodes.
func (w *trieWorld) cycle(i int) {
	k, r := w.k, w.r
	ctx := context.Background()
	if w.t == nil || r.Chance(2, 3) {
		w.t = w.open(w.root, w.store)
		w.t.CacheHeightLimit = w.limit
		w.broken = false
		w.hist = []snapshot{{w.root, w.content}}
		if r.Chance(1, 4) && w.root != nil {
			if !w.run("loading the cache", func() error { return w.t.LoadCache(ctx, append([]byte(nil), w.root...)) }) {
				w.drop()
				return
			}
			k.Cover("cache loaded")
		}
	}
	pending := w.content
	var steps []step
	for range 1 + r.Intn(3) {
		s := step{commit: r.Chance(2, 3)}
		s.keys, s.values, s.after = w.batch(pending)
		pending = s.after
		steps = append(steps, s)
	}
	steps[len(steps)-1].commit = true
	readers, crash, stop := r.Intn(3), r.Chance(1, 6), r.Chance(1, 10)
	if !k.Op(i, "%d updates of %d.. keys, then %d keys in the tree, %d readers", len(steps), len(steps[0].keys), len(pending), readers) {
		return
	}
	var tasks []*kit.Task
	done := false
	rn := k.NewNode()
	for j := range readers {
		rr := k.Rand(fmt.Sprintf("reader %d %d", i, j))
		shared := r.Chance(1, 3) && !w.faulty
		state := []snapshot{{w.root, w.content}}
		tasks = append(tasks, k.Go(rn, "reader", func() {
			if !shared {
				t := w.open(state[0].root, w.store)
				for range 150 {
					if done {
						break
					}
					w.probe(t, rr, func() []snapshot { return state })
					time.Sleep(time.Duration(1+rr.Intn(300)) * time.Microsecond)
				}
				return
			}
			// The tree that is being updated can be read as well.
			t := w.t
			for n := 0; n < 150 && !done && !w.broken && t == w.t; n++ {
				from := len(w.hist) - 2
				w.probe(t, rr, func() []snapshot {
					if w.broken || t != w.t {
						return nil
					}
					return w.hist[max(from, 0):]
				})
				time.Sleep(time.Duration(1+rr.Intn(300)) * time.Microsecond)
			}
		}))
	}
	if crash && !k.IsQuiet() {
		if f := k.Draw("trie.crash", kit.KindProb{Kind: "kill", Weight: 1, ArgMin: 1, ArgMax: 20000, LogScale: true}); f != nil {
			runtime.VerifKillAfter(w.n, uint64(f.Arg))
		}
	}
	if w.update(steps) {
		w.content = pending
		w.root = append([]byte(nil), w.t.Root...)
		if w.t.Root == nil {
			w.root = nil
		}
		if stop {
			w.drop()
		}
		for try := 0; w.t != nil && !w.run("removing old nodes", func() error { return w.t.CommitRemovedNodes(ctx) }); try++ {
			if try > 2 || r.Chance(1, 2) {
				w.drop()
			}
			k.Cover("removal repeated")
		}
	} else {
		w.drop()
	}
	runtime.VerifKillCancel()
	done = true
	if len(tasks) > 0 {
		k.MustDone(k.Wait(time.Hour, tasks...), "readers", time.Hour)
	}
	k.Kill(rn)
	q := k.IsQuiet()
	k.Quiet(true)
	w.audit()
	k.Quiet(q)
	k.State(kit.Hash64(string(w.root)))
}

type step struct {
	keys, values [][]byte
	after        mapping
	commit       bool
}

func (w *trieWorld) drop() {
	w.t = nil
	w.broken = true
	w.clean = false
}

// update changes and stores the tree. After a failed update the tree must not be used any more, but
// storing its nodes can be tried again.
func (w *trieWorld) update(steps []step) bool {
	k, r, ctx := w.k, w.r, context.Background()
	for _, s := range steps {
		want := s.after.root()
		w.hist = append(w.hist, snapshot{want, s.after})
		if !w.run("updating the tree", func() error {
			root, err := w.t.Update(ctx, s.keys, s.values)
			if err != nil {
				w.broken = true
			} else if !bytes.Equal(root, w.t.Root) {
				k.Fail("", "root", "Update returns %x, the root is %x", root, w.t.Root)
			}
			return err
		}) {
			return false
		}
		if !bytes.Equal(w.t.Root, want) {
			k.Fail("", "content", "after an update the root of the tree with %d keys is %x, want %x", len(s.after), w.t.Root, want)
			k.Stop()
		}
		k.Check()
		if r.Chance(1, 3) {
			w.run("reading the updated tree", func() error {
				return w.probe(w.t, r, func() []snapshot { return []snapshot{{want, s.after}} })
			})
			if w.t == nil {
				return false
			}
		}
		if !s.commit {
			continue
		}
		for try := 0; !w.run("storing the nodes", func() error { return w.t.CommitNewNodes(ctx) }); try++ {
			if w.t == nil || try > 2 || r.Chance(1, 2) {
				return false
			}
			k.Cover("commit repeated")
		}
		if r.Chance(1, 2) {
			w.t.ResetLiveCache()
		}
	}
	return true
}

// probe asks the tree for a key. The answer must be the one of a state that the tree may have.
func (w *trieWorld) probe(t *trie.Trie, r *kit.Rng, states func() []snapshot) error {
	k, ctx := w.k, context.Background()
	key := w.pool[r.Intn(len(w.pool))]
	if r.Chance(1, 6) {
		key[r.Intn(32)] ^= 1 << r.Intn(8)
	}
	kb := append([]byte(nil), key[:]...)
	kind := r.Intn(3)
	var ap, mp [][]byte
	var bitmap, pk, pv []byte
	var in bool
	var err error
	var length int
	switch kind {
	case 0:
		pv, err = t.Get(ctx, kb)
		in = pv != nil
	case 1:
		ap, in, pk, pv, err = t.MerkleProof(ctx, kb)
	case 2:
		bitmap, mp, length, in, pk, pv, err = t.MerkleProofCompressed(ctx, kb)
		if err == nil {
			i := 0
			for j := range length {
				if j/8 < len(bitmap) && bitmap[j/8]>>(7-j%8)&1 == 1 {
					if i >= len(mp) {
						k.Fail("", "bitmap", "a compressed proof has %d nodes, too few for its bitmap", len(mp))
						return nil
					}
					ap = append(ap, mp[i])
					i++
				} else {
					ap = append(ap, trie.DefaultLeaf)
				}
			}
		}
	}
	if err != nil {
		return err
	}
	list := states()
	if list == nil {
		return nil
	}
	k.Check()
	var why error
	for _, s := range list {
		if why = checkAnswer(s, key, kind, ap, in, pk, pv); why == nil {
			if kind == 2 && len(list) == 1 && s.root != nil {
				if in && !t.VerifyInclusionC(bitmap, kb, pv, mp, length) || !in && !t.VerifyNonInclusionC(mp, length, bitmap, kb, pv, pk) {
					k.Fail("", "compressed", "the compressed proof for key %x does not verify", kb)
				}
			}
			return nil
		}
	}
	k.Fail("", "answer", "%s for key %x: %v", []string{"Get", "MerkleProof", "MerkleProofCompressed"}[kind], kb, why)
	return nil
}

func checkAnswer(s snapshot, key ID, kind int, ap [][]byte, in bool, pk, pv []byte) error {
	v, ok := s.content[key]
	if ok != in {
		return fmt.Errorf("present %v, want %v", in, ok)
	}
	if in && !bytes.Equal(pv, v[:]) {
		return fmt.Errorf("value %x, want %x", pv, v)
	}
	if kind == 0 {
		return nil
	}
	if in {
		if !refVerify(s.root, ap, key, hcat(key[:], pv, []byte{byte(256 - len(ap))})) || !trie.VerifyInclusion(s.root, ap, key[:], pv) {
			return errors.New("the proof of inclusion does not match the root")
		}
		wrong := append([]byte(nil), pv...)
		wrong[len(ap)%32] ^= 1
		if trie.VerifyInclusion(s.root, ap, key[:], wrong) {
			return errors.New("the proof of inclusion is accepted for another value")
		}
		return nil
	}
	if !trie.VerifyNonInclusion(s.root, ap, key[:], pv, pk) {
		return errors.New("the proof of absence does not match the root")
	}
	if s.root == nil {
		return nil
	}
	leaf, lk := []byte{0}, key
	if pk != nil {
		leaf = hcat(pk, pv, []byte{byte(256 - len(ap))})
		copy(lk[:], pk)
		for b := range ap {
			if bit(&lk, b) != bit(&key, b) {
				return errors.New("the proof of absence is about another path")
			}
		}
		if lk == key {
			return errors.New("absence is shown with the key itself")
		}
	}
	if !refVerify(s.root, ap, lk, leaf) {
		return errors.New("the proof of absence does not match the root")
	}
	return nil
}

// audit reads the published tree as another process would do. Without failures since the tree was
// empty, the store holds what it would hold had the tree been built at once.
func (w *trieWorld) audit() {
	k, ctx := w.k, context.Background()
	n := k.NewNode()
	k.Must(n, "audit", time.Hour, func() {
		t := w.open(w.root, w.store)
		state := snapshot{w.root, w.content}
		for _, key := range w.pool {
			ap, in, pk, pv, err := t.MerkleProof(ctx, append([]byte(nil), key[:]...))
			if err == nil {
				err = checkAnswer(state, key, 1, ap, in, pk, pv)
			}
			if err != nil {
				k.Fail("", "audit", "the stored tree with %d keys: key %x: %v", len(w.content), key, err)
				k.Stop()
			}
		}
		k.Check()
		ref := &treeStore{w: w, rows: map[ID][]byte{}}
		w.build(ref)
		for key, v := range ref.rows {
			if !bytes.Equal(w.store.rows[key], v) {
				k.Fail("", "rows", "the stored tree with %d keys: node %x is %x, want %x", len(w.content), key, w.store.rows[key], v)
				k.Stop()
			}
		}
		if w.clean && len(w.store.rows) != len(ref.rows) {
			k.Fail("", "garbage", "the store holds %d nodes, the tree with %d keys consists of %d", len(w.store.rows), len(w.content), len(ref.rows))
			k.Stop()
		}
	})
	k.Kill(n)
}

// build stores the tree of the content.
func (w *trieWorld) build(ref *treeStore) {
	k, ctx := w.k, context.Background()
	if len(w.content) > 0 {
		t := w.open(nil, ref)
		var ids []ID
		for id := range w.content {
			ids = append(ids, id)
		}
		sort.Slice(ids, func(i, j int) bool { return bytes.Compare(ids[i][:], ids[j][:]) < 0 })
		var keys, values [][]byte
		for _, id := range ids {
			v := w.content[id]
			keys, values = append(keys, append([]byte(nil), id[:]...)), append(values, append([]byte(nil), v[:]...))
		}
		if _, err := t.Update(ctx, keys, values); err != nil {
			k.Fail("", "spurious", "Update: %v", err)
		}
		if err := t.CommitNewNodes(ctx); err != nil {
			k.Fail("", "spurious", "CommitNewNodes: %v", err)
		}
	}
}
