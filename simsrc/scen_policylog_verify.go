package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"

	"github.com/google/trillian"
	"github.com/google/trillian/types"

	"github.com/netsec-ethz/fpki/pkg/logverifier"
	"github.com/netsec-ethz/fpki/pkg/policylog/client"
	"github.com/netsec-ethz/fpki/verifsim/kit"
)

// A small reference of the Merkle tree of RFC 6962, written from its text.

func rfcLeaf(b []byte) []byte {
	h := sha256.Sum256(append([]byte{0}, b...))
	return h[:]
}

func rfcNode(a, b []byte) []byte {
	h := sha256.Sum256(append(append([]byte{1}, a...), b...))
	return h[:]
}

// rfcSplit is the largest power of two smaller than n.
func rfcSplit(n int) int {
	k := 1
	for 2*k < n {
		k *= 2
	}
	return k
}

func rfcRoot(d [][]byte) []byte {
	switch len(d) {
	case 0:
		h := sha256.Sum256(nil)
		return h[:]
	case 1:
		return d[0]
	}
	k := rfcSplit(len(d))
	return rfcNode(rfcRoot(d[:k]), rfcRoot(d[k:]))
}

func rfcPath(m int, d [][]byte) [][]byte {
	if len(d) <= 1 {
		return nil
	}
	k := rfcSplit(len(d))
	if m < k {
		return append(rfcPath(m, d[:k]), rfcRoot(d[k:]))
	}
	return append(rfcPath(m-k, d[k:]), rfcRoot(d[:k]))
}

// rfcConsistency is the proof that d extends its first m leaves.
func rfcConsistency(m int, d [][]byte) [][]byte {
	if m <= 0 || m >= len(d) {
		return nil
	}
	return rfcSub(m, d, true)
}

func rfcSub(m int, d [][]byte, whole bool) [][]byte {
	if m == len(d) {
		if whole {
			return nil
		}
		return [][]byte{rfcRoot(d)}
	}
	k := rfcSplit(len(d))
	if m <= k {
		return append(rfcSub(m, d[:k], whole), rfcRoot(d[k:]))
	}
	return append(rfcSub(m-k, d[k:], false), rfcRoot(d[:k]))
}

func sameHashes(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// heldPoI is a proof that a client got earlier and keeps.
type heldPoI struct {
	leaf []byte
	p    *client.PoIAndSTH
}

// byzantine is a log server that tells lies: it forks the log, and sends proofs that do not belong to what
// was asked, or that were damaged.
type byzantine struct {
	k      *kit.Kit
	r      *kit.Rng
	v      *logverifier.LogVerifier
	honest [][]byte // leaf hashes
	values [][]byte
}

func newByzantine(l *policyLog) *byzantine {
	z := &byzantine{k: l.k, r: l.lies, v: l.ver}
	n := int64(l.size())
	if n == 0 {
		return z
	}
	resp, err := l.srv.GetLeavesByRange(context.Background(), &trillian.GetLeavesByRangeRequest{LogId: l.treeID, StartIndex: 0, Count: n})
	if err != nil {
		l.k.Inconclusive("reading the leaves: %v", err)
		l.k.Stop()
	}
	for i, x := range resp.Leaves {
		if x.LeafIndex != int64(i) {
			l.k.Inconclusive("leaves out of order")
			l.k.Stop()
		}
		z.values = append(z.values, x.LeafValue)
		z.honest = append(z.honest, rfcLeaf(x.LeafValue))
	}
	for _, root := range l.list {
		if root.TreeSize <= uint64(n) && !bytes.Equal(root.RootHash, rfcRoot(z.honest[:root.TreeSize])) {
			l.k.Inconclusive("the simulated log signed a root that is not that of its leaves")
			l.k.Stop()
		}
	}
	return z
}

func (z *byzantine) fresh() []byte {
	return rfcLeaf([]byte(fmt.Sprintf("forged %d", z.r.U64())))
}

// fork returns another history of the log.
func (z *byzantine) fork() [][]byte {
	r := z.r
	f := append([][]byte(nil), z.honest...)
	p := r.Intn(len(f))
	switch r.Intn(6) {
	case 0: // a leaf replaced
		f[p] = z.fresh()
	case 1: // the end replaced
		f = f[:p]
		for i := r.Range(1, 9); i > 0; i-- {
			f = append(f, z.fresh())
		}
	case 2: // two leaves exchanged
		q := r.Intn(len(f))
		f[p], f[q] = f[q], f[p]
	case 3: // a leaf removed
		f = append(f[:p:p], f[p+1:]...)
	case 4: // a leaf inserted
		f = append(f[:p:p], append([][]byte{z.fresh()}, f[p:]...)...)
	case 5: // honestly extended
		for i := r.Range(1, 9); i > 0; i-- {
			f = append(f, z.fresh())
		}
	}
	return f
}

// damage alters a list of hashes.
func (z *byzantine) damage(h [][]byte) [][]byte {
	r := z.r
	h = append([][]byte(nil), h...)
	n := len(h)
	if n == 0 {
		if r.Chance(1, 2) {
			return h
		}
		return append(h, z.fresh())
	}
	i, j := r.Intn(n), r.Intn(n)
	switch r.Intn(9) {
	case 0:
		return h[:i]
	case 1:
		return h[i:]
	case 2:
		return append(h, z.fresh())
	case 3:
		h[i], h[j] = h[j], h[i]
	case 4:
		b := append([]byte(nil), h[i]...)
		b[r.Intn(len(b))] ^= 1 << r.Intn(8)
		h[i] = b
	case 5:
		h[i] = h[i][:r.Intn(len(h[i]))]
	case 6:
		h[i] = z.fresh()
	case 7:
		return append([][]byte{z.fresh()}, h...)
	case 8:
		return append(h[:i:i], h[i+1:]...)
	}
	return h
}

func has(d [][]byte, h []byte) bool {
	for _, x := range d {
		if bytes.Equal(x, h) {
			return true
		}
	}
	return false
}

// attack makes one attempt to convince the verifier.
func (z *byzantine) attack(trusted *types.LogRootV1) {
	k, r := z.k, z.r
	if len(z.honest) == 0 || trusted.TreeSize > uint64(len(z.honest)) {
		return
	}
	k.Check()
	size := int(trusted.TreeSize)
	known := z.honest[:size]
	other := z.honest
	lie := r.Chance(2, 3)
	if lie {
		other = z.fork()
	}
	if len(other) == 0 {
		return
	}

	// The leaf.
	var leaf []byte
	idx := 0
	switch c := r.Intn(10); {
	case c < 4 && size > 0:
		idx = r.Intn(size)
		leaf = known[idx]
	case c < 6:
		idx = r.Intn(len(other))
		leaf = other[idx]
	case c < 7:
		idx = r.Intn(len(z.honest))
		leaf = z.honest[idx]
	case c < 8 && size > 1: // an inner node
		a := r.Intn(size - 1)
		leaf = rfcRoot(known[a : a+2])
		idx = a
	case c < 9 && size > 0:
		leaf = trusted.RootHash
	default:
		leaf = z.fresh()
	}
	// The proofs for it.
	var proofs []*trillian.Proof
	good, wellFormed := false, true
	for i := []int{0, 1, 1, 1, 2, 3}[r.Intn(6)]; i > 0; i-- {
		src, at := known, idx
		switch r.Intn(6) {
		case 0:
			src = other
		case 1:
			src = other[:min(len(other), max(1, size))]
		case 2:
			at = r.Intn(len(other))
		}
		if r.Chance(1, 2) { // another position of the same leaf
			for j := range src {
				if bytes.Equal(src[j], leaf) && r.Chance(1, 2) {
					at = j
				}
			}
		}
		at = min(at, len(src)-1)
		p := &trillian.Proof{LeafIndex: int64(at)}
		if at >= 0 {
			p.Hashes = rfcPath(at, src)
		}
		if r.Chance(1, 4) {
			p.Hashes = z.damage(p.Hashes)
		}
		switch r.Intn(16) {
		case 0:
			p.LeafIndex++
		case 1:
			p.LeafIndex = -p.LeafIndex - 1
		case 2:
			p.LeafIndex = int64(r.Intn(2 * len(z.honest)))
		case 3:
			p.LeafIndex += int64(size)
		}
		genuine := p.LeafIndex >= 0 && p.LeafIndex < int64(size) && bytes.Equal(known[p.LeafIndex], leaf) && sameHashes(p.Hashes, rfcPath(int(p.LeafIndex), known))
		if genuine && wellFormed {
			good = true
		}
		if !genuine && (p.LeafIndex < 0 || p.LeafIndex >= int64(size) || len(p.Hashes) != len(rfcPath(int(p.LeafIndex), known))) {
			wellFormed = false // what follows an answer that is no proof at all need not be considered
		}
		proofs = append(proofs, p)
	}
	// The new root and the proof that it extends the trusted one.
	nsize := r.Intn(len(other) + 1)
	if r.Chance(1, 3) {
		nsize = len(other)
	}
	if r.Chance(1, 8) {
		nsize = min(size, len(other))
	}
	newRoot := &types.LogRootV1{TreeSize: uint64(nsize), RootHash: rfcRoot(other[:nsize]), TimestampNanos: trusted.TimestampNanos + 1}
	if r.Chance(1, 12) { // the right leaves, another size
		newRoot.TreeSize = uint64(r.Intn(2*len(other) + 1))
	}
	var cons [][]byte
	switch r.Intn(5) {
	case 0:
		cons = rfcConsistency(r.Intn(len(other)+1), other[:nsize])
	case 1:
		cons = rfcConsistency(size, z.honest[:max(size, min(nsize, len(z.honest)))])
	default:
		cons = rfcConsistency(size, other[:nsize])
	}
	if r.Chance(1, 4) {
		cons = z.damage(cons)
	}
	// A consistency proof does not commit to the new size, only to the leaves.
	extends := size == 0 || nsize >= size && sameHashes(other[:size], known)
	goodCons := extends && newRoot.TreeSize == uint64(nsize) && (size == 0 || sameHashes(cons, rfcConsistency(size, other[:nsize])))

	in := has(known, leaf)
	before := fmt.Sprint(trusted, newRoot, cons, leaf, proofs)
	twice := 1 + r.Intn(2)
	for ; twice > 0; twice-- {
		if r.Chance(2, 3) {
			err := z.v.VerifyInclusionByHash(trusted, leaf, proofs)
			switch {
			case err == nil && !in:
				k.Fail("C14", "false-inclusion", "the log verifier accepts a proof of inclusion in a tree of size %d for a leaf that is not in it", size)
			case err == nil && len(proofs) == 0:
				k.Fail("C14", "no-proof", "the log verifier accepts an inclusion without any proof")
			case err != nil && good:
				k.Fail("C14", "rejects-inclusion", "the log verifier rejects a correct proof of inclusion among %d (size %d): %v", len(proofs), size, err)
			}
			k.Cover(fmt.Sprintf("inclusion-%v-%v", in, err == nil))
		}
		if r.Chance(2, 3) {
			got, err := z.v.VerifyRoot(trusted, newRoot, cons)
			switch {
			case err == nil && !extends:
				k.Fail("C14", "false-root", "the log verifier accepts a root of size %d that does not extend the trusted one of size %d", newRoot.TreeSize, size)
			case err == nil && (got == nil || got.TreeSize != newRoot.TreeSize || !bytes.Equal(got.RootHash, newRoot.RootHash)):
				k.Fail("C14", "other-root", "the log verifier accepts a root of size %d but returns another one: %v", newRoot.TreeSize, got)
			case err != nil && got != nil && !extends:
				k.Fail("C14", "root-and-error", "the log verifier rejects a root but returns it")
			case err != nil && goodCons:
				k.Fail("C14", "rejects-root", "the log verifier rejects a correct proof of consistency (%d, %d): %v", size, nsize, err)
			}
			k.Cover(fmt.Sprintf("root-%v-%v", extends, err == nil))
		}
		if r.Chance(2, 3) {
			err := z.v.VerifyInclusionWithPrevLogRoot(trusted, newRoot, cons, leaf, proofs)
			switch {
			case err == nil && (!in || len(proofs) == 0):
				k.Fail("C14", "false-inclusion", "the log verifier accepts a proof with an earlier root of size %d for a leaf that is not in it", size)
			case err == nil && !extends:
				k.Fail("C14", "false-root", "the log verifier accepts a proof with an earlier root of size %d although the new root of size %d does not extend it", size, newRoot.TreeSize)
			case err != nil && good && goodCons:
				k.Fail("C14", "rejects-prev", "the log verifier rejects a correct proof with an earlier root (%d, %d): %v", size, nsize, err)
			}
			k.Cover(fmt.Sprintf("prev-%v-%v-%v", in, extends, err == nil))
		}
	}
	if after := fmt.Sprint(trusted, newRoot, cons, leaf, proofs); after != before {
		k.Fail("C14", "modified", "the log verifier modified what it was given")
	}
	if r.Chance(1, 20) {
		if z.v.VerifyInclusionWithPrevLogRoot(nil, newRoot, cons, leaf, proofs) == nil ||
			z.v.VerifyInclusionWithPrevLogRoot(trusted, nil, cons, leaf, proofs) == nil {
			k.Fail("C14", "nil-root", "the log verifier accepts an inclusion without a root")
		}
		if _, err := z.v.VerifyRoot(nil, newRoot, cons); err == nil {
			k.Fail("C14", "nil-root", "the log verifier accepts a root without a trusted one")
		}
		if _, err := z.v.VerifyRoot(trusted, nil, cons); err == nil {
			k.Fail("C14", "nil-root", "the log verifier accepts no root")
		}
		if i := r.Intn(len(z.values)); !bytes.Equal(z.v.HashLeaf(z.values[i]), z.honest[i]) {
			k.Fail("C14", "leaf-hash", "the log verifier computes another hash of a leaf than RFC 6962")
		}
	}
}

// attacks makes many attempts, from roots that the log signed.
func (l *policyLog) attacks(n int) {
	z := newByzantine(l)
	for i := 0; i < n && len(l.list) > 0; i++ {
		z.attack(l.list[l.lies.Intn(len(l.list))])
	}
}

// prev verifies proofs that were obtained earlier against a newer root.
func (c *plogClient) prev(a, b *types.LogRootV1, cons [][]byte) {
	for _, h := range c.held {
		if h.p.STH.TreeSize == a.TreeSize && bytes.Equal(h.p.STH.RootHash, a.RootHash) {
			c.k.Cover("prev-real")
			if err := c.l.ver.VerifyInclusionWithPrevLogRoot(a, b, cons, rfcLeaf(h.leaf), h.p.PoIs); err != nil {
				c.k.Fail("C14", "rejects-prev", "the log verifier rejects an earlier proof of inclusion (%d) with the newer root (%d): %v", a.TreeSize, b.TreeSize, err)
			}
		}
	}
}
