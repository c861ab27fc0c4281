package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common/crypto"
	mapCommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/prover"
	"github.com/netsec-ethz/fpki/verifsim/kit"
)

// forger plays a map server (or somebody on the way) that alters responses to make a verifying client
// believe something false. It knows every honest response and every map ever published.
type forger struct {
	w    *world
	r    *kit.Rng
	reg  registry
	pool map[string][]*mapCommon.MapServerResponse // honest responses by root
	all  []*mapCommon.MapServerResponse
	keys []ID
}

func cloneResp(r *mapCommon.MapServerResponse) *mapCommon.MapServerResponse {
	b, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	c := &mapCommon.MapServerResponse{}
	if err := json.Unmarshal(b, c); err != nil {
		panic(err)
	}
	return c
}

func (f *forger) learn(rs ...*mapCommon.MapServerResponse) {
	for _, r := range rs {
		if r == nil || r.DomainEntry == nil {
			continue
		}
		r = cloneResp(r)
		k := sigOfRoot(r.PoI.Root)
		if len(f.pool[k]) < 200 {
			f.pool[k] = append(f.pool[k], r)
			f.all = append(f.all, r)
		}
	}
}

func (f *forger) id() []byte {
	k := f.keys[f.r.Intn(len(f.keys))]
	return append([]byte{}, k[:]...)
}

func (f *forger) bytes() []byte {
	r := f.r
	switch r.Intn(6) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return []byte{0}
	case 3:
		return f.id()
	}
	b := make([]byte, []int{1, 31, 32, 33, 64, 65}[r.Intn(6)])
	for i := range b {
		b[i] = byte(r.U64())
	}
	return b
}

// node returns some hash that occurs in the tree of the response.
func (f *forger) node(p *mapCommon.MapServerResponse) []byte {
	if n := len(p.PoI.Proof); n > 0 {
		return p.PoI.Proof[f.r.Intn(n)]
	}
	return []byte{0}
}

func commonBits(a, b *ID) int {
	for i := 0; i < 256; i++ {
		if bit(a, i) != bit(b, i) {
			return i
		}
	}
	return 256
}

// mutate returns an altered response and what was done.
func (f *forger) mutate(p *mapCommon.MapServerResponse) (*mapCommon.MapServerResponse, string) {
	r := f.r
	m := cloneResp(p)
	peers := f.pool[sigOfRoot(p.PoI.Root)]
	q := cloneResp(peers[r.Intn(len(peers))])
	ap := &m.PoI.Proof
	switch r.Intn(22) {
	case 0: // flip a bit
		if len(*ap) == 0 {
			return m, "none"
		}
		x := (*ap)[r.Intn(len(*ap))]
		if len(x) == 0 {
			return m, "none"
		}
		x[r.Intn(len(x))] ^= 1 << r.Intn(8)
		return m, "flip a bit of the proof"
	case 1:
		m.DomainEntry.DomainValue[r.Intn(32)] ^= 1 << r.Intn(8)
		if r.Chance(1, 2) {
			m.PoI.ProofValue = append([]byte{}, m.DomainEntry.DomainValue[:]...)
		}
		return m, "change the value"
	case 2:
		m.DomainEntry.DomainID = q.DomainEntry.DomainID
		return m, "another domain with the same proof"
	case 3:
		m.DomainEntry = q.DomainEntry
		return m, "another entry with the same proof"
	case 4: // the proof of one domain shows the absence of another one
		m.PoI = q.PoI
		m.PoI.ProofType = mapCommon.PoA
		m.PoI.ProofKey = append([]byte{}, q.DomainEntry.DomainID[:]...)
		return m, "absence by the leaf of another domain"
	case 5: // ... of its closest neighbour
		best, bq := -1, q
		for _, x := range peers {
			if x.PoI.ProofType == mapCommon.PoP && x.DomainEntry.DomainID != m.DomainEntry.DomainID {
				if c := commonBits(&x.DomainEntry.DomainID, &m.DomainEntry.DomainID); c > best {
					best, bq = c, x
				}
			}
		}
		q = cloneResp(bq)
		m.PoI = q.PoI
		m.PoI.ProofType = mapCommon.PoA
		m.PoI.ProofKey = append([]byte{}, q.DomainEntry.DomainID[:]...)
		return m, "absence by the leaf of the closest domain"
	case 6:
		m.PoI.ProofType = mapCommon.PoA
		if r.Chance(1, 2) {
			m.PoI.ProofKey = append([]byte{}, m.DomainEntry.DomainID[:]...)
		}
		return m, "presence shown as absence"
	case 7:
		m.PoI.ProofType = mapCommon.PoP
		copy(m.DomainEntry.DomainValue[:], m.PoI.ProofValue)
		if r.Chance(1, 2) {
			copy(m.DomainEntry.DomainID[:], m.PoI.ProofKey)
		}
		return m, "absence shown as presence"
	case 8:
		if n := len(*ap); n > 0 {
			i, j := r.Intn(n+1), r.Intn(n+1)
			if i > j {
				i, j = j, i
			}
			*ap = append((*ap)[:i:i], (*ap)[j:]...)
		}
		m.PoI.ProofType = mapCommon.ProofType(r.Intn(2))
		if r.Chance(1, 2) {
			m.PoI.ProofKey = f.bytes()
		}
		return m, "shortened proof"
	case 9:
		n := r.Range(1, 3)
		if r.Chance(1, 8) {
			n = r.Range(200, 600)
		}
		x := f.node(m)
		for i := 0; i < n; i++ {
			if r.Chance(1, 2) {
				*ap = append(*ap, x)
			} else {
				*ap = append([][]byte{x}, *ap...)
			}
		}
		return m, "prolonged proof"
	case 10: // an interior node passed off as a leaf, or as a value
		m.PoI.ProofType = mapCommon.ProofType(r.Intn(2))
		a, b := f.node(m), f.node(q)
		m.PoI.ProofKey, m.PoI.ProofValue = a, b
		copy(m.DomainEntry.DomainValue[:], b)
		if r.Chance(1, 2) {
			copy(m.DomainEntry.DomainID[:], a)
		}
		return m, "interior nodes as leaf"
	case 11: // the preimage of a node split at another place
		if len(*ap) > 0 {
			i := r.Intn(len(*ap))
			x := append(append([]byte{}, (*ap)[i]...), f.node(q)...)
			c := r.Intn(len(x) + 1)
			(*ap)[i] = x[:c]
			m.PoI.ProofKey, m.PoI.ProofValue = x[c:], nil
		}
		m.PoI.ProofType = mapCommon.ProofType(r.Intn(2))
		return m, "nodes split elsewhere"
	case 12: // a leaf as an interior node
		*ap = append([][]byte{append([]byte{}, m.DomainEntry.DomainID[:]...)}, *ap...)
		m.PoI.ProofType = mapCommon.PoA
		m.PoI.ProofKey = nil
		if r.Chance(1, 2) {
			(*ap)[0] = append((*ap)[0], m.DomainEntry.DomainValue[:]...)
		}
		return m, "leaf as interior node"
	case 13:
		m.PoI.Root = f.bytes()
		return m, "another root"
	case 14:
		o := f.all[r.Intn(len(f.all))]
		m.PoI.Root = o.PoI.Root
		if r.Chance(1, 2) {
			m.TreeHeadSig = o.TreeHeadSig
		}
		return m, "the root of another time"
	case 15:
		if n := len(m.TreeHeadSig); n > 0 {
			m.TreeHeadSig[r.Intn(n)] ^= 1 << r.Intn(8)
			m.PoI.Root = append([]byte{}, m.PoI.Root...)
			if len(m.PoI.Root) > 0 {
				m.PoI.Root[r.Intn(len(m.PoI.Root))] ^= 1
			}
		}
		return m, "signature changed"
	case 16:
		m.TreeHeadSig = f.bytes()
		m.DomainEntry.DomainValue = sha256.Sum256(m.TreeHeadSig)
		return m, "no signature"
	case 17:
		m.PoI.ProofKey, m.PoI.ProofValue = f.bytes(), f.bytes()
		m.PoI.ProofType = mapCommon.ProofType(r.Range(-1, 3))
		return m, "arbitrary proof key and value"
	case 18:
		if len(*ap) > 0 {
			(*ap)[r.Intn(len(*ap))] = f.bytes()
		}
		return m, "arbitrary proof node"
	case 19:
		if len(*ap) > 1 {
			i := r.Intn(len(*ap) - 1)
			(*ap)[i], (*ap)[i+1] = (*ap)[i+1], (*ap)[i]
		}
		return m, "proof nodes exchanged"
	case 20:
		*ap = nil
		m.PoI.ProofType = mapCommon.ProofType(r.Intn(2))
		m.PoI.ProofKey = f.bytes()
		return m, "empty proof"
	default: // a sibling subtree replaced by nothing, or the path cut at an interior node
		if len(*ap) > 0 {
			i := r.Intn(len(*ap))
			*ap = append([][]byte{}, (*ap)[i:]...)
			m.PoI.ProofType = mapCommon.PoA
			if r.Chance(1, 2) {
				m.PoI.ProofKey, m.PoI.ProofValue = nil, nil
			} else {
				m.PoI.ProofKey, m.PoI.ProofValue = q.PoI.ProofKey, q.PoI.ProofValue
			}
		}
		return m, "path cut"
	}
}

// emptySplit forges the absence of a present domain where the tree makes it possible: a node with one
// child hashes the child and a single zero byte, and when the bytes allow it the same preimage is
// read as a node whose other child is there.
func (f *forger) emptySplit(p *mapCommon.MapServerResponse) *mapCommon.MapServerResponse {
	if p.PoI.ProofType != mapCommon.PoP {
		return nil
	}
	ap, id := p.PoI.Proof, p.DomainEntry.DomainID
	h := hcat(id[:], p.PoI.ProofValue, []byte{byte(256 - len(ap))})
	for i := range ap { // from the leaf to the root
		right := bit(&id, len(ap)-1-i)
		if bytes.Equal(ap[i], []byte{0}) {
			var sib []byte
			if !right && h[0] == 0 { // h ‖ 0  =  0 ‖ sib
				sib = append(append([]byte{}, h[1:]...), 0)
			}
			if right && h[31] == 0 { // 0 ‖ h  =  sib ‖ 0
				sib = append([]byte{0}, h[:31]...)
			}
			if sib != nil {
				m := cloneResp(p)
				m.PoI.ProofType, m.PoI.ProofKey, m.PoI.ProofValue = mapCommon.PoA, nil, nil
				m.PoI.Proof = append([][]byte{sib}, cloneResp(p).PoI.Proof[i+1:]...)
				return m
			}
		}
		if right {
			h = hcat(ap[i], h)
		} else {
			h = hcat(h, ap[i])
		}
	}
	return nil
}

// accepts is the verifying client: it looks only at the statement about the domain and the root.
func accepts(m *mapCommon.MapServerResponse) (absent, ok bool) {
	t, v, err := prover.VerifyProofByDomain(m)
	if err != nil || !v {
		return
	}
	if crypto.VerifySignedBytes(m.PoI.Root, m.TreeHeadSig, &serverKey.PublicKey) != nil {
		return
	}
	return t == mapCommon.PoA, true
}

// judge checks the statement of an accepted altered response.
func (f *forger) judge(m *mapCommon.MapServerResponse, what string) {
	k := f.w.k
	k.Check()
	absent, ok := accepts(m)
	if !ok {
		return
	}
	k.Cover("altered-but-true")
	mp, known := f.reg[sigOfRoot(m.PoI.Root)]
	if !known {
		k.Fail("C05", "forged:root", "%s: accepted under root %x, which the server never published", what, short(m.PoI.Root))
		return
	}
	v, in := mp[m.DomainEntry.DomainID]
	if absent && in {
		sig := "forged:absence"
		if what == "empty split" {
			sig = "forged:empty-split"
		}
		k.Fail("C05", sig, "%s: a client accepts that domain %x is absent from the map %x, which holds it", what, short(m.DomainEntry.DomainID[:]), short(m.PoI.Root))
	}
	if !absent && (!in || v != m.DomainEntry.DomainValue) {
		k.Fail("C05", "forged:presence", "%s: a client accepts a value for domain %x which the map %x does not hold", what, short(m.DomainEntry.DomainID[:]), short(m.PoI.Root))
	}
}

// attack alters responses n times.
func (f *forger) attack(n int) {
	k := f.w.k
	if len(f.all) == 0 {
		return
	}
	client := k.NewNode()
	what := ""
	t := k.Go(client, "attack", func() {
		for _, p := range f.all {
			if m := f.emptySplit(p); m != nil {
				what = "empty split"
				k.Cover("empty-split")
				f.judge(m, what)
			}
		}
		for i := 0; i < n; i++ {
			p := f.all[f.r.Intn(len(f.all))]
			if f.r.Chance(1, 2) { // of the newest maps
				p = f.all[len(f.all)-1-f.r.Intn(min(len(f.all), 30))]
			}
			m, s := f.mutate(p)
			what = s
			if f.r.Chance(1, 3) {
				m, s = f.mutate2(m)
				what += ", " + s
			}
			f.judge(m, what)
		}
		for i := 0; i < n/4; i++ {
			b, _ := json.Marshal(f.all[f.r.Intn(len(f.all))])
			what = "damaged JSON"
			f.garbage(b)
		}
	})
	o := k.Wait(time.Hour, t)
	if o == kit.Panicked {
		m, wh := kit.PanicText(kit.LastPanic)
		k.Fail("C05", "client-panic:"+wh, "%s: the client panics in %s: %s", what, wh, m)
		k.Stop()
	}
	if o != kit.Done {
		k.Fail("C05", "client-hang", "%s: the client does not finish (%s)", what, o)
		k.Stop()
	}
	k.Kill(client)
	k.Cover("attack")
}

// mutate2 alters an already altered response.
func (f *forger) mutate2(m *mapCommon.MapServerResponse) (*mapCommon.MapServerResponse, string) {
	if len(f.pool[sigOfRoot(m.PoI.Root)]) == 0 {
		return m, ""
	}
	return f.mutate(m)
}

// garbage hands the client damaged bytes.
func (f *forger) garbage(b []byte) {
	r := f.r
	switch r.Intn(4) {
	case 0:
		b = b[:r.Intn(len(b)+1)]
	case 1:
		for i := 0; i < r.Range(1, 4); i++ {
			b[r.Intn(len(b))] = byte(r.U64())
		}
	case 2:
		for _, k := range []string{`"Proof"`, `"Root"`, `"DomainEntry"`, `"ProofValue"`, `"DomainID"`, `"PoI"`, `"TreeHeadSig"`, `"ProofType"`} {
			if r.Chance(1, 3) {
				b = bytes.Replace(b, []byte(k), []byte(fmt.Sprintf(`"x%d"`, r.Intn(9))), 1)
			}
		}
	case 3:
		i, j := r.Intn(len(b)), r.Intn(len(b))
		if i > j {
			i, j = j, i
		}
		b = append(b[:i:i], b[j:]...)
	}
	var m *mapCommon.MapServerResponse
	if json.Unmarshal(b, &m) != nil {
		return
	}
	if m == nil || m.DomainEntry == nil {
		prover.VerifyProofByDomain(m)
		return
	}
	f.judge(m, "damaged JSON")
}
