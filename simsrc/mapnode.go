package main

import (
	"bytes"
	"context"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	_ "embed"
	"encoding/pem"
	"fmt"
	"strings"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/common/crypto"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/db/mysql"
	"github.com/netsec-ethz/fpki/pkg/domain"
	mapCommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/prover"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
	"github.com/netsec-ethz/fpki/verifsim/kit"
)

//go:embed serverkey.pem
var serverKeyPEM []byte

//go:embed servercert.pem
var serverCertPEM []byte

var serverKey = func() *rsa.PrivateKey {
	b, _ := pem.Decode(serverKeyPEM)
	k, err := x509.ParsePKCS1PrivateKey(b.Bytes)
	if err != nil {
		panic(err)
	}
	return k
}()

// runner runs work on processes and classifies how it ends.
type attempt struct {
	outcome kit.Outcome
	err     error
}

func (a attempt) ok() bool { return a.outcome == kit.Done && a.err == nil }

func (a attempt) String() string {
	if a.outcome == kit.Done && a.err != nil {
		s := a.err.Error()
		if len(s) > 300 {
			s = s[:300]
		}
		return "error: " + s
	}
	return a.outcome.String()
}

// do runs fn on node n.
func (w *world) do(n uint32, what string, timeout time.Duration, fn func() error) attempt {
	var err error
	t := w.k.Go(n, what, func() { err = fn() })
	o := w.k.Wait(timeout, t)
	a := attempt{o, err}
	w.k.Tracef("%s: %s", what, a)
	if w.db.Unsupported != "" {
		w.k.Inconclusive("simulated database: unsupported: %s", w.db.Unsupported)
	}
	if o == kit.Panicked {
		m, wh := kit.PanicText(kit.LastPanic)
		w.k.Fail("", "panic:"+wh, "%s: the process panics in %s: %s", what, wh, m)
		w.k.Kill(n)
		a.outcome = kit.Killed
	}
	if o == kit.Hung || o == kit.Timeout || o == kit.Stuck {
		w.k.Fail("", "hang:"+what, "%s does not finish within %s (%s)", what, timeout, o)
		w.k.Stop()
	}
	return a
}

// quiet runs fn on a fresh process without faults; it has to succeed.
func (w *world) quietly(what string, fn func() error) error {
	q := w.k.IsQuiet()
	w.k.Quiet(true)
	n := w.k.NewNode()
	a := w.do(n, what, time.Hour, fn)
	w.k.Quiet(q)
	w.k.Kill(n)
	if a.outcome != kit.Done {
		return fmt.Errorf("%s", a.outcome)
	}
	return a.err
}

// refVerify checks a Merkle proof independently of the code under test.
func refVerify(root []byte, ap [][]byte, key ID, leaf []byte) bool {
	h := leaf
	d := len(ap)
	if d > 256 {
		return false
	}
	for i := 0; i < d; i++ {
		if len(ap[i]) != 32 && !(len(ap[i]) == 1 && ap[i][0] == 0) {
			return false
		}
		if bit(&key, d-1-i) {
			h = hcat(ap[i], h)
		} else {
			h = hcat(h, ap[i])
		}
	}
	return bytes.Equal(h, root)
}

// auditTree reads the whole map stored under the root that the database publishes, through the
// code under test, and checks every answer with the independent verifier.
func (w *world) auditTree(keys []ID) (root []byte, m mapping, err error) {
	m = mapping{}
	err = w.quietly("audit", func() error {
		c, err := mysql.Connect(dbConfig())
		if err != nil {
			return err
		}
		defer c.Close()
		ctx := context.Background()
		r, err := c.LoadRoot(ctx)
		if err != nil {
			return err
		}
		if r != nil {
			root = r[:]
		}
		t, err := trie.NewTrie(root, common.SHA256Hash, c)
		if err != nil {
			return err
		}
		for _, key := range keys {
			ap, in, pk, pv, err := t.MerkleProof(ctx, key[:])
			if err != nil {
				return fmt.Errorf("key %x: %w", key[:4], err)
			}
			if in {
				var v ID
				copy(v[:], pv)
				if !refVerify(root, ap, key, hcat(key[:], pv, []byte{byte(256 - len(ap))})) {
					return fmt.Errorf("key %x: inclusion proof does not match the root", key[:4])
				}
				m[key] = v
				continue
			}
			if root == nil {
				continue
			}
			leaf := []byte{0}
			if pk != nil {
				leaf = hcat(pk, pv, []byte{byte(256 - len(ap))})
			}
			var lk ID
			copy(lk[:], key[:])
			if pk != nil {
				copy(lk[:], pk)
				for b := 0; b < len(ap); b++ {
					if bit(&lk, b) != bit(&key, b) {
						return fmt.Errorf("key %x: absence proof is about another path", key[:4])
					}
				}
				if lk == key {
					return fmt.Errorf("key %x: absence shown with the key itself", key[:4])
				}
			}
			if !refVerify(root, ap, lk, leaf) {
				return fmt.Errorf("key %x: absence proof does not match the root", key[:4])
			}
		}
		if !bytes.Equal(m.root(), root) {
			return fmt.Errorf("the tree under root %x holds something else than the %d known domains found in it", root[:4], len(m))
		}
		return nil
	})
	return
}

func (u *universe) keys() (l []ID) {
	for _, n := range u.names {
		l = append(l, sha256.Sum256([]byte(n)))
	}
	l = append(l, sha256.Sum256([]byte("xn--mnchen-3ya.de")))
	if u.quirk != nil {
		for _, n := range byteNames {
			l = append(l, sha256.Sum256([]byte(n)))
		}
	}
	for _, n := range u.absent {
		l = append(l, sha256.Sum256([]byte(n)))
	}
	for _, c := range u.cas {
		for _, n := range c.names {
			l = append(l, sha256.Sum256([]byte(n)))
		}
	}
	return
}

func eqMapping(a, b mapping) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// diffMapping describes how got differs from want.
func (u *universe) diffMapping(want, got mapping) string {
	var s []string
	name := func(id ID) string {
		for _, n := range append(append([]string{}, u.names...), u.absent...) {
			if sha256.Sum256([]byte(n)) == id {
				return fmt.Sprintf("%q", n)
			}
		}
		return fmt.Sprintf("%x", id[:4])
	}
	for _, k := range u.keys() {
		w, ok1 := want[k]
		g, ok2 := got[k]
		switch {
		case ok1 && !ok2:
			s = append(s, name(k)+" missing")
		case !ok1 && ok2:
			s = append(s, name(k)+" should be absent")
		case ok1 && ok2 && w != g:
			s = append(s, name(k)+" has the wrong value")
		}
	}
	if len(s) > 6 {
		s = append(s[:6], fmt.Sprintf("and %d more", len(s)-6))
	}
	return strings.Join(s, ", ")
}

// clientAccepts is what a verifying client does with a response.
func clientAccepts(r *mapCommon.MapServerResponse) (accepted bool, sig bool, perr error) {
	sig = crypto.VerifySignedBytes(r.PoI.Root, r.TreeHeadSig, &serverKey.PublicKey) == nil
	_, ok, err := prover.VerifyProofByDomain(r)
	return sig && ok && err == nil, sig, err
}

func sigOfRoot(root []byte) string { return string(root) }

// registry knows which map belongs to each root ever published.
type registry map[string]mapping

func (g registry) add(m mapping) { g[sigOfRoot(m.root())] = m }

// judge checks that an accepted response tells the truth about the map its root commits to.
func (w *world) judge(g registry, r *mapCommon.MapServerResponse, how string) {
	k := w.k
	k.Check()
	acc, sig, _ := clientAccepts(r)
	if !sig {
		k.Fail("C06", "signature:"+how, "%s: the signature in the response for %q does not verify over the root in it (root %x)", how, r.DomainEntry.DomainName, short(r.PoI.Root))
	}
	if !acc {
		if sig {
			k.Fail("C05", "rejected:"+how, "%s: the response for %q under root %x does not verify", how, r.DomainEntry.DomainName, short(r.PoI.Root))
		}
		return
	}
	m, ok := g[sigOfRoot(r.PoI.Root)]
	if !ok {
		k.Fail("C05", "unknown-root:"+how, "%s: response for %q verifies under root %x which is no map ever published", how, r.DomainEntry.DomainName, short(r.PoI.Root))
		return
	}
	de := r.DomainEntry
	v, in := m[de.DomainID]
	if r.PoI.ProofType == mapCommon.PoA && in {
		k.Fail("C05", "false-absence:"+how, "%s: accepted proof that %q is absent from the map %x in which it is present", how, de.DomainName, short(r.PoI.Root))
	}
	if r.PoI.ProofType == mapCommon.PoP {
		if !in || v != de.DomainValue {
			k.Fail("C05", "false-presence:"+how, "%s: accepted proof of a value for %q which the map %x does not hold", how, de.DomainName, short(r.PoI.Root))
		}
		all := append(common.BytesToIDs(de.CertIDs), common.BytesToIDs(de.PolicyIDs)...)
		if sha256.Sum256(common.SortIDsAndGlue(all)) != de.DomainValue {
			k.Fail("C05", "ids-mismatch:"+how, "%s: the certificate and policy IDs served for %q do not hash to the proven value", how, de.DomainName)
		}
	}
}

func short(b []byte) []byte {
	if len(b) > 4 {
		return b[:4]
	}
	return b
}

// expectHonest checks the complete answer for a name against the model.
func (w *world) expectHonest(m *model, name string, resp []*mapCommon.MapServerResponse, how string) {
	k := w.k
	parts, err := domain.ParseDomainName(name)
	if err != nil {
		return
	}
	if len(resp) != len(parts) {
		k.Fail("C05", "parts", "%s: %q: %d responses for %d name components", how, name, len(resp), len(parts))
		return
	}
	for i, p := range parts {
		r := resp[i]
		k.Check()
		if r.DomainEntry == nil || r.DomainEntry.DomainName != p || r.DomainEntry.DomainID != sha256.Sum256([]byte(p)) {
			k.Fail("C05", "wrong-domain", "%s: the response for component %q of %q is about another domain", how, p, name)
			return
		}
		acc, sig, perr := clientAccepts(r)
		if !sig {
			k.Fail("C06", "signature:"+how, "%s: tree head signature for %q does not verify over the root in the same response", how, p)
		}
		if !acc && sig {
			k.Fail("C05", "rejected:"+how, "%s: the honest proof for %q does not verify (%v)", how, p, perr)
		}
		certs, pols := m.entry(p)
		want := mapCommon.PoA
		if len(certs)+len(pols) > 0 {
			want = mapCommon.PoP
		}
		if r.PoI.ProofType != want {
			k.Fail("C01", "presence", "%s: %q: proof type %d, want %d (%d certificates, %d policies)", how, p, r.PoI.ProofType, want, len(certs), len(pols))
			continue
		}
		if want == mapCommon.PoP {
			if !bytes.Equal(r.DomainEntry.CertIDs, glue(certs)) {
				k.Fail("C01", "cert-ids", "%s: %q serves %d certificates, want %d: %s", how, p, len(r.DomainEntry.CertIDs)/32, len(certs), idDiff(certs, r.DomainEntry.CertIDs))
			}
			if !bytes.Equal(r.DomainEntry.PolicyIDs, glue(pols)) {
				k.Fail("C01", "policy-ids", "%s: %q serves %d policies, want %d", how, p, len(r.DomainEntry.PolicyIDs)/32, len(pols))
			}
		}
	}
}

func idDiff(want []ID, got []byte) string {
	g := map[ID]bool{}
	for _, x := range common.BytesToIDs(got) {
		g[x] = true
	}
	var s []string
	for _, x := range want {
		if !g[x] {
			s = append(s, fmt.Sprintf("%x missing", x[:4]))
		}
		delete(g, x)
	}
	for x := range g {
		s = append(s, fmt.Sprintf("%x unexpected", x[:4]))
	}
	if s == nil {
		return "wrong order"
	}
	return strings.Join(s, ", ")
}

var _ db.Conn

func validName(n string) bool {
	_, err := domain.ParseDomainName(n)
	return err == nil
}

// payloads checks that the payload lookups return exactly what was stored, or an error.
func (x *mapdbRun) payloads(nf int) {
	k := x.k
	ctx := context.Background()
	r := x.r
	var ids, cids, pids []ID
	want := map[ID][]byte{}
	for _, c := range append(append([]*xcert{}, x.u.leaves...), x.u.cas...) {
		if r.Chance(1, 2) {
			ids, cids = append(ids, c.id), append(cids, c.id)
		}
		if x.m.certs[c.id] != nil {
			want[c.id] = c.raw
		}
	}
	for _, p := range x.u.pols {
		ids, pids = append(ids, p.id), append(pids, p.id)
		if x.m.pols[p.name][p.id] {
			want[p.id] = p.raw
		}
	}
	for _, l := range []*[]ID{&ids, &cids, &pids} {
		if r.Chance(1, 4) && len(*l) > 0 { // some several times, or unknown
			for j := r.Range(1, 3); j > 0; j-- {
				*l = append(*l, (*l)[r.Intn(len(*l))])
			}
			if l == &ids {
				*l = append(*l, sha256.Sum256([]byte("unknown")))
			}
		}
	}
	for i, j := range r.Perm(len(ids)) {
		ids[i], ids[j] = ids[j], ids[i]
	}
	check := func(what string, ids []ID, got [][]byte, err error) {
		k.Check()
		if err != nil {
			if k.NFaults() == nf {
				k.Fail("C09", "payload-error:"+what, "%s fails although nothing went wrong: %v", what, err)
			}
			return
		}
		if len(got) != len(ids) {
			k.Fail("C09", "payload-count:"+what, "%s returns %d payloads for %d IDs without an error", what, len(got), len(ids))
			return
		}
		for i, id := range ids {
			if !bytes.Equal(got[i], want[id]) {
				sig := "payload-lost"
				if len(got[i]) > 0 {
					sig = "payload-wrong"
				}
				k.Fail("C09", sig+":"+what, "%s returns no error but %d instead of %d bytes for stored object %x", what, len(got[i]), len(want[id]), id[:4])
			}
		}
	}
	x.do(x.node, "payloads", 10*time.Hour, func() error {
		for i := 0; i < 3; i++ {
			if len(ids) > 0 {
				p, err := x.conn.RetrieveCertificateOrPolicyPayloads(ctx, ids)
				check("RetrieveCertificateOrPolicyPayloads", ids, p, err)
			}
			if len(cids) > 0 {
				p, err := x.conn.RetrieveCertificatePayloads(ctx, cids)
				check("RetrieveCertificatePayloads", cids, p, err)
				b, err := x.conn.CheckCertsExist(ctx, cids)
				if err == nil {
					for i, id := range cids {
						if b[i] != (want[id] != nil) {
							k.Fail("C09", "exists", "CheckCertsExist says %v for certificate %x", b[i], id[:4])
						}
					}
				}
			}
			if len(pids) > 0 {
				p, err := x.conn.RetrievePolicyPayloads(ctx, pids)
				check("RetrievePolicyPayloads", pids, p, err)
			}
		}
		return nil
	})
}
