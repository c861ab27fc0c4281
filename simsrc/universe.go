package main

import (
	"crypto/ed25519"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"fmt"
	"math/big"
	"sort"
	"time"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/verifsim/kit"
)

type ID = common.SHA256Output

// xcert is a certificate of the universe.
type xcert struct {
	n      int
	raw    []byte
	id     ID
	ct     *ctx509.Certificate
	parent *xcert
	names  []string // every name the map has to know the certificate by, if it is a leaf
	exp    int64    // NotAfter, unix seconds
	ca     bool
}

func (c *xcert) chain() (l []*xcert) {
	for p := c.parent; p != nil; p = p.parent {
		l = append(l, p)
	}
	return
}

func (c *xcert) String() string {
	if c.ca {
		return fmt.Sprintf("CA%d", c.n)
	}
	return fmt.Sprintf("C%d%v", c.n, c.names)
}

type xpol struct {
	doc  common.PolicyDocument
	id   ID
	raw  []byte
	name string
}

// universe is everything that may be ingested during a run.
type universe struct {
	names  []string
	absent []string // names that never get a certificate
	cas    []*xcert
	leaves []*xcert
	pols   []*xpol
	key    ed25519.PrivateKey
	serial int64
	quirk  *kit.Rng
	byID   map[ID]*xcert
}

type uniConf struct {
	names, cas, leaves, pols int
	expMin, expMax           time.Duration // leaf NotAfter relative to now
	caExpMin, caExpMax       time.Duration
	maxDepth                 int
	oddNames                 bool
	maxNames                 int
	twins                    bool // CAs with several certificates
	long                     bool // long chains
	cross                    bool // CAs have certificates that issued no leaf
	quirks                   bool // certificates CT logs accept despite non fatal problems
}

var tlds = []string{"com", "org", "net", "co.uk", "ch", "github.io", "example", "internal"}

func newUniverse(r *kit.Rng, now time.Time, c uniConf) *universe {
	u := &universe{byID: map[ID]*xcert{}}
	var seed [32]byte
	copy(seed[:], "verif universe key for simulation")
	u.key = ed25519.NewKeyFromSeed(seed[:])
	if c.quirks {
		u.quirk = r
	}
	seen := map[string]bool{}
	add := func(n string) {
		if !seen[n] {
			seen[n] = true
			u.names = append(u.names, n)
		}
	}
	// Often many names share the first bits of their hash: they lie in the same database partition and
	// close together in the tree.
	bits, prefix := 0, uint16(0)
	if r.Chance(2, 5) {
		bits = []int{5, 5, 7, 10}[r.Intn(4)]
		prefix = uint16(r.Intn(1 << bits))
	}
	near := func(format string) string {
		for j := 0; ; j++ {
			n := fmt.Sprintf(format, j)
			h := common.SHA256Hash([]byte(n))
			if (uint16(h[0])<<8|uint16(h[1]))>>(16-bits) == prefix {
				return n
			}
		}
	}
	for i := 0; len(u.names) < c.names; i++ {
		base := fmt.Sprintf("d%d.%s", r.Intn(c.names*2), tlds[r.Intn(len(tlds))])
		switch r.Intn(8) {
		case 0:
			base = "a." + base
		case 1:
			base = fmt.Sprintf("x%d.y.%s", r.Intn(3), base)
		case 2:
			if c.oddNames {
				base = r.Pick("*.", "www.") + base
			}
		case 3:
			if c.oddNames {
				base = r.Pick("Some Org, Inc.", "quote\"d "+base, "com", "münchen.de", "UPPER."+base, "trailing.dot.", "a,b;"+base, "back\\slash "+base, "tab\there", base+"\n"+"two lines")
			}
		}
		if bits > 0 && r.Chance(3, 4) {
			base = near(fmt.Sprintf("n%d-%%d.%s", i, tlds[r.Intn(len(tlds))]))
		}
		add(base)
	}
	for i := 0; i < c.names/3+2; i++ {
		n := fmt.Sprintf("absent%d.%s", i, tlds[r.Intn(len(tlds))])
		if bits > 0 && r.Chance(1, 2) {
			n = near(fmt.Sprintf("absent%d-%%d.%s", i, tlds[r.Intn(len(tlds))]))
		}
		if !seen[n] {
			seen[n] = true
			u.absent = append(u.absent, n)
		}
	}
	for i := 0; i < c.cas; i++ {
		var parent *xcert
		if i > 0 && (r.Chance(2, 3) || c.long && r.Chance(2, 3)) {
			parent = u.cas[r.Intn(i)]
			if c.long {
				parent = u.cas[i-1]
			}
			if len(parent.chain())+1 >= c.maxDepth {
				parent = nil
			}
		}
		exp := now.Add(c.caExpMin + time.Duration(r.Float()*float64(c.caExpMax-c.caExpMin)))
		n := i
		if i > 0 && c.twins && r.Chance(1, 3) { // another certificate of the same CA
			n = u.cas[r.Intn(i)].n
		}
		u.cas = append(u.cas, u.issue(n, fmt.Sprintf("CA %d", n), nil, exp, parent, true))
	}
	issuers := len(u.cas)
	if c.cross {
		// Other certificates of CAs, that issued none of the leaves.
		for i := 0; i < issuers; i++ {
			if !r.Chance(1, 2) {
				continue
			}
			var parent *xcert
			if i > 0 && r.Chance(1, 3) {
				parent = u.cas[r.Intn(i)]
				if len(parent.chain())+1 >= c.maxDepth {
					parent = nil
				}
			}
			exp := now.Add(c.caExpMin + time.Duration(r.Float()*float64(c.caExpMax-c.caExpMin)))
			u.cas = append(u.cas, u.issue(u.cas[i].n, fmt.Sprintf("CA %d", u.cas[i].n), nil, exp, parent, true))
		}
	}
	for i := 0; i < c.leaves; i++ {
		var parent *xcert
		if len(u.cas) > 0 && !r.Chance(1, 12) {
			parent = u.cas[r.Intn(issuers)]
		}
		u.leaf(r, now, c, parent)
	}
	for i := 0; i < c.pols; i++ {
		u.policy(r, now, i)
	}
	return u
}

// any returns a certificate to be submitted: a leaf, seldom a CA.
func (u *universe) any(r *kit.Rng) *xcert {
	if r.Chance(1, 15) && len(u.cas) > 0 {
		return u.cas[r.Intn(len(u.cas))]
	}
	return u.leaves[r.Intn(len(u.leaves))]
}

func (u *universe) leaf(r *kit.Rng, now time.Time, c uniConf, parent *xcert) *xcert {
	var names []string
	mx := c.maxNames
	if mx == 0 {
		mx = 4
	}
	k := r.Range(1, mx)
	if r.Chance(1, 25) {
		k = 0
	}
	for j := 0; j < k; j++ {
		// Popular names get most certificates.
		x := r.Intn(len(u.names))
		if r.Chance(1, 2) {
			x = r.Intn(x + 1)
		}
		names = append(names, u.names[x])
	}
	cn := ""
	if k > 0 && r.Chance(2, 3) {
		cn = names[0]
		if r.Chance(1, 2) {
			names = names[1:]
		}
	}
	exp := now.Add(c.expMin + time.Duration(r.Float()*float64(c.expMax-c.expMin)))
	if c.quirks && r.Chance(1, 30) {
		exp = time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC) // Stands for no expiration.
	}
	x := u.issue(len(u.leaves), cn, names, exp, parent, false)
	u.leaves = append(u.leaves, x)
	return x
}

// byteNames are names that are no host names.
var byteNames = []string{"", " ", "caf\xe9.example", "nul\x00.example", "cr\r.example", "'apostrophe.example", "\\N", "%d.example"}

func (u *universe) issue(n int, cn string, dns []string, exp time.Time, parent *xcert, ca bool) *xcert {
	u.serial++
	exp = exp.UTC().Truncate(time.Second)
	t := &x509.Certificate{
		SerialNumber:          big.NewInt(u.serial),
		Subject:               pkix.Name{CommonName: cn},
		NotBefore:             exp.Add(-90 * 24 * time.Hour),
		NotAfter:              exp,
		BasicConstraintsValid: true,
		IsCA:                  ca,
	}
	for _, d := range dns {
		if asciiOnly(d) {
			t.DNSNames = append(t.DNSNames, d)
		} else {
			t.DNSNames = append(t.DNSNames, "xn--mnchen-3ya.de")
		}
	}
	if u.quirk != nil && u.quirk.Chance(1, 6) {
		if !ca && u.quirk.Chance(1, 3) { // a name of arbitrary bytes
			t.DNSNames = append(t.DNSNames, u.quirk.Pick(byteNames...))
		}
		if san := quirkySAN(t.DNSNames); san != nil {
			t.ExtraExtensions = append(t.ExtraExtensions, pkix.Extension{Id: asn1.ObjectIdentifier{2, 5, 29, 17}, Value: san})
		}
	}
	p := t
	if parent != nil {
		p = &x509.Certificate{Subject: pkix.Name{CommonName: fmt.Sprintf("CA %d", parent.n)}}
	} else {
		p = &x509.Certificate{Subject: t.Subject}
	}
	raw, err := x509.CreateCertificate(nil, t, p, u.key.Public(), u.key)
	if err != nil {
		panic(err)
	}
	if u.quirk != nil && u.quirk.Chance(1, 8) && exp.Year() < 9999 {
		if d := u.quirk.Range(-26, 26) * 1800; d != 0 {
			raw = u.offsetTimes(raw, exp, d)
		}
	}
	ct, err := ctx509.ParseCertificate(raw)
	if ctx509.IsFatal(err) || !ct.NotAfter.Equal(exp) {
		panic(fmt.Sprint("certificate does not parse: ", err))
	}
	c := &xcert{n: n, raw: raw, id: sha256.Sum256(raw), ct: ct, parent: parent, exp: exp.Unix(), ca: ca}
	m := map[string]bool{}
	if cn != "" {
		m[cn] = true
	}
	for _, d := range t.DNSNames {
		m[d] = true
	}
	c.names = kit.SortedKeys(m)
	u.byID[c.id] = c
	return c
}

// offsetTimes states the time of expiration in a time zone, as some certificates do.
func (u *universe) offsetTimes(raw []byte, exp time.Time, offset int) []byte {
	must := func(rest []byte, err error) []byte {
		if err != nil {
			panic(err)
		}
		return rest
	}
	var outer, alg asn1.RawValue
	must(asn1.Unmarshal(raw, &outer))
	var tbs asn1.RawValue
	must(asn1.Unmarshal(must(asn1.Unmarshal(outer.Bytes, &tbs)), &alg))
	var body []byte
	for rest, i := tbs.Bytes, 0; len(rest) > 0; i++ {
		var f asn1.RawValue
		rest = must(asn1.Unmarshal(rest, &f))
		if i == 4 { // validity
			var nb asn1.RawValue
			must(asn1.Unmarshal(f.Bytes, &nb))
			tag, format := asn1.TagUTCTime, "060102150405-0700"
			local := exp.In(time.FixedZone("", offset))
			if y := local.Year(); y >= 2050 {
				tag, format = asn1.TagGeneralizedTime, "20060102150405-0700"
			}
			na, err := asn1.Marshal(asn1.RawValue{Tag: tag, Bytes: []byte(local.Format(format))})
			must(nil, err)
			f.FullBytes, f.Bytes = nil, append(nb.FullBytes[:len(nb.FullBytes):len(nb.FullBytes)], na...)
		}
		b, err := asn1.Marshal(f)
		must(nil, err)
		body = append(body, b...)
	}
	tbsRaw, err := asn1.Marshal(asn1.RawValue{Tag: asn1.TagSequence, IsCompound: true, Bytes: body})
	must(nil, err)
	sig, err := asn1.Marshal(asn1.BitString{Bytes: ed25519.Sign(u.key, tbsRaw), BitLength: 64 * 8})
	must(nil, err)
	cert, err := asn1.Marshal(asn1.RawValue{Tag: asn1.TagSequence, IsCompound: true, Bytes: append(append(tbsRaw[:len(tbsRaw):len(tbsRaw)], alg.FullBytes...), sig...)})
	must(nil, err)
	return cert
}

// quirkySAN encodes the names together with an IP address of invalid length.
func quirkySAN(dns []string) []byte {
	var l []asn1.RawValue
	for _, n := range dns {
		l = append(l, asn1.RawValue{Tag: 2, Class: 2, Bytes: []byte(n)})
	}
	l = append(l, asn1.RawValue{Tag: 7, Class: 2, Bytes: []byte{1, 2, 3, 4, 5}})
	b, err := asn1.Marshal(l)
	if err != nil {
		panic(err)
	}
	return b
}

func asciiOnly(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func (u *universe) policy(r *kit.Rng, now time.Time, i int) *xpol {
	name := u.names[r.Intn(len(u.names))]
	pc := common.NewPolicyCertificate(0, i+1, name, now.Add(-time.Hour).UTC(), now.Add(time.Hour).UTC(), r.Chance(1, 2), r.Chance(1, 2),
		[]byte{1, 2, byte(i)}, common.RSA, common.SHA256, now.UTC(), common.PolicyAttributes{AllowedCAs: []string{"CA 0"}}, nil, nil, nil, []byte{byte(i)}, nil)
	raw, err := pc.Raw()
	if err != nil {
		panic(err)
	}
	p := &xpol{doc: pc, id: sha256.Sum256(raw), raw: raw, name: name}
	u.pols = append(u.pols, p)
	return p
}

// ---- reference model

type model struct {
	certs map[ID]*xcert          // stored certificates
	links map[string]map[ID]bool // name -> certificate IDs
	pols  map[string]map[ID]bool // name -> policy IDs
}

func newModel() *model {
	return &model{map[ID]*xcert{}, map[string]map[ID]bool{}, map[string]map[ID]bool{}}
}

func (m *model) clone() *model {
	n := newModel()
	for k, v := range m.certs {
		n.certs[k] = v
	}
	cp := func(d, s map[string]map[ID]bool) {
		for k, v := range s {
			d[k] = map[ID]bool{}
			for x := range v {
				d[k][x] = true
			}
		}
	}
	cp(n.links, m.links)
	cp(n.pols, m.pols)
	return n
}

func (m *model) addLeaf(c *xcert) {
	m.certs[c.id] = c
	for _, p := range c.chain() {
		m.certs[p.id] = p
	}
	for _, n := range c.names {
		if m.links[n] == nil {
			m.links[n] = map[ID]bool{}
		}
		m.links[n][c.id] = true
	}
}

func (m *model) addPolicy(p *xpol) {
	if m.pols[p.name] == nil {
		m.pols[p.name] = map[ID]bool{}
	}
	m.pols[p.name][p.id] = true
}

// prune removes everything that expires before now, with its descendants.
func (m *model) prune(now int64) (n int) {
	gone := map[ID]bool{}
	var expired func(c *xcert) bool
	expired = func(c *xcert) bool {
		if c.exp < now {
			return true
		}
		if c.parent != nil {
			if _, ok := m.certs[c.parent.id]; ok {
				return expired(c.parent)
			}
		}
		return false
	}
	for id, c := range m.certs {
		if expired(c) {
			gone[id] = true
		}
	}
	for id := range gone {
		delete(m.certs, id)
		for _, l := range m.links {
			delete(l, id)
		}
	}
	return len(gone)
}

func sortIDs(s map[ID]bool) []ID {
	l := make([]ID, 0, len(s))
	for x := range s {
		l = append(l, x)
	}
	sort.Slice(l, func(i, j int) bool { return string(l[i][:]) < string(l[j][:]) })
	return l
}

func glue(l []ID) []byte {
	var b []byte
	for _, x := range l {
		b = append(b, x[:]...)
	}
	return b
}

// entry returns the certificate and policy IDs served for a name.
func (m *model) entry(name string) (certs, pols []ID) {
	s := map[ID]bool{}
	for id := range m.links[name] {
		for c, ok := m.certs[id]; ok && c != nil; {
			s[c.id] = true
			if c.parent == nil {
				break
			}
			c, ok = m.certs[c.parent.id]
		}
	}
	return sortIDs(s), sortIDs(m.pols[name])
}

// mapping is the content of the sparse Merkle tree: domain ID to value.
type mapping map[ID]ID

func (m *model) mapping() mapping {
	r := mapping{}
	names := map[string]bool{}
	for n := range m.links {
		names[n] = true
	}
	for n := range m.pols {
		names[n] = true
	}
	for n := range names {
		c, p := m.entry(n)
		if len(c)+len(p) == 0 {
			continue
		}
		all := map[ID]bool{}
		for _, x := range append(append([]ID{}, c...), p...) {
			all[x] = true
		}
		r[sha256.Sum256([]byte(n))] = sha256.Sum256(glue(sortIDs(all)))
	}
	return r
}

// root computes the reference root (nil for the empty map).
func (m mapping) root() []byte {
	keys := make([]ID, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return string(keys[i][:]) < string(keys[j][:]) })
	if len(keys) == 0 {
		return nil
	}
	return refNode(keys, m, 256)
}

func hcat(parts ...[]byte) []byte {
	h := sha256.New()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func bit(k *ID, i int) bool { return k[i/8]>>(7-i%8)&1 == 1 }

func refNode(keys []ID, m mapping, height int) []byte {
	if len(keys) == 0 {
		return []byte{0}
	}
	if len(keys) == 1 {
		v := m[keys[0]]
		return hcat(keys[0][:], v[:], []byte{byte(height)})
	}
	i := sort.Search(len(keys), func(i int) bool { return bit(&keys[i], 256-height) })
	return hcat(refNode(keys[:i], m, height-1), refNode(keys[i:], m, height-1))
}
