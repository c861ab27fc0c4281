package main

import (
	"bytes"
	stdcrypto "crypto"
	"crypto/rsa"
	"crypto/sha256"
	_ "embed"
	"encoding/pem"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/common/crypto"
	"github.com/netsec-ethz/fpki/pkg/domainowner"
	"github.com/netsec-ethz/fpki/pkg/pca"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/verifsim/kit"
	"github.com/netsec-ethz/fpki/verifsim/simfs"
)

// Scenario pca: a policy CA, the CT log servers it submits to, domain owners with their keys, and
// others who try to get certificates for their domains. CA and domain owners are real code; the log
// servers belong to the simulator, they fail before or after having done their work.

func init() {
	register(&scenario{name: "pca", run: pcaScenario, preempts: []uint64{0, 3, 20, 200}})
}

//go:embed pcakeys.pem
var pcaKeysPEM []byte

type pcaKey struct {
	key *rsa.PrivateKey
	der []byte
}

// pcaCert is a certificate that may act as an owner.
type pcaCert struct {
	cert *common.PolicyCertificate
	key  *pcaKey
	hash []byte
	json string
}

type pcaWorld struct {
	k     *kit.Kit
	r     *kit.Rng
	n     uint32
	fs    *simfs.FS
	keys  []*pcaKey
	rootK *pcaKey
	root  *common.PolicyCertificate
	logs  map[string]*pcaKey // URL -> key
	pca   *pca.PCA

	issued  []*pcaCert // by this CA (or configured)
	foreign []*pcaCert // by nobody known
	serials map[int]string
	stored  map[[32]byte]string // expected store

	// submission in progress
	cur     *common.PolicyCertificateSigningRequest
	curJSON string
	spts    []string
	asked   map[string]int
	final   map[string]string // URL -> certificate
	touched int
	failed  int
	round   int
	bad     string
}

const pcaConfigFile = "/data/pca.json"

func js(x any) string {
	b, err := common.ToJSON(x)
	if err != nil {
		return "unserialisable: " + err.Error()
	}
	return string(b)
}

// signerHash is the identifier of a certificate as an owner or issuer.
func signerHash(c *common.PolicyCertificate) []byte {
	x := *c
	x.SPCTs, x.IssuerSignature = nil, nil
	h := sha256.Sum256([]byte(js(&x)))
	return h[:]
}

func verifies(key *pcaKey, content string, sig []byte) bool {
	h := sha256.Sum256([]byte(content))
	return rsa.VerifyPKCS1v15(&key.key.PublicKey, stdcrypto.SHA256, h[:], sig) == nil
}

func ownerContent(c *common.PolicyCertificate) string {
	x := *c
	x.SPCTs, x.IssuerSignature, x.IssuerHash, x.OwnerSignature = nil, nil, nil, nil
	return js(&x)
}

func issuerContent(c *common.PolicyCertificate) string {
	x := *c
	x.IssuerSignature = nil
	return js(&x)
}

func pcaScenario(k *kit.Kit) {
	w := &pcaWorld{k: k, r: k.Rand("pca"), logs: map[string]*pcaKey{}, serials: map[int]string{}, stored: map[[32]byte]string{}}
	r := w.r
	w.fs = simfs.New(k, "/data")
	for rest := pcaKeysPEM; ; {
		var b *pem.Block
		if b, rest = pem.Decode(rest); b == nil {
			break
		}
		key, err := util.RSAKeyFromPEM(pem.EncodeToMemory(b))
		if err != nil {
			k.Fail("", "key", "the PEM encoding of an RSA key is not read: %v", err)
			return
		}
		der, err := util.RSAPublicToDERBytes(&key.PublicKey)
		if err != nil {
			k.Fail("", "key", "the public key is not encoded: %v", err)
			return
		}
		w.keys = append(w.keys, &pcaKey{key, der})
	}
	w.rootK = w.keys[0]
	now := time.Now()
	w.root = common.NewPolicyCertificate(r.Intn(3), r.Intn(1000), []string{"", "ca.org"}[r.Intn(2)], now.Add(-time.Hour*time.Duration(r.Range(1, 1000))),
		now.Add(time.Hour*time.Duration(r.Range(1000, 5000))), true, r.Chance(1, 2), w.rootK.der, common.RSA, common.SHA256, now, common.PolicyAttributes{}, nil, nil, nil, nil, nil)
	if r.Chance(1, 2) {
		w.root.IssuerSignature = []byte{1, 2, 3}
		w.root.SPCTs = []common.SignedPolicyCertificateTimestamp{*common.NewSignedPolicyCertificateTimestamp(1, []byte{9}, now, []byte{8})}
	}
	w.n = k.NewNode()
	if r.Chance(1, 2) {
		k.SetRate("pca.log", []float64{0.05, 0.1, 0.3}[r.Intn(3)])
	}
	w.start()
	if w.pca == nil {
		return
	}
	for i := range r.Intn(3) {
		// An owner the CA was configured with.
		o := w.keys[1+r.Intn(len(w.keys)-1)]
		c := w.makeCert(fmt.Sprintf("conf%d.org", i), o, true)
		if r.Chance(1, 2) {
			w.foreign = append(w.foreign, c)
			continue
		}
		id := [32]byte(c.hash)
		w.pca.DB[id] = c.cert
		w.stored[id] = c.json
		w.issued = append(w.issued, c)
	}
	ops := r.Range(3, 12)
	for i := 0; i < ops; i++ {
		w.op(i)
	}
	k.Quiet(true)
	// Without faults every proper request is granted.
	w.request(ops, 0)
	k.Res.Nontriv = len(w.issued) > 1
}

func (w *pcaWorld) makeCert(name string, key *pcaKey, own bool) *pcaCert {
	now := time.Now()
	c := common.NewPolicyCertificate(1, w.r.Intn(1000), name, now.Add(-time.Minute), now.Add(time.Hour), false, own, key.der, common.RSA, common.SHA256, now,
		common.PolicyAttributes{}, nil, nil, nil, []byte{4, 5}, nil)
	return &pcaCert{c, key, signerHash(c), js(c)}
}

// start writes the configuration and starts the CA.
func (w *pcaWorld) start() {
	k, r := w.k, w.r
	conf := &pca.PCAConfig{CAName: "pca", KeyPEM: util.RSAKeyToPEM(w.rootK.key), CertJSON: []byte(js(w.root))}
	for i := range r.Range(1, 4) {
		key := w.keys[1+i]
		e := pca.CTLogServerEntryConfig{Name: fmt.Sprintf("log %d", i), URL: fmt.Sprintf("https://log%d.org/ct", i), PublicKeyDER: key.der}
		w.logs[e.URL] = key
		conf.CTLogServers = append(conf.CTLogServers, e)
	}
	w.fs.SiteOf = func(string) string { return "pca" }
	disk := r.Chance(1, 4)
	rate := func(p float64) {
		for _, op := range []string{"open", "read", "write"} {
			k.SetRate("pca."+op, p)
		}
	}
	var err error
	faults := k.NFaults()
	if disk {
		rate(0.2)
	}
	k.Must(w.n, "writing the configuration of the CA", time.Hour, func() { err = pca.SaveConfigToFile(conf, pcaConfigFile) })
	rate(0)
	if err != nil && k.NFaults() > faults {
		k.Must(w.n, "writing the configuration of the CA", time.Hour, func() { err = pca.SaveConfigToFile(conf, pcaConfigFile) })
	}
	if err != nil {
		k.Fail("", "config", "the configuration is not written: %v", err)
		return
	}
	good, _ := w.fs.Get(pcaConfigFile)
	if r.Chance(1, 10) {
		k.Cover("damaged config")
		switch r.Intn(3) {
		case 0:
			w.fs.Put(pcaConfigFile, good[:r.Intn(len(good)-1)])
		case 1: // the key of somebody else
			c := *conf
			c.KeyPEM = util.RSAKeyToPEM(w.keys[1].key)
			k.Must(w.n, "writing the configuration of the CA", time.Hour, func() { err = pca.SaveConfigToFile(&c, pcaConfigFile) })
		case 2:
			w.fs.Remove(pcaConfigFile)
		}
		k.Must(w.n, "starting the CA", time.Hour, func() { _, err = pca.NewPCA(pcaConfigFile) })
		if err == nil {
			k.Fail("", "bad-config", "the CA starts with a damaged configuration")
			return
		}
		w.fs.Put(pcaConfigFile, good)
	}
	if disk {
		rate(0.2)
	}
	faults = k.NFaults()
	k.Must(w.n, "starting the CA", time.Hour, func() { w.pca, err = pca.NewPCA(pcaConfigFile) })
	if err != nil && k.NFaults() == faults {
		k.Fail("", "config", "the CA does not start: %v", err)
		return
	}
	rate(0)
	if err != nil {
		k.Must(w.n, "starting the CA", time.Hour, func() { w.pca, err = pca.NewPCA(pcaConfigFile) })
		if err != nil {
			k.Fail("", "config", "the CA does not start: %v", err)
			return
		}
	}
	k.Check()
	if len(w.pca.CtLogServers) != len(w.logs) || js(w.pca.RootPolicyCert) != js(w.root) {
		k.Fail("", "config", "the CA has %d logs and certificate %s, configured are %d and %s", len(w.pca.CtLogServers), js(w.pca.RootPolicyCert), len(w.logs), js(w.root))
		return
	}
	w.pca.LogServerRequester = w
}

func (w *pcaWorld) complain(format string, a ...any) {
	if w.bad == "" {
		w.bad = fmt.Sprintf(format, a...)
	}
}

func (w *pcaWorld) fault() *kit.Fault {
	f := w.k.Draw("pca.log", kit.KindProb{Kind: "fail", Weight: 3}, kit.KindProb{Kind: "fail-after", Weight: 3}, kit.KindProb{Kind: "slow", Weight: 2, ArgMin: 1, ArgMax: 3600})
	if f != nil && f.Kind == "slow" {
		time.Sleep(time.Duration(f.Arg) * time.Second)
		return nil
	}
	if f != nil {
		w.failed++
	}
	return f
}

var errLog = errors.New("the log does not answer")

// ObtainSptFromLogServer is the log server accepting a certificate.
func (w *pcaWorld) ObtainSptFromLogServer(url string, pc *common.PolicyCertificate) (*common.SignedPolicyCertificateTimestamp, error) {
	time.Sleep(time.Duration(w.r.Intn(100)) * time.Millisecond)
	key := w.logs[url]
	c := *pc
	content := js(&c)
	w.touched++
	w.asked[url]++
	if key == nil {
		w.complain("a certificate is submitted to %q, which is not a configured log", url)
		return nil, errLog
	}
	if w.asked[url] > 1 {
		w.complain("the certificate is submitted to %s %d times", url, w.asked[url])
	}
	if !verifies(w.rootK, issuerContent(&c), c.IssuerSignature) {
		w.complain("the certificate submitted to %s is not signed by the CA: %s", url, content)
	}
	if len(c.SPCTs) != 0 {
		w.complain("the certificate submitted to %s has timestamps already: %s", url, content)
	}
	f := w.fault()
	if f != nil && f.Kind == "fail" {
		return nil, errLog
	}
	id := sha256.Sum256(key.der)
	spt, err := crypto.SignPolicyCertificateTimestamp(&c, w.r.Intn(4), id[:], key.key)
	if err != nil {
		w.complain("timestamp not signed: %v", err)
		return nil, err
	}
	in := common.NewSignedEntryTimestampSignatureInput([]byte(content), spt)
	in.Signature = nil
	if !bytes.Equal(spt.LogID, id[:]) || !verifies(key, js(in), spt.Signature) {
		w.complain("the timestamp %s is not signed by its log", js(spt))
	}
	if f != nil {
		if w.r.Chance(1, 2) {
			return spt, errLog
		}
		return nil, errLog
	}
	w.spts = append(w.spts, js(spt))
	return spt, nil
}

// SendPolicyCertificateToLogServer is the log server accepting the final certificate.
func (w *pcaWorld) SendPolicyCertificateToLogServer(url string, pc *common.PolicyCertificate) error {
	time.Sleep(time.Duration(w.r.Intn(100)) * time.Millisecond)
	w.touched++
	c := *pc
	if w.logs[url] == nil {
		w.complain("the final certificate is sent to %q, which is not a configured log", url)
		return errLog
	}
	if _, ok := w.final[url]; ok {
		w.complain("the final certificate is sent to %s twice", url)
	}
	if len(w.spts) != len(w.logs) {
		w.complain("the final certificate is sent to %s when %d of %d logs gave their timestamps", url, len(w.spts), len(w.logs))
	}
	f := w.fault()
	if f != nil && f.Kind == "fail" {
		return errLog
	}
	w.final[url] = js(&c)
	if f != nil {
		return errLog
	}
	return nil
}

func (w *pcaWorld) op(i int) {
	r := w.r
	switch x := r.Intn(20); {
	case x < 12:
		w.request(i, 0)
	case x < 17:
		w.request(i, 1+r.Intn(6))
	default:
		w.outside(i)
	}
}

// outside asks for a validity beyond that of the CA.
func (w *pcaWorld) outside(i int) {
	k, r := w.k, w.r
	nb, na := w.root.NotBefore, w.root.NotAfter
	if r.Chance(1, 2) {
		nb = nb.Add(-time.Duration(1 + r.Intn(1e9)))
	} else {
		na = na.Add(time.Duration(1 + r.Intn(1e9)))
	}
	if !k.Op(i, "request for a validity outside of the CA's") {
		return
	}
	var err error
	k.Must(w.n, "preparing a request", time.Hour, func() {
		_, err = w.pca.NewPolicyCertificateSigningRequest(1, "a.org", nb, na, false, true, w.keys[1].der, common.RSA, common.SHA256, common.PolicyAttributes{},
			func([]byte) []byte { return nil }, nil)
	})
	k.Check()
	if err == nil {
		k.Fail("", "validity", "a request for %s - %s is prepared, the CA is valid from %s to %s", nb, na, w.root.NotBefore, w.root.NotAfter)
		k.Stop()
	}
}

// Ways of forging the consent of an owner.
const (
	honest         = iota
	wrongKey       // signed by another key
	alteredContent // signed by the owner, then altered
	garbage        // not a signature
	otherOwner     // the consent of another owner
	noHash         // a signature without naming the owner
	cannotOwn      // signed by a certificate that may not own
)

func (w *pcaWorld) request(i int, kind int) {
	k, r := w.k, w.r
	w.round = i
	key := w.keys[1+r.Intn(len(w.keys)-1)]
	var owner, other *pcaCert
	var owning, notOwning []*pcaCert
	for _, c := range w.issued {
		if c.cert.CanOwn {
			owning = append(owning, c)
		} else {
			notOwning = append(notOwning, c)
		}
	}
	if len(owning) > 0 && (kind != honest || r.Chance(3, 4)) {
		owner = owning[r.Intn(len(owning))]
		other = owning[r.Intn(len(owning))]
	}
	if kind == cannotOwn {
		owner = nil
		if len(notOwning) > 0 {
			owner = notOwning[r.Intn(len(notOwning))]
		}
	}
	if kind == honest && owner == nil && len(w.foreign) > 0 && r.Chance(1, 2) {
		owner = w.foreign[r.Intn(len(w.foreign))]
	}
	if kind != honest && owner == nil {
		kind = honest
	}
	if kind == otherOwner && (other == owner || bytes.Equal(other.key.der, owner.key.der)) {
		kind = wrongKey
	}
	name := []string{"a.org", "b.a.org", "c.org", "", "日本.example"}[r.Intn(5)]
	now := time.Now()
	version := r.Intn(3)
	nb, na := w.root.NotBefore.Add(time.Duration(r.Intn(1000))*time.Second), w.root.NotAfter.Add(-time.Duration(r.Intn(1000))*time.Second)
	if r.Chance(1, 4) {
		nb, na = w.root.NotBefore, w.root.NotAfter
	}
	canIssue, canOwn := r.Chance(1, 2), r.Chance(2, 3)
	var attr common.PolicyAttributes
	if r.Chance(1, 2) {
		attr = common.PolicyAttributes{AllowedCAs: []string{"CA 1"}, AllowedSubdomains: []string{"*." + name}}
	}
	how := r.Intn(2)
	if kind == cannotOwn {
		how = 0
	}
	if owner != nil && owner.cert.CanOwn && r.Chance(1, 30) {
		how = 2
	}
	who := "nobody"
	if owner != nil {
		who = fmt.Sprintf("%s (key %d)", owner.cert.Domain(), w.keyNo(owner.key))
	}
	if !k.Op(i, "request for %q key %d, owner %s, %s, made by %s", name, w.keyNo(key), who,
		[]string{"properly signed", "signed with a wrong key", "altered after being signed", "with a garbage signature", "signed by another owner", "without naming the owner", "by a certificate that cannot own"}[kind],
		[]string{"the CA", "the requester", "the domain owner"}[how]) {
		return
	}
	signer := owner
	if kind == wrongKey && owner != nil {
		for _, o := range w.keys {
			if o != owner.key {
				signer = &pcaCert{cert: owner.cert, key: o, hash: owner.hash}
			}
		}
	}
	if kind == otherOwner {
		signer = other
	}
	var req *common.PolicyCertificateSigningRequest
	var err error
	k.Must(w.n, "preparing a request", time.Hour, func() {
		switch how {
		case 0:
			var hash []byte
			if signer != nil {
				hash = signer.hash
			}
			req, err = w.pca.NewPolicyCertificateSigningRequest(version, name, nb, na, canIssue, canOwn, key.der, common.RSA, common.SHA256, attr,
				func(b []byte) []byte {
					if signer == nil {
						return nil
					}
					s, err := crypto.SignBytes(b, signer.key.key)
					if err != nil {
						w.complain("SignBytes: %v", err)
					}
					return s
				}, hash)
		case 1:
			req = common.NewPolicyCertificateSigningRequest(version, 1_000_000+i, name, nb, na, canIssue, canOwn, key.der, common.RSA, common.SHA256, now, attr, nil, nil)
			if signer != nil {
				err = crypto.SignAsOwner(signer.cert, signer.key.key, req)
			}
		case 2:
			do := domainowner.NewDomainOwner()
			do.DomainRoots[name] = domainowner.CertKey{Cert: signer.cert, Key: signer.key.key}
			req, err = do.GeneratePolCertSignRequest(name, version)
			key = nil
		}
	})
	if err != nil {
		k.Fail("", "prepare", "the request for %q is not prepared: %v", name, err)
		k.Stop()
	}
	k.Check()
	if req.Version != version || req.DomainField != name || how < 2 && (!bytes.Equal(req.PublicKey, key.der) || !req.NotBefore.Equal(nb) || !req.NotAfter.Equal(na) || req.CanIssue != canIssue ||
		req.CanOwn != canOwn || js(&common.PolicyCertificate{PolicyCertificateFields: common.PolicyCertificateFields{PolicyAttributes: attr}}) !=
		js(&common.PolicyCertificate{PolicyCertificateFields: common.PolicyCertificateFields{PolicyAttributes: req.PolicyAttributes}})) {
		k.Fail("", "prepared", "the prepared request is %s, asked was for version %d, name %q, validity %s - %s, issue %v, own %v", js(req), version, name, nb, na, canIssue, canOwn)
		k.Stop()
	}
	if how == 0 {
		if old, ok := w.serials[req.SerialNumber()]; ok {
			k.Fail("", "serial", "the requests %s and %s have the same serial number", old, js(req))
			k.Stop()
		}
		w.serials[req.SerialNumber()] = js(req)
	}
	switch kind {
	case alteredContent:
		switch r.Intn(7) {
		case 0:
			req.DomainField += "x"
		case 1:
			req.PublicKey = append([]byte(nil), w.keys[1].der...)
			if key == nil || key == w.keys[1] {
				req.PublicKey = append([]byte(nil), w.keys[2].der...)
			}
		case 2:
			req.CanOwn = !req.CanOwn
		case 3:
			req.CanIssue = !req.CanIssue
		case 4:
			req.NotAfter = req.NotAfter.Add(time.Hour)
		case 5:
			req.SerialNumberField++
		case 6:
			req.PolicyAttributes.AllowedCAs = append([]string{"evil"}, req.PolicyAttributes.AllowedCAs...)
		}
	case garbage:
		req.OwnerSignature = append([]byte(nil), req.OwnerSignature...)
		if r.Chance(1, 2) {
			req.OwnerSignature = req.OwnerSignature[:1+r.Intn(len(req.OwnerSignature)-1)]
		} else {
			req.OwnerSignature[r.Intn(len(req.OwnerSignature))] ^= 1 << r.Intn(8)
		}
	case otherOwner:
		req.OwnerHash = append([]byte(nil), owner.hash...)
	case noHash:
		req.OwnerHash = req.OwnerHash[:r.Intn(32)]
	}
	w.submit(req, owner, kind)
	if kind == honest && r.Chance(1, 10) && !w.k.IsQuiet() {
		// The requester did not notice the answer and repeats the request.
		w.submit(req, owner, kind)
	}
}

func (w *pcaWorld) keyNo(x *pcaKey) int {
	for i, k := range w.keys {
		if k == x {
			return i
		}
	}
	return -1
}

func (w *pcaWorld) submit(req *common.PolicyCertificateSigningRequest, owner *pcaCert, kind int) {
	k := w.k
	w.asked, w.final, w.spts, w.touched, w.failed = map[string]int{}, map[string]string{}, nil, 0, 0
	before := js(req)
	var pc *common.PolicyCertificate
	var err error
	k.Must(w.n, "signing a request", 100*time.Hour, func() { pc, err = w.pca.SignAndLogRequest(req) })
	k.Check()
	if w.bad != "" {
		k.Fail("", "protocol", "%s", w.bad)
		k.Stop()
	}
	if now := js(req); now != before {
		k.Fail("", "request", "the request was %s, after signing it is %s", before, now)
		k.Stop()
	}
	k.Tracef("   -> %v", err)
	if kind != honest {
		k.Cover("forged")
		if err == nil {
			k.Fail("", "forged", "a request that names an owner which did not sign it is granted (%s): %s",
				[]string{"", "wrong key", "altered", "garbage", "signature of another owner", "owner not named", "the certificate named cannot own"}[kind], before)
			k.Stop()
		}
		if w.touched > 0 {
			k.Fail("", "forged-logged", "a request that names an owner which did not sign it is submitted to the logs: %s", before)
			k.Stop()
		}
	} else if err != nil && w.failed == 0 {
		k.Fail("", "refused", "a proper request is refused: %v (%s)", err, before)
		k.Stop()
	}
	if err == nil && w.failed > 0 {
		k.Fail("", "swallowed", "a log failed, but the request is granted")
		k.Stop()
	}
	if err == nil {
		w.granted(req, pc, owner)
	}
	// The store.
	if len(w.pca.DB) != len(w.stored) {
		k.Fail("", "store", "the CA stores %d certificates, granted were %d (error: %v)", len(w.pca.DB), len(w.stored), err)
		k.Stop()
	}
	for id, c := range w.pca.DB {
		if x := js(c); x != w.stored[id] {
			k.Fail("", "store", "the CA stores %s, granted was %s (error: %v)", x, w.stored[id], err)
			k.Stop()
		}
	}
	k.State(kit.Hash64(fmt.Sprint(kind, len(w.issued), len(w.logs), w.failed, w.touched, err == nil)))
}

// granted checks an issued certificate.
func (w *pcaWorld) granted(req *common.PolicyCertificateSigningRequest, pc *common.PolicyCertificate, owner *pcaCert) {
	k, r := w.k, w.r
	fail := func(sig, format string, a ...any) {
		k.Fail("", sig, format+" ("+js(pc)+")", a...)
		k.Stop()
	}
	x := *pc
	x.SPCTs, x.IssuerHash, x.IssuerSignature = nil, nil, nil
	want := common.NewPolicyCertificateFromRequest(req)
	if js(&x) != js(want) {
		fail("content", "the certificate is not for what was requested, which is %s", js(want))
	}
	var got []string
	for i := range pc.SPCTs {
		got = append(got, js(&pc.SPCTs[i]))
	}
	sort.Strings(got)
	sort.Strings(w.spts)
	if len(got) != len(w.logs) || strings.Join(got, " ") != strings.Join(w.spts, " ") {
		fail("timestamps", "%d logs gave the timestamps %s, the certificate has %s", len(w.logs), w.spts, got)
	}
	if len(w.final) != len(w.logs) {
		fail("final", "the final certificate was sent to %d of %d logs", len(w.final), len(w.logs))
	}
	for _, u := range kit.SortedKeys(w.final) {
		if w.final[u] != js(pc) {
			fail("final", "the log %s got another final certificate: %s", u, w.final[u])
		}
	}
	if !bytes.Equal(pc.IssuerHash, signerHash(w.root)) || !verifies(w.rootK, issuerContent(pc), pc.IssuerSignature) {
		fail("issuer", "the certificate is not signed by the CA")
	}
	if err := crypto.VerifyIssuerSignature(w.root, pc); err != nil {
		fail("issuer", "the signature of the CA is not recognised: %v", err)
	}
	if owner != nil {
		if !bytes.Equal(pc.OwnerHash, owner.hash) || !verifies(owner.key, ownerContent(pc), pc.OwnerSignature) {
			fail("owner", "the certificate is not signed by its owner")
		}
		if err := crypto.VerifyOwnerSignatureInPolicyCertificate(owner.cert, pc); err != nil {
			fail("owner", "the signature of the owner is not recognised: %v", err)
		}
	}
	// Nobody can alter it.
	c := *pc
	c.SPCTs = append([]common.SignedPolicyCertificateTimestamp(nil), pc.SPCTs...)
	content := true
	switch r.Intn(6) {
	case 0:
		c.DomainField += "x"
	case 1:
		c.NotAfter = c.NotAfter.Add(time.Second)
	case 2:
		c.CanIssue = !c.CanIssue
	case 3:
		c.PublicKey = append([]byte{1}, c.PublicKey...)
	case 4:
		c.SPCTs = c.SPCTs[1:]
		content = false
	case 5:
		c.IssuerSignature = append([]byte(nil), c.IssuerSignature...)
		c.IssuerSignature[r.Intn(len(c.IssuerSignature))] ^= 1 << r.Intn(8)
		content = false
	}
	if crypto.VerifyIssuerSignature(w.root, &c) == nil {
		fail("altered", "the signature of the CA is accepted for the altered certificate %s", js(&c))
	}
	if owner != nil && content && crypto.VerifyOwnerSignatureInPolicyCertificate(owner.cert, &c) == nil {
		fail("altered", "the signature of the owner is accepted for the altered certificate %s", js(&c))
	}
	if owner != nil && !content && crypto.VerifyOwnerSignatureInPolicyCertificate(owner.cert, &c) != nil {
		fail("owner", "the signature of the owner depends on timestamps or the signature of the CA")
	}
	if x := w.keys[1+r.Intn(len(w.keys)-1)]; !bytes.Equal(x.der, w.root.PublicKey) {
		imp := *w.root
		imp.PublicKey = x.der
		if crypto.VerifyIssuerSignature(&imp, pc) == nil {
			fail("altered", "the certificate is accepted as issued by another CA")
		}
	}
	id := sha256.Sum256(pc.PublicKey)
	w.stored[id] = js(pc)
	for _, key := range w.keys {
		if bytes.Equal(key.der, pc.PublicKey) {
			w.issued = append(w.issued, &pcaCert{pc, key, signerHash(pc), js(pc)})
		}
	}
	k.Cover("granted")
}
