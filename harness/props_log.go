package harness

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"net/http"
	"sort"
	"strings"
	"time"

	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/Logger"
	"github.com/jik18001/CTngV2/crypto"
	def "github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/zzverif/vrt"
	merkletree "github.com/txaty/go-merkletree"
)

// precerts issues k precertificates of a CA.
func precerts(ca *CA.CAContext, k int) []*x509.Certificate {
	l, _ := CA.Generate_N_Signed_PreCert_with_priv(ca, k, "www.example.com", 365*24*time.Hour, false, CA.Generate_Issuer(ca.CA_private_config.Signer), ca.Rootcert, false, &ca.PrivateKey, ca.CertCounter)
	return l
}

// merkleRoot and merkleOK are written independently of the library: odd levels repeat the last node.
func sha(b ...[]byte) []byte {
	h := sha256.New()
	for _, x := range b {
		h.Write(x)
	}
	return h.Sum(nil)
}

func merkleRoot(leaves [][]byte) []byte {
	if len(leaves) == 0 {
		return sha()
	}
	var lv [][]byte
	for _, l := range leaves {
		lv = append(lv, sha(l))
	}
	for len(lv) > 1 {
		if len(lv)%2 == 1 {
			lv = append(lv, lv[len(lv)-1])
		}
		var up [][]byte
		for i := 0; i < len(lv); i += 2 {
			up = append(up, sha(lv[i], lv[i+1]))
		}
		lv = up
	}
	return lv[0]
}

func merkleOK(root []byte, p *merkletree.Proof, leaf []byte) bool {
	if p == nil {
		return false
	}
	h := sha(leaf)
	for i, s := range p.Siblings {
		if p.Path>>i&1 == 1 {
			h = sha(h, s)
		} else {
			h = sha(s, h)
		}
	}
	return bytes.Equal(h, root)
}

// ---- P18: inclusion proofs ----------------------------------------------------------------

func init() {
	run := func(max int) func(e *Env) {
		return func(e *Env) {
			n := NewNet(3, 2, 1, 1)
			certs := func(k int) []x509.Certificate {
				var l []x509.Certificate
				for i := 0; i < k; i++ {
					name := pkix.Name{CommonName: fmt.Sprintf("Testing Dummy %d", i)}
					raw := []byte(fmt.Sprintf("0%c1\x0b0\t\x06\x03U\x04\x03%d", 13, i))
					l = append(l, x509.Certificate{Subject: name, RawSubject: raw, SubjectKeyId: []byte{byte(i), byte(i >> 8), 7}, Issuer: pkix.Name{CommonName: n.CA(0)}, SerialNumber: big.NewInt(int64(i))})
				}
				return l
			}
			roots := map[string]int{}
			e.Explore("sizes", func(x *X) {
				k := x.Choose(max+1, "")
				lg := n.LoggerContext(x, 0)
				cs := certs(k)
				sth, root, pois := Logger.BuildMerkleTreeFromCerts(cs, *lg, 7)
				s, ok := sthOf(sth)
				x.Require(ok && s.TreeSize == k, "tree size", "a tree of %d certificates is announced with size %d", k, s.TreeSize)
				x.Require(s.RootHash == hex.EncodeToString(root), "root", "tree head and tree have different roots (%d certificates)", k)
				er, err := def.ExtractRootHash(sth)
				x.Require(err == nil && bytes.Equal(er, root), "root extraction", "ExtractRootHash differs from the tree's root (%d certificates)", k)
				var leaves [][]byte
				for _, c := range cs {
					leaves = append(leaves, c.RawSubject)
				}
				x.Require(bytes.Equal(root, merkleRoot(leaves)), "root of other leaves", "the root of %d certificates is not the hash tree over exactly them", k)
				if o, dup := roots[string(root)]; dup && o != k {
					x.Violate("same root", "trees of %d and %d certificates have one root", o, k)
				}
				roots[string(root)] = k
				x.Require(len(pois) == k, "proofs", "%d proofs for %d certificates", len(pois), k)
				outsider := certs(k + 3)[k+2]
				checks := 0
				for i := range pois {
					p := pois[i]
					x.Require(bytes.Equal(p.SubjectKeyId, cs[i].SubjectKeyId) && p.Issuer == n.CA(0) && p.LoggerID == n.Lg(0), "proof label", "proof %d of %d is labelled for another certificate", i, k)
					// the proof goes over the wire
					var q crypto.POI_for_transmission
					json.Unmarshal(mustJSON(p), &q)
					ok, err := crypto.VerifyPOI(root, q.Poi, cs[i])
					x.Require(ok && err == nil && merkleOK(root, q.Poi, cs[i].RawSubject), "proof rejected", "the inclusion proof of certificate %d of %d does not verify (%v)", i, k, err)
					for j := range cs {
						if j != i && (k <= 20 || j == i^1 || j == 0 || j == k-1) {
							ok, _ := crypto.VerifyPOI(root, q.Poi, cs[j])
							x.Require(!ok, "proof of another", "the proof of certificate %d verifies for %d (tree of %d)", i, j, k)
							checks++
						}
					}
					ok, _ = crypto.VerifyPOI(root, q.Poi, outsider)
					x.Require(!ok, "proof of an outsider", "the proof of certificate %d verifies for one that is not in the tree of %d", i, k)
					bad := append([]byte{}, root...)
					bad[31] ^= 1
					ok, _ = crypto.VerifyPOI(bad, q.Poi, cs[i])
					x.Require(!ok, "other root", "a proof verifies under another root")
					// altered proofs
					for si := range q.Poi.Siblings {
						for _, b := range []int{0, 31} {
							q.Poi.Siblings[si][b] ^= 1
							ok, _ := crypto.VerifyPOI(root, q.Poi, cs[i])
							q.Poi.Siblings[si][b] ^= 1
							x.Require(!ok, "altered proof", "an altered inclusion proof verifies (certificate %d of %d, sibling %d)", i, k, si)
						}
						cut := &merkletree.Proof{Path: q.Poi.Path, Siblings: append([][]byte{}, q.Poi.Siblings[:si]...)}
						ok, _ := crypto.VerifyPOI(root, cut, cs[i])
						x.Require(!ok, "cut proof", "an inclusion proof cut to %d steps verifies (certificate %d of %d)", si, i, k)
						flip := &merkletree.Proof{Path: q.Poi.Path ^ 1<<si, Siblings: q.Poi.Siblings}
						ok, _ = crypto.VerifyPOI(root, flip, cs[i])
						x.Require(ok == merkleOK(root, flip, cs[i].RawSubject), "turned proof", "a proof with side %d turned verifies: %v (certificate %d of %d)", si, ok, i, k)
						checks += 4
					}
				}
				for _, p := range []*merkletree.Proof{nil, {}, {Path: 1}, {Siblings: [][]byte{nil}}, {Siblings: [][]byte{root}}} {
					ok, _ := crypto.VerifyPOI(root, p, outsider)
					x.Require(!ok, "empty proof", "the proof %v verifies for a certificate not in the tree of %d", p, k)
					for _, r := range [][]byte{nil, {}} {
						ok, _ := crypto.VerifyPOI(r, p, outsider)
						x.Require(!ok, "empty root", "the proof %v verifies under an empty root", p)
					}
				}
				x.Outcome("%d", k)
			})
		}
	}
	reg("P18", "sizes", "trees of every size 0..70: root, size and every leaf's proof against an independent hash tree; no other certificate, outsider, altered, cut or empty proof verifies", run(70))
	regDeep("P18", "sizes-300", "the same for every size 0..300", run(300))
}

// ---- P19: what a logger logs ------------------------------------------------------------------

type logWatch struct {
	x    *X
	n    *Net
	lg   *Logger.LoggerContext
	pois []crypto.POI_for_transmission
	at   []string // period label the proof was sent for
	hang string   // port of a CA that never answers
}

// watchLogger starts logger 0 (ports 6… = CAs are played by the harness).
func (n *Net) watchLogger(x *X) *logWatch {
	w := &logWatch{x: x, n: n}
	x.W.Auto = func(*vrt.Msg) bool { return true }
	x.W.Fault = func(m *vrt.Msg) (*http.Response, error) {
		if m.Dst == w.hang {
			vrt.Sleep(100000 * time.Second)
		}
		if m.Path == "/CA/receive-poi" {
			var p crypto.POI_for_transmission
			json.Unmarshal(m.Body, &p)
			x.Require(p.Issuer == "localhost:"+m.Dst, "proof sent astray", "a proof for a certificate of %s was sent to %s", p.Issuer, m.Dst)
			w.pois = append(w.pois, p)
			w.at = append(w.at, PeriodAt(nextMinute()))
		}
		return okResponse(""), nil
	}
	time.Sleep(30 * time.Second)
	w.lg = n.StartLogger(x, 0)
	x.W.AdvanceTo(nextMinute().Add(500 * time.Millisecond))
	return w
}

func (w *logWatch) submit(der []byte) int {
	code, _, err := w.x.W.Do(port(w.n.Lg(0)), "POST", "/Logger/receive-precerts", der)
	w.x.Require(err == nil, "no answer", "the logger did not answer a submission: %v", err)
	return code
}

// sth asks for the tree head of a period (at any instant of it).
func (w *logWatch) sth() (def.STH, []byte, string) {
	o, code, ok := w.x.askStatement(w.n.Lg(0))
	w.x.Require(ok, "no tree head", "no tree head for period %s (%d)", Period(), code)
	w.n.validStatement(w.x, w.n.Lg(0), o, Period())
	s, _ := sthOf(o)
	root, err := hex.DecodeString(s.RootHash)
	w.x.Require(err == nil, "root hash", "the root hash of period %s is %q", Period(), s.RootHash)
	return s, root, Period()
}

// included returns how often each certificate was proven in the tree of the current period.
func (w *logWatch) included(certs []*x509.Certificate) (in []int, size int) {
	s, root, p := w.sth()
	in = make([]int, len(certs))
	for i, c := range certs {
		for j, q := range w.pois {
			if w.at[j] == p && bytes.Equal(q.SubjectKeyId, c.SubjectKeyId) && q.Issuer == c.Issuer.CommonName && q.LoggerID == w.n.Lg(0) {
				if merkleOK(root, q.Poi, c.RawSubject) {
					in[i]++
				}
			}
		}
	}
	return in, s.TreeSize
}

func init() {
	type sub struct {
		name string
		ok   bool
		der  func(x *X, c0, c1 *CA.CAContext) []byte
	}
	mk := func(issuer string, priv any, parent *x509.Certificate, t func(*x509.Certificate)) []byte {
		c := &x509.Certificate{SerialNumber: big.NewInt(4711), Subject: pkix.Name{CommonName: "other"}, NotBefore: time.Now(), NotAfter: time.Now().Add(time.Hour), SubjectKeyId: []byte("other key id")}
		if t != nil {
			t(c)
		}
		p := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: issuer}, IsCA: true, BasicConstraintsValid: true, SubjectKeyId: []byte("issuer")}
		if parent != nil {
			p = parent
		}
		var pub any
		switch k := priv.(type) {
		case *rsa.PrivateKey:
			pub = &k.PublicKey
		case *ecdsa.PrivateKey:
			pub = &k.PublicKey
		}
		der, err := x509.CreateCertificate(rand.Reader, c, p, pub, priv)
		if err != nil {
			panic(err)
		}
		return der
	}
	subs := []sub{
		{"valid", true, func(x *X, c0, c1 *CA.CAContext) []byte { return precerts(c0, 1)[0].Raw }},
		{"valid of the second CA", true, func(x *X, c0, c1 *CA.CAContext) []byte { return precerts(c1, 1)[0].Raw }},
		{"of a CA that is not accredited", false, func(x *X, c0, c1 *CA.CAContext) []byte {
			return mk(c1.CA_private_config.Signer[:len(c1.CA_private_config.Signer)-1]+"9", &c1.PrivateKey, nil, nil)
		}},
		{"self-signed", false, func(x *X, c0, c1 *CA.CAContext) []byte {
			return mk("other", &c1.PrivateKey, &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "other"}}, nil)
		}},
		{"issuer's name, another CA's key", false, func(x *X, c0, c1 *CA.CAContext) []byte {
			return mk(c0.CA_private_config.Signer, &c1.PrivateKey, nil, nil)
		}},
		{"issuer's name, elliptic curve key", false, func(x *X, c0, c1 *CA.CAContext) []byte {
			k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
			return mk(c0.CA_private_config.Signer, k, nil, nil)
		}},
		{"of a logger", false, func(x *X, c0, c1 *CA.CAContext) []byte {
			n := NewNet(3, 2, 1, 2)
			k := n.Crypto(n.Lg(0)).SignSecretKey
			return mk(n.Lg(0), &k, nil, nil)
		}},
		{"no issuer", false, func(x *X, c0, c1 *CA.CAContext) []byte { return mk("", &c0.PrivateKey, nil, nil) }},
		{"altered subject", false, func(x *X, c0, c1 *CA.CAContext) []byte {
			b := append([]byte{}, precerts(c0, 1)[0].Raw...)
			i := bytes.Index(b, []byte("Testing Dummy"))
			b[i] = 'F'
			return b
		}},
		{"altered signature", false, func(x *X, c0, c1 *CA.CAContext) []byte {
			b := append([]byte{}, precerts(c0, 1)[0].Raw...)
			b[len(b)-1] ^= 1
			return b
		}},
		{"nothing", false, func(x *X, c0, c1 *CA.CAContext) []byte { return nil }},
		{"text", false, func(x *X, c0, c1 *CA.CAContext) []byte { return []byte("{\"a\":[]}") }},
		{"half a certificate", false, func(x *X, c0, c1 *CA.CAContext) []byte { r := precerts(c0, 1)[0].Raw; return r[:len(r)/2] }},
		{"certificate and trailing data", false, func(x *X, c0, c1 *CA.CAContext) []byte {
			return append(append([]byte{}, precerts(c0, 1)[0].Raw...), 0)
		}},
	}
	// several subjects, keys and serial numbers in legitimate certificates
	subs = append(subs,
		sub{"valid without key id", true, func(x *X, c0, c1 *CA.CAContext) []byte {
			return mk("", &c0.PrivateKey, c0.Rootcert, func(c *x509.Certificate) { c.SubjectKeyId = nil; c.Subject.CommonName = "no key id" })
		}},
		sub{"valid, subject as another's", true, func(x *X, c0, c1 *CA.CAContext) []byte {
			return mk("", &c1.PrivateKey, c1.Rootcert, func(c *x509.Certificate) { c.Subject.CommonName = "Testing Dummy 0"; c.SubjectKeyId = []byte("x") })
		}},
		sub{"valid, key id as another's", true, func(x *X, c0, c1 *CA.CAContext) []byte {
			return mk("", &c1.PrivateKey, c1.Rootcert, func(c *x509.Certificate) {
				c.Subject.CommonName = "same key id"
				c.SubjectKeyId = []byte("other key id")
			})
		}},
		sub{"valid, key id as another's of this CA", true, func(x *X, c0, c1 *CA.CAContext) []byte {
			return mk("", &c1.PrivateKey, c1.Rootcert, func(c *x509.Certificate) {
				c.SerialNumber = big.NewInt(4712)
				c.Subject.CommonName = "same key id again"
				c.SubjectKeyId = []byte("other key id")
			})
		}})
	admission := func(depth int) func(e *Env) {
		return func(e *Env) {
			n := NewNet(3, 2, 1, 2)
			e.Explore("submissions", func(x *X) {
				w := n.watchLogger(x)
				c0, c1 := n.CAContext(0), n.CAContext(1)
				var seq []int
				for i := 0; i < depth; i++ {
					seq = append(seq, x.Choose(len(subs), ""))
				}
				first := precerts(c0, 1)[0]
				var acc []*x509.Certificate
				nokey := 0
				x.Require(w.submit(first.Raw) == 200, "valid refused", "a valid precertificate was refused")
				acc = append(acc, first)
				same := map[string]bool{}
				same[string(first.Raw)] = true
				for _, i := range seq {
					s := subs[i]
					der := s.der(x, c0, c1)
					x.Tracef("submit: %s", s.name)
					code := w.submit(der)
					x.Require((code == 200) == s.ok, "admission: "+s.name, "a submission (%s) was answered with status %d", s.name, code)
					x.checkCrashes()
					if s.ok {
						c, _ := x509.ParseCertificate(der)
						k := fmt.Sprint(c.SerialNumber, c.Issuer.CommonName, string(c.SubjectKeyId), c.Subject.CommonName)
						if !same[k] {
							same[k] = true
							acc = append(acc, c)
							if len(c.SubjectKeyId) == 0 {
								nokey++
							}
						}
					}
				}
				last := precerts(c1, 1)[0]
				x.Require(w.submit(last.Raw) == 200, "valid refused", "a valid precertificate was refused after %v", seq)
				acc = append(acc, last)
				x.W.AdvanceTo(nextMinute().Add(5 * time.Second))
				in, size := w.included(acc)
				x.Require(size == len(acc), "tree contents", "the tree has %d certificates, accepted were %d", size, len(acc))
				for i, k := range in {
					if len(acc[i].SubjectKeyId) == 0 {
						continue // a CA cannot be sent a proof for it
					}
					x.Require(k == 1, "not proven", "accepted certificate %s of %s has %d valid inclusion proofs", acc[i].Subject.CommonName, acc[i].Issuer.CommonName, k)
				}
				x.Require(len(w.pois) == len(acc)-nokey, "proofs", "%d proofs sent for %d certificates", len(w.pois), len(acc))
				x.checkCrashes()
				for _, p := range x.W.Panics {
					x.Violate("panic", "%s", p)
				}
				x.Outcome("%v", seq)
			})
		}
	}
	sizes := func(cas, counts []int) func(e *Env) {
		return func(e *Env) {
			for _, cn := range cas {
				n := NewNet(3, 2, 1, cn)
				e.Explore("sizes", func(x *X) {
					count := counts[x.Choose(len(counts), "")]
					names := []int{1, 60, 900, 9000}[x.Choose(4, "")]
					w := n.watchLogger(x)
					var acc []*x509.Certificate
					cs := make([]*CA.CAContext, cn)
					for i := range cs {
						cs[i] = n.CAContext(i)
					}
					for i, left := 0, count; i < cn; i++ {
						k := left / (cn - i)
						left -= k
						acc = append(acc, precerts(cs[i], k)...)
					}
					der := mk("", &cs[cn-1].PrivateKey, cs[cn-1].Rootcert, func(c *x509.Certificate) {
						c.Subject.CommonName = "many names"
						for i := 0; i < names; i++ {
							c.DNSNames = append(c.DNSNames, fmt.Sprintf("host-%d.example.com", i))
						}
					})
					big, err := x509.ParseCertificate(der)
					if err != nil {
						panic(err)
					}
					acc = append(acc, big)
					x.Tracef("%d CAs, %d precertificates, the last one of %d bytes", cn, len(acc), len(der))
					for i, c := range acc {
						code := w.submit(c.Raw)
						x.Require(code == 200, "valid refused", "valid precertificate %d of %d (%d bytes) of %s was answered with status %d", i, len(acc), len(c.Raw), c.Issuer.CommonName, code)
					}
					x.W.AdvanceTo(nextMinute().Add(5 * time.Second))
					in, size := w.included(acc)
					x.Require(size == len(acc), "tree contents", "the tree has %d certificates, accepted were %d", size, len(acc))
					for i, k := range in {
						x.Require(k == 1, "not proven", "accepted certificate %d of %d, %s of %s, has %d valid inclusion proofs", i, len(acc), acc[i].Subject.CommonName, acc[i].Issuer.CommonName, k)
					}
					x.Require(len(w.pois) == len(acc), "proofs", "%d proofs sent for %d certificates", len(w.pois), len(acc))
					x.checkCrashes()
					for _, p := range x.W.Panics {
						x.Violate("panic", "%s", p)
					}
					x.Outcome("%d %d", cn, len(acc))
				})
			}
		}
	}
	reg("P19", "sizes", "a running logger of 1, 2, 6 or 12 CAs that submit 12, 40 or 130 precertificates and one of up to 200 KB: all are accepted, in the tree and proven", sizes([]int{1, 2, 6, 12}, []int{12, 40, 130}))
	regDeep("P19", "sizes-more", "the same for 1, 3, 9, 20 and 102 CAs and up to 600 precertificates", sizes([]int{1, 3, 9, 20, 102}, []int{102, 260, 600}))
	reg("P19", "admission", "a running logger: all pairs of 18 kinds of submissions (valid, forged, altered, malformed, unusual) between two valid ones: answered rightly, and the tree holds exactly the accepted ones, each with one valid proof sent to its issuer", admission(2))
	regDeep("P19", "admission-3", "the same for all triples", admission(3))

	// every accepted precertificate is in exactly one tree, whenever it comes
	timing := func(k int) func(e *Env) {
		return func(e *Env) {
			n := NewNet(3, 2, 1, 2)
			times := []int{1000, 39999, 40000, 40001, 59999, 60000, 60001, 99999, 100001, 119990}
			e.Explore("instants", func(x *X) {
				var at []int
				lo := 0
				for i := 0; i < k; i++ {
					lo += x.Choose(len(times)-lo, "")
					at = append(at, times[lo])
				}
				w := n.watchLogger(x)
				t0 := time.Now().Truncate(time.Minute)
				ca := n.CAContext(0)
				switch x.Choose(3, "") {
				case 1:
					w.hang = port(n.CA(1))
				case 2:
					w.hang = port(n.CA(0))
					ca = n.CAContext(1)
				}
				x.Tracef("CA %q never answers, certificates of %s", w.hang, ca.CA_private_config.Signer)
				certs := precerts(ca, k)
				total, sizes := make([]int, k), 0
				next := 0
				for p := 0; p < 4; p++ {
					for _, until := range []int{p*60000 + 30000, p*60000 + 59995} {
						for next < k && at[next] < until {
							x.W.AdvanceTo(t0.Add(time.Duration(at[next]) * time.Millisecond))
							x.Require(w.submit(certs[next].Raw) == 200, "valid refused", "a valid precertificate was refused at %d ms", at[next])
							next++
						}
						x.W.AdvanceTo(t0.Add(time.Duration(until) * time.Millisecond))
						if until%60000 == 30000 && p > 0 {
							in, size := w.included(certs)
							sizes += size
							for i := range in {
								total[i] += in[i]
							}
						}
					}
				}
				for i := range total {
					x.Require(total[i] == 1, "not in one tree", "precertificate submitted at %d ms is proven in %d trees (%v)", at[i], total[i], at)
				}
				x.Require(sizes == k, "tree sizes", "the trees have %d certificates, submitted were %d", sizes, k)
				x.checkCrashes()
				x.Outcome("%v", at)
			})
		}
	}
	reg("P19", "instants", "a running logger: all combinations of instants of two precertificates over two periods (around tree making and period change), and another CA answering or never: each is in exactly one tree, proven once", timing(2))
	regDeep("P19", "instants-4", "the same for four", timing(4))

	// lock level
	setup := func(n *Net, ops string, x *X) ([]Op, func() string) {
		w := n.watchLogger(x)
		ca := n.CAContext(0)
		certs := precerts(ca, 4)
		x.Require(w.submit(certs[0].Raw) == 200, "refused", "refused")
		x.W.CtlTimers = true
		x.W.AdvanceTo(time.Now().Truncate(time.Minute).Add(39900 * time.Millisecond))
		time.Sleep(105 * time.Millisecond)
		x.W.Quiesce()
		var l []Op
		for _, o := range ops {
			switch o {
			case 'A':
				l = append(l, OpPost("A", n.Lg(0), "/Logger/receive-precerts", certs[1].Raw))
			case 'B':
				l = append(l, OpPost("B", n.Lg(0), "/Logger/receive-precerts", certs[2].Raw))
			case 'X':
				l = append(l, OpPost("X", n.Lg(0), "/Logger/receive-precerts", []byte("junk")))
			case 'T':
				l = append(l, OpTimers())
			case 'S':
				l = append(l, OpGet("S", n.Lg(0), "/ctng/v2/get-sth", nil))
			}
		}
		return l, func() string {
			x.W.CtlTimers = false
			x.W.AdvanceTo(nextMinute().Add(5 * time.Second))
			a, s1 := w.included(certs[:3])
			x.W.Do(port(n.Lg(0)), "POST", "/Logger/receive-precerts", certs[3].Raw)
			x.W.AdvanceTo(nextMinute().Add(5 * time.Second))
			b, s2 := w.included(certs)
			var sb strings.Builder
			fmt.Fprintf(&sb, "size %d then %d\n", s1, s2)
			for i := range certs {
				t := b[i]
				if i < 3 {
					t += a[i]
				}
				fmt.Fprintf(&sb, "certificate %d in %d trees\n", i, t)
				submitted := i == 0 || i == 3 || (i == 1 && strings.Contains(ops, "A")) || (i == 2 && strings.Contains(ops, "B"))
				x.Require((t == 1) == submitted && t <= 1, "not in one tree", "certificate %d (submitted: %v) is in %d trees", i, submitted, t)
			}
			return sb.String()
		}
	}
	conc := func(combos []string, bound int) func(e *Env) {
		return func(e *Env) {
			n := NewNet(3, 2, 1, 2)
			for _, c := range combos {
				c := c
				e.Linear(bound, false, exact, func(x *X) ([]Op, func() string) { return setup(n, c, x) })
			}
		}
	}
	reg("P19", "interleavings", "all interleavings (lock granularity, 2 preemptions) of submissions, queries and the making of the tree: each accepted precertificate is in one tree, as in some serial order", conc([]string{"AT", "AB", "AS", "TS", "ABT", "AXT"}, 2))
	regDeep("P19", "interleavings-4", "the same, 4 preemptions", conc([]string{"AT", "AB", "ABT", "ATS"}, 4))
	regRace("P19", "race", "all pairs of submission, query and tree making in a race-detector build", func(e *Env) {
		n := NewNet(3, 2, 1, 2)
		e.RacePairs([]string{"A", "T", "S", "B"}, func(a, b string) func(x *X) ([]Op, func() string) {
			return func(x *X) ([]Op, func() string) { return setup(n, a+b, x) }
		})
	})
}

// ---- P17: what a CA issues ------------------------------------------------------------------

// ctngOf lists RID and logger information of the CA's certificates, checking each entry.
func (n *Net) checkPool(x *X, ca *CA.CAContext, certs []*x509.Certificate) map[int][]string {
	out := map[int][]string{}
	seen := map[int]bool{}
	for _, c := range certs {
		ext := CA.ParseCTngextension(c)
		rid := ext.SequenceNumber.RID
		x.Require(!seen[rid], "RID twice", "two certificates have revocation number %d", rid)
		seen[rid] = true
		out[rid] = []string{}
		for _, li := range ext.LoggerInformation {
			id := li.STH.Payload[0]
			x.Require(li.STH.Type == def.STH_INIT && li.STH.Signer == id && li.STH.Verify(n.cfg[n.Mo(0)]) == nil, "embedded tree head", "certificate %d carries an invalid tree head of %s", rid, id)
			s, ok := sthOf(li.STH)
			root, err := hex.DecodeString(s.RootHash)
			x.Require(ok && err == nil && merkleOK(root, li.POI.Poi, c.RawSubject), "embedded proof", "certificate %d carries an inclusion proof of %s that does not verify", rid, id)
			out[rid] = append(out[rid], id)
		}
		sort.Strings(out[rid])
		for i := 1; i < len(out[rid]); i++ {
			x.Require(out[rid][i] != out[rid][i-1], "logger twice", "certificate %d carries %s twice", rid, out[rid][i])
		}
	}
	return out
}

func init() {
	reg("P17", "RIDs", "one CA issuing 0, 1, 2, 3 or 7 certificates per period for six periods, each of two loggers reachable, refusing or never answering: every precertificate is validly signed by the CA, sent to every reachable logger, and no revocation number, subject or serial number occurs twice", func(e *Env) {
		n := NewNet(3, 2, 2, 2)
		e.Explore("RIDs", func(x *X) {
			per := []int{0, 1, 2, 3, 7}[x.Choose(5, "")]
			down, hangs := x.Choose(4, ""), x.Bool("never answers")
			got := map[string][][]byte{}
			x.W.Auto = func(*vrt.Msg) bool { return true }
			x.W.Fault = func(m *vrt.Msg) (*http.Response, error) {
				if m.Dst[0] == '7' {
					if down>>int(m.Dst[len(m.Dst)-1]-'0')&1 == 1 {
						if hangs {
							vrt.Sleep(100000 * time.Second)
						}
						return nil, fmt.Errorf("connection refused")
					}
					got[m.Dst] = append(got[m.Dst], m.Body)
					return okResponse(""), nil
				}
				return nil, nil
			}
			time.Sleep(30 * time.Second)
			ca := n.CAContext(0)
			ca.CA_private_config.Cert_per_period = per
			x.Start(port(n.CA(0)), func() { CA.StartCA(ca) })
			t0 := nextMinute()
			x.W.AdvanceTo(t0.Add(5*time.Minute + 30*time.Second))
			x.checkCrashes()
			cfg := n.cfg[n.Mo(0)]
			pub := cfg.SignPublicMap[crypto.CTngID(n.CA(0))]
			for i := 0; i < 2; i++ {
				l := got[port(n.Lg(i))]
				want := per * 6
				if down>>i&1 == 1 {
					want = 0
				}
				x.Require(len(l) == want, "precertificates sent", "logger %d got %d precertificates in six periods, expected %d", i, len(l), want)
				rids, subj, serial := map[int]bool{}, map[string]bool{}, map[string]bool{}
				for _, b := range l {
					c, err := x509.ParseCertificate(b)
					x.Require(err == nil, "precertificate", "an unparsable precertificate was sent")
					r := CA.GetRIDfromCert(c)
					x.Require(!rids[r], "RID twice", "two certificates have revocation number %d (%d per period)", r, per)
					x.Require(!subj[c.Subject.CommonName], "subject twice", "two certificates have subject %q", c.Subject.CommonName)
					x.Require(!serial[c.SerialNumber.String()], "serial twice", "two certificates have one serial number")
					rids[r], subj[c.Subject.CommonName], serial[c.SerialNumber.String()] = true, true, true
					x.Require(c.Issuer.CommonName == n.CA(0) && rsa.VerifyPKCS1v15(&pub, 5, sha(c.RawTBSCertificate), c.Signature) == nil, "precertificate signature", "a precertificate is not signed by its CA")
					x.Require(r >= 0 && r < 1000000, "RID range", "revocation number %d", r)
				}
			}
			x.Outcome("%d %d %v", per, down, hangs)
		})
	})

	// all orders and losses of the loggers' messages
	run := func(loggers, certs, lose int) func(e *Env) {
		return func(e *Env) {
			n := NewNetCert(3, 2, loggers, 1, certs)
			e.Explore("deliveries", func(x *X) {
				x.W.Auto = func(m *vrt.Msg) bool { return m.Dst[0] == '7' }
				time.Sleep(30 * time.Second)
				ca := n.StartCA(x, 0)
				for i := 0; i < loggers; i++ {
					n.StartLogger(x, i)
				}
				t0 := nextMinute()
				x.W.AdvanceTo(t0.Add(39900 * time.Millisecond))
				pool := ca.CurrentCertificatePool
				sthGot, poiGot := map[string]bool{}, map[string]bool{}
				x.RunDeliveries(DelOpt{Until: t0.Add(40900 * time.Millisecond), Lose: lose, Slow: 3,
					State: func() string {
						var sb strings.Builder
						for _, c := range pool.GetCertList() {
							fmt.Fprintf(&sb, "%s\n", mustJSON(CA.ParseCTngextension(c)))
						}
						fmt.Fprint(&sb, DeepHash(ca.STH_storage))
						return sb.String()
					}})
				for _, m := range x.W.Sent {
					if m.Failed() {
						continue
					}
					switch m.Path {
					case "/CA/receive-sth":
						sthGot["localhost:"+m.Src] = true
					case "/CA/receive-poi":
						var p crypto.POI_for_transmission
						json.Unmarshal(m.Body, &p)
						poiGot[p.LoggerID+string(p.SubjectKeyId)] = true
					}
				}
				x.checkCrashes()
				for _, p := range x.W.Panics {
					x.Violate("panic", "%s", p)
				}
				want := map[int][]string{}
				for _, c := range pool.GetCertList() {
					r := CA.GetRIDfromCert(c)
					want[r] = []string{}
					for i := 0; i < loggers; i++ {
						if sthGot[n.Lg(i)] && poiGot[n.Lg(i)+string(c.SubjectKeyId)] {
							want[r] = append(want[r], n.Lg(i))
						}
					}
				}
				x.Require(len(want) == certs, "certificates", "%d certificates in the pool", len(want))
				signed := CA.SignAllCerts(ca)
				x.Require(len(signed) == certs, "signed certificates", "%d of %d certificates signed", len(signed), certs)
				got := n.checkPool(x, ca, signed)
				x.Require(fmt.Sprint(got) == fmt.Sprint(want), "logger information", "certificates carry the loggers %v, received were the proofs of %v", got, want)
				pub := n.cfg[n.Mo(0)].SignPublicMap[crypto.CTngID(n.CA(0))]
				for _, c := range signed {
					x.Require(c.Issuer.CommonName == n.CA(0) && rsa.VerifyPKCS1v15(&pub, 5, sha(c.RawTBSCertificate), c.Signature) == nil, "signature", "a certificate is not signed by its CA")
				}
				x.Outcome("%v", got)
			})
		}
	}
	reg("P17", "deliveries", "one CA with two certificates, two loggers: all delivery orders of tree heads and inclusion proofs: every signed certificate carries each logger's valid proof once, and its own revocation number", run(2, 2, 0))
	reg("P17", "deliveries-lost", "the same with up to two messages lost: exactly the received ones", run(2, 2, 2))
	regDeep("P17", "deliveries-3", "three loggers, three certificates, one loss", run(3, 3, 1))

	reg("P17", "sizes", "one CA with each of 1, 2, 3, 9 and 40 certificates per period, and 1..9 loggers in its list, for three periods: every certificate carries every logger's valid proof", func(e *Env) {
		for loggers := 1; loggers <= 9; loggers++ {
			for _, certs := range []int{1, 2, 3, 9, 40} {
				if certs == 40 && loggers > 3 {
					continue
				}
				n := NewNetCert(2, 2, loggers, 1, certs)
				e.Explore(fmt.Sprintf("%d-%d", loggers, certs), func(x *X) {
					x.W.Auto = func(m *vrt.Msg) bool { return true }
					time.Sleep(30 * time.Second)
					var all []string
					for i := 0; i < loggers; i++ {
						all = append(all, n.Lg(i))
					}
					ca := n.CAContext(0)
					ca.CA_private_config.Loggerlist = append([]string{}, all...)
					x.Start(port(n.CA(0)), func() { CA.StartCA(ca) })
					for i := 0; i < loggers; i++ {
						n.StartLogger(x, i)
					}
					t0 := nextMinute()
					seen := map[int]bool{}
					for k := 0; k < 3; k++ {
						x.W.AdvanceTo(t0.Add(time.Duration(k)*time.Minute + 40900*time.Millisecond))
						x.checkCrashes()
						pool := n.checkPool(x, ca, CA.SignAllCerts(ca))
						x.Require(len(pool) == certs, "signed certificates", "%d of %d certificates signed in period %d", len(pool), certs, k)
						for r, l := range pool {
							x.Require(!seen[r], "RID twice", "revocation number %d occurs in two periods", r)
							seen[r] = true
							x.Require(fmt.Sprint(l) == fmt.Sprint(all), "logger information", "of %d loggers and %d certificates, certificate %d carries the proofs of %v", loggers, certs, r, l)
						}
					}
					x.Outcome("%d %d", loggers, certs)
				})
			}
		}
	})

	// hostile messages
	hostile := func(depth int) func(e *Env) {
		return func(e *Env) {
			n := NewNetCert(3, 2, 2, 2, 2)
			e.Explore("hostile", func(x *X) {
				x.W.Auto = func(m *vrt.Msg) bool { return true }
				hold := map[string][]*vrt.Msg{}
				x.W.Fault = func(m *vrt.Msg) (*http.Response, error) {
					if m.Path == "/CA/receive-poi" || m.Path == "/CA/receive-sth" {
						hold[m.Src] = append(hold[m.Src], m)
						return okResponse(""), nil
					}
					return nil, nil
				}
				time.Sleep(30 * time.Second)
				ca := n.StartCA(x, 0)
				n.StartLogger(x, 0)
				n.StartLogger(x, 1)
				t0 := nextMinute()
				x.W.AdvanceTo(t0.Add(40500 * time.Millisecond))
				pool := ca.CurrentCertificatePool
				cs := pool.GetCertList()
				x.Require(len(cs) == 2, "pool", "%d certificates", len(cs))
				var ps []crypto.POI_for_transmission
				var sths []def.Gossip_object
				for i := 0; i < 2; i++ {
					for _, m := range hold[port(n.Lg(i))] {
						if m.Dst != port(n.CA(0)) {
							continue
						}
						if m.Path == "/CA/receive-poi" {
							var p crypto.POI_for_transmission
							json.Unmarshal(m.Body, &p)
							ps = append(ps, p)
						} else {
							var o def.Gossip_object
							json.Unmarshal(m.Body, &o)
							sths = append(sths, o)
						}
					}
				}
				x.Require(len(ps) == 4 && len(sths) == 2, "messages", "%d proofs %d tree heads", len(ps), len(sths))
				p0 := ps[0]
				alt := func(f func(p *crypto.POI_for_transmission)) []byte {
					var q crypto.POI_for_transmission
					json.Unmarshal(mustJSON(p0), &q)
					f(&q)
					return mustJSON(q)
				}
				type att struct {
					name, path string
					body       []byte
				}
				forged := n.STH(n.Lg(0), sths[0].Period, "evil", 2)
				forged.Signature = sths[0].Signature
				other := sths[0]
				other.Signature = sths[1].Signature
				byOther := n.STH(n.Lg(1), sths[0].Period, "evil", 2)
				byOther.Signer = n.Lg(0)
				rev := n.REV(n.CA(1), sths[0].Period, bits(), bits(1))
				atts := []att{
					{"again", "/CA/receive-poi", mustJSON(p0)},
					{"no proof", "/CA/receive-poi", alt(func(p *crypto.POI_for_transmission) { p.Poi = nil })},
					{"empty proof", "/CA/receive-poi", alt(func(p *crypto.POI_for_transmission) { p.Poi = &merkletree.Proof{} })},
					{"altered proof", "/CA/receive-poi", alt(func(p *crypto.POI_for_transmission) { p.Poi.Siblings[0][3] ^= 4 })},
					{"null sibling", "/CA/receive-poi", alt(func(p *crypto.POI_for_transmission) { p.Poi.Siblings[0] = nil })},
					{"other certificate's proof", "/CA/receive-poi", alt(func(p *crypto.POI_for_transmission) { p.Poi = ps[1].Poi })},
					{"other logger's name", "/CA/receive-poi", alt(func(p *crypto.POI_for_transmission) { p.LoggerID = n.Lg(1); p.Poi.Siblings[0][3] ^= 4 })},
					{"unknown logger", "/CA/receive-poi", alt(func(p *crypto.POI_for_transmission) { p.LoggerID = "localhost:7999" })},
					{"no logger", "/CA/receive-poi", alt(func(p *crypto.POI_for_transmission) { p.LoggerID = "" })},
					{"unknown certificate", "/CA/receive-poi", alt(func(p *crypto.POI_for_transmission) { p.SubjectKeyId = []byte("?") })},
					{"no certificate", "/CA/receive-poi", alt(func(p *crypto.POI_for_transmission) { p.SubjectKeyId = nil })},
					{"garbage proof", "/CA/receive-poi", []byte(`{"poi":{"Siblings":[null],"Path":4294967295},"loggerID":7}`)},
					{"no JSON", "/CA/receive-poi", []byte("<")},
					{"empty", "/CA/receive-poi", nil},
					{"null", "/CA/receive-poi", []byte("null")},
					{"forged tree head", "/CA/receive-sth", mustJSON(forged)},
					{"tree head with other signature", "/CA/receive-sth", mustJSON(other)},
					{"tree head signed by other logger", "/CA/receive-sth", mustJSON(byOther)},
					{"own tree head of other logger for the first", "/CA/receive-sth", mustJSON(func() def.Gossip_object {
						o := n.STH(n.Lg(1), sths[0].Period, "evil", 2)
						o.Payload[0] = n.Lg(0)
						return o
					}())},
					{"revocation as tree head", "/CA/receive-sth", mustJSON(rev)},
					{"garbage tree head", "/CA/receive-sth", []byte(`{"type":"http://ctng.uconn.edu/101","payload":["a"]}`)},
					{"no JSON tree head", "/CA/receive-sth", []byte("{")},
					{"null tree head", "/CA/receive-sth", []byte("null")},
					{"tree head of this period", "/CA/receive-sth", mustJSON(n.STH(n.Lg(0), PeriodAt(t0), "old", 2))},
					{"tree head of the last period", "/CA/receive-sth", mustJSON(n.STH(n.Lg(0), PeriodAt(t0.Add(-time.Minute)), "old", 2))},
				}
				var seq []string
				var todo [][2]int
				for k := 0; k < depth; k++ {
					a := x.Choose(len(atts), "")
					at := x.Choose(4, "") // before everything, after the tree heads, between the proofs, after all
					seq = append(seq, fmt.Sprintf("%s (%d)", atts[a].name, at))
					todo = append(todo, [2]int{a, at})
				}
				x.Tracef("%v", seq)
				fire := func(phase int) {
					for _, t := range todo {
						if t[1] == phase {
							x.W.Do(port(n.CA(0)), "POST", atts[t[0]].path, atts[t[0]].body)
						}
					}
				}
				fire(0)
				for _, s := range sths {
					x.W.Do(port(n.CA(0)), "POST", "/CA/receive-sth", mustJSON(s))
				}
				fire(1)
				for i, p := range ps {
					x.W.Do(port(n.CA(0)), "POST", "/CA/receive-poi", mustJSON(p))
					if i == 1 {
						fire(2)
					}
				}
				fire(3)
				x.checkCrashes()
				for _, p := range x.W.Panics {
					x.Violate("panic: "+strings.Join(seq, ", "), "%s: %s", strings.Join(seq, ", "), p)
				}
				got := n.checkPool(x, ca, CA.SignAllCerts(ca))
				x.Require(len(got) == 2, "certificates", "%d certificates", len(got))
				for r, l := range got {
					x.Require(fmt.Sprint(l) == fmt.Sprint([]string{n.Lg(0), n.Lg(1)}), "logger information", "with %v, certificate %d carries the loggers %v", seq, r, l)
				}
				x.Outcome("%v", seq)
			})
		}
	}
	reg("P17", "hostile", "one CA, two loggers: each of 25 hostile messages to the CA's endpoints at each of four points of the exchange: every certificate still carries exactly both loggers' valid proofs", hostile(1))
	regDeep("P17", "hostile-2", "all pairs of them", hostile(2))

	// lock level
	setup := func(n *Net, ops string, x *X) ([]Op, func() string) {
		x.W.Auto = func(m *vrt.Msg) bool { return true }
		hold := []*vrt.Msg{}
		x.W.Fault = func(m *vrt.Msg) (*http.Response, error) {
			if m.Path == "/CA/receive-poi" || m.Path == "/CA/receive-sth" {
				hold = append(hold, m)
				return okResponse(""), nil
			}
			return nil, nil
		}
		time.Sleep(30 * time.Second)
		ca := n.StartCA(x, 0)
		n.StartLogger(x, 0)
		n.StartLogger(x, 1)
		x.W.AdvanceTo(nextMinute().Add(40500 * time.Millisecond))
		hold = append([]*vrt.Msg{}, hold...)
		rid := func(m *vrt.Msg) int {
			var p crypto.POI_for_transmission
			json.Unmarshal(m.Body, &p)
			if c := ca.CurrentCertificatePool.GetCertBySubjectKeyID(string(p.SubjectKeyId)); c != nil {
				return CA.GetRIDfromCert(c)
			}
			return -1
		}
		sort.SliceStable(hold, func(i, j int) bool {
			a, b := rid(hold[i]), rid(hold[j])
			return a < b || (a == b && hold[i].Src < hold[j].Src)
		})
		var l []Op
		poi := map[string]int{}
		pool := ca.CurrentCertificatePool
		var sth [2][]byte
		for _, m := range hold {
			if m.Path == "/CA/receive-sth" {
				sth[int(m.Src[len(m.Src)-1]-'0')] = m.Body
			}
		}
		pre := !strings.ContainsAny(ops, "st")
		for i := 0; i < 2; i++ {
			if pre || !strings.Contains(ops, string("st"[i])) {
				x.W.Do(port(n.CA(0)), "POST", "/CA/receive-sth", sth[i])
			}
		}
		for _, m := range hold {
			if m.Path == "/CA/receive-poi" {
				k := fmt.Sprintf("%c%d", m.Src[len(m.Src)-1], poi[m.Src])
				poi[m.Src]++
				for _, o := range ops {
					if k == map[rune]string{'a': "00", 'b': "10", 'c': "01", 'd': "11"}[o] {
						l = append(l, OpPost(string(o), n.CA(0), m.Path, m.Body))
					}
				}
			}
		}
		x.W.CtlTimers = true
		for _, o := range ops {
			switch o {
			case 's':
				l = append(l, OpPost("sth0", n.CA(0), "/CA/receive-sth", sth[0]))
			case 't':
				l = append(l, OpPost("sth1", n.CA(0), "/CA/receive-sth", sth[1]))
			case 'T':
				time.Sleep(505 * time.Millisecond)
				x.W.Quiesce()
				l = append(l, OpTimers())
			case 'G':
				l = append(l, OpGet("get", n.CA(0), "/ctng/v2/get-revocation", nil))
			}
		}
		return l, func() string {
			var sb strings.Builder
			for _, c := range pool.GetCertList() {
				ext := CA.ParseCTngextension(c)
				var ids []string
				for _, li := range ext.LoggerInformation {
					ids = append(ids, li.STH.Signer)
				}
				sort.Strings(ids)
				fmt.Fprintf(&sb, "%d: %v\n", ext.SequenceNumber.RID, ids)
			}
			fmt.Fprintf(&sb, "tree heads %d, statements %d\n", len(ca.STH_storage), len(ca.REV_storage))
			return sb.String()
		}
	}
	conc := func(combos []string, bound int) func(e *Env) {
		return func(e *Env) {
			n := NewNetCert(3, 2, 2, 1, 2)
			for _, c := range combos {
				c := c
				e.Linear(bound, false, exact, func(x *X) ([]Op, func() string) { return setup(n, c, x) })
			}
		}
	}
	reg("P17", "interleavings", "all interleavings (lock granularity, 2 preemptions) of proofs of two loggers for one certificate and for two, tree heads, queries and the CA's end-of-period task: as in some serial order", conc([]string{"ab", "ac", "ad", "as", "st", "abc", "aT", "sT", "GT", "abT"}, 2))
	regDeep("P17", "interleavings-4", "the same, 4 preemptions, and all four proofs with 2", conc([]string{"ab", "abc", "abT", "abcd", "absT"}, 4))
	regRace("P17", "race", "all pairs of them in a race-detector build", func(e *Env) {
		n := NewNetCert(3, 2, 2, 1, 2)
		e.RacePairs([]string{"a", "b", "c", "s", "t", "T", "G"}, func(a, b string) func(x *X) ([]Op, func() string) {
			return func(x *X) ([]Op, func() string) { return setup(n, a+b, x) }
		})
	})
}
