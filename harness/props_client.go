package harness

import (
	"bytes"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/bits-and-blooms/bitset"
	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/Logger"
	"github.com/jik18001/CTngV2/client"
	"github.com/jik18001/CTngV2/crypto"
	def "github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/monitor"
	"github.com/jik18001/CTngV2/util"
	"github.com/jik18001/CTngV2/zzverif/vrt"
	merkletree "github.com/txaty/go-merkletree"
)

// issuance is a certificate in the making: the loggers' trees it is in.
type issuance struct {
	n    *Net
	ca   *CA.CAContext
	pre  *x509.Certificate
	pub  *rsa.PublicKey
	rid  int
	sths []def.Gossip_object // per logger
	pois []crypto.POI_for_transmission
	opoi []crypto.POI_for_transmission // proof of another certificate in the same tree
}

// issue makes a precertificate of CA ci and logs it at every logger for the period.
func (n *Net) issue(x *X, ci, num, period int) *issuance {
	is := &issuance{n: n, ca: n.CAContext(ci)}
	is.ca.CertCounter = 10*period + num
	l := precerts(is.ca, 2)
	is.pre = l[0]
	is.rid = CA.GetRIDfromCert(l[0])
	is.pub = l[0].PublicKey.(*rsa.PublicKey)
	for i := 0; i < n.L; i++ {
		lg := n.LoggerContext(x, i)
		s, _, p := Logger.BuildMerkleTreeFromCerts([]x509.Certificate{*l[0], *l[1]}, *lg, period)
		is.sths = append(is.sths, s)
		is.pois = append(is.pois, p[0])
		is.opoi = append(is.opoi, p[1])
	}
	return is
}

// cert is the final certificate with the given logger information.
func (is *issuance) cert(infos []CA.LoggerInfo) *x509.Certificate {
	t := util.ParseTBSCertificate(is.pre)
	t.Subject = is.pre.Subject
	t.DNSNames = is.pre.DNSNames
	t.ExtraExtensions = []pkix.Extension{{Id: CA.OIDCTngExtension, Value: CA.EncodeCTngExtension(CA.CTngExtension{SequenceNumber: CA.SequenceNumber{RID: is.rid}, LoggerInformation: infos})}}
	return CA.Sign_certificate(t, is.ca.Rootcert, false, is.pub, &is.ca.PrivateKey)
}

func (is *issuance) info(i int) CA.LoggerInfo {
	return CA.LoggerInfo{STH: is.sths[i], POI: is.pois[i]}
}

func (is *issuance) all() (l []CA.LoggerInfo) {
	for i := range is.sths {
		l = append(l, is.info(i))
	}
	return
}

// fulls are the threshold objects of statements.
func (n *Net) fulls(l ...def.Gossip_object) (out []def.Gossip_object) {
	for _, o := range l {
		out = append(out, n.Full(o, n.Go(0), n.Go(1)))
	}
	return
}

func (n *Net) conOf(id, period string) def.Gossip_object {
	k := 0
	if port(id)[0] == '6' {
		k = 1
	}
	return n.CON(n.stmtOf(id, k, period, 0), n.stmtOf(id, k, period, 1))
}

// ---- P20: the client's decision on certificates ---------------------------------------------

type entryKind struct {
	name string
	good bool
	make func(is *issuance, i int) CA.LoggerInfo
}

func entryKinds() []entryKind {
	cp := func(p crypto.POI_for_transmission) (q crypto.POI_for_transmission) {
		json.Unmarshal(mustJSON(p), &q)
		return
	}
	return []entryKind{
		{"good", true, func(is *issuance, i int) CA.LoggerInfo { return is.info(i) }},
		{"absent", false, nil},
		{"altered tree head signature", false, func(is *issuance, i int) CA.LoggerInfo {
			l := is.info(i)
			l.STH.Signature[0] = strings.Replace(l.STH.Signature[0], l.STH.Signature[0][20:21], "0", 1) + " "
			l.STH.Signature[0] = is.sths[1-i].Signature[0]
			return l
		}},
		{"tree head relabelled", false, func(is *issuance, i int) CA.LoggerInfo {
			l := is.info(i)
			l.STH.Period = "06"
			return l
		}},
		{"period the client does not know", false, func(is *issuance, i int) CA.LoggerInfo {
			l := is.info(i)
			lg := Logger.LoggerContext{Logger_private_config: &Logger.Logger_private_config{Signer: is.n.Lg(i)}, PrivateKey: is.n.cfg[is.n.Lg(i)].SignSecretKey}
			s, _, p := Logger.BuildMerkleTreeFromCerts([]x509.Certificate{*is.pre}, lg, 44)
			l.STH, l.POI = s, p[0]
			return l
		}},
		{"other tree than the gossiped one", false, func(is *issuance, i int) CA.LoggerInfo {
			lg := Logger.LoggerContext{Logger_private_config: &Logger.Logger_private_config{Signer: is.n.Lg(i)}, PrivateKey: is.n.cfg[is.n.Lg(i)].SignSecretKey}
			s, _, p := Logger.BuildMerkleTreeFromCerts([]x509.Certificate{*is.pre, *is.ca.Rootcert}, lg, 5)
			return CA.LoggerInfo{STH: s, POI: p[0]}
		}},
		{"other logger's tree head and proof under this name", false, func(is *issuance, i int) CA.LoggerInfo {
			l := is.info(1 - i)
			l.STH.Payload[0], l.STH.Signer = is.n.Lg(i), is.n.Lg(i)
			return l
		}},
		{"proof of another certificate", false, func(is *issuance, i int) CA.LoggerInfo {
			l := is.info(i)
			l.POI = is.opoi[i]
			return l
		}},
		{"altered proof", false, func(is *issuance, i int) CA.LoggerInfo {
			l := is.info(i)
			l.POI = cp(l.POI)
			l.POI.Poi.Siblings[0][0] ^= 1
			return l
		}},
		{"no proof", false, func(is *issuance, i int) CA.LoggerInfo {
			l := is.info(i)
			l.POI.Poi = nil
			return l
		}},
		{"empty proof", false, func(is *issuance, i int) CA.LoggerInfo {
			l := is.info(i)
			l.POI.Poi = &merkletree.Proof{}
			return l
		}},
		{"signed garbage", false, func(is *issuance, i int) CA.LoggerInfo {
			l := is.info(i)
			l.STH.Payload[1] = "7b7d"
			l.STH.Signature[0] = rsaSig(is.n.cfg[is.n.Lg(i)], is.n.Lg(i)+"7b7d")
			return l
		}},
		{"signed tree head without a root", false, func(is *issuance, i int) CA.LoggerInfo {
			l := is.info(i)
			l.STH = is.n.STH(is.n.Lg(i), "44", "", 1)
			l.POI.Poi = &merkletree.Proof{}
			return l
		}},
		{"tree head of a CA", false, func(is *issuance, i int) CA.LoggerInfo {
			l := is.info(i)
			s, _ := sthOf(l.STH)
			r, _ := hex.DecodeString(s.RootHash)
			l.STH = is.n.STH(is.n.CA(i), "05", string(r), 2)
			return l
		}},
		{"empty", false, func(is *issuance, i int) CA.LoggerInfo { return CA.LoggerInfo{} }},
	}
}

func init() {
	kinds := entryKinds()
	reg("P20", "decision", "one certificate with logger information of two loggers: all pairs of 15 kinds of entries (good, forged, altered, unknown, other tree, garbage) x proofs of misbehaviour against either logger (none, accusation, conflict) x revocation state (unknown, not revoked, revoked, another one revoked, revoked by another CA): accepted exactly if a logger without misbehaviour proves it and the issuer is known not to have revoked it", func(e *Env) {
		n := NewNet(3, 2, 2, 2)
		e.Explore("decision", func(x *X) {
			k := [2]int{x.Choose(len(kinds), ""), x.Choose(len(kinds), "")}
			pom := [2]int{x.Choose(3, ""), x.Choose(3, "")}
			is := n.issue(x, 0, 1, 5)
			var infos []CA.LoggerInfo
			ok := false
			for i := 0; i < 2; i++ {
				if kinds[k[i]].make != nil {
					infos = append(infos, kinds[k[i]].make(is, i))
				}
				ok = ok || (kinds[k[i]].good && pom[i] == 0)
			}
			cert := is.cert(infos)
			for crv := 0; crv < 5; crv++ {
				cl := n.Client(x, "NEW")
				u := monitor.ClientUpdate{STHs: n.fulls(is.sths...)}
				switch crv {
				case 1:
					u.REVs = n.fulls(n.REV(n.CA(0), "05", bits(), bits()), n.REV(n.CA(1), "05", bits(), bits()))
				case 2:
					u.REVs = n.fulls(n.REV(n.CA(0), "05", bits(), bits(is.rid)))
				case 3:
					u.REVs = n.fulls(n.REV(n.CA(0), "05", bits(), bits(is.rid+1, is.rid-1, is.rid+64)))
				case 4:
					u.REVs = n.fulls(n.REV(n.CA(0), "05", bits(), bits()), n.REV(n.CA(1), "05", bits(), bits(is.rid)))
				}
				for i := 0; i < 2; i++ {
					switch pom[i] {
					case 1:
						u.POM_ACCs = append(u.POM_ACCs, n.fulls(n.ACC(n.Mo(0), n.Lg(i), "05"))...)
					case 2:
						u.POM_CONs = append(u.POM_CONs, n.conOf(n.Lg(i), "05"))
					}
				}
				x.Require(cl.HandleUpdate(u, true, true), "update", "the client rejects a valid update")
				want := ok && crv != 0 && crv != 2
				got := cl.VerifyCTngextension(cert)
				x.Require(got == want, "decision", "certificate with logger entries (%s, %s), misbehaviour proofs %v, revocation case %d: accepted %v, expected %v", kinds[k[0]].name, kinds[k[1]].name, pom, crv, got, want)
			}
			x.Outcome("%v %v", k, pom)
		})
	})
	reg("P20", "no-extension", "certificates without the extension, with a garbled one, and with one logger several times: rejected unless proven, no crash", func(e *Env) {
		n := NewNet(3, 2, 2, 2)
		e.Explore("no-extension", func(x *X) {
			is := n.issue(x, 0, 1, 5)
			cl := n.Client(x, "NEW")
			x.Require(cl.HandleUpdate(monitor.ClientUpdate{STHs: n.fulls(is.sths...), REVs: n.fulls(n.REV(n.CA(0), "05", bits(), bits()))}, true, true), "update", "the client rejects a valid update")
			raw := func(v []byte, id []int) *x509.Certificate {
				t := util.ParseTBSCertificate(is.pre)
				if id != nil {
					t.ExtraExtensions = []pkix.Extension{{Id: id, Value: v}}
				}
				return CA.Sign_certificate(t, is.ca.Rootcert, false, is.pub, &is.ca.PrivateKey)
			}
			oid := []int(CA.OIDCTngExtension)
			bad := kinds[8].make(is, 0)
			cases := []struct {
				c  *x509.Certificate
				ok bool
			}{
				{raw(nil, nil), false},
				{raw(CA.EncodeCTngExtension(CA.CTngExtension{LoggerInformation: is.all()}), []int{1, 2, 3}), false},
				{raw([]byte{}, oid), false}, {raw([]byte("junk"), oid), false}, {raw([]byte{4, 2, '{', '}'}, oid), false},
				{raw([]byte{4, 127}, oid), false}, {raw([]byte{4, 4, 'n', 'u', 'l', 'l'}, oid), false},
				{is.cert(nil), false}, {is.cert(is.all()), true}, {is.cert([]CA.LoggerInfo{bad, bad, is.info(0)}), true},
				{is.cert([]CA.LoggerInfo{bad, bad}), false}, {is.cert([]CA.LoggerInfo{is.info(0), is.info(0)}), true},
			}
			k := x.Choose(len(cases), "")
			got := cl.VerifyCTngextension(cases[k].c)
			x.Require(got == cases[k].ok, "decision", "certificate case %d accepted: %v", k, got)
			x.Outcome("%d", k)
		})
	})
	hist := func(periods int) func(e *Env) {
		return func(e *Env) {
			n := NewNet(3, 2, 2, 2)
			ev := []string{"nothing", "revoke first", "revoke second", "accuse logger 0", "logger 1 conflict", "both loggers"}
			e.Explore("history", func(x *X) {
				var is []*issuance
				var crv *bitset.BitSet = bits()
				var cls []*client.ClientContext
				cl := n.Client(x, "NEW")
				cls = append(cls, cl)
				revoked, pom := map[int]bool{}, map[int]bool{}
				var h []string
				for p := 0; p < periods; p++ {
					k := x.Choose(len(ev), "")
					h = append(h, ev[k])
					per := fmt.Sprintf("%02d", 5+p)
					num := 1
					if p == 0 {
						num = -50 // revocation number 0
					}
					a := n.issue(x, 0, num, 5+p)
					is = append(is, a)
					delta := bits()
					u := monitor.ClientUpdate{}
					switch k {
					case 1, 2:
						if k-1 < len(is) {
							delta.Set(uint(is[k-1].rid))
							revoked[k-1] = true
						}
					case 3:
						u.POM_ACCs = n.fulls(n.ACC(n.Mo(1), n.Lg(0), per))
						pom[0] = true
					case 4:
						u.POM_CONs = []def.Gossip_object{n.conOf(n.Lg(1), per)}
						pom[1] = true
					case 5:
						u.POM_ACCs = n.fulls(n.ACC(n.Mo(1), n.Lg(0), per), n.ACC(n.Mo(1), n.Lg(1), per))
						pom[0], pom[1] = true, true
					}
					u.STHs = n.fulls(a.sths...)
					u.REVs = n.fulls(n.REV(n.CA(0), per, crv, delta))
					crv = crv.Union(delta)
					x.Require(cl.HandleUpdate(u, true, p == 0), "update", "the client rejects the update of period %d after %v", p, h)
					for i, s := range is {
						for m := 1; m < 4; m++ {
							var infos []CA.LoggerInfo
							ok := false
							for j := 0; j < 2; j++ {
								if m>>j&1 == 1 {
									infos = append(infos, s.info(j))
									ok = ok || !pom[j]
								}
							}
							want := ok && !revoked[i]
							got := cl.VerifyCTngextension(s.cert(infos))
							x.Require(got == want, "decision", "after %v: the certificate of period %d with proofs of loggers %b is accepted: %v, expected %v", h, i, m, got, want)
						}
					}
				}
				x.Outcome("%v", h)
			})
		}
	}
	reg("P20", "history", "all histories of three periods (revocation of either certificate, proofs against either or both loggers, nothing): after each update every certificate so far, with one or both loggers' proofs, is judged rightly", hist(3))
	regDeep("P20", "history-4", "the same over four periods", hist(4))
}

// ---- P21: updates are taken over as a whole -----------------------------------------------------

func dbState(cl *client.ClientContext) string {
	var sb strings.Builder
	var ks []string
	for k, v := range cl.STH_database {
		ks = append(ks, "STH "+k+"="+v)
	}
	for k, v := range cl.CRV_database {
		ks = append(ks, fmt.Sprint("CRV ", k, "=", setBits(v)))
	}
	for k, v := range cl.POM_database {
		ks = append(ks, "POM "+k+"="+hashStr(string(mustJSON(v))))
	}
	sort.Strings(ks)
	for _, k := range ks {
		sb.WriteString(k + "\n")
	}
	return sb.String()
}

// updates are the valid updates of periods 05 and 06.
func (n *Net) updates() (u1, u2 monitor.ClientUpdate) {
	a, b := bits(3), bits(70)
	u1 = monitor.ClientUpdate{STHs: n.fulls(n.STH(n.Lg(0), "05", "r0", 2), n.STH(n.Lg(1), "05", "r1", 2)),
		REVs: n.fulls(n.REV(n.CA(0), "05", bits(), a), n.REV(n.CA(1), "05", bits(), bits())), MonitorID: n.Mo(0), Period: "05"}
	u2 = monitor.ClientUpdate{STHs: n.fulls(n.STH(n.Lg(0), "06", "s0", 2), n.STH(n.Lg(1), "06", "s1", 2)),
		REVs:     n.fulls(n.REV(n.CA(0), "06", a, b), n.REV(n.CA(1), "06", bits(), bits(9))),
		POM_ACCs: n.fulls(n.ACC(n.Mo(0), "localhost:7002", "06"), n.ACC(n.Mo(0), "localhost:6003", "06")), POM_CONs: []def.Gossip_object{n.conOf("localhost:6002", "06"), n.conOf("localhost:7003", "06")}, MonitorID: n.Mo(0), Period: "06"}
	return
}

func cloneUpdate(u monitor.ClientUpdate) (v monitor.ClientUpdate) {
	json.Unmarshal(mustJSON(u), &v)
	return
}

func init() {
	type mut struct {
		name string
		f    func(n *Net, l *[]def.Gossip_object, i int, list int) bool // false: does not apply
	}
	set := func(f func(n *Net, o *def.Gossip_object, list int) bool) func(n *Net, l *[]def.Gossip_object, i, list int) bool {
		return func(n *Net, l *[]def.Gossip_object, i, list int) bool { return f(n, &(*l)[i], list) }
	}
	// all of these make the update unacceptable
	bad := []mut{
		{"altered signature", set(func(n *Net, o *def.Gossip_object, list int) bool {
			o.Signature[0] = strings.Replace(o.Signature[0], "a", "b", 1)
			if list == 3 {
				o.Signature[0] = o.Signature[1]
			}
			return true
		})},
		{"no signature", set(func(n *Net, o *def.Gossip_object, list int) bool { o.Signature = [2]string{}; return true })},
		{"one signer", set(func(n *Net, o *def.Gossip_object, list int) bool {
			if list == 3 {
				return false
			}
			s, _ := n.cfg[n.Go(0)].ThresholdSign(msgOf(*o))
			agg, _ := crypto.ThresholdAggregate([]crypto.SigFragment{s}, 0)
			o.Signature[0], _ = agg.String()
			return true
		})},
		{"altered payload", set(func(n *Net, o *def.Gossip_object, list int) bool {
			o.Payload[2] += " "
			return true
		})},
		{"other subject", set(func(n *Net, o *def.Gossip_object, list int) bool {
			if strings.HasSuffix(o.Payload[0], "0") {
				o.Payload[0] = o.Payload[0][:len(o.Payload[0])-1] + "1"
			} else {
				o.Payload[0] = o.Payload[0][:len(o.Payload[0])-1] + "0"
			}
			return true
		})},
		{"relabelled", set(func(n *Net, o *def.Gossip_object, list int) bool {
			o.Period = "07"
			return list < 2 // accusations are not bound to a period
		})},
		{"statement instead of threshold object", set(func(n *Net, o *def.Gossip_object, list int) bool {
			switch list {
			case 0:
				*o = n.STH(o.Payload[0], "06", "s0", 2)
			case 1:
				*o = n.REV(o.Payload[0], "06", bits(), bits())
			case 2:
				*o = n.ACC(n.Mo(0), n.Lg(0), "06")
			case 3:
				*o = n.STH(n.Lg(0), "06", "s0", 2)
			}
			return true
		})},
		{"other kind of object", set(func(n *Net, o *def.Gossip_object, list int) bool {
			switch list {
			case 0:
				*o = n.fulls(n.ACC(n.Mo(0), n.Lg(0), "06"))[0]
			case 1:
				*o = n.fulls(n.STH(n.Lg(0), "06", "s0", 2))[0]
			case 2:
				*o = n.conOf(n.Lg(0), "06")
			case 3:
				*o = n.fulls(n.ACC(n.Mo(0), n.Lg(0), "06"))[0]
			}
			return true
		})},
		{"type changed", set(func(n *Net, o *def.Gossip_object, list int) bool {
			o.Type = []string{def.REV_FULL, def.STH_FULL, def.STH_FULL, def.STH_INIT}[list]
			return true
		})},
		{"unknown type", set(func(n *Net, o *def.Gossip_object, list int) bool { o.Type = "x"; return true })},
		{"empty object", set(func(n *Net, o *def.Gossip_object, list int) bool { *o = def.Gossip_object{}; return true })},
		{"revocation not following the last", set(func(n *Net, o *def.Gossip_object, list int) bool {
			if list != 1 {
				return false
			}
			*o = n.fulls(n.REV(o.Payload[0], "06", bits(55), bits(70)))[0]
			return true
		})},
		{"revocation with bad SRH", set(func(n *Net, o *def.Gossip_object, list int) bool {
			if list != 1 {
				return false
			}
			d, _ := bits(1).MarshalBinary()
			*o = n.fulls(n.revRaw(o.Payload[0], "06", compress(d), rsaSig(n.cfg[o.Payload[0]], "x")))[0]
			return true
		})},
		{"revocation with SRH of the other CA", set(func(n *Net, o *def.Gossip_object, list int) bool {
			if list != 1 {
				return false
			}
			d, _ := bits(1).MarshalBinary()
			h1, _ := crypto.GenerateSHA256(d)
			hr, _ := crypto.GenerateSHA256([]byte("06" + string(h1) + string(h1)))
			oth := n.CA(0)
			if o.Payload[0] == oth {
				oth = n.CA(1)
			}
			*o = n.fulls(n.revRaw(o.Payload[0], "06", compress(d), rsaSig(n.cfg[oth], string(hr))))[0]
			return true
		})},
		{"revocation with garbage vector", set(func(n *Net, o *def.Gossip_object, list int) bool {
			if list != 1 {
				return false
			}
			*o = n.fulls(n.revRaw(o.Payload[0], "06", []byte("zzz"), rsaSig(n.cfg[o.Payload[0]], "x")))[0]
			return true
		})},
		{"revocation with null SRH", set(func(n *Net, o *def.Gossip_object, list int) bool {
			if list != 1 {
				return false
			}
			*o = n.fulls(n.revRaw(o.Payload[0], "06", nil, ""))[0]
			return true
		})},
		{"false conflict", set(func(n *Net, o *def.Gossip_object, list int) bool {
			if list != 3 {
				return false
			}
			a := n.STH(n.Lg(0), "06", "a", 2)
			*o = n.CON(a, a)
			return true
		})},
		{"conflict of two periods", set(func(n *Net, o *def.Gossip_object, list int) bool {
			if list != 3 {
				return false
			}
			*o = n.CON(n.STH(n.Lg(0), "06", "a", 2), n.STH(n.Lg(0), "05", "b", 2))
			return true
		})},
	}
	// these keep it acceptable
	good := []mut{
		{"unchanged", func(n *Net, l *[]def.Gossip_object, i, list int) bool { return true }},
		{"left out", func(n *Net, l *[]def.Gossip_object, i, list int) bool {
			*l = append(append([]def.Gossip_object{}, (*l)[:i]...), (*l)[i+1:]...)
			return true
		}},
		{"twice", func(n *Net, l *[]def.Gossip_object, i, list int) bool { *l = append(*l, (*l)[i]); return true }},
		{"moved to the end", func(n *Net, l *[]def.Gossip_object, i, list int) bool {
			o := (*l)[i]
			*l = append(append(append([]def.Gossip_object{}, (*l)[:i]...), (*l)[i+1:]...), o)
			return true
		}},
		{"other signers", set(func(n *Net, o *def.Gossip_object, list int) bool {
			if list == 3 {
				return false
			}
			init := map[string]string{def.STH_FULL: def.STH_INIT, def.REV_FULL: def.REV_INIT, def.ACC_FULL: def.ACC_INIT}
			q := *o
			q.Type = init[o.Type]
			*o = n.Full(q, n.Go(2), n.Go(1))
			return true
		})},
	}
	lists := func(u *monitor.ClientUpdate) []*[]def.Gossip_object {
		return []*[]def.Gossip_object{&u.STHs, &u.REVs, &u.POM_ACCs, &u.POM_CONs}
	}
	slots := [][2]int{{0, 0}, {0, 1}, {1, 0}, {1, 1}, {2, 0}, {2, 1}, {3, 0}, {3, 1}}
	one := func(two bool) func(e *Env) {
		return func(e *Env) {
			n := NewNet(3, 2, 4, 4)
			e.Explore("updates", func(x *X) {
				s := slots[x.Choose(len(slots), "")]
				m := x.Choose(len(bad)+len(good), "")
				u1, u2 := n.updates()
				cl := n.Client(x, "NEW")
				x.Require(cl.HandleUpdate(u1, true, true), "valid update", "the client rejects a valid first update")
				before := dbState(cl)
				ref := n.Client(x, "NEW")
				ref.HandleUpdate(u1, true, true)
				u := cloneUpdate(u2)
				name, ok := "", true
				if two { // another slot changed harmlessly or not, too
					s2 := slots[x.Choose(len(slots), "")]
					m2 := x.Choose(len(bad), "")
					if s2 == s || !bad[m2].f(n, lists(&u)[s2[0]], s2[1], s2[0]) {
						x.Outcome("n/a")
						return
					}
					ok = false
					name = fmt.Sprintf("%s in slot %v, ", bad[m2].name, s2)
				}
				if m < len(bad) {
					if !bad[m].f(n, lists(&u)[s[0]], s[1], s[0]) {
						x.Outcome("n/a")
						return
					}
					ok = false
					name += fmt.Sprintf("%s in slot %v", bad[m].name, s)
				} else {
					if !good[m-len(bad)].f(n, lists(&u)[s[0]], s[1], s[0]) {
						x.Outcome("n/a")
						return
					}
					name += fmt.Sprintf("%s in slot %v", good[m-len(bad)].name, s)
				}
				x.Tracef("%s", name)
				got := cl.HandleUpdate(u, true, false)
				x.Require(got == ok, "accepted: "+name, "an update with %s is accepted: %v", name, got)
				if !got {
					x.Require(dbState(cl) == before, "partly taken over", "an update with %s was rejected but changed the client: %s", name, diffLines(before, dbState(cl)))
				} else {
					for _, l := range lists(&u) {
						for _, o := range *l {
							_ = o
						}
					}
					want := wantDB(before, u)
					x.Require(dbState(cl) == want, "not fully taken over", "an update with %s was accepted, but: %s", name, diffLines(want, dbState(cl)))
				}
				// and the valid one is accepted after all
				x.Require(cl.HandleUpdate(u2, true, false), "wedged", "after an update with %s the client rejects the valid one", name)
				x.Require(ref.HandleUpdate(u2, true, false), "valid update", "the client rejects a valid second update")
				a, b := noPOM(dbState(cl)), noPOM(dbState(ref))
				x.Require(a == b, "final state", "after an update with %s and the valid one: %s", name, diffLines(b, a))
				x.Outcome("%s", name)
			})
		}
	}
	reg("P21", "changes", "all single changes (18 that invalidate it, 5 that do not) to each of the eight objects of an update: rejected without any effect or taken over completely, and the valid update is accepted afterwards", one(false))
	regDeep("P21", "changes-2", "all pairs of a change with an invalidating change in another object: rejected without any effect", one(true))
	large := func(N int) func(e *Env) {
		return func(e *Env) {
			n := NewNet(3, 2, 2*N, 2*N)
			var valid monitor.ClientUpdate
			valid.MonitorID, valid.Period = n.Mo(0), "06"
			for i := 0; i < N; i++ {
				valid.STHs = append(valid.STHs, n.fulls(n.STH(n.Lg(i), "06", fmt.Sprintf("s%d", i), 2))...)
				valid.REVs = append(valid.REVs, n.fulls(n.REV(n.CA(i), "06", bits(), bits(7*i)))...)
				acc, con := n.Lg(N+i), n.CA(N+i)
				if i%2 == 1 {
					acc, con = n.CA(N+i), n.Lg(N+i)
				}
				valid.POM_ACCs = append(valid.POM_ACCs, n.fulls(n.ACC(n.Mo(0), acc, "06"))...)
				valid.POM_CONs = append(valid.POM_CONs, n.conOf(con, "06"))
			}
			use := map[string]bool{"altered signature": true, "one signer": true, "altered payload": true, "type changed": true, "revocation not following the last": true, "revocation with bad SRH": true, "false conflict": true}
			var muts []mut
			for _, m := range bad {
				if use[m.name] {
					muts = append(muts, m)
				}
			}
			e.Explore("large", func(x *X) {
				list, i := x.Choose(4, ""), x.Choose(N, "")
				m := x.Choose(len(muts)+2, "")
				u, name, ok := cloneUpdate(valid), "no change", m >= len(muts)
				if m < len(muts) {
					name = muts[m].name
					if !muts[m].f(n, lists(&u)[list], i, list) {
						x.Outcome("n/a")
						return
					}
				} else if m > len(muts) {
					name = "repetition"
					l := lists(&u)[list]
					*l = append(*l, (*l)[i])
				}
				name = fmt.Sprintf("%s at %d of %d in list %d", name, i, N, list)
				x.Tracef("%s", name)
				cl := n.Client(x, "NEW")
				before := dbState(cl)
				got := cl.HandleUpdate(u, true, true)
				x.Require(got == ok, "accepted: "+name, "an update with %s is accepted: %v", name, got)
				want := before
				if got {
					want = wantDB(before, u)
				}
				x.Require(dbState(cl) == want, "database", "after an update with %s (accepted: %v): %s", name, got, diffLines(want, dbState(cl)))
				x.Outcome("%s", name)
			})
		}
	}
	reg("P21", "large", "an update with twelve objects of each of the four kinds: seven kinds of invalidation and a repetition at each of the 48 objects: rejected without any effect or taken over completely", large(12))
	regDeep("P21", "large-40", "the same with forty of each", large(40))

	// concurrent decisions see the state before or after an update
	setup := func(n *Net, ops string, x *X) ([]Op, func() string) {
		is := n.issue(x, 0, 1, 5)
		cert := is.cert(is.all())
		cl := n.Client(x, "NEW")
		u1 := monitor.ClientUpdate{STHs: n.fulls(is.sths...), REVs: n.fulls(n.REV(n.CA(0), "05", bits(), bits()))}
		u2 := monitor.ClientUpdate{STHs: n.fulls(n.STH(n.Lg(0), "06", "q", 2)), REVs: n.fulls(n.REV(n.CA(0), "06", bits(), bits(is.rid))), POM_ACCs: n.fulls(n.ACC(n.Mo(0), n.Lg(0), "06"))}
		u3 := monitor.ClientUpdate{REVs: n.fulls(n.REV(n.CA(1), "06", bits(), bits(4))), STHs: n.fulls(n.STH(n.Lg(1), "06", "q", 2)), POM_CONs: []def.Gossip_object{n.conOf(n.Lg(1), "06")}}
		ub := cloneUpdate(u2)
		ub.REVs[0].Signature[0] = "x"
		if !strings.Contains(ops, "1") {
			cl.HandleUpdate(u1, true, true)
		}
		res := map[string]string{}
		var l []Op
		for i, o := range ops {
			o, i := o, i
			key := fmt.Sprintf("%c%d", o, i)
			var f func() bool
			switch o {
			case '1':
				f = func() bool { return cl.HandleUpdate(u1, true, false) }
			case '2':
				f = func() bool { return cl.HandleUpdate(u2, true, false) }
			case '3':
				f = func() bool { return cl.HandleUpdate(u3, true, false) }
			case 'b':
				f = func() bool { return cl.HandleUpdate(ub, true, false) }
			case 'v':
				f = func() bool { return cl.VerifyCTngextension(cert) }
			}
			l = append(l, OpCall(key, n.Mo(0), func() { r := f(); res[key] = fmt.Sprint(r) }))
		}
		return l, func() string { return fmt.Sprint(res) + "\n" + dbState(cl) }
	}
	conc := func(combos []string, bound int) func(e *Env) {
		return func(e *Env) {
			n := NewNet(3, 2, 2, 2)
			for _, c := range combos {
				c := c
				e.Linear(bound, false, exact, func(x *X) ([]Op, func() string) { return setup(n, c, x) })
			}
		}
	}
	reg("P21", "interleavings", "all interleavings (lock granularity, 3 preemptions) of certificate decisions and updates, good and bad: as in some serial order, no deadlock", conc([]string{"1v", "2v", "bv", "3v", "12", "23", "2b", "vv", "2vv", "23v"}, 3))
	regRace("P21", "race", "all pairs of them in a race-detector build", func(e *Env) {
		n := NewNet(3, 2, 2, 2)
		e.RacePairs([]string{"1", "2", "3", "b", "v"}, func(a, b string) func(x *X) ([]Op, func() string) {
			return func(x *X) ([]Op, func() string) { return setup(n, a+b, x) }
		})
	})
}

func noPOM(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if !strings.HasPrefix(l, "POM ") {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

// wantDB is the database after an update all of whose parts are valid, computed from their contents.
func wantDB(before string, u monitor.ClientUpdate) string {
	db := map[string]string{}
	for _, l := range strings.Split(before, "\n") {
		if i := strings.Index(l, "="); i > 0 {
			db[l[:i]] = l[i+1:]
		}
	}
	for _, o := range u.STHs {
		s, _ := sthOf(o)
		db["STH "+o.Payload[0]+"@"+o.Period] = s.RootHash
	}
	for _, o := range u.REVs {
		var r def.Revocation
		json.Unmarshal([]byte(o.Payload[2]), &r)
		d, _ := util.DecompressData(r.Delta_CRV)
		var b bitset.BitSet
		b.UnmarshalBinary(d)
		m := map[uint]bool{}
		var have []uint
		for _, f := range strings.Fields(strings.Trim(db["CRV "+o.Payload[0]], "[]")) {
			var v uint
			fmt.Sscan(f, &v)
			m[v] = true
		}
		for _, v := range setBits(&b) {
			m[v] = true
		}
		for v := range m {
			have = append(have, v)
		}
		db["CRV "+o.Payload[0]] = fmt.Sprint(sortedU(have))
	}
	for _, l := range [][]def.Gossip_object{u.POM_ACCs, u.POM_CONs} {
		for _, o := range l {
			db["POM "+o.Payload[0]] = hashStr(string(mustJSON(o)))
		}
	}
	var ks []string
	for k, v := range db {
		ks = append(ks, k+"="+v+"\n")
	}
	sort.Strings(ks)
	return strings.Join(ks, "")
}

func diffLines(want, got string) string {
	a, b := map[string]bool{}, map[string]bool{}
	for _, l := range strings.Split(want, "\n") {
		a[l] = true
	}
	var out []string
	for _, l := range strings.Split(got, "\n") {
		b[l] = true
		if !a[l] {
			out = append(out, "+"+l)
		}
	}
	for l := range a {
		if !b[l] {
			out = append(out, "-"+l)
		}
	}
	sort.Strings(out)
	return strings.Join(out, " | ")
}

// ---- P22: crashes while data are written ----------------------------------------------------------

func init() {
	reg("P22", "client", "a client that saves its three databases (in all orders) after each of two updates, crashing before every disk operation and inside every write: it restarts with each database as before or after the save, and taking the update again leads to the state without the crash", func(e *Env) {
		n := NewNet(3, 2, 4, 4)
		e.Explore("crash points", func(x *X) {
			perms := permute(3)
			order := perms[x.Choose(len(perms), "")]
			which := x.Choose(2, "") // in the save after the first or second update
			u1, u2 := n.updates()
			us := []monitor.ClientUpdate{u1, u2}
			saves := []func(*client.ClientContext){client.SaveSTHDatabase, client.SaveCRVDatabase, client.SavePomDatabase}
			save := func(cl *client.ClientContext) {
				for _, i := range order {
					saves[i](cl)
				}
			}
			cl := n.Client(x, "NEW")
			state := []string{dbState(cl)}
			steps := 0
			for i := 0; i <= which; i++ {
				x.Require(cl.HandleUpdate(us[i], true, i == 0), "update", "update %d rejected", i)
				state = append(state, dbState(cl))
				if i < which {
					save(cl)
				}
			}
			// count the steps on a copy of the files
			d := x.Scratch() + "/client"
			os.CopyFS(x.Scratch()+"/copy", os.DirFS(d))
			steps, _ = vrt.DiskRun(-1, func() { save(cl) })
			full := dbState(cl)
			re := n.ClientIn(x, d, "OLD")
			x.Require(dbState(re) == full, "restart", "a restarted client has other data: %s", diffLines(full, dbState(re)))
			os.RemoveAll(d)
			os.CopyFS(d, os.DirFS(x.Scratch()+"/copy"))
			at := x.Choose(steps, "")
			_, crashed := vrt.DiskRun(at, func() { save(cl) })
			x.Require(crashed, "harness", "no crash at step %d of %d", at, steps)
			old, new := state[which], state[which+1]
			re = n.ClientIn(x, d, "OLD")
			x.checkCrashes()
			got := dbState(re)
			part := func(s, p string) string {
				var out []string
				for _, l := range strings.Split(s, "\n") {
					if strings.HasPrefix(l, p) {
						out = append(out, l)
					}
				}
				return strings.Join(out, "\n")
			}
			for _, p := range []string{"STH", "CRV", "POM"} {
				g := part(got, p)
				x.Require(g == part(old, p) || g == part(new, p), "database "+p, "after a crash at step %d of saving after update %d the %s database is neither the old nor the new: %s", at, which+1, p, diffLines(part(new, p), g))
			}
			x.Require(re.HandleUpdate(us[which], true, false), "wedged", "after a crash at step %d the client rejects the update it was saving", at)
			x.Require(dbState(re) == full, "state after restart", "after a crash at step %d and the update again: %s", at, diffLines(full, dbState(re)))
			if which == 0 {
				x.Require(re.HandleUpdate(us[1], true, false), "wedged", "after a crash at step %d the client rejects the next update", at)
			}
			// saving works again
			save(re)
			x.Require(dbState(n.ClientIn(x, d, "OLD")) == dbState(re), "saving after a crash", "what is saved after a crash is not loaded again")
			x.Outcome("%v %d", order, which)
		})
	})
	reg("P22", "client-restart", "a client restarted after any subset of four updates and with any database file absent: same data, same decisions on certificates", func(e *Env) {
		n := NewNet(3, 2, 2, 2)
		e.Explore("restarts", func(x *X) {
			cl := n.Client(x, "NEW")
			d := x.Scratch() + "/client"
			crv := bits()
			var is []*issuance
			restarts := x.Choose(16, "")
			ev := x.Choose(4, "") // when the first certificate is revoked
			pm := x.Choose(5, "") // when logger 0 is blacklisted
			for p := 0; p < 4; p++ {
				per := fmt.Sprintf("%02d", 58+p)
				if p > 1 {
					per = fmt.Sprintf("%02d", p-2)
				}
				pn := (58 + p) % 60
				a := n.issue(x, 0, 1, pn)
				is = append(is, a)
				delta := bits()
				if ev == p {
					delta.Set(uint(is[0].rid))
				}
				u := monitor.ClientUpdate{STHs: n.fulls(a.sths...), REVs: n.fulls(n.REV(n.CA(0), per, crv, delta))}
				if pm == p {
					u.POM_ACCs = n.fulls(n.ACC(n.Mo(0), n.Lg(0), per))
				}
				crv = crv.Union(delta)
				x.Require(cl.HandleUpdate(u, true, p == 0), "update", "update %d rejected (restarts %04b)", p, restarts)
				if restarts>>p&1 == 1 {
					client.SaveSTHDatabase(cl)
					client.SaveCRVDatabase(cl)
					client.SavePomDatabase(cl)
					before := dbState(cl)
					cl = n.ClientIn(x, d, "OLD")
					x.Require(dbState(cl) == before, "restart", "a restarted client has other data: %s", diffLines(before, dbState(cl)))
				}
				for i, s := range is {
					rev := i == 0 && ev <= p
					x.Require(cl.VerifyCTngextension(s.cert(s.all())) == !rev, "decision", "certificate of period %d judged wrongly after period %d (restarts %04b)", i, p, restarts)
					x.Require(cl.VerifyCTngextension(s.cert([]CA.LoggerInfo{s.info(0)})) == (!rev && pm > p), "decision", "certificate of period %d with the proof of a blacklisted logger judged wrongly after period %d (restarts %04b)", i, p, restarts)
				}
			}
			x.checkCrashes()
			x.Outcome("%d %d %d", restarts, ev, pm)
		})
	})
	reg("P22", "monitor", "a monitor crashing before every disk operation and inside every write of saving its update: afterwards the update is served completely or not at all, earlier ones as before", func(e *Env) {
		n := NewNet(3, 2, 4, 4)
		e.Explore("crash points", func(x *X) {
			u1, u2 := n.updates()
			x.Sink()
			prev := x.Choose(2, "") // an update of the same minute exists already
			m := n.SoloMonitor(x, 0, nil)
			m.SaveStorage("5", u1)
			if prev == 1 {
				m.SaveStorage("6", u1)
			}
			d := m.StorageDirectory
			os.CopyFS(x.Scratch()+"/copy", os.DirFS(d))
			steps, _ := vrt.DiskRun(-1, func() { m.SaveStorage("6", u2) })
			os.RemoveAll(d)
			os.CopyFS(d, os.DirFS(x.Scratch()+"/copy"))
			at := x.Choose(steps+1, "")
			if at < steps {
				_, crashed := vrt.DiskRun(at, func() { m.SaveStorage("6", u2) })
				x.Require(crashed, "harness", "no crash")
			} else {
				vrt.DiskRun(-1, func() { m.SaveStorage("6", u2) })
			}
			// (a restarted monitor serves from the same directory)
			u, code, ok := x.GetUpdate(n.Mo(0), 5)
			x.Require(ok && bytes.Equal(mustJSON(u), mustJSON(u1)), "earlier update", "after a crash at step %d the earlier update is served with status %d and other contents", at, code)
			u, code, ok = x.GetUpdate(n.Mo(0), 6)
			if ok {
				b := mustJSON(u)
				x.Require(bytes.Equal(b, mustJSON(u2)) || (prev == 1 && at < steps && bytes.Equal(b, mustJSON(u1))), "partial update", "after a crash at step %d of %d an incomplete update is served", at, steps)
			} else {
				x.Require(at < steps && prev == 0, "update lost", "the update is not served (status %d)", code)
			}
			x.checkCrashes()
			x.Outcome("%d %d %v", prev, at, ok)
		})
	})
	reg("P22", "file", "writing any data file over an old one or none, of several sizes, with a crash before every disk operation and inside every write: the file has the old or the new content", func(e *Env) {
		e.Explore("crash points", func(x *X) {
			f := x.Scratch() + "/data.json"
			vals := []any{nil, map[string]string{}, map[string]string{"a": "b"}, strings.Repeat("x", 3), strings.Repeat("y", 70000), []int{}}
			o := x.Choose(len(vals)+1, "")
			v := vals[x.Choose(len(vals), "")]
			var old []byte
			if o < len(vals) {
				x.Require(util.WriteData(f, vals[o]) == nil, "write", "write failed")
				old, _ = os.ReadFile(f)
			}
			steps, _ := vrt.DiskRun(-1, func() { util.WriteData(f+"x", v) })
			new, _ := os.ReadFile(f + "x")
			if o < len(vals) {
				os.WriteFile(f+"x", old, 0644)
				steps, _ = vrt.DiskRun(-1, func() { util.WriteData(f+"x", v) })
			}
			at := x.Choose(steps+1, "")
			if at == steps {
				at = -1
			}
			vrt.DiskRun(at, func() { util.WriteData(f, v) })
			got, err := util.ReadByte(f)
			if err != nil {
				x.Require(o == len(vals) && at >= 0, "file lost", "a crash at step %d lost the file", at)
			} else {
				x.Require((bytes.Equal(got, old) && at >= 0 && o < len(vals)) || bytes.Equal(got, new), "torn file", "a crash at step %d of %d left the file with %d bytes, old %d, new %d", at, steps, len(got), len(old), len(new))
			}
			x.Require(util.WriteData(f, vals[2]) == nil, "write after crash", "after a crash at step %d the file cannot be written", at)
			x.Outcome("%d", at)
		})
	})
}

var _ = time.Now
