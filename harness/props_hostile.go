package harness

import (
	"bytes"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"time"

	"github.com/jik18001/CTngV2/CA"
	def "github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/monitor"
	"github.com/jik18001/CTngV2/util"
	"github.com/jik18001/CTngV2/zzverif/vrt"
)

// ---- P26: hostile and failing peers ---------------------------------------------

// A mutant is a malformed variant of a message.
type mutant struct {
	name string
	body []byte
}

// mutateJSON enumerates the single-place changes of a JSON value: every node replaced
// by each of a list of values, every member and element removed or repeated, strings cut
// and prolonged, and the same inside strings that hold JSON or hex-encoded JSON.
func mutateJSON(v any, path string, emit func(name string, v any)) {
	for i, r := range []any{nil, "", "x", "localhost:7001", 0, -1, 1e300, true, []any{}, map[string]any{}, []any{nil}, []any{"", "", "", ""}} {
		if fmt.Sprintf("%T%v", r, r) != fmt.Sprintf("%T%v", v, v) {
			emit(fmt.Sprintf("%s = value %d", path, i), r)
		}
	}
	switch t := v.(type) {
	case map[string]any:
		var keys []string
		for k := range t {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		cp := func() map[string]any {
			m := map[string]any{}
			for k, v := range t {
				m[k] = v
			}
			return m
		}
		for _, k := range keys {
			m := cp()
			delete(m, k)
			emit(path+" without "+k, m)
			mutateJSON(t[k], path+"."+k, func(name string, v any) {
				m := cp()
				m[k] = v
				emit(name, m)
			})
		}
		m := cp()
		m["unknown"] = []any{1.0, "x"}
		emit(path+" with another member", m)
	case []any:
		cp := func() []any { return append([]any{}, t...) }
		if len(t) > 0 {
			emit(path+" without the last", cp()[:len(t)-1])
			emit(path+" with the first repeated", append(cp(), t[0]))
		}
		for i := range t {
			if i > 2 {
				break
			}
			mutateJSON(t[i], fmt.Sprintf("%s[%d]", path, i), func(name string, v any) {
				l := cp()
				l[i] = v
				emit(name, l)
			})
		}
	case string:
		if t == "" {
			return
		}
		emit(path+" cut", t[:len(t)/2])
		emit(path+" without its first character", t[1:])
		emit(path+" prolonged", t+"0")
		emit(path+" repeated", t+t)
		emit(path+" changed", "?"+t[1:])
		var in any
		if t[0] == '{' && json.Unmarshal([]byte(t), &in) == nil {
			mutateJSON(in, path+"(JSON)", func(name string, v any) { emit(name, string(mustJSON(v))) })
		} else if b, err := hex.DecodeString(t); err == nil && len(b) > 0 && b[0] == '{' && json.Unmarshal(b, &in) == nil {
			mutateJSON(in, path+"(hex)", func(name string, v any) { emit(name, hex.EncodeToString(mustJSON(v))) })
		}
	}
}

// mutants enumerates the malformed variants of a JSON body, the body itself included.
func mutants(body []byte) (out []mutant) {
	add := func(name string, b []byte) { out = append(out, mutant{name, b}) }
	add("valid", body)
	add("nothing", nil)
	for _, s := range []string{"<html>", "{", "[", "\"", "{}", "[[[[[[", "{\"\":", "\x00\xff\xfe", "nul", "1e999", "{\"a\":\"\\ud800\"}"} {
		add(fmt.Sprintf("%q", s), []byte(s))
	}
	for i := 1; i < 16; i++ {
		add(fmt.Sprintf("cut at %d/16", i), body[:len(body)*i/16])
	}
	add("without its last byte", body[:len(body)-1])
	add("twice", append(append([]byte{}, body...), body...))
	add("with garbage before", append([]byte("\xef\xbb\xbf"), body...))
	add("with garbage behind", append(append([]byte{}, body...), "}}}"...))
	add("as a list", append(append([]byte("["), body...), ']'))
	add("as a string", mustJSON(string(body)))
	var v any
	if json.Unmarshal(body, &v) == nil {
		mutateJSON(v, "$", func(name string, v any) { add(name, mustJSON(v)) })
	}
	return
}

// deltas are odd revocation vectors.
func deltas(good []byte) map[string][]byte {
	u64 := func(l ...uint64) []byte {
		var b []byte
		for _, v := range l {
			b = binary.BigEndian.AppendUint64(b, v)
		}
		return b
	}
	return map[string][]byte{
		"not compressed": u64(64, 1), "empty": {}, "compressed nothing": compress(nil), "compressed garbage": compress([]byte("garbage")),
		"cut": good[:len(good)/2], "length 0": compress(u64(0)), "length 2^60": compress(u64(1 << 60)), "length 2^63": compress(u64(1<<63, 1)),
		"length 2^64-1": compress(u64(1<<64 - 1)), "no words": compress(u64(100)), "too few words": compress(u64(1000000, 1, 2)),
		"too many words": compress(u64(64, 1, 2, 3)), "bits behind the length": compress(u64(3, 1<<40)), "longer": compress(append(u64(64*100), make([]byte, 800)...)),
	}
}

// badSTH and badREV are statements that their (hostile) entity signed: every mutant of the inner content.
func (n *Net) badSTH(id, period string) (names []string, out []def.Gossip_object) {
	o := n.STH(id, period, "root", 3)
	inner, _ := hex.DecodeString(o.Payload[1])
	for _, m := range mutants(inner) {
		c := o
		c.Payload[1] = hex.EncodeToString(m.body)
		c.Signature[0] = rsaSig(n.cfg[id], msgOf(c))
		names, out = append(names, "STH "+m.name), append(out, c)
	}
	return
}

func (n *Net) badREV(id, period string) (names []string, out []def.Gossip_object) {
	o := n.stmtOf(id, 1, period, 0)
	for _, m := range mutants([]byte(o.Payload[2])) {
		c := o
		c.Payload[2] = string(m.body)
		c.Signature[0] = rsaSig(n.cfg[id], msgOf(c))
		names, out = append(names, "REV "+m.name), append(out, c)
	}
	var rev def.Revocation
	json.Unmarshal([]byte(o.Payload[2]), &rev)
	ds := deltas(rev.Delta_CRV)
	var keys []string
	for k := range ds {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		names, out = append(names, "REV with delta: "+k), append(out, n.revRaw(id, period, ds[k], rev.SRH))
	}
	return
}

// hostileObjects are the objects a gossiper or monitor may be sent about Lg(0) and CA(0).
func (n *Net) hostileObjects(group, period string) (names []string, bodies [][]byte) {
	sth, rev, acc := n.stmtOf(n.Lg(0), 0, period, 0), n.stmtOf(n.CA(0), 1, period, 0), n.ACC(n.Mo(0), n.CA(0), period)
	add := func(kind string, o def.Gossip_object) {
		for _, m := range mutants(mustJSON(o)) {
			names, bodies = append(names, kind+" "+m.name), append(bodies, m.body)
		}
	}
	signed := func(nm []string, l []def.Gossip_object, f func(o def.Gossip_object) def.Gossip_object) {
		for i, o := range l {
			names, bodies = append(names, nm[i]), append(bodies, mustJSON(f(o)))
		}
	}
	same := func(o def.Gossip_object) def.Gossip_object { return o }
	full := func(o def.Gossip_object) def.Gossip_object { return n.Full(o, n.Go(1), n.Go(2)) }
	frag := func(o def.Gossip_object) def.Gossip_object { return n.Frag(n.Go(1), o) }
	sn, ss := n.badSTH(n.Lg(0), period)
	rn, rs := n.badREV(n.CA(0), period)
	switch group {
	case "statements":
		add("STH", sth)
		add("REV", rev)
		add("ACC", acc)
	case "signed":
		signed(sn, ss, same)
		signed(rn, rs, same)
	case "threshold":
		add("STH_FULL", full(sth))
		add("REV_FULL", full(rev))
		add("ACC_FULL", full(acc))
	case "signed-threshold":
		signed(sn, ss, full)
		signed(rn, rs, full)
	case "fragments":
		add("STH_FRAG", frag(sth))
		add("REV_FRAG", frag(rev))
		add("ACC_FRAG", frag(acc))
	case "signed-fragments":
		signed(sn, ss, frag)
		signed(rn, rs, frag)
	case "conflicts":
		add("CON", n.CON(sth, n.stmtOf(n.Lg(0), 0, period, 1)))
		signed(sn, ss, func(o def.Gossip_object) def.Gossip_object { return n.CON(sth, o) })
		signed(rn, rs, func(o def.Gossip_object) def.Gossip_object { return n.CON(o, rev) })
	}
	return
}

type hostileList struct {
	names  []string
	bodies [][]byte
}

// hostileMemo: the enumeration is the same for every execution of a scenario.
func (n *Net) hostileMemo(memo map[string]hostileList, group, period string) hostileList {
	l, ok := memo[group+period]
	if !ok {
		l.names, l.bodies = n.hostileObjects(group, period)
		memo[group+period] = l
	}
	return l
}

var hostileGroups = []string{"statements", "signed", "threshold", "signed-threshold", "fragments", "signed-fragments", "conflicts"}

func init() {
	gossipPaths := []string{"/gossip/sth_init", "/gossip/rev_init", "/gossip/acc_init", "/gossip/con_init", "/gossip/sth_frag", "/gossip/rev_frag", "/gossip/acc_frag"}
	// what a working gossiper does with the statements of Lg(1) and CA(1)
	probeGossiper := func(x *X, n *Net, what string) {
		p := Period()
		for kind, id := range []string{n.Lg(1), n.CA(1)} {
			o := n.stmtOf(id, kind, p, 0)
			before := len(x.W.Sent)
			x.Post(n.Go(0), o)
			x.W.Advance(6 * time.Second)
			f := n.Frag(n.Go(1), o)
			if kind == 1 {
				f.Payload = [3]string{o.Payload[0], "CRV", ""} // as gossipers send it
			}
			x.Post(n.Go(0), f)
			mon, frag, full := false, 0, false
			for _, m := range x.W.Sent[before:] {
				var s def.Gossip_object
				if unjson(m.Body, &s) != nil {
					continue
				}
				if s.Payload[0] == id || strings.Contains(string(m.Body), id) {
					switch {
					case m.Dst == port(n.Mo(0)) && s.Type == o.Type:
						mon = true
					case m.Dst == port(n.Mo(0)) && s.Type == fullType[o.Type]:
						full = n.trueFull(s)
					case m.Dst[0] == '9' && s.Type == fragType[o.Type] && s.Signer == n.Go(0):
						frag++
					}
				}
			}
			x.Require(mon && frag >= 1 && full, "stopped working", "after %s, gossiper 0 handles a valid statement of %s no more (told its monitor: %v, signature sent %d times, threshold object: %v)", what, id, mon, frag, full)
		}
		x.checkCrashes()
	}
	for _, g := range append(append([]string{}, hostileGroups...), "notifications") {
		g := g
		memo := map[string]hostileList{}
		reg("P26", "gossiper-"+g, "one gossiper: every malformed variant of these messages (with or without a statement of the same entity before): statements of others are handled as ever, in this period and the next", func(e *Env) {
			n := NewNet(3, 2, 2, 2)
			e.Explore("messages", func(x *X) {
				n.SoloGossiper(x, 0)
				p := Period()
				var l hostileList
				var paths []string
				if g == "notifications" {
					rev := n.stmtOf(n.CA(0), 1, p, 0)
					for _, k := range []string{"request", "notification"} {
						for _, m := range mutants(mustJSON(map[string]any{"Type": rev.Type, "Period": p, "Sender": n.Go(1), "Entity_URL": n.CA(0), "Objhash": "YWJj", "type": rev.Type, "period": p, "sender": n.Go(1), "entity_url": n.CA(0), "objhash": "YWJj"})) {
							l.names, l.bodies, paths = append(l.names, k+" "+m.name), append(l.bodies, m.body), append(paths, "/gossip/new_payload_"+k)
						}
					}
				} else {
					l = n.hostileMemo(memo, g, p)
				}
				i := x.Choose(len(l.names), "")
				if x.Bool("statements of the entities before") {
					x.Post(n.Go(0), n.stmtOf(n.Lg(0), 0, p, 2))
					x.Post(n.Go(0), n.stmtOf(n.CA(0), 1, p, 2))
				}
				path := gossipPath[typeIn(l.bodies[i])]
				if paths != nil {
					path = paths[i]
				} else if path == "" {
					path = gossipPaths[i%len(gossipPaths)]
				}
				x.Tracef("post %s to %s", l.names[i], path)
				x.W.Do(port(n.Go(0)), "POST", path, l.bodies[i])
				x.checkCrashes()
				x.W.Advance(6 * time.Second)
				x.checkCrashes()
				probeGossiper(x, n, l.names[i])
				x.W.AdvanceTo(nextMinute().Add(500 * time.Millisecond))
				x.checkCrashes()
				probeGossiper(x, n, l.names[i]+" in the period before")
				x.Outcome("%s", l.names[i])
			})
		})
	}

	// monitors: what they are told, asked, and answered
	statements := func(n *Net, special func(m *vrt.Msg, id string, kind int) (*http.Response, error)) func(m *vrt.Msg) (*http.Response, error) {
		return func(m *vrt.Msg) (*http.Response, error) {
			if m.Method != "GET" {
				return okResponse(""), nil
			}
			id, kind := "localhost:"+m.Dst, 0
			if m.Dst[0] == '6' {
				kind = 1
			}
			if special != nil {
				if r, err := special(m, id, kind); r != nil || err != nil {
					return r, err
				}
			}
			return okResponse(string(mustJSON(n.stmtOf(id, kind, Period(), 0)))), nil
		}
	}
	probeMonitor := func(x *X, n *Net, what string) {
		p := Period()
		for kind, id := range []string{n.Lg(1), n.CA(1)} {
			x.PostMonitor(n.Mo(0), n.Full(n.stmtOf(id, kind, p, 0), n.Go(0), n.Go(1)))
		}
		x.checkCrashes()
		x.W.AdvanceTo(nextMinute().Add(-15 * time.Second))
		x.checkCrashes()
		u, code, ok := x.GetUpdate(n.Mo(0), time.Now().UTC().Minute())
		x.Require(ok, "no update", "after %s, monitor 0 has no update (status %d)", what, code)
		got := map[string]int{}
		for _, o := range append(append([]def.Gossip_object{}, u.STHs...), u.REVs...) {
			got[o.Payload[0]]++
		}
		for _, o := range append(append([]def.Gossip_object{}, u.POM_ACCs...), u.POM_CONs...) {
			x.Require(o.Payload[0] == n.Lg(0) || o.Payload[0] == n.CA(0), "proof against another", "after %s, the update has a proof of misbehaviour against %q", what, o.Payload[0])
		}
		x.Require(got[n.Lg(1)] == 1 && got[n.CA(1)] == 1, "stopped working", "after %s, the update of monitor 0 has %d tree heads of %s and %d revocations of %s", what, got[n.Lg(1)], n.Lg(1), got[n.CA(1)], n.CA(1))
	}
	for _, g := range append(append([]string{}, hostileGroups...), "requests") {
		g := g
		memo := map[string]hostileList{}
		reg("P26", "monitor-"+g, "one monitor: every malformed variant of these messages: the update has the others' statements, in this period and the next", func(e *Env) {
			n := NewNet(3, 2, 2, 2)
			e.Explore("messages", func(x *X) {
				n.SoloMonitor(x, 0, statements(n, nil))
				var l hostileList
				if g == "requests" {
					for _, b := range []string{`"00"`, `"1"`, `{"Period":"1","l":["1"]}`} {
						for _, m := range mutants([]byte(b)) {
							l.names, l.bodies = append(l.names, "update request "+m.name), append(l.bodies, m.body)
						}
					}
				} else {
					l = n.hostileMemo(memo, g, Period())
				}
				i := x.Choose(len(l.names), "")
				late := x.Bool("after the queries")
				if late {
					x.W.Advance(8 * time.Second)
				}
				x.Tracef("%s", l.names[i])
				if g == "requests" {
					x.W.Do(port(n.Mo(0)), "GET", "/monitor/get-update", l.bodies[i])
				} else {
					x.W.Do(port(n.Mo(0)), "POST", "/monitor/receive-gossip-from-gossiper", l.bodies[i])
				}
				x.checkCrashes()
				probeMonitor(x, n, l.names[i])
				x.W.AdvanceTo(nextMinute().Add(800 * time.Millisecond))
				probeMonitor(x, n, l.names[i]+" in the period before")
				x.Outcome("%s", l.names[i])
			})
		})
	}
	for _, g := range []string{"statements", "signed"} {
		g := g
		memo := map[string]hostileList{}
		reg("P26", "monitor-replies-"+g, "one monitor whose queries of a logger and a CA are answered with every malformed variant of a statement, an error, or a broken answer: the update has the others' statements, in this period and the next", func(e *Env) {
			n := NewNet(3, 2, 2, 2)
			e.Explore("replies", func(x *X) {
				var reply []byte
				failing := 0
				n.SoloMonitor(x, 0, statements(n, func(m *vrt.Msg, id string, kind int) (*http.Response, error) {
					if id != n.ent(kind) || reply == nil {
						return nil, nil
					}
					switch failing {
					case 1:
						return nil, errors.New("connection reset by peer")
					case 2:
						return &http.Response{StatusCode: 500, Status: "500", Body: http.NoBody, Header: http.Header{}}, nil
					case 3:
						r := okResponse("")
						r.Body = brokenBody{strings.NewReader(string(reply)[:len(reply)/2])}
						return r, nil
					}
					return okResponse(string(reply)), nil
				}))
				x.W.AdvanceTo(nextMinute().Add(-time.Second))
				l := n.hostileMemo(memo, g, PeriodAt(nextMinute()))
				i := x.Choose(len(l.names)+3, "")
				name := "an answer that fails"
				if k := i - len(l.names); k >= 0 {
					failing, reply = k+1, []byte("{\"a\":1}")
				} else {
					name, reply = l.names[i], l.bodies[i]
					if reply == nil {
						reply = []byte{}
					}
				}
				x.Tracef("answer %s", name)
				x.W.AdvanceTo(nextMinute().Add(800 * time.Millisecond))
				x.W.Advance(6 * time.Second)
				x.checkCrashes()
				probeMonitor(x, n, name)
				x.W.AdvanceTo(nextMinute().Add(800 * time.Millisecond))
				probeMonitor(x, n, name+" in the period before")
				x.Outcome("%s", name)
			})
		})
	}

	// CA: what loggers send it
	reg("P26", "CA", "a running CA with two certificates and two loggers: every malformed variant of a tree head and of an inclusion proof, signed by the logger or not: the certificates carry the other logger's proofs, and the next period's both", func(e *Env) {
		n := NewNetCert(3, 2, 2, 2, 2)
		e.Explore("messages", func(x *X) {
			x.W.Auto = func(m *vrt.Msg) bool { return true }
			var sth, poi []byte
			x.W.Fault = func(m *vrt.Msg) (*http.Response, error) {
				if m.Src == port(n.Lg(0)) && m.Dst == port(n.CA(0)) && (sth == nil || poi == nil) {
					if m.Path == "/CA/receive-sth" {
						sth = m.Body
					} else if m.Path == "/CA/receive-poi" {
						poi = m.Body
					}
					return okResponse(""), nil
				}
				return nil, nil
			}
			time.Sleep(30 * time.Second)
			ca := n.StartCA(x, 0)
			n.StartLogger(x, 0)
			n.StartLogger(x, 1)
			x.W.AdvanceTo(nextMinute().Add(40500 * time.Millisecond))
			x.Require(sth != nil && poi != nil, "nothing", "no tree head or proof")
			var l []mutant
			for _, m := range mutants(sth) {
				l = append(l, mutant{"STH " + m.name, m.body})
			}
			var o def.Gossip_object
			json.Unmarshal(sth, &o)
			sn, ss := n.badSTH(n.Lg(0), o.Period)
			for i := range ss {
				l = append(l, mutant{"signed " + sn[i], mustJSON(ss[i])})
			}
			k := len(l)
			for _, m := range mutants(poi) {
				l = append(l, mutant{"POI " + m.name, m.body})
			}
			i := x.Choose(len(l), "")
			x.Tracef("%s", l[i].name)
			if i < k {
				x.W.Do(port(n.CA(0)), "POST", "/CA/receive-sth", l[i].body)
				x.W.Do(port(n.CA(0)), "POST", "/CA/receive-poi", poi)
			} else {
				x.W.Do(port(n.CA(0)), "POST", "/CA/receive-sth", sth)
				x.W.Do(port(n.CA(0)), "POST", "/CA/receive-poi", l[i].body)
			}
			x.checkCrashes()
			for r, lg := range n.checkPool(x, ca, CA.SignAllCerts(ca)) {
				x.Require(len(lg) > 0 && lg[len(lg)-1] == n.Lg(1), "stopped working", "after %s, certificate %d carries proofs of %v", l[i].name, r, lg)
			}
			x.W.AdvanceTo(nextMinute().Add(40500 * time.Millisecond))
			x.checkCrashes()
			got := n.checkPool(x, ca, CA.SignAllCerts(ca))
			x.Require(len(got) == 2, "stopped working", "after %s, %d certificates in the next period", l[i].name, len(got))
			for r, lg := range got {
				x.Require(len(lg) == 2, "stopped working", "after %s in the period before, certificate %d carries proofs of %v", l[i].name, r, lg)
			}
			x.Outcome("%s", l[i].name)
		})
	})

	// logger: what CAs send it
	reg("P26", "logger", "a running logger: a precertificate cut at every 16th byte, with every 4th byte changed in two ways, or replaced by something else: the CA's other precertificates get their tree head and proofs, in this period and the next", func(e *Env) {
		n := NewNetCert(3, 2, 1, 2, 1)
		e.Explore("messages", func(x *X) {
			got := map[string]int{}
			x.W.Fault = func(m *vrt.Msg) (*http.Response, error) {
				got[m.Path]++
				return okResponse(""), nil
			}
			time.Sleep(30 * time.Second)
			ca := n.CAContext(1)
			cs := precerts(ca, 3)
			n.StartLogger(x, 0)
			x.W.AdvanceTo(nextMinute().Add(5 * time.Second))
			der := cs[2].Raw
			var l []mutant
			for i := 0; i < len(der); i += 16 {
				l = append(l, mutant{fmt.Sprintf("cut at %d", i), der[:i]})
			}
			for i := 0; i < len(der); i += 4 {
				for _, d := range []byte{1, 0x80} {
					b := append([]byte{}, der...)
					b[i] ^= d
					l = append(l, mutant{fmt.Sprintf("byte %d changed", i), b})
				}
			}
			l = append(l, mutant{"twice", append(append([]byte{}, der...), der...)}, mutant{"JSON", []byte("{}")}, mutant{"prolonged", append(append([]byte{}, der...), 0)})
			i := x.Choose(len(l), "")
			x.Tracef("%s", l[i].name)
			for round, c := range []*x509.Certificate{cs[0], cs[1]} {
				code, _, err := x.W.Do(port(n.Lg(0)), "POST", "/Logger/receive-precerts", c.Raw)
				x.Require(code == 200 && err == nil, "refused", "round %d: a valid precertificate is refused: %d %v", round, code, err)
				x.W.Do(port(n.Lg(0)), "POST", "/Logger/receive-precerts", l[i].body)
				x.checkCrashes()
				for k := range got {
					delete(got, k)
				}
				x.W.AdvanceTo(nextMinute().Add(-15 * time.Second))
				x.checkCrashes()
				x.Require(got["/CA/receive-sth"] == 2 && got["/CA/receive-poi"] >= 1, "stopped working", "after %s, the logger sent %d tree heads and %d proofs", l[i].name, got["/CA/receive-sth"], got["/CA/receive-poi"])
				x.W.AdvanceTo(nextMinute().Add(5 * time.Second))
				o, _, ok := x.askStatement(n.Lg(0))
				s, ok2 := sthOf(o)
				root, _ := hex.DecodeString(s.RootHash)
				x.Require(ok && ok2 && s.TreeSize >= 1 && (s.TreeSize > 1 || bytes.Equal(root, merkleRoot([][]byte{c.RawSubject}))), "stopped working", "after %s, the logger serves a tree head of size %d", l[i].name, s.TreeSize)
			}
			x.Outcome("%s", l[i].name)
		})
	})

	// client: what monitors and web servers show it
	for _, g := range []string{"threshold", "signed-threshold", "conflicts"} {
		g := g
		memo := map[string]hostileList{}
		reg("P26", "client-"+g, "a client: an update with every malformed variant of these objects, in each list: no crash, and a valid update is taken over afterwards", func(e *Env) {
			n := NewNet(3, 2, 2, 2)
			e.Explore("updates", func(x *X) {
				cl := n.Client(x, "NEW")
				p := Period()
				l := n.hostileMemo(memo, g, p)
				i := x.Choose(len(l.names), "")
				where := x.Choose(4, "")
				lists := []string{"STHs", "REVs", "POM_ACCs", "POM_CONs"}
				var u monitor.ClientUpdate
				text := fmt.Sprintf(`{"%s":[%s],"MonitorID":%q,"Period":"0"}`, lists[where], l.bodies[i], n.Mo(0))
				x.Tracef("%s in %s", l.names[i], lists[where])
				err := json.Unmarshal([]byte(text), &u)
				if err == nil {
					cl.HandleUpdate(u, true, true)
				}
				var good monitor.ClientUpdate
				for kind, id := range []string{n.Lg(1), n.CA(1)} {
					o := n.Full(n.stmtOf(id, kind, p, 0), n.Go(0), n.Go(1))
					if kind == 0 {
						good.STHs = append(good.STHs, o)
					} else {
						good.REVs = append(good.REVs, o)
					}
				}
				x.Require(cl.HandleUpdate(good, true, false), "stopped working", "after %s in %s, a valid update is rejected", l.names[i], lists[where])
				x.Outcome("%s %v", l.names[i], err == nil)
			})
		})
	}
	reg("P26", "client-certificates", "a client: every malformed variant of a certificate's CTng extension: no crash, accepted only with a valid proof left in it, and a valid certificate is accepted afterwards", func(e *Env) {
		n := NewNet(3, 2, 2, 2)
		e.Explore("certificates", func(x *X) {
			is := n.issue(x, 0, 1, 5)
			cl := n.Client(x, "NEW")
			x.Require(cl.HandleUpdate(monitor.ClientUpdate{STHs: n.fulls(is.sths...), REVs: n.fulls(n.REV(n.CA(0), "05", bits(), bits()))}, true, true), "update", "the client rejects a valid update")
			one := is.cert([]CA.LoggerInfo{is.info(0)})
			var js []byte
			for _, ext := range one.Extensions {
				if ext.Id.Equal(CA.OIDCTngExtension) {
					var o asn1.RawValue
					asn1.Unmarshal(ext.Value, &o)
					js = o.Bytes
				}
			}
			l := mutants(js)
			i := x.Choose(len(l), "")
			x.Tracef("extension %s", l[i].name)
			v, _ := asn1.Marshal(asn1.RawValue{Tag: asn1.TagOctetString, Bytes: l[i].body})
			t := util.ParseTBSCertificate(is.pre)
			t.ExtraExtensions = []pkix.Extension{{Id: CA.OIDCTngExtension, Value: v}}
			c := CA.Sign_certificate(t, is.ca.Rootcert, false, is.pub, &is.ca.PrivateKey)
			x.Require(c != nil, "certificate", "no certificate with extension %s", l[i].name)
			got := cl.VerifyCTngextension(c)
			proven := false
			for _, li := range CA.ParseCTngextension(c).LoggerInformation {
				for _, s := range is.sths {
					st, _ := sthOf(s)
					root, _ := hex.DecodeString(st.RootHash)
					proven = proven || li.STH.Signer == s.Signer && li.STH.Payload == s.Payload && merkleOK(root, li.POI.Poi, c.RawSubject)
				}
			}
			x.Require(!got || proven, "accepted", "a certificate with extension %s is accepted, though no logger proves it", l[i].name)
			x.Require(i > 0 || got, "rejected", "a valid certificate is rejected")
			x.Require(cl.VerifyCTngextension(is.cert(is.all())), "stopped working", "after a certificate with extension %s, a valid one is rejected", l[i].name)
			x.Outcome("%s %v", l[i].name, got)
		})
	})
}

// typeIn is the type of the object in a body, if it can be read.
func typeIn(b []byte) string {
	var o struct{ Type string }
	json.Unmarshal(b, &o)
	return o.Type
}
