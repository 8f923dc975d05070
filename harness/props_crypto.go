package harness

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/jik18001/CTngV2/crypto"
	def "github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/monitor"
)

// ---- P02: threshold objects need t distinct gossipers --------------------------

type fullCase struct {
	signers []string // who really signed
	claimed []string // ids in the signature
	label   string
}

// fullCases enumerates claimed-signer multisets of size <= max over the gossipers
// plus an unknown and a non-gossiper id, against three relations to the real signers.
func (n *Net) fullCases(max int) []fullCase {
	pool := []string{}
	for i := 0; i < n.N; i++ {
		pool = append(pool, n.Go(i))
	}
	pool = append(pool, "localhost:9999", n.Mo(0))
	var out []fullCase
	var rec func(start int, cur []string)
	rec = func(start int, cur []string) {
		c := append([]string{}, cur...)
		var real []string
		for _, s := range c {
			if strings.HasPrefix(s, "localhost:90") {
				real = append(real, s)
			}
		}
		if len(real) > 0 {
			out = append(out, fullCase{real, c, "as claimed"})
			if len(real) > 1 {
				out = append(out, fullCase{real[1:], c, "one claimed signer did not sign"})
			}
			// the signature of one gossiper repeated / a different signer set
			out = append(out, fullCase{real[:1], c, "only the first signed"})
			other := []string{}
			for i := 0; i < n.N && len(other) < len(real); i++ {
				other = append(other, n.Go(n.N-1-i))
			}
			out = append(out, fullCase{other, c, "other signers"})
		} else {
			out = append(out, fullCase{[]string{n.Go(0)}, c, "no known signer claimed"})
		}
		if len(cur) == max {
			return
		}
		for i := start; i < len(pool); i++ {
			rec(i, append(append([]string{}, cur...), pool[i]))
		}
	}
	rec(0, nil)
	return out
}

// largeCases are the cases around the threshold for thresholds too large to enumerate all sets of signers.
func (n *Net) largeCases() (out []fullCase) {
	var all []string
	for i := 0; i < n.N; i++ {
		all = append(all, n.Go(i))
	}
	add := func(label string, real, claimed []string) {
		out = append(out, fullCase{append([]string{}, real...), append([]string{}, claimed...), label})
	}
	first, last := all[:n.T], all[n.N-n.T:]
	var back []string
	for i := n.N - 1; i >= 0; i-- {
		back = append(back, all[i])
	}
	add("all signed", all, all)
	add("the first signed", first, first)
	add("the last signed", last, last)
	add("in reverse order", back[:n.T], back[:n.T])
	add("claimed in reverse order", last, back[:n.T])
	add("one fewer", first[1:], first[1:])
	for i := range first {
		less := append(append([]string{}, first[:i]...), first[i+1:]...)
		with := func(s string) []string { return append(append(append([]string{}, first[:i]...), s), first[i+1:]...) }
		add("one left out", less, less)
		for _, s := range []string{first[(i+1)%n.T], "localhost:9999", n.Mo(0)} {
			add("one replaced by "+s, less, with(s))
		}
		again := with(first[(i+1)%n.T])
		add("one signed twice", again, again)
		add("one did not sign", less, first)
		add("one is not claimed", first, less)
	}
	return out
}

func (n *Net) fullFrom(o def.Gossip_object, c fullCase) def.Gossip_object {
	f := n.Full(o, c.signers...)
	var s map[string]any
	json.Unmarshal([]byte(f.Signature[0]), &s)
	ids, _ := json.Marshal(c.claimed)
	if c.claimed == nil {
		ids = []byte("[]")
	}
	f.Signature[0] = fmt.Sprintf(`{"sign":"%s", "ids":%s}`, s["sign"], ids)
	f.Signers = c.claimed
	return f
}

func stmts(n *Net, period string) []def.Gossip_object {
	return []def.Gossip_object{n.STH(n.Lg(0), period, "root", 2), n.REV(n.CA(0), period, bits(), bits(3)), n.ACC(n.Mo(0), n.Lg(0), period)}
}

func otherStmts(n *Net, period string) []def.Gossip_object {
	return []def.Gossip_object{n.STH(n.Lg(0), period, "root2", 3), n.REV(n.CA(0), period, bits(), bits(4)), n.ACC(n.Mo(0), n.CA(0), period)}
}

var stmtName = []string{"STH", "REV", "ACC"}

func init() {
	verify := func(n0, t int, list func(n *Net) []fullCase) func(e *Env) {
		return func(e *Env) {
			n := NewNet(n0, t, 1, 1)
			cases := list(n)
			e.Explore(fmt.Sprintf("cases-n%d-t%d", n0, t), func(x *X) {
				ci := x.Choose(len(cases), "")
				k := x.Choose(3, "")
				for other := 0; other < 3; other++ {
					o := stmts(n, "01")[k]
					f := n.fullFrom(o, cases[ci])
					if other == 1 { // the signature moved to another well-formed statement
						f.Payload = otherStmts(n, "01")[k].Payload
					} else if other == 2 {
						f.Payload[1] += "0"
					}
					want := n.trueFull(f)
					for _, id := range []string{n.Go(0), n.Mo(0), n.CA(0), n.Lg(0)} {
						got := f.Verify(n.Crypto(id)) == nil
						x.W.Steps++
						x.Require(got == want, fmt.Sprintf("verify accept=%v want=%v", got, want), "threshold object with claimed signers %v (real %v: %s, payload variant %d), threshold %d: accepted=%v, expected %v", cases[ci].claimed, cases[ci].signers, cases[ci].label, other, n.T, got, want)
					}
					x.Outcome("accepted=%v", want)
				}
			})
		}
	}
	for _, nt := range [][2]int{{2, 2}, {3, 2}, {3, 3}, {4, 2}, {4, 3}, {4, 4}, {5, 3}} {
		nt := nt
		r := reg
		if nt[0] == 5 {
			r = regDeep
		}
		r("P02", fmt.Sprintf("verify-n%d-t%d", nt[0], nt[1]), "every claimed-signer multiset up to size t+1 over all gossipers, one unknown id and one monitor id x real signer relation x statement kind x payload match, verified directly and with the keys of every role", verify(nt[0], nt[1], func(n *Net) []fullCase { return n.fullCases(nt[1] + 1) }))
	}
	many := func(ns []int, step int) func(e *Env) {
		return func(e *Env) {
			for _, n0 := range ns {
				for t := 2; t <= n0; t += step {
					verify(n0, t, (*Net).largeCases)(e)
				}
			}
		}
	}
	mnote := "with %s gossipers: all signed, exactly the threshold signed (first, last, in reverse order), one fewer, and for each signer at the threshold: left out, replaced by a repetition (also in the signature), an unknown id or a monitor, claimed without having signed, or signed without being claimed"
	reg("P02", "large-thresholds", fmt.Sprintf(mnote, "7 and 17"), many([]int{7, 17}, 5))
	regDeep("P02", "large-thresholds-more", fmt.Sprintf(mnote, "6, 9, 12, 20 and 40"), many([]int{6, 9, 12, 20, 40}, 2))
	for _, nt := range [][2]int{{3, 2}, {4, 3}} {
		nt := nt
		reg("P02", fmt.Sprintf("gossiper-n%d-t%d", nt[0], nt[1]), "the same objects posted to a running gossiper and to a running monitor: accepted, stored, blacklisting and forwarding only when t distinct gossipers signed", func(e *Env) {
			n := NewNet(nt[0], nt[1], 1, 1)
			cases := n.fullCases(nt[1])
			e.Explore("gossiper", func(x *X) {
				ci := x.Choose(len(cases), "")
				k := x.Choose(3, "")
				g := n.SoloGossiper(x, 0)
				f := n.fullFrom(stmts(n, Period())[k], cases[ci])
				want := n.trueFull(f)
				x.Post(n.Go(0), f)
				x.W.Advance(6e9)
				x.checkCrashes()
				st := g.Gossip_object_storage
				got := len(st.STH_FULL)+len(st.REV_FULL)+len(st.ACC_FULL) > 0
				fwd := len(x.SentObjects("/monitor")) > 0
				x.Require(got == want, fmt.Sprintf("gossiper stored=%v want=%v", got, want), "gossiper stored=%v for claimed %v real %v, threshold %d, expected %v", got, cases[ci].claimed, cases[ci].signers, n.T, want)
				x.Require(want || !fwd, "gossiper forwarded invalid", "gossiper forwarded an invalid threshold object (claimed %v real %v) to its monitor", cases[ci].claimed, cases[ci].signers)
				bl := g.InBlacklist(n.Lg(0))
				x.Require(bl == (want && k == 2), fmt.Sprintf("blacklist=%v", bl), "accused blacklisted=%v by an accusation object with valid=%v", bl, want)
				x.Outcome("valid=%v stored=%v", want, got)
			})
			e.Explore("monitor", func(x *X) {
				ci := x.Choose(len(cases), "")
				k := x.Choose(3, "")
				m := n.SoloMonitor(x, 0, nil)
				f := n.fullFrom(stmts(n, Period())[k], cases[ci])
				want := n.trueFull(f)
				x.PostMonitor(n.Mo(0), f)
				x.checkCrashes()
				got := len(*m.Storage_STH_FULL)+len(*m.Storage_REV_FULL)+len(*m.Storage_ACCUSATION_POM) > 0
				x.Require(got == want, fmt.Sprintf("monitor stored=%v want=%v", got, want), "monitor stored=%v for claimed %v real %v, threshold %d, expected %v", got, cases[ci].claimed, cases[ci].signers, n.T, want)
				x.Outcome("valid=%v stored=%v", want, got)
			})
		})
	}
}

// histObjs are threshold objects around one statement: genuine ones, and ones made
// from a genuine one the entity may have seen before.
type histObj struct {
	name string
	obj  def.Gossip_object
}

func (n *Net) histObjs(k int, p string) []histObj {
	ids := []string{n.Go(0), n.Go(1)}
	a, b := stmts(n, p)[k], otherStmts(n, p)[k]
	f, f2 := n.Full(a, ids...), n.Full(a, n.Go(1), n.Go(2))
	ed := func(name string, o def.Gossip_object, e func(o *def.Gossip_object)) histObj {
		e(&o)
		return histObj{name, o}
	}
	claim := func(o *def.Gossip_object, c ...string) {
		*o = n.fullFrom(a, fullCase{ids, c, ""})
	}
	return []histObj{
		{"genuine", f},
		{"genuine, other signers", f2},
		ed("its signature on another statement", f, func(o *def.Gossip_object) { o.Payload = b.Payload }),
		ed("its signature on the same statement of another entity", f, func(o *def.Gossip_object) { o.Payload[0] = map[bool]string{true: n.Lg(1), false: n.CA(1)}[k != 1] }),
		ed("its body altered", f, func(o *def.Gossip_object) {
			if k == 2 {
				o.Payload[0] = n.Lg(1)
			} else {
				o.Payload[k+1-k/2] = strings.Replace(o.Payload[k+1-k/2], "2", "3", 1)
			}
		}),
		ed("one signer more claimed", f, func(o *def.Gossip_object) { claim(o, n.Go(0), n.Go(1), n.Go(2)) }),
		ed("a signer claimed twice", f, func(o *def.Gossip_object) { claim(o, n.Go(0), n.Go(0)) }),
		ed("one signer less claimed", f, func(o *def.Gossip_object) { claim(o, n.Go(0)) }),
		ed("one signer only", f, func(o *def.Gossip_object) { *o = n.Full(a, n.Go(0)) }),
		ed("signed by the other pair of gossipers", f, func(o *def.Gossip_object) { *o = n.fullFrom(a, fullCase{[]string{n.Go(1), n.Go(2)}, ids, ""}) }),
		ed("no signature", f, func(o *def.Gossip_object) { o.Signature[0] = "" }),
		ed("another statement, one signer", f, func(o *def.Gossip_object) { *o = n.Full(b, n.Go(2)) }),
	}
}

func init() {
	hist := func(depth int) func(e *Env) {
		return func(e *Env) {
			n := NewNet(3, 2, 2, 2)
			for k := 0; k < 3; k++ {
				k := k
				role := func(role string, start func(x *X) (func(o def.Gossip_object), func() []def.Gossip_object)) {
					e.Explore(role+"-"+stmtName[k], func(x *X) {
						post, held := start(x)
						all := n.histObjs(k, Period())
						var seq []histObj
						for d := 0; d < depth; d++ {
							seq = append(seq, all[x.Choose(len(all), "")])
							post(seq[d].obj)
						}
						good := false
						var nm []string
						for _, s := range seq {
							good = good || n.trueFull(s.obj)
							nm = append(nm, s.name)
						}
						got := held()
						x.checkCrashes()
						for _, o := range got {
							x.Require(n.trueFull(o), role+" holds a forged object", "%s: after %q it holds or passes on %s, which threshold gossipers did not sign", role, nm, desc(o))
						}
						x.Require((len(got) > 0) == good, role+" genuine object", "%s: after %q it holds %d objects", role, nm, len(got))
						x.Outcome("good=%v", good)
					})
				}
				role("gossiper", func(x *X) (func(o def.Gossip_object), func() []def.Gossip_object) {
					g := n.SoloGossiper(x, 0)
					return func(o def.Gossip_object) { x.Post(n.Go(0), o) }, func() []def.Gossip_object {
						st := g.Gossip_object_storage
						var l []def.Gossip_object
						for _, m := range []map[def.Gossip_ID]def.Gossip_object{st.STH_FULL, st.REV_FULL, st.ACC_FULL} {
							for _, o := range m {
								l = append(l, o)
							}
						}
						for _, o := range x.SentObjects("/") {
							switch o.Type {
							case def.STH_FULL, def.REV_FULL, def.ACC_FULL:
								l = append(l, o)
							}
						}
						return l
					}
				})
				role("monitor", func(x *X) (func(o def.Gossip_object), func() []def.Gossip_object) {
					m := n.SoloMonitor(x, 0, nil)
					return func(o def.Gossip_object) { x.PostMonitor(n.Mo(0), o) }, func() []def.Gossip_object {
						var l []def.Gossip_object
						for _, st := range []*def.Gossip_Storage{m.Storage_STH_FULL, m.Storage_REV_FULL, m.Storage_ACCUSATION_POM, m.Storage_ACCUSATION_POM_DELTA} {
							for _, o := range *st {
								l = append(l, o)
							}
						}
						return l
					}
				})
				e.Explore("client-"+stmtName[k], func(x *X) {
					all := n.histObjs(k, "01")
					cl := n.Client(x, "NEW")
					for d := 0; d < depth; d++ {
						s := all[x.Choose(len(all), "")]
						u := monitor.ClientUpdate{}
						*[]*[]def.Gossip_object{&u.STHs, &u.REVs, &u.POM_ACCs}[k] = []def.Gossip_object{s.obj}
						x.Tracef("update with %s: %s", stmtName[k], s.name)
						before := dbState(cl)
						got := cl.HandleUpdate(u, true, d == 0)
						want := n.trueFull(s.obj)
						x.Require(got == want, fmt.Sprintf("client accepts=%v want=%v", got, want), "the client takes over an update with %s %q: %v, expected %v", stmtName[k], s.name, got, want)
						x.Require(got || dbState(cl) == before, "rejected update has an effect", "an update with %s %q was rejected but changed the client", stmtName[k], s.name)
						x.Outcome("%v", got)
					}
				})
			}
		}
	}
	reg("P02", "history", "all sequences of two threshold objects around one statement (genuine, and made from a genuine one by moving its signature, altering its body or its list of signers) at one running gossiper, monitor and client: held, passed on and taken over exactly the genuine ones", hist(2))
	regDeep("P02", "history-3", "the same with three objects", hist(3))
}

// ---- P03: statements are accepted only from their signer --------------------------

// initCase is one way a statement can be authentic or forged.
type initCase struct {
	name string
	ok   bool
	make func(n *Net, period string) def.Gossip_object
}

func resign(n *Net, o def.Gossip_object, key, id string) def.Gossip_object {
	s, _ := n.Crypto(key).Sign([]byte(msgOf(o)))
	s.ID = crypto.CTngID(id)
	o.Signature[0] = s.String()
	return o
}

// initCases: kind x signer field x key used x id in the signature x subject.
func initCases(n *Net) []initCase {
	var out []initCase
	type kd struct {
		kind int
		self string
		alt  []string
	}
	L0, L1, C0, C1, M0, M1, G0 := n.Lg(0), n.Lg(1), n.CA(0), n.CA(1), n.Mo(0), n.Mo(1), n.Go(0)
	_ = M1
	for _, k := range []kd{{0, L0, []string{L1, C0, M0, G0}}, {1, C0, []string{C1, L0, M0, G0}}} {
		k := k
		base := func(n *Net, p string) def.Gossip_object {
			if k.kind == 0 {
				return n.STH(k.self, p, "root", 2)
			}
			return n.REV(k.self, p, bits(), bits(3))
		}
		nm := stmtName[k.kind]
		out = append(out, initCase{nm + " authentic", true, base})
		all := append([]string{k.self}, k.alt...)
		for _, key := range all {
			for _, id := range append(all, "localhost:9999", "") {
				for _, signer := range append(all, "") {
					if key == k.self && id == k.self && signer == k.self {
						continue
					}
					key, id, signer := key, id, signer
					out = append(out, initCase{fmt.Sprintf("%s about %s key=%s sigid=%s signer=%s", nm, k.self, key, id, signer), false, func(n *Net, p string) def.Gossip_object {
						o := resign(n, base(n, p), key, id)
						o.Signer = signer
						return o
					}})
				}
			}
		}
		for i := 0; i < 3; i++ {
			i := i
			out = append(out, initCase{fmt.Sprintf("%s payload[%d] altered", nm, i), false, func(n *Net, p string) def.Gossip_object {
				o := base(n, p)
				o.Payload[i] += "1"
				return o
			}})
		}
		for _, l := range []func(p string) string{func(p string) string { return strings.TrimLeft(p, "0") }, func(p string) string { return "0" + p }, func(p string) string { return p + " " }, func(p string) string { return "" }, func(p string) string { return prev(p) }} {
			l := l
			out = append(out, initCase{nm + " relabelled to " + fmt.Sprintf("%q", l("01")), false, func(n *Net, p string) def.Gossip_object {
				o := base(n, p)
				o.Period = l(p)
				return o
			}})
		}
		out = append(out, initCase{nm + " relabelled to another period", false, func(n *Net, p string) def.Gossip_object {
			o := base(n, "31")
			o.Period = p
			return o
		}}, initCase{nm + " no signature", false, func(n *Net, p string) def.Gossip_object {
			o := base(n, p)
			o.Signature[0] = ""
			return o
		}}, initCase{nm + " garbage signature", false, func(n *Net, p string) def.Gossip_object {
			o := base(n, p)
			o.Signature[0] = "{\"sig\":\"zz\""
			return o
		}})
	}
	return out
}

func init() {
	reg("P03", "verify", "authentic STH/REV statements and every forgery combining subject, signing key, claimed signature id and claimed signer over own, same-kind and other-kind entities, unknown and empty ids, payload edits and period relabelling; judged with the keys of every role", func(e *Env) {
		n := NewNet(3, 2, 2, 2)
		cases := initCases(n)
		e.Explore("cases", func(x *X) {
			c := cases[x.Choose(len(cases), "")]
			o := c.make(n, "01")
			for _, id := range []string{n.Go(1), n.Mo(1), n.CA(1), n.Lg(1)} {
				got := o.Verify(n.Crypto(id)) == nil
				x.W.Steps++
				x.Require(got == c.ok, fmt.Sprintf("verify accept=%v want=%v", got, c.ok), "%s: accepted=%v expected %v", c.name, got, c.ok)
			}
			x.Outcome("accepted=%v", c.ok)
		})
	})
	reg("P03", "gossiper", "the same statements posted to a running gossiper (alone, and before/after the authentic one): only the authentic statement is stored, forwarded or signed", func(e *Env) {
		n := NewNet(3, 2, 2, 2)
		cases := initCases(n)
		e.Explore("seq", func(x *X) {
			c := cases[x.Choose(len(cases), "")]
			mode := x.Pick("authentic statement", "absent", "before", "after", "long before")
			g := n.SoloGossiper(x, 0)
			o := c.make(n, Period())
			var auth def.Gossip_object
			if o.Type == def.STH_INIT {
				auth = n.STH(n.Lg(0), Period(), "root", 2)
			} else {
				auth = n.REV(n.CA(0), Period(), bits(), bits(3))
			}
			if mode == 1 {
				x.Post(n.Go(0), auth)
			}
			if mode == 3 { // signed already
				x.Post(n.Go(0), auth)
				x.W.Advance(6e9)
			}
			x.Tracef("case %s", c.name)
			x.Post(n.Go(0), o)
			if mode == 2 {
				x.Post(n.Go(0), auth)
			}
			x.W.Advance(6e9)
			x.checkCrashes()
			expect := c.ok || mode > 0
			check := func(where string, l []def.Gossip_object) {
				seen := false
				for _, s := range l {
					if s.Type == def.STH_INIT || s.Type == def.REV_INIT {
						x.Require(s.Signature == auth.Signature && s.Payload == auth.Payload && s.Signer == auth.Signer && s.Period == auth.Period, where+" has forged statement", "%s: %s holds a statement nobody signed: %s", c.name, where, desc(s))
						seen = true
					}
				}
				x.Require(seen == expect, where+fmt.Sprintf(" statement present=%v want=%v", seen, expect), "%s (authentic %d): authentic statement in %s = %v, expected %v", c.name, mode, where, seen, expect)
			}
			check("monitor traffic", x.SentObjects("/monitor"))
			var st []def.Gossip_object
			for _, s := range g.Gossip_object_storage.STH_INIT {
				st = append(st, s)
			}
			for _, s := range g.Gossip_object_storage.REV_INIT {
				st = append(st, s)
			}
			check("storage", st)
			frags := append(x.SentObjects("/gossip/sth_frag"), x.SentObjects("/gossip/rev_frag")...)
			x.Require((len(frags) > 0) == expect, "signed fragment", "%s: gossiper signed=%v expected %v", c.name, len(frags) > 0, expect)
			for _, b := range []string{n.Lg(0), n.CA(0), n.Lg(1), n.CA(1)} {
				x.Require(!g.InBlacklist(b), "honest blacklisted", "%s: honest %s blacklisted", c.name, b)
			}
			// another gossiper's fragment completes the authentic statement, if it is known
			frag := n.Frag(n.Go(1), auth)
			if frag.Type == def.REV_FRAG {
				frag.Payload[1], frag.Payload[2] = "", "" // as it is sent
			}
			x.Post(n.Go(0), frag)
			x.checkCrashes()
			full := 0
			for _, m := range []map[def.Gossip_ID]def.Gossip_object{g.Gossip_object_storage.STH_FULL, g.Gossip_object_storage.REV_FULL} {
				for _, s := range m {
					full++
					x.Require(n.trueFull(s) && s.Payload == auth.Payload, "threshold object on another statement", "%s: the gossiper completed %s", c.name, desc(s))
				}
			}
			x.Require((full == 1) == expect && full <= 1, "authentic statement kept from being accepted", "%s (authentic %d): another gossiper's fragment completes the authentic statement %d times", c.name, mode, full)
			x.Outcome("forged=%v mode=%d", !c.ok, mode)
		})
	})
}

// ---- P04: conflict proofs ------------------------------------------------------------

type conCase struct {
	name string
	ok   bool
	obj  func(n *Net, p string) def.Gossip_object
}

func conCases(n *Net) []conCase {
	type st struct {
		name   string
		signer string
		period string // "" = current
		cont   int
		key    string
		id     string
	}
	var out []conCase
	for kind := 0; kind < 2; kind++ {
		kind := kind
		A, B := n.Lg(0), n.Lg(1)
		if kind == 1 {
			A, B = n.CA(0), n.CA(1)
		}
		var sts []st
		for _, s := range []string{A, B} {
			for _, p := range []string{"", "31"} {
				for c := 0; c < 2; c++ {
					sts = append(sts, st{fmt.Sprintf("%s/p%s/c%d", s, p, c), s, p, c, s, s})
				}
			}
		}
		// statements about A signed by someone else
		sts = append(sts, st{"A-by-B-claiming-A", A, "", 1, B, A}, st{"A-by-B", A, "", 1, B, B}, st{"A-by-monitor", A, "", 1, n.Mo(0), n.Mo(0)})
		mk := func(n *Net, s st, p string) def.Gossip_object {
			pp := s.period
			if pp == "" {
				pp = p
			}
			var o def.Gossip_object
			if kind == 0 {
				o = n.STH(s.signer, pp, fmt.Sprint("root", s.cont), 2+s.cont)
			} else {
				o = n.REV(s.signer, pp, bits(), bits(3+s.cont))
			}
			if s.key != s.signer {
				o = resign(n, o, s.key, s.id)
			}
			return o
		}
		for i, a := range sts {
			for j, b := range sts {
				for _, accused := range []string{A, B} {
					a, b, accused := a, b, accused
					ok := a.key == accused && b.key == accused && a.signer == accused && b.signer == accused && a.period == b.period && a.cont != b.cont
					_ = i
					_ = j
					out = append(out, conCase{fmt.Sprintf("%s: %s vs %s accusing %s", stmtName[kind], a.name, b.name, accused), ok, func(n *Net, p string) def.Gossip_object {
						c := n.CON(mk(n, a, p), mk(n, b, p))
						c.Payload[0] = accused
						return c
					}})
				}
			}
		}
		for _, sw := range []string{"signatures swapped", "second signature missing", "second payload altered"} {
			sw := sw
			out = append(out, conCase{stmtName[kind] + " " + sw, false, func(n *Net, p string) def.Gossip_object {
				c := n.CON(mk(n, sts[0], p), mk(n, sts[1], p))
				switch sw {
				case "signatures swapped":
					c.Signature[0], c.Signature[1] = c.Signature[1], c.Signature[0]
				case "second signature missing":
					c.Signature[1] = ""
				default:
					c.Payload[2] += "1"
				}
				return c
			}})
		}
	}
	return out
}

func init() {
	reg("P04", "verify", "all ordered pairs of statements over two entities x two periods x two contents x authentic/foreign keys, each accusing either entity, plus swapped/missing/altered proofs; judged with the keys of every role", func(e *Env) {
		n := NewNet(3, 2, 2, 2)
		cases := conCases(n)
		e.Explore("cases", func(x *X) {
			c := cases[x.Choose(len(cases), "")]
			o := c.obj(n, "01")
			for _, id := range []string{n.Go(1), n.Mo(1), n.CA(1), n.Lg(1)} {
				got := o.Verify(n.Crypto(id)) == nil
				x.W.Steps++
				x.Require(got == c.ok, fmt.Sprintf("verify accept=%v want=%v", got, c.ok), "conflict proof %s: accepted=%v expected %v", c.name, got, c.ok)
			}
			x.Outcome("accepted=%v", c.ok)
		})
	})
	reg("P04", "gossiper-monitor", "the same proofs posted to a running gossiper and monitor: blacklisting, storing and forwarding happen exactly for sound proofs", func(e *Env) {
		n := NewNet(3, 2, 2, 2)
		cases := conCases(n)
		e.Explore("gossiper", func(x *X) {
			c := cases[x.Choose(len(cases), "")]
			g := n.SoloGossiper(x, 0)
			o := c.obj(n, Period())
			x.Tracef("%s", c.name)
			x.Post(n.Go(0), o)
			x.checkCrashes()
			for _, id := range []string{n.Lg(0), n.Lg(1), n.CA(0), n.CA(1)} {
				got := g.InBlacklist(id)
				want := c.ok && o.Payload[0] == id
				x.Require(got == want, fmt.Sprintf("blacklist=%v want=%v", got, want), "%s: %s blacklisted=%v expected %v", c.name, id, got, want)
			}
			fm, fg := len(x.SentObjects("/monitor")), len(x.SentObjects("/gossip/con_init"))
			x.Require((fm == 1) == c.ok && (fg == n.N-1) == c.ok && (c.ok || fm+fg == 0), "proof forwarding", "%s: forwarded to monitor %d times and to gossipers %d times", c.name, fm, fg)
			x.Outcome("accepted=%v", c.ok)
		})
		e.Explore("monitor", func(x *X) {
			c := cases[x.Choose(len(cases), "")]
			m := n.SoloMonitor(x, 0, nil)
			o := c.obj(n, Period())
			x.Tracef("%s", c.name)
			x.PostMonitor(n.Mo(0), o)
			x.checkCrashes()
			got := len(*m.Storage_CONFLICT_POM) > 0
			x.Require(got == c.ok, fmt.Sprintf("monitor stored=%v want=%v", got, c.ok), "%s: monitor stored the proof=%v expected %v", c.name, got, c.ok)
			x.Outcome("accepted=%v", c.ok)
		})
	})

	type conEv struct {
		name  string
		o     func(n *Net, kind int, p string) def.Gossip_object
		sound bool
	}
	evs := []conEv{
		{"A and B", func(n *Net, k int, p string) def.Gossip_object { return n.CON(n.ev(k, 0, p, 0), n.ev(k, 0, p, 1)) }, true},
		{"B and A", func(n *Net, k int, p string) def.Gossip_object { return n.CON(n.ev(k, 0, p, 1), n.ev(k, 0, p, 0)) }, true},
		{"A and C", func(n *Net, k int, p string) def.Gossip_object { return n.CON(n.ev(k, 0, p, 0), n.ev(k, 0, p, 2)) }, true},
		{"A and B of another period", func(n *Net, k int, p string) def.Gossip_object {
			return n.CON(n.ev(k, 0, "31", 0), n.ev(k, 0, "31", 1))
		}, true},
		{"A and A", func(n *Net, k int, p string) def.Gossip_object { return n.CON(n.ev(k, 0, p, 0), n.ev(k, 0, p, 0)) }, false},
		{"A and B of different periods", func(n *Net, k int, p string) def.Gossip_object {
			return n.CON(n.ev(k, 0, p, 0), n.ev(k, 0, "31", 1))
		}, false},
		{"A and B, against the other", func(n *Net, k int, p string) def.Gossip_object {
			c := n.CON(n.ev(k, 0, p, 0), n.ev(k, 0, p, 1))
			c.Payload[0] = n.ev(k, 1, p, 0).Payload[0]
			return c
		}, false},
		{"A and B, second altered", func(n *Net, k int, p string) def.Gossip_object {
			c := n.CON(n.ev(k, 0, p, 0), n.ev(k, 0, p, 1))
			c.Payload[2] += "1"
			return c
		}, false},
		{"B's signature on both", func(n *Net, k int, p string) def.Gossip_object {
			c := n.CON(n.ev(k, 0, p, 0), n.ev(k, 0, p, 1))
			c.Signature[0] = c.Signature[1]
			return c
		}, false},
		{"the other's A and B", func(n *Net, k int, p string) def.Gossip_object { return n.CON(n.ev(k, 1, p, 0), n.ev(k, 1, p, 1)) }, true},
		{"the other's A and B, against the first", func(n *Net, k int, p string) def.Gossip_object {
			c := n.CON(n.ev(k, 1, p, 0), n.ev(k, 1, p, 1))
			c.Payload[0] = n.ev(k, 0, p, 0).Payload[0]
			return c
		}, false},
	}
	hist := func(depth int) func(e *Env) {
		return func(e *Env) {
			n := NewNet(3, 2, 2, 2)
			for kind := 0; kind < 2; kind++ {
				kind := kind
				role := func(role string, start func(x *X) (func(o def.Gossip_object), func(id string) bool)) {
					e.Explore(role+"-"+stmtName[kind], func(x *X) {
						post, held := start(x)
						proven := map[string]bool{}
						var nm []string
						for d := 0; d < depth; d++ {
							ev := evs[x.Choose(len(evs), "")]
							o := ev.o(n, kind, Period())
							nm = append(nm, ev.name)
							proven[o.Payload[0]] = proven[o.Payload[0]] || ev.sound
							post(o)
							x.checkCrashes()
							for _, id := range []string{n.Lg(0), n.Lg(1), n.CA(0), n.CA(1)} {
								x.Require(held(id) == proven[id], fmt.Sprintf("%s proven=%v", role, proven[id]), "after the proofs of %q (%s) %s takes %s to be proven to have shown two statements: %v", nm, stmtName[kind], role, id, held(id))
							}
						}
						x.Outcome("%d", len(proven))
					})
				}
				role("gossiper", func(x *X) (func(o def.Gossip_object), func(id string) bool) {
					g := n.SoloGossiper(x, 0)
					return func(o def.Gossip_object) { x.Post(n.Go(0), o) }, g.InBlacklist
				})
				role("monitor", func(x *X) (func(o def.Gossip_object), func(id string) bool) {
					m := n.SoloMonitor(x, 0, nil)
					return func(o def.Gossip_object) { x.PostMonitor(n.Mo(0), o) }, func(id string) bool {
						for _, o := range *m.Storage_CONFLICT_POM {
							if o.Payload[0] == id {
								return true
							}
						}
						return false
					}
				})
				role("client", func(x *X) (func(o def.Gossip_object), func(id string) bool) {
					cl := n.Client(x, "NEW")
					first := true
					return func(o def.Gossip_object) {
							cl.HandleUpdate(monitor.ClientUpdate{POM_CONs: []def.Gossip_object{o}}, true, first)
							first = false
						}, func(id string) bool {
							_, ok := cl.POM_database[id]
							return ok
						}
				})
			}
		}
	}
	reg("P04", "history", "all sequences of three proofs of 11 kinds around two entities (both orders, a third statement, other periods, the same statement twice, altered, moved to the other entity) at one running gossiper, monitor and client: taken for proven exactly the entities with a sound proof so far", hist(3))
	regDeep("P04", "history-4", "the same with four proofs", hist(4))
}

// ev is variant v of the statement of logger or CA i.
func (n *Net) ev(kind, i int, p string, v int) def.Gossip_object {
	return n.stmtOf([]string{n.Lg(i), n.CA(i)}[kind], kind, p, v)
}
