package harness

import (
	"fmt"
	"net/http"
	"sort"
	"strings"
	"time"

	def "github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/gossiper"
	"github.com/jik18001/CTngV2/zzverif/vrt"
)

// trueCON: the object holds two different contents, both signed by the accused.
func (n *Net) trueCON(o def.Gossip_object, a, b def.Gossip_object) bool {
	p := []string{msgOf(a), msgOf(b)}
	s := []string{a.Signature[0], b.Signature[0]}
	return o.Type == def.CON_INIT && o.Payload[0] == a.Payload[0] &&
		((o.Payload[1] == p[0] && o.Payload[2] == p[1] && o.Signature == [2]string{s[0], s[1]}) ||
			(o.Payload[1] == p[1] && o.Payload[2] == p[0] && o.Signature == [2]string{s[1], s[0]}))
}

func initsOf(g *gossiper.GossiperContext) []def.Gossip_object {
	var out []def.Gossip_object
	for _, m := range []map[def.Gossip_ID]def.Gossip_object{g.Gossip_object_storage.STH_INIT, g.Gossip_object_storage.REV_INIT} {
		for _, o := range m {
			out = append(out, o)
		}
	}
	return out
}

// ---- P05: equivocation is exposed ------------------------------------------------------

func (n *Net) equivocate(x *X, kind int, alive []int, ans string, slow int) {
	var st [2]def.Gossip_object
	c, ent := n.period(x, kind, alive, func(i int, p string) (def.Gossip_object, bool) {
		st[0], st[1] = n.stmt(kind, p, 0), n.stmt(kind, p, 1)
		switch ans[i] {
		case 'A':
			return st[0], true
		case 'B':
			return st[1], true
		}
		return def.Gossip_object{}, false
	})
	c.allListening()
	c.gossipPhase(slow)
	for _, i := range alive {
		g, m := c.G[i], c.M[i]
		x.Require(g.InBlacklist(ent), "not blacklisted", "gossiper %s did not blacklist %s, which gave monitors the statements %s (- none)", n.Go(i), ent, ans)
		x.Require(len(*m.Storage_CONFLICT_POM) == 1, "monitor without proof", "monitor %s holds %d conflict proofs after %s equivocated (%s)", n.Mo(i), len(*m.Storage_CONFLICT_POM), ent, ans)
		for _, p := range *m.Storage_CONFLICT_POM {
			x.Require(n.trueCON(p, st[0], st[1]), "unsound proof", "monitor %s holds a proof that does not show the two statements", n.Mo(i))
		}
		if slow == 0 {
			x.Require(len(fullsOf(g, kind)) == 0, "equivocal statement signed", "gossiper %s holds a threshold object of an entity whose conflicting statements were both known before anyone signed", n.Go(i))
		}
	}
	c.updatePhase()
	for _, i := range alive {
		u, code, ok := x.GetUpdate(n.Mo(i), c.T0.UTC().Minute())
		x.Require(ok, "no update", "monitor %s has no update (status %d)", n.Mo(i), code)
		x.Require(len(u.POM_CONs) == 1 && n.trueCON(u.POM_CONs[0], st[0], st[1]), "update without proof", "update of %s carries %d conflict proofs", n.Mo(i), len(u.POM_CONs))
		x.Require(len(u.STHs)+len(u.REVs) == 0, "update with equivocal statement", "update of %s carries a statement of the equivocating %s", n.Mo(i), ent)
	}
	x.Outcome("alive=%v statements=%s", alive, ans)
}

func init() {
	add := func(r func(string, string, string, func(*Env)), n, t, kind int, alive []int, ans string, slow int) {
		r("P05", fmt.Sprintf("%s-n%d-t%d-alive%v-%s-slow%d", stmtName[kind], n, t, alive, ans, slow), fmt.Sprintf("an entity gives its two statements A and B to the monitors as written; all delivery orders and orders of simultaneous timers of one period, at most %d timers overtaking pending messages", slow), func(e *Env) {
			nt := NewNet(n, t, 1, 1)
			e.Explore("period", func(x *X) { nt.equivocate(x, kind, alive, ans, slow) })
		})
	}
	add(reg, 3, 2, 0, []int{0, 1}, "AB-", 2)
	add(reg, 3, 2, 1, []int{0, 1}, "AB-", 0)
	add(reg, 3, 2, 0, []int{0, 1, 2}, "AB-", 0)
	add(regDeep, 3, 2, 0, []int{0, 1, 2}, "AAB", 0)
	add(regDeep, 3, 2, 0, []int{0, 1, 2}, "BA-", 1)
	add(reg, 3, 2, 1, []int{1, 2}, "-BA", 1)
	add(regDeep, 3, 2, 1, []int{0, 1, 2}, "AB-", 0)
	add(regDeep, 3, 2, 1, []int{0, 1, 2}, "BAA", 0)
	add(regDeep, 3, 2, 0, []int{0, 1, 2}, "ABA", 1)
	add(regDeep, 3, 3, 0, []int{0, 1, 2}, "AB-", 1)
	add(regDeep, 4, 3, 0, []int{0, 1, 2}, "AB--", 1)
	for kind := 0; kind < 2; kind++ {
		kind := kind
		reg("P05", fmt.Sprintf("late-%s", stmtName[kind]), "one gossiper: every order of statement A, the passing of the signing time, two peers' fragments on A, the threshold object on A, a duplicate of A and the conflicting statement B (also once more under the other order), within one period: B is always exposed, whatever is known about A", func(e *Env) {
			n := NewNet(3, 2, 1, 1)
			e.Explore("orders", func(x *X) {
				g := n.SoloGossiper(x, 0)
				p := Period()
				A, B := n.stmt(kind, p, 0), n.stmt(kind, p, 1)
				ev := []struct {
					name string
					f    func()
				}{
					{"A", func() { x.Post(n.Go(0), A) }},
					{"B", func() { x.Post(n.Go(0), B) }},
					{"sign", func() { x.W.Advance(6 * time.Second) }},
					{"fragA1", func() { x.Post(n.Go(0), n.Frag(n.Go(1), A)) }},
					{"fragA2", func() { x.Post(n.Go(0), n.Frag(n.Go(2), A)) }},
					{"fullA", func() { x.Post(n.Go(0), n.Full(A, n.Go(1), n.Go(2))) }},
				}
				left := ev
				var order []string
				for len(left) > 0 {
					i := x.Choose(len(left), "")
					order = append(order, left[i].name)
					left[i].f()
					rest := append([]struct {
						name string
						f    func()
					}{}, left[:i]...)
					left = append(rest, left[i+1:]...)
				}
				x.W.Advance(6 * time.Second)
				x.checkCrashes()
				o := strings.Join(order, " ")
				x.Require(g.InBlacklist(A.Payload[0]), "not blacklisted", "order %s: the equivocating entity is not blacklisted", o)
				cons := 0
				for _, s := range x.SentObjects("/gossip/con_init") {
					x.Require(n.trueCON(s, A, B), "unsound proof", "order %s: unsound proof sent", o)
					cons++
				}
				mons := 0
				for _, s := range x.SentObjects("/monitor") {
					if s.Type == def.CON_INIT {
						mons++
					}
				}
				x.Require(cons == 2 && mons == 1, "proof not sent", "order %s: the proof went to %d gossipers (of 2) and %d times to the monitor", o, cons, mons)
				x.Outcome("exposed")
			})
		})
	}
}

// ---- P06: honest entities are never blacklisted ------------------------------------------

type byzObj struct {
	name string
	make func(n *Net, p string) def.Gossip_object
}

// prev is the label of the period before.
func prev(p string) string {
	if p == "00" {
		return "59"
	}
	var i int
	fmt.Sscanf(p, "%d", &i)
	return fmt.Sprintf("%02d", i-1)
}

// byzObjs: what the pair b (monitor and gossiper) can make against an honest logger and CA,
// from its own keys and everything honest parties publish.
func byzObjs(n *Net, b int) []byzObj {
	M, G := n.Mo(b), n.Go(b)
	var out []byzObj
	add := func(name string, f func(n *Net, p string) def.Gossip_object) { out = append(out, byzObj{name, f}) }
	for kind := 0; kind < 2; kind++ {
		kind := kind
		ent := []string{n.Lg(0), n.CA(0)}[kind]
		nm := stmtName[kind] + " "
		acc := func(p string) def.Gossip_object { return n.ACC(M, ent, p) }
		add(nm+"accusation", func(n *Net, p string) def.Gossip_object { return acc(p) })
		add(nm+"accusation in the name of the honest monitor", func(n *Net, p string) def.Gossip_object {
			o := acc(p)
			o.Signer = n.Mo(0)
			return o
		})
		add(nm+"accusation with forged signature id", func(n *Net, p string) def.Gossip_object {
			o := resign(n, acc(p), M, n.Mo(0))
			o.Signer = n.Mo(0)
			return o
		})
		add(nm+"accusation fragment", func(n *Net, p string) def.Gossip_object { return n.Frag(G, acc(p)) })
		for _, as := range []string{n.Go(0), n.Go(1)} {
			as := as
			add(nm+"accusation fragment in the name of "+as, func(n *Net, p string) def.Gossip_object {
				o := n.Frag(G, acc(p))
				o.Signer = as
				return o
			})
			add(nm+"accusation fragment with the id of "+as, func(n *Net, p string) def.Gossip_object {
				o := n.Frag(G, acc(p))
				o.Signer = as
				o.Signature[0] = strings.Replace(o.Signature[0], G, as, 1)
				return o
			})
			add(nm+"statement fragment of "+as+" relabelled as accusation", func(n *Net, p string) def.Gossip_object {
				o := n.Frag(as, n.stmt(kind, p, 0))
				o.Type = def.ACC_FRAG
				return o
			})
			add(nm+"statement fragment of "+as+" cut to an accusation", func(n *Net, p string) def.Gossip_object {
				o := n.Frag(as, n.stmt(kind, p, 0))
				o.Type = def.ACC_FRAG
				o.Payload = [3]string{ent, "", ""}
				return o
			})
			add(nm+"accusation fragment for another entity by "+as, func(n *Net, p string) def.Gossip_object {
				o := n.Frag(as, n.ACC(n.Mo(0), "localhost:9998", p))
				o.Payload[0] = ent
				return o
			})
		}
		for _, c := range []fullCase{{[]string{G}, []string{G}, "one"}, {[]string{G, G}, []string{G, G}, "twice"}, {[]string{G}, []string{G, n.Go(0)}, "claims another"}, {[]string{G}, []string{G, "localhost:9999"}, "claims unknown"}, {[]string{G}, []string{n.Go(0), n.Go(1)}, "claims two others"}} {
			c := c
			add(nm+"accusation object: "+c.label, func(n *Net, p string) def.Gossip_object { return n.fullFrom(acc(p), c) })
		}
		if n.N > 3 { // with another byzantine pair
			H := n.Go(7 - b)
			for _, c := range []fullCase{{[]string{G, H}, []string{G, H}, "both"}, {[]string{G, H, G}, []string{G, H, G}, "both, one twice"}, {[]string{G, H}, []string{G, H, n.Go(0)}, "both, claiming another"}, {[]string{G, H}, []string{G, H, "localhost:9999"}, "both, claiming unknown"}} {
				c := c
				add(nm+"accusation object: "+c.label, func(n *Net, p string) def.Gossip_object { return n.fullFrom(acc(p), c) })
				add(nm+"statement never made: "+c.label, func(n *Net, p string) def.Gossip_object { return n.fullFrom(resign(n, n.stmt(kind, p, 1), M, ent), c) })
			}
		}
		add(nm+"threshold statement relabelled as accusation", func(n *Net, p string) def.Gossip_object {
			o := n.Full(n.stmt(kind, p, 0), n.Go(0), n.Go(1))
			o.Type = def.ACC_FULL
			return o
		})
		add(nm+"threshold statement cut to an accusation", func(n *Net, p string) def.Gossip_object {
			o := n.Full(n.stmt(kind, p, 0), n.Go(0), n.Go(1))
			o.Type = def.ACC_FULL
			o.Payload = [3]string{ent, "", ""}
			return o
		})
		add(nm+"threshold accusation of another entity relabelled", func(n *Net, p string) def.Gossip_object {
			o := n.Full(n.ACC(n.Mo(0), "localhost:9998", p), n.Go(0), n.Go(1))
			o.Payload[0] = ent
			return o
		})
		con := func(name string, f func(p string) (def.Gossip_object, def.Gossip_object)) {
			add(nm+"conflict proof: "+name, func(n *Net, p string) def.Gossip_object {
				a, b := f(p)
				o := n.CON(a, b)
				o.Payload[0] = ent
				o.Period = p
				return o
			})
		}
		con("same statement twice", func(p string) (def.Gossip_object, def.Gossip_object) {
			return n.stmt(kind, p, 0), n.stmt(kind, p, 0)
		})
		con("statements of two periods", func(p string) (def.Gossip_object, def.Gossip_object) {
			return n.stmt(kind, prev(p), 1), n.stmt(kind, p, 0)
		})
		con("second one signed by the byzantine pair", func(p string) (def.Gossip_object, def.Gossip_object) {
			return n.stmt(kind, p, 0), resign(n, n.stmt(kind, p, 1), M, M)
		})
		con("second one with a forged id", func(p string) (def.Gossip_object, def.Gossip_object) {
			return n.stmt(kind, p, 0), resign(n, n.stmt(kind, p, 1), M, ent)
		})
		con("second one without signature", func(p string) (def.Gossip_object, def.Gossip_object) {
			o := n.stmt(kind, p, 1)
			o.Signature[0] = n.stmt(kind, p, 0).Signature[0]
			return n.stmt(kind, p, 0), o
		})
		con("same statement split differently", func(p string) (def.Gossip_object, def.Gossip_object) {
			o := n.stmt(kind, p, 0)
			o.Payload[1] += " "
			return n.stmt(kind, p, 0), o
		})
		add(nm+"conflict proof: statements of another entity", func(n *Net, p string) def.Gossip_object {
			a, b := n.STH(n.Lg(1), p, "r0", 2), n.STH(n.Lg(1), p, "r1", 3)
			o := n.CON(a, b)
			o.Payload[0] = ent
			return o
		})
		add(nm+"second statement by the byzantine pair", func(n *Net, p string) def.Gossip_object {
			return resign(n, n.stmt(kind, p, 1), M, ent)
		})
		add(nm+"old statement relabelled", func(n *Net, p string) def.Gossip_object {
			o := n.stmt(kind, prev(p), 1)
			o.Period = p
			return o
		})
	}
	return out
}

func init() {
	run := func(depth, honest, t int, byz []int, periods int) func(e *Env) {
		return func(e *Env) {
			n := NewNet(honest+len(byz), t, 2, 1)
			var objs [][]byzObj
			for _, b := range byz {
				objs = append(objs, byzObjs(n, b))
			}
			var pairs []int
			for g := 0; g < honest; g++ {
				pairs = append(pairs, g)
			}
			e.Explore("pair", func(x *X) {
				kind := x.Choose(2, "")
				when := x.Pick("byzantine messages", "before the statement", "after the statement", "after it was signed")
				var seq []byzObj
				for d := 0; d < depth; d++ {
					i := x.Choose(len(objs[0]), "")
					for _, l := range objs {
						seq = append(seq, l[i])
					}
				}
				c, ent := n.period(x, kind, pairs, func(i int, p string) (def.Gossip_object, bool) { return def.Gossip_object{}, false })
				x.W.Fault = func(m *vrt.Msg) (*http.Response, error) {
					if !isGet(m) {
						return nil, nil
					}
					if m.Dst == port(ent) {
						return okResponse(string(mustJSON(n.stmt(kind, Period(), 0)))), nil
					}
					return nil, fmt.Errorf("connection refused")
				}
				x.W.Auto = func(m *vrt.Msg) bool { return true }
				for k := 0; k < periods; k++ {
					start := c.T0.Add(time.Duration(k) * time.Minute)
					p := PeriodAt(start)
					inject := func() {
						for _, o := range seq {
							for _, g := range pairs {
								x.Tracef("%s", o.name)
								x.Post(n.Go(g), o.make(n, p))
								x.PostMonitor(n.Mo(g), o.make(n, p))
							}
						}
					}
					if when == 0 {
						x.W.AdvanceTo(start.Add(450 * time.Millisecond)) // gossipers listen, monitors have not asked yet
						inject()
					}
					x.W.AdvanceTo(start.Add(2 * time.Second))
					if when == 1 {
						inject()
					}
					x.W.AdvanceTo(start.Add(10 * time.Second))
					if when == 2 {
						inject()
					}
					x.W.AdvanceTo(start.Add(50 * time.Second))
					x.checkCrashes()
					for _, g := range pairs {
						for _, id := range []string{n.Lg(0), n.CA(0), n.Lg(1)} {
							x.Require(!c.G[g].InBlacklist(id), "honest blacklisted", "gossiper %s blacklisted honest %s after %v in %d periods", n.Go(g), id, names(seq), k+1)
						}
						u, code, ok := x.GetUpdate(n.Mo(g), start.UTC().Minute())
						x.Require(ok, "no update", "no update (%d) after %v in %d periods", code, names(seq), k+1)
						x.Require(len(u.POM_ACCs)+len(u.POM_CONs) == 0, "update accuses", "update carries a proof against an honest entity after %v in %d periods", names(seq), k+1)
						l := append(u.STHs, u.REVs...)
						found := false
						for _, o := range l {
							x.Require(n.trueFull(o), "invalid object in update", "update carries an object without threshold signature after %v in %d periods", names(seq), k+1)
							found = found || o.Payload == n.stmt(kind, p, 0).Payload
							x.Require(o.Payload[0] != ent || o.Payload == n.stmt(kind, p, 0).Payload, "wrong statement", "update carries a statement %s never made", ent)
						}
						x.Require(found, "statement missing", "the honest statement is missing from the update after %v in %d periods", names(seq), k+1)
					}
				}
				x.Outcome("no effect")
			})
		}
	}
	reg("P06", "one-message", "2 honest pairs of 3 (t=2), one byzantine: each object of a grammar of accusations, fragments, threshold objects and conflict proofs it can make, sent to both honest gossipers and monitors at each of three phases of each of two periods; STH and REV", run(1, 2, 2, []int{2}, 2))
	reg("P06", "two-pairs", "3 honest pairs of 5 (t=3), two byzantine ones that make the same kind of objects, and objects with both their signatures", run(1, 3, 3, []int{3, 4}, 1))
	regDeep("P06", "two-messages", "2 honest pairs of 3 (t=2): all ordered pairs of such objects, over two periods", run(2, 2, 2, []int{2}, 2))
	regDeep("P06", "two-pairs-two-messages", "the same of two byzantine pairs", run(2, 3, 3, []int{3, 4}, 1))
}

func names(l []byzObj) []string {
	var out []string
	for _, o := range l {
		out = append(out, o.name)
	}
	return out
}

// ---- P07: accusations -----------------------------------------------------------------------

func (n *Net) accuse(x *X, alive, accusers []int, cross bool) {
	x.W.Auto = nil
	x.W.Fault = func(m *vrt.Msg) (resp *httpResponse, err error) {
		if toMonitor(m) {
			return okResponse(""), nil
		}
		return nil, nil
	}
	c := n.StartCluster(x, alive, nil)
	c.allListening()
	ent := n.Lg(0)
	p := Period()
	var pend []*vrt.Msg
	inject := func(g, m int) {
		b := mustJSON(n.ACC(n.Mo(m), ent, p))
		pend = append(pend, x.W.Inject(port(n.Go(g)), "POST", "/gossip/acc_init", b))
	}
	for _, i := range accusers {
		if has(alive, i) {
			inject(i, i)
		}
		if cross {
			for _, j := range alive {
				if j != i {
					inject(j, i)
				}
			}
		}
	}
	_ = pend
	x.RunDeliveries(DelOpt{Until: c.T0.Add(30 * time.Second), State: c.hash, Skip: x.dupDelivered})
	x.checkCrashes()
	k := 0
	for _, i := range accusers {
		if has(alive, i) {
			k++
		}
	}
	want := k >= n.T
	for _, i := range alive {
		got := c.G[i].InBlacklist(ent)
		x.Require(got == want, fmt.Sprintf("blacklisted=%v want=%v", got, want), "gossiper %s blacklisted=%v although monitors %v of the running pairs %v accuse and the threshold is %d", n.Go(i), got, accusers, alive, n.T)
		l := fullsOf(c.G[i], 2)
		x.Require((len(l) == 1) == want && len(l) < 2, "accusation objects", "gossiper %s holds %d accusation objects, accusers %v of %v", n.Go(i), len(l), accusers, alive)
		for _, o := range l {
			x.Require(n.trueFull(o) && o.Payload[0] == ent, "invalid accusation object", "gossiper %s holds an invalid accusation object", n.Go(i))
		}
		told := 0
		for _, m := range x.W.Sent {
			if m.Src == port(n.Go(i)) && toMonitor(m) {
				told++
			}
		}
		x.Require((told == 1) == want && told < 2, "monitor told", "gossiper %s sent %d accusation objects to its monitor", n.Go(i), told)
		for _, o := range []string{n.CA(0), n.Lg(1)} {
			x.Require(!c.G[i].InBlacklist(o), "other blacklisted", "%s blacklisted without any accusation", o)
		}
	}
	x.Outcome("alive=%v accusers=%v blacklisted=%v", alive, accusers, want)
}

func init() {
	add := func(r func(string, string, string, func(*Env)), n, t int, alive, acc []int, cross bool) {
		nm := ""
		if cross {
			nm = "-cross"
		}
		r("P07", fmt.Sprintf("gossip-n%d-t%d-alive%v-acc%v%s", n, t, alive, acc, nm), "accusations of exactly these monitors, all delivery orders (cross: every accusation is also sent to every other gossiper)", func(e *Env) {
			nt := NewNet(n, t, 2, 1)
			e.Explore("orders", func(x *X) { nt.accuse(x, alive, acc, cross) })
		})
	}
	for _, alive := range subsets(3, 2) {
		for _, acc := range subsets(3, 1) {
			add(reg, 3, 2, alive, acc, false)
			if len(acc) == 1 {
				add(reg, 3, 2, alive, acc, true)
			}
		}
	}
	add(reg, 4, 3, []int{0, 1, 2, 3}, []int{0, 2}, false)
	add(regDeep, 4, 3, []int{0, 1, 2, 3}, []int{0, 2}, true)
	add(reg, 4, 3, []int{0, 1, 2}, []int{0, 1, 2}, false)
	add(regDeep, 4, 3, []int{0, 1, 2, 3}, []int{0, 1, 2}, false)
	add(regDeep, 4, 3, []int{0, 1, 2, 3}, []int{0, 1, 2, 3}, false)
	add(regDeep, 4, 2, []int{0, 1, 2, 3}, []int{1, 2}, false)
	for kind := 0; kind < 2; kind++ {
		for _, alive := range [][]int{{0, 1}, {0, 1, 2}} {
			kind, alive := kind, alive
			r := reg
			if len(alive) == 3 && kind == 1 {
				r = regDeep
			}
			r("P07", fmt.Sprintf("silent-%s-alive%v", stmtName[kind], alive), "an entity that answers nobody for a whole period: all delivery orders of the accusations; every update then carries the proof", func(e *Env) {
				n := NewNet(3, 2, 1, 1)
				e.Explore("period", func(x *X) {
					c, ent := n.period(x, kind, alive, func(int, string) (def.Gossip_object, bool) { return def.Gossip_object{}, false })
					c.allListening()
					c.gossipPhase(0)
					for _, i := range alive {
						x.Require(c.G[i].InBlacklist(ent), "silent entity not blacklisted", "gossiper %s did not blacklist silent %s", n.Go(i), ent)
					}
					c.updatePhase()
					for _, i := range alive {
						u, code, ok := x.GetUpdate(n.Mo(i), c.T0.UTC().Minute())
						x.Require(ok, "no update", "no update (%d)", code)
						x.Require(len(u.POM_ACCs) == 1 && u.POM_ACCs[0].Payload[0] == ent && n.trueFull(u.POM_ACCs[0]), "update without accusation", "update of %s carries %d accusation proofs against silent %s", n.Mo(i), len(u.POM_ACCs), ent)
					}
					x.Outcome("alive=%v", alive)
				})
			})
		}
	}
}

// ---- P08: blacklisting lasts ---------------------------------------------------------------------

func init() {
	reg("P08", "gossiper", "one gossiper: proof kind (conflict, accusation) x entity kind x statement known before or not x number of storage rollovers passed (0-3) x every statement form (statement, fragments to the threshold, threshold object) of the blacklisted entity afterwards, and of another entity", func(e *Env) {
		n := NewNet(3, 2, 2, 2)
		e.Explore("history", func(x *X) {
			kind := x.Choose(2, "")
			proof := x.Pick("proof", "conflict", "accusation object", "accusation fragments")
			known := x.Bool("statement known before")
			roll := x.Choose(4, "")
			form := x.Pick("then", "statement", "fragments", "threshold object", "conflicting statements", "accusation")
			late := x.Bool("in the first 40 s of the period")
			g := n.SoloGossiper(x, 0)
			p := Period()
			ent := []string{n.Lg(0), n.CA(0)}[kind]
			if known {
				x.Post(n.Go(0), n.stmt(kind, p, 0))
				x.W.Advance(6 * time.Second)
			}
			switch proof {
			case 0:
				x.Post(n.Go(0), n.CON(n.stmt(kind, p, 0), n.stmt(kind, p, 1)))
			case 1:
				x.Post(n.Go(0), n.Full(n.ACC(n.Mo(1), ent, p), n.Go(1), n.Go(2)))
			case 2:
				x.Post(n.Go(0), n.Frag(n.Go(1), n.ACC(n.Mo(1), ent, p)))
				x.Post(n.Go(0), n.Frag(n.Go(2), n.ACC(n.Mo(2), ent, p)))
			}
			x.Require(g.InBlacklist(ent), "not blacklisted", "%s not blacklisted by a valid proof", ent)
			start := time.Now().Truncate(time.Minute)
			for i := 0; i < roll; i++ {
				start = start.Add(time.Minute)
			}
			if late {
				x.W.AdvanceTo(start.Add(20 * time.Second))
			} else {
				x.W.AdvanceTo(start.Add(45 * time.Second))
			}
			x.Require(g.InBlacklist(ent), "blacklist forgotten", "%s is no longer blacklisted %d periods after the proof", ent, roll)
			if proof == 0 {
				x.Require(len(g.Gossip_object_storage.CON_INIT) == 1, "proof forgotten", "conflict proof forgotten after %d periods", roll)
			}
			before := len(x.W.Sent)
			q := Period()
			other := []string{n.Lg(1), n.CA(1)}[kind]
			mk := func(id string, v int) def.Gossip_object {
				if kind == 0 {
					return n.STH(id, q, fmt.Sprint("q", v), 5+v)
				}
				return n.REV(id, q, bits(), bits(20+v))
			}
			do := func(id string) {
				switch form {
				case 0:
					x.Post(n.Go(0), mk(id, 0))
				case 1:
					if kind == 1 {
						x.Post(n.Go(0), mk(id, 0))
					}
					x.Post(n.Go(0), n.Frag(n.Go(1), mk(id, 0)))
					x.Post(n.Go(0), n.Frag(n.Go(2), mk(id, 0)))
				case 2:
					x.Post(n.Go(0), n.Full(mk(id, 0), n.Go(1), n.Go(2)))
				case 3:
					x.Post(n.Go(0), mk(id, 0))
					x.Post(n.Go(0), mk(id, 1))
				case 4:
					x.Post(n.Go(0), n.ACC(n.Mo(0), id, q))
				}
				x.W.Advance(6 * time.Second)
			}
			do(ent)
			x.checkCrashes()
			x.Require(len(x.W.Sent) == before, "reaction to blacklisted", "%d messages sent in reaction to statements of blacklisted %s (%d periods later)", len(x.W.Sent)-before, ent, roll)
			for k := 0; k < 2; k++ {
				for _, o := range fullsOf(g, k) {
					x.Require(o.Payload[0] != ent || o.Period == p, "blacklisted statement stored", "a threshold object of blacklisted %s was stored", ent)
				}
			}
			do(other)
			x.checkCrashes()
			x.Require(len(x.W.Sent) > before, "no reaction to others", "statements of %s, which is not blacklisted, are ignored", other)
			x.Outcome("proof=%d roll=%d form=%d", proof, roll, form)
		})
	})
}

// ---- P09: flooding terminates --------------------------------------------------------------------

func (x *X) noRepeats(n *Net) {
	cnt := map[string]int{}
	for _, m := range x.W.Sent {
		if m.Method != "POST" || strings.Contains(m.Path, "new_payload_request") {
			continue
		}
		k := m.Src + " -> " + m.Key()
		// the answer to a payload request may be repeated once per requester's request
		if strings.Contains(m.Path, "rev_init") && strings.HasPrefix(m.Src, "9") {
			continue
		}
		cnt[k]++
		if cnt[k] > 1 {
			x.Violate("repeated message "+m.Path, "%s sent the same message twice to %s: %s", m.Src, m.Dst, m.Path)
		}
	}
}

func init() {
	for _, c := range []struct {
		kind int
		ans  string
	}{{0, "A--"}, {0, "AAA"}, {1, "A--"}, {0, "AB-"}, {0, "---"}, {1, "AB-"}} {
		c := c
		r := reg
		if c.kind == 1 {
			r = regDeep
		}
		r("P09", fmt.Sprintf("cluster-%s-%s", stmtName[c.kind], c.ans), "three pairs (t=2) with the statements as written (A, B conflicting, - no answer); all delivery orders, identical messages included: nobody sends a peer the same object twice, and the network falls silent", func(e *Env) {
			n := NewNet(3, 2, 1, 1)
			e.Explore("period", func(x *X) {
				cl, _ := n.period(x, c.kind, []int{0, 1, 2}, func(i int, p string) (def.Gossip_object, bool) {
					return n.stmt(c.kind, p, int(c.ans[i]-'A')&1), c.ans[i] != '-'
				})
				cl.allListening()
				x.RunDeliveries(DelOpt{
					Until: cl.T0.Add(30 * time.Second), Auto: cl.T0.Add(12 * time.Second), State: cl.hash,
					Skip: func(m *vrt.Msg) bool { return isGet(m) || toMonitor(m) || x.dupDelivered(m) },
					Step: func() { x.noRepeats(n) },
				})
				x.checkCrashes()
				x.Require(len(x.W.Pending()) == 0, "still talking", "%d messages still in flight 20 s after the last event", len(x.W.Pending()))
				x.Outcome("%d messages", len(x.W.Sent))
			})
		})
	}
	seqs := func(depth int) func(e *Env) {
		return func(e *Env) {
			n := NewNet(3, 2, 1, 1)
			e.Explore("dups", func(x *X) {
				kind := x.Choose(2, "")
				g := n.SoloGossiper(x, 0)
				p := Period()
				A, B := n.stmt(kind, p, 0), n.stmt(kind, p, 1)
				acc := n.ACC(n.Mo(0), A.Payload[0], p)
				objs := []def.Gossip_object{A, B, n.Frag(n.Go(1), A), n.Frag(n.Go(2), A), n.Full(A, n.Go(1), n.Go(2)), n.CON(A, B), acc, n.Frag(n.Go(1), acc)}
				seen := map[int]bool{}
				var seq []int
				for d := 0; d < depth; d++ {
					i := x.Choose(len(objs), "")
					before := x.stable(g)
					sent := len(x.W.Sent)
					x.Post(n.Go(0), objs[i])
					if seen[i] {
						x.Require(x.stable(g) == before, "duplicate changed state", "a repeated %s changed the gossiper's state (after %v)", desc(objs[i]), seq)
						x.Require(len(x.W.Sent) == sent, "duplicate forwarded", "a repeated %s was passed on again (after %v)", desc(objs[i]), seq)
					}
					seen[i] = seen[i] || x.stable(g) != before || len(x.W.Sent) != sent
					seq = append(seq, i)
				}
				x.W.Advance(6 * time.Second)
				for i := range objs {
					if seen[i] {
						before := x.stable(g)
						sent := len(x.W.Sent)
						x.Post(n.Go(0), objs[i])
						x.Require(x.stable(g) == before, "late duplicate stored", "a repeated %s changed the gossiper's state after %v and the signing time", desc(objs[i]), seq)
						if len(x.W.Sent) > sent {
							x.Violate("late duplicate", "a repeated %s had an effect after %v and the signing time: %s", desc(objs[i]), seq, x.W.Sent[sent].Path)
						}
					}
				}
				x.checkCrashes()
				x.noRepeats(n)
				x.Outcome("messages=%d", len(x.W.Sent))
			})
		}
	}
	reg("P09", "duplicates-3", "one gossiper: all sequences of 3 objects of 8 kinds (both statements, fragments, threshold object, proof, accusation and its fragment), each repeated one again after the signing time: a repetition changes nothing and is not passed on", seqs(3))
	reg("P09", "duplicates-4", "the same with all sequences of 4 objects", seqs(4))
	regDeep("P09", "duplicates-5", "the same with all sequences of 5 objects", seqs(5))
}

// stable is a hash of what the gossiper stores.
func (x *X) stable(g *gossiper.GossiperContext) string {
	s := g.Gossip_object_storage
	return DeepHash(s.STH_INIT, s.REV_INIT, s.ACC_INIT, s.CON_INIT, s.STH_FRAG, s.REV_FRAG, s.ACC_FRAG, s.STH_FULL, s.REV_FULL, s.ACC_FULL, g.Gossip_blacklist)
}

// ---- P10: fragments -----------------------------------------------------------------------------------

type fragCase struct {
	name string
	o    def.Gossip_object
	pay  int // payload (0 A, 1 B), -1 invalid
	by   string
}

func fragCases(n *Net, kind int, p string) []fragCase {
	mk := func(v int) def.Gossip_object {
		if kind == 2 {
			return n.ACC(n.Mo(0), n.Lg(0), p)
		}
		return n.stmt(kind, p, v)
	}
	A, B := mk(0), mk(1)
	var out []fragCase
	for i := 0; i < n.N; i++ {
		out = append(out, fragCase{fmt.Sprintf("A by g%d", i), n.Frag(n.Go(i), A), 0, n.Go(i)})
		if kind == 0 {
			out = append(out, fragCase{fmt.Sprintf("B by g%d", i), n.Frag(n.Go(i), B), 1, n.Go(i)})
		}
	}
	bad := func(name string, f func(o *def.Gossip_object)) {
		o := n.Frag(n.Go(1), A)
		f(&o)
		out = append(out, fragCase{name, o, -1, ""})
	}
	bad("A by g1 claimed by g2", func(o *def.Gossip_object) { o.Signer = n.Go(2) })
	bad("A by g1 with the id of g2", func(o *def.Gossip_object) {
		o.Signer = n.Go(2)
		o.Signature[0] = strings.Replace(o.Signature[0], n.Go(1), n.Go(2), 1)
	})
	bad("unknown signer", func(o *def.Gossip_object) {
		o.Signer = "localhost:9999"
		o.Signature[0] = strings.Replace(o.Signature[0], n.Go(1), "localhost:9999", 1)
	})
	bad("garbage", func(o *def.Gossip_object) { o.Signature[0] = `{"sign":"00","id":"` + n.Go(1) + `"}` })
	if kind == 0 {
		bad("fragment on B moved to A", func(o *def.Gossip_object) { o.Signature = n.Frag(n.Go(1), B).Signature })
	}
	return out
}

func init() {
	run := func(n0, t0, kind, depth int) func(e *Env) {
		return func(e *Env) {
			n := NewNet(n0, t0, 1, 1)
			e.Explore("sequences", func(x *X) {
				g := n.SoloGossiper(x, 0)
				p := Period()
				cases := fragCases(n, kind, p)
				if kind == 1 { // revocation fragments travel without payload: the statement comes first
					x.Post(n.Go(0), n.stmt(1, p, 0))
				}
				got := []map[string]bool{{}, {}}
				first := -1
				var seq []string
				for d := 0; d < depth; d++ {
					c := cases[x.Choose(len(cases), "")]
					seq = append(seq, c.name)
					x.Post(n.Go(0), c.o)
					if c.pay >= 0 {
						got[c.pay][c.by] = true
						if first < 0 && len(got[c.pay]) >= n.T {
							first = c.pay
						}
					}
					l := fullsOf(g, kind)
					x.Require((len(l) == 1) == (first >= 0), fmt.Sprintf("full=%v want=%v", len(l) == 1, first >= 0), "after %v the gossiper holds %d threshold objects; valid fragments of %d and %d distinct gossipers on A and B, threshold %d", seq, len(l), len(got[0]), len(got[1]), n.T)
					for _, o := range l {
						x.Require(n.trueFull(o), "invalid full", "after %v the threshold object has no valid threshold signature", seq)
						if kind == 0 {
							x.Require(o.Payload == n.stmt(kind, p, first).Payload, "wrong payload", "after %v the threshold object is on the wrong statement", seq)
						}
					}
				}
				x.checkCrashes()
				told := 0
				for _, o := range x.SentObjects("/monitor") {
					if strings.HasSuffix(def.TypeString(o.Type), "FULL") || o.Type == fullType[[]string{def.STH_INIT, def.REV_INIT, def.ACC_INIT}[kind]] {
						x.Require(n.trueFull(o), "invalid object to monitor", "an invalid threshold object went to the monitor after %v", seq)
						told++
					}
				}
				x.Require((told == 1) == (first >= 0) && told < 2, "monitor told", "threshold object sent %d times to the monitor after %v", told, seq)
				for _, o := range append(append(x.SentObjects("/gossip/sth_frag"), x.SentObjects("/gossip/acc_frag")...), nil...) {
					x.Require(n.trueFrag(o), "invalid fragment forwarded", "an invalid fragment was passed on after %v", seq)
				}
				x.Outcome("full=%v", first >= 0)
			})
		}
	}
	// fragments on statements about two entities at a time
	several := func(n0, t0 int) func(e *Env) {
		return func(e *Env) {
			n := NewNet(n0, t0, 2, 2)
			type target struct {
				kind int
				id   string
			}
			all := []target{{0, n.Lg(0)}, {0, n.Lg(1)}, {1, n.CA(0)}, {1, n.CA(1)}, {2, n.Lg(0)}, {2, n.Lg(1)}, {2, n.CA(0)}, {2, n.CA(1)}}
			var pairs [][2]target
			for i, a := range all {
				for _, b := range all[i+1:] {
					if a.id != b.id && (a.kind != 2 || b.kind != 2 || n0 < 4) {
						pairs = append(pairs, [2]target{a, b})
					}
				}
			}
			e.Explore("orders", func(x *X) {
				pair := pairs[x.Choose(len(pairs), "")]
				g := n.SoloGossiper(x, 0)
				p := Period()
				type event struct {
					of   int
					frag bool
					o    def.Gossip_object
				}
				var todo []event
				have, stated := [2]int{}, [2]bool{}
				for i, t := range pair {
					o := n.ACC(n.Mo(0), t.id, p)
					if t.kind < 2 {
						o = n.stmtOf(t.id, t.kind, p, 0)
					}
					stated[i] = t.kind != 1
					if t.kind == 1 {
						todo = append(todo, event{i, false, o})
					}
					for j := 1; j <= t0; j++ {
						todo = append(todo, event{i, true, n.Frag(n.Go(j), o)})
					}
				}
				var seq []string
				for len(todo) > 0 {
					k := x.Choose(len(todo), "")
					ev := todo[k]
					todo = append(append([]event{}, todo[:k]...), todo[k+1:]...)
					seq = append(seq, desc(ev.o))
					x.Post(n.Go(0), ev.o)
					if ev.frag {
						have[ev.of]++
					} else {
						stated[ev.of] = true
					}
					for i, t := range pair {
						num := 0
						for _, o := range fullsOf(g, t.kind) {
							if o.Payload[0] == t.id {
								num++
								x.Require(n.trueFull(o), "invalid full", "after %v the threshold object about %s has no valid threshold signature", seq, t.id)
							}
						}
						want := 0
						if stated[i] && have[i] == t0 {
							want = 1
						}
						x.Require(num == want, fmt.Sprintf("full=%v want=%v", num, want), "after %v the gossiper holds %d threshold objects about %s, expected %d", seq, num, t.id, want)
					}
				}
				x.checkCrashes()
				x.Outcome("%v", pair)
			})
		}
	}
	snote := "one gossiper: the fragments of t gossipers on each of two objects about different entities (statements of loggers and CAs, accusations), and the CAs' statements, in every order: each threshold object is made exactly when its own fragments, and statement, are there"
	// many fragments
	many := func(ns []int, step int) func(e *Env) {
		return func(e *Env) {
			for _, n0 := range ns {
				for t := 3; t < n0; t += step {
					n := NewNet(n0, t, 1, 1)
					e.Explore(fmt.Sprintf("orders-n%d-t%d", n0, t), func(x *X) {
						kind, back, noise := x.Choose(3, ""), x.Choose(2, ""), x.Choose(3, "")
						g := n.SoloGossiper(x, 0)
						p := Period()
						o := stmts(n, p)[kind]
						id := o.Payload[0]
						if kind == 1 {
							x.Post(n.Go(0), o)
						}
						var from []int
						for j := 1; j < n0; j++ {
							from = append(from, j)
							if back == 1 {
								from[j-1] = n0 - j
							}
						}
						for k, j := range from {
							f := n.Frag(n.Go(j), o)
							if noise == 1 && k > 0 { // an earlier one again
								x.Post(n.Go(0), n.Frag(n.Go(from[k/2]), o))
							} else if noise == 2 { // another gossiper's signature under this one's name
								bad := n.Frag(n.Go(j), o)
								bad.Signature = n.Frag(n.Go(from[(k+1)%len(from)]), o).Signature
								x.Post(n.Go(0), bad)
							}
							for again := 0; again < 2; again++ {
								num := 0
								for _, fl := range fullsOf(g, kind) {
									if fl.Payload[0] == id {
										num++
										x.Require(n.trueFull(fl), "invalid full", "threshold %d: after %d of %v the threshold object has no valid threshold signature", t, k+again, from)
									}
								}
								want := 0
								if k+again >= t {
									want = 1
								}
								x.Require(num == want, fmt.Sprintf("full=%v want=%v", num, want), "threshold %d, noise %d: after %d of the fragments of %v the gossiper holds %d threshold objects, expected %d", t, noise, k+again, from, num, want)
								if again == 0 {
									x.Post(n.Go(0), f)
								}
							}
						}
						x.checkCrashes()
						x.Outcome("%s", stmtName[kind])
					})
				}
			}
		}
	}
	lnote := "one gossiper out of %s: the fragments of all the others on one object in ascending and descending order, alone, with repetitions, and with fragments that carry another gossiper's signature: the threshold object is made at the threshold and not before, and is valid"
	reg("P10", "large-thresholds", fmt.Sprintf(lnote, "7 and 14"), many([]int{7, 14}, 3))
	regDeep("P10", "large-thresholds-more", fmt.Sprintf(lnote, "6, 10, 20 and 40"), many([]int{6, 10, 20, 40}, 2))
	reg("P10", "two-entities-t2", snote, several(3, 2))
	regDeep("P10", "two-entities-t3", snote, several(4, 3))
	note := "one gossiper: all sequences of fragments over valid fragments of every gossiper on two statements, fragments under a wrong name or id, of an unknown signer, unparsable and moved ones; threshold object exactly when t distinct gossipers signed one statement"
	reg("P10", "STH-n3-t2-depth4", note, run(3, 2, 0, 4))
	reg("P10", "ACC-n3-t2-depth4", note, run(3, 2, 2, 4))
	reg("P10", "REV-n3-t2-depth3", note, run(3, 2, 1, 3))
	reg("P10", "STH-n4-t3-depth3", note, run(4, 3, 0, 3))
	reg("P10", "ACC-n4-t3-depth4", note, run(4, 3, 2, 4))
	regDeep("P10", "STH-n4-t3-depth4", note, run(4, 3, 0, 4))
	regDeep("P10", "ACC-n4-t3-depth5", note, run(4, 3, 2, 5))
	regDeep("P10", "REV-n4-t3-depth4", note, run(4, 3, 1, 4))
	regDeep("P10", "STH-n3-t2-depth5", note, run(3, 2, 0, 5))
}

// ---- P28: no split view ----------------------------------------------------------------------------------

// signedBy lists the payloads for which gossiper i sent fragments, per statement identity.
func (x *X) signedBy(n *Net, i int) map[string]map[string]bool {
	out := map[string]map[string]bool{}
	revs := map[string]def.Gossip_object{}
	_ = revs
	for _, m := range x.W.Sent {
		if m.Src != port(n.Go(i)) || !strings.Contains(m.Path, "_frag") || strings.Contains(m.Path, "acc_frag") {
			continue
		}
		var o def.Gossip_object
		if unjson(m.Body, &o) != nil || o.Signer != n.Go(i) {
			continue
		}
		k := o.Period + " " + o.Type + " " + o.Payload[0]
		if out[k] == nil {
			out[k] = map[string]bool{}
		}
		out[k][o.Signature[0]] = true // (BLS signatures are deterministic: one per payload)
	}
	return out
}

func init() {
	run := func(depth int, quickKinds []int) func(e *Env) {
		return func(e *Env) {
			n := NewNet(3, 2, 1, 1)
			e.Explore("history", func(x *X) {
				kind := quickKinds[x.Choose(len(quickKinds), "")]
				g := n.SoloGossiper(x, 0)
				_ = g
				p := Period()
				A, B := n.stmt(kind, p, 0), n.stmt(kind, p, 1)
				t0 := time.Now().Truncate(time.Minute)
				var seq []string
				choices := 7
				for d := 0; d < depth; d++ {
					switch x.Choose(choices, "") {
					case 0:
						seq = append(seq, "A")
						x.Post(n.Go(0), A)
					case 1:
						seq = append(seq, "B")
						x.Post(n.Go(0), B)
					case 2:
						seq = append(seq, "6s")
						x.W.Advance(6 * time.Second)
					case 3:
						seq = append(seq, "rollover")
						t0 = t0.Add(time.Minute)
						x.W.AdvanceTo(t0.Add(-15 * time.Second))
					case 4:
						seq = append(seq, "fragments on B")
						x.Post(n.Go(0), n.Frag(n.Go(1), B))
					case 5:
						seq = append(seq, "threshold object on A")
						x.Post(n.Go(0), n.Full(A, n.Go(1), n.Go(2)))
					case 6:
						seq = append(seq, "20min")
						choices = 6 // the period label comes round again every hour
						x.W.Advance(20 * time.Minute)
						t0 = time.Now().Truncate(time.Minute)
					}
				}
				x.W.Advance(6 * time.Second)
				x.checkCrashes()
				for k, l := range x.signedBy(n, 0) {
					x.Require(len(l) == 1, "signed two statements", "after %v the gossiper signed %d different statements for %s", seq, len(l), k)
				}
				x.Outcome("signed=%d", len(x.signedBy(n, 0)))
			})
		}
	}
	note := "one gossiper: all histories of statement A, conflicting statement B, waiting for the signing time, storage rollovers, 20 minutes passing, peers' fragments and threshold objects: it never signs two statements of one entity for one period (hence with 2t > n + byzantine gossipers no two threshold objects exist)"
	regDeep("P28", "history-5", note, run(5, []int{0}))
	reg("P28", "history-4", note, run(4, []int{0, 1}))
	regDeep("P28", "history-6", note, run(6, []int{0}))
	regDeep("P28", "history-5-REV", note, run(5, []int{1}))
	cl := func(r func(string, string, string, func(*Env)), kind int, ans string, lose, slow int, second string) {
		r("P28", fmt.Sprintf("cluster-%s-%s-lose%d-slow%d%s", stmtName[kind], ans, lose, slow, second), "three pairs, t=2: an entity gives monitors statements as written; all delivery orders with the given numbers of lost messages and overtaking timers; the conflicting statement is offered again after the storage rollover: never fragments of t gossipers on both", func(e *Env) {
			n := NewNet(3, 2, 1, 1)
			e.Explore("period", func(x *X) {
				c, _ := n.period(x, kind, []int{0, 1, 2}, func(i int, p string) (def.Gossip_object, bool) {
					return n.stmt(kind, p, int(ans[i]-'A')&1), ans[i] != '-'
				})
				c.allListening()
				p := PeriodAt(c.T0)
				x.RunDeliveries(DelOpt{
					Until: c.T0.Add(30 * time.Second), Auto: c.T0.Add(12 * time.Second), State: c.hash, Slow: slow, Lose: lose,
					Skip: func(m *vrt.Msg) bool { return isGet(m) || toMonitor(m) || x.dupDelivered(m) },
				})
				x.RunDeliveries(DelOpt{Until: c.T0.Add(45 * time.Second), Auto: c.T0})
				if second != "" {
					x.W.Auto = func(*vrt.Msg) bool { return true }
					for i := 0; i < 3; i++ {
						x.Post(n.Go(i), n.stmt(kind, p, 1))
					}
					x.RunDeliveries(DelOpt{Until: c.T0.Add(55 * time.Second), Auto: c.T0})
				}
				x.checkCrashes()
				by := map[string][]string{}
				for i := 0; i < 3; i++ {
					for k, l := range x.signedBy(n, i) {
						x.Require(len(l) == 1, "signed two statements", "gossiper %s signed %d different statements for %s", n.Go(i), len(l), k)
						for s := range l {
							o := "A"
							if s == n.Frag(n.Go(i), n.stmt(kind, p, 1)).Signature[0] {
								o = "B"
							}
							by[o] = append(by[o], n.Go(i))
						}
					}
				}
				x.Require(len(by["A"]) < n.T || len(by["B"]) < n.T, "split view", "threshold objects on both statements are possible: A signed by %v, B by %v", by["A"], by["B"])
				sort.Strings(by["A"])
				x.Outcome("A=%d B=%d", len(by["A"]), len(by["B"]))
			})
		})
	}
	cl(reg, 0, "AB-", 1, 0, "")
	cl(reg, 0, "A--", 0, 0, "-again")
	cl(regDeep, 0, "AB-", 1, 1, "")
	cl(regDeep, 0, "AAB", 2, 0, "")
	cl(regDeep, 0, "AB-", 0, 2, "-again")
	cl(regDeep, 1, "AB-", 1, 0, "-again")
}
