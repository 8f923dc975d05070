package harness

import (
	"fmt"
	"net/http"
	"sort"
	"strings"
	"time"

	def "github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/gossiper"
	"github.com/jik18001/CTngV2/monitor"
	"github.com/jik18001/CTngV2/zzverif/vrt"
)

// ---- P11: a gossiper handles requests at the same time as one after the other ------------------

func gossiperLines(g *gossiper.GossiperContext) []string {
	s := g.Gossip_object_storage
	var out []string
	out = append(out, storeLines("STH_INIT", s.STH_INIT)...)
	out = append(out, storeLines("REV_INIT", s.REV_INIT)...)
	out = append(out, storeLines("ACC_INIT", s.ACC_INIT)...)
	out = append(out, storeLines("CON_INIT", s.CON_INIT)...)
	out = append(out, storeLines("STH_FULL", s.STH_FULL)...)
	out = append(out, storeLines("REV_FULL", s.REV_FULL)...)
	out = append(out, storeLines("ACC_FULL", s.ACC_FULL)...)
	for k, m := range []map[def.Gossip_ID][]def.Gossip_object{s.STH_FRAG, s.REV_FRAG, s.ACC_FRAG} {
		for id, l := range m {
			for _, o := range l {
				out = append(out, fmt.Sprintf("FRAG%d[%v] %s", k, id, objLine(o)))
			}
		}
	}
	sort.Strings(out)
	return out
}

// gossiperOps: the alphabet of concurrent operations on gossiper 0 about one entity.
func (n *Net) gossiperOps(g *gossiper.GossiperContext, kind int, p string) map[string]Op {
	G := n.Go(0)
	A, B := n.stmt(kind, p, 0), n.stmt(kind, p, 1)
	acc := n.ACC(n.Mo(0), A.Payload[0], p)
	m := map[string]Op{}
	add := func(o Op) { m[o.Name] = o }
	add(OpObj(G, A, "A"))
	add(OpObj(G, B, "B"))
	add(Op{"A2", OpObj(G, A, "A again").Start})
	for i := 0; i < n.N; i++ {
		add(OpObj(G, n.Frag(n.Go(i), A), fmt.Sprintf("fragA%d", i)))
		add(OpObj(G, n.Frag(n.Go(i), acc), fmt.Sprintf("fragAcc%d", i)))
	}
	if n.L > 1 && n.C > 1 { // another logger or CA
		O := n.stmtOf(n.other(kind), kind, p, 0)
		add(OpObj(G, O, "O"))
		add(OpObj(G, n.Frag(n.Go(1), O), "fragO1"))
		add(OpObj(G, n.Full(O, n.Go(1), n.Go(2)), "fullO"))
	}
	add(OpObj(G, n.Full(A, n.Go(1), n.Go(2)), "fullA"))
	add(OpObj(G, n.Full(A, n.Go(0), n.Go(1)), "fullA'"))
	add(OpObj(G, n.Full(acc, n.Go(1), n.Go(2)), "fullAcc"))
	add(OpObj(G, n.CON(A, B), "con"))
	add(OpObj(G, n.CON(B, A), "con'"))
	add(OpObj(G, acc, "acc"))
	add(OpCall("wipe", G, func() { g.WipeStorage() }))
	add(OpCall("save", G, func() { g.Save() }))
	add(OpCall("timer", G, func() {}))
	return m
}

func (n *Net) gossipLinear(e *Env, kind int, pre []string, names []string, bound int, sends bool, mode int) {
	e.Linear(bound, sends, mode, n.gossipSetup(kind, pre, names))
}

func (n *Net) gossipSetup(kind int, pre, names []string) func(x *X) ([]Op, func() string) {
	return func(x *X) ([]Op, func() string) {
		g := n.SoloGossiper(x, 0)
		p := Period()
		all := n.gossiperOps(g, kind, p)
		ent := n.stmt(kind, p, 0).Payload[0]
		for _, o := range pre {
			if o == "sign" {
				x.W.Advance(6 * time.Second)
				continue
			}
			all[o].Start(x)
			x.W.Quiesce()
		}
		var ops []Op
		for _, o := range names {
			if o == "timer" { // the signing timer of the statement
				x.W.CtlTimers = true
				all["A"].Start(x)
				x.W.Quiesce()
				x.W.AdvanceTo(time.Now().Add(5 * time.Second))
				x.W.CtlTimers = false
				ops = append(ops, OpTimers())
				continue
			}
			ops = append(ops, all[o])
		}
		from := len(x.W.Sent)
		return ops, func() string {
			x.W.Advance(7 * time.Second)
			l := append(gossiperLines(g), x.sentLines(from)...)
			l = append(l, fmt.Sprint("blacklisted ", g.InBlacklist(ent)))
			return strings.Join(l, "\n")
		}
	}
}

func init() {
	n := func() *Net { return NewNet(3, 2, 1, 1) }
	add := func(r func(string, string, string, func(*Env)), kind int, pre, ops string, bound int, sends bool, mode int) {
		nm := fmt.Sprintf("%s-[%s]-%s-b%d", stmtName[kind], pre, strings.Join(strings.Fields(ops), "||"), bound)
		if sends {
			nm += "-sends"
		}
		r("P11", nm, "one gossiper after the messages in brackets: all interleavings of these requests at lock granularity with the given number of preemptions end as some serial order does, without deadlock or crash", func(e *Env) {
			n().gossipLinear(e, kind, strings.Fields(pre), strings.Fields(ops), bound, sends, mode)
		})
	}
	exacts := [][2]string{
		{"", "A B"}, {"", "A A2"}, {"", "con A"}, {"", "fullAcc A"}, {"", "A wipe"}, {"", "A save"}, {"A fragA1", "fragA2 save"}, {"A", "B save"}, {"", "acc save"},
		{"A", "fragA1 fragA2"}, {"A", "fragA1 fragA0"}, {"A fragA1", "fragA2 fragA0"}, {"A", "fragA1 B"}, {"A", "con wipe"},
		{"", "fragAcc1 fragAcc2"}, {"", "timer B"}, {"", "timer wipe"}, {"fragA1", "timer fragA2"}, {"", "timer con"}, {"", "fullA con"}, {"", "con save"},
		{"", "A fragA1"},
	}
	loose := [][2]string{
		{"", "con con'"}, {"", "fullA fullA'"}, {"A fragA1", "fragA2 con"}, {"A fragA1", "fragA2 fullA"}, {"A fragA1", "fragA2 wipe"}, {"fragAcc1", "fragAcc2 acc"}, {"fragAcc1", "fragAcc2 fullAcc"},
		{"fragAcc1", "fragAcc2 wipe"}, {"", "acc wipe"}, {"", "fullAcc con"}, {"fragA1", "timer wipe"}, {"fragAcc1", "acc fragAcc2"}, {"fragA1", "A con"},
	}
	three := [][2]string{
		{"", "A B con"}, {"", "A B save"}, {"A", "fragA0 fragA1 fragA2"}, {"", "fragAcc0 fragAcc1 fragAcc2"}, {"", "A B fullA"}, {"A", "B fragA1 fragA2"}, {"", "A A2 B"}, {"fragA1", "timer fragA2 B"}, {"A fragA1", "fragA2 wipe save"}, {"", "A wipe B"}, {"", "A fragA1 fragA2"},
	}
	m := func(c [2]string) int {
		if strings.Contains(c[1], "wipe") {
			return safe
		}
		return envel
	}
	for kind := 0; kind < 2; kind++ {
		for _, c := range exacts {
			add(reg, kind, c[0], c[1], 2, false, exact)
			add(regDeep, kind, c[0], c[1], 3, false, exact)
		}
		for _, c := range loose {
			add(reg, kind, c[0], c[1], 2, false, m(c))
			add(regDeep, kind, c[0], c[1], 3, false, m(c))
		}
		for _, c := range three {
			add(reg, kind, c[0], c[1], 1, false, m(c))
			add(regDeep, kind, c[0], c[1], 2, false, m(c))
		}
	}
	for _, c := range append(append([][2]string{}, exacts...), loose...) {
		add(regDeep, 0, c[0], c[1], 1, true, m(c))
	}
	pairs := func(kind int) func(e *Env) {
		return func(e *Env) {
			n := NewNet(3, 2, 2, 2)
			e.RacePairs([]string{"A", "O", "fragO1", "fullO", "B", "fragA1", "fragAcc1", "fullA", "fullAcc", "con", "acc", "wipe", "save", "timer"}, func(a, b string) func(x *X) ([]Op, func() string) {
				pre := []string{}
				if strings.HasPrefix(a, "frag") || strings.HasPrefix(b, "frag") {
					pre = []string{"fragA2", "fragAcc2"}
					if kind == 1 && a != "A" && b != "A" { // revocation fragments wait for the payload
						pre = append(pre, "A")
					}
					if kind == 1 && a != "O" && b != "O" {
						pre = append(pre, "O")
					}
				}
				if a == b {
					switch a {
					case "A":
						b = "A2"
					case "fullA":
						b = "fullA'"
					case "con":
						b = "con'"
					}
				}
				return n.gossipSetup(kind, pre, []string{a, b})
			})
		}
	}
	regRace("P11", "race-STH", "race build: all pairs of the operations about a logger run at the same time: no unsynchronised access to a Go map (the runtime kills the process on one)", pairs(0))
	regRace("P11", "race-REV", "race build: the same about a CA", pairs(1))
}

// ---- P12: a monitor handles gossip, queries and its periodic tasks at the same time -----------------

func monitorLines(m *monitor.MonitorContext) []string {
	var out []string
	out = append(out, storeLines("CON", *m.Storage_CONFLICT_POM)...)
	out = append(out, storeLines("ACC", *m.Storage_ACCUSATION_POM)...)
	for ca, b := range m.Storage_CRV {
		out = append(out, fmt.Sprint("CRV ", ca, " ", b.String()))
	}
	sort.Strings(out)
	return out
}

// runTo lets time pass; due timers fire in canonical order, messages are delivered.
func (x *X) runTo(t time.Time) { x.RunDeliveries(DelOpt{Until: t, Auto: t.Add(-time.Hour)}) }

func updateLines(name string, u monitor.ClientUpdate) []string {
	out := []string{fmt.Sprintf("%s period %s of %s", name, u.Period, u.MonitorID)}
	for _, l := range [][]def.Gossip_object{u.STHs, u.REVs, u.POM_CONs, u.POM_ACCs} {
		for _, o := range l {
			out = append(out, name+" "+objLine(o))
		}
	}
	sort.Strings(out)
	return out
}

func (n *Net) monitorLinear(e *Env, pre, names []string, bound, mode int) {
	e.Linear(bound, false, mode, n.monitorSetup(pre, names))
}

func (n *Net) monitorSetup(pre, names []string) func(x *X) ([]Op, func() string) {
	return func(x *X) ([]Op, func() string) {
		reply := map[string]def.Gossip_object{}
		x.W.CtlTimers = true
		m := n.SoloMonitor(x, 0, func(q *vrt.Msg) (*http.Response, error) {
			if o, ok := reply[q.Dst]; ok && q.Method == "GET" {
				return okResponse(string(mustJSON(o))), nil
			}
			return okResponse(""), nil
		})
		m.Monitor_private_config.Logger_URLs, m.Monitor_private_config.CA_URLs = nil, nil
		T0 := time.Now().Truncate(time.Minute)
		p := Period()
		const path = "/monitor/receive-gossip-from-gossiper"
		L, C := n.Lg(0), n.CA(0)
		full := func(o def.Gossip_object) []byte { return mustJSON(n.Full(o, n.Go(1), n.Go(2))) }
		all := map[string]Op{}
		add := func(name string, b []byte) { all[name] = OpPost(name, n.Mo(0), path, b) }
		add("con", mustJSON(n.CON(n.STH(L, p, "r0", 2), n.STH(L, p, "r1", 3))))
		add("con2", mustJSON(n.CON(n.STH(n.Lg(1), p, "r0", 2), n.STH(n.Lg(1), p, "r1", 3))))
		add("conC", mustJSON(n.CON(n.stmt(1, p, 0), n.stmt(1, p, 1))))
		add("acc", full(n.ACC(n.Mo(1), L, p)))
		add("acc2", full(n.ACC(n.Mo(1), n.Lg(1), p)))
		add("sth", full(n.STH(L, p, "r0", 2)))
		add("sth2", full(n.STH(n.Lg(1), p, "r0", 2)))
		add("sthinit", mustJSON(n.STH(L, p, "r0", 2)))
		add("rev", full(n.REV(C, p, bits(), bits(3))))
		add("rev'", mustJSON(n.Full(n.REV(C, p, bits(), bits(3)), n.Go(0), n.Go(1))))
		add("rev2", full(n.REV(n.CA(1), p, bits(), bits(4))))
		add("rev2'", mustJSON(n.Full(n.REV(n.CA(1), p, bits(), bits(4)), n.Go(0), n.Go(1))))
		all["get"] = OpGet("get", n.Mo(0), "/monitor/get-update", mustJSON(fmt.Sprint(T0.UTC().Minute())))
		all["query"] = OpCall("query", n.Mo(0), func() { monitor.QueryLoggers(m); monitor.QueryAuthorities(m) })
		all["accuse"] = OpCall("accuse", n.Mo(0), func() { monitor.AccuseEntity(m, L) })
		reply[port(L)] = n.STH(L, p, "r0", 2)
		reply[port(C)] = n.REV(C, p, bits(), bits(3))
		var ops []Op
		for _, o := range names {
			if o == "query" {
				m.Monitor_private_config.Logger_URLs, m.Monitor_private_config.CA_URLs = []string{L}, []string{C}
			}
		}
		for _, o := range pre {
			all[o].Start(x)
			x.W.Quiesce()
		}
		for _, o := range names {
			switch o {
			case "tick": // the task that makes the update, 20 s before the end of the period
				x.runTo(T0.Add(30 * time.Second))
				x.W.AdvanceTo(T0.Add(42 * time.Second))
				ops = append(ops, Op{"tick", OpTimers().Start})
			case "crv": // revocations take effect 20 s after their arrival
				all["rev"].Start(x)
				x.W.Quiesce()
				all["rev'"].Start(x)
				x.W.Quiesce()
				x.W.Advance(20 * time.Second)
				for _, ev := range x.W.Due() {
					ev := ev
					x.Tracef("due %s", ev.Key)
					if !strings.Contains(ev.Key, " 20s ") {
						continue
					}
					ops = append(ops, Op{"crv", func(x *X) { x.W.Fire(ev) }})
				}
			default:
				ops = append(ops, all[o])
			}
		}
		from := len(x.W.Sent)
		return ops, func() string {
			x.runTo(T0.Add(105 * time.Second))
			var l []string
			in := map[string]int{}
			for k := 0; k < 2; k++ {
				u, _, ok := x.GetUpdate(n.Mo(0), (T0.UTC().Minute()+k)%60)
				l = append(l, fmt.Sprint("update ", k, " ", ok))
				l = append(l, updateLines(fmt.Sprint("update ", k), u)...)
				for _, o := range append(append([]def.Gossip_object{}, u.POM_CONs...), u.POM_ACCs...) {
					in[objLine(o)]++
				}
			}
			for o, c := range in {
				l = append(l, fmt.Sprintf("proof in %d update(s): %s", c, o))
			}
			l = append(l, monitorLines(m)...)
			l = append(l, x.sentLines(from)...)
			return strings.Join(l, "\n")
		}
	}
}

func init() {
	add := func(r func(string, string, string, func(*Env)), pre, ops string, bound, mode int) {
		r("P12", fmt.Sprintf("[%s]-%s-b%d", pre, strings.Join(strings.Fields(ops), "||"), bound), "one monitor after the messages in brackets: all interleavings of these requests and tasks at lock granularity with the given number of preemptions; proofs, statements, revocation vectors and the updates of this and the next period as after some serial order", func(e *Env) {
			NewNet(3, 2, 2, 2).monitorLinear(e, strings.Fields(pre), strings.Fields(ops), bound, mode)
		})
	}
	for _, c := range []struct {
		pre, ops string
		mode     int
	}{
		{"", "tick con", envel}, {"", "tick acc", exact}, {"", "tick sth", envel}, {"", "tick rev", envel}, {"con", "tick con2", exact}, {"acc", "tick acc2", exact},
		{"sth", "tick con", envel}, {"rev", "tick conC", envel}, {"con", "tick get", exact}, {"", "con con2", exact}, {"", "acc acc2", exact}, {"", "acc con", exact}, {"", "sth sth2", exact}, {"", "rev rev2", exact}, {"", "rev rev'", exact},
		{"", "crv", exact}, {"", "crv rev2", exact}, {"", "crv query", exact}, {"", "query con", exact}, {"", "query acc", exact}, {"", "accuse con", exact}, {"", "accuse acc", exact}, {"sth", "con sth2", exact}, {"", "sthinit query", exact}, {"sthinit", "tick sthinit", exact},
	} {
		add(reg, c.pre, c.ops, 2, c.mode)
		add(regDeep, c.pre, c.ops, 3, c.mode)
	}
	for _, ops := range []string{"tick con acc", "tick con2 sth", "con con2 acc", "query con acc", "tick rev con"} {
		add(reg, "", ops, 1, envel)
		add(regDeep, "", ops, 2, envel)
	}
	regRace("P12", "race", "race build: all pairs of the monitor's operations run at the same time: no unsynchronised access to a Go map", func(e *Env) {
		n := NewNet(3, 2, 2, 2)
		e.RacePairs([]string{"con", "acc", "sth", "sthinit", "rev", "get", "query", "accuse", "tick", "crv"}, func(a, b string) func(x *X) ([]Op, func() string) {
			if a == b {
				b += "2"
				if a == "crv" || a == "tick" || a == "get" || a == "query" || a == "accuse" || a == "sthinit" {
					b = "con"
				}
			}
			return n.monitorSetup(nil, []string{a, b})
		})
	})
}
