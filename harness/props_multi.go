package harness

import (
	"encoding/json"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"time"

	"github.com/jik18001/CTngV2/client"
	def "github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/zzverif/vrt"
)

// Several entities misbehave, at once or one after the other: nobody's proof hides another's.

const (
	well = iota
	silent
	split
)

var behName = []string{"answers", "is silent", "shows two statements"}

// multi runs periods of a deployment; an entity that still behaves
// does in each period one of behs. One period more shows what remains.
func (n *Net) multi(x *X, alive []int, behs []int, periods int, clients bool) {
	var ents []string
	for i := 0; i < n.L; i++ {
		ents = append(ents, n.Lg(i))
	}
	for i := 0; i < n.C; i++ {
		ents = append(ents, n.CA(i))
	}
	kindOf := func(e int) int {
		if e < n.L {
			return 0
		}
		return 1
	}
	beh := make([][]int, periods+1)
	ever := make([]int, len(ents)) // how it was caught
	for k := range beh {
		beh[k] = make([]int, len(ents))
		next := func(e int) int { return behs[x.Choose(len(behs), "")] }
		if len(ents) > 4 && k < periods { // too many for all combinations
			who, a, b := x.Choose(6, ""), behs[x.Choose(len(behs), "")], behs[x.Choose(len(behs), "")]
			next = func(e int) int {
				if []bool{e == 0, e == len(ents)-1, e < n.L, e%2 == 0, e < n.L-1, e == n.L-1}[who] {
					return a
				}
				return b
			}
		}
		for e := range ents {
			if k < periods && ever[e] == well {
				beh[k][e] = next(e)
				ever[e] = beh[k][e]
			}
		}
	}
	x.Tracef("alive %v, behaviour of %v by period: %v (0 well, 1 silent, 2 two statements)", alive, ents, beh)
	t0 := nextMinute()
	per := func() int { return int(time.Since(t0.Add(-time.Second)) / time.Minute) }
	statement := func(e, k, v int) def.Gossip_object {
		p := PeriodAt(t0.Add(time.Duration(k) * time.Minute))
		if kindOf(e) == 0 {
			return n.STH(ents[e], p, fmt.Sprint("root", e, k, v), 2)
		}
		var prev []int
		for i := 0; i < k; i++ {
			prev = append(prev, 10*i+3, 10*i+4)
		}
		return n.REV(ents[e], p, bits(prev...), bits(10*k+3, 10*k+4+v))
	}
	queries := map[string]int{}
	x.W.Auto = func(*vrt.Msg) bool { return true }
	x.W.Fault = func(m *vrt.Msg) (*http.Response, error) {
		if !isGet(m) || m.Src[0] != '8' {
			return nil, nil
		}
		k := per()
		for e, id := range ents {
			if m.Dst != port(id) {
				continue
			}
			queries[fmt.Sprint(k, m.Src, id)]++
			v := 0
			switch beh[k][e] {
			case silent:
				return nil, fmt.Errorf("connection refused")
			case split:
				var i int
				fmt.Sscanf(m.Src[1:], "%d", &i)
				if i == alive[e%len(alive)] {
					v = 1
				}
			}
			vrt.Sleep(time.Second)
			return okResponse(string(mustJSON(statement(e, k, v)))), nil
		}
		return nil, fmt.Errorf("connection refused")
	}
	c := n.StartCluster(x, alive, alive)
	cls := map[int]*client.ClientContext{}
	if clients {
		for _, i := range alive {
			cls[i] = n.ClientIn(x, fmt.Sprintf("%s/client%d", x.Scratch(), i), "NEW")
		}
	}
	caught := make([]int, len(ents))
	for k := 0; k <= periods; k++ {
		from := c.T0.Add(time.Duration(k) * time.Minute)
		x.W.AdvanceTo(from.Add(50 * time.Second))
		x.checkCrashes()
		before := append([]int{}, caught...)
		var stmts, accs, cons []string
		for e, id := range ents {
			if before[e] != well {
				continue
			}
			caught[e] = beh[k][e]
			switch beh[k][e] {
			case well:
				stmts = append(stmts, id)
			case silent:
				accs = append(accs, id)
			case split:
				cons = append(cons, id)
			}
		}
		what := fmt.Sprintf("period %d; %v did %v by period", k, ents, beh[:k+1])
		for _, i := range alive {
			for e, id := range ents {
				x.Require(c.G[i].InBlacklist(id) == (caught[e] != well), "blacklist", "gossiper %s blacklists %s: %v (%s)", n.Go(i), id, c.G[i].InBlacklist(id), what)
				q := queries[fmt.Sprint(k, port(n.Mo(i)), id)]
				if before[e] == split {
					x.Require(q == 0, "proven entity queried", "%s was queried by %s after it had been proven to show two statements (%s)", id, n.Mo(i), what)
				}
				if before[e] == well {
					x.Require(q == 1, "not queried", "%s was queried %d times by %s (%s)", id, q, n.Mo(i), what)
				}
			}
			u, code, ok := x.GetUpdate(n.Mo(i), from.UTC().Minute())
			x.Require(ok, "no update", "no update (%d)", code)
			lists := [][]def.Gossip_object{append(append([]def.Gossip_object{}, u.STHs...), u.REVs...), u.POM_ACCs, u.POM_CONs}
			for l, want := range [][]string{stmts, accs, cons} {
				var got []string
				for _, o := range lists[l] {
					got = append(got, o.Payload[0])
					for e, id := range ents {
						if o.Payload[0] != id {
							continue
						}
						switch l {
						case 0:
							x.Require(o.Payload == statement(e, k, 0).Payload && n.trueFull(o), "wrong statement", "update of %s: %s is not the statement of %s for the period", n.Mo(i), desc(o), id)
						case 1:
							x.Require(n.trueFull(o), "accusation not signed", "update of %s: %s", n.Mo(i), desc(o))
						case 2:
							x.Require(n.trueCON(o, statement(e, k, 0), statement(e, k, 1)), "unsound proof", "update of %s: the proof does not hold the two statements of %s", n.Mo(i), id)
						}
					}
				}
				sort.Strings(got)
				sort.Strings(want)
				name := []string{"statements of", "accusations of", "conflict proofs against"}[l]
				x.Require(strings.Join(got, " ") == strings.Join(want, " "), "update "+name, "update of %s carries %s %v, expected %v (%s)", n.Mo(i), name, got, want, what)
			}
			if clients {
				cl := cls[i]
				x.Require(cl.HandleUpdate(u, true, k == 0), "update rejected", "client %d rejects the update (%s)", i, what)
				for e, id := range ents {
					pom, ok := cl.POM_database[id]
					x.Require(ok == (caught[e] != well), "client's proofs", "client %d holds a proof against %s: %v (%s)", i, id, ok, what)
					if ok {
						x.Require(pom.Type == []string{"", def.ACC_FULL, def.CON_INIT}[caught[e]], "kind of proof", "client %d: proof against %s is of type %s (%s)", i, id, pom.Type, what)
					}
					if caught[e] != well {
						continue
					}
					if kindOf(e) == 0 {
						s, _ := sthOf(statement(e, k, 0))
						x.Require(cl.STH_database[id+"@"+PeriodAt(from)] == s.RootHash, "client's tree heads", "client %d lacks the tree head of %s (%s)", i, id, what)
					} else {
						x.Require(len(setBits(cl.CRV_database[id])) == 2*(k+1), "client's revocations", "client %d takes %v of %s for revoked (%s)", i, setBits(cl.CRV_database[id]), id, what)
					}
				}
			}
		}
	}
	x.Outcome("%v", ever)
}

func init() {
	run := func(t int, alive []int, behs []int, periods int, clients bool) func(e *Env) {
		return func(e *Env) {
			n := NewNet(3, t, 2, 2)
			e.Explore("histories", func(x *X) { n.multi(x, alive, behs, periods, clients) })
		}
	}
	// many runs deployments of many pairs, all or threshold of them running, for two periods
	many := func(sizes []int, beh int, clients bool) func(e *Env) {
		return func(e *Env) {
			for _, np := range sizes {
				for _, t := range []int{2, np/2 + 1, np} {
					n := NewNet(np, t, 2, 2)
					e.Explore("deployments", func(x *X) {
						var alive []int
						from, to := 0, np
						if t < np {
							switch x.Choose(3, "") {
							case 1:
								to = t
							case 2:
								from = np - t
							}
						}
						for i := from; i < to; i++ {
							alive = append(alive, i)
						}
						x.Tracef("%d pairs, threshold %d, running %v", np, t, alive)
						n.multi(x, alive, []int{beh}, 1, clients)
					})
				}
			}
		}
	}
	// entities runs deployments of two pairs with many loggers and CAs
	entities := func(l, c int, behs []int, periods int, clients bool) func(e *Env) {
		return func(e *Env) {
			n := NewNet(2, 2, l, c)
			e.Explore("deployments", func(x *X) { n.multi(x, []int{0, 1}, behs, periods, clients) })
		}
	}
	enote := "two pairs, nine loggers and eight CAs%s: the first, the last, the last logger, every second one, all loggers or all loggers but the last do the one thing, the others the other: %s"
	reg("P01", "many-entities", "two pairs, nine loggers and eight CAs, two periods: every update carries exactly all statements", func(e *Env) {
		n := NewNet(2, 2, 9, 8)
		e.Explore("deployments", func(x *X) { n.multi(x, []int{0, 1}, []int{well}, 0, false) })
		n = NewNet(2, 2, 1, 21)
		e.Explore("many CAs", func(x *X) { n.multi(x, []int{0, 1}, []int{well}, 0, false) })
		n = NewNet(2, 2, 21, 1)
		e.Explore("many loggers", func(x *X) { n.multi(x, []int{0, 1}, []int{well}, 0, false) })
	})
	reg("P05", "many-entities", fmt.Sprintf(enote, " that answer or show two statements", "exactly those that show two are proven everywhere"), entities(9, 8, []int{well, split}, 1, false))
	reg("P07", "many-entities", fmt.Sprintf(enote, " that answer or are silent", "exactly the silent ones are accused everywhere"), entities(9, 8, []int{well, silent}, 1, false))
	reg("P08", "many-entities", fmt.Sprintf(enote, " that answer, are silent or show two statements", "the misbehaving ones stay excluded, the others do not"), entities(9, 8, []int{well, silent, split}, 1, false))
	reg("P13", "many-entities", fmt.Sprintf(enote, " that answer or are silent", "every one is asked, passed on or accused"), entities(9, 8, []int{well, silent}, 1, false))
	reg("P14", "many-entities", fmt.Sprintf(enote, " that answer, are silent or show two statements", "every update has exactly the statements, accusations and proofs of its period"), entities(9, 8, []int{well, silent, split}, 1, false))
	reg("P29", "many-entities", fmt.Sprintf(enote, " that answer, are silent or show two statements, and clients", "every client holds the right proof against each misbehaving one, and takes over the statements of the others"), entities(9, 8, []int{well, silent, split}, 1, true))
	reg("P01", "many-pairs", "5, 7 and 10 pairs, lowest, middle and highest threshold, all of them or the first or last threshold running, two loggers and two CAs, two periods: every update carries exactly all statements", many([]int{5, 7, 10}, well, false))
	reg("P05", "many-pairs", "the same with two statements of each logger and CA: everyone is proven at every running pair", many([]int{5, 7, 10}, split, false))
	reg("P07", "many-pairs", "the same with silent loggers and CAs: everyone is accused at every running pair", many([]int{5, 7, 10}, silent, false))
	regDeep("P01", "more-pairs", "the same with 12, 16 and 24 pairs", many([]int{12, 16, 24}, well, true))
	regDeep("P05", "more-pairs", "the same with 12, 16 and 24 pairs", many([]int{12, 16, 24}, split, true))
	regDeep("P07", "more-pairs", "the same with 12, 16 and 24 pairs", many([]int{12, 16, 24}, silent, true))
	all := []int{0, 1, 2}
	reg("P05", "several", "3 pairs, two loggers and two CAs: every set of them that shows two statements in the first and in the second period: all of them are blacklisted by every gossiper and proven in every update, and the others' statements are in it", run(2, all, []int{well, split}, 2, false))
	reg("P07", "several", "3 pairs, two loggers and two CAs: every set of them that is silent in the first and in the second period: all of them are blacklisted by every gossiper and accused in every update, and nobody else", run(2, all, []int{well, silent}, 2, false))
	reg("P07", "several-t3", "the same with threshold 3", run(3, all, []int{well, silent}, 2, false))
	regDeep("P07", "several-3", "the same for three periods", run(2, all, []int{well, silent}, 3, false))
	regDeep("P05", "several-3", "the same for three periods, two pairs running", run(2, all[1:], []int{well, split}, 3, false))
	reg("P08", "several", "3 pairs, two loggers and two CAs, three periods: every set of them that is silent or shows two statements in the first, and of the rest in the second period: every one is excluded from then on, and nobody else", run(2, all, []int{well, silent, split}, 2, false))
	reg("P29", "several", "3 pairs, two loggers and two CAs, clients: every set of them that is silent or shows two statements in the first period: every client holds the right proof against each, and takes over the statements of the others", run(2, all, []int{well, silent, split}, 1, true))
	regDeep("P29", "several-2", "the same for two periods of misbehaviour", run(2, all, []int{well, silent, split}, 2, true))
}

// two entities give a monitor bad replies in the same period
func init() {
	pairs := func(ka, kb int) func(e *Env) {
		return func(e *Env) {
			n := NewNet(3, 2, 2, 2)
			e.Explore("replies", func(x *X) {
				ents := [2]string{n.ent(ka), n.ent(kb)}
				kinds := [2][]replyKind{replyKinds(), replyKinds()}
				for i, k := range []int{ka, kb} {
					if k == 1 {
						kinds[i] = append(kinds[i], revKinds()...)
					}
				}
				if ka == kb { // to the second, the replies with another entity's statement are its own
					ents[1] = n.other(kb)
					var l []replyKind
					for _, r := range kinds[1] {
						if !strings.Contains(r.name, "another") {
							l = append(l, r)
						}
					}
					kinds[1] = l
				}
				r := [2]int{x.Choose(len(kinds[0]), ""), x.Choose(len(kinds[1]), "")}
				first := x.Choose(2, "") // who answers first
				x.Tracef("%s: %s; %s: %s; first %d", ents[0], kinds[0][r[0]].name, ents[1], kinds[1][r[1]].name, first)
				var posts []def.Gossip_object
				x.W.Fault = func(m *vrt.Msg) (*http.Response, error) {
					if !isGet(m) {
						var o def.Gossip_object
						if json.Unmarshal(m.Body, &o) == nil {
							posts = append(posts, o)
						}
						return okResponse(""), nil
					}
					id, k := "localhost:"+m.Dst, 0
					if m.Dst[0] == '6' {
						k = 1
					}
					p := Period()
					good := n.stmtOf(id, k, p, 0)
					for i, e := range ents {
						if id == e {
							if i != first {
								vrt.Sleep(500 * time.Millisecond)
							}
							return kinds[i][r[i]].f(n, k, id, p, good)
						}
					}
					return okResponse(string(mustJSON(good))), nil
				}
				c := n.StartCluster(x, nil, []int{0})
				x.W.AdvanceTo(c.T0.Add(30 * time.Second))
				x.checkCrashes()
				p := PeriodAt(c.T0)
				for k, l := range [][]string{{n.Lg(0), n.Lg(1)}, {n.CA(0), n.CA(1)}} {
					for _, id := range l {
						ok := true
						for i, e := range ents {
							if e == id {
								ok = kinds[i][r[i]].ok
							}
						}
						st, acc := 0, 0
						g := n.stmtOf(id, k, p, 0)
						for _, o := range posts {
							switch {
							case o.Payload[0] != id:
							case o.Type == def.ACC_INIT:
								acc++
							default:
								x.Require(o.Payload == g.Payload && o.Signature == g.Signature && o.Period == p && o.Signer == id, "wrong statement passed on", "passed on as the statement of %s: %s", id, desc(o))
								st++
							}
						}
						want := [2]int{0, 1}
						if ok {
							want = [2]int{1, 0}
						}
						x.Require([2]int{st, acc} == want, "treated otherwise", "%s: statement passed on %d times, accused %d times, expected %v; %s replied: %s; %s replied: %s", id, st, acc, want, ents[0], kinds[0][r[0]].name, ents[1], kinds[1][r[1]].name)
					}
				}
				x.Outcome("%v %v", kinds[0][r[0]].ok, kinds[1][r[1]].ok)
			})
		}
	}
	reg("P13", "two-mixed", "one monitor, two loggers and two CAs: every pair of replies of a logger and a CA, either first: each is passed on or accused as if it were alone", pairs(0, 1))
	reg("P13", "two-loggers", "the same for the two loggers", pairs(0, 0))
	regDeep("P13", "two-CAs", "the same for the two CAs", pairs(1, 1))
}
