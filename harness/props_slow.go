package harness

import (
	"encoding/json"
	"fmt"
	"net/http"
	"strings"
	"time"

	def "github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/zzverif/vrt"
)

// Late replies and late messages: what is slow must not spoil what is not.

func init() {
	reg("P01", "late", "running 3 pairs over three periods, t=2 and t=3, every set of >= t running pairs: in each of the periods 1 and 2 the honest entities' replies reach some or all of the monitors d = 0..19 s late and messages between gossipers take 0, 1.5 or 3.5 s, everything arriving before the period's update", func(e *Env) {
		for _, t := range []int{2, 3} {
			n := NewNet(3, t, 1, 1)
			e.Explore(fmt.Sprintf("delays-t%d", t), func(x *X) {
				als := subsets(3, t)
				alive := als[x.Choose(len(als), "")]
				link := []time.Duration{0, 1500, 3500}[x.Choose(3, "")] * time.Millisecond
				max := int((39*time.Second - 5*time.Second - 3*link) / time.Second)
				if max > 19 {
					max = 19
				}
				d := time.Duration(x.Choose(max+1, "")) * time.Second
				all := x.Bool("late everywhere")
				n.late(x, alive, link.String(), func(*vrt.Msg) time.Duration { return link }, d, all, 3)
			})
		}
	})
	reg("P01", "late-links", "3 pairs, t=2 and t=3, over two periods: each of the six links between gossipers takes 0 or 5 s, in all combinations; replies reach one monitor at once and the others at once or 12 s late", func(e *Env) {
		for _, t := range []int{2, 3} {
			n := NewNet(3, t, 1, 1)
			e.Explore(fmt.Sprintf("links-t%d", t), func(x *X) {
				take := map[string]time.Duration{}
				for i := 0; i < n.N; i++ {
					for j := 0; j < n.N; j++ {
						if i != j && x.Bool("slow link") {
							take[port(n.Go(i))+" to "+port(n.Go(j))] = 5 * time.Second
						}
					}
				}
				d := []time.Duration{0, 12}[x.Choose(2, "")] * time.Second
				n.late(x, []int{0, 1, 2}, fmt.Sprint(take), func(m *vrt.Msg) time.Duration { return take[m.Src+" to "+m.Dst] }, d, false, 2)
			})
		}
	})
	kinds := func(n0, t int) func(e *Env) {
		return func(e *Env) {
			n := NewNet(n0, t, 1, 1)
			e.Explore("kinds", func(x *X) {
				take := map[string]time.Duration{}
				for i := 0; i < n.N; i++ {
					for _, k := range []string{"statement", "fragment"} {
						if x.Bool("slow " + k) {
							take[k+" to "+port(n.Go(i))] = 4 * time.Second
						}
					}
				}
				d := []time.Duration{0, 12}[x.Choose(2, "")] * time.Second
				var alive []int
				for i := 0; i < n.N; i++ {
					alive = append(alive, i)
				}
				n.late(x, alive, fmt.Sprint(take), func(m *vrt.Msg) time.Duration {
					if strings.HasSuffix(m.Path, "_frag") {
						return take["fragment to "+m.Dst]
					}
					return take["statement to "+m.Dst]
				}, d, false, 1)
			})
		}
	}
	two := func(t, l, c, periods int) func(e *Env) {
		return func(e *Env) {
			n := NewNet(3, t, l, c)
			e.Explore("two", func(x *X) {
				take := map[string]time.Duration{}
				to := port(n.Go(x.Choose(3, "")))
				for i := 0; i < n.L && n.L > 1; i++ {
					for _, k := range []string{"statement", "fragment"} {
						take[k+" of "+n.Lg(i)] = []time.Duration{0, 4}[x.Choose(2, "")] * time.Second
					}
				}
				for i := 0; i < n.C; i++ {
					for _, k := range []string{"statement", "fragment"} {
						take[k+" of "+n.CA(i)] = []time.Duration{0, 4}[x.Choose(2, "")] * time.Second
					}
				}
				d := []time.Duration{0, 12}[x.Choose(2, "")] * time.Second
				n.late(x, []int{0, 1, 2}, fmt.Sprint(take, " to ", to), func(m *vrt.Msg) time.Duration {
					var o def.Gossip_object
					if m.Dst != to || json.Unmarshal(m.Body, &o) != nil {
						return 0
					}
					k := "statement of "
					if strings.HasSuffix(m.Path, "_frag") {
						k = "fragment of "
					}
					return take[k+o.Payload[0]]
				}, d, false, periods)
			})
		}
	}
	reg("P01", "late-two-CAs", "3 pairs, t=3, two CAs: the statement and the fragments of each take 0 or 4 s to one of the gossipers, in all combinations; replies reach one monitor at once and the others at once or 12 s late", two(3, 1, 2, 1))
	reg("P01", "late-two-CAs-t2", "the same with t=2, over two periods", two(2, 1, 2, 2))
	regDeep("P01", "late-two-each", "the same with t=3, two loggers and two CAs", two(3, 2, 2, 1))
	reg("P01", "late-kinds-3", "3 pairs, t=3: statements (and what is exchanged to get them) and fragments each take 0 or 4 s to each of the gossipers, in all combinations; replies reach one monitor at once and the others at once or 12 s late", kinds(3, 3))
	reg("P01", "late-kinds-4", "the same with 4 pairs, t=3", kinds(4, 3))
	regDeep("P01", "late-kinds-4-t4", "the same with 4 pairs, t=4", kinds(4, 4))
	regDeep("P01", "late-kinds-5", "the same with 5 pairs, t=3", kinds(5, 3))
	reg("P01", "hour", "3 pairs, t=2 and t=3, run for 62 periods, so that the period labels wrap around, with replies 0 or 7 s late: convergence in every period", func(e *Env) {
		for _, t := range []int{2, 3} {
			n := NewNet(3, t, 1, 1)
			e.Explore(fmt.Sprintf("hour-t%d", t), func(x *X) {
				d := []time.Duration{0, 7}[x.Choose(2, "")] * time.Second
				n.late(x, []int{0, 1, 2}, "no time", func(*vrt.Msg) time.Duration { return 0 }, d, x.Bool("late everywhere"), 62)
			})
		}
	})

	reg("P13", "slow-other", "two loggers and two CAs: one of them takes 0, 3, 15, 50, 65 s or for ever to answer, another answers well, or not at all: the others are asked, passed on and accused in time, and so is the one that takes too long, in two periods", func(e *Env) {
		n := NewNet(3, 2, 2, 2)
		ents := []string{n.Lg(0), n.Lg(1), n.CA(0), n.CA(1)}
		e.Explore("replies", func(x *X) {
			slow := ents[x.Choose(4, "")]
			take := []time.Duration{0, 3, 15, 50, 65, 100000}[x.Choose(6, "")] * time.Second
			si := x.Choose(4, "") // the silent one (it may be the slow one: then silent is refused after the time)
			silent := ""
			if x.Bool("one silent") {
				silent = ents[si]
			} else if si > 0 {
				return
			}
			x.Tracef("%s takes %v, %q silent", slow, take, silent)
			type ev struct {
				o  def.Gossip_object
				at time.Time
			}
			var posts []ev
			type q struct {
				id string
				at time.Time
			}
			var queries []q
			x.W.Fault = func(m *vrt.Msg) (*http.Response, error) {
				if !isGet(m) {
					var o def.Gossip_object
					if json.Unmarshal(m.Body, &o) == nil {
						posts = append(posts, ev{o, time.Now()})
					}
					return okResponse(""), nil
				}
				id := "localhost:" + m.Dst
				queries = append(queries, q{id, time.Now()})
				k := 0
				if strings.HasPrefix(m.Dst, "6") {
					k = 1
				}
				p := Period()
				if id == slow && take > 0 {
					vrt.Sleep(take)
				}
				if id == silent {
					return nil, fmt.Errorf("connection refused")
				}
				return okResponse(string(mustJSON(n.stmtOf(id, k, p, 0)))), nil
			}
			c := n.StartCluster(x, nil, []int{0})
			x.W.AdvanceTo(c.T0.Add(100 * time.Millisecond))
			for per := 0; per < 2; per++ {
				from := c.T0.Add(time.Duration(per) * time.Minute)
				x.W.AdvanceTo(from.Add(39 * time.Second))
				x.checkCrashes()
				p := PeriodAt(from)
				for _, id := range ents {
					nq := 0
					var qa time.Time
					for _, q := range queries {
						if q.id == id && !q.at.Before(from.Add(-time.Second)) {
							nq++
							qa = q.at
						}
					}
					x.Require(nq == 1, "not asked", "%s was asked %d times in the first 39 s of period %s, while %s takes %v to answer", id, nq, p, slow, take)
					x.Require(qa.Sub(from) < 5*time.Second, "asked late", "%s was asked %v after the period began, while %s takes %v to answer", id, qa.Sub(from), slow, take)
					extra := time.Duration(0)
					hangs := id == slow && take > 40*time.Second
					if hangs {
						extra = 25 * time.Second // any time that leaves the accusation its way through the gossip
					} else if id == slow {
						extra = take
					}
					st, acc := 0, 0
					for _, v := range posts {
						if v.o.Period != p {
							continue
						}
						if v.o.Type == def.ACC_INIT && v.o.Payload[0] == id {
							acc++
							x.Require(v.at.Sub(qa) < extra+10*time.Second, "accused late", "%s, asked %v after the start of the period, was accused %v later", id, qa.Sub(from), v.at.Sub(qa))
						} else if v.o.Payload[0] == id {
							st++
							x.Require(v.at.Sub(qa) < extra+2*time.Second, "passed on late", "the statement of %s was passed on %v after it was asked for, while %s takes %v to answer", id, v.at.Sub(qa), slow, take)
						}
					}
					ok, bad := 1, 0
					if id == silent || hangs {
						ok, bad = 0, 1
					}
					x.Require(st == ok && acc == bad, "treated otherwise", "%s: statement passed on %d times, accused %d times; %s takes %v to answer, silent: %q", id, st, acc, slow, take, silent)
				}
			}
			x.Outcome("slow=%v silent=%v same=%v", take, silent != "", silent == slow)
		})
	})
}

func init() {
	ways := []string{"refuses the connection", "never answers", "stops in the middle of its answer", "answers after 45 s", "answers after 70 s", "answers with an error"}
	unanswered := func(t int, maxw int) func(e *Env) {
		return func(e *Env) {
			n := NewNet(3, t, 2, 2)
			e.Explore("ways", func(x *X) {
				ent := []string{n.Lg(0), n.CA(0)}[x.Choose(2, "")]
				way := []int{x.Choose(maxw, ""), x.Choose(maxw, ""), x.Choose(maxw, "")}
				x.Tracef("%s towards the monitors: %s; %s; %s", ent, ways[way[0]], ways[way[1]], ways[way[2]])
				x.W.Auto = func(*vrt.Msg) bool { return true }
				x.W.Fault = func(m *vrt.Msg) (*http.Response, error) {
					if !isGet(m) || (m.Dst[0] != '6' && m.Dst[0] != '7') {
						return nil, nil
					}
					id := "localhost:" + m.Dst
					k := 0
					if m.Dst[0] == '6' {
						k = 1
					}
					good := string(mustJSON(n.stmtOf(id, k, Period(), 0)))
					if id != ent {
						vrt.Sleep(time.Second)
						return okResponse(good), nil
					}
					var i int
					fmt.Sscanf(m.Src[1:], "%d", &i)
					r := okResponse(good)
					switch way[i] {
					case 1:
						vrt.Sleep(100000 * time.Second)
					case 2:
						r.Body = m.Stall(good[:len(good)/2])
						return r, nil
					case 3:
						vrt.Sleep(45 * time.Second)
						return r, nil
					case 4:
						vrt.Sleep(70 * time.Second)
						return r, nil
					case 5:
						r = okResponse("not now")
						r.Status, r.StatusCode = "500 Internal Server Error", 500
						return r, nil
					}
					return nil, fmt.Errorf("connection refused")
				}
				c := n.StartCluster(x, []int{0, 1, 2}, []int{0, 1, 2})
				x.W.AdvanceTo(c.T0.Add(50 * time.Second))
				x.checkCrashes()
				for i := 0; i < 3; i++ {
					u, code, ok := x.GetUpdate(n.Mo(i), c.T0.UTC().Minute())
					x.Require(ok, "no update", "no update (%d)", code)
					x.Require(len(u.POM_ACCs) == 1 && u.POM_ACCs[0].Payload[0] == ent && n.trueFull(u.POM_ACCs[0]), "update without accusation", "update of %s carries %d accusation proofs, %s answered no monitor in time (%s; %s; %s)", n.Mo(i), len(u.POM_ACCs), ent, ways[way[0]], ways[way[1]], ways[way[2]])
					x.Require(len(u.STHs)+len(u.REVs) == 3 && len(u.POM_CONs) == 0, "others affected", "update of %s carries %d tree heads, %d revocations; %s alone did not answer", n.Mo(i), len(u.STHs), len(u.REVs), ent)
				}
				x.Outcome("%s", ent)
			})
		}
	}
	for t := 2; t <= 3; t++ {
		reg("P07", fmt.Sprintf("unanswered-t%d", t), "3 pairs, two loggers and two CAs, one of which answers no monitor in time, each in its own way (refuses, never answers, stops in the middle, answers after 45 or 70 s, answers with an error): every update carries the proof against it, and the statements of the others", unanswered(t, len(ways)))
	}
}

// late runs three periods of the alive pairs; replies arrive d late, at all monitors or at all but the first.
func (n *Net) late(x *X, alive []int, link string, travel func(m *vrt.Msg) time.Duration, d time.Duration, all bool, periods int) {
	x.Tracef("alive %v, gossip takes %s, replies %v late, everywhere %v", alive, link, d, all)
	x.W.Auto = func(*vrt.Msg) bool { return true }
	t0 := nextMinute()
	entity := func(kind, j int) string {
		if kind == 0 {
			return n.Lg(j)
		}
		return n.CA(j)
	}
	statement := func(kind, j int, p string) def.Gossip_object {
		if kind == 0 {
			return n.STH(n.Lg(j), p, fmt.Sprint("root", time.Since(t0.Add(-time.Second))/time.Minute), 2)
		}
		var prev []int
		k := int(time.Since(t0.Add(-time.Second)) / time.Minute)
		for i := 0; i < k; i++ {
			prev = append(prev, 3+i, 200+i)
		}
		return n.REV(n.CA(j), p, bits(prev...), bits(3+k, 200+k))
	}
	x.W.Fault = func(m *vrt.Msg) (*http.Response, error) {
		if !isGet(m) {
			if strings.HasPrefix(m.Dst, "9") && strings.HasPrefix(m.Src, "9") {
				vrt.Sleep(travel(m))
			}
			return nil, nil
		}
		kind, j := -1, 0
		for i := 0; i < n.L; i++ {
			if m.Dst == port(n.Lg(i)) {
				kind, j = 0, i
			}
		}
		for i := 0; i < n.C; i++ {
			if m.Dst == port(n.CA(i)) {
				kind, j = 1, i
			}
		}
		if kind < 0 {
			return nil, nil
		}
		p := Period()
		w := time.Duration(0)
		if all || m.Src != port(n.Mo(alive[0])) {
			w = d
		}
		if w < time.Second && p == PeriodAt(t0) {
			w = time.Second // not all pairs listen at once
		}
		vrt.Sleep(w)
		return okResponse(string(mustJSON(statement(kind, j, p)))), nil
	}
	c := n.StartCluster(x, alive, alive)
	for per := 0; per < periods; per++ {
		from := c.T0.Add(time.Duration(per) * time.Minute)
		p := PeriodAt(from)
		check := func(where string, l []def.Gossip_object, kind, j int) {
			var cur []def.Gossip_object
			for _, o := range l {
				if o.Period == p && o.Payload[0] == entity(kind, j) {
					cur = append(cur, o)
				}
			}
			w := strings.Fields(where)[0]
			x.Require(len(cur) == 1, fmt.Sprintf("%s holds %d objects", w, len(cur)), "%s holds %d threshold objects of the %s of %s for period %s (period %d of the run; pairs %v run, gossip takes %s, replies %v late)", where, len(cur), stmtName[kind], entity(kind, j), p, per, alive, link, d)
			g := statement(kind, j, p)
			x.Require(cur[0].Payload == g.Payload && n.trueFull(cur[0]), w+" wrong object", "%s: the threshold object is not one on the statement", where)
		}
		x.W.AdvanceTo(from.Add(39500 * time.Millisecond))
		x.checkCrashes()
		for kind, cnt := range []int{n.L, n.C} {
			for j := 0; j < cnt; j++ {
				for _, i := range alive {
					check("gossiper "+n.Go(i), fullsOf(c.G[i], kind), kind, j)
					check("monitor "+n.Mo(i), monFulls(c.M[i], kind), kind, j)
				}
			}
		}
		x.W.AdvanceTo(from.Add(50 * time.Second))
		for _, i := range alive {
			u, code, ok := x.GetUpdate(n.Mo(i), from.UTC().Minute())
			x.Require(ok, "no update", "monitor %s has no update for the period (status %d)", n.Mo(i), code)
			x.Require(len(u.STHs) == n.L && len(u.REVs) == n.C, "update contents", "update of monitor %s carries %d tree heads and %d revocations of %d loggers and %d CAs", n.Mo(i), len(u.STHs), len(u.REVs), n.L, n.C)
			for j := 0; j < n.L; j++ {
				check("update of "+n.Mo(i), u.STHs, 0, j)
			}
			for j := 0; j < n.C; j++ {
				check("update of "+n.Mo(i), u.REVs, 1, j)
			}
			x.Require(len(u.POM_ACCs)+len(u.POM_CONs) == 0, "update accuses", "update of monitor %s carries proofs against honest entities", n.Mo(i))
		}
	}
	x.Outcome("alive=%v link=%s", alive, link)
}
