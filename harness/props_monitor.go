package harness

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strings"
	"time"

	def "github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/monitor"
	"github.com/jik18001/CTngV2/zzverif/vrt"
)

// ---- P13: a monitor passes statements on or accuses ------------------------------------

type replyKind struct {
	name string
	ok   bool // the reply is the entity's statement for the period
	f    func(n *Net, kind int, ent, p string, good def.Gossip_object) (*http.Response, error)
}

type brokenBody struct{ r io.Reader }

func (b brokenBody) Read(p []byte) (int, error) {
	k, err := b.r.Read(p)
	if err == io.EOF {
		err = errors.New("connection reset by peer")
	}
	return k, err
}
func (b brokenBody) Close() error { return nil }

func minute(p string, d int) string {
	var i int
	fmt.Sscanf(p, "%d", &i)
	return fmt.Sprintf("%02d", (i+d+60)%60)
}

// other is a second entity of the same kind.
func (n *Net) other(kind int) string { return []string{n.Lg(1), n.CA(1)}[kind] }
func (n *Net) ent(kind int) string   { return []string{n.Lg(0), n.CA(0)}[kind] }

func (n *Net) stmtOf(id string, kind int, period string, v int) def.Gossip_object {
	if kind == 0 {
		return n.STH(id, period, fmt.Sprint("root", v), 2+v)
	}
	return n.REV(id, period, bits(), bits(3, 7+v))
}

func replyKinds() []replyKind {
	obj := func(name string, f func(n *Net, kind int, ent, p string, g def.Gossip_object) def.Gossip_object) replyKind {
		return replyKind{name, false, func(n *Net, kind int, ent, p string, g def.Gossip_object) (*http.Response, error) {
			return okResponse(string(mustJSON(f(n, kind, ent, p, g)))), nil
		}}
	}
	raw := func(name, body string) replyKind {
		return replyKind{name, false, func(*Net, int, string, string, def.Gossip_object) (*http.Response, error) {
			return okResponse(body), nil
		}}
	}
	l := []replyKind{
		{"its statement", true, func(n *Net, kind int, ent, p string, g def.Gossip_object) (*http.Response, error) {
			return okResponse(string(mustJSON(g))), nil
		}},
		{"connection refused", false, func(*Net, int, string, string, def.Gossip_object) (*http.Response, error) {
			return nil, errors.New("connection refused")
		}},
		{"connection breaks in the body", false, func(n *Net, kind int, ent, p string, g def.Gossip_object) (*http.Response, error) {
			b := string(mustJSON(g))
			r := okResponse("")
			r.Body, r.ContentLength = brokenBody{strings.NewReader(b[:len(b)/2])}, int64(len(b))
			return r, nil
		}},
		raw("nothing", ""), raw("not JSON", "<html>404</html>"), raw("null", "null"), raw("an empty object", "{}"), raw("a list", "[]"), raw("a string", "\"x\""),
		{"a truncated statement", false, func(n *Net, kind int, ent, p string, g def.Gossip_object) (*http.Response, error) {
			b := string(mustJSON(g))
			return okResponse(b[:len(b)-2]), nil
		}},
		obj("the previous period's statement", func(n *Net, kind int, ent, p string, g def.Gossip_object) def.Gossip_object {
			return n.stmtOf(ent, kind, minute(p, -1), 0)
		}),
		obj("the next period's statement", func(n *Net, kind int, ent, p string, g def.Gossip_object) def.Gossip_object {
			return n.stmtOf(ent, kind, minute(p, 1), 0)
		}),
		obj("the previous period's statement relabelled", func(n *Net, kind int, ent, p string, g def.Gossip_object) def.Gossip_object {
			o := n.stmtOf(ent, kind, minute(p, -1), 0)
			o.Period = p
			return o
		}),
		obj("another entity's statement", func(n *Net, kind int, ent, p string, g def.Gossip_object) def.Gossip_object {
			return n.stmtOf(n.other(kind), kind, p, 0)
		}),
		obj("another entity's statement in its own name", func(n *Net, kind int, ent, p string, g def.Gossip_object) def.Gossip_object {
			o := n.stmtOf(n.other(kind), kind, p, 0)
			o.Signer = ent
			return o
		}),
		obj("its statement with another content", func(n *Net, kind int, ent, p string, g def.Gossip_object) def.Gossip_object {
			o := n.stmtOf(ent, kind, p, 1)
			o.Signature = g.Signature
			return o
		}),
		obj("its statement signed by another entity", func(n *Net, kind int, ent, p string, g def.Gossip_object) def.Gossip_object {
			return resign(n, g, n.other(kind), n.other(kind))
		}),
		obj("its statement signed by another entity under its name", func(n *Net, kind int, ent, p string, g def.Gossip_object) def.Gossip_object {
			return resign(n, g, n.other(kind), ent)
		}),
		obj("its statement without signature", func(n *Net, kind int, ent, p string, g def.Gossip_object) def.Gossip_object {
			g.Signature = [2]string{}
			return g
		}),
		obj("a statement of the other kind", func(n *Net, kind int, ent, p string, g def.Gossip_object) def.Gossip_object {
			return n.stmtOf(n.ent(1-kind), 1-kind, p, 0)
		}),
		obj("its statement typed as the other kind", func(n *Net, kind int, ent, p string, g def.Gossip_object) def.Gossip_object {
			g.Type = []string{def.REV_INIT, def.STH_INIT}[kind]
			return g
		}),
		obj("a fragment on its statement", func(n *Net, kind int, ent, p string, g def.Gossip_object) def.Gossip_object {
			return n.Frag(n.Go(1), g)
		}),
		obj("a threshold object on its statement", func(n *Net, kind int, ent, p string, g def.Gossip_object) def.Gossip_object {
			return n.Full(g, n.Go(1), n.Go(2))
		}),
		obj("a valid accusation of another entity", func(n *Net, kind int, ent, p string, g def.Gossip_object) def.Gossip_object {
			return n.ACC(n.Mo(1), n.other(kind), p)
		}),
		obj("a threshold accusation of another entity", func(n *Net, kind int, ent, p string, g def.Gossip_object) def.Gossip_object {
			return n.Full(n.ACC(n.Mo(1), n.other(kind), p), n.Go(1), n.Go(2))
		}),
		obj("a conflict proof against another entity", func(n *Net, kind int, ent, p string, g def.Gossip_object) def.Gossip_object {
			return n.CON(n.stmtOf(n.other(kind), kind, p, 0), n.stmtOf(n.other(kind), kind, p, 1))
		}),
	}
	return l
}

// revKinds: statements a CA signed whose revocation data do not fit.
func revKinds() []replyKind {
	mk := func(name string, f func(n *Net, ent, p string) def.Gossip_object) replyKind {
		return replyKind{name, false, func(n *Net, kind int, ent, p string, g def.Gossip_object) (*http.Response, error) {
			return okResponse(string(mustJSON(f(n, ent, p)))), nil
		}}
	}
	part := func(o def.Gossip_object) def.Revocation {
		var r def.Revocation
		json.Unmarshal([]byte(o.Payload[2]), &r)
		return r
	}
	return []replyKind{
		mk("its revocations with the head of another delta", func(n *Net, ent, p string) def.Gossip_object {
			return n.revRaw(ent, p, part(n.stmtOf(ent, 1, p, 0)).Delta_CRV, part(n.stmtOf(ent, 1, p, 1)).SRH)
		}),
		mk("its revocations with the head of another period", func(n *Net, ent, p string) def.Gossip_object {
			return n.revRaw(ent, p, part(n.stmtOf(ent, 1, p, 0)).Delta_CRV, part(n.stmtOf(ent, 1, minute(p, -1), 0)).SRH)
		}),
		mk("its revocations with another CA's head", func(n *Net, ent, p string) def.Gossip_object {
			return n.revRaw(ent, p, part(n.stmtOf(ent, 1, p, 0)).Delta_CRV, part(n.stmtOf(n.CA(1), 1, p, 0)).SRH)
		}),
		mk("its revocations with an unparsable head", func(n *Net, ent, p string) def.Gossip_object {
			return n.revRaw(ent, p, part(n.stmtOf(ent, 1, p, 0)).Delta_CRV, "x")
		}),
		mk("an unpackable delta", func(n *Net, ent, p string) def.Gossip_object {
			return n.revRaw(ent, p, []byte("xyz"), part(n.stmtOf(ent, 1, p, 0)).SRH)
		}),
		mk("no delta", func(n *Net, ent, p string) def.Gossip_object {
			return n.revRaw(ent, p, nil, part(n.stmtOf(ent, 1, p, 0)).SRH)
		}),
		mk("revocations relative to a state nobody has", func(n *Net, ent, p string) def.Gossip_object {
			return n.REV(ent, p, bits(77), bits(3))
		}),
	}
}

// monPeriod is what the environment of one monitor does in one period.
func init() {
	type heard struct {
		name  string
		at    time.Duration // after the query
		f     func(n *Net, kind int, ent, p string, g def.Gossip_object) def.Gossip_object
		spare bool // no accusation then
	}
	good := func(n *Net, kind int, ent, p string, g def.Gossip_object) def.Gossip_object { return g }
	hs := []heard{
		{name: "nothing"},
		{"its statement at once", 100 * time.Millisecond, good, true},
		{"its statement just in time", 4900 * time.Millisecond, good, true},
		{"its statement too late", 5100 * time.Millisecond, good, false},
		{"another statement of it", time.Second, func(n *Net, kind int, ent, p string, g def.Gossip_object) def.Gossip_object {
			return n.stmtOf(ent, kind, p, 5)
		}, true},
		{"a forged statement", time.Second, func(n *Net, kind int, ent, p string, g def.Gossip_object) def.Gossip_object {
			return resign(n, g, n.other(kind), ent)
		}, false},
		{"another entity's statement", time.Second, func(n *Net, kind int, ent, p string, g def.Gossip_object) def.Gossip_object {
			return n.stmtOf(n.other(kind), kind, p, 0)
		}, false},
		{"its statement of the previous period", time.Second, func(n *Net, kind int, ent, p string, g def.Gossip_object) def.Gossip_object {
			return n.stmtOf(ent, kind, minute(p, -1), 0)
		}, false},
		{"a conflict proof against it", time.Second, func(n *Net, kind int, ent, p string, g def.Gossip_object) def.Gossip_object {
			return n.CON(n.stmtOf(ent, kind, p, 0), n.stmtOf(ent, kind, p, 5))
		}, true},
		{"a threshold accusation of it", time.Second, func(n *Net, kind int, ent, p string, g def.Gossip_object) def.Gossip_object {
			return n.Full(n.ACC(n.Mo(1), ent, p), n.Go(1), n.Go(2))
		}, true},
		{"a conflict proof against another entity", time.Second, func(n *Net, kind int, ent, p string, g def.Gossip_object) def.Gossip_object {
			return n.CON(n.stmtOf(n.other(kind), kind, p, 0), n.stmtOf(n.other(kind), kind, p, 5))
		}, false},
		{"an accusation of it by one monitor", time.Second, func(n *Net, kind int, ent, p string, g def.Gossip_object) def.Gossip_object {
			return n.ACC(n.Mo(1), ent, p)
		}, false},
		{"an accusation object with one signature", time.Second, func(n *Net, kind int, ent, p string, g def.Gossip_object) def.Gossip_object {
			return n.Full(n.ACC(n.Mo(1), ent, p), n.Go(1))
		}, false},
	}
	run := func(kind int, kinds []replyKind, second, later bool) func(e *Env) {
		return func(e *Env) {
			n := NewNet(3, 2, 2, 2)
			e.Explore("replies", func(x *X) {
				ri, hi, ri2, slow := 0, 0, -1, false
				if later { // first all is well
					ri2 = x.Choose(len(kinds), "")
				} else {
					ri = x.Choose(len(kinds), "")
					hi = x.Choose(len(hs), "")
					slow = x.Choose(2, "") == 1
					if second {
						ri2 = []int{0, 1}[x.Choose(2, "")]
					}
				}
				rk, h := kinds[ri], hs[hi]
				x.Tracef("reply %s, heard %s, slow %v, then %d", rk.name, h.name, slow, ri2)
				ent := n.ent(kind)
				var prevREV = bits()
				statement := func(id string, k int, p string) def.Gossip_object {
					if k == 1 && id == ent {
						return n.REV(id, p, prevREV, bits(3, 7))
					}
					return n.stmtOf(id, k, p, 0)
				}
				queries := map[string]int{}
				var posts []def.Gossip_object
				var postAt []time.Time
				cur := ri
				x.W.Fault = func(m *vrt.Msg) (*http.Response, error) {
					if !isGet(m) {
						if m.Dst != port(n.Go(0)) {
							x.Report("sent elsewhere", "the monitor sent %s to %s", m.Path, m.Dst)
						}
						var o def.Gossip_object
						if json.Unmarshal(m.Body, &o) == nil {
							if gossipPath[o.Type] != m.Path {
								x.Report("wrong endpoint", "%s sent to %s", def.TypeString(o.Type), m.Path)
							}
							posts = append(posts, o)
							postAt = append(postAt, time.Now())
						}
						return okResponse(""), nil
					}
					id := "localhost:" + m.Dst
					queries[id]++
					k := 0
					if strings.HasPrefix(m.Dst, "6") {
						k = 1
					}
					want := []string{"get-sth", "get-revocation"}[k]
					if !strings.Contains(m.Path, want) {
						x.Report("wrong query", "%s asked for %s", id, m.Path)
					}
					p := Period()
					if id != ent {
						return okResponse(string(mustJSON(n.stmtOf(id, k, p, 0)))), nil
					}
					if slow {
						vrt.Sleep(3 * time.Second)
					}
					return kinds[cur].f(n, kind, ent, p, statement(ent, kind, p))
				}
				c := n.StartCluster(x, nil, []int{0}) // queries follow the start at once
				m := c.M[0]
				_ = m
				t0 := c.T0.Add(100 * time.Millisecond)
				x.W.AdvanceTo(t0)
				for len(queries) == 0 && time.Since(c.T0) < 5*time.Second {
					x.W.Advance(50 * time.Millisecond)
				}
				q0 := time.Now()
				p := Period()
				replyAt := q0
				if slow {
					replyAt = q0.Add(3 * time.Second)
				}
				if h.f != nil {
					x.W.AdvanceTo(replyAt.Add(h.at).Add(-60 * time.Millisecond))
					x.PostMonitor(n.Mo(0), h.f(n, kind, ent, p, statement(ent, kind, p)))
				}
				x.W.AdvanceTo(c.T0.Add(30 * time.Second))
				x.checkCrashes()
				judge := func(ok, spare bool, p string) {
					var st, acc int
					for i, o := range posts {
						if o.Payload[0] != ent && o.Type != def.ACC_INIT {
							continue
						}
						switch o.Type {
						case def.ACC_INIT:
							x.Require(o.Payload[0] == ent, "accuses another", "the monitor accused %s, which had answered", o.Payload[0])
							w := n.ACC(n.Mo(0), ent, p)
							x.Require(o.Payload == w.Payload && o.Signature == w.Signature && o.Signer == w.Signer && o.Period == w.Period, "invalid accusation", "the accusation is not one by the monitor for the period: %s", desc(o))
							if d := postAt[i].Sub(replyAt); ri2 < 0 && d < 4500*time.Millisecond {
								x.Violate("accuses too early", "accused %v after the failed query", d)
							}
							acc++
						case def.STH_INIT, def.REV_INIT:
							g := statement(ent, kind, p)
							x.Require(ok && o.Type == g.Type && o.Payload == g.Payload && o.Signature == g.Signature && o.Period == p && o.Signer == ent, "wrong statement passed on", "passed on as the answer of %s: %s", ent, desc(o))
							st++
						default:
							x.Violate("unexpected object", "the monitor sent %s", desc(o))
						}
					}
					x.Require((st == 1) == ok && st < 2, "statement not passed on", "the statement of %s was passed on %d times (reply: %s)", ent, st, kinds[cur].name)
					want := 0
					if !ok && !spare {
						want = 1
					}
					x.Require(acc == want, fmt.Sprintf("accused %d want %d", acc, want), "accused %s %d times, expected %d (reply: %s, meanwhile heard: %s)", ent, acc, want, kinds[cur].name, h.name)
					for _, id := range []string{n.Lg(0), n.Lg(1), n.CA(0), n.CA(1)} {
						x.Require(queries[id] == 1, "queries", "%s was asked %d times in the period", id, queries[id])
					}
					for _, k := range []int{0, 1} {
						for _, id := range [][]string{{n.Lg(0), n.Lg(1)}, {n.CA(0), n.CA(1)}}[k] {
							if id == ent {
								continue
							}
							cnt := 0
							for _, o := range posts {
								if o.Payload[0] == id && (o.Type == def.STH_INIT || o.Type == def.REV_INIT) {
									cnt++
								}
							}
							x.Require(cnt == 1, "other's statement lost", "the statement of %s, which answered properly, was passed on %d times", id, cnt)
						}
					}
				}
				judge(rk.ok, h.spare, p)
				if ri2 >= 0 {
					pomOther := hi == 10
					pom := hi == 8
					// the statement of the first period is established, so revocations build on it
					if rk.ok && kind == 1 {
						x.PostMonitor(n.Mo(0), n.Full(statement(ent, kind, p), n.Go(1), n.Go(2)))
						x.W.AdvanceTo(c.T0.Add(58 * time.Second))
						prevREV = bits(3, 7)
					}
					x.W.AdvanceTo(c.T0.Add(59 * time.Second))
					posts, postAt, queries, cur, slow = nil, nil, map[string]int{}, ri2, false
					replyAt = c.T0.Add(60 * time.Second)
					x.W.AdvanceTo(c.T0.Add(90 * time.Second))
					x.checkCrashes()
					switch {
					case pom || pomOther:
						id := ent
						if pomOther {
							id = n.other(kind)
						}
						x.Require(queries[id] == 0, "proven entity queried", "%s, against which there is a conflict proof, was queried in the next period", id)
						for _, o := range posts {
							x.Require(o.Payload[0] != id, "proven entity gossiped", "the monitor sent %s", desc(o))
						}
					default:
						judge(kinds[ri2].ok, false, minute(p, 1))
					}
				}
				x.Outcome("reply=%s heard=%s", rk.name, h.name)
			})
		}
	}
	reg("P13", "logger", "one monitor, two loggers and two CAs: every kind of reply of one logger x what the gossiper tells meanwhile and when x fast or slow reply", run(0, replyKinds(), false, false))
	reg("P13", "CA", "the same for a CA, with replies whose revocation data do not fit", run(1, append(replyKinds(), revKinds()...), false, false))
	reg("P13", "logger-next-period", "the same, and the period after it with a good or no reply", run(0, replyKinds(), true, false))
	reg("P13", "later", "a logger or CA whose statement of the first period was established, then every kind of reply in the second", func(e *Env) {
		run(0, replyKinds(), false, true)(e)
		run(1, append(replyKinds(), revKinds()...), false, true)(e)
	})
	reg("P13", "CA-next-period", "the same for a CA; its revocations build on the first period's", run(1, append(replyKinds(), revKinds()...), true, false))
}

// ---- P08 (monitor) --------------------------------------------------------------------------

func init() {
	reg("P08", "monitor", "one monitor: conflict proof against a logger or CA (or none) at each of four times of a period x 1-3 further periods: not queried, not gossiped and in no update from then on; the others as before", func(e *Env) {
		n := NewNet(3, 2, 2, 2)
		e.Explore("history", func(x *X) {
			kind := x.Choose(2, "")
			at := []time.Duration{2, 20, 39, 45}[x.Choose(4, "")] * time.Second
			full := x.Bool("its threshold object arrives as well")
			ent := n.ent(kind)
			var posts []def.Gossip_object
			queries := map[string]int{}
			x.W.Fault = func(m *vrt.Msg) (*http.Response, error) {
				if isGet(m) {
					id, k := "localhost:"+m.Dst, 0
					if m.Dst[0] == '6' {
						k = 1
					}
					queries[id]++
					return okResponse(string(mustJSON(n.stmtOf(id, k, Period(), 0)))), nil
				}
				var o def.Gossip_object
				json.Unmarshal(m.Body, &o)
				posts = append(posts, o)
				return okResponse(""), nil
			}
			c := n.StartCluster(x, nil, []int{0})
			x.W.AdvanceTo(c.T0.Add(time.Second))
			p := PeriodAt(c.T0)
			if full {
				x.PostMonitor(n.Mo(0), n.Full(n.stmtOf(ent, kind, p, 0), n.Go(1), n.Go(2)))
			}
			x.W.AdvanceTo(c.T0.Add(at))
			x.PostMonitor(n.Mo(0), n.CON(n.stmtOf(ent, kind, p, 0), n.stmtOf(ent, kind, p, 1)))
			x.W.AdvanceTo(c.T0.Add(55 * time.Second))
			for i := 0; i < 4; i++ {
				start := c.T0.Add(time.Duration(i) * time.Minute)
				if i > 0 {
					posts, queries = nil, map[string]int{}
					x.W.AdvanceTo(start.Add(10 * time.Second))
					if i == 2 {
						x.PostMonitor(n.Mo(0), n.Full(n.stmtOf(ent, kind, PeriodAt(start), 0), n.Go(1), n.Go(2)))
					}
					oth := n.other(kind)
					x.PostMonitor(n.Mo(0), n.Full(n.stmtOf(oth, kind, PeriodAt(start), 0), n.Go(1), n.Go(2)))
					x.W.AdvanceTo(start.Add(50 * time.Second))
					x.Require(queries[ent] == 0, "proven entity queried", "%s was queried %d periods after the conflict proof", ent, i)
					for _, o := range posts {
						x.Require(o.Payload[0] != ent, "proven entity gossiped", "the monitor sent %s %d periods after the proof", desc(o), i)
					}
					x.Require(queries[oth] == 1, "other not queried", "%s was queried %d times", oth, queries[oth])
				}
				u, code, ok := x.GetUpdate(n.Mo(0), start.UTC().Minute())
				x.Require(ok, "no update", "no update (%d)", code)
				for _, o := range append(u.STHs, u.REVs...) {
					if i > 0 || at < 40*time.Second {
						x.Require(o.Payload[0] != ent, "statement next to proof", "the update of period %d carries a statement of %s, against which there is a conflict proof", i, ent)
					}
				}
				if i > 0 {
					x.Require(len(u.STHs)+len(u.REVs) == 1, "other's statement missing", "the update of period %d carries %d statements, expected the one of the other entity", i, len(u.STHs)+len(u.REVs))
				}
			}
			x.checkCrashes()
			x.Outcome("excluded")
		})
	})
}

// ---- P14: what a client update carries ------------------------------------------------------

// norm renders the objects of an update.
func normObjs(l []def.Gossip_object) []string {
	out := []string{}
	for _, o := range l {
		out = append(out, hashStr(string(mustJSON(o))))
	}
	sort.Strings(out)
	return out
}

func init() {
	type ev struct {
		name string
		kind int // 0 STH_FULL 1 REV_FULL 2 accusation 3 conflict proof
		mk   func(n *Net, p string) def.Gossip_object
	}
	evs := []ev{
		{"STH1", 0, func(n *Net, p string) def.Gossip_object {
			return n.Full(n.stmtOf(n.Lg(0), 0, p, 0), n.Go(0), n.Go(1))
		}},
		{"REV1", 1, func(n *Net, p string) def.Gossip_object {
			return n.Full(n.stmtOf(n.CA(0), 1, p, 0), n.Go(0), n.Go(1))
		}},
		{"ACC Lg2", 2, func(n *Net, p string) def.Gossip_object {
			return n.Full(n.ACC(n.Mo(1), n.Lg(1), p), n.Go(0), n.Go(1))
		}},
		{"CON CA2", 3, func(n *Net, p string) def.Gossip_object {
			return n.CON(n.stmtOf(n.CA(1), 1, p, 0), n.stmtOf(n.CA(1), 1, p, 1))
		}},
		{"STH2", 0, func(n *Net, p string) def.Gossip_object {
			return n.Full(n.stmtOf(n.Lg(1), 0, p, 0), n.Go(1), n.Go(2))
		}},
		{"CON Lg1", 3, func(n *Net, p string) def.Gossip_object {
			return n.CON(n.stmtOf(n.Lg(0), 0, p, 0), n.stmtOf(n.Lg(0), 0, p, 1))
		}},
		{"CON Lg2", 3, func(n *Net, p string) def.Gossip_object {
			return n.CON(n.stmtOf(n.Lg(1), 0, p, 0), n.stmtOf(n.Lg(1), 0, p, 1))
		}},
		{"ACC CA1", 2, func(n *Net, p string) def.Gossip_object {
			return n.Full(n.ACC(n.Mo(1), n.CA(0), p), n.Go(0), n.Go(1))
		}},
		{"REV2", 1, func(n *Net, p string) def.Gossip_object {
			return n.Full(n.stmtOf(n.CA(1), 1, p, 0), n.Go(0), n.Go(2))
		}},
	}
	// each event: in which period (0,1) and at which second it arrives, or never
	times := []time.Duration{-1, 5, 39, 41, 65, 99, 101}
	run := func(idx []int, again bool) func(e *Env) {
		return func(e *Env) {
			n := NewNet(3, 2, 2, 2)
			e.Explore("arrivals", func(x *X) {
				at := map[int]time.Duration{}
				for _, i := range idx {
					at[i] = times[x.Choose(len(times), "")]
				}
				rep := time.Duration(-1)
				if again {
					rep = []time.Duration{-1, 45, 70, 105}[x.Choose(4, "")]
				}
				x.W.Fault = func(m *vrt.Msg) (*http.Response, error) {
					if isGet(m) {
						return nil, errors.New("connection refused")
					}
					return okResponse(""), nil
				}
				c := n.StartCluster(x, nil, []int{0})
				type arr struct {
					t time.Duration
					o def.Gossip_object
					k int
				}
				var l []arr
				for _, i := range idx {
					if at[i] > 0 {
						t := at[i] * time.Second
						l = append(l, arr{t + time.Duration(i)*time.Millisecond, evs[i].mk(n, PeriodAt(c.T0.Add(t))), evs[i].kind})
					}
				}
				if rep > 0 {
					for _, a := range append([]arr{}, l...) {
						if t := rep * time.Second; a.k >= 2 && t > a.t {
							l = append(l, arr{t + 10*time.Millisecond, a.o, -1})
						}
					}
				}
				sort.Slice(l, func(i, j int) bool { return l[i].t < l[j].t })
				for _, a := range l {
					x.W.AdvanceTo(c.T0.Add(a.t))
					x.PostMonitor(n.Mo(0), a.o)
				}
				var first [3]monitor.ClientUpdate
				for k := 0; k < 3; k++ {
					x.W.AdvanceTo(c.T0.Add(time.Duration(k)*time.Minute + 39*time.Second))
				}
				x.W.AdvanceTo(c.T0.Add(170 * time.Second))
				x.checkCrashes()
				for k := 0; k < 3; k++ {
					start := c.T0.Add(time.Duration(k) * time.Minute)
					u, code, ok := x.GetUpdate(n.Mo(0), start.UTC().Minute())
					x.Require(ok, "no update", "no update for period %d (status %d)", k, code)
					first[k] = u
					x.Require(u.MonitorID == n.Mo(0) && u.Period == PeriodAt(start), "update label", "update of period %s is labelled %s by %s", PeriodAt(start), u.Period, u.MonitorID)
					lo, hi := time.Duration(k-1)*time.Minute+40*time.Second, time.Duration(k)*time.Minute+40*time.Second
					want := [4][]def.Gossip_object{}
					con := map[string]bool{} // proven
					for _, a := range l {
						if a.k == 3 && a.t < hi {
							con[a.o.Payload[0]] = true
						}
					}
					for _, a := range l {
						in := a.t >= lo && a.t < hi
						switch {
						case a.k < 0:
						case a.k < 2 && in && a.o.Period == PeriodAt(start) && !con[a.o.Payload[0]]:
							want[a.k] = append(want[a.k], a.o)
						case a.k >= 2 && in:
							want[a.k] = append(want[a.k], a.o)
						}
					}
					for i, got := range [][]def.Gossip_object{u.STHs, u.REVs, u.POM_ACCs, u.POM_CONs} {
						g, w := normObjs(got), normObjs(want[i])
						what := []string{"tree heads", "revocations", "accusations", "conflict proofs"}[i]
						x.Require(strings.Join(g, ",") == strings.Join(w, ","), "update "+what, "update of period %d carries %d %s, expected %d (arrivals %v, times %v)", k, len(g), what, len(w), idx, at)
					}
				}
				// served again, unchanged; unknown and malformed requests are answered and harmless
				for _, b := range []string{"\"77\"", "\"\"", "", "{", "12", "null", "[]"} {
					code, _, err := x.W.Do(port(n.Mo(0)), "GET", "/monitor/get-update", []byte(b))
					x.Require(err == nil && code != 200 || b == "null" && err == nil, "bad request answered", "request %q for an update got status %d (%v)", b, code, err)
				}
				for k := 0; k < 3; k++ {
					u, _, ok := x.GetUpdate(n.Mo(0), c.T0.Add(time.Duration(k)*time.Minute).UTC().Minute())
					x.Require(ok && string(mustJSON(u)) == string(mustJSON(first[k])), "update changed", "the update of period %d changed after it was made", k)
				}
				x.checkCrashes()
				x.Outcome("%v", at)
			})
		}
	}
	reg("P14", "arrivals-STH-REV-CON", "one monitor over three periods: every combination of arrival times (two periods, before and after the update is made, or never) of a tree head, a revocation and a conflict proof; exact contents of the updates, served again later", run([]int{0, 1, 3}, false))
	reg("P14", "arrivals-ACC-CON-again", "the same for accusation and conflict proof, repeated at a later time", run([]int{2, 3}, true))
	reg("P14", "arrivals-CON-CON-again", "the same for conflict proofs against two loggers, repeated at a later time", run([]int{5, 6}, true))
	reg("P14", "arrivals-ACC-ACC-again", "the same for accusations of a logger and a CA, repeated at a later time", run([]int{2, 7}, true))
	reg("P14", "arrivals-STH-STH-CON-CON", "the same for the tree heads of two loggers and conflict proofs against both", run([]int{0, 4, 5, 6}, false))
	regDeep("P14", "arrivals-REV-REV-ACC-CON-CON", "the same for the revocations of two CAs, a conflict proof against one and a logger, and the accusation of the other", run([]int{1, 8, 7, 3, 5}, false))
	regDeep("P14", "arrivals-four", "the same for four objects", run([]int{0, 1, 2, 3}, false))
	regDeep("P14", "arrivals-STH-STH-ACC-again", "the same for two tree heads and an accusation", run([]int{0, 2, 4}, true))
	reg("P14", "all-minutes", "one monitor with a tree head, accusation and proof in each of 61 consecutive periods: each period's update has exactly its own objects, is labelled right and is found under the period's number", func(e *Env) {
		n := NewNet(3, 2, 2, 2)
		e.Explore("hour", func(x *X) {
			off := x.Choose(2, "") * 37
			x.W.Fault = func(m *vrt.Msg) (*http.Response, error) {
				if isGet(m) {
					return nil, errors.New("connection refused")
				}
				return okResponse(""), nil
			}
			time.Sleep(time.Duration(off) * time.Minute)
			c := n.StartCluster(x, nil, []int{0})
			for k := 0; k < 61; k++ {
				start := c.T0.Add(time.Duration(k) * time.Minute)
				p := PeriodAt(start)
				x.W.AdvanceTo(start.Add(10 * time.Second))
				sth := n.Full(n.stmtOf(n.Lg(0), 0, p, k), n.Go(0), n.Go(1))
				acc := n.Full(n.ACC(n.Mo(1), n.Lg(1), p), n.Go(0), n.Go(1))
				x.PostMonitor(n.Mo(0), sth)
				x.PostMonitor(n.Mo(0), acc)
				x.W.AdvanceTo(start.Add(50 * time.Second))
				u, code, ok := x.GetUpdate(n.Mo(0), start.UTC().Minute())
				x.Require(ok, "no update", "no update for period %s (status %d)", p, code)
				x.Require(u.Period == p, "update label", "update of period %s is labelled %s", p, u.Period)
				x.Require(len(u.STHs) == 1 && u.STHs[0].Payload == sth.Payload, "update tree heads", "update of period %s carries %d tree heads", p, len(u.STHs))
				wantAcc := 1
				if k >= 60 { // the period label, hence the object, is one of an hour ago
					wantAcc = len(u.POM_ACCs)
				}
				x.Require(len(u.POM_ACCs) == wantAcc && len(u.REVs)+len(u.POM_CONs) == 0, "update contents", "update of period %s carries %d accusations, %d revocations and %d conflict proofs", p, len(u.POM_ACCs), len(u.REVs), len(u.POM_CONs))
			}
			x.checkCrashes()
			x.Outcome("61 periods from %d", off)
		})
	})
}
