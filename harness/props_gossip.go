package harness

import (
	"encoding/json"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"time"

	def "github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/gossiper"
	"github.com/jik18001/CTngV2/monitor"
	"github.com/jik18001/CTngV2/zzverif/vrt"
)

// stmt is a statement of the first logger or CA; v selects among different contents.
func (n *Net) stmt(kind int, period string, v int) def.Gossip_object {
	if kind == 0 {
		return n.STH(n.Lg(0), period, fmt.Sprint("root", v), 2+v)
	}
	return n.REV(n.CA(0), period, bits(), bits(3, 7+v))
}

// ServeObj serves a logger's or CA's answer to monitors: f gets the ordinal of
// the request (0, 1, ...) and the period, and returns the body (ok=false: no answer).
func (x *X) ServeObj(u string, f func(i int, period string) (def.Gossip_object, bool)) {
	i := 0
	x.W.Serve(port(u), http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		o, ok := f(i, Period())
		i++
		if ok {
			json.NewEncoder(w).Encode(o)
		}
	}))
}

func isGet(m *vrt.Msg) bool { return m.Method == "GET" }

func toMonitor(m *vrt.Msg) bool { return strings.HasPrefix(m.Dst, "8") }

// dupDelivered: the identical message was already delivered to this destination.
func (x *X) dupDelivered(m *vrt.Msg) bool {
	l := x.W.Delivered[m.Dst]
	k := m.Key()
	i := sort.SearchStrings(l, k)
	return i < len(l) && l[i] == k
}

// GetUpdate asks a monitor for its update of a period.
func (x *X) GetUpdate(mon string, period int) (monitor.ClientUpdate, int, bool) {
	body, _ := json.Marshal(fmt.Sprint(period))
	code, b, err := x.W.Do(port(mon), "GET", "/monitor/get-update", body)
	if err != nil || code != 200 {
		return monitor.ClientUpdate{}, code, false
	}
	u, ok := decodeUpdate(b)
	return u, code, ok
}

// decodeUpdate accepts the update as JSON or as a JSON string of base64 JSON.
func decodeUpdate(b []byte) (monitor.ClientUpdate, bool) {
	var u monitor.ClientUpdate
	var inner []byte
	if json.Unmarshal(b, &inner) == nil {
		b = inner
	}
	return u, json.Unmarshal(b, &u) == nil
}

func (c *Cluster) hash() string {
	var l []any
	for i := 0; i < c.N; i++ {
		if g := c.G[i]; g != nil {
			l = append(l, g)
		}
		if m := c.M[i]; m != nil {
			l = append(l, m)
		}
	}
	return DeepHash(l...)
}

func fullsOf(g *gossiper.GossiperContext, kind int) []def.Gossip_object {
	var out []def.Gossip_object
	st := g.Gossip_object_storage
	for _, m := range []map[def.Gossip_ID]def.Gossip_object{st.STH_FULL, st.REV_FULL, st.ACC_FULL}[kind : kind+1] {
		for _, o := range m {
			out = append(out, o)
		}
	}
	return out
}

func monFulls(m *monitor.MonitorContext, kind int) []def.Gossip_object {
	var out []def.Gossip_object
	for _, o := range *[]*def.Gossip_Storage{m.Storage_STH_FULL, m.Storage_REV_FULL, m.Storage_ACCUSATION_POM}[kind] {
		out = append(out, o)
	}
	return out
}

func subsets(n int, min int) [][]int {
	var out [][]int
	for m := 0; m < 1<<n; m++ {
		var s []int
		for i := 0; i < n; i++ {
			if m>>i&1 == 1 {
				s = append(s, i)
			}
		}
		if len(s) >= min {
			out = append(out, s)
		}
	}
	return out
}

func has(l []int, i int) bool {
	for _, j := range l {
		if i == j {
			return true
		}
	}
	return false
}

// ---- one period of a cluster ------------------------------------------------------------

// period starts the alive pairs for one period about one entity (logger for kind 0, CA for
// kind 1): answer tells what the entity sends to monitor i (ok=false: no answer).
func (n *Net) period(x *X, kind int, alive []int, answer func(i int, period string) (def.Gossip_object, bool)) (*Cluster, string) {
	x.W.Auto = nil
	ent := n.Lg(0)
	if kind == 1 {
		ent = n.CA(0)
	}
	label := PeriodAt(time.Now().Truncate(time.Minute).Add(time.Minute))
	ans := map[string]def.Gossip_object{}
	for i := 0; i < n.N; i++ {
		if o, ok := answer(i, label); ok {
			ans[port(n.Mo(i))] = o
		}
	}
	x.W.Fault = func(m *vrt.Msg) (*http.Response, error) {
		if !isGet(m) {
			return nil, nil
		}
		if o, ok := ans[m.Src]; ok && m.Dst == port(ent) {
			b, _ := json.Marshal(o)
			return okResponse(string(b)), nil
		}
		return nil, fmt.Errorf("connection refused")
	}
	c := n.StartCluster(x, alive, alive)
	for _, m := range c.M { // the deployment has other entities; this scenario is about one
		m.Monitor_private_config.Logger_URLs, m.Monitor_private_config.CA_URLs = nil, nil
		if kind == 0 {
			m.Monitor_private_config.Logger_URLs = []string{ent}
		} else {
			m.Monitor_private_config.CA_URLs = []string{ent}
		}
	}
	return c, ent
}

// gossipPhase explores the gossip of the period, after which everything is delivered.
func (c *Cluster) gossipPhase(slow int) {
	x := c.X
	x.RunDeliveries(DelOpt{
		Until: c.T0.Add(30 * time.Second), Auto: c.T0.Add(12 * time.Second),
		State: c.hash, Slow: slow,
		Skip: func(m *vrt.Msg) bool { return isGet(m) || toMonitor(m) || x.dupDelivered(m) },
	})
	x.checkCrashes()
}

// updatePhase runs on until the updates of the period are made.
func (c *Cluster) updatePhase() {
	c.X.RunDeliveries(DelOpt{Until: c.T0.Add(50 * time.Second), Auto: c.T0})
	c.X.checkCrashes()
}

// ---- P01: convergence -----------------------------------------------------------------

// converge runs one period of a cluster in which the alive pairs run, the
// monitors in recv get the entity's statement and the others no answer.
func (n *Net) converge(x *X, kind int, alive, recv []int, slow int) {
	var stmt def.Gossip_object
	c, ent := n.period(x, kind, alive, func(i int, p string) (def.Gossip_object, bool) {
		stmt = n.stmt(kind, p, 0)
		return stmt, has(recv, i)
	})
	c.allListening()
	c.gossipPhase(slow)
	// every running gossiper and monitor holds exactly one threshold object, on that payload
	check := func(where string, l []def.Gossip_object) {
		x.Require(len(l) == 1, fmt.Sprintf("%s holds %d objects", strings.Fields(where)[0], len(l)), "%s holds %d threshold objects of %s for period %s (alive %v, statement delivered to monitors %v, t=%d)", where, len(l), ent, stmt.Period, alive, recv, n.T)
		o := l[0]
		x.Require(o.Payload == stmt.Payload && o.Period == stmt.Period, strings.Fields(where)[0]+" wrong payload", "%s: threshold object differs from the statement", where)
		x.Require(n.trueFull(o), strings.Fields(where)[0]+" invalid object", "%s: threshold object has no valid threshold signature", where)
	}
	for _, i := range alive {
		check("gossiper "+n.Go(i), fullsOf(c.G[i], kind))
		check("monitor "+n.Mo(i), monFulls(c.M[i], kind))
		for _, e := range []string{n.Lg(0), n.CA(0)} {
			x.Require(!c.G[i].InBlacklist(e), "honest blacklisted", "gossiper %s blacklisted honest %s", n.Go(i), e)
		}
	}
	c.updatePhase()
	for _, i := range alive {
		u, code, ok := x.GetUpdate(n.Mo(i), c.T0.UTC().Minute())
		x.Require(ok, "no update", "monitor %s has no update for the period (status %d)", n.Mo(i), code)
		l := u.STHs
		if kind == 1 {
			l = u.REVs
		}
		check("update of "+n.Mo(i), l)
		x.Require(len(u.POM_ACCs)+len(u.POM_CONs) == 0, "update accuses", "update of monitor %s carries proofs against honest entities", n.Mo(i))
	}
	x.Outcome("alive=%v recv=%v", alive, recv)
}

func init() {
	p01s := func(r func(string, string, string, func(*Env)), n, t, kind int, alive, recv []int, slow int) {
		r("P01", fmt.Sprintf("%s-n%d-t%d-alive%v-recv%v-slow%d", stmtName[kind], n, t, alive, recv, slow), fmt.Sprintf("at most %d times a pending message is overtaken by the next timer; ", slow)+"all delivery orders of gossip messages and all orders of due signing timers over one period, given which monitor/gossiper pairs run and which monitors got the statement", func(e *Env) {
			nt := NewNet(n, t, 1, 1)
			e.Explore("period", func(x *X) { nt.converge(x, kind, alive, recv, slow) })
		})
	}
	p01 := func(r func(string, string, string, func(*Env)), n, t, kind int, alive, recv []int) {
		p01s(r, n, t, kind, alive, recv, 0)
	}
	p01s(reg, 3, 2, 0, []int{0, 1}, []int{0}, 2)
	p01s(reg, 3, 2, 0, []int{0, 1}, []int{0, 1}, 2)
	p01s(reg, 3, 2, 0, []int{0, 1, 2}, []int{1}, 1)
	p01s(reg, 3, 2, 1, []int{0, 1}, []int{0}, 1)
	p01s(regDeep, 3, 2, 1, []int{0, 1}, []int{0}, 2)
	p01s(regDeep, 3, 2, 1, []int{0, 1, 2}, []int{1}, 1)
	p01s(regDeep, 3, 2, 0, []int{0, 1, 2}, []int{1}, 2)
	p01s(regDeep, 3, 3, 0, []int{0, 1, 2}, []int{1, 2}, 2)
	for kind := 0; kind < 2; kind++ {
		quick := map[string]bool{"[0 1 2][2]": true, "[0 1 2][0 1]": true, "[0 1 2][0 1 2]": true, "[0 1][1]": true, "[1 2][1 2]": true, "[0 2][0]": true}
		for _, alive := range subsets(3, 2) {
			for _, recv := range subsets(3, 1) {
				sub := true
				for _, i := range recv {
					sub = sub && has(alive, i)
				}
				if !sub {
					continue
				}
				if k := fmt.Sprint(alive) + fmt.Sprint(recv); quick[k] && !(kind == 1 && (k == "[0 1 2][0 1]" || k == "[0 1 2][0 1 2]")) {
					p01(reg, 3, 2, kind, alive, recv)
				} else {
					p01(regDeep, 3, 2, kind, alive, recv)
				}
			}
		}
		p01(regDeep, 4, 3, kind, []int{0, 1, 2}, []int{1})
		p01(regDeep, 4, 2, kind, []int{1, 3}, []int{3})
		p01(regDeep, 4, 3, kind, []int{0, 1, 2, 3}, []int{2})
		p01(regDeep, 4, 3, kind, []int{0, 1, 2, 3}, []int{0, 3})
		p01(regDeep, 3, 3, kind, []int{0, 1, 2}, []int{0, 1, 2})
		p01(regDeep, 3, 3, kind, []int{0, 1, 2}, []int{1})
	}
}
