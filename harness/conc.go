package harness

import (
	"fmt"
	"net/http"
	"sort"
	"strings"
	"time"

	def "github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/zzverif/vrt"
)

// Concurrent operations on one running entity: every interleaving of their lock operations
// (up to a preemption bound) must end in an outcome that some serial order has, too.

// Op is an operation of a concurrency scenario; it is started and does not wait.
type Op struct {
	Name  string
	Start func(x *X)
}

// OpPost delivers a request.
func OpPost(name, to, path string, body []byte) Op {
	return Op{name, func(x *X) { x.W.StartDeliver(x.W.Inject(port(to), "POST", path, body)) }}
}

func OpGet(name, to, path string, body []byte) Op {
	return Op{name, func(x *X) { x.W.StartDeliver(x.W.Inject(port(to), "GET", path, body)) }}
}

// OpObj delivers a gossip object to a gossiper.
func OpObj(g string, o def.Gossip_object, name string) Op {
	return OpPost(name, g, gossipPath[o.Type], mustJSON(o))
}

// OpCall runs a function of the code under test as an operation of entity ent.
func OpCall(name, ent string, f func()) Op {
	return Op{name, func(x *X) {
		p := fmt.Sprint(50000 + len(name)*100 + int(name[0]))
		x.W.Serve(p, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { vrt.SetEntity(port(ent)); f() }))
		x.W.StartDeliver(x.W.Inject(p, "POST", "/", nil))
	}}
}

// OpTimers fires all due timers.
func OpTimers() Op {
	return Op{"timers", func(x *X) {
		for _, ev := range x.W.Due() {
			x.W.Fire(ev)
		}
	}}
}

const (
	exact = iota
	envel
	safe
)

func sorted(s string) string {
	l := strings.Split(s, "\n")
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func permute(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var out [][]int
	for _, p := range permute(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

// Always explores also when a single execution of another exploration is replayed.
func (e *Env) Always(name string, body func(x *X)) {
	saved := e.only
	e.only = nil
	e.Explore(name, body)
	e.only = saved
}

// Linear: setup starts the entity and returns the operations and the observation of the final state.
// exact: the outcome is that of one serial order; envelope: each part of it (each object stored or
// sent) is part of some serial outcome, and what all serial orders do is done; safe: no outcome
// check (two-step operations against a storage wipe), only deadlocks, crashes and panics.
func (e *Env) Linear(bound int, sends bool, mode int, setup func(x *X) (ops []Op, observe func() string)) {
	serial := map[string]string{}
	e.Always("serial", func(x *X) {
		ops, obs := setup(x)
		perms := permute(len(ops))
		p := perms[x.Choose(len(perms), "")]
		var names []string
		for _, i := range p {
			x.Tracef("%s", ops[i].Name)
			names = append(names, ops[i].Name)
			ops[i].Start(x)
			x.W.Quiesce()
		}
		x.checkCrashes()
		serial[sorted(obs())] = strings.Join(names, "; ")
	})
	e.Explore("interleavings", func(x *X) {
		ops, obs := setup(x)
		x.W.Fine = true
		var names []string
		for _, o := range ops {
			o.Start(x)
			x.W.Enabled() // it parks before the next one starts: the same numbers in every run
			names = append(names, o.Name)
		}
		x.RunFine(bound, sends)
		x.checkCrashes()
		for _, p := range x.W.Panics {
			x.Violate("panic: "+strings.Join(names, " || "), "%s: a request handler panicked: %s", strings.Join(names, " || "), p)
		}
		if l := x.W.Parked(); len(l) > 0 {
			var what []string
			for _, t := range l {
				what = append(what, fmt.Sprintf("g%d waits for %s", t.G, t.Kind))
			}
			x.Violate("deadlock: "+strings.Join(names, " || "), "%s deadlock: %s", strings.Join(names, " || "), strings.Join(what, ", "))
		}
		x.W.Fine = false
		o := sorted(obs())
		x.checkCrashes()
		if mode == safe {
			x.Outcome("safe")
			return
		}
		if mode == envel && serial[o] == "" {
			bad := envelope(o, serial)
			x.Require(bad == "", "outcome of no serial order: "+strings.Join(names, " || "), "%s at the same time: %s", strings.Join(names, " || "), bad)
			x.Outcome("mixed")
			return
		}
		x.Require(serial[o] != "", "outcome of no serial order: "+strings.Join(names, " || "), "%s at the same time ends in a state that no order of them one after the other gives: %s", strings.Join(names, " || "), diffOutcome(o, serial))
		x.Outcome("as %s", serial[o])
	})
}

// RacePairs runs all pairs of operations at the same time in a race build.
func (e *Env) RacePairs(names []string, setup func(a, b string) func(x *X) ([]Op, func() string)) {
	bitLen = 4096
	defer func() { bitLen = 1000000 }()
	e.Explore("pairs", func(x *X) {
		i := x.Choose(len(names), "")
		j := i + x.Choose(len(names)-i, "")
		if (i*(2*len(names)-i-1)/2+j)%raceShards != e.S.Shard {
			return
		}
		x.Tracef("%s || %s", names[i], names[j])
		ops, _ := setup(names[i], names[j])(x)
		x.W.Fine = true
		for _, o := range ops {
			o.Start(x)
			x.W.Enabled()
		}
		x.RunFine(1, false)
		x.W.Fine = false
		x.checkCrashes()
		for _, r := range raceReports() {
			x.Violate("map race "+r, "%s || %s: unsynchronised map accesses in %s", names[i], names[j], r)
		}
		x.Outcome("%s || %s", names[i], names[j])
	})
}

// envelope: what is missing from o although in all serial outcomes, or in o and in none.
func envelope(o string, serial map[string]string) string {
	set := func(s string) map[string]bool {
		m := map[string]bool{}
		for _, l := range strings.Split(s, "\n") {
			m[l] = true
		}
		return m
	}
	a := set(o)
	cnt := map[string]int{}
	for s := range serial {
		for l := range set(s) {
			cnt[l]++
		}
	}
	var d []string
	for l := range a {
		if cnt[l] == 0 {
			d = append(d, "in no serial order: "+l)
		}
	}
	for l, c := range cnt {
		if c == len(serial) && !a[l] {
			d = append(d, "missing: "+l)
		}
	}
	sort.Strings(d)
	return strings.Join(d, " | ")
}

// diffOutcome tells what is unlike the nearest serial outcome.
func diffOutcome(o string, serial map[string]string) string {
	lines := func(s string) map[string]int {
		m := map[string]int{}
		for _, l := range strings.Split(s, "\n") {
			m[l]++
		}
		return m
	}
	best, bn := "", 1<<30
	a := lines(o)
	for s, by := range serial {
		b := lines(s)
		var d []string
		for l := range a {
			if a[l] > b[l] {
				d = append(d, "+ "+l)
			}
		}
		for l := range b {
			if b[l] > a[l] {
				d = append(d, "- "+l)
			}
		}
		sort.Strings(d)
		if len(d) < bn {
			bn, best = len(d), "against "+by+": "+strings.Join(d, " | ")
		}
	}
	return best
}

// objLine describes an object without its time of creation.
func objLine(o def.Gossip_object) string {
	o.Timestamp = ""
	return fmt.Sprintf("%s %s %s %s %s", def.TypeString(o.Type), o.Period, o.Payload[0], o.Signer, hashStr(fmt.Sprintf("%v", o))[:8])
}

// sentLines describes everything sent, without times.
func (x *X) sentLines(from int) []string {
	var out []string
	for _, m := range x.W.Sent[from:] {
		var o def.Gossip_object
		d := hashStr(string(m.Body))[:8]
		if unjson(m.Body, &o) == nil && o.Type != "" && o.Application != "" {
			d = objLine(o)
		}
		out = append(out, fmt.Sprintf("sent %s -> %s %s %s", m.Src, m.Dst, m.Path, d))
	}
	sort.Strings(out)
	return out
}

func storeLines(name string, m map[def.Gossip_ID]def.Gossip_object) []string {
	var out []string
	for id, o := range m {
		out = append(out, fmt.Sprintf("%s[%v] %s", name, id, objLine(o)))
	}
	sort.Strings(out)
	return out
}

var _ = time.Second
