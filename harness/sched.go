package harness

import (
	"fmt"
	"strings"
	"time"

	"github.com/jik18001/CTngV2/zzverif/vrt"
)

// DelOpt configures the delivery explorer.
type DelOpt struct {
	Until  time.Time               // horizon
	State  func() string           // extra state for the fingerprint (entity contexts)
	Skip   func(m *vrt.Msg) bool   // messages delivered at once in canonical order (no choice)
	Lose   int                     // number of messages that may be lost (refused)
	Slow   int                     // number of times a message may be overtaken by the next timer
	Step   func()                  // invariant checked after every step
	Filter func(m *vrt.Msg) bool   // if set: only these messages may be lost
	Extra  func() []func() string  // environment actions offered at each step
	Auto   time.Time               // if set: from this instant on everything happens in canonical order
	SkipEv func(e *vrt.Event) bool // timers fired at once in canonical order (no choice)
}

// RunDeliveries explores every order of message deliveries and due timers until
// the horizon.
func (x *X) RunDeliveries(o DelOpt) {
	w := x.W
	w.CtlTimers = true
	lose, slow := o.Lose, o.Slow
	for {
		w.Quiesce()
		if o.Step != nil {
			o.Step()
		}
		pend := w.Pending()
		due := w.Due()
		var skip *vrt.Msg
		if o.Skip != nil {
			for _, m := range pend {
				if o.Skip(m) {
					skip = m
					break
				}
			}
		}
		if skip != nil {
			w.Deliver(skip)
			continue
		}
		auto := !o.Auto.IsZero() && !time.Now().Before(o.Auto)
		var skipEv *vrt.Event
		for _, ev := range due {
			if auto || (o.SkipEv != nil && o.SkipEv(ev)) {
				skipEv = ev
				break
			}
		}
		if skipEv != nil {
			w.Fire(skipEv)
			continue
		}
		if auto && len(pend) > 0 {
			w.Deliver(pend[0])
			continue
		}
		if len(pend)+len(due) == 0 {
			next, ok := w.NextDeadline()
			if !ok || next.After(o.Until) {
				if d := time.Until(o.Until); d > 0 {
					time.Sleep(d)
					w.Quiesce()
					if o.Step != nil {
						o.Step()
					}
				}
				return
			}
			time.Sleep(time.Until(next))
			continue
		}
		type opt struct {
			label string
			do    func()
		}
		var opts []opt
		for _, m := range pend {
			m := m
			opts = append(opts, opt{"deliver " + m.Src + "->" + m.Key(), func() { w.Deliver(m) }})
		}
		for _, ev := range due {
			ev := ev
			opts = append(opts, opt{"fire " + ev.Key, func() { w.Fire(ev) }})
		}
		if lose > 0 {
			for _, m := range pend {
				m := m
				if o.Filter != nil && !o.Filter(m) {
					continue
				}
				opts = append(opts, opt{"lose " + m.Key(), func() { lose--; w.Fail(m, fmt.Errorf("connection reset")) }})
			}
		}
		if slow > 0 && len(pend) > 0 && len(due) == 0 {
			if next, ok := w.NextDeadline(); ok && !next.After(o.Until) {
				opts = append(opts, opt{"time passes", func() { slow--; time.Sleep(time.Until(next)) }})
			}
		}
		if o.Extra != nil {
			for _, f := range o.Extra() {
				f := f
				opts = append(opts, opt{"env", func() { x.Tracef("  env: %s", f()) }})
			}
		}
		c := x.ChooseF(len(opts), func() string {
			if o.State == nil {
				return ""
			}
			var sb strings.Builder
			sb.WriteString(o.State())
			fmt.Fprintf(&sb, "|%v|%v|%d|%d|%d", w.PendingKeys(), w.LiveTimers(), lose, slow, time.Now().Unix())
			return hashStr(sb.String())
		})
		x.Tracef("%s %s", time.Now().UTC().Format("04:05.000"), opts[c].label)
		opts[c].do()
	}
}

// RunFine explores every interleaving of the parked tasks at lock granularity
// with at most bound preemptions.  It returns when no task can run.  Unless sends,
// goroutines the operations start run only when no operation can, in creation order.
func (x *X) RunFine(bound int, sends bool) {
	w := x.W
	spawned := map[int]bool{}
	for {
		en := w.Enabled()
		if len(en) == 0 {
			return
		}
		if !sends {
			var ops []*vrt.Task
			for _, t := range en {
				if t.Kind == "go" {
					spawned[t.G] = true
				}
				if !spawned[t.G] {
					ops = append(ops, t)
				}
			}
			if len(ops) == 0 {
				ops = en[:1]
			}
			en = ops
		}
		// order: the goroutine that ran last first
		var cur *vrt.Task
		for _, t := range en {
			if t.G == x.curG {
				cur = t
			}
		}
		opts := en
		if cur != nil {
			if x.preempt >= bound {
				opts = []*vrt.Task{cur}
			} else {
				opts = []*vrt.Task{cur}
				for _, t := range en {
					if t != cur {
						opts = append(opts, t)
					}
				}
			}
		}
		t := opts[0]
		if len(opts) > 1 {
			c := x.Choose(len(opts), "")
			t = opts[c]
			if cur != nil && t != cur {
				x.preempt++
			}
		}
		x.curG = t.G
		x.Tracef("g%d %s", t.G, t.Kind)
		w.Resume(t)
	}
}
