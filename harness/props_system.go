package harness

import (
	"crypto/x509"
	"fmt"
	"strings"
	"time"

	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/Logger"
	"github.com/jik18001/CTngV2/client"
	def "github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/zzverif/vrt"
)

// ---- P27: the whole system, from issuing to the client --------------------------

// system is a deployment with all its entities running in virtual time.
type system struct {
	*Net
	X      *X
	CAs    map[int]*CA.CAContext
	Lgs    map[int]*Logger.LoggerContext
	Clu    *Cluster
	T      time.Time                     // start of the period in which the CAs issue first
	Cls    map[int]*client.ClientContext // one client per running monitor
	Took   map[int]int                   // updates taken
	Certs  []issued
	Fate   func(m *vrt.Msg) time.Duration // 0: delivered, refused, or how long it hangs before it fails
	hung   map[*vrt.Msg]time.Time
	Delay  func(m *vrt.Msg) time.Duration // how long a message travels
	seen   map[*vrt.Msg]time.Time
	Take   time.Duration // when in a period the clients take their update
	Avoid  int           // 1 + monitor the last client does not use
	Revoke [][3]int      // CA, revocation number, period in which the CA revokes it
}

const refuse = time.Duration(-1)

type issued struct {
	ca, rid, period int
	cert            *x509.Certificate
	loggers         []string
}

// startSystem starts CAs and loggers in the minute before the first period, monitors
// and gossipers at its end; down lists entities that never start.
func (n *Net) startSystem(x *X, down map[string]bool, fate func(m *vrt.Msg) time.Duration) *system {
	s := &system{Net: n, X: x, Fate: fate, CAs: map[int]*CA.CAContext{}, Lgs: map[int]*Logger.LoggerContext{}, Cls: map[int]*client.ClientContext{}, Took: map[int]int{}, hung: map[*vrt.Msg]time.Time{}, seen: map[*vrt.Msg]time.Time{}, Take: 45 * time.Second}
	time.Sleep(30 * time.Second)
	for i := 0; i < n.C; i++ {
		if !down[n.CA(i)] {
			s.CAs[i] = n.StartCA(x, i)
		}
	}
	for i := 0; i < n.L; i++ {
		if !down[n.Lg(i)] {
			s.Lgs[i] = n.StartLogger(x, i)
		}
	}
	s.T = nextMinute()
	var gs, ms []int
	for i := 0; i < n.N; i++ {
		if !down[n.Go(i)] {
			gs = append(gs, i)
		}
		if !down[n.Mo(i)] {
			ms = append(ms, i)
			s.Cls[i] = n.ClientIn(x, fmt.Sprintf("%s/client%d", x.Scratch(), i), "NEW")
		}
	}
	s.Cls[n.N] = n.ClientIn(x, x.Scratch()+"/client", "NEW")
	s.advance(s.T.Add(40500 * time.Millisecond))
	s.collect(0)
	s.advance(s.T.Add(58 * time.Second))
	s.Clu = n.StartCluster(x, gs, ms)
	return s
}

// advance runs the system to t: messages are delivered in canonical order, and
// those for which Fate says so are refused, or hang.
func (s *system) advance(t time.Time) {
	w := s.X.W
	for {
		w.Quiesce()
		p := w.AllPending()
		var wake time.Time
		acted := false
		for _, m := range p {
			if s.Delay != nil {
				if _, ok := s.seen[m]; !ok {
					s.seen[m] = time.Now().Add(s.Delay(m))
				}
				if there := s.seen[m]; time.Now().Before(there) {
					if wake.IsZero() || there.Before(wake) {
						wake = there
					}
					continue
				}
			}
			end, hangs := s.hung[m]
			d := time.Duration(0)
			if !hangs && s.Fate != nil {
				if d = s.Fate(m); d > 0 {
					end, hangs = time.Now().Add(d), true
					s.hung[m] = end
				}
			}
			switch {
			case hangs && time.Now().Before(end):
				if wake.IsZero() || end.Before(wake) {
					wake = end
				}
				continue
			case hangs:
				w.Fail(m, fmt.Errorf("connection timed out"))
			case d == refuse:
				w.Fail(m, fmt.Errorf("connection refused"))
			default:
				w.Deliver(m)
			}
			acted = true
			break
		}
		if acted {
			continue
		}
		next, ok := w.NextDeadline()
		if !wake.IsZero() && (!ok || wake.Before(next)) {
			next, ok = wake, true
		}
		if !ok || next.After(t) {
			break
		}
		time.Sleep(time.Until(next))
	}
	if d := time.Until(t); d > 0 {
		time.Sleep(d)
		w.Quiesce()
	}
}

// collect takes the certificates the CAs have ready just before the end of a period.
func (s *system) collect(period int) {
	for i := 0; i < s.C; i++ {
		if ca := s.CAs[i]; ca != nil {
			certs := CA.SignAllCerts(ca)
			with := s.checkPool(s.X, ca, certs)
			for _, c := range certs {
				rid := CA.ParseCTngextension(c).SequenceNumber.RID
				s.Certs = append(s.Certs, issued{i, rid, period, c, with[rid]})
			}
		}
	}
}

// runPeriod runs period k (counted from T) up to second 45 and lets every client take its monitor's update.
func (s *system) runPeriod(k int) {
	start := s.T.Add(time.Duration(k) * time.Minute)
	s.advance(start.Add(20 * time.Second))
	for _, r := range s.Revoke {
		if r[2] == k && s.CAs[r[0]] != nil {
			s.CAs[r[0]].CRV.Revoke(r[1])
		}
	}
	s.advance(start.Add(40500 * time.Millisecond))
	s.collect(k)
	s.advance(start.Add(s.Take))
	for i := 0; i <= s.N; i++ {
		m := i
		if i == s.N { // the last client goes from one running monitor to the next
			for m = k % s.N; s.Cls[m] == nil || s.Avoid == m+1; m = (m + 1) % s.N {
			}
		}
		if cl := s.Cls[i]; cl != nil {
			u, _, ok := s.X.GetUpdate(s.Mo(m), start.UTC().Minute())
			s.X.Tracef("client %d, update of %s for period %d: %v, %d STHs %d REVs %d ACCs %d CONs", i, s.Mo(m), k, ok, len(u.STHs), len(u.REVs), len(u.POM_ACCs), len(u.POM_CONs))
			if ok && cl.HandleUpdate(u, true, s.Took[i] == 0) {
				s.Took[i]++
			}
		}
	}
}

// judge compares what a client accepts after period k with what it has to accept:
// certificates of the CAs in `cas`, issued before k, not revoked before k-1's end,
// proven by a logger outside `bad`; it holds proofs of misbehaviour against those in
// `bad` only.  What is accepted of the CA `skip` or thanks to the logger `skip` alone is not judged.
func (s *system) judge(k, i int, bad map[string]bool, skip string) string {
	cl := s.Cls[i]
	if s.Took[i] != k {
		return fmt.Sprintf("client %d took %d updates of %d", i, s.Took[i], k)
	}
	for id := range cl.POM_database {
		if !bad[id] {
			return fmt.Sprintf("client %d holds a proof of misbehaviour against %s", i, id)
		}
	}
	for _, c := range s.Certs {
		if bad[s.CA(c.ca)] || skip == s.CA(c.ca) {
			continue
		}
		good := false
		for _, l := range c.loggers {
			good = good || !bad[l] && l != skip
		}
		want := c.period < k && good
		for _, r := range s.Revoke {
			if r[0] == c.ca && r[1] == c.rid && r[2] < k {
				want = false
			}
		}
		if c.period < k && !good { // only a faulty logger has it
			continue
		}
		if got := cl.VerifyCTngextension(c.cert); got != want {
			return fmt.Sprintf("client %d: certificate %d of %s (issued in period %d, loggers %v) accepted: %v, expected %v", i, c.rid, s.CA(c.ca), c.period, c.loggers, got, want)
		}
	}
	return ""
}

func init() {
	revs := [][3]int{{0, 1, 1}, {1, 2, 2}}
	// one message of a class is lost
	loss := func(n0, t, l, c, periods, ways int, report bool, class func(m *vrt.Msg) bool) func(e *Env) {
		return func(e *Env) {
			n := NewNetCert(n0, t, l, c, 1)
			e.Explore("runs", func(x *X) {
				lost, behind := "", -1
				s := n.startSystem(x, nil, func(m *vrt.Msg) time.Duration {
					if lost != "" || !class(m) {
						return 0
					}
					how := x.Choose(ways, "")
					if how == 0 {
						return 0
					}
					lost = fmt.Sprintf("%s to %s%s at %s", m.Src, m.Dst, m.Path, time.Now().Format("04:05"))
					x.Tracef("lost: %s", lost)
					if report && m.Dst[0] == '8' {
						fmt.Sscanf(m.Dst[1:], "%d", &behind)
					}
					if how == 2 {
						return 100000 * time.Second
					}
					return refuse
				})
				s.Revoke = revs
				for k := 1; k <= periods; k++ {
					s.runPeriod(k)
					for i := 0; i <= n.N; i++ {
						if i == behind || (i == n.N && behind >= 0) {
							continue
						}
						if v := s.judge(k, i, nil, ""); v != "" {
							x.Violate("loss", "lost: %s; after period %d: %s", lost, k, v)
						}
					}
				}
				x.checkCrashes()
				x.Outcome("%s", lost)
			})
		}
	}
	kind := func(src, dst string) func(m *vrt.Msg) bool {
		return func(m *vrt.Msg) bool { return strings.Contains(src, m.Src[:1]) && strings.Contains(dst, m.Dst[:1]) }
	}
	reg("P27", "loss-issue", "3 pairs (threshold 2), 2 loggers, 2 CAs, 4 clients, 3 periods with revocations; every single message between CAs and loggers lost: every client accepts exactly the certificates issued, proven and not revoked, after every update", loss(3, 2, 2, 2, 3, 3, false, kind("67", "67")))
	reg("P27", "loss-query", "the same, every single message of a monitor lost", loss(3, 2, 2, 2, 3, 3, false, kind("8", "679")))
	reg("P27", "loss-gossip", "the same, every single message between gossipers lost", loss(3, 2, 2, 2, 3, 3, false, kind("9", "9")))
	reg("P27", "loss-report", "the same, every single report of a gossiper to its monitor lost: all clients but those of that monitor", loss(3, 2, 2, 2, 3, 3, true, kind("9", "8")))
	regDeep("P27", "loss-4", "4 pairs with threshold 3: every single message lost", loss(4, 3, 3, 2, 3, 3, true, kind("6789", "6789")))

	// deployments of other shapes, with nothing failing
	for pairs := 2; pairs <= 5; pairs++ {
		pairs := pairs
		reg("P27", fmt.Sprintf("shape-%d", pairs), "so many pairs with every threshold from 1 up, 1 to 3 loggers, 1 to 3 CAs, 1 or 2 certificates per period, 3 periods with revocations and nothing failing", func(e *Env) {
			for t := 1; t <= pairs; t++ {
				for l := 1; l <= 3; l++ {
					for c := 1; c <= 3; c++ {
						n := NewNetCert(pairs, t, l, c, 1+(t+l+c)%2)
						e.Explore(fmt.Sprintf("%d-%d-%d", t, l, c), func(x *X) {
							s := n.startSystem(x, nil, nil)
							s.Revoke = revs
							for k := 1; k <= 3; k++ {
								s.runPeriod(k)
								for i := 0; i <= n.N; i++ {
									if v := s.judge(k, i, nil, ""); v != "" {
										x.Violate("shape", "%d pairs, threshold %d, %d loggers, %d CAs; after period %d: %s", pairs, n.T, n.L, n.C, k, v)
									}
								}
							}
							x.checkCrashes()
							x.Outcome("%d certificates", len(s.Certs))
						})
					}
				}
			}
		})
	}
	reg("P27", "many-entities", "2 pairs (threshold 2) with nine loggers and eight CAs, 21 loggers and a CA, or a logger and 21 CAs, three periods with a revocation by the first and the last CA: every client judges every certificate right", func(e *Env) {
		for _, lc := range [][2]int{{9, 8}, {21, 1}, {1, 21}} {
			l, c := lc[0], lc[1]
			n := NewNetCert(2, 2, l, c, 1)
			e.Explore(fmt.Sprintf("%d-%d", l, c), func(x *X) {
				s := n.startSystem(x, nil, nil)
				s.Revoke = [][3]int{{0, 0, 1}, {c - 1, 0, 1}, {c - 1, 1, 2}}
				for k := 1; k <= 3; k++ {
					s.runPeriod(k)
					for i := 0; i <= n.N; i++ {
						if v := s.judge(k, i, nil, ""); v != "" {
							x.Violate("many", "%d loggers, %d CAs; after period %d: %s", l, c, k, v)
						}
					}
				}
				x.checkCrashes()
				x.Outcome("%d certificates", len(s.Certs))
			})
		}
	})
	// a long run: the labels of periods are used again after an hour
	reg("P27", "hour", "2 pairs (threshold 2), 1 logger, 2 CAs, 63 periods with a revocation in each: every client judges the certificates of the last 50 periods right after every update, also across the hour", func(e *Env) {
		n := NewNetCert(2, 2, 1, 2, 1)
		e.Explore("runs", func(x *X) {
			s := n.startSystem(x, nil, nil)
			for k := 1; k <= 63; k++ {
				s.Revoke = append(s.Revoke, [3]int{k % 2, k / 2, k})
				s.runPeriod(k)
				var recent []issued
				for _, c := range s.Certs {
					if c.period > k-50 {
						recent = append(recent, c)
					}
				}
				s.Certs = recent
				for i := 0; i <= n.N; i++ {
					if v := s.judge(k, i, nil, ""); v != "" {
						x.Violate("hour", "after period %d: %s", k, v)
					}
				}
			}
			x.checkCrashes()
			x.Outcome("%d certificates", len(s.Certs))
		})
	})

	// large statements
	large := func(n0, t, c, certs, periods int, sizes []int) func(e *Env) {
		return func(e *Env) {
			n := NewNetCert(n0, t, 1, c, certs)
			e.Explore("runs", func(x *X) {
				s := n.startSystem(x, nil, nil)
				s.Revoke = [][3]int{{0, 1, 1}, {c - 1, 0, 2}}
				var hist []int
				for k := 1; k <= periods; k++ {
					want := map[int]string{} // in the statements for this period
					for i := 0; i < c; i++ {
						want[i] = fmt.Sprint(setBits(s.CAs[i].CRV.CRV_current))
					}
					for i := 0; i < c && k < periods; i++ {
						size := sizes[x.Choose(len(sizes), "")]
						hist = append(hist, size)
						r := uint32(k*100 + i)
						for j := 0; j < size; j++ { // scattered over the whole vector
							r = r*1664525 + 1013904223
							s.CAs[i].CRV.Revoke(1000 + int(r>>8)%999000)
						}
					}
					s.runPeriod(k)
					for i := 0; i <= n.N; i++ {
						if v := s.judge(k, i, nil, ""); v != "" {
							x.Violate("large", "%v other certificates revoked; after period %d: %s", hist, k, v)
						}
						for j := 0; j < c; j++ {
							x.Require(fmt.Sprint(setBits(s.Cls[i].CRV_database[n.CA(j)])) == want[j], "large vector", "%v certificates revoked: after period %d the vector of %s at client %d is not the CA's", hist, k, n.CA(j), i)
						}
					}
				}
				x.checkCrashes()
				x.Outcome("%v", hist)
			})
		}
	}
	reg("P27", "large", "2 pairs (threshold 2), 1 logger, 2 CAs with 20 certificates per period: each CA revokes 0, 3,000 or 300,000 further certificates in each of two periods: every client takes every update, has exactly the CAs' vectors and judges every certificate right", large(2, 2, 2, 20, 3, []int{0, 3000, 300000}))
	regDeep("P27", "large-3", "the same over three periods with 3 pairs and one CA, and up to 900,000", large(3, 2, 1, 20, 4, []int{0, 3000, 60000, 300000, 900000}))

	// monitors behind the clock, and a slow network
	reg("P27", "drift", "3 pairs (threshold 2), 2 loggers, 2 CAs, 4 periods with revocations: each monitor starts its periods 0, 1 or 4 s late, queries at once or 6 s later, and each message of a monitor or gossiper takes 0, 1 or 3 s: every client accepts exactly the certificates issued, proven and not revoked, after every update", func(e *Env) {
		n := NewNetCert(3, 2, 2, 2, 1)
		e.Explore("runs", func(x *X) {
			drift := map[int]int{}
			for i := 0; i < n.N; i++ {
				drift[i] = []int{0, 1, 4}[x.Choose(3, "")]
			}
			later := []int{0, 6}[x.Choose(2, "")]
			travel := []int{0, 1, 3}[x.Choose(3, "")]
			s := n.startSystem(x, nil, nil)
			for i, m := range s.Clu.M { // they still wait for their first period
				m.Clockdrift_miliseconds = 1000 * drift[i]
				m.Maxdrift_miliseconds = 1000 * later
			}
			s.Take = 58 * time.Second
			s.Revoke = revs
			s.Delay = func(m *vrt.Msg) time.Duration {
				if m.Src[0] == '8' || m.Src[0] == '9' {
					return time.Duration(travel) * time.Second
				}
				return 0
			}
			for k := 1; k <= 4; k++ {
				s.runPeriod(k)
				for i := 0; i <= n.N; i++ {
					if v := s.judge(k, i, nil, ""); v != "" {
						x.Violate("drift", "monitors are %v s late, query %d s later, messages take %d s; after period %d: %s", drift, later, travel, k, v)
					}
				}
			}
			x.checkCrashes()
			x.Outcome("%v %d %d", drift, later, travel)
		})
	})

	// one entity is cut off for some time
	part := func(hang bool, n0, t, l, c, periods int, froms, tos []time.Duration) func(e *Env) {
		return func(e *Env) {
			n := NewNetCert(n0, t, l, c, 1)
			e.Explore("runs", func(x *X) {
				var ids []string
				for i := 0; i < n.C; i++ {
					ids = append(ids, n.CA(i))
				}
				for i := 0; i < n.L; i++ {
					ids = append(ids, n.Lg(i))
				}
				for i := 0; i < n.N; i++ {
					ids = append(ids, n.Mo(i), n.Go(i))
				}
				id := ids[x.Choose(len(ids), "")]
				from := froms[x.Choose(len(froms), "")]
				to := tos[x.Choose(len(tos), "")]
				p := port(id)
				var s *system
				bad := map[string]bool{}
				pair := -1
				if p[0] == '6' || p[0] == '7' {
					bad[id] = true
				} else {
					fmt.Sscanf(p[1:], "%d", &pair)
				}
				never := map[string]bool{}
				if from == 0 && to > time.Hour && !hang {
					never[id] = true
				}
				x.Tracef("%s is cut off from %v to %v", id, from, from+to)
				base := nextMinute() // entities start in this minute
				s = n.startSystem(x, never, func(m *vrt.Msg) time.Duration {
					at := time.Since(base)
					if (m.Src != p && m.Dst != p) || at < from || at >= from+to {
						return 0
					}
					if hang {
						return from + to - at
					}
					return refuse
				})
				s.Revoke = revs
				s.Avoid = pair + 1
				for k := 1; k <= periods; k++ {
					s.runPeriod(k)
					for i := 0; i <= n.N; i++ {
						if i == pair || s.Cls[i] == nil {
							continue
						}
						if v := s.judge(k, i, bad, ""); v != "" {
							x.Violate("cut off", "%s is cut off from %v for %v; after period %d: %s", id, from, to, k, v)
						}
					}
				}
				x.checkCrashes()
				x.Outcome("%s %v %v", id, from, to)
			})
		}
	}
	sec := func(l ...float64) (out []time.Duration) {
		for _, s := range l {
			out = append(out, time.Duration(s*float64(time.Second)))
		}
		return
	}
	ever := 100000.0
	reg("P27", "cut-1", "each entity cut off from the start, or from each of five instants of the first period, for 3 s, 30 s, 70 s or forever: clients of the other monitors accept exactly the certificates issued and not revoked by the other CAs that another logger proves, and hold proofs of misbehaviour only against the one cut off", part(false, 3, 2, 2, 2, 3, sec(0, 30, 40.2, 58.5, 60.3, 62), sec(3, 30, 70, ever)))
	reg("P27", "cut-2", "the same for six instants of the second and third period", part(false, 3, 2, 2, 2, 3, sec(80, 99.8, 100.8, 118, 120.4, 124), sec(3, 30, 70, ever)))
	reg("P27", "hang-1", "as cut-1, but what is sent to or by the one cut off gets no answer, not even a refusal", part(true, 3, 2, 2, 2, 3, sec(0, 30, 40.2, 58.5, 60.3, 62), sec(3, 30, 70, ever)))
	reg("P27", "hang-2", "the same for six instants of the second and third period", part(true, 3, 2, 2, 2, 3, sec(80, 99.8, 100.8, 118, 120.4, 124), sec(3, 30, 70, ever)))
	regDeep("P27", "cut-4", "4 pairs with threshold 3, three loggers, all those instants", part(false, 4, 3, 3, 2, 4, sec(0, 30, 40.2, 58.5, 60.3, 62, 80, 99.8, 100.8, 118, 120.4, 124, 160.2), sec(3, 30, 70, ever)))
}

// ---- P29: misbehaviour seen from the outside ------------------------------------

func init() {
	types := func(n0, t, l, c, periods int, intervals []int, alive bool) func(e *Env) {
		return func(e *Env) {
			n := NewNetCert(n0, t, l, c, 1)
			e.Explore("runs", func(x *X) {
				logger := x.Bool("a logger")
				idx := x.Choose(2, "")
				typ := x.Choose(7, "")
				interval := intervals[x.Choose(len(intervals), "")]
				id := n.CA(idx)
				if logger {
					id = n.Lg(idx)
				}
				down := map[string]bool{}
				if !alive {
					i := x.Choose(n.N, "")
					down[n.Mo(i)], down[n.Go(i)] = true, true
				}
				x.Tracef("%s is of type %d, interval %d, down %v", id, typ, interval, down)
				s := n.startSystem(x, down, nil)
				if logger {
					s.Lgs[idx].Logger_Type, s.Lgs[idx].MisbehaviorInterval = typ, interval
				} else {
					s.CAs[idx].CA_Type, s.CAs[idx].MisbehaviorInterval = typ, interval
				}
				caught := ""
				for k := 1; k <= periods; k++ {
					before := len(x.W.Sent)
					s.runPeriod(k)
					// what the monitors were told in this period
					told := map[string]bool{}
					for _, m := range x.W.Sent[before:] {
						if m.Dst == port(id) && m.Method == "GET" && m.Src[0] == '8' && !m.Failed() {
							var o def.Gossip_object
							if unjson(m.Reply, &o) == nil && o.Signer == id && o.Payload[0] == id && o.Verify(n.cfg[n.Mo(0)]) == nil {
								told[o.Payload[1]+o.Payload[2]] = true
							}
						}
					}
					if caught == "" {
						switch {
						case len(told) > 1:
							caught = def.CON_INIT
						case len(told) == 0:
							caught = def.ACC_FULL
						}
					}
					start := s.T.Add(time.Duration(k) * time.Minute)
					for i := 0; i < n.N; i++ {
						if s.Cls[i] == nil {
							continue
						}
						u, _, ok := x.GetUpdate(n.Mo(i), start.UTC().Minute())
						x.Require(ok, "no update", "monitor %d has no update for period %d", i, k)
						poms := map[string]string{}
						for _, o := range append(append([]def.Gossip_object{}, u.POM_ACCs...), u.POM_CONs...) {
							poms[o.Payload[0]] = o.Type
						}
						for a := range poms {
							if a == id && caught == "" && !logger && typ != 0 {
								caught = def.ACC_FULL // a misbehaving CA may show everybody the same unverifiable statement
							}
							x.Require(a == id && caught != "", "false proof", "in period %d monitor %d has a proof of misbehaviour against %s; %s told its monitors %d different statements", k, i, a, id, len(told))
						}
					}
					for i := 0; i <= n.N; i++ {
						if s.Cls[i] == nil {
							continue
						}
						bad := map[string]bool{}
						if caught != "" {
							bad[id] = true
							p, ok := s.Cls[i].POM_database[id]
							x.Require(ok, "not caught", "%s told its monitors %d different statements (type %d, interval %d), but after period %d client %d has no proof against it", id, len(told), typ, interval, k, i)
							if caught == def.CON_INIT {
								x.Require(p.Type == caught, "wrong proof", "%s showed different statements in period %d, the proof is of type %s", id, k, p.Type)
							}
							// nothing that only this logger proves is accepted
							for _, c := range s.Certs {
								if logger && len(c.loggers) == 1 && c.loggers[0] == id {
									x.Require(!s.Cls[i].VerifyCTngextension(c.cert), "proven by a caught logger", "client %d accepts a certificate that only %s proves", i, id)
								}
							}
						}
						skip := ""
						if typ != 0 {
							skip = id
						}
						if v := s.judge(k, i, bad, skip); v != "" {
							x.Violate("others", "with %s of type %d: %s", id, typ, v)
						}
					}
				}
				x.checkCrashes()
				x.Outcome("%v %d %d %s", logger, typ, interval, caught)
			})
		}
	}
	reg("P29", "types", "3 pairs (threshold 2), 2 loggers, 2 CAs, clients, 4 periods; each CA or logger of each of the seven kinds (honest, split world, unresponsive, and their variants) with interval 1..3: caught by every client exactly if it told monitors different or no statements", types(3, 2, 2, 2, 4, []int{1, 2, 3}, true))
	reg("P29", "types-down", "the same with one pair down, intervals 1 and 2: caught by every client of the others", types(3, 2, 2, 2, 4, []int{1, 2}, false))
	regDeep("P29", "types-4", "4 pairs (threshold 3), intervals 1..5", types(4, 3, 2, 2, 5, []int{1, 2, 3, 4, 5}, true))
	regDeep("P29", "types-4-down", "the same with one pair down", types(4, 3, 2, 2, 5, []int{1, 2, 3}, false))
}
