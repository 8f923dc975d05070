package harness

import (
	"encoding/json"
	"fmt"
	"net/http"
	"time"

	"github.com/bits-and-blooms/bitset"
	"github.com/jik18001/CTngV2/CA"
	def "github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/zzverif/vrt"
)

// ---- P15: revocations accumulate -----------------------------------------------------------

func init() {
	type rv struct {
		rids []int
		at   time.Duration
	}
	opts := []rv{{nil, 0}, {[]int{0}, 20}, {[]int{7, 999999}, 20}, {[]int{7}, 50}, {[]int{1000005}, 20}, {[]int{64, 65}, 50}}
	run := func(periods int, mass bool) func(e *Env) {
		return func(e *Env) {
			n := NewNet(3, 2, 1, 2)
			e.Explore("history", func(x *X) {
				var ch []rv
				for k := 0; k < periods; k++ {
					ch = append(ch, opts[x.Choose(len(opts), "")])
				}
				x.Tracef("revocations %v", ch)
				var rev []def.Gossip_object
				x.W.Auto = func(*vrt.Msg) bool { return true }
				x.W.Fault = func(m *vrt.Msg) (*http.Response, error) {
					if m.Dst[0] == '7' {
						return nil, fmt.Errorf("connection refused")
					}
					if m.Dst[0] == '9' {
						var o def.Gossip_object
						json.Unmarshal(m.Body, &o)
						if o.Type == def.REV_INIT {
							rev = append(rev, o)
						}
						return okResponse(""), nil
					}
					return nil, nil
				}
				time.Sleep(30 * time.Second)
				ca := n.StartCA(x, 0)
				n.StartCA(x, 1)
				if mass {
					ca.RevocationRatio = 0.000008
				}
				cl := n.Client(x, "NEW")
				t0 := nextMinute()
				x.W.AdvanceTo(t0.Add(5 * time.Second))
				c := &Cluster{}
				truth := map[int][]uint{} // revoked as of the statement for period k
				for k := 0; k <= periods+1; k++ {
					start := t0.Add(time.Duration(k) * time.Minute)
					if k == 1 { // monitors start once the CAs have statements
						x.W.AdvanceTo(start.Add(-2 * time.Second))
						c = n.StartCluster(x, nil, []int{0})
						c.M[0].Monitor_private_config.Logger_URLs = nil
					}
					x.W.AdvanceTo(start.Add(10 * time.Second))
					if k >= 1 {
						x.Require(len(rev) == 2, "revocations not passed on", "in period %d the monitor passed on %d of 2 revocation statements (history %v)", k, len(rev), ch)
						for _, o := range rev {
							x.PostMonitor(n.Mo(0), n.Full(o, n.Go(1), n.Go(2)))
						}
					}
					rev = nil
					revoke := func(at time.Duration) {
						if k < len(ch) && ch[k].at == at {
							for _, r := range ch[k].rids {
								ca.CRV.Revoke(r)
							}
						}
					}
					x.W.AdvanceTo(start.Add(20 * time.Second))
					revoke(20)
					x.W.AdvanceTo(start.Add(45 * time.Second))
					truth[k+1] = setBits(ca.CRV.CRV_current)
					if k >= 1 {
						u, code, ok := x.GetUpdate(n.Mo(0), start.UTC().Minute())
						x.Require(ok, "no update", "no update for period %d (%d)", k, code)
						x.Require(len(u.REVs) == 2 && len(u.POM_ACCs)+len(u.POM_CONs) == 0, "update contents", "update of period %d has %d revocations, %d proofs", k, len(u.REVs), len(u.POM_ACCs)+len(u.POM_CONs))
						x.Require(cl.HandleUpdate(u, true, k == 1), "client rejects", "the client rejects the update of period %d (history %v)", k, ch)
						got, want := fmt.Sprint(setBits(cl.CRV_database[n.CA(0)])), fmt.Sprint(truth[k])
						x.Require(got == want, "client's revocations", "after period %d the client takes %s for revoked, the CA had revoked %s", k, got, want)
						x.Require(len(setBits(cl.CRV_database[n.CA(1)])) == 0, "other CA's revocations", "revocations of one CA count for another")
						got = fmt.Sprint(setBits(c.M[0].Storage_CRV[n.CA(0)]))
						x.Require(got == want, "monitor's revocations", "after period %d the monitor takes %s for revoked, the CA had revoked %s", k, got, want)
					}
					x.W.AdvanceTo(start.Add(50 * time.Second))
					revoke(50)
				}
				for k := range ch {
					for _, r := range ch[k].rids {
						if k < periods-1 || ch[k].at < 40 {
							ok := false
							for _, b := range setBits(cl.CRV_database[n.CA(0)]) {
								ok = ok || b == uint(r)
							}
							x.Require(ok, "revocation lost", "certificate %d, revoked in period %d, is not revoked for the client", r, k)
						}
					}
				}
				x.checkCrashes()
				x.Outcome("%v", ch)
			})
		}
	}
	reg("P15", "history-2", "real CA, monitor and client (threshold signatures by the harness): all histories of revocations over two periods (nothing, first and last index, beyond the initial size, same one again, before or after the statement is made): passed on, in the update, accepted, and exactly the CA's set at monitor and client", run(2, false))
	reg("P15", "history-3", "the same over three periods", run(3, false))
	regDeep("P15", "history-4", "the same over four periods", run(4, false))
	reg("P15", "mass", "the same over two periods with an initial mass revocation", run(2, true))

	// The statement of a CA fits every state of the vector: direct enumeration of previous and current sets.
	reg("P15", "deltas", "all pairs of previous and current revocation sets over 5 positions (first, word boundaries, last) and 8 states of another party: the CA's delta leads from one to the other, and the statement verifies for a monitor and a client in the previous state and for no state it does not lead from", func(e *Env) {
		n := NewNet(3, 2, 1, 1)
		pos := []int{0, 63, 64, 999999, 1000064}
		e.Explore("sets", func(x *X) {
			ca := n.CAContext(0)
			mon := n.Monitor(x, 0)
			cl := n.Client(x, "NEW")
			a, d, other := 0, 0, 0 // previous set, newly revoked (disjoint)
			for i := range pos {
				switch x.Choose(3, "") {
				case 1:
					a |= 1 << i
				case 2:
					d |= 1 << i
				}
			}
			switch k := x.Choose(len(pos)+3, ""); k {
			case 0:
				other = 0
			case 1:
				other = 31
			case 2:
				other = a | d
			default:
				other = a ^ 1<<(k-3)
			}
			var prev []uint
			for i, q := range pos {
				if a>>i&1 == 1 {
					ca.CRV.Revoke(q)
					prev = append(prev, uint(q))
				}
			}
			first := CA.Generate_Revocation(ca, "05", 0)
			ca.CRV.CRV_pre_update = ca.CRV.CRV_current.Clone()
			for i, q := range pos {
				if d>>i&1 == 1 {
					ca.CRV.Revoke(q)
				}
			}
			second := CA.Generate_Revocation(ca, "06", 0)
			apply := func(o def.Gossip_object, base *bitset.BitSet) (*bitset.BitSet, bool) {
				var r def.Revocation
				json.Unmarshal([]byte(o.Payload[2]), &r)
				mon.Storage_CRV = map[string]*bitset.BitSet{}
				cl.CRV_database = map[string]*bitset.BitSet{}
				if base != nil {
					mon.Storage_CRV[n.CA(0)] = base.Clone()
					cl.CRV_database[n.CA(0)] = base.Clone()
				}
				f := n.Full(o, n.Go(0), n.Go(1))
				ok := cl.HandleUpdate(updateOf(f), true, false)
				srh, dd := monDelta(o)
				okm := mon.VerifySRH(srh, &dd, n.CA(0), o.Period)
				x.Require(ok == okm, "monitor and client differ", "a revocation statement is valid for the monitor: %v, for the client: %v", okm, ok)
				return cl.CRV_database[n.CA(0)], ok
			}
			s1, ok := apply(first, nil)
			x.Require(ok && fmt.Sprint(setBits(s1)) == fmt.Sprint(sortedU(prev)), "first statement", "the first statement gives %v, revoked are %v", setBits(s1), prev)
			s2, ok := apply(second, s1.Clone())
			x.Require(ok && fmt.Sprint(setBits(s2)) == fmt.Sprint(setBits(ca.CRV.CRV_current)), "second statement", "from %v the second statement gives %v, revoked are %v", prev, setBits(s2), setBits(ca.CRV.CRV_current))
			// a party in another state must not accept it
			ob := bitset.New(1000000)
			want := map[uint]bool{}
			for i, q := range pos {
				if other>>i&1 == 1 {
					ob.Set(uint(q))
				}
				if (a|d)>>i&1 == 1 {
					want[uint(q)] = true
				}
			}
			same := true
			for i, q := range pos {
				in := (other|d)>>i&1 == 1
				same = same && in == want[uint(q)]
			}
			if s3, ok := apply(second, ob); ok {
				x.Require(same && len(setBits(s3)) == len(want), "accepted in another state", "from %v the statement that revokes %v was accepted and gives %v", setBits(ob), want, setBits(s3))
			}
			x.Outcome("ok")
		})
	})
}

// ---- P16: honest entities make one statement per period ---------------------------------------

func (n *Net) validStatement(x *X, id string, o def.Gossip_object, p string) {
	x.Require(o.Signer == id && o.Payload[0] == id && o.Period == p, "label", "%s answers in period %s with a statement of %s for %q", id, p, o.Signer, o.Period)
	for _, role := range []string{n.Go(0), n.Mo(0), n.CA(0), n.Lg(0)} {
		err := o.Verify(n.cfg[role])
		x.Require(err == nil, "invalid statement", "the statement of %s for period %s does not verify: %v", id, p, err)
	}
	if port(id)[0] == '7' {
		s, ok := sthOf(o)
		x.Require(ok && o.Type == def.STH_INIT && s.Signer == id && s.Period == p, "tree head content", "tree head of %s in period %s: %+v", id, p, s)
	} else {
		var r def.Revocation
		x.Require(json.Unmarshal([]byte(o.Payload[2]), &r) == nil && o.Type == def.REV_INIT && r.Period == p, "revocation content", "revocation of %s in period %s is for %q", id, p, r.Period)
	}
}

func init() {
	reg("P16", "hour", "two CAs and two loggers running for 63 periods (all minute labels, wrapping) from two starting minutes; asked at seven instants of every period: always the same statement, valid, signed and labelled for this period", func(e *Env) {
		n := NewNetCert(3, 2, 2, 2, 1)
		e.Explore("hour", func(x *X) {
			off := []int{0, 57, 8}[x.Choose(3, "")]
			x.W.Auto = func(*vrt.Msg) bool { return true }
			time.Sleep(time.Duration(off)*time.Minute + 30*time.Second)
			for i := 0; i < 2; i++ {
				n.StartLogger(x, i)
				n.StartCA(x, i)
			}
			t0 := nextMinute()
			x.W.AdvanceTo(t0.Add(5 * time.Second))
			seen := map[string]string{}
			for k := 1; k <= 63; k++ {
				start := t0.Add(time.Duration(k) * time.Minute)
				p := PeriodAt(start)
				for _, s := range []time.Duration{0, 1100, 5000, 39999, 40001, 45000, 59900} {
					x.W.AdvanceTo(start.Add(s * time.Millisecond))
					for _, id := range []string{n.Lg(0), n.Lg(1), n.CA(0), n.CA(1)} {
						o, code, ok := x.askStatement(id)
						x.Require(ok, "no statement", "%s has no statement %v into period %s (status %d)", id, s*time.Millisecond, p, code)
						n.validStatement(x, id, o, p)
						key, b := fmt.Sprint(id, k), string(mustJSON(o))
						x.Require(seen[key] == "" || seen[key] == b, "two statements", "%s gave two different statements for period %s", id, p)
						seen[key] = b
					}
				}
				x.checkCrashes()
			}
			for _, p := range x.W.Panics {
				x.Violate("panic", "%s", p)
			}
			x.Outcome("63 periods from minute %d", off)
		})
	})
	reg("P16", "hang", "two CAs and two loggers for six periods, one of them off and never answering what it is sent, or only from the third period on: the others' statements as ever", func(e *Env) {
		n := NewNetCert(3, 2, 2, 2, 1)
		e.Explore("hang", func(x *X) {
			ids := []string{n.Lg(0), n.Lg(1), n.CA(0), n.CA(1)}
			off := ids[x.Choose(4, "")]
			from := time.Duration(x.Choose(2, "")) * 3 * time.Minute
			x.Tracef("%s never answers from %v on", off, from)
			base := time.Now()
			x.W.Auto = func(*vrt.Msg) bool { return true }
			x.W.Fault = func(m *vrt.Msg) (*http.Response, error) {
				if m.Dst == port(off) && m.Src != "" && time.Since(base) >= from {
					vrt.Sleep(100000 * time.Second)
				}
				return nil, nil
			}
			time.Sleep(30 * time.Second)
			for i := 0; i < 2; i++ {
				if from > 0 || n.Lg(i) != off {
					n.StartLogger(x, i)
				}
				if from > 0 || n.CA(i) != off {
					n.StartCA(x, i)
				}
			}
			t0 := nextMinute()
			seen := map[string]string{}
			for k := 1; k <= 6; k++ {
				start := t0.Add(time.Duration(k) * time.Minute)
				p := PeriodAt(start)
				for _, s := range []time.Duration{1100, 30000, 45000, 59900} {
					x.W.AdvanceTo(start.Add(s * time.Millisecond))
					for _, id := range ids {
						if id == off {
							continue
						}
						o, code, ok := x.askStatement(id)
						x.Require(ok, "no statement", "%s has no statement %v into period %s (status %d), while %s never answers", id, s*time.Millisecond, p, code, off)
						n.validStatement(x, id, o, p)
						key, b := fmt.Sprint(id, k), string(mustJSON(o))
						x.Require(seen[key] == "" || seen[key] == b, "two statements", "%s gave two different statements for period %s", id, p)
						seen[key] = b
					}
				}
			}
			x.checkCrashes()
			x.Outcome("%s %v", off, from)
		})
	})
	reg("P16", "quiet", "a logger that gets 0, 1 or 2 precertificates in each of five periods, in all combinations: a valid tree head over exactly these for every period", func(e *Env) {
		n := NewNet(3, 2, 1, 2)
		e.Explore("submissions", func(x *X) {
			var cnt []int
			for k := 0; k < 5; k++ {
				cnt = append(cnt, x.Choose(3, ""))
			}
			x.Tracef("precertificates by period: %v", cnt)
			w := n.watchLogger(x)
			c := n.CAContext(0)
			t0 := time.Now().Truncate(time.Minute)
			for k, m := range cnt {
				x.W.AdvanceTo(t0.Add(time.Duration(k)*time.Minute + 10*time.Second))
				for _, p := range precerts(c, m) {
					x.Require(w.submit(p.Raw) == 200, "valid refused", "a valid precertificate was refused")
				}
				for _, s := range []time.Duration{2, 30, 55} {
					x.W.AdvanceTo(t0.Add(time.Duration(k+1)*time.Minute + s*time.Second))
					h, _, p := w.sth()
					x.Require(h.TreeSize == m, "tree size", "the tree head for period %s is over %d precertificates, the logger got %v by period", p, h.TreeSize, cnt[:k+1])
					if s == 2 && k+1 < len(cnt) {
						break // the next submissions are due
					}
				}
			}
			x.checkCrashes()
			x.Outcome("%v", cnt)
		})
	})
	reg("P16", "start", "a CA and a logger started at every second (and half second) of a minute: from the second full period on each answers with the valid statement of the period", func(e *Env) {
		n := NewNetCert(3, 2, 2, 2, 1)
		e.Explore("start", func(x *X) {
			ms := x.Choose(120, "") * 500
			x.W.Auto = func(*vrt.Msg) bool { return true }
			time.Sleep(time.Duration(ms) * time.Millisecond)
			if ms == 0 {
				time.Sleep(time.Millisecond)
			}
			n.StartLogger(x, 0)
			n.StartCA(x, 0)
			t0 := nextMinute().Add(time.Minute)
			for k := 0; k < 2; k++ {
				for _, s := range []int{2, 30, 55} {
					at := t0.Add(time.Duration(k)*time.Minute + time.Duration(s)*time.Second)
					x.W.AdvanceTo(at)
					for _, id := range []string{n.Lg(0), n.CA(0)} {
						o, code, ok := x.askStatement(id)
						x.Require(ok, "no statement", "%s, started %d ms into a minute, has no statement %d s into period %d (status %d)", id, ms, s, k, code)
						n.validStatement(x, id, o, PeriodAt(at))
					}
				}
			}
			x.checkCrashes()
			x.Outcome("ok")
		})
	})
}
