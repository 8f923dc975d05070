package harness

import (
	"encoding/base64"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"strings"

	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/Gen"
	"github.com/jik18001/CTngV2/Logger"
	"github.com/jik18001/CTngV2/crypto"
	"github.com/jik18001/CTngV2/gossiper"
	"github.com/jik18001/CTngV2/monitor"
	"github.com/jik18001/CTngV2/zzverif/vrt"
)

// ---- P23, P24: generated deployments are consistent ----------------------------

// shape is a deployment and where its entities are.
type shape struct {
	n, t, l, c, certs, mmd int
	addr                   func(kind byte, i int) string // '6' CA, '7' logger, '8' monitor, '9' gossiper
}

func local(kind byte, i int) string { return fmt.Sprintf("localhost:%c%03d", kind, i) }

func (s *shape) list(kind byte, n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, s.addr(kind, i))
	}
	return out
}

// member is one loaded entity.
type member struct {
	id   string
	kind byte
	i    int
	c    *crypto.CryptoConfig
	text string
}

// loadAll initialises every entity from the files in the working directory and
// judges the wiring; loggers maps each CA to its logger list.
func (s *shape) loadAll(x *X) (all []*member, loggers map[int][]string) {
	loggers = map[int][]string{}
	eq := func(who, what string, got, want any) {
		if !reflect.DeepEqual(got, want) {
			x.Violate("config", "%s: %s is %v, expected %v", who, what, got, want)
		}
	}
	G, M, C, L := s.list('9', s.n), s.list('8', s.n), s.list('6', s.c), s.list('7', s.l)
	add := func(kind byte, i int, dir, pre string, c *crypto.CryptoConfig) *member {
		m := &member{id: s.addr(kind, i), kind: kind, i: i, c: c}
		for _, f := range []string{"public", "private", "crypto"} {
			b, err := os.ReadFile(fmt.Sprintf("%s_testconfig/%d/%s_%s_config.json", dir, i+1, pre, f))
			if err != nil {
				x.Violate("config", "%s: %v", m.id, err)
			}
			m.text += string(b)
		}
		all = append(all, m)
		if c == nil {
			x.Violate("config", "%s has no key material", m.id)
			return m
		}
		eq(m.id, "its identity", c.SelfID.String(), m.id)
		eq(m.id, "the threshold", c.Threshold, s.t)
		eq(m.id, "the number of gossipers", c.N, s.n)
		return m
	}
	prt := func(kind byte, i int) string { return fmt.Sprintf("%c%03d", kind, i) }
	for i := 0; i < s.c; i++ {
		c := Gen.InitializeOneEntity("CA", fmt.Sprint(i+1)).(*CA.CAContext)
		m := add('6', i, "ca", "CA", c.CA_crypto_config)
		p, q := c.CA_private_config, c.CA_public_config
		eq(m.id, "the name it signs with", p.Signer, m.id)
		eq(m.id, "its port", p.Port, prt('6', i))
		eq(m.id, "its number of certificates", p.Cert_per_period, s.certs)
		eq(m.id, "its gossipers", p.Gossiperlist, G)
		eq(m.id, "its monitors", p.Monitorlist, M)
		eq(m.id, "the CAs", q.All_CA_URLs, C)
		eq(m.id, "the loggers", q.All_Logger_URLs, L)
		eq(m.id, "MMD", q.MMD, s.mmd)
		if len(p.Loggerlist) == 0 {
			x.Violate("config", "%s has no logger", m.id)
		}
		for _, l := range p.Loggerlist {
			if !slices.Contains(L, l) {
				x.Violate("config", "%s has the logger %s, which does not exist", m.id, l)
			}
		}
		loggers[i] = p.Loggerlist
	}
	for i := 0; i < s.l; i++ {
		c := Gen.InitializeOneEntity("Logger", fmt.Sprint(i+1)).(*Logger.LoggerContext)
		m := add('7', i, "logger", "Logger", c.Logger_crypto_config)
		p, q := c.Logger_private_config, c.Logger_public_config
		eq(m.id, "the name it signs with", p.Signer, m.id)
		eq(m.id, "its port", p.Port, prt('7', i))
		eq(m.id, "its CAs", p.CAlist, C)
		eq(m.id, "its gossipers", p.Gossiperlist, G)
		eq(m.id, "its monitors", p.Monitorlist, M)
		eq(m.id, "the CAs", q.All_CA_URLs, C)
		eq(m.id, "the loggers", q.All_Logger_URLs, L)
		eq(m.id, "MMD", q.MMD, s.mmd)
	}
	for i := 0; i < s.n; i++ {
		c := Gen.InitializeOneEntity("Monitor", fmt.Sprint(i+1)).(*monitor.MonitorContext)
		m := add('8', i, "monitor", "Monitor", c.Monitor_crypto_config)
		p, q := c.Monitor_private_config, c.Monitor_public_config
		eq(m.id, "the name it signs with", p.Signer, m.id)
		eq(m.id, "its port", p.Port, prt('8', i))
		eq(m.id, "its gossiper", p.Gossiper_URL, s.addr('9', i))
		eq(m.id, "its gossiper's port", p.Inbound_gossiper_port, prt('9', i))
		eq(m.id, "the CAs it queries", p.CA_URLs, C)
		eq(m.id, "the loggers it queries", p.Logger_URLs, L)
		eq(m.id, "the CAs", q.All_CA_URLs, C)
		eq(m.id, "the loggers", q.All_Logger_URLs, L)
		eq(m.id, "MMD", q.MMD, s.mmd)
	}
	for i := 0; i < s.n; i++ {
		c := Gen.InitializeOneEntity("Gossiper", fmt.Sprint(i+1)).(*gossiper.GossiperContext)
		m := add('9', i, "gossiper", "Gossiper", c.Gossiper_crypto_config)
		p, q := c.Gossiper_private_config, c.Gossiper_public_config
		eq(m.id, "its port", p.Port, prt('9', i))
		eq(m.id, "its monitor", p.Owner_URL, s.addr('8', i))
		others := []string{}
		for j, g := range G {
			if j != i {
				others = append(others, g)
			}
		}
		eq(m.id, "its peers", p.Connected_Gossipers, others)
		eq(m.id, "the gossipers", q.Gossiper_URLs, G)
		eq(m.id, "the monitors", q.Signer_URLs, M)
		eq(m.id, "MMD", q.MMD, s.mmd)
	}
	return all, loggers
}

// keys judges the key material of all entities against each other.
func (s *shape) keys(x *X, all []*member) {
	ids := map[crypto.CTngID]bool{}
	for _, m := range all {
		ids[crypto.CTngID(m.id)] = true
	}
	type made struct {
		sig  crypto.RSASig
		frag crypto.SigFragment
	}
	var frags []crypto.SigFragment
	sigs := map[string]made{}
	for _, m := range all {
		sg, err := m.c.Sign([]byte("m " + m.id))
		if err != nil {
			x.Violate("config", "%s cannot sign: %v", m.id, err)
		}
		if sg.ID.String() != m.id {
			x.Violate("config", "%s signs as %s", m.id, sg.ID)
		}
		v := made{sig: sg}
		if m.kind == '9' {
			f, err := m.c.ThresholdSign("common")
			if err != nil {
				x.Violate("config", "%s cannot sign fragments: %v", m.id, err)
			}
			v.frag = f
			frags = append(frags, f)
		}
		sigs[m.id] = v
	}
	var full *crypto.ThresholdSig
	if agg, err := all[0].c.ThresholdAggregate(frags[:s.t]); err != nil {
		x.Violate("config", "%d fragments of a %d-of-%d deployment cannot be aggregated: %v", s.t, s.t, s.n, err)
	} else {
		full = &agg
	}
	if agg, err := all[0].c.ThresholdAggregate(frags[s.n-s.t:]); err != nil {
		x.Violate("config", "the last %d fragments cannot be aggregated: %v", s.t, err)
	} else if err := all[0].c.ThresholdVerify("common", agg); err != nil {
		x.Violate("config", "the last %d gossipers' signature does not verify at %s", s.t, all[0].id)
	}
	for _, v := range all {
		got := map[crypto.CTngID]bool{}
		for k := range v.c.SignPublicMap {
			got[k] = true
		}
		if !reflect.DeepEqual(got, ids) {
			x.Violate("config", "%s knows the keys of %d entities, %d exist", v.id, len(got), len(ids))
		}
		if len(v.c.ThresholdPublicMap) != s.n {
			x.Violate("config", "%s knows %d gossipers' threshold keys of %d", v.id, len(v.c.ThresholdPublicMap), s.n)
		}
		for _, m := range all {
			if v.c.Verify([]byte("m "+m.id), sigs[m.id].sig) != nil {
				x.Violate("config", "%s cannot verify %s's signature", v.id, m.id)
			}
			if m.kind == '9' && v.c.FragmentVerify("common", sigs[m.id].frag) != nil {
				x.Violate("config", "%s cannot verify gossiper %s's fragment", v.id, m.id)
			}
		}
		if full != nil && v.c.ThresholdVerify("common", *full) != nil {
			x.Violate("config", "%s cannot verify the signature of %d gossipers", v.id, s.t)
		}
	}
	// nobody has another's secrets
	for _, m := range all {
		d := m.c.SignSecretKey.D.String()
		var b string
		if m.kind == '9' {
			b = base64.StdEncoding.EncodeToString(m.c.ThresholdSecretKey.Serialize())
		}
		for _, v := range all {
			if mine := strings.Contains(v.text, d); mine != (v == m) {
				x.Violate("config", "the files of %s hold the RSA secret of %s: %v", v.id, m.id, mine)
			}
			if b != "" && strings.Contains(v.text, b) != (v == m) {
				x.Violate("config", "the threshold secret of %s and the files of %s", m.id, v.id)
			}
		}
	}
}

func init() {
	// generate makes the files of a deployment in a new directory and enters it
	generate := func(x *X, s *shape, sub string) func() {
		wd, _ := os.Getwd()
		dir, _ := filepath.Abs(filepath.Join(x.Scratch(), "deploy"))
		os.MkdirAll(dir, 0755)
		os.Chdir(dir)
		vrt.ResetKeys()
		DeterministicBLS()
		Gen.Generateall(s.n, s.t, s.l, s.c, s.certs, s.mmd, s.mmd, sub)
		if sub != "" {
			os.Chdir(sub)
		}
		return func() { os.Chdir(wd) }
	}
	pick := func(x *X, ns, ls, cs []int) *shape {
		s := &shape{t: 2, mmd: 60, addr: local}
		s.n = ns[x.Choose(len(ns), "")]
		switch {
		case s.n > 5: // lowest, middle, highest
			s.t = []int{2, s.n / 2, s.n}[x.Choose(3, "")]
		case s.n > 2:
			s.t = 2 + x.Choose(s.n-1, "")
		}
		s.l = ls[x.Choose(len(ls), "")]
		s.c = cs[x.Choose(len(cs), "")]
		s.certs = s.l + 2*s.c
		return s
	}
	more := []int{1, 2, 3, 4, 5, 6, 9, 10, 11}
	most := []int{2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 20}
	gen := func(ns, ls, cs []int) func(e *Env) {
		return func(e *Env) {
			e.Explore("configurations", func(x *X) {
				s := pick(x, ns, ls, cs)
				sub := []string{"", "sub/dir/"}[x.Choose(2, "")]
				x.Tracef("%d monitors and gossipers, threshold %d, %d loggers, %d CAs, directory %q", s.n, s.t, s.l, s.c, sub)
				defer generate(x, s, sub)()
				all, _ := s.loadAll(x)
				s.keys(x, all)
			})
		}
	}
	reg("P23", "generate", "all deployments of 2, 3, 4 or 12 monitor/gossiper pairs, thresholds, 1, 2, 3 or 11 loggers and 1, 2 or 11 CAs, in the current or a new directory: wiring, keys (every entity's signature at every other), secrets", gen([]int{2, 3, 4, 12}, []int{1, 2, 3, 11}, []int{1, 2, 11}))
	reg("P23", "generate-large", "deployments of two pairs with 102 loggers and a CA, and with a logger and 102 CAs, and of 22 pairs with thresholds", func(e *Env) {
		gen([]int{2}, []int{102}, []int{1})(e)
		gen([]int{2}, []int{1}, []int{102})(e)
		gen([]int{22}, []int{1}, []int{1})(e)
	})
	regDeep("P23", "generate-more", "the same for 2..20 pairs and 1..11 loggers and CAs", gen(most, more, more))

	regDeep("P23", "generate-many-pairs", "102 monitor/gossiper pairs, with the lowest, middle and highest threshold", gen([]int{102}, []int{1}, []int{1}))

	entities := func(most int) func(e *Env) {
		return func(e *Env) {
			e.Explore("key-files", func(x *X) {
				n := 2 + x.Choose(most-1, "")
				t := 2 + x.Choose(n-1, "")
				name := []string{"entity%d", "localhost:9%03d", "10.0.0.%d:9000"}[x.Choose(3, "")]
				x.Tracef("%d entities, threshold %d, named %q", n, t, name)
				vrt.ResetKeys()
				DeterministicBLS()
				var ids []crypto.CTngID
				for i := 0; i < n; i++ {
					ids = append(ids, crypto.CTngID(fmt.Sprintf(name, i)))
				}
				confs, err := crypto.GenerateEntityCryptoConfigs(ids, t)
				if err != nil || len(confs) != n {
					x.Violate("config", "%d entities have %d configurations (%v)", n, len(confs), err)
					return
				}
				dir := filepath.Join(x.Scratch(), "keys")
				if err := crypto.SaveCryptoFiles(dir, confs); err != nil {
					x.Violate("config", "the key files cannot be written: %v", err)
				}
				s := &shape{n: n, t: t}
				var all []*member
				for i, id := range ids {
					file := filepath.Join(dir, id.String()+".test.json")
					b, err := os.ReadFile(file)
					if err != nil {
						x.Violate("config", "%s has no key file: %v", id, err)
						return
					}
					c, err := crypto.ReadCryptoConfig(file)
					if err != nil || c == nil {
						x.Violate("config", "%s's key file cannot be read: %v", id, err)
						return
					}
					if w := confs[i]; w.SelfID != id || c.SignSecretKey.D.Cmp(w.SignSecretKey.D) != 0 || !slices.Equal(c.ThresholdSecretKey.Serialize(), w.ThresholdSecretKey.Serialize()) {
						x.Violate("config", "%s's keys read back are not those written", id)
					}
					if c.SelfID != id || c.Threshold != t || c.N != n {
						x.Violate("config", "%s reads back as %s with threshold %d of %d, expected %d of %d", id, c.SelfID, c.Threshold, c.N, t, n)
					}
					all = append(all, &member{id: id.String(), kind: '9', i: i, c: c, text: string(b)})
				}
				s.keys(x, all)
				// the readers that leave the secret, or all threshold keys, out
				sig, _ := all[0].c.Sign([]byte("basic"))
				frag, _ := all[0].c.ThresholdSign("basic")
				for _, id := range ids {
					file := filepath.Join(dir, id.String()+".test.json")
					vo, err := crypto.ReadVerifyOnlyCryptoConfig(file)
					if err != nil || vo.SelfID != id || vo.Verify([]byte("basic"), sig) != nil || vo.FragmentVerify("basic", frag) != nil {
						x.Violate("config", "%s's key file, read for verification only, does not verify (%v)", id, err)
					}
					bc, err := crypto.ReadBasicCryptoConfig(file)
					if err != nil || bc.SelfID != id || bc.Verify([]byte("basic"), sig) != nil {
						x.Violate("config", "%s's key file, read without threshold keys, does not verify (%v)", id, err)
						continue
					}
					sg, err := bc.Sign([]byte("own"))
					if err != nil || vo.Verify([]byte("own"), sg) != nil {
						x.Violate("config", "%s's key file, read without threshold keys, does not sign (%v)", id, err)
					}
				}
			})
		}
	}
	reg("P23", "key-files", "the key files of 2..6 entities with every threshold and three ways of naming them, written and read back by each of the three readers: identity, keys, secrets", entities(6))
	regDeep("P23", "key-files-more", "the same for 2..12 entities", entities(12))

	ips := func(ns, ls, cs []int, layouts ...int) func(e *Env) {
		return func(e *Env) {
			e.Explore("configurations", func(x *X) {
				s := pick(x, ns, ls, cs)
				if len(layouts) == 0 {
					layouts = []int{0, 1, 2, 3, 4, 5}
				}
				layout := layouts[x.Choose(len(layouts), "")]
				var ip Gen.IP_Json
				switch layout {
				case 0: // the template, three networks
					ip = Gen.Generate_IP_Json_template(s.c, s.l, s.n, "10.0.1.", 1, "10.0.2.", 95, "10.0.3.", 7)
				case 1: // the template, one network
					ip = Gen.Generate_IP_Json_template(s.c, s.l, s.n, "172.30.0.", 11, "172.30.0.", 11+s.c, "172.30.0.", 11+s.c+s.l)
				case 2: // the template, all kinds on the same hosts
					ip = Gen.Generate_IP_Json_template(s.c, s.l, s.n, "192.168.0.", 9, "192.168.0.", 9, "192.168.0.", 9)
				default: // written by hand: gossipers not on the monitors' hosts / in reverse order / all on one host
					ip = Gen.IP_Json{Monitor_ip_map: map[int]string{}, Gossiper_ip_map: map[int]string{}, Logger_ip_map: map[int]string{}, CA_ip_map: map[int]string{}}
					host := func(base, n, i int) string {
						switch layout {
						case 3:
							return fmt.Sprintf("10.%d.0.%d", base, i+1)
						case 4:
							return fmt.Sprintf("10.%d.0.%d", base, 200-i)
						}
						return "192.0.2.1"
					}
					for i := 0; i < s.n; i++ {
						ip.Monitor_ip_map[i] = host(1, s.n, i)
						ip.Gossiper_ip_map[i] = host(2, s.n, i)
					}
					for i := 0; i < s.l; i++ {
						ip.Logger_ip_map[i] = host(3, s.l, i)
					}
					for i := 0; i < s.c; i++ {
						ip.CA_ip_map[i] = host(4, s.c, i)
					}
				}
				want := map[byte]map[int]string{'6': ip.CA_ip_map, '7': ip.Logger_ip_map, '8': ip.Monitor_ip_map, '9': ip.Gossiper_ip_map}
				if layout < 3 { // what the template has to be
					masks := map[byte][2]any{}
					switch layout {
					case 0:
						masks = map[byte][2]any{'6': {"10.0.1.", 1}, '7': {"10.0.2.", 95}, '8': {"10.0.3.", 7}, '9': {"10.0.3.", 7}}
					case 1:
						masks = map[byte][2]any{'6': {"172.30.0.", 11}, '7': {"172.30.0.", 11 + s.c}, '8': {"172.30.0.", 11 + s.c + s.l}, '9': {"172.30.0.", 11 + s.c + s.l}}
					case 2:
						masks = map[byte][2]any{'6': {"192.168.0.", 9}, '7': {"192.168.0.", 9}, '8': {"192.168.0.", 9}, '9': {"192.168.0.", 9}}
					}
					for k, n := range map[byte]int{'6': s.c, '7': s.l, '8': s.n, '9': s.n} {
						m := map[int]string{}
						for i := 0; i < n; i++ {
							m[i] = fmt.Sprintf("%s%d", masks[k][0], masks[k][1].(int)+i)
						}
						if !reflect.DeepEqual(m, want[k]) {
							x.Violate("config", "the address template for kind %c is %v, expected %v", k, want[k], m)
						}
						want[k] = m
					}
				}
				x.Tracef("%d monitors and gossipers, threshold %d, %d loggers, %d CAs, layout %d", s.n, s.t, s.l, s.c, layout)
				defer generate(x, s, "")()
				_, before := s.loadAll(x)
				Gen.Write_IP_Json_to_files("lists/ip.json", ip)
				read := Gen.Read_IP_Json_from_files("lists/ip.json")
				if !reflect.DeepEqual(read, ip) {
					x.Violate("config", "the address list read back is %v, written %v", read, ip)
				}
				Gen.Map_all(s.c, s.l, s.n, read)
				mapped := *s
				mapped.addr = func(kind byte, i int) string {
					return fmt.Sprintf("%s:%c%03d", want[kind][i], kind, i)
				}
				all, after := mapped.loadAll(x)
				mapped.keys(x, all)
				for i := range before {
					var exp []string
					for _, l := range before[i] {
						var k int
						fmt.Sscanf(l[len(l)-3:], "%d", &k)
						exp = append(exp, mapped.addr('7', k))
					}
					if !reflect.DeepEqual(after[i], exp) {
						x.Violate("config", "CA %d had the loggers %v, after mapping %v, expected %v", i, before[i], after[i], exp)
					}
				}
			})
		}
	}
	reg("P24", "map", "deployments of 2, 3 or 12 pairs, 1, 2, 4 or 11 loggers and 1, 3 or 11 CAs with six layouts of addresses (template with three, one, shared networks; by hand, reversed, one host), written, read back and applied: the deployment is the same with every entity's address replaced, with all keys working", ips([]int{2, 3, 12}, []int{1, 2, 4, 11}, []int{1, 3, 11}))
	reg("P24", "map-large", "two pairs with 102 loggers and a CA, and with a logger and 102 CAs, by template and by hand", func(e *Env) {
		ips([]int{2}, []int{102}, []int{1}, 0, 4)(e)
		ips([]int{2}, []int{1}, []int{102}, 0, 4)(e)
	})
	regDeep("P24", "map-many-pairs", "102 monitor/gossiper pairs, with the lowest, middle and highest threshold", ips([]int{102}, []int{1}, []int{1}))
	regDeep("P24", "map-more", "the same for 2..20 pairs and 1..11 loggers and CAs", ips(most, more, more))
}
