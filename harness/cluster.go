package harness

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"time"

	"github.com/bits-and-blooms/bitset"
	"github.com/herumi/bls-go-binary/bls"
	"github.com/jik18001/CTngV2/Gen"
	"github.com/jik18001/CTngV2/crypto"
	def "github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/gossiper"
	"github.com/jik18001/CTngV2/monitor"
	"github.com/jik18001/CTngV2/util"
	"github.com/jik18001/CTngV2/zzverif/vrt"
)

// Net is a generated deployment: n monitor/gossiper pairs with threshold t, l
// loggers and c CAs, configured by the repository's own generator.
type Net struct {
	N, T, L, C int
	Dir        string
	cfg        map[string]*crypto.CryptoConfig
}

var nets = map[string]*Net{}

func clearConfigs() { nets = map[string]*Net{} }

type detRand struct{ s uint64 }

func (d *detRand) Read(b []byte) (int, error) {
	for i := range b {
		d.s ^= d.s << 13
		d.s ^= d.s >> 7
		d.s ^= d.s << 17
		b[i] = byte(d.s >> 9)
	}
	return len(b), nil
}

// DeterministicBLS makes BLS key generation deterministic.
func DeterministicBLS() { bls.SetRandFunc(io.Reader(&detRand{s: 0x9E3779B97F4A7C15})) }

// NewNet generates (once per scenario) and loads a deployment.
func NewNet(n, t, l, c int) *Net { return NewNetCert(n, t, l, c, 1) }

func NewNetCert(n, t, l, c, certs int) *Net {
	key := fmt.Sprintf("net-%d-%d-%d-%d-%d", n, t, l, c, certs)
	if nt := nets[key]; nt != nil {
		return nt
	}
	wd, _ := os.Getwd()
	dir := filepath.Join(wd, key)
	os.MkdirAll(dir, 0755)
	os.Chdir(dir)
	vrt.ResetKeys()
	DeterministicBLS()
	Gen.Generateall(n, t, l, c, certs, 60, 60, "")
	os.Chdir(wd)
	nt := &Net{N: n, T: t, L: l, C: c, Dir: dir, cfg: map[string]*crypto.CryptoConfig{}}
	load := func(kind, file string, k int) {
		for i := 1; i <= k; i++ {
			cc, err := crypto.ReadCryptoConfig(fmt.Sprintf("%s/%s/%d/%s", dir, kind, i, file))
			if cc == nil { // (an entity without a threshold secret loads with an error but a usable config)
				panic(err)
			}
			nt.cfg[cc.SelfID.String()] = cc
		}
	}
	load("ca_testconfig", "CA_crypto_config.json", c)
	load("logger_testconfig", "Logger_crypto_config.json", l)
	load("monitor_testconfig", "Monitor_crypto_config.json", n)
	load("gossiper_testconfig", "Gossiper_crypto_config.json", n)
	nets[key] = nt
	return nt
}

func url(prefix string, i int) string { return fmt.Sprintf("localhost:%s%03d", prefix, i) }
func port(u string) string            { return u[len("localhost:"):] }

func (n *Net) CA(i int) string { return url("6", i) }
func (n *Net) Lg(i int) string { return url("7", i) }
func (n *Net) Mo(i int) string { return url("8", i) }
func (n *Net) Go(i int) string { return url("9", i) }

// Crypto is the key material of an entity.
func (n *Net) Crypto(id string) *crypto.CryptoConfig { return n.cfg[id] }

// ---- statements -----------------------------------------------------------

// Period is the label of the current period.
func Period() string { return time.Now().UTC().Format("04") }

func PeriodAt(t time.Time) string { return t.UTC().Format("04") }

func rsaSig(c *crypto.CryptoConfig, msg string) string {
	s, err := c.Sign([]byte(msg))
	if err != nil {
		panic(err)
	}
	return s.String()
}

// STH is a tree head statement of a logger.
func (n *Net) STH(logger, period, root string, size int) def.Gossip_object {
	st := def.STH{Signer: logger, Timestamp: "2000-01-01T00:00:00Z", Period: period, RootHash: hex.EncodeToString([]byte(root)), TreeSize: size}
	b, _ := json.Marshal(st)
	p1 := hex.EncodeToString(b)
	return def.Gossip_object{Application: "CTng", Type: def.STH_INIT, Period: period, Signer: logger, Timestamp: st.Timestamp,
		Signature: [2]string{rsaSig(n.cfg[logger], logger+p1), ""}, Crypto_Scheme: "RSA", Payload: [3]string{logger, p1, ""}}
}

// bitLen is the length of revocation vectors; race scenarios, where everything is slow, use shorter ones.
var bitLen uint = 1000000

func bits(idx ...int) *bitset.BitSet {
	b := bitset.New(bitLen)
	for _, i := range idx {
		b.Set(uint(i))
	}
	return b
}

// REV is the revocation statement of a CA for a period: delta relative to prev.
func (n *Net) REV(ca, period string, prev, delta *bitset.BitSet) def.Gossip_object {
	cur := prev.Union(delta)
	h1b, _ := cur.MarshalBinary()
	h1, _ := crypto.GenerateSHA256(h1b)
	db, _ := delta.MarshalBinary()
	h2, _ := crypto.GenerateSHA256(db)
	hr, _ := crypto.GenerateSHA256([]byte(period + string(h1) + string(h2)))
	return n.revRaw(ca, period, compress(db), rsaSig(n.cfg[ca], string(hr)))
}

var compressMemo = map[string][]byte{}

func compress(b []byte) []byte {
	k := hashStr(string(b))
	if c, ok := compressMemo[k]; ok {
		return c
	}
	c, err := util.CompressData(b)
	if err != nil {
		panic(err)
	}
	compressMemo[k] = c
	return c
}

func (n *Net) revRaw(ca, period string, delta []byte, srh string) def.Gossip_object {
	r := def.Revocation{Period: period, Delta_CRV: delta, SRH: srh}
	b, _ := json.Marshal(r)
	return def.Gossip_object{Application: "CTng", Type: def.REV_INIT, Period: period, Signer: ca,
		Signature: [2]string{rsaSig(n.cfg[ca], ca+"CRV"+string(b)), ""}, Crypto_Scheme: "RSA", Payload: [3]string{ca, "CRV", string(b)}}
}

// ACC is a monitor's accusation.
func (n *Net) ACC(mon, accused, period string) def.Gossip_object {
	return def.Gossip_object{Application: "CTng", Type: def.ACC_INIT, Period: period, Signer: mon, Timestamp: "2000-01-01T00:00:00Z",
		Signature: [2]string{rsaSig(n.cfg[mon], accused), ""}, Crypto_Scheme: "RSA", Payload: [3]string{accused, "", ""}}
}

var fragType = map[string]string{def.STH_INIT: def.STH_FRAG, def.REV_INIT: def.REV_FRAG, def.ACC_INIT: def.ACC_FRAG}
var fullType = map[string]string{def.STH_INIT: def.STH_FULL, def.REV_INIT: def.REV_FULL, def.ACC_INIT: def.ACC_FULL}

func msgOf(g def.Gossip_object) string { return g.Payload[0] + g.Payload[1] + g.Payload[2] }

// Frag is gossiper g's signature fragment on a statement.
func (n *Net) Frag(g string, o def.Gossip_object) def.Gossip_object {
	s, err := n.cfg[g].ThresholdSign(msgOf(o))
	if err != nil {
		panic(err)
	}
	f := o
	f.Type = fragType[o.Type]
	f.Signature = [2]string{s.String(), ""}
	f.Signer = g
	f.Crypto_Scheme = "bls"
	return f
}

// Full aggregates the fragments of the given gossipers.
func (n *Net) Full(o def.Gossip_object, gs ...string) def.Gossip_object {
	var fr []crypto.SigFragment
	for _, g := range gs {
		s, _ := n.cfg[g].ThresholdSign(msgOf(o))
		fr = append(fr, s)
	}
	agg, err := crypto.ThresholdAggregate(fr, 0)
	if err != nil {
		panic(err)
	}
	str, _ := agg.String()
	return def.Gossip_object{Application: "CTng", Type: fullType[o.Type], Period: o.Period, Signers: gs, Signature: [2]string{str, ""},
		Timestamp: "2000-01-01T00:00:00Z", Crypto_Scheme: "bls", Payload: o.Payload}
}

// CON is a conflict proof built from two statements.
func (n *Net) CON(a, b def.Gossip_object) def.Gossip_object {
	return def.Gossip_object{Application: "CTng", Type: def.CON_INIT, Period: a.Period, Timestamp: "2000-01-01T00:00:00Z",
		Signature: [2]string{a.Signature[0], b.Signature[0]}, Payload: [3]string{a.Payload[0], msgOf(a), msgOf(b)}}
}

// ---- entities -------------------------------------------------------------

// Gossiper initialises gossiper i from its generated configuration files.
func (n *Net) Gossiper(x *X, i int) *gossiper.GossiperContext {
	d := fmt.Sprintf("%s/gossiper_testconfig/%d/Gossiper_", n.Dir, i+1)
	c := gossiper.InitializeGossiperContext(d+"public_config.json", d+"private_config.json", d+"crypto_config.json", fmt.Sprint(i+1))
	c.Max_latency = 0
	c.StorageDirectory = x.Scratch() + "/"
	c.StorageFile = fmt.Sprintf("gossiper%d.json", i)
	c.Total_Logger, c.Total_CA = n.L, n.C
	return c
}

// Monitor initialises monitor i.
func (n *Net) Monitor(x *X, i int) *monitor.MonitorContext {
	d := fmt.Sprintf("%s/monitor_testconfig/%d/Monitor_", n.Dir, i+1)
	c := monitor.InitializeMonitorContext(d+"public_config.json", d+"private_config.json", d+"crypto_config.json", fmt.Sprint(i+1))
	c.Max_latency = 0
	c.InitializeMonitorStorage(x.Scratch() + "/mon")
	c.Period_Offset = "0"
	util.CreateDir(c.StorageDirectory)
	return c
}

// Start starts a server function of the code under test in its own goroutine.
func (x *X) Start(name string, f func()) {
	go func() {
		vrt.SetEntity(name)
		defer vrt.GoStart()()
		f()
	}()
	time.Sleep(time.Millisecond)
	x.W.Quiesce()
}

// Cluster is a set of running monitors and gossipers.
type Cluster struct {
	*Net
	X  *X
	G  map[int]*gossiper.GossiperContext
	M  map[int]*monitor.MonitorContext
	T0 time.Time // start of the first full period
}

// StartCluster starts the given gossipers and monitors one second before the
// minute boundary, and runs until they are listening.
func (n *Net) StartCluster(x *X, gs, ms []int) *Cluster {
	c := &Cluster{Net: n, X: x, G: map[int]*gossiper.GossiperContext{}, M: map[int]*monitor.MonitorContext{}}
	now := time.Now()
	c.T0 = now.Truncate(time.Minute).Add(time.Minute)
	time.Sleep(c.T0.Add(-900 * time.Millisecond).Sub(now))
	for _, i := range gs {
		g := n.Gossiper(x, i)
		c.G[i] = g
		x.Start(port(n.Go(i)), func() { gossiper.StartGossiperServer(g) })
	}
	time.Sleep(500 * time.Millisecond)
	for _, i := range ms {
		m := n.Monitor(x, i)
		c.M[i] = m
		x.Start(port(n.Mo(i)), func() { monitor.StartMonitorServer(m) })
	}
	return c
}

// allListening runs (without delivering anything) until every monitor listens, so
// that no statement is lost merely because an owner has not started yet.
func (c *Cluster) allListening() {
	c.X.W.CtlTimers = true
	c.X.W.AdvanceTo(c.T0.Add(650 * time.Millisecond))
}
