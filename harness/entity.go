package harness

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"time"

	"github.com/bits-and-blooms/bitset"
	"github.com/jik18001/CTngV2/CA"
	"github.com/jik18001/CTngV2/Logger"
	"github.com/jik18001/CTngV2/client"
	def "github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/monitor"
)

// CAContext initialises CA i from its generated configuration files.
func (n *Net) CAContext(i int) *CA.CAContext {
	d := fmt.Sprintf("%s/ca_testconfig/%d/CA_", n.Dir, i+1)
	c := CA.InitializeCAContext(d+"public_config.json", d+"private_config.json", d+"crypto_config.json")
	c.Max_latency = 0
	return c
}

// LoggerContext initialises logger i.
func (n *Net) LoggerContext(x *X, i int) *Logger.LoggerContext {
	d := fmt.Sprintf("%s/logger_testconfig/%d/Logger_", n.Dir, i+1)
	c := Logger.InitializeLoggerContext(d+"public_config.json", d+"private_config.json", d+"crypto_config.json")
	c.Max_latency = 0
	c.StoragePath = fmt.Sprintf("%s/logger%d.json", x.Scratch(), i)
	return c
}

func (n *Net) StartCA(x *X, i int) *CA.CAContext {
	c := n.CAContext(i)
	x.Start(port(n.CA(i)), func() { CA.StartCA(c) })
	return c
}

func (n *Net) StartLogger(x *X, i int) *Logger.LoggerContext {
	c := n.LoggerContext(x, i)
	x.Start(port(n.Lg(i)), func() { Logger.StartLogger(c) })
	return c
}

// Client is a client with databases in the execution's scratch directory.
func (n *Net) Client(x *X, status string) *client.ClientContext {
	return n.ClientIn(x, filepath.Join(x.Scratch(), "client"), status)
}

func (n *Net) ClientIn(x *X, d, status string) *client.ClientContext {
	os.MkdirAll(d, 0755)
	cfg := client.ClientConfig{Monitor_URLs: []string{n.Mo(0)}, MMD: 60, MRD: 60, STH_Storage_filepath: d + "/STH.json", CRV_Storage_filepath: d + "/CRV.json", PoM_Store_filepath: d + "/POM.json"}
	os.WriteFile(d+"/config.json", mustJSON(cfg), 0644)
	c := &client.ClientContext{Status: status, Config_filepath: d + "/config.json", Crypto_filepath: fmt.Sprintf("%s/monitor_testconfig/1/Monitor_crypto_config.json", n.Dir), Config: &client.ClientConfig{}}
	c.InitializeClientContext()
	return c
}

// setBits lists the set positions.
func setBits(b *bitset.BitSet) []uint {
	out := []uint{}
	if b == nil {
		return out
	}
	for i, ok := b.NextSet(0); ok; i, ok = b.NextSet(i + 1) {
		out = append(out, i)
	}
	return out
}

// sthOf decodes a tree head statement.
func sthOf(o def.Gossip_object) (def.STH, bool) {
	var s def.STH
	b, err := hex.DecodeString(o.Payload[1])
	return s, err == nil && json.Unmarshal(b, &s) == nil
}

// askStatement queries a logger or CA as a monitor does, after redirects.
func (x *X) askStatement(id string) (def.Gossip_object, int, bool) {
	path := "/ctng/v2/get-sth"
	if port(id)[0] == '6' {
		path = "/ctng/v2/get-revocation"
	}
	code, b, err := x.W.Do(port(id), "GET", path, nil)
	var o def.Gossip_object
	if err != nil || json.Unmarshal(b, &o) != nil {
		return o, code, false
	}
	return o, code, o.Type != ""
}

// nextMinute is the start of the next minute.
func nextMinute() time.Time { return time.Now().Truncate(time.Minute).Add(time.Minute) }

func updateOf(revs ...def.Gossip_object) monitor.ClientUpdate {
	return monitor.ClientUpdate{REVs: revs}
}

func monDelta(o def.Gossip_object) (string, bitset.BitSet) { return monitor.Get_SRH_and_DCRV(o) }

func sortedU(l []uint) []uint {
	out := append([]uint{}, l...)
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}
