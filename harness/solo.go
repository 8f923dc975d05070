package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"strings"

	"github.com/herumi/bls-go-binary/bls"
	"github.com/jik18001/CTngV2/crypto"
	def "github.com/jik18001/CTngV2/definition"
	"github.com/jik18001/CTngV2/gossiper"
	"github.com/jik18001/CTngV2/monitor"
	"github.com/jik18001/CTngV2/zzverif/vrt"
)

func okResponse(body string) *http.Response {
	return &http.Response{Status: "200 OK", StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(body)), ContentLength: int64(len(body))}
}

// Sink answers every outgoing request of the code under test with 200 and records it.
func (x *X) Sink() {
	x.W.Fault = func(m *vrt.Msg) (*http.Response, error) { return okResponse(""), nil }
}

// SoloGossiper starts one gossiper whose outgoing messages are recorded.
func (n *Net) SoloGossiper(x *X, i int) *gossiper.GossiperContext {
	x.Sink()
	return n.StartCluster(x, []int{i}, nil).waitStarted().G[i]
}

// SoloMonitor starts one monitor; its outgoing requests go to the handler.
func (n *Net) SoloMonitor(x *X, i int, f func(m *vrt.Msg) (*http.Response, error)) *monitor.MonitorContext {
	if f == nil {
		x.Sink()
	} else {
		x.W.Fault = f
	}
	return n.StartCluster(x, nil, []int{i}).waitStarted().M[i]
}

// waitStarted lets time run to just after the period boundary.
func (c *Cluster) waitStarted() *Cluster {
	c.X.W.AdvanceTo(c.T0.Add(700e6))
	return c
}

var gossipPath = map[string]string{def.STH_INIT: "/gossip/sth_init", def.REV_INIT: "/gossip/rev_init", def.ACC_INIT: "/gossip/acc_init", def.CON_INIT: "/gossip/con_init",
	def.STH_FRAG: "/gossip/sth_frag", def.REV_FRAG: "/gossip/rev_frag", def.ACC_FRAG: "/gossip/acc_frag",
	// no endpoint of their own: any gossip endpoint decodes them
	def.STH_FULL: "/gossip/sth_frag", def.REV_FULL: "/gossip/rev_init", def.ACC_FULL: "/gossip/acc_frag"}

// Post sends an object to a gossiper and runs to quiescence.
func (x *X) Post(g string, o def.Gossip_object) {
	b, _ := json.Marshal(o)
	p := gossipPath[o.Type]
	if p == "" {
		p = "/gossip/sth_init"
	}
	x.Tracef("post %s to %s", desc(o), g)
	x.W.Do(port(g), "POST", p, b)
}

// PostMonitor sends an object to a monitor's gossip endpoint.
func (x *X) PostMonitor(m string, o def.Gossip_object) {
	b, _ := json.Marshal(o)
	x.Tracef("post %s to %s", desc(o), m)
	x.W.Do(port(m), "POST", "/monitor/receive-gossip-from-gossiper", b)
}

func desc(o def.Gossip_object) string {
	return fmt.Sprintf("%s signer=%q period=%q about=%q body=%s sig=%s", def.TypeString(o.Type), o.Signer, o.Period, o.Payload[0], hashStr(o.Payload[1] + "|" + o.Payload[2])[:6], hashStr(o.Signature[0] + "|" + o.Signature[1])[:6])
}

// SentObjects decodes the gossip objects sent so far to a destination path prefix.
func (x *X) SentObjects(pathPrefix string) []def.Gossip_object {
	var out []def.Gossip_object
	for _, m := range x.W.Sent {
		if strings.HasPrefix(m.Path, pathPrefix) {
			var o def.Gossip_object
			if json.NewDecoder(bytes.NewReader(m.Body)).Decode(&o) == nil {
				out = append(out, o)
			}
		}
	}
	return out
}

// ---- independent oracles ---------------------------------------------------

// trueFull decides whether an object carries a valid threshold signature: at
// least t distinct known gossipers, and the signature is their aggregate on the payload.
func (n *Net) trueFull(o def.Gossip_object) bool {
	var s struct {
		Sign string
		IDs  []string
	}
	if json.Unmarshal([]byte(o.Signature[0]), &s) != nil {
		return false
	}
	var sg bls.Sign
	if sg.DeserializeHexStr(s.Sign) != nil {
		return false
	}
	pubs := n.cfg[n.Go(0)].ThresholdPublicMap
	seen := map[string]bool{}
	var keys []bls.PublicKey
	for _, id := range s.IDs {
		k, ok := pubs[crypto.CTngID(id)]
		if !ok || seen[id] {
			return false
		}
		seen[id] = true
		keys = append(keys, k)
	}
	return len(seen) >= n.T && sg.FastAggregateVerify(keys, []byte(msgOf(o)))
}

// trueFrag: a fragment by the gossiper named as signer on exactly this payload.
func (n *Net) trueFrag(o def.Gossip_object) bool {
	var s map[string]string
	if json.Unmarshal([]byte(o.Signature[0]), &s) != nil {
		return false
	}
	var sg bls.Sign
	if sg.DeserializeHexStr(s["sign"]) != nil {
		return false
	}
	k, ok := n.cfg[n.Go(0)].ThresholdPublicMap[crypto.CTngID(s["id"])]
	return ok && s["id"] == o.Signer && sg.Verify(&k, msgOf(o))
}

// checkCrashes reports every event that would have ended an entity's process.
func (x *X) checkCrashes() {
	for _, c := range x.W.Crashes {
		x.Violate("crash:"+firstWord(c.Stack), "an entity's process terminated: %s at %s", c.What, c.Stack)
	}
}

type httpResponse = http.Response

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func unjson(b []byte, v any) error { return json.NewDecoder(bytes.NewReader(b)).Decode(v) }
