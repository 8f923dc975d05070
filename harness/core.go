// Package harness holds the explorers and property oracles.  It drives the real
// CTng packages (instrumented by ../tool, controlled by ../vrt) through every
// execution of a bounded space and checks each property on each of them.
package harness

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/jik18001/CTngV2/zzverif/vrt"
)

type Violation struct {
	Sig      string   `json:"sig"`
	What     string   `json:"what"`
	Scenario string   `json:"scenario"`
	Explore  string   `json:"explore"`
	Choices  []int    `json:"choices"`
	Trace    []string `json:"trace"`
	Repro    int      `json:"reproduced"`
}

type Result struct {
	Scenario    string      `json:"scenario"`
	States      int         `json:"states"`
	Transitions int         `json:"transitions"`
	Execs       int         `json:"execs"`
	Distinct    int         `json:"distinct"`
	Exhaustive  bool        `json:"exhaustive"`
	Note        string      `json:"note"`
	Samples     []string    `json:"samples"`
	Violations  []Violation `json:"violations"`
	Error       string      `json:"error"`
	Progress    bool        `json:"progress"`
	Wall        float64     `json:"wall"`
}

// Scenario is one bounded space of one property.
type Scenario struct {
	Shard int // of raceShards
	Prop  string
	Name  string
	Race  bool   // needs the -race build
	Deep  bool   // thorough tier only
	Note  string // stated bounds
	Run   func(e *Env)
}

var scenarios []Scenario

func reg(prop, name, note string, run func(e *Env)) {
	scenarios = append(scenarios, Scenario{Prop: prop, Name: name, Note: note, Run: run})
}
func regDeep(prop, name, note string, run func(e *Env)) {
	scenarios = append(scenarios, Scenario{Prop: prop, Name: name, Note: note, Run: run, Deep: true})
}

const raceShards = 4

func regRace(prop, name, note string, run func(e *Env)) {
	for i := 0; i < raceShards; i++ { // they run side by side
		scenarios = append(scenarios, Scenario{Prop: prop, Name: fmt.Sprint(name, "-", i), Note: note, Run: run, Race: true, Shard: i})
	}
}

// Env is the environment of one scenario run.
type Env struct {
	T        *testing.T
	S        Scenario
	R        Result
	Thorough bool
	deadline time.Time
	known    map[string]bool
	only     *Violation // replay mode: execute only this choice sequence
	out      *json.Encoder
	lastP    time.Time
	stop     bool
	outcomes map[string]bool
}

// X is one execution.
type X struct {
	e        *Env
	W        *vrt.World
	explore  string
	prefix   []int
	arity    []int // recorded arities for the prefix
	choices  []int
	nowAr    []int
	visited  map[string]bool
	trace    []string
	viol     []Violation
	cut      bool
	mismatch bool
	outcome  string
	dir      string
	preempt  int
	curG     int
}

type stopExec struct{}

// Violate records a violation and ends the execution.
func (x *X) Violate(sig, f string, a ...any) {
	x.Report(sig, f, a...)
	panic(stopExec{})
}

// Report records a violation and goes on.
func (x *X) Report(sig, f string, a ...any) {
	x.viol = append(x.viol, Violation{Sig: sig, What: fmt.Sprintf(f, a...)})
}

// Require reports a violation unless ok.
func (x *X) Require(ok bool, sig, f string, a ...any) {
	if !ok {
		x.Violate(sig, f, a...)
	}
}

func (x *X) Tracef(f string, a ...any) {
	if len(x.trace) < 400 {
		x.trace = append(x.trace, fmt.Sprintf(f, a...))
	}
}

// Outcome labels the execution (distinct outcomes are reported as evidence).
func (x *X) Outcome(f string, a ...any) { x.outcome = fmt.Sprintf(f, a...) }

// Choose picks one of n alternatives.  A non-empty fp is the fingerprint of the
// global state: a state already expanded is not expanded again.
func (x *X) Choose(n int, fp string) int { return x.ChooseF(n, func() string { return fp }) }

// ChooseF computes the fingerprint only when it is needed.
func (x *X) ChooseF(n int, fpf func() string) int {
	if n <= 0 {
		panic("Choose(0)")
	}
	i := len(x.choices)
	if i < len(x.prefix) {
		c := x.prefix[i]
		if (i < len(x.arity) && x.arity[i] != n) || c >= n {
			x.mismatch = true
			panic(stopExec{})
		}
		x.choices = append(x.choices, c)
		x.nowAr = append(x.nowAr, n)
		return c
	}
	fp := ""
	if x.e.only == nil {
		fp = fpf()
	}
	if fp != "" {
		if x.visited[fp] {
			x.cut = true
			panic(stopExec{})
		}
		x.visited[fp] = true
		x.e.R.States++
	}
	x.choices = append(x.choices, 0)
	x.nowAr = append(x.nowAr, n)
	return 0
}

// Pick is Choose without state merging; it returns one of the labels' indexes and traces it.
func (x *X) Pick(what string, labels ...string) int {
	c := x.Choose(len(labels), "")
	x.Tracef("%s = %s", what, labels[c])
	return c
}

func (x *X) Bool(what string) bool { return x.Pick(what, "no", "yes") == 1 }

// Scratch is a fresh directory for this execution.
func (x *X) Scratch() string {
	if x.dir == "" {
		d, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "x-")
		if err != nil {
			panic(err)
		}
		x.dir = d
	}
	return x.dir
}

// Explore enumerates every execution of body depth-first.
func (e *Env) Explore(name string, body func(x *X)) { e.explore(name, false, body) }

// ExploreFine is Explore with scheduling points at every lock operation.
func (e *Env) ExploreFine(name string, body func(x *X)) { e.explore(name, true, body) }

func (e *Env) explore(name string, fine bool, body func(x *X)) {
	if e.only != nil {
		if e.only.Explore != name {
			return
		}
		for try := 0; try < 5; try++ {
			x := e.exec(name, fine, e.only.Choices, nil, nil, body)
			for _, v := range x.viol {
				if v.Sig == e.only.Sig {
					e.only.Repro++
					e.only.Trace = x.trace
					e.only.What = v.What
				}
			}
		}
		return
	}
	visited := map[string]bool{}
	var prefix, arity []int
	retries := 0
	for {
		if e.stop {
			return
		}
		if time.Now().After(e.deadline) {
			e.R.Exhaustive = false
			e.note("time budget reached in " + name)
			return
		}
		x := e.exec(name, fine, prefix, arity, visited, body)
		if x.mismatch {
			retries++
			if retries < 40 {
				continue
			}
			e.R.Exhaustive = false
			e.note("a branch of " + name + " did not replay identically and was skipped")
			x.choices, x.nowAr = prefix, arity
			if len(prefix) == 0 {
				return
			}
		}
		retries = 0
		if len(e.R.Samples) < 4 && !x.cut && x.outcome != "" && !e.outcomes[x.outcome] {
			e.R.Samples = append(e.R.Samples, name+" "+fmt.Sprint(x.choices)+": "+x.outcome)
		}
		if x.outcome != "" {
			e.outcomes[x.outcome] = true
		}
		for _, v := range x.viol {
			e.addViolation(name, fine, v, x, body)
		}
		// next prefix
		i := len(x.choices) - 1
		for i >= 0 && x.choices[i]+1 >= x.nowAr[i] {
			i--
		}
		if i < 0 {
			return
		}
		prefix = append(append([]int{}, x.choices[:i]...), x.choices[i]+1)
		arity = append([]int{}, x.nowAr[:i+1]...)
	}
}

func (e *Env) note(s string) {
	if !strings.Contains(e.R.Note, s) {
		if e.R.Note != "" {
			e.R.Note += "; "
		}
		e.R.Note += s
	}
}

func (e *Env) addViolation(name string, fine bool, v Violation, x *X, body func(x *X)) {
	for _, o := range e.R.Violations {
		if o.Sig == v.Sig && o.Repro > 0 {
			return
		}
	}
	v.Scenario, v.Explore, v.Choices, v.Trace = e.S.Name, name, append([]int{}, x.choices...), x.trace
	saved := e.only
	e.only = &Violation{}
	for try := 0; try < 5; try++ {
		y := e.exec(name, fine, v.Choices, nil, nil, body)
		for _, w := range y.viol {
			if w.Sig == v.Sig {
				v.Repro++
				break
			}
		}
	}
	e.only = saved
	for i, o := range e.R.Violations {
		if o.Sig == v.Sig {
			if v.Repro > 0 {
				e.R.Violations[i] = v
			}
			return
		}
	}
	e.R.Violations = append(e.R.Violations, v)
	if v.Repro > 0 && !e.known[v.Sig] {
		e.stop = true
		e.note("stopped at the first violation")
	}
}

func (e *Env) exec(name string, fine bool, prefix, arity []int, visited map[string]bool, body func(x *X)) *X {
	x := &X{e: e, explore: name, prefix: prefix, arity: arity, visited: visited}
	e.progress()
	vrt.ResetKeys()
	bubble := func(f func(t *testing.T)) { synctest.Test(e.T, f) }
	if vrt.RaceBuild { // a race report fails the test it occurs in; reports are judged by classifyRace
		bubble = func(f func(t *testing.T)) { e.T.Run("x", func(t *testing.T) { synctest.Test(t, f) }) }
	}
	func() {
		bubble(func(t *testing.T) {
			x.W = vrt.NewWorld(fine)
			defer x.W.Shutdown()
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(stopExec); ok {
						return
					}
					if f, ok := r.(vrt.Fatal); ok {
						x.Report("exit:"+firstWord(f.Site), "the code under test ended the process: %s at %s", f.What, f.Site)
						return
					}
					if site, ok := vrt.PanicSite(string(debug.Stack())); ok {
						x.Report("panic:"+firstWord(site), "the code under test panicked: %v at %s", r, site)
						return
					}
					x.e.R.Error = fmt.Sprintf("harness panic in %s/%s %v: %v\n%s", e.S.Name, name, x.choices, r, debug.Stack())
					x.e.stop = true
				}
			}()
			body(x)
		})
	}()
	vrt.Drop()
	if x.dir != "" {
		os.RemoveAll(x.dir)
	}
	e.R.Execs++
	e.R.Transitions += x.W.Steps
	return x
}

func (e *Env) progress() {
	if time.Since(e.lastP) > 10*time.Second {
		e.lastP = time.Now()
		e.out.Encode(Result{Progress: true})
	}
}

// States adds to the evidence.
func (e *Env) States(n int) { e.R.States += n }

func hashStr(s string) string {
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:12])
}

// Main is the entry point of the test binary.
func Main(t *testing.T) {
	mode := os.Getenv("VERIF_MODE")
	out := json.NewEncoder(os.NewFile(3, "out"))
	prop, tier := os.Getenv("VERIF_PROP"), os.Getenv("VERIF_TIER")
	sel := func(s Scenario) bool {
		return s.Prop == prop && (!s.Deep || tier == "thorough")
	}
	switch mode {
	case "list":
		type info struct {
			Name string `json:"name"`
			Race bool   `json:"race"`
			Note string `json:"note"`
		}
		l := []info{}
		for _, s := range scenarios {
			if sel(s) {
				l = append(l, info{s.Name, s.Race, s.Note})
			}
		}
		out.Encode(l)
		return
	case "worker":
	default:
		t.Skip("not a controlled run")
	}
	dl, _ := strconv.ParseInt(os.Getenv("VERIF_DEADLINE"), 10, 64)
	known := map[string]bool{}
	for _, k := range strings.Split(os.Getenv("VERIF_KNOWN"), "\x1f") {
		known[k] = true
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadString('\n')
		line = strings.TrimSpace(line)
		if line != "" {
			var only *Violation
			name := line
			if strings.HasPrefix(line, "REPLAY ") {
				only = &Violation{}
				if err := json.Unmarshal([]byte(line[7:]), only); err != nil {
					out.Encode(Result{Error: err.Error()})
					continue
				}
				name = only.Scenario
			}
			found := false
			for _, s := range scenarios {
				if s.Prop == prop && s.Name == name {
					found = true
					e := &Env{T: t, S: s, Thorough: tier == "thorough", deadline: time.Unix(dl, 0), known: known, out: out, only: only, lastP: time.Now(), outcomes: map[string]bool{}}
					e.R.Scenario, e.R.Exhaustive, e.R.Note = name, true, s.Note
					start := time.Now()
					runScenario(e)
					e.R.Wall = time.Since(start).Seconds()
					e.R.Distinct = len(e.outcomes)
					if e.R.States == 0 {
						e.R.States = e.R.Execs
					}
					if only != nil {
						only.Scenario = name
						e.R.Violations = nil
						if only.Repro > 0 {
							e.R.Violations = []Violation{*only}
						}
					}
					out.Encode(e.R)
					break
				}
			}
			if !found {
				out.Encode(Result{Scenario: name, Error: "no such scenario"})
			}
		}
		if err != nil {
			return
		}
	}
}

func runScenario(e *Env) {
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 1<<20)
			e.R.Error = fmt.Sprint("harness panic: ", r, "\n", string(debug.Stack()), "\n", string(buf[:runtime.Stack(buf, true)]))
		}
	}()
	d, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "s-")
	if err != nil {
		panic(err)
	}
	wd, _ := os.Getwd()
	os.Chdir(d)
	defer func() {
		os.Chdir(wd)
		os.RemoveAll(d)
		clearConfigs()
	}()
	e.S.Run(e)
}

// raceReports returns the data races involving Go maps in the code under test
// reported so far by the race detector (race build only).
func raceReports() []string {
	files, _ := filepath.Glob(filepath.Join(os.Getenv("VERIF_SCRATCH"), "race*"))
	var out []string
	for _, f := range files {
		r := raceSeen[f]
		if r == nil {
			r = &raceFile{}
			raceSeen[f] = r
		}
		b, _ := os.ReadFile(f)
		const sep = "=================="
		n := bytes.LastIndex(b, []byte(sep))
		if n > r.done {
			for _, rep := range strings.Split(string(b[r.done:n]), sep) {
				if s := classifyRace(rep); s != "" {
					r.found = append(r.found, s)
				}
			}
			r.done = n
		}
		out = append(out, r.found...)
	}
	sort.Strings(out)
	return out
}

type raceFile struct {
	done  int // bytes looked at
	found []string
}

var raceSeen = map[string]*raceFile{}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

func firstWord(s string) string {
	if i := strings.Index(s, " "); i > 0 {
		return s[:i]
	}
	return s
}
