// vtool builds the controlled harness from the current tree of /repo and runs
// one property's exhaustive exploration.
package main

import (
	"bufio"
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Violation struct {
	Sig      string   `json:"sig"`
	What     string   `json:"what"`
	Scenario string   `json:"scenario"`
	Explore  string   `json:"explore"`
	Choices  []int    `json:"choices"`
	Trace    []string `json:"trace"`
	Repro    int      `json:"reproduced"`
}

type Result struct {
	Scenario    string      `json:"scenario"`
	States      int         `json:"states"`
	Transitions int         `json:"transitions"`
	Execs       int         `json:"execs"`
	Distinct    int         `json:"distinct"`
	Exhaustive  bool        `json:"exhaustive"`
	Note        string      `json:"note"`
	Samples     []string    `json:"samples"`
	Violations  []Violation `json:"violations"`
	Error       string      `json:"error"`
	Progress    bool        `json:"progress"`
	Wall        float64     `json:"wall"`
}

type ScenInfo struct {
	Name string `json:"name"`
	Race bool   `json:"race"`
	Note string `json:"note"`
}

type Known struct {
	Property string `json:"property"`
	Sig      string `json:"sig"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

var (
	verif = "/verif"
	repo  = "/repo"
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func main() {
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verif = v
	}
	if v := os.Getenv("VERIF_REPO"); v != "" {
		repo = v
	}
	if len(os.Args) < 2 {
		die("usage: vtool check ID quick|thorough | replay FILE | genkeys N FILE | build")
	}
	switch os.Args[1] {
	case "genkeys":
		n, _ := strconv.Atoi(os.Args[2])
		var out bytes.Buffer
		for i := 0; i < n; i++ {
			k, err := rsa.GenerateKey(rand.Reader, 2048)
			if err != nil {
				die("%v", err)
			}
			pem.Encode(&out, &pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(k)})
		}
		os.WriteFile(os.Args[3], out.Bytes(), 0644)
	case "build":
		w := mkwork()
		defer os.RemoveAll(w)
		if _, err := build(w, false); err != nil {
			die("build: %v", err)
		}
		if _, err := build(w, true); err != nil {
			die("build: %v", err)
		}
	case "check":
		code := check(os.Args[2], os.Args[3])
		os.Exit(code)
	case "replay":
		os.Exit(replay(os.Args[2]))
	default:
		die("unknown command")
	}
}

func mkwork() string {
	w, err := os.MkdirTemp("", "ctngverif-")
	if err != nil {
		die("%v", err)
	}
	if err := prepare(repo, verif, w); err != nil {
		os.RemoveAll(w)
		die("instrumenting %s failed: %v", repo, err)
	}
	return w
}

func build(work string, race bool) (string, error) {
	bin := filepath.Join(work, "harness.test")
	args := []string{"test", "-vet=off", "-buildvcs=false", "-modfile", filepath.Join(work, "x.mod"), "-overlay", filepath.Join(work, "overlay.json"), "-c"}
	if race {
		bin += ".race"
		// the scheduler itself is not the subject
		args = append(args, "-race", "-gcflags=github.com/jik18001/CTngV2/zzverif/...=-race=false", "-gcflags=github.com/herumi/bls-go-binary/...=-race=false")
	}
	args = append(args, "-o", bin, "./zzverif/harness")
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v\n%s", err, out)
	}
	return bin, nil
}

func scratchRoot(work string) string {
	if d, err := os.MkdirTemp("/dev/shm", "ctngverif-"); err == nil {
		return d
	}
	d := filepath.Join(work, "scratch")
	os.MkdirAll(d, 0755)
	return d
}

type worker struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *tailBuf
	race   bool
	dir    string
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<20 {
		t.b = append([]byte{}, t.b[len(t.b)-1<<19:]...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func env(prop, tier, dir string, race bool, deadline time.Time) []string {
	e := []string{}
	for _, kv := range os.Environ() {
		if !strings.HasPrefix(kv, "GODEBUG=") && !strings.HasPrefix(kv, "GOMAXPROCS=") && !strings.HasPrefix(kv, "GORACE=") {
			e = append(e, kv)
		}
	}
	e = append(e, "VERIF_PROP="+prop, "VERIF_TIER="+tier, "VERIF_SCRATCH="+dir, "VERIF_KEYS="+filepath.Join(verif, "keys", "pool.pem"),
		"GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=all", "VERIF_DEADLINE="+strconv.FormatInt(deadline.Unix(), 10), "TZ=UTC")
	var ks []string
	for _, k := range loadKnown() {
		if k.Property == prop && k.Status == "known" {
			ks = append(ks, k.Sig)
		}
	}
	e = append(e, "VERIF_KNOWN="+strings.Join(ks, "\x1f"))
	if race {
		e = append(e, "GORACE=halt_on_error=0 log_path="+filepath.Join(dir, "race"))
	}
	return e
}

func startWorker(bin, prop, tier, root string, id int, race bool, deadline time.Time) (*worker, error) {
	dir, err := os.MkdirTemp(root, fmt.Sprintf("w%d-", id))
	if err != nil {
		return nil, err
	}
	w := &worker{race: race, dir: dir, stderr: &tailBuf{}}
	w.cmd = exec.Command(bin, append([]string{"-test.run", "^TestVerif$", "-test.timeout", "0"}, strings.Fields(os.Getenv("VERIF_TESTARGS"))...)...)
	w.cmd.Dir = dir
	w.cmd.Env = append(env(prop, tier, dir, race, deadline), "VERIF_MODE=worker")
	w.cmd.Stderr = w.stderr
	w.cmd.Stdout = w.stderr
	w.in, err = w.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	w.cmd.ExtraFiles = []*os.File{pw}
	if err := w.cmd.Start(); err != nil {
		return nil, err
	}
	pw.Close()
	w.out = bufio.NewReaderSize(pr, 1<<20)
	return w, nil
}

func (w *worker) stop() {
	w.in.Close()
	done := make(chan struct{})
	go func() { w.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		w.cmd.Process.Kill()
		<-done
	}
	os.RemoveAll(w.dir)
}

// run sends one job; returns the result, or died=true with the stderr tail.
func (w *worker) run(job string, idle time.Duration) (r Result, died string) {
	fmt.Fprintln(w.in, job)
	type line struct {
		b   []byte
		err error
	}
	for {
		ch := make(chan line, 1)
		go func() {
			b, err := w.out.ReadBytes('\n')
			ch <- line{b, err}
		}()
		select {
		case l := <-ch:
			if l.err != nil {
				w.cmd.Wait()
				s := w.stderr.String()
				if s == "" {
					s = "worker ended without output"
				}
				return r, s
			}
			r = Result{}
			if err := json.Unmarshal(l.b, &r); err != nil {
				return r, "bad worker output: " + string(l.b)
			}
			if r.Progress {
				continue
			}
			return r, ""
		case <-time.After(idle):
			if f := os.Getenv("VERIF_HANG_DUMP"); f != "" { // (debugging aid)
				w.cmd.Process.Signal(syscall.SIGQUIT)
				time.Sleep(2 * time.Second)
				os.WriteFile(f, []byte(w.stderr.String()), 0644)
			}
			w.cmd.Process.Kill()
			w.cmd.Wait()
			return r, "HANG: no execution finished within " + idle.String()
		}
	}
}

func list(bin, prop, tier, root string) ([]ScenInfo, error) {
	cmd := exec.Command(bin, "-test.run", "^TestVerif$")
	cmd.Dir = root
	cmd.Env = append(env(prop, tier, root, false, time.Now()), "VERIF_MODE=list")
	var eb bytes.Buffer
	cmd.Stderr = &eb
	pr, pw, _ := os.Pipe()
	cmd.ExtraFiles = []*os.File{pw}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	pw.Close()
	b, _ := io.ReadAll(pr)
	cmd.Wait()
	var out []ScenInfo
	if err := json.Unmarshal(b, &out); err != nil {
		return nil, fmt.Errorf("%v: %s %s", err, b, eb.String())
	}
	return out, nil
}

func loadKnown() []Known {
	var k []Known
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.json"))
	if err == nil {
		if err := json.Unmarshal(b, &k); err != nil {
			die("known_findings.json: %v", err)
		}
	}
	return k
}

func check(prop, tier string) int {
	start := time.Now()
	budget := 240 * time.Second
	if tier == "thorough" {
		budget = 780 * time.Second
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_BUDGET")); err == nil {
		budget = time.Duration(v) * time.Second
	}
	deadline := start.Add(budget)
	work := mkwork()
	defer os.RemoveAll(work)
	root := scratchRoot(work)
	defer os.RemoveAll(root)
	bin, err := build(work, false)
	if err != nil {
		fmt.Fprintf(os.Stderr, "build of the harness against %s failed: %v\n", repo, err)
		return 2
	}
	scens, err := list(bin, prop, tier, root)
	if err != nil || len(scens) == 0 {
		fmt.Fprintf(os.Stderr, "no scenarios for %s: %v\n", prop, err)
		return 2
	}
	raceBin := ""
	for _, s := range scens {
		if s.Race && raceBin == "" {
			if raceBin, err = build(work, true); err != nil {
				fmt.Fprintf(os.Stderr, "race build failed: %v\n", err)
				return 2
			}
		}
	}
	var mu sync.Mutex
	var results []Result
	jobs := make(chan ScenInfo, len(scens))
	for _, s := range scens {
		jobs <- s
	}
	close(jobs)
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	var wg sync.WaitGroup
	for i := 0; i < n && i < len(scens); i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ws := map[bool]*worker{}
			defer func() {
				for _, w := range ws {
					if w != nil {
						w.stop()
					}
				}
			}()
			for s := range jobs {
				var res Result
				for attempt := 0; ; attempt++ {
					b := bin
					if s.Race {
						b = raceBin
					}
					if ws[s.Race] == nil {
						w, err := startWorker(b, prop, tier, root, i, s.Race, deadline)
						if err != nil {
							res = Result{Scenario: s.Name, Error: err.Error()}
							break
						}
						ws[s.Race] = w
					}
					t0 := time.Now()
					r, died := ws[s.Race].run(s.Name, 150*time.Second)
					r.Wall = time.Since(t0).Seconds()
					if died == "" {
						res = r
						break
					}
					ws[s.Race] = nil
					if attempt == 0 {
						continue // confirm on a second process
					}
					res = Result{Scenario: s.Name, Execs: 1}
					if what, ok := processDeath(died); ok {
						res.Violations = append(res.Violations, Violation{Sig: "process-death:" + what, What: "the process running the code under test died: " + what, Scenario: s.Name, Trace: tail(died, 60), Repro: 1})
					} else {
						res.Error = "worker died: " + strings.Join(tail(died, 40), "\n")
					}
					break
				}
				mu.Lock()
				results = append(results, res)
				mu.Unlock()
			}
		}(i)
	}
	wg.Wait()
	sort.Slice(results, func(i, j int) bool { return results[i].Scenario < results[j].Scenario })
	return report(prop, tier, start, scens, results)
}

func tail(s string, n int) []string {
	l := strings.Split(strings.TrimRight(s, "\n"), "\n")
	if len(l) > 2*n {
		l = append(append(append([]string{}, l[:n]...), "..."), l[len(l)-n:]...)
	}
	return l
}

// processDeath recognises deaths caused by the code under test.
func processDeath(s string) (string, bool) {
	for _, p := range []string{"fatal error: concurrent map writes", "fatal error: concurrent map read and map write", "fatal error: concurrent map iteration and map write", "fatal error: stack overflow", "runtime: goroutine stack exceeds"} {
		if strings.Contains(s, p) && strings.Contains(s, "CTngV2/") {
			return p, true
		}
	}
	if strings.HasPrefix(s, "HANG") {
		return "no execution finishes (busy loop)", true
	}
	return "", false
}

func report(prop, tier string, start time.Time, scens []ScenInfo, results []Result) int {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	known := loadKnown()
	states, trans, execs, distinct := 0, 0, 0, 0
	exhaustive := true
	var samples []string
	var scenOut []map[string]any
	var errs []string
	type vrec struct {
		Violation
		replay string
	}
	var vs []vrec
	knownHit := map[string]string{}
	unconfirmed := 0
	for _, r := range results {
		states += r.States
		trans += r.Transitions
		execs += r.Execs
		distinct += r.Distinct
		if !r.Exhaustive {
			exhaustive = false
		}
		if r.Error != "" {
			errs = append(errs, r.Scenario+": "+r.Error)
			exhaustive = false
		}
		for i, s := range r.Samples {
			if i < 2 && len(samples) < 24 {
				samples = append(samples, r.Scenario+": "+s)
			}
		}
		scenOut = append(scenOut, map[string]any{"scenario": r.Scenario, "states": r.States, "transitions": r.Transitions, "executions": r.Execs, "distinct": r.Distinct, "exhaustive": r.Exhaustive, "note": r.Note, "wall_s": r.Wall})
		for _, v := range r.Violations {
			if v.Repro == 0 {
				unconfirmed++
				fmt.Fprintf(os.Stderr, "unconfirmed (not reproducible) observation in %s: %s\n", v.Scenario, v.What)
				continue
			}
			isKnown := false
			for _, k := range known {
				if k.Property == prop && k.Sig == v.Sig && k.Status == "known" {
					knownHit[k.Sig] = k.What
					isKnown = true
				}
			}
			if !isKnown {
				vs = append(vs, vrec{Violation: v})
			}
		}
	}
	rdir := filepath.Join(verif, "evidence", "replays")
	if len(vs) > 0 {
		os.MkdirAll(rdir, 0755)
	}
	seen := map[string]bool{}
	printed := 0
	for i := range vs {
		v := &vs[i]
		if seen[v.Sig] || printed >= 10 {
			continue
		}
		seen[v.Sig] = true
		printed++
		v.replay = filepath.Join(rdir, fmt.Sprintf("%s-%d.json", prop, printed))
		b, _ := json.MarshalIndent(map[string]any{"property": prop, "tier": tier, "violation": v.Violation}, "", " ")
		os.WriteFile(v.replay, b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, v.replay)
		fmt.Printf("  %s [%s] sig=%s\n", v.What, v.Scenario, v.Sig)
		for _, l := range v.Trace {
			fmt.Printf("    %s\n", l)
		}
	}
	var ks []string
	for s := range knownHit {
		ks = append(ks, s)
	}
	sort.Strings(ks)
	for _, s := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, knownHit[s])
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	if len(samples) == 0 {
		samples = []string{"(none)"}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": execs,
			"distinct_executions": distinct,
			"exhaustive":          exhaustive, "samples": samples, "scenarios": scenOut, "errors": errs, "unconfirmed": unconfirmed,
			"explanation": "The explored transition system is the implementation itself (rebuilt from /repo): every trace counted is an execution of the real code under the controlled scheduler, clock and network.",
		},
		"violations": len(seen), "known_findings": ks,
		"wall_s":      time.Since(start).Seconds(),
		"assumptions": []string{"RSA, BLS, SHA-256 and gzip behave as their libraries do (results memoised)", "bounds and environment assumptions per scenario: see DESIGN.md and the scenario notes"},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0644)
	fmt.Printf("%s %s: %d scenarios, %d states, %d transitions, %d executions, exhaustive=%v, %d violations, %.1fs\n", prop, tier, len(results), states, trans, execs, exhaustive, len(seen), time.Since(start).Seconds())
	for _, e := range errs {
		fmt.Fprintln(os.Stderr, "ERROR", e)
	}
	if len(seen) > 0 {
		return 1
	}
	if len(errs) > 0 {
		return 2
	}
	return 0
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	var f struct {
		Property  string
		Tier      string
		Violation Violation
	}
	if err := json.Unmarshal(b, &f); err != nil {
		die("%v", err)
	}
	work := mkwork()
	defer os.RemoveAll(work)
	root := scratchRoot(work)
	defer os.RemoveAll(root)
	race := strings.Contains(f.Violation.Scenario, "race")
	bin, err := build(work, race)
	if err != nil {
		die("%v", err)
	}
	w, err := startWorker(bin, f.Property, f.Tier, root, 0, race, time.Now().Add(600*time.Second))
	if err != nil {
		die("%v", err)
	}
	j, _ := json.Marshal(f.Violation)
	r, died := w.run("REPLAY "+string(j), 150*time.Second)
	if died != "" {
		fmt.Println(strings.Join(tail(died, 60), "\n"))
		return 1
	}
	w.stop()
	for _, v := range r.Violations {
		fmt.Printf("reproduced: %s\n", v.What)
		for _, l := range v.Trace {
			fmt.Println("  ", l)
		}
	}
	if len(r.Violations) > 0 {
		return 1
	}
	fmt.Println("not reproduced", r.Error)
	return 0
}
