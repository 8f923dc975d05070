// Package vrt is the controlled runtime the checks put under the real CTng code.
// The instrumenter (../tool) redirects a handful of standard-library entry points
// of the code under test to this package; everything runs inside a
// testing/synctest bubble, so time is virtual and "everything is blocked" is
// observable.  The network is virtual: every HTTP request is a pending message
// that the explorer decides to deliver, fail, or hold back.
package vrt

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"
	"unsafe"
)

// Msg is an HTTP request in flight.
type Msg struct {
	Seq       int
	Src       string // entity that sent it
	Dst       string // port of the destination
	Method    string
	Path      string
	Body      []byte
	Redirect  bool
	Start     time.Time
	done      chan msgResult
	req       *http.Request
	delivered bool
	key       string
	Reply     []byte // body of the answer
}

type msgResult struct {
	resp *http.Response
	err  error
}

// Failed: the message was not handed to its destination.
func (m *Msg) Failed() bool { return !m.delivered }

var tsRe = regexp.MustCompile(`"([tT]imestamp)":"[^"]*"`)

// Key identifies the message up to timestamps.
func (m *Msg) Key() string {
	if m.key != "" {
		return m.key
	}
	h := sha256.Sum256(tsRe.ReplaceAll(m.Body, []byte(`"ts":""`)))
	m.key = m.Dst + " " + m.Method + " " + m.Path + " " + hex.EncodeToString(h[:6])
	return m.key
}

// Crash is an event that would have terminated the process of an entity.
type Crash struct {
	What  string
	Stack string
}

// Deadline of a timer or sleep started by the code under test.
type deadline struct {
	at   time.Time
	live func() bool
}

// Task is a goroutine parked at a scheduling point (fine mode only).
type Task struct {
	ID    int
	G     int // goroutine, numbered in order of first appearance
	Kind  string
	ready func() bool
	take  func()
	ch    chan struct{}
}

type handlerFn = func(w http.ResponseWriter, r *http.Request)

// World is one controlled execution.
type World struct {
	root      string
	mu        sync.Mutex
	Fine      bool // park at lock operations and goroutine starts
	dead      bool
	seq       int
	pending   []*Msg
	servers   map[string]http.Handler
	pendMux   *http.ServeMux
	Crashes   []Crash
	Panics    []string // panics recovered by the HTTP server (not process crashes)
	deadlines []deadline
	parked    []*Task
	taskSeq   int
	cur       int // task id that ran last
	closed    chan struct{}
	Steps     int
	Delivered map[string][]string // dst -> sorted keys of delivered messages
	Sent      []*Msg              // everything ever sent
	// Auto decides whether a message is delivered immediately (not a choice).
	Auto func(*Msg) bool
	// Fault, when set, may replace the outcome of a request: return non-nil
	// error to fail it, or a response to substitute.
	Fault    func(*Msg) (*http.Response, error)
	lockWait int32
	rnd      uint64
	keyIdx   int
	gids     map[string]int
	// CtlTimers: due timers do not run until the explorer fires them.
	CtlTimers bool
	due       []*Event
	live      map[string]bool
	timerIdx  map[string]int
}

// Label is carried by every goroutine (inherited by its children): the entity it
// runs for and the message or timer that caused it.
type Label struct{ Entity, Cause string }

//go:linkname runtimeSetLabel runtime/pprof.runtime_setProfLabel
func runtimeSetLabel(p unsafe.Pointer)

//go:linkname runtimeGetLabel runtime/pprof.runtime_getProfLabel
func runtimeGetLabel() unsafe.Pointer

var noLabels = os.Getenv("VERIF_TESTARGS") != "" // the CPU profiler reads labels as its own type

func setLabel(l *Label) {
	if !noLabels {
		runtimeSetLabel(unsafe.Pointer(l))
	}
}
func getLabel() *Label {
	if p := (*Label)(runtimeGetLabel()); p != nil {
		return p
	}
	return &Label{}
}

// SetEntity labels the calling goroutine.
func SetEntity(e string) { setLabel(&Label{Entity: e, Cause: "start"}) }

func itoa(i int) string { return strconv.Itoa(i) }

// callSite names the innermost function of the code under test on the stack.
func callSite() string {
	var pc [24]uintptr
	n := runtime.Callers(3, pc[:])
	fr := runtime.CallersFrames(pc[:n])
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "CTngV2/") && !strings.Contains(f.Function, "zzverif") {
			return f.Function[strings.LastIndex(f.Function, "/")+1:]
		}
		if !more {
			return ""
		}
	}
}

func goid() string {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	if len(f) > 1 {
		return f[1]
	}
	return ""
}

var current atomic.Pointer[World]

// NewWorld installs a fresh world; must be called inside a synctest bubble.
func NewWorld(fine bool) *World {
	w := &World{Fine: fine, servers: map[string]http.Handler{}, pendMux: http.NewServeMux(), closed: make(chan struct{}), Delivered: map[string][]string{}, rnd: 88172645463325252, live: map[string]bool{}, timerIdx: map[string]int{}}
	w.root = goid()
	current.Store(w)
	http.DefaultTransport = &Transport{}
	http.DefaultClient = &http.Client{Transport: http.DefaultTransport}
	return w
}

func Cur() *World { return current.Load() }

// Drop uninstalls the world once its bubble has ended.
func Drop() { current.Store(nil) }

// ---- crash recording -------------------------------------------------

func (w *World) crash(what string) {
	raceDisable()
	w.mu.Lock()
	if !w.dead {
		w.Crashes = append(w.Crashes, Crash{what, trimStack(string(debug.Stack()))})
	}
	w.mu.Unlock()
	raceEnable()
}

// PanicSite tells whether the panic being handled was raised by the code under
// test, and where.
func PanicSite(stack string) (string, bool) {
	i := strings.Index(stack, "panic(")
	if i < 0 {
		return "", false
	}
	lines := strings.Split(stack[i:], "\n")
	for k := 2; k < len(lines); k += 2 {
		l := lines[k]
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.") {
			continue
		}
		if strings.Contains(l, "zzverif") {
			return "", false
		}
		if strings.Contains(l, "CTngV2/") {
			return trimStack(strings.Join(lines[k:], "\n")), true
		}
	}
	return "", false
}

func trimStack(s string) string {
	var out []string
	lines := strings.Split(s, "\n")
	for i := 0; i+1 < len(lines); i++ {
		if strings.Contains(lines[i], "CTngV2/") && !strings.Contains(lines[i], "zzverif") {
			fn := strings.TrimSpace(lines[i])
			if k := strings.LastIndex(fn, "("); k > 0 {
				fn = fn[:k]
			}
			out = append(out, fn)
			if len(out) > 8 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

func LogFatal(a ...any)            { fatal("log.Fatal: " + fmt.Sprint(a...)) }
func LogFatalf(f string, a ...any) { fatal("log.Fatal: " + fmt.Sprintf(f, a...)) }
func LogFatalln(a ...any)          { fatal("log.Fatal: " + fmt.Sprintln(a...)) }
func OsExit(code int)              { fatal(fmt.Sprintf("os.Exit(%d)", code)) }

func fatal(s string) {
	w := Cur()
	if w == nil {
		panic("fatal outside a controlled execution: " + s)
	}
	w.crash(s)
	if goid() == w.root { // called by the harness itself: it reports the end of the process
		panic(Fatal{s, trimStack(string(debug.Stack()))})
	}
	runtime.Goexit()
}

// Fatal is the panic value for the end of the process in the harness's goroutine.
type Fatal struct{ What, Site string }

func Discard(a ...any) (int, error)            { return 0, nil }
func Discardf(f string, a ...any) (int, error) { return 0, nil }
func LogDiscard(a ...any)                      {}
func LogDiscardf(f string, a ...any)           {}

// ---- goroutines ------------------------------------------------------

// GoStart is called at the start of every goroutine of the code under test; the
// returned function is deferred and turns a panic into a recorded crash.
func GoStart() func() { return goStart("go") }

func goStart(kind string) func() {
	w := Cur()
	if w != nil {
		if w.isDead() {
			runtime.Goexit()
		}
		if w.Fine {
			w.park(kind, nil, nil)
		}
	}
	return func() {
		if r := recover(); r != nil {
			if w == nil {
				panic(r)
			}
			w.crash(fmt.Sprint("panic: ", r))
		}
	}
}

func (w *World) isDead() bool {
	raceDisable()
	w.mu.Lock()
	d := w.dead
	w.mu.Unlock()
	raceEnable()
	return d
}

// ---- time ------------------------------------------------------------

func AfterFunc(d time.Duration, f func()) *time.Timer {
	w := Cur()
	if w == nil {
		return time.AfterFunc(d, f)
	}
	fired := int32(0)
	l := getLabel()
	key := ""
	if w.CtlTimers {
		raceDisable()
		w.mu.Lock()
		base := l.Entity + " timer " + callSite() + " " + d.String() + " after " + l.Cause
		w.timerIdx[base]++
		key = base + " #" + itoa(w.timerIdx[base])
		w.live[key] = true
		w.mu.Unlock()
		raceEnable()
	}
	t := time.AfterFunc(d, func() {
		raceDisable()
		atomic.StoreInt32(&fired, 1)
		raceEnable()
		if w.isDead() {
			return
		}
		setLabel(l)
		if key != "" {
			ev := &Event{Key: key, ch: make(chan struct{})}
			raceDisable()
			w.mu.Lock()
			delete(w.live, key)
			w.due = append(w.due, ev)
			w.mu.Unlock()
			raceEnable()
			<-ev.ch
			if w.isDead() {
				return
			}
			setLabel(&Label{Entity: l.Entity, Cause: key})
		}
		defer goStart("timer")()
		f()
	})
	w.addDeadline(d, func() bool { return atomic.LoadInt32(&fired) == 0 })
	return t
}

func (w *World) addDeadline(d time.Duration, live func() bool) {
	raceDisable()
	w.mu.Lock()
	w.deadlines = append(w.deadlines, deadline{time.Now().Add(d), live})
	w.mu.Unlock()
	raceEnable()
}

func Sleep(d time.Duration) {
	w := Cur()
	if w != nil {
		if w.isDead() {
			runtime.Goexit()
		}
		w.addDeadline(d, func() bool { return true })
	}
	if w == nil {
		time.Sleep(d)
		return
	}
	t := time.NewTimer(d)
	select {
	case <-t.C:
	case <-w.closed:
		t.Stop()
	}
	if w.isDead() {
		runtime.Goexit()
	}
	if w.Fine {
		w.park("wake", nil, nil)
	}
}

func NewTimer(d time.Duration) *time.Timer {
	if w := Cur(); w != nil {
		w.addDeadline(d, func() bool { return true })
	}
	return time.NewTimer(d)
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Event is a timer that has come due (CtlTimers).
type Event struct {
	Key string
	ch  chan struct{}
}

// Due lists timers that have come due and wait to be fired, canonically ordered.
func (w *World) Due() []*Event {
	w.mu.Lock()
	defer w.mu.Unlock()
	out := append([]*Event{}, w.due...)
	sort.SliceStable(out, func(i, j int) bool { return out[i].Key < out[j].Key })
	return out
}

// LiveTimers lists the keys of the timers not yet due or fired.
func (w *World) LiveTimers() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	var out []string
	for k := range w.live {
		out = append(out, k)
	}
	for _, e := range w.due {
		out = append(out, "due "+e.Key)
	}
	sort.Strings(out)
	return out
}

// Fire runs a due timer and the system to quiescence.
func (w *World) Fire(e *Event) {
	w.mu.Lock()
	found := false
	for i, d := range w.due {
		if d == e {
			w.due = append(append([]*Event{}, w.due[:i]...), w.due[i+1:]...)
			found = true
			break
		}
	}
	w.Steps++
	w.mu.Unlock()
	if !found { // already fired
		return
	}
	close(e.ch)
	w.Quiesce()
}

// NextDeadline returns the earliest recorded deadline in the future.
func (w *World) NextDeadline() (time.Time, bool) {
	now := time.Now()
	var best time.Time
	ok := false
	w.mu.Lock()
	keep := w.deadlines[:0]
	for _, d := range w.deadlines {
		if !d.at.After(now) || !d.live() {
			continue
		}
		keep = append(keep, d)
		if !ok || d.at.Before(best) {
			best, ok = d.at, true
		}
	}
	w.deadlines = keep
	w.mu.Unlock()
	return best, ok
}

// ---- virtual network ---------------------------------------------------

func portOf(hostport string) string {
	if i := strings.LastIndex(hostport, ":"); i >= 0 {
		return hostport[i+1:]
	}
	return hostport
}

// Serve registers a handler on a port.
func (w *World) Serve(port string, h http.Handler) { w.servers[port] = h }

// Stop removes the server on a port: connections to it are refused.
func (w *World) Stop(port string) { delete(w.servers, port) }

func (w *World) Listening(port string) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.servers[port] != nil
}

type refused struct{ host string }

func (r refused) Error() string { return "dial tcp " + r.host + ": connect: connection refused" }

var errShutdown = errors.New("network shut down")

func roundTrip(req *http.Request) (*http.Response, error) {
	w := Cur()
	if w == nil {
		return nil, errors.New("network used outside a controlled execution")
	}
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	raceDisable()
	w.mu.Lock()
	if w.dead {
		w.mu.Unlock()
		raceEnable()
		return nil, errShutdown
	}
	port := portOf(req.URL.Host)
	m := &Msg{Seq: w.seq, Src: getLabel().Entity, Dst: port, Method: req.Method, Path: req.URL.RequestURI(), Body: body, Redirect: req.Response != nil, Start: time.Now(), done: make(chan msgResult, 1), req: req}
	w.seq++
	w.Sent = append(w.Sent, m)
	fault := w.Fault
	if w.servers[port] == nil && fault == nil {
		w.mu.Unlock()
		raceEnable()
		return nil, refused{req.URL.Host}
	}
	w.mu.Unlock()
	ctx := req.Context()
	if dl, ok := ctx.Deadline(); ok {
		raceEnable()
		w.addDeadline(time.Until(dl), func() bool { return ctx.Err() == nil })
		raceDisable()
	}
	if fault != nil {
		raceEnable()
		resp, err, given := w.tryFault(ctx, fault, m)
		raceDisable()
		if given {
			raceEnable()
			return nil, ctx.Err()
		}
		if err != nil || resp != nil {
			if resp != nil {
				resp.Request = req
			}
			raceEnable()
			return resp, err
		}
		w.mu.Lock()
		none := w.servers[port] == nil
		w.mu.Unlock()
		if none {
			raceEnable()
			return nil, refused{req.URL.Host}
		}
	}
	w.mu.Lock()
	w.pending = append(w.pending, m)
	w.mu.Unlock()
	var r msgResult
	select {
	case r = <-m.done:
	case <-ctx.Done():
		w.take(m)
		r.err = ctx.Err()
	}
	raceEnable()
	if w.isDead() {
		runtime.Goexit()
	}
	if r.resp != nil {
		r.resp.Request = req
	}
	return r.resp, r.err
}

// tryFault asks the environment for the fate of a request; given is set when the
// sender gave up waiting first.
func (w *World) tryFault(ctx context.Context, fault func(*Msg) (*http.Response, error), m *Msg) (resp *http.Response, err error, given bool) {
	if ctx.Done() == nil {
		resp, err = fault(m)
		return resp, err, false
	}
	done := make(chan msgResult, 1)
	go func() {
		var r msgResult
		defer func() { done <- r }()
		r.resp, r.err = fault(m)
	}()
	select {
	case r := <-done:
		if w.isDead() {
			runtime.Goexit()
		}
		return r.resp, r.err, false
	case <-ctx.Done():
		return nil, nil, true
	}
}

// Pending returns the messages awaiting delivery, canonically ordered, one per
// distinguishable message.
func (w *World) Pending() []*Msg {
	w.mu.Lock()
	defer w.mu.Unlock()
	seen := map[string]bool{}
	var out []*Msg
	for _, m := range w.pending {
		k := m.Key()
		if !seen[k] {
			seen[k] = true
			out = append(out, m)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Key() < out[j].Key() })
	return out
}

// AllPending returns all messages awaiting delivery, canonically ordered.
func (w *World) AllPending() []*Msg {
	w.mu.Lock()
	defer w.mu.Unlock()
	out := append([]*Msg{}, w.pending...)
	sort.SliceStable(out, func(i, j int) bool { return out[i].Key() < out[j].Key() })
	return out
}

// PendingKeys is the multiset of pending messages.
func (w *World) PendingKeys() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	var out []string
	for _, m := range w.pending {
		out = append(out, m.Key())
	}
	sort.Strings(out)
	return out
}

func (w *World) take(m *Msg) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	for i, p := range w.pending {
		if p == m {
			w.pending = append(append([]*Msg{}, w.pending[:i]...), w.pending[i+1:]...)
			return true
		}
	}
	return false
}

// Fail makes the request fail at the network level.
func (w *World) Fail(m *Msg, err error) {
	if w.take(m) {
		w.Steps++
		m.done <- msgResult{nil, err}
	}
}

// StartDeliver hands the message to the destination's handler (asynchronously).
func (w *World) StartDeliver(m *Msg) {
	if !w.take(m) {
		return
	}
	w.mu.Lock()
	h := w.servers[m.Dst]
	w.Steps++
	l := append(w.Delivered[m.Dst], m.Key())
	sort.Strings(l)
	w.Delivered[m.Dst] = l
	w.mu.Unlock()
	m.delivered = true
	if h == nil {
		m.done <- msgResult{nil, refused{"localhost:" + m.Dst}}
		return
	}
	go w.handle(m, h)
}

func (w *World) handle(m *Msg, h http.Handler) {
	setLabel(&Label{Entity: m.Dst, Cause: m.Key()})
	rec := httptest.NewRecorder()
	completed := false
	defer func() {
		if r := recover(); r != nil {
			if strings.HasPrefix(fmt.Sprint(r), "SIGSEGV") { // no recovery from a fault in native code
				w.crash(fmt.Sprint(r))
			}
			w.mu.Lock()
			w.Panics = append(w.Panics, fmt.Sprint(m.Dst, m.Path, ": ", r, " @ ", trimStack(string(debug.Stack()))))
			w.mu.Unlock()
		}
		if !completed {
			m.done <- msgResult{nil, fmt.Errorf("%s %s: EOF", m.Method, m.Path)}
			return
		}
		m.Reply = rec.Body.Bytes()
		m.done <- msgResult{rec.Result(), nil}
	}()
	if w.Fine {
		w.park("http "+m.Dst+m.Path, nil, nil)
	}
	u := &url.URL{Scheme: "http", Host: "localhost:" + m.Dst}
	r := httptest.NewRequest(m.Method, u.String()+m.Path, bytes.NewReader(m.Body))
	for k, v := range m.req.Header {
		r.Header[k] = v
	}
	if len(m.Body) == 0 {
		r.Body = http.NoBody
	}
	h.ServeHTTP(rec, r)
	completed = true
}

// Inject sends a request from the environment; the result channel receives the
// status code (or -1) once handled.
func (w *World) Inject(port, method, path string, body []byte) *Msg {
	req, _ := http.NewRequest(method, "http://localhost:"+port+path, bytes.NewReader(body))
	m := &Msg{Dst: port, Method: method, Path: path, Body: body, done: make(chan msgResult, 1), req: req, Start: time.Now()}
	w.mu.Lock()
	m.Seq = w.seq
	w.seq++
	w.pending = append(w.pending, m)
	w.mu.Unlock()
	return m
}

// Result of an injected, handled message (nil if not finished).
func (m *Msg) Result() (*http.Response, error, bool) {
	select {
	case r := <-m.done:
		m.done <- r
		return r.resp, r.err, true
	default:
		return nil, nil, false
	}
}

// Do injects a request, delivers it and everything it triggers automatically,
// and returns the response.
func (w *World) Do(port, method, path string, body []byte) (int, []byte, error) {
	m := w.Inject(port, method, path, body)
	w.StartDeliver(m)
	w.Quiesce()
	resp, err, ok := m.Result()
	if !ok {
		return 0, nil, errors.New("no response")
	}
	if err != nil {
		return 0, nil, err
	}
	b, _ := io.ReadAll(resp.Body)
	return resp.StatusCode, b, nil
}

// Quiesce waits until every goroutine is blocked, delivering automatic messages.
func (w *World) Quiesce() {
	for {
		synctest.Wait()
		if w.Fine {
			return
		}
		var pick *Msg
		w.mu.Lock()
		for _, m := range w.pending {
			// the order in which goroutines got to send is not ours to control: take a canonical one
			if (m.Redirect || (w.Auto != nil && w.Auto(m))) && (pick == nil || m.Key() < pick.Key() || (m.Key() == pick.Key() && m.Src < pick.Src)) {
				pick = m
			}
		}
		w.mu.Unlock()
		if pick == nil {
			return
		}
		w.StartDeliver(pick)
	}
}

// Deliver delivers one message and runs the system to quiescence.
func (w *World) Deliver(m *Msg) {
	w.StartDeliver(m)
	w.Quiesce()
	if !w.CtlTimers {
		time.Sleep(time.Millisecond) // distinct instants: timers never coincide
		w.Quiesce()
	}
}

// Advance moves virtual time forward by d, one deadline at a time.
func (w *World) Advance(d time.Duration) {
	end := time.Now().Add(d)
	w.Quiesce()
	for {
		next, ok := w.NextDeadline()
		if !ok || next.After(end) {
			break
		}
		time.Sleep(time.Until(next))
		w.Quiesce()
	}
	if rem := time.Until(end); rem > 0 {
		time.Sleep(rem)
		w.Quiesce()
	}
}

// AdvanceTo moves to an absolute instant.
func (w *World) AdvanceTo(t time.Time) {
	if d := time.Until(t); d > 0 {
		w.Advance(d)
	}
}

// Shutdown ends the execution: every goroutine of the code under test exits.
func (w *World) Shutdown() {
	w.mu.Lock()
	if w.dead {
		w.mu.Unlock()
		return
	}
	w.dead = true
	p := w.pending
	w.pending = nil
	parked := w.parked
	w.parked = nil
	due := w.due
	w.due = nil
	w.mu.Unlock()
	close(w.closed)
	for _, e := range due {
		close(e.ch)
	}
	for _, m := range p {
		m.done <- msgResult{nil, errShutdown}
	}
	for _, t := range parked {
		close(t.ch)
	}
	synctest.Wait()
	// goroutines that were waiting for locks wake through w.closed
}

// LocksWaiting is the number of goroutines blocked on a lock (coarse mode).
func (w *World) LocksWaiting() int { return int(atomic.LoadInt32(&w.lockWait)) }

// ---- fine-grained scheduling --------------------------------------------

func (w *World) park(kind string, ready func() bool, take func()) {
	raceDisable()
	w.mu.Lock()
	if w.dead {
		w.mu.Unlock()
		raceEnable()
		runtime.Goexit()
	}
	w.taskSeq++
	g := goid()
	if w.gids == nil {
		w.gids = map[string]int{}
	}
	if _, ok := w.gids[g]; !ok {
		w.gids[g] = len(w.gids) + 1
	}
	t := &Task{ID: w.taskSeq, G: w.gids[g], Kind: kind, ready: ready, take: take, ch: make(chan struct{})}
	w.parked = append(w.parked, t)
	w.mu.Unlock()
	<-t.ch
	w.mu.Lock()
	d := w.dead
	w.mu.Unlock()
	raceEnable()
	if d {
		runtime.Goexit()
	}
}

// Enabled lists parked tasks that can take a step, in creation order.
func (w *World) Enabled() []*Task {
	synctest.Wait()
	w.mu.Lock()
	defer w.mu.Unlock()
	var out []*Task
	for _, t := range w.parked { // first round: writers that have to wait announce themselves
		if t.ready != nil {
			t.ready()
		}
	}
	for _, t := range w.parked {
		if t.ready == nil || t.ready() {
			out = append(out, t)
		}
	}
	return out
}

// Parked lists all parked tasks.
func (w *World) Parked() []*Task {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]*Task{}, w.parked...)
}

// Resume lets a parked task take one step (to its next scheduling point).
func (w *World) Resume(t *Task) {
	w.mu.Lock()
	for i, p := range w.parked {
		if p == t {
			w.parked = append(append([]*Task{}, w.parked[:i]...), w.parked[i+1:]...)
			break
		}
	}
	if t.take != nil {
		t.take()
	}
	w.Steps++
	w.mu.Unlock()
	close(t.ch)
	synctest.Wait()
}
