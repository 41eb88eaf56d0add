// Package checks holds the generated-case checks of juju/worker.
//
// A scenario generates plain-data cases, runs each of them against the real
// public API inside a testing/synctest bubble and judges the recorded history.
package checks

import (
	"context"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/juju/worker/v4"
	"pgregory.net/rapid"
)

// Viol is one observed violation of one property.
type Viol struct {
	Prop string `json:"property"`
	Msg  string `json:"message"`
}

// Res collects what one case showed.
type Res struct {
	mu      sync.Mutex
	Viol    []Viol
	Classes map[string]int
	Trace   []string
}

func newRes() *Res { return &Res{Classes: map[string]int{}} }

// Fail records a violation of the property.
func (r *Res) Fail(prop, format string, args ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.Viol) < 40 {
		r.Viol = append(r.Viol, Viol{prop, fmt.Sprintf(format, args...)})
	}
}

// Class counts an event of interest of this case.
func (r *Res) Class(name string) {
	r.mu.Lock()
	r.Classes[name]++
	r.mu.Unlock()
}

func (r *Res) of(prop string) []Viol {
	r.mu.Lock()
	defer r.mu.Unlock()
	var out []Viol
	for _, v := range r.Viol {
		if v.Prop == prop || v.Prop == "*" {
			out = append(out, v)
		}
	}
	return out
}

// known tells whether the failing input identified by key is a listed finding.
func (r *Res) known(key string) bool {
	for _, k := range strings.Split(os.Getenv("VP_KNOWN"), ",") {
		if k == key && key != "" {
			r.Class("known-" + key)
			return true
		}
	}
	return false
}

// Scenario is one family of cases.
type Scenario struct {
	Name string
	Gen  func(t *rapid.T, focus string) any
	New  func() any
	Run  func(t *testing.T, c any, r *Res)
}

var scenarios = map[string]*Scenario{}

func register(s *Scenario) { scenarios[s.Name] = s }

// Check says how one property is decided.
type Check struct {
	Prop string
	// Scn lists scenario names, repeated for weight.
	Scn []string
	// Nontrivial tells from the classes of a case whether it exercised the
	// property, and Rule says so in words.
	Nontrivial func(c map[string]int) bool
	Rule       string
}

var checksTable = map[string]*Check{}

func addCheck(prop, rule string, nontrivial func(c map[string]int) bool, scn ...string) {
	checksTable[prop] = &Check{Prop: prop, Scn: scn, Rule: rule, Nontrivial: nontrivial}
}

// bubble runs f in a synctest bubble and turns a deadlock of the bubble, or
// goroutines that never finish, into a violation of each of the properties.
func bubble(t *testing.T, r *Res, props func() []string, f func()) {
	defer func() {
		p := recover()
		if p == nil {
			return
		}
		s := fmt.Sprint(p)
		if !strings.Contains(s, "deadlock") && !strings.Contains(s, "blocked goroutines") {
			panic(p)
		}
		det := stuckFrames()
		if strings.Contains(s, "all goroutines in bubble are blocked") {
			r.Fail("C28", "deadlock: %s", det)
		}
		for _, prop := range props() {
			r.Fail(prop, "goroutines never finish (%s): %s", s, det)
		}
	}()
	synctest.Test(t, func(*testing.T) { f() })
}

// stuckFrames summarises library frames of blocked goroutines.
func stuckFrames() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	seen := map[string]bool{}
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if !strings.Contains(g, "synctest bubble") {
			continue
		}
		for _, l := range strings.Split(g, "\n") {
			l = strings.TrimSpace(l)
			if strings.Contains(l, "juju/worker/v4") && strings.Contains(l, "(") && !strings.HasPrefix(l, "/") {
				if i := strings.LastIndex(l, "("); i > 0 {
					l = l[:i]
				}
				l = l[strings.LastIndex(l, "/")+1:]
				if !seen[l] {
					seen[l] = true
					out = append(out, l)
				}
				break
			}
		}
	}
	sort.Strings(out)
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, ", ")
}

// ---- watchdog (outside any bubble, real time) ----

var (
	caseNo     atomic.Int64
	caseBegan  atomic.Int64 // unix nanos, 0 when idle
	hangReport func(kind, detail string)
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// allBlocked tells whether no goroutine but the calling one can run.
func allBlocked() (bool, string) {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	gs := strings.Split(string(buf), "\n\n")
	for i, g := range gs {
		if i == 0 {
			continue
		}
		head, _, _ := strings.Cut(g, "\n")
		if strings.Contains(head, "[running") || strings.Contains(head, "[runnable") ||
			strings.Contains(head, "[syscall") || strings.Contains(head, "[GC") {
			if strings.Contains(g, "os/signal") {
				continue
			}
			return false, ""
		}
	}
	var in []string
	for _, g := range gs {
		if strings.Contains(g, "synctest bubble") {
			in = append(in, g)
		}
	}
	return true, strings.Join(in, "\n\n")
}

// harnessStuck tells that a goroutine waits for a mutex of the harness itself.
func harnessStuck(dump string) bool {
	for _, g := range strings.Split(dump, "\n\n") {
		i := strings.Index(g, "sync.(*Mutex).Lock(")
		if i < 0 {
			continue
		}
		lines := strings.Split(g[i:], "\n")
		if len(lines) > 2 && strings.Contains(lines[2], "verif/harness/checks") {
			return true
		}
	}
	return false
}

// startWatchdog reports a case that can never finish. It never uses elapsed
// real time alone as a verdict: a hang needs every goroutine to be blocked in
// several samples, a livelock a large amount of CPU time spent by the one case.
func startWatchdog() {
	go func() {
		var lastNo int64
		var cpu0 time.Duration
		var blocked int
		for {
			time.Sleep(2 * time.Second)
			no, began := caseNo.Load(), caseBegan.Load()
			if began == 0 || no != lastNo {
				lastNo, blocked = no, 0
				cpu0 = cpuTime()
				continue
			}
			if cpuTime()-cpu0 > 60*time.Second {
				_, dump := allBlocked()
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				hangReport("livelock", dump+string(buf))
			}
			if ok, dump := allBlocked(); ok {
				blocked++
				if blocked >= 4 && caseNo.Load() == no {
					hangReport("deadlock", dump)
				}
			} else {
				blocked = 0
			}
			if time.Since(time.Unix(0, began)) > 400*time.Second {
				fmt.Fprintln(os.Stderr, "VP-INCONCLUSIVE: case exceeded 400 s")
				os.Exit(9)
			}
		}
	}()
}

// mute is a worker without a Report method, and of a type whose values can't
// be compared.
type mute struct {
	worker.Worker
	_ [0]func()
}

// rich is a worker with the further methods that workers often have; nothing
// promises that any of them is used.
type rich struct {
	worker.Worker
	dying, dead <-chan struct{}
}

func (r rich) Dying() <-chan struct{} { return r.dying }
func (r rich) Dead() <-chan struct{}  { return r.dead }
func (r rich) Err() error             { return errInnermost }
func (r rich) Error() string          { return "a worker that is an error" }
func (r rich) String() string         { return "rich worker" }
func (r rich) Report() map[string]interface{} {
	if rep, ok := r.Worker.(worker.Reporter); ok {
		return rep.Report()
	}
	return nil
}
func (r rich) Alive() bool {
	select {
	case <-r.dying:
		return false
	default:
		return true
	}
}
func (r rich) Stop() error {
	r.Kill()
	return r.Wait()
}
func (r rich) Close() error { return r.Stop() }

// dressed is the worker as it is handed over, depending on its number.
func dressed(w worker.Worker, id int, dying, dead <-chan struct{}) worker.Worker {
	switch id % 5 {
	case 3:
		return mute{Worker: w}
	case 1:
		return rich{w, dying, dead}
	}
	return w
}

// bare is the worker behind a mute or rich one.
func bare(w worker.Worker) worker.Worker {
	switch m := w.(type) {
	case mute:
		return m.Worker
	case rich:
		return m.Worker
	}
	return w
}

// looseCtx is a context of a type whose values can't be compared.
type looseCtx struct {
	context.Context
	_ [0]func()
}

// ownCtx is a context with a Done channel of its own, as those have that are
// not made by the context package.
type ownCtx struct {
	context.Context
	done chan struct{}
}

func (c *ownCtx) Done() <-chan struct{} { return c.done }
func (c *ownCtx) Err() error {
	select {
	case <-c.done:
		return c.Context.Err()
	default:
		return nil
	}
}

// oddCtx is the same context as ctx, as another type.
func oddCtx(ctx context.Context, kind int) context.Context {
	switch kind {
	case 1:
		return looseCtx{Context: ctx}
	case 2:
		c := &ownCtx{Context: ctx}
		if ctx.Done() != nil {
			c.done = make(chan struct{})
			context.AfterFunc(ctx, func() { close(c.done) })
		}
		return c
	}
	return ctx
}

// nameStyle tells whether the current case uses odd names (1, 2) or plain ones.
// It is set before anything of the case runs.
var nameStyle int

// sameText tells that all fatal errors of the current case have the same text.
var sameText bool

var oddNames = []string{"", " ", "a", "A", "a ", "aa", "%s%d%!", "try again/later", "\u00e9\n\"{}", "self"}

// styled is the i'th name.
func styled(prefix string, i int) string {
	if nameStyle > 0 {
		return oddNames[(i+3*(nameStyle-1))%len(oddNames)]
	}
	return fmt.Sprintf("%s%d", prefix, i)
}

// An offset from UTC, so that local and universal times differ.
func init() { time.Local = time.FixedZone("VP", 5*3600+1800) }
