package checks

import (
	"context"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	jerrors "github.com/juju/errors"
	jt "github.com/juju/testing"
	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/catacomb"
	dt "github.com/juju/worker/v4/dependency/testing"
	"github.com/juju/worker/v4/workertest"
	gc "gopkg.in/check.v1"
	"gopkg.in/tomb.v2"
	"pgregory.net/rapid"
)

// ---- scripted workers shared by the small scenarios ----

// TW describes a worker.
type TW struct {
	Kind int `json:"kind,omitempty"` // 0 plain, 1 own Dead channel, 2 nil Dead channel, 3 catacomb, 4 tomb
	Own  int `json:"own,omitempty"`  // ms until it ends by itself, 0 never, -1 dead from the start
	Kill int `json:"kill,omitempty"` // ms it takes to stop when killed, -1 ignores Kill
	Err  int `json:"err,omitempty"`  // number of the error it ends with, 0 none
}

// twErr makes the n-th error: some satisfy the usual predicates, which means
// nothing to Stop, Dead or the helpers.
func twErr(n int) error {
	switch n {
	case 3:
		return jerrors.NotFoundf("end-%d", n)
	case 4:
		return fmt.Errorf("end-%d: %w", n, context.Canceled)
	case 5:
		return fmt.Errorf("end-%d: %w", n, worker.ErrDead)
	case 6:
		return context.Canceled
	case 7:
		return tomb.ErrDying
	case 8:
		return tomb.ErrStillAlive
	}
	return fmt.Errorf("end-%d", n)
}

type tw struct {
	sc    TW
	mu    sync.Mutex
	t0    time.Time
	kills int
	fin   bool
	finT  time.Duration
	killT time.Duration
	err   error
	killc chan struct{}
	end   chan struct{} // closed by the harness at the end of the case
	dead  chan struct{}
}

func (w *tw) now() time.Duration { return time.Since(w.t0) }

func newTW(sc TW, t0 time.Time) *tw {
	w := &tw{sc: sc, t0: t0, killc: make(chan struct{}), dead: make(chan struct{}), end: make(chan struct{})}
	finish := func() {
		w.mu.Lock()
		if sc.Err > 0 {
			w.err = twErr(sc.Err)
		}
		w.fin, w.finT = true, w.now()
		w.mu.Unlock()
		close(w.dead)
	}
	if sc.Own < 0 {
		finish()
		return w
	}
	go func() {
		var own <-chan time.Time
		if sc.Own > 0 {
			tm := time.NewTimer(time.Duration(sc.Own) * time.Millisecond)
			defer tm.Stop()
			own = tm.C
		}
		killc := w.killc
		if sc.Kill < 0 {
			killc = nil
		}
		select {
		case <-own:
		case <-w.end:
		case <-killc:
			if sc.Kill > 0 {
				tm := time.NewTimer(time.Duration(sc.Kill) * time.Millisecond)
				defer tm.Stop()
				select {
				case <-tm.C:
				case <-own:
				case <-w.end:
				}
			}
		}
		finish()
	}()
	return w
}

func (w *tw) Kill() {
	w.mu.Lock()
	w.kills++
	first := w.kills == 1
	if first {
		w.killT = w.now()
	}
	w.mu.Unlock()
	if first {
		close(w.killc)
	}
}

func (w *tw) Wait() error { <-w.dead; return w.err }

func (w *tw) state() (kills int, fin bool, finT time.Duration, err error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.kills, w.fin, w.finT, w.err
}

// endAt predicts when the worker ends if first killed at k (k<0: never); ok is
// false if never.
func (sc TW) endAt(k time.Duration) (time.Duration, bool) {
	ms := func(n int) time.Duration { return time.Duration(n) * time.Millisecond }
	if sc.Own < 0 {
		return 0, true
	}
	t, ok := time.Duration(0), false
	if sc.Own > 0 {
		t, ok = ms(sc.Own), true
	}
	if k >= 0 && sc.Kill >= 0 && (!ok || k+ms(sc.Kill) < t) && (!ok || k <= t) {
		t, ok = k+ms(sc.Kill), true
	}
	return t, ok
}

type deadTW struct{ *tw }

func (d deadTW) Dead() <-chan struct{} { return d.dead }

type nilDeadTW struct{ *tw }

func (nilDeadTW) Dead() <-chan struct{} { return nil }

// cataTW is a real worker built on a catacomb whose work follows the script.
type cataTW struct {
	c  catacomb.Catacomb
	in *tw
}

func (w *cataTW) Kill()       { w.in.Kill(); w.c.Kill(nil) }
func (w *cataTW) Wait() error { return w.c.Wait() }

// tombTW is a real worker on a tomb, with the tomb's own Dead method.
type tombTW struct {
	tomb.Tomb
	in *tw
}

func (w *tombTW) Kill() { w.in.Kill(); w.Tomb.Kill(nil) }

func wrapTW(w *tw) worker.Worker {
	switch w.sc.Kind {
	case 1:
		return deadTW{w}
	case 2:
		return nilDeadTW{w}
	case 3:
		c := &cataTW{in: w}
		if err := catacomb.Invoke(catacomb.Plan{Name: "tw", Site: &c.c, Work: w.Wait}); err != nil {
			panic(err)
		}
		return c
	case 4:
		c := &tombTW{in: w}
		c.Go(w.Wait)
		return c
	case 5:
		return mute{Worker: w}
	case 6:
		return rich{w, w.killc, w.dead}
	}
	return w
}

func genTW(t *rapid.T) TW {
	w := TW{Kind: rapid.IntRange(0, 6).Draw(t, "kind")}
	w.Own = pick(t, "own", 0, 0, 5, 10, 20, 100, -1)
	w.Kill = pick(t, "kill", 0, 0, 5, 10, 100, -1)
	w.Err = pick(t, "err", 0, 1, 2, 0, 3, 4, 5, 6, 7, 8)
	if w.Err > 6 && (w.Kind == 3 || w.Kind == 4) {
		w.Err = 1 // tombs mean something by such an error
	}
	return w
}

// ---- C25: Stop and Dead ----

// DOp is one call.
type DOp struct {
	At int    `json:"at"` // ms
	Op string `json:"op"` // dead, stop, kill
}

// DCase is one worker with a set of concurrent calls.
type DCase struct {
	W   TW    `json:"w"`
	Ops []DOp `json:"ops"`
}

func genDCase(t *rapid.T, focus string) any {
	c := &DCase{W: genTW(t)}
	n := rapid.IntRange(1, 6).Draw(t, "n")
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, DOp{At: pick(t, "at", 0, 0, 3, 5, 10, 12, 30, 200), Op: pick(t, "op", "dead", "dead", "stop", "kill")})
	}
	return c
}

func runDCase(t *testing.T, cc any, r *Res) {
	c := cc.(*DCase)
	bubble(t, r, func() []string { return []string{"C25"} }, func() {
		t0 := time.Now()
		in := newTW(c.W, t0)
		w := wrapTW(in)
		kill := time.Duration(-1)
		for _, op := range c.Ops {
			if at := time.Duration(op.At) * time.Millisecond; op.Op != "dead" && (kill < 0 || at < kill) {
				kill = at
			}
		}
		endT, ends := c.W.endAt(kill)
		if !ends {
			endT = time.Hour
		}
		var wg sync.WaitGroup
		for i, op := range c.Ops {
			wg.Add(1)
			go func() {
				defer wg.Done()
				at := time.Duration(op.At) * time.Millisecond
				time.Sleep(at)
				switch op.Op {
				case "kill":
					w.Kill()
				case "stop":
					err := worker.Stop(w)
					now := in.now()
					kills, fin, finT, werr := in.state()
					if !fin {
						r.Fail("C25", "op %d: Stop returned %v before the worker finished", i, err)
						return
					}
					if kills == 0 {
						r.Fail("C25", "op %d: Stop did not kill the worker", i)
					}
					if err != werr {
						r.Fail("C25", "op %d: Stop returned %v, Wait returns %v", i, err, werr)
					}
					if want := max(at, finT); now != want {
						r.Fail("C25", "op %d: Stop returned at %v, the worker finished at %v", i, now, finT)
					}
					r.Class("stop")
				case "dead":
					ch := worker.Dead(w)
					if ch == nil {
						r.Fail("C25", "op %d: Dead returned a nil channel", i)
						return
					}
					if in.now() != at {
						r.Fail("C25", "op %d: Dead took %v to return", i, in.now()-at)
					}
					select {
					case _, open := <-ch:
						now := in.now()
						_, fin, finT, _ := in.state()
						if open {
							r.Fail("C25", "op %d: Dead delivered a value instead of being closed", i)
						}
						if !fin {
							r.Fail("C25", "op %d: Dead closed at %v before the worker finished", i, now)
							return
						}
						if want := max(at, finT); now != want {
							r.Fail("C25", "op %d: Dead closed at %v, the worker finished at %v", i, now, finT)
						}
						// A later caller sees it closed as well.
						select {
						case <-ch:
						default:
							r.Fail("C25", "op %d: Dead is not closed any more", i)
						}
						r.Class("dead")
						if now > at {
							r.Class("dead-waited")
						}
					case <-time.After(2 * time.Hour):
						r.Fail("C25", "op %d: Dead was never closed", i)
					}
				}
			}()
		}
		// A worker that never ends by itself: Dead must stay open.
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Hour)
			kills, fin, finT, _ := in.state()
			if kill < 0 && kills > 0 {
				r.Fail("C25", "Dead killed the worker")
			}
			if ends != fin {
				r.Fail("C25", "worker finished: %v, expected %v", fin, ends)
			} else if fin && finT != endT && finT > 0 {
				r.Fail("C25", "worker finished at %v, expected %v: it was killed at another time", finT, endT)
			}
			close(in.end)
		}()
		wg.Wait()
	})
}

// ---- C26: workertest ----

// WOp is one step on the case's worker.
type WOp struct {
	Op string `json:"op"`
	MS int    `json:"ms,omitempty"`
}

// WCase is one worker judged by the helpers.
type WCase struct {
	Make  int   `json:"make"` // 0 scripted, 1 error worker, 2 dead worker, 3 forever worker, 4 fake watcher
	W     TW    `json:"w"`
	Len   int   `json:"len,omitempty"`
	Pre   int   `json:"pre,omitempty"`
	Pings int   `json:"pings,omitempty"`
	Close bool  `json:"close,omitempty"`
	Ops   []WOp `json:"ops"`
}

func genWCase(t *rapid.T, focus string) any {
	c := &WCase{Make: pick(t, "make", 0, 0, 0, 1, 2, 3, 4), W: genTW(t)}
	c.W.Own = pick(t, "own2", 0, 0, 1, 10, 49, 51, 80, 5000, 9990, 10060, 20000, -1)
	c.W.Kill = pick(t, "kill2", 0, 0, 10, 49, 51, 2000, 9999, 10001, 30000, -1)
	if c.Make == 4 {
		c.Len = rapid.IntRange(0, 6).Draw(t, "len")
		c.Pre = rapid.IntRange(0, 6).Draw(t, "pre")
		c.Pings = rapid.IntRange(0, 8).Draw(t, "pings")
		c.Close = rapid.Bool().Draw(t, "close")
	}
	n := rapid.IntRange(1, 4).Draw(t, "n")
	for i := 0; i < n; i++ {
		op := WOp{Op: pick(t, "op", "alive", "killed", "kill", "clean", "dirty", "nilorkill", "nil", "sleep", "rawkill", "really", "alive")}
		if op.Op == "sleep" {
			op.MS = pick(t, "ms", 5, 45, 100, 3000, 12000)
		}
		if op.Op == "nil" {
			op.MS = pick(t, "typed", 1, 0)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// safely turns a panic into an error.
func safely(f func()) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	f()
	return nil
}

// wsuite is the suite whose only test runs the case.
type wsuite struct{ f func(c *gc.C) }

func (s *wsuite) TestCase(c *gc.C) { s.f(c) }

func runWCase(t *testing.T, cc any, r *Res) {
	c := cc.(*WCase)
	bubble(t, r, func() []string { return []string{"C26"} }, func() {
		ran := false
		res := gc.Run(&wsuite{func(gcc *gc.C) {
			ran = true
			wcase(c, r, gcc)
			gcc.Succeed()
		}}, &gc.RunConf{Output: io.Discard})
		if !ran || res.RunError != nil || res.Panicked > 0 || res.Succeeded != 1 {
			r.Fail("C26", "the helpers ended the test: %+v", res)
		}
	})
}

func wcase(c *WCase, r *Res, gcc *gc.C) {
	t0 := time.Now()
	now := func() time.Duration { return time.Since(t0) }
	var w worker.Worker
	var in *tw
	var forever *workertest.ForeverWorker
	var watcher *workertest.NotAWatcher
	var werr error
	if c.W.Err > 0 {
		werr = twErr(c.W.Err)
	}
	// finAt is the time at which the worker ends, as far as known; -1 unknown.
	killed := time.Duration(-1)
	really := time.Duration(-1)
	var finAt func() (time.Duration, bool)
	switch c.Make {
	case 0:
		in = newTW(c.W, t0)
		w = in
		finAt = func() (time.Duration, bool) { return c.W.endAt(killed) }
	case 1:
		w = workertest.NewErrorWorker(werr)
		finAt = func() (time.Duration, bool) { return killed, killed >= 0 }
	case 2:
		w = workertest.NewDeadWorker(werr)
		finAt = func() (time.Duration, bool) { return 0, true }
	case 3:
		forever = workertest.NewForeverWorker(werr)
		w = forever
		finAt = func() (time.Duration, bool) { return really, really >= 0 }
	case 4:
		werr = nil
		if c.Pre > c.Len {
			func() {
				defer func() {
					if recover() == nil {
						r.Fail("C26", "NewFakeWatcher(%d, %d) did not refuse", c.Len, c.Pre)
					}
				}()
				fw := workertest.NewFakeWatcher(c.Len, c.Pre)
				fw.Kill()
			}()
			r.Class("watcher")
			return
		}
		fw := workertest.NewFakeWatcher(c.Len, c.Pre)
		watcher = &fw
		w = fw
		finAt = func() (time.Duration, bool) { return killed, killed >= 0 }
		runWatcher(c, r, watcher)
	}
	if c.Make == 0 && in != nil && c.W.Err > 0 {
		// the scripted worker makes its own error value; compare by text
	}
	same := func(a, b error) bool {
		if c.Make == 0 {
			return (a == nil) == (b == nil) && (a == nil || a.Error() == b.Error())
		}
		return a == b
	}
	defer func() {
		// Let go of the worker whatever happened.
		w.Kill()
		if forever != nil {
			forever.ReallyKill()
		}
		if in != nil {
			close(in.end)
		}
		w.Wait()
		synctest.Wait()
	}()
	for i, op := range c.Ops {
		synctest.Wait()
		gcc.Succeed()
		at := now()
		doKill := func() {
			if killed < 0 {
				killed = at
			}
		}
		var expectFail, tie bool
		kills := -1
		if in != nil {
			kills, _, _, _ = in.state()
		}
		switch op.Op {
		case "sleep":
			time.Sleep(time.Duration(op.MS) * time.Millisecond)
			continue
		case "rawkill":
			doKill()
			w.Kill()
			continue
		case "really":
			if forever != nil {
				if really < 0 {
					really = at
				}
				forever.ReallyKill()
			}
			continue
		case "nil":
			workertest.CheckNilOrKill(gcc, nil)
			if op.MS%2 == 1 {
				// what a constructor returning a concrete type leaves behind
				var none *tw
				if err := safely(func() { workertest.CheckNilOrKill(gcc, none) }); err != nil {
					r.Fail("C26", "op %d: CheckNilOrKill of a nil pointer: %v", i, err)
				}
			}
			if gcc.Failed() || now() != at {
				r.Fail("C26", "op %d: CheckNilOrKill(nil) failed the test or waited", i)
			}
			continue
		case "alive":
			ft, ok := finAt()
			workertest.CheckAlive(gcc, w)
			end := at + jt.ShortWait
			expectFail, tie = ok && ft < end, ok && ft == end
			want := end
			if expectFail {
				want = max(ft, at)
				r.Class("alive-failed")
			} else {
				r.Class("alive-passed")
			}
			if !tie && now() != want {
				r.Fail("C26", "op %d: CheckAlive returned at %v, want %v", i, now(), want)
			}
			if in != nil {
				if k, _, _, _ := in.state(); k != kills {
					r.Fail("C26", "op %d: CheckAlive killed the worker", i)
				}
			}
		default:
			kills2 := op.Op != "killed"
			if kills2 {
				doKill()
			}
			ft, ok := finAt()
			end := at + jt.LongWait
			timeout := !ok || ft > end
			tie = ok && ft == end
			var err error
			checkErr := false
			switch op.Op {
			case "killed":
				err, checkErr = workertest.CheckKilled(gcc, w), true
			case "kill":
				err, checkErr = workertest.CheckKill(gcc, w), true
			case "clean":
				workertest.CleanKill(gcc, w)
			case "dirty":
				workertest.DirtyKill(gcc, w)
			case "nilorkill":
				workertest.CheckNilOrKill(gcc, w)
			}
			expectFail = timeout
			switch op.Op {
			case "clean":
				expectFail = timeout || werr != nil
			case "nilorkill":
				expectFail = true
			}
			want := end
			if !timeout {
				want = max(ft, at)
				r.Class("kill-finished")
			} else {
				r.Class("kill-timeout")
			}
			if !tie {
				if now() != want {
					r.Fail("C26", "op %d: %s returned at %v, want %v", i, op.Op, now(), want)
				}
				if checkErr && !timeout && !same(err, werr) {
					r.Fail("C26", "op %d: %s returned %v, the worker ended with %v", i, op.Op, err, werr)
				}
				if checkErr && timeout && err == nil {
					r.Fail("C26", "op %d: %s returned no error for a worker that did not stop", i, op.Op)
				}
			}
			if in != nil {
				k, _, _, _ := in.state()
				if kills2 && k == kills {
					r.Fail("C26", "op %d: %s did not kill the worker", i, op.Op)
				}
				if !kills2 && k != kills {
					r.Fail("C26", "op %d: %s killed the worker", i, op.Op)
				}
			}
		}
		if !tie && gcc.Failed() != expectFail {
			r.Fail("C26", "op %d: %s failed the test: %v, want %v", i, op.Op, gcc.Failed(), expectFail)
		}
	}
	// The worker's own end, seen from outside.
	synctest.Wait()
	if ft, ok := finAt(); ok && ft <= now() {
		waited := make(chan error, 1)
		go func() { waited <- w.Wait() }()
		synctest.Wait()
		select {
		case err := <-waited:
			if !same(err, werr) {
				r.Fail("C26", "Wait returned %v instead of %v", err, werr)
			}
		default:
			r.Fail("C26", "worker kind %d has not finished, it should have at %v", c.Make, ft)
		}
	} else if c.Make > 0 {
		waited := make(chan error, 1)
		go func() { waited <- w.Wait() }()
		synctest.Wait()
		select {
		case err := <-waited:
			r.Fail("C26", "worker kind %d finished (%v) without being killed", c.Make, err)
		default:
		}
	}
}

func runWatcher(c *WCase, r *Res, w *workertest.NotAWatcher) {
	r.Class("watcher")
	var mu sync.Mutex
	pinged := 0
	stopped := make(chan struct{})
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i := 0; i < c.Pings; i++ {
			w.Ping()
			mu.Lock()
			pinged++
			mu.Unlock()
		}
		if c.Close {
			w.Close()
		}
		<-stopped
	}()
	synctest.Wait()
	mu.Lock()
	if want := min(c.Pings, c.Len-c.Pre); pinged < want {
		r.Fail("C26", "%d pings went through into a watcher of length %d with %d preloaded", pinged, c.Len, c.Pre)
	}
	mu.Unlock()
	got := 0
	closed := false
	for !closed {
		synctest.Wait()
		select {
		case _, ok := <-w.Changes():
			if !ok {
				closed = true
			} else {
				got++
			}
			if got > 100 {
				r.Fail("C26", "watcher delivers changes endlessly")
				closed = true
			}
			continue
		default:
		}
		break
	}
	if got != c.Pre+c.Pings {
		r.Fail("C26", "watcher delivered %d changes, %d were preloaded and %d pinged", got, c.Pre, c.Pings)
	}
	if closed != c.Close {
		r.Fail("C26", "changes channel closed: %v, want %v", closed, c.Close)
	}
	close(stopped)
	<-done
}

// ---- C27: stub resources ----

// SCase is a set of stub resources and one Get for every target.
type SCase struct {
	Raw map[string][]int `json:"raw"` // value numbers; one number is a plain value, several a list
	Err map[string]int   `json:"err,omitempty"`
	Get []SGet           `json:"get"`
	// How the getter is made: 0 StubGetter, 1 NewStubResources, 2 by hand.
	How int `json:"how"`
}

// SGet is one Get call.
type SGet struct {
	Name   string `json:"name"`
	Target int    `json:"target"`
}

type (
	namedInt int
	namedStr string
	sIface   interface{ Foo() int }
	sImpl    struct{ n int }
	sPtr     struct{ n int }
	pair     struct{ A, B int }
	pairToo  struct{ A, B int }
)

func (s sImpl) Foo() int { return s.n }
func (s *sPtr) Foo() int { return s.n }

var stubValues = []any{
	0, 1, 42, namedInt(7), int8(-3), uint64(9), 2.5, "text", namedStr("named"), []byte("bytes"), []rune("runes"),
	true, sImpl{3}, &sPtr{4}, &sImpl{5}, pair{1, 2}, pairToo{3, 4}, []int{1}, [2]int{1, 2}, map[string]int{"a": 1},
	nil, (*sPtr)(nil), []int(nil), complex(1, 2),
}

var stubTargets = []func() any{
	func() any { return new(int) }, func() any { return new(namedInt) }, func() any { return new(string) },
	func() any { return new(sIface) }, func() any { return new(any) }, func() any { return new(*sPtr) },
	func() any { return new([]byte) }, func() any { return new(pair) }, func() any { return new(error) },
	func() any { return new(bool) }, func() any { return new([2]int) }, func() any { return new([]int) },
	func() any { return new(float64) }, func() any { return new(map[string]int) },
	func() any { return nil }, func() any { return 5 }, func() any { return "not a pointer" }, func() any { return sImpl{1} },
	func() any { return (*int)(nil) },
}

func genSCase(t *rapid.T, focus string) any {
	c := &SCase{Raw: map[string][]int{}, Err: map[string]int{}, How: rapid.IntRange(0, 2).Draw(t, "how")}
	names := []string{"a", "b", "c", "", "d"}
	n := rapid.IntRange(0, 4).Draw(t, "n")
	for i := 0; i < n; i++ {
		k := rapid.IntRange(1, 4).Draw(t, "k")
		if prob(t, "empty", 10) {
			k = 0
		}
		vs := []int{}
		for j := 0; j < k; j++ {
			vs = append(vs, rapid.IntRange(0, len(stubValues)-1).Draw(t, "v"))
		}
		c.Raw[names[i]] = vs
		if prob(t, "err", 20) {
			c.Err[names[i]] = rapid.IntRange(1, 3).Draw(t, "en")
		}
	}
	g := rapid.IntRange(1, 6).Draw(t, "g")
	for i := 0; i < g; i++ {
		c.Get = append(c.Get, SGet{names[rapid.IntRange(0, n).Draw(t, "gn")%len(names)], rapid.IntRange(0, len(stubTargets)-1).Draw(t, "gt")})
	}
	return c
}

// stubPanicKey names the listed finding that a panicking Get belongs to.
func stubPanicKey(out any, outs []any, err error) string {
	if out == nil || err != nil {
		return ""
	}
	ov := reflect.ValueOf(out)
	if ov.Kind() != reflect.Ptr {
		return ""
	}
	if ov.IsNil() {
		return "nil-pointer"
	}
	T := ov.Elem().Type()
	for _, o := range outs {
		v := reflect.ValueOf(o)
		switch {
		case !v.IsValid():
			return "nil-output"
		case v.Kind() == reflect.Slice && T.Kind() == reflect.Array && v.Type().ConvertibleTo(T) && v.Len() < T.Len():
			return "short-slice"
		case v.CanConvert(T):
			return ""
		}
	}
	return ""
}

func runSCase(t *testing.T, cc any, r *Res) {
	c := cc.(*SCase)
	errs := map[string]error{}
	outs := map[string][]any{}
	raw := map[string]interface{}{}
	byHand := dt.StubResources{}
	for name, vs := range c.Raw {
		if n := c.Err[name]; n > 0 {
			errs[name] = fmt.Errorf("stub-%d", n)
			raw[name] = errs[name]
		}
		list := []interface{}{}
		for _, v := range vs {
			list = append(list, stubValues[v])
		}
		outs[name] = list
		if errs[name] == nil {
			if len(list) == 1 {
				raw[name] = list[0]
			} else {
				raw[name] = list
			}
		}
		res := dt.NewStubResource(list...)
		res.Error = errs[name]
		byHand[name] = res
	}
	var get func(name string, out interface{}) error
	switch c.How {
	case 0:
		get = dt.StubGetter(raw).Get
	case 1:
		get = dt.NewStubResources(raw).Getter().Get
	default:
		get = byHand.Getter().Get
	}
	for i, g := range c.Get {
		out := stubTargets[g.Target]()
		ov := reflect.ValueOf(out)
		isPtr := out != nil && ov.Kind() == reflect.Ptr && !ov.IsNil()
		var err error
		panicked := func() (p any) {
			defer func() { p = recover() }()
			err = get(g.Name, out)
			return nil
		}()
		what := fmt.Sprintf("op %d: Get(%q, %T)", i, g.Name, out)
		if panicked != nil {
			if r.known(stubPanicKey(out, outs[g.Name], errs[g.Name])) {
				continue
			}
			r.Fail("C27", "%s panicked: %v (resources %v)", what, panicked, outs[g.Name])
			continue
		}
		_, known := c.Raw[g.Name]
		untouched := func() {
			if isPtr && !reflect.DeepEqual(out, stubTargets[g.Target]()) {
				r.Fail("C27", "%s failed but changed the target to %v", what, ov.Elem())
			}
		}
		switch {
		case !known:
			if err == nil {
				r.Fail("C27", "%s of an unknown name succeeded", what)
			}
			untouched()
			r.Class("unknown")
		case errs[g.Name] != nil:
			if err != errs[g.Name] && !errors.Is(err, errs[g.Name]) {
				r.Fail("C27", "%s returned %v instead of %v", what, err, errs[g.Name])
			}
			untouched()
			r.Class("stub-error")
		case out == nil:
			if err != nil {
				r.Fail("C27", "%s with a nil target returned %v", what, err)
			}
			r.Class("nil-target")
		case !isPtr:
			if err == nil {
				r.Fail("C27", "%s with a target that is no pointer succeeded", what)
			}
			r.Class("not-a-pointer")
		default:
			T := ov.Elem().Type()
			var want reflect.Value
			for _, o := range outs[g.Name] {
				if v := reflect.ValueOf(o); v.IsValid() && v.CanConvert(T) {
					want = v.Convert(T)
					break
				}
			}
			if !want.IsValid() {
				if err == nil {
					r.Fail("C27", "%s succeeded, none of %v is convertible", what, outs[g.Name])
				}
				untouched()
				r.Class("no-match")
				continue
			}
			if err != nil {
				r.Fail("C27", "%s returned %v, want %v", what, err, want)
				continue
			}
			if !reflect.DeepEqual(ov.Elem().Interface(), want.Interface()) {
				r.Fail("C27", "%s set %v, want %v", what, ov.Elem(), want)
			}
			r.Class("resolved")
			if len(outs[g.Name]) > 1 {
				r.Class("resolved-of-several")
			}
		}
	}
}

func init() {
	register(&Scenario{Name: "dead", Gen: genDCase, New: func() any { return &DCase{} }, Run: runDCase})
	register(&Scenario{Name: "workertest", Gen: genWCase, New: func() any { return &WCase{} }, Run: runWCase})
	register(&Scenario{Name: "stub", Gen: genSCase, New: func() any { return &SCase{} }, Run: runSCase})
	addCheck("C25", "one worker and concurrent Stop, Dead and Kill calls; non-trivial when a Dead channel was closed while waited for, or Stop returned", func(c map[string]int) bool { return c["dead-waited"]+c["stop"] > 0 }, "dead")
	addCheck("C26", "helpers applied to a scripted or provided worker; non-trivial when a helper judged the worker", func(c map[string]int) bool {
		return c["alive-failed"]+c["alive-passed"]+c["kill-finished"]+c["kill-timeout"]+c["watcher"] > 0
	}, "workertest")
	addCheck("C27", "stub getters; non-trivial when a target was resolved or refused for its type", func(c map[string]int) bool { return c["resolved"]+c["no-match"] > 0 }, "stub")
}
