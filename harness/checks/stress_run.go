package checks

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sync"
	"testing"
	"time"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/catacomb"
	"github.com/juju/worker/v4/dependency"
	"pgregory.net/rapid"
)

// Bursts of concurrent calls with no synchronisation of the harness between
// them, for the race detector. Successive incarnations of one id and whoever
// waits for the whole touch plain memory: the library has to order them.

// XOp is one call.
type XOp struct {
	Op  string `json:"op"`
	ID  int    `json:"id,omitempty"`
	MS  int    `json:"ms,omitempty"`
	Err int    `json:"err,omitempty"` // 0 none, 1 plain, 2 fatal, 3 bounce, 4 uninstall
	KMS int    `json:"kms,omitempty"`
}

// XCase is a set of goroutines.
type XCase struct {
	Kind string  `json:"kind"`
	G    [][]XOp `json:"g"`
	Init []XOp   `json:"init,omitempty"`
}

func genXCase(t *rapid.T, focus string) any {
	c := &XCase{Kind: pick(t, "kind", "runner", "engine", "catacomb")}
	ops := map[string][]string{
		"runner":   {"start", "start", "start", "stop", "stopremove", "worker", "worker", "names", "report", "sleep", "wait", "kill"},
		"engine":   {"install", "install", "install", "report", "report", "sleep", "wait", "validate", "kill"},
		"catacomb": {"add", "add", "add", "err", "dying", "dead", "context", "errdying", "sleep", "wait", "kill"},
	}[c.Kind]
	genOp := func(name string) XOp {
		return XOp{Op: name, ID: rapid.IntRange(0, 3).Draw(t, "id"), MS: pick(t, "ms", 0, 0, 1, 2, 5),
			Err: pick(t, "err", 0, 0, 0, 1, 1, 3, 4, 2), KMS: pick(t, "kms", 0, 0, 1)}
	}
	if c.Kind == "catacomb" {
		n := rapid.IntRange(0, 3).Draw(t, "ni")
		for i := 0; i < n; i++ {
			c.Init = append(c.Init, genOp("init"))
		}
	}
	n := rapid.IntRange(2, 6).Draw(t, "n")
	for i := 0; i < n; i++ {
		var g []XOp
		k := rapid.IntRange(1, 8).Draw(t, "k")
		for j := 0; j < k; j++ {
			name := ops[rapid.IntRange(0, len(ops)-1).Draw(t, "op")]
			if name == "kill" && !prob(t, "really", 40) {
				name = "sleep"
			}
			g = append(g, genOp(name))
		}
		c.G = append(c.G, g)
	}
	return c
}

// cellTouch accesses plain memory that the library must have ordered; a data
// race reported here is the library's fault.
//
//go:noinline
func cellTouch(cell *int) { *cell++ }

var errXFatal = errors.New("fatal")

func xerr(n int) error {
	switch n {
	case 1:
		return errors.New("plain")
	case 2:
		return errXFatal
	case 3:
		return dependency.ErrBounce
	case 4:
		return dependency.ErrUninstall
	}
	return nil
}

// xwrk ends by itself after ms (0: never), or kms after Kill.
type xwrk struct {
	*bwrk
	val int
}

func (x *xwrk) Report() map[string]interface{} { return map[string]interface{}{"val": x.val} }

func newXwrk(op XOp, cell *int) *xwrk {
	x := &xwrk{bwrk: newBwrk()}
	cellTouch(&x.val)
	go func() {
		var own <-chan time.Time
		if op.MS > 0 {
			tm := time.NewTimer(time.Duration(op.MS) * time.Millisecond)
			defer tm.Stop()
			own = tm.C
		}
		select {
		case <-own:
		case <-x.killc:
			if op.KMS > 0 {
				time.Sleep(time.Duration(op.KMS) * time.Millisecond)
			}
		}
		if cell != nil {
			cellTouch(cell)
		}
		x.err = xerr(op.Err)
		close(x.dead)
	}()
	return x
}

// readReport walks through a report as a user formatting it would.
func readReport(m map[string]interface{}) int { return len(fmt.Sprint(m)) }

func runXCase(t *testing.T, cc any, r *Res) {
	c := cc.(*XCase)
	bubble(t, r, func() []string { return []string{"C28"} }, func() {
		calls := 0
		for _, g := range c.G {
			calls += len(g)
		}
		if len(c.G) > 1 && calls > 3 {
			r.Class("stress-" + c.Kind)
		}
		switch c.Kind {
		case "runner":
			xRunner(c, r)
		case "engine":
			xEngine(c, r)
		default:
			xCatacomb(c, r)
		}
	})
}

// spread runs every goroutine's operations.
func spread(c *XCase, do func(op XOp)) *sync.WaitGroup {
	var wg sync.WaitGroup
	for _, g := range c.G {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, op := range g {
				if op.Op == "sleep" {
					if op.MS == 0 {
						runtime.Gosched()
					} else {
						time.Sleep(time.Duration(op.MS) * time.Millisecond)
					}
					continue
				}
				do(op)
			}
		}()
	}
	return &wg
}

func after(d time.Duration) <-chan struct{} {
	ch := make(chan struct{})
	go func() {
		time.Sleep(d)
		close(ch)
	}()
	return ch
}

func xRunner(c *XCase, r *Res) {
	rn, err := worker.NewRunner(worker.RunnerParams{
		Name:         "stress",
		IsFatal:      func(err error) bool { return err == errXFatal },
		RestartDelay: time.Millisecond,
	})
	if err != nil {
		r.Fail("C28", "NewRunner: %v", err)
		return
	}
	cells := make([]int, 8)
	var waits sync.WaitGroup
	wg := spread(c, func(op XOp) {
		id := fmt.Sprint(op.ID)
		switch op.Op {
		case "start":
			_ = rn.StartWorker(context.Background(), id, func(ctx context.Context) (worker.Worker, error) {
				cellTouch(&cells[op.ID])
				if op.KMS > 0 && op.MS > 2 {
					time.Sleep(time.Millisecond)
				}
				return newXwrk(op, &cells[op.ID]), nil
			})
		case "stop":
			_ = rn.StopWorker(id)
		case "stopremove":
			var abort <-chan struct{}
			if op.Err > 0 {
				abort = after(time.Duration(op.MS) * time.Millisecond)
			}
			_ = rn.StopAndRemoveWorker(id, abort)
		case "worker":
			w, err := rn.Worker(id, after(time.Duration(op.MS)*time.Millisecond))
			if err == nil {
				readReport(w.(*xwrk).Report())
				if op.Err == 1 {
					w.Kill()
				}
			}
		case "names":
			rn.WorkerNames()
		case "report":
			readReport(rn.Report())
		case "kill":
			rn.Kill()
		case "wait":
			waits.Add(1)
			go func() {
				defer waits.Done()
				_ = rn.Wait()
				rn.WorkerNames()
				readReport(rn.Report())
			}()
		}
	})
	wg.Wait()
	rn.Kill()
	_ = rn.Wait()
	for i := range cells {
		cellTouch(&cells[i])
	}
	waits.Wait()
	time.Sleep(time.Second)
}

func xEngine(c *XCase, r *Res) {
	e, err := dependency.NewEngine(dependency.EngineConfig{
		IsFatal:    func(err error) bool { return err == errXFatal },
		WorstError: func(a, b error) error { return a },
		ErrorDelay: time.Millisecond, BounceDelay: time.Millisecond,
		BackoffFactor: 1.5, MaxDelay: 10 * time.Millisecond,
		Clock: realClock{}, Metrics: dependency.DefaultMetrics(), Logger: nullLogger{},
	})
	if err != nil {
		r.Fail("C28", "NewEngine: %v", err)
		return
	}
	cells := make([]int, 8)
	var late sync.WaitGroup
	name := func(i int) string { return fmt.Sprintf("m%d", i) }
	mk := func(op XOp, depth int) dependency.Manifold {
		var ins []string
		for i := 0; i < op.ID; i++ {
			ins = append(ins, name(i))
		}
		ins = append(ins, "self")
		n := 0
		return dependency.Manifold{
			Inputs: ins,
			Start: func(ctx context.Context, get dependency.Getter) (worker.Worker, error) {
				cellTouch(&cells[op.ID])
				cellTouch(&n)
				for i := 0; i < op.ID; i++ {
					var x *xwrk
					if err := get.Get(name(i), &x); err == nil {
						readReport(x.Report())
					}
				}
				if op.MS%2 == 1 {
					// Gets from other goroutines, one of which may be late.
					for i := 0; i < 2; i++ {
						late.Add(1)
						go func() {
							defer late.Done()
							_ = get.Get(name(0), nil)
							runtime.Gosched()
							_ = get.Get(name(1), nil)
						}()
					}
				}
				var rep dependency.Reporter
				if err := get.Get("self", &rep); err == nil && op.KMS > 0 {
					readReport(rep.Report())
				}
				sc := op
				if n > 6 {
					sc.MS, sc.Err = 0, 0
				}
				return newXwrk(sc, &cells[op.ID]), nil
			},
			Output: func(in worker.Worker, out interface{}) error {
				*(out.(**xwrk)) = in.(*xwrk)
				return nil
			},
		}
	}
	if c.G[0][0].KMS > 0 {
		if err := e.Install("self", dependency.SelfManifold(e)); err != nil {
			r.Fail("C28", "Install: %v", err)
		}
	}
	var waits sync.WaitGroup
	wg := spread(c, func(op XOp) {
		switch op.Op {
		case "install":
			_ = e.Install(name(op.ID), mk(op, 0))
		case "report":
			readReport(e.Report())
		case "validate":
			_ = dependency.Validate(dependency.Manifolds{name(op.ID): mk(op, 0)})
		case "kill":
			e.Kill()
		case "wait":
			waits.Add(1)
			go func() {
				defer waits.Done()
				_ = e.Wait()
				readReport(e.Report())
			}()
		}
	})
	wg.Wait()
	e.Kill()
	_ = e.Wait()
	for i := range cells {
		cellTouch(&cells[i])
	}
	late.Wait()
	waits.Wait()
}

func xCatacomb(c *XCase, r *Res) {
	var site catacomb.Catacomb
	var work int
	n := 0
	cells := make([]int, 128)
	var init []worker.Worker
	for _, op := range c.Init {
		init = append(init, newXwrk(op, &cells[n]))
		n++
	}
	plan := catacomb.Plan{Name: "stress", Site: &site, Init: init, Work: func() error {
		<-site.Dying()
		time.Sleep(time.Millisecond)
		cellTouch(&work)
		return site.ErrDying()
	}}
	if err := catacomb.Invoke(plan); err != nil {
		r.Fail("C28", "Invoke: %v", err)
		return
	}
	for i := range init {
		init[i] = nil
	}
	for gi := range c.G {
		for oi := range c.G[gi] {
			c.G[gi][oi].ID = n // each added worker has its own cell
			n++
		}
	}
	var waits sync.WaitGroup
	bg := func(f func()) {
		waits.Add(1)
		go func() {
			defer waits.Done()
			f()
		}()
	}
	wg := spread(c, func(op XOp) {
		switch op.Op {
		case "add":
			_ = site.Add(newXwrk(op, &cells[op.ID]))
		case "err":
			_ = site.Err()
		case "dying":
			bg(func() { <-site.Dying(); _ = site.ErrDying() })
		case "dead":
			bg(func() { <-site.Dead(); _ = site.Err() })
		case "context":
			ctx, cancel := context.WithCancel(context.Background())
			cx := site.Context(ctx)
			bg(func() { <-cx.Done(); _ = cx.Err(); cancel() })
		case "errdying":
			_ = site.Err()
		case "kill":
			site.Kill(xerr(op.Err))
		case "wait":
			bg(func() {
				_ = site.Wait()
				cx := site.Context(context.Background())
				<-cx.Done()
			})
		}
	})
	wg.Wait()
	site.Kill(nil)
	_ = site.Wait()
	for i := range cells {
		cellTouch(&cells[i])
	}
	cellTouch(&work)
	waits.Wait()
}

func init() {
	register(&Scenario{Name: "stress", Gen: genXCase, New: func() any { return &XCase{} }, Run: runXCase})
	addCheck("C28", "bursts of concurrent calls and the histories of the other properties, under the race detector; non-trivial when several goroutines made more than three calls, or a history had a restart or a concurrent call",
		func(c map[string]int) bool {
			return c["stress-runner"]+c["stress-engine"]+c["stress-catacomb"]+c["restart"]+c["async"] > 0
		}, "stress", "stress", "stress", "stress", "engine", "runner", "catacomb")
}
