package checks

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	jerrors "github.com/juju/errors"
	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/catacomb"
	"github.com/juju/worker/v4/dependency"
	"pgregory.net/rapid"
)

// Histories much larger than those of the other scenarios: up to hundreds of
// manifolds or workers, wide and deep graphs, and workers that fail dozens of
// times. They are judged at idle moments against a simple model.

// BigRound makes one worker end, several times over, with the system idle in between.
type BigRound struct {
	V     int    `json:"v"`   // number of the victim
	How   string `json:"how"` // error, nil, bounce, uninstall
	Times int    `json:"times"`
}

// BigCase is one large history.
type BigCase struct {
	Kind   string     `json:"kind"` // engine, runner, catacomb
	N      int        `json:"n"`
	Shape  string     `json:"shape,omitempty"` // of the graph of an engine
	Seed   int64      `json:"seed"`            // of the order and edges
	Opt    int        `json:"opt"`             // percentage of manifolds that start without their inputs
	Slow   int        `json:"slow"`            // ms workers take to stop, at most
	Async  bool       `json:"async,omitempty"` // everything is installed, started or added at once
	Fatal  bool       `json:"fatal,omitempty"` // a fatal error ends it, not Kill
	KErr   int        `json:"kerr"`            // percentage of the workers that return a fatal error when killed
	Rounds []BigRound `json:"rounds,omitempty"`
}

var bigKinds = map[string]string{
	"C01": "engine", "C02": "engine", "C03": "engine", "C04": "engine", "C05": "engine", "C06": "engine", "C08": "engine",
	"C09": "engine", "C10": "engine", "C11": "engine", "C12": "engine",
	"C14": "runner", "C15": "runner", "C16": "runner", "C17": "runner", "C18": "runner", "C19": "runner", "C20": "runner", "C29": "runner", "C31": "runner",
	"C21": "catacomb", "C22": "catacomb", "C23": "catacomb", "C24": "catacomb",
}

func genBigCase(t *rapid.T, focus string) any {
	c := &BigCase{Kind: bigKinds[focus]}
	if c.Kind == "" {
		c.Kind = pick(t, "kind", "engine", "runner", "catacomb")
	}
	c.N = rapid.IntRange(1, 24).Draw(t, "n")
	if prob(t, "many", 60) {
		c.N = pick(t, "nn", 30, 70, 130)
	} else if prob(t, "few", 40) {
		c.N = rapid.IntRange(1, 4).Draw(t, "nf")
	}
	c.Shape = pick(t, "shape", "out", "in", "chain", "layers", "random", "random")
	c.Seed = int64(rapid.IntRange(0, 1<<20).Draw(t, "seed"))
	c.Opt = pick(t, "opt", 0, 30, 100)
	c.Slow = pick(t, "slow", 0, 20, 5000)
	c.Async = prob(t, "async", 40)
	c.Fatal = prob(t, "fatal", 30)
	c.KErr = pick(t, "kerr", 0, 10, 100)
	n := rapid.IntRange(0, 5).Draw(t, "rounds")
	for i := 0; i < n; i++ {
		r := BigRound{V: rapid.IntRange(0, c.N-1).Draw(t, "v"), How: pick(t, "how", "error", "error", "bounce", "nil", "uninstall")}
		if prob(t, "low", 40) {
			r.V = rapid.IntRange(0, min(3, c.N-1)).Draw(t, "lv")
		}
		r.Times = pick(t, "times", 1, 1, 3, 20, 70)
		if c.N <= 4 && r.Times >= 20 && prob(t, "ages", 50) {
			r.Times = pick(t, "long", 150, 300, 600)
		}
		if c.Kind == "engine" && c.N > 12 && r.Times > 3 && !prob(t, "costly", 5) || c.N > 30 && r.Times > 20 {
			r.Times = 2
		}
		c.Rounds = append(c.Rounds, r)
	}
	return c
}

// bigErr is an error of a given rank.
type bigErr struct {
	fatal bool
	rank  int
	who   string
}

func (e bigErr) Error() string {
	return fmt.Sprintf("big fatal=%v rank %d of %s", e.fatal, e.rank, e.who)
}

func bigFatal(err error) bool {
	var e bigErr
	return errors.As(err, &e) && e.fatal
}

func bigRank(err error) int {
	var e bigErr
	if errors.As(err, &e) {
		return e.rank
	}
	return -1
}

// bigW is one worker.
type bigW struct {
	id    int
	node  int
	w     *bigworld
	built map[int]int // input -> worker it was built on
	ctx   context.Context
	first bool // run of a runner's worker
	end   chan error
	killc chan struct{}
	once  sync.Once
	dead  chan struct{}
	err   error
	killT time.Duration
	deadT time.Duration
	enter time.Duration // when its Start function was called
	kerr  error
	slow  time.Duration
}

func (k *bigW) Kill() {
	k.once.Do(func() {
		k.w.mu.Lock()
		k.killT = k.w.now()
		k.w.mu.Unlock()
		close(k.killc)
	})
}
func (k *bigW) Wait() error { <-k.dead; return k.err }

func (k *bigW) run() {
	select {
	case k.err = <-k.end:
	case <-k.killc:
		time.Sleep(k.slow)
		k.err = k.kerr
	}
	k.w.mu.Lock()
	k.deadT = k.w.now()
	k.w.mu.Unlock()
	close(k.dead)
}

func (k *bigW) alive() bool {
	select {
	case <-k.dead:
		return false
	default:
		return true
	}
}

// bigNode is one manifold, id or worker slot.
type bigNode struct {
	i         int
	name      string
	inputs    []int
	opt       bool
	installed bool
	down      bool // ended without an error and not restarted since
	calls     int  // Start calls
	lastEnter time.Duration
	lastErr   error  // of the last Start call
	missed    []int  // inputs which the last Start call could not get
	cancel    func() // of the context given to StartWorker
	cancelled bool
	made      []*bigW
	inStart   int
	recorded  int
}

func (n *bigNode) cur() *bigW {
	if len(n.made) == 0 {
		return nil
	}
	return n.made[len(n.made)-1]
}

type bigworld struct {
	c      *BigCase
	r      *Res
	mu     sync.Mutex
	t0     time.Time
	rnd    *rand.Rand // guarded by mu
	dice   *rand.Rand // of the main goroutine
	nodes  []*bigNode
	byName map[string]*bigNode
	ids    int
	closed bool
	killT  time.Duration // when the end began, -1 before
}

func (w *bigworld) now() time.Duration                    { return time.Since(w.t0) }
func (w *bigworld) fail(prop, format string, args ...any) { w.r.Fail(prop, "scale: "+format, args...) }

// make a worker of the node; w.mu is held.
func (w *bigworld) make(n *bigNode) *bigW {
	w.ids++
	k := &bigW{id: w.ids, node: n.i, w: w, built: map[int]int{}, end: make(chan error, 1), killc: make(chan struct{}), dead: make(chan struct{}), killT: -1, deadT: -1, enter: w.now()}
	if w.c.Slow > 0 {
		k.slow = time.Duration(w.rnd.Intn(w.c.Slow+1)) * time.Millisecond
	}
	return k
}

// begin lets the worker run; w.mu is held.
func (w *bigworld) begin(n *bigNode, k *bigW) {
	n.made = append(n.made, k)
	go k.run()
}

// armKErr gives some workers a fatal error to return when killed from now on;
// w.mu is held. It returns the errors to be expected.
func (w *bigworld) armKErr() []error {
	var errs []error
	for _, n := range w.nodes {
		if k := n.cur(); k != nil && k.alive() && w.rnd.Intn(100) < w.c.KErr {
			k.kerr = bigErr{true, w.rnd.Intn(1000), n.name}
			errs = append(errs, k.kerr)
		}
	}
	return errs
}

// best tells whether got is one of the most important errors.
func best(got error, errs []error) bool {
	top := -1
	for _, e := range errs {
		top = max(top, bigRank(e))
	}
	if top < 0 {
		return got == nil
	}
	return got != nil && bigRank(got) == top
}

func runBigCase(t *testing.T, cc any, r *Res) {
	c := cc.(*BigCase)
	w := &bigworld{c: c, r: r, rnd: rand.New(rand.NewSource(c.Seed)), dice: rand.New(rand.NewSource(c.Seed + 1)), byName: map[string]*bigNode{}, killT: -1}
	for i := 0; i < c.N; i++ {
		n := &bigNode{i: i, name: fmt.Sprintf("m%d", i), opt: w.dice.Intn(100) < c.Opt}
		w.nodes = append(w.nodes, n)
		w.byName[n.name] = n
	}
	r.Class("scale")
	if c.N > 24 {
		r.Class("scale-many")
	}
	bubble(t, r, func() []string {
		return map[string][]string{"engine": {"C09"}, "runner": {"C17"}, "catacomb": {"C21", "C22"}}[c.Kind]
	}, func() {
		w.t0 = time.Now()
		switch c.Kind {
		case "engine":
			w.engine()
		case "runner":
			w.runner()
		default:
			w.catacomb()
		}
	})
}

// ---- engine ----

func (w *bigworld) edges() {
	c := w.c
	for i, n := range w.nodes {
		for j := 0; j < i; j++ {
			var p int
			switch c.Shape {
			case "out":
				p = 100 * b2i(j == 0)
			case "in":
				p = 100 * b2i(i == c.N-1)
			case "chain":
				p = 100 * b2i(j == i-1)
			case "layers":
				p = 60 * b2i(j/6 == i/6-1)
			default:
				p = max(300/(i+1), 3)
			}
			if w.dice.Intn(100) < p {
				n.inputs = append(n.inputs, j)
			}
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// RecordStart implements dependency.Metrics.
func (w *bigworld) RecordStart(name string) {
	w.mu.Lock()
	w.byName[name].recorded++
	w.mu.Unlock()
}

func (w *bigworld) manifold(n *bigNode) dependency.Manifold {
	m := dependency.Manifold{
		Output: func(in worker.Worker, out interface{}) error {
			*out.(*int) = in.(*bigW).id
			return nil
		},
		Start: func(ctx context.Context, g dependency.Getter) (worker.Worker, error) {
			w.mu.Lock()
			n.calls++
			n.inStart++
			n.lastEnter = w.now()
			if n.inStart > 1 {
				w.fail("C01", "%s: Start called while it is in progress", n.name)
			}
			if k := n.cur(); k != nil && k.alive() {
				w.fail("C01", "%s: Start called while worker #%d has not finished", n.name, k.id)
			}
			if w.killT >= 0 && w.killT < w.now() {
				w.fail("C09", "%s: Start called at %v, the engine stops since %v", n.name, w.now(), w.killT)
			}
			k := w.make(n)
			k.ctx = ctx
			w.mu.Unlock()
			var failed error
			var missed []int
			for _, i := range n.inputs {
				var id int
				switch err := g.Get(w.nodes[i].name, &id); {
				case err == nil:
					k.built[i] = id
				case errors.Is(err, dependency.ErrMissing):
					missed = append(missed, i)
					if !n.opt {
						failed = err
					}
				default:
					w.fail("C06", "%s: Get(%s) returned %v", n.name, w.nodes[i].name, err)
				}
			}
			var id int
			if err := g.Get("undeclared", &id); !errors.Is(err, dependency.ErrMissing) {
				w.fail("C06", "%s: Get of an undeclared name returned %v", n.name, err)
			}
			w.mu.Lock()
			defer w.mu.Unlock()
			n.inStart--
			n.lastErr, n.missed = failed, missed
			if failed != nil {
				return nil, failed
			}
			w.begin(n, k)
			return k, nil
		},
	}
	for _, i := range n.inputs {
		m.Inputs = append(m.Inputs, w.nodes[i].name)
	}
	return m
}

// model computes who runs; w.mu is held.
func (w *bigworld) model() []bool {
	run := make([]bool, len(w.nodes))
	for i, n := range w.nodes {
		run[i] = n.installed && !n.down
		for _, j := range n.inputs {
			run[i] = run[i] && (n.opt || run[j])
		}
	}
	return run
}

// below marks everything that depends on v, directly or not.
func (w *bigworld) below(v int) []bool {
	b := make([]bool, len(w.nodes))
	for i, n := range w.nodes {
		for _, j := range n.inputs {
			b[i] = b[i] || j == v || b[j]
		}
	}
	return b
}

// state returns the number of Start calls so far and who runs.
func (w *bigworld) state() ([]int, []bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	before := make([]int, len(w.nodes))
	for i, n := range w.nodes {
		before[i] = n.calls
	}
	return before, w.model()
}

// spread updates the model after v ended or was installed: those whose inputs
// changed have been restarted.
func (w *bigworld) spread(v *bigNode, was []bool, before []int) (again []bool) {
	time.Sleep(time.Hour)
	synctest.Wait()
	w.mu.Lock()
	defer w.mu.Unlock()
	under := w.below(v.i)
	changed := make([]bool, len(w.nodes))
	again = make([]bool, len(w.nodes))
	for i, n := range w.nodes {
		if i != v.i && !under[i] {
			continue
		}
		restarted := i == v.i
		for _, j := range n.inputs {
			restarted = restarted || changed[j]
		}
		if under[i] && n.down {
			// An input that was up only for a moment restarts it as well.
			n.down = !restarted && n.calls == before[i]
		}
		again[i] = restarted && n.installed
		changed[i] = again[i] && (was[i] || w.model()[i]) || i == v.i && was[i]
	}
	return again
}

func (w *bigworld) idle(e *dependency.Engine, when string) {
	time.Sleep(time.Hour)
	synctest.Wait()
	rep := e.Report()
	mans, _ := rep[dependency.KeyManifolds].(map[string]interface{})
	w.mu.Lock()
	defer w.mu.Unlock()
	run := w.model()
	installed := 0
	for i, n := range w.nodes {
		k := n.cur()
		up := k != nil && k.alive()
		m, _ := mans[n.name].(map[string]interface{})
		if !n.installed {
			if m != nil {
				w.fail("C08", "%s: %s is not installed any more but reported as %v", when, n.name, m)
			}
			if up {
				w.fail("C08", "%s: %s is not installed any more but runs", when, n.name)
			}
			continue
		}
		installed++
		switch {
		case run[i] && !up && n.calls == 0:
			w.fail("C04", "%s: %s was installed but Start never called", when, n.name)
		case run[i] && !up && n.lastErr != nil:
			w.fail("C02", "%s: %s is stopped though all of its %d inputs run", when, n.name, len(n.inputs))
			for _, j := range n.missed {
				if d := w.nodes[j].cur(); d.enter+100*time.Millisecond < n.lastEnter {
					w.fail("C06", "%s: Get of %s by %s failed, though it had been running for a while", when, w.nodes[j].name, n.name)
				}
			}
		case run[i] && !up:
			w.fail("C04", "%s: %s does not run, its last worker ended with %v", when, n.name, k.err)
			w.fail("C02", "%s: %s does not run, its last worker ended with %v", when, n.name, k.err)
		case !run[i] && up:
			w.fail("C02", "%s: %s runs without an input it needs, or after it ended without an error", when, n.name)
		}
		if up {
			for _, j := range n.inputs {
				want := 0
				if d := w.nodes[j].cur(); w.nodes[j].installed && d != nil && d.alive() {
					want = d.id
				}
				if d := w.nodes[j].cur(); want > 0 && k.built[j] == 0 && d.enter+100*time.Millisecond < k.enter {
					w.fail("C06", "%s: Get of %s by %s failed, though it had been running for a while", when, w.nodes[j].name, n.name)
				}
				if k.built[j] != want {
					w.fail("C02", "%s: %s was built on worker #%d of %s, current is #%d", when, n.name, k.built[j], w.nodes[j].name, want)
				}
			}
			if k.ctx.Err() != nil {
				w.fail("C12", "%s: the context of running %s is %v", when, n.name, k.ctx.Err())
			}
		}
		for _, o := range n.made {
			if !o.alive() && o.ctx.Err() == nil {
				w.fail("C12", "%s: the context of finished worker #%d of %s is not done", when, o.id, n.name)
			}
		}
		if m == nil {
			w.fail("C11", "%s: %s is not reported", when, n.name)
			continue
		}
		state := "stopped"
		if up {
			state = "started"
		}
		if m[dependency.KeyState] != state {
			w.fail("C11", "%s: %s is reported as %v, it is %s", when, n.name, m[dependency.KeyState], state)
		}
		count, _ := m[dependency.KeyStartCount].(int)
		if count != n.recorded || len(n.inputs) == 0 && count != len(n.made) {
			w.fail("C11", "%s: start count of %s is %d, %d starts recorded, %d made", when, n.name, count, n.recorded, len(n.made))
		}
		if ins, _ := m[dependency.KeyInputs].([]string); len(ins) != len(n.inputs) {
			w.fail("C11", "%s: %s is reported with inputs %v", when, n.name, ins)
		}
	}
	if len(mans) != installed {
		w.fail("C11", "%s: %d manifolds are reported, %d installed", when, len(mans), installed)
	}
}

func (w *bigworld) engine() {
	c := w.c
	w.edges()
	const errorDelay, bounceDelay = 3 * time.Second, 10 * time.Millisecond
	e, err := dependency.NewEngine(dependency.EngineConfig{
		IsFatal: bigFatal,
		WorstError: func(a, b error) error {
			if bigRank(b) > bigRank(a) {
				return b
			}
			return a
		},
		ErrorDelay: errorDelay, BounceDelay: bounceDelay,
		BackoffFactor: 2, BackoffResetTime: time.Minute, MaxDelay: time.Hour,
		Clock: realClock{}, Metrics: w, Logger: nullLogger{},
	})
	if err != nil {
		w.fail("C30", "NewEngine: %v", err)
		return
	}
	defer func() {
		e.Kill()
		w.mu.Lock()
		for _, n := range w.nodes {
			for _, k := range n.made {
				go k.Kill()
			}
		}
		w.mu.Unlock()
		time.Sleep(time.Hour)
	}()
	install := func(n *bigNode) {
		w.mu.Lock()
		n.installed, n.down, n.recorded = true, false, 0
		w.mu.Unlock()
		if err := e.Install(n.name, w.manifold(n)); err != nil {
			w.fail("C07", "Install of %s: %v", n.name, err)
			w.fail("C08", "Install of %s: %v", n.name, err)
		}
	}
	for _, i := range w.dice.Perm(c.N) {
		if c.Async {
			go install(w.nodes[i])
			continue
		}
		install(w.nodes[i])
		if w.dice.Intn(4) == 0 {
			time.Sleep(time.Duration(w.dice.Intn(30)) * time.Millisecond)
		}
	}
	w.idle(e, "after the installs")
	for rn, rd := range c.Rounds {
		v := w.nodes[rd.V%c.N]
		for x := 0; x < rd.Times && len(w.r.of("*"))+w.failures() == 0; x++ {
			when := fmt.Sprintf("round %d.%d (%s %s)", rn, x, v.name, rd.How)
			w.mu.Lock()
			k := v.cur()
			w.mu.Unlock()
			if !v.installed || k == nil || !k.alive() {
				if !v.installed {
					v.made, v.calls = nil, 0
					before, was := w.state()
					install(v)
					w.spread(v, was, before)
					w.idle(e, when+" reinstalled")
				}
				break
			}
			before, was := w.state()
			var end error
			w.mu.Lock()
			switch rd.How {
			case "error":
				end = bigErr{false, 0, v.name}
			case "bounce":
				end = jerrors.Annotate(dependency.ErrBounce, "please")
			case "uninstall":
				end = jerrors.Trace(dependency.ErrUninstall)
				v.installed = false
			default:
				v.down = true
			}
			t := w.now()
			w.mu.Unlock()
			k.end <- end
			if end != nil && v.installed {
				delay := errorDelay
				if rd.How == "bounce" {
					delay = bounceDelay
				}
				time.Sleep(delay*11/10 + time.Millisecond)
				synctest.Wait()
				w.mu.Lock()
				if got := v.lastEnter - t; v.calls != before[v.i]+1 || got < delay*9/10-time.Millisecond {
					w.fail("C05", "%s: %d restarts in %v, the last after %v; want one after about %v", when, v.calls-before[v.i], w.now()-t, got, delay)
				}
				w.mu.Unlock()
			}
			under := w.below(v.i)
			again := w.spread(v, was, before)
			w.idle(e, when)
			w.mu.Lock()
			for i, n := range w.nodes {
				if i == v.i {
					continue
				}
				if !under[i] && n.calls != before[i] {
					w.fail("C03", "%s: %s, which does not depend on it, was started %d times", when, n.name, n.calls-before[i])
				}
				if again[i] && n.calls == before[i] {
					w.fail("C02", "%s: %s, an input of which changed, was not restarted", when, n.name)
				}
			}
			w.mu.Unlock()
		}
	}
	w.mu.Lock()
	errs := w.armKErr()
	run := 0
	var some []*bigW
	for _, n := range w.nodes {
		if k := n.cur(); k != nil && k.alive() {
			run++
			some = append(some, k)
		}
	}
	w.killT = w.now()
	w.mu.Unlock()
	if c.Fatal && run > 0 {
		k := some[w.dice.Intn(len(some))]
		end := bigErr{true, w.dice.Intn(1000), "trigger"}
		w.mu.Lock()
		keep := errs[:0]
		for _, e := range errs {
			if e != k.kerr {
				keep = append(keep, e)
			}
		}
		errs = append(keep, end)
		w.mu.Unlock()
		k.end <- end
	} else {
		e.Kill()
	}
	done := make(chan error, 1)
	go func() { done <- e.Wait() }()
	synctest.Wait()
	w.mu.Lock()
	for _, k := range some {
		if k.alive() && k.killT != w.killT {
			w.fail("C09", "%s was not killed when the engine began to stop (%d workers)", w.nodes[k.node].name, run)
		}
	}
	w.mu.Unlock()
	time.Sleep(time.Hour)
	synctest.Wait()
	w.end(done, errs, "C09", "C10")
}

func (w *bigworld) failures() int {
	w.r.mu.Lock()
	defer w.r.mu.Unlock()
	return len(w.r.Viol)
}

// end judges the end of an engine or runner.
func (w *bigworld) end(done chan error, errs []error, stop, result string) {
	select {
	case err := <-done:
		if !best(err, errs) {
			w.fail(result, "Wait returned %v; the fatal errors were %v", err, clip(fmt.Sprint(errs), 600))
		}
		w.mu.Lock()
		for _, n := range w.nodes {
			if k := n.cur(); k != nil && k.alive() {
				w.fail(stop, "Wait returned before %s finished", n.name)
			}
		}
		w.mu.Unlock()
	default:
		w.fail(stop, "Wait has not returned an hour after the end began")
	}
}

// ---- runner ----

func (w *bigworld) start(n *bigNode) worker.StartFunc {
	return func(ctx context.Context) (worker.Worker, error) {
		w.mu.Lock()
		defer w.mu.Unlock()
		n.calls++
		n.lastEnter = w.now()
		if k := n.cur(); k != nil && k.alive() {
			w.fail("C14", "%s: start function called while worker #%d has not finished", n.name, k.id)
		}
		if w.killT >= 0 && w.killT < w.now() {
			w.fail("C17", "%s: start function called at %v, the runner stops since %v", n.name, w.now(), w.killT)
		}
		if n.calls == 1 && ctx.Value(bigKey{}) != n {
			w.fail("C29", "%s: the context of the first run has value %v", n.name, ctx.Value(bigKey{}))
		}
		k := w.make(n)
		k.ctx, k.first = ctx, n.calls == 1
		w.begin(n, k)
		return k, nil
	}
}

// startDone starts workers with contexts that are done already: such a call
// may fail, but it has to tell what it did.
func (w *bigworld) startDone(r *worker.Runner) {
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	for i := 0; i < 4; i++ {
		var k *bigW
		var entered int
		n := &bigNode{i: w.c.N, name: fmt.Sprintf("done%d", i)}
		err := r.StartWorker(ctx, n.name, func(ctx context.Context) (worker.Worker, error) {
			w.mu.Lock()
			defer w.mu.Unlock()
			entered++
			if ctx.Err() == nil {
				w.fail("C29", "the context of a start function is not done, though that of its StartWorker call was before")
			}
			k = w.make(n)
			w.begin(n, k)
			return k, nil
		})
		synctest.Wait()
		switch {
		case err == nil && entered != 1:
			w.fail("C14", "StartWorker with a done context succeeded, but its function was called %d times", entered)
		case err != nil && entered > 0:
			w.fail("C14", "StartWorker with a done context returned %v, but its function was called", err)
		case err == nil:
			if err := r.StopAndRemoveWorker(n.name, nil); err != nil {
				w.fail("C16", "StopAndRemoveWorker(%s) returned %v", n.name, err)
			}
		}
	}
	w.known(r, "after starts with a done context")
}

// bigKey is of the value in a context given to StartWorker.
type bigKey struct{}

// known judges what the runner says about its workers when nothing happens.
func (w *bigworld) known(r *worker.Runner, when string) {
	synctest.Wait()
	names := r.WorkerNames()
	rep, _ := r.Report()["workers"].(map[string]interface{})
	var want []string
	for _, n := range w.nodes {
		w.mu.Lock()
		k := n.cur()
		inst := n.installed
		w.mu.Unlock()
		if !inst {
			continue
		}
		want = append(want, n.name)
		x, _ := rep[n.name].(map[string]interface{})
		state := "stopped"
		if k != nil && k.alive() {
			state = "started"
			got, err := r.Worker(n.name, nil)
			if done := n.cancelled && k.first; (k.ctx.Err() != nil) != done {
				w.fail("C29", "%s: the context of %s (started %d times) is %v, StartWorker's is cancelled: %v", when, n.name, n.calls, k.ctx.Err(), n.cancelled)
			}
			if err != nil || got != worker.Worker(k) {
				w.fail("C19", "%s: Worker(%s) returned %v, %v; running is #%d", when, n.name, got, err, k.id)
			}
		}
		if x[worker.KeyState] != state {
			w.fail("C20", "%s: %s is reported as %v, it is %s", when, n.name, x, state)
		}
	}
	sort.Strings(names)
	sort.Strings(want)
	if fmt.Sprint(names) != fmt.Sprint(want) || len(rep) != len(want) {
		w.fail("C20", "%s: WorkerNames are %v, %d reported, want %v", when, names, len(rep), want)
	}
}

func (w *bigworld) runner() {
	c := w.c
	const delay = 3 * time.Second
	logs := &lineLogger{}
	var ws logWants
	r, err := worker.NewRunner(worker.RunnerParams{
		Name:          "big",
		IsFatal:       bigFatal,
		MoreImportant: func(a, b error) bool { return bigRank(a) > bigRank(b) },
		RestartDelay:  delay,
		Clock:         realClock{},
		Logger:        logs,
	})
	if err != nil {
		w.fail("C30", "NewRunner: %v", err)
		return
	}
	defer func() {
		r.Kill()
		w.mu.Lock()
		for _, n := range w.nodes {
			for _, k := range n.made {
				go k.Kill()
			}
		}
		w.mu.Unlock()
		time.Sleep(time.Hour)
	}()
	startAll := func(want bool, when string) {
		for _, i := range w.dice.Perm(c.N) {
			n := w.nodes[i]
			f := func() {
				ctx, cancel := context.WithCancel(context.WithValue(context.Background(), bigKey{}, n))
				if want {
					n.cancel = cancel
				} else {
					defer cancel()
				}
				err := r.StartWorker(ctx, n.name, w.start(n))
				if want && err != nil || !want && !jerrors.Is(err, jerrors.AlreadyExists) {
					w.fail("C14", "%s: StartWorker(%s) returned %v", when, n.name, err)
				}
			}
			n.installed = true
			if c.Async {
				go f()
			} else {
				f()
			}
		}
		synctest.Wait()
	}
	startAll(true, "first")
	for _, n := range w.nodes {
		if n.calls != 1 {
			w.fail("C14", "%s: start function called %d times", n.name, n.calls)
			return
		}
	}
	w.known(r, "after the starts")
	startAll(false, "again")
	w.known(r, "after starting again")
	if c.Opt > 0 {
		w.startDone(r)
	}
	cancel := func(p int, when string) {
		for _, n := range w.nodes {
			if !n.cancelled && w.dice.Intn(100) < p {
				n.cancelled = true
				n.cancel()
			}
		}
		w.known(r, when)
	}
	defer func() {
		for _, n := range w.nodes {
			n.cancel()
		}
	}()
	cancel(c.Opt/3, "after some contexts were cancelled")
	for rn, rd := range c.Rounds {
		v := w.nodes[rd.V%c.N]
		for x := 0; x < rd.Times && w.failures() == 0 && v.installed; x++ {
			when := fmt.Sprintf("round %d.%d (%s %s)", rn, x, v.name, rd.How)
			k, before := v.cur(), v.calls
			if rd.How == "uninstall" {
				// Remove everything from here on, by concurrent calls.
				type res struct {
					n   *bigNode
					k   *bigW
					err error
				}
				ch := make(chan res, c.N)
				want := 0
				t := w.now()
				for _, n := range w.nodes[v.i:] {
					if !n.installed {
						continue
					}
					want++
					go func() {
						k := n.cur()
						err := r.StopAndRemoveWorker(n.name, nil)
						if k.alive() {
							w.fail("C16", "%s: StopAndRemoveWorker(%s) returned before it finished", when, n.name)
						}
						ch <- res{n, k, err}
					}()
				}
				time.Sleep(time.Hour)
				synctest.Wait()
				for i := 0; i < want; i++ {
					select {
					case x := <-ch:
						if x.err != nil || x.k.killT != t {
							w.fail("C16", "%s: StopAndRemoveWorker(%s) returned %v; killed at %v instead of %v", when, x.n.name, x.err, x.k.killT, t)
						}
						x.n.installed = false
					default:
						w.fail("C16", "%s: %d of %d StopAndRemoveWorker calls have not returned", when, want-i, want)
						return
					}
				}
				w.known(r, when)
				break
			}
			// Many look the worker up while it waits to be restarted.
			var end error
			if rd.How == "error" || rd.How == "bounce" {
				end = bigErr{false, 0, v.name}
				ws.add(v.name, end.Error(), "error", "", true)
			}
			t := w.now()
			k.end <- end
			synctest.Wait()
			if end == nil {
				v.installed = false
				time.Sleep(time.Hour)
				if _, err := r.Worker(v.name, nil); !jerrors.Is(err, jerrors.NotFound) {
					w.fail("C19", "%s: Worker returned %v", when, err)
				}
				if v.calls != before {
					w.fail("C15", "%s: restarted though it ended without an error", when)
				}
				w.known(r, when)
				break
			}
			looks := 1
			if x == 0 {
				looks = c.N
			}
			found := make(chan worker.Worker, looks)
			for i := 0; i < looks; i++ {
				go func() {
					k, err := r.Worker(v.name, nil)
					if err != nil {
						w.fail("C19", "%s: waiting Worker returned %v", when, err)
					}
					found <- k
				}()
			}
			if x%8 == 0 {
				w.known(r, when+" waiting")
			}
			time.Sleep(delay - (w.now() - t))
			synctest.Wait()
			if v.calls != before+1 || v.lastEnter-t != delay {
				w.fail("C15", "%s: restarted %d times, last after %v, want once after %v", when, v.calls-before, v.lastEnter-t, delay)
				return
			}
			for i := 0; i < looks; i++ {
				select {
				case got := <-found:
					if got != worker.Worker(v.cur()) {
						w.fail("C19", "%s: one of %d waiting Worker calls returned %v", when, looks, got)
					}
				default:
					w.fail("C19", "%s: %d of %d waiting Worker calls have not returned", when, looks-i, looks)
					return
				}
			}
			if x%8 == 0 {
				w.known(r, when)
			}
			if x%3 == 0 {
				time.Sleep(time.Minute)
			}
		}
	}
	if w.failures() > 0 {
		return
	}
	cancel(c.Opt/3, "after more contexts were cancelled")
	w.mu.Lock()
	errs := w.armKErr()
	w.killT = w.now()
	var some []*bigW
	for _, n := range w.nodes {
		if k := n.cur(); k != nil && k.alive() {
			some = append(some, k)
		}
	}
	w.mu.Unlock()
	if c.Fatal && len(some) > 0 {
		k := some[w.dice.Intn(len(some))]
		end := bigErr{true, w.dice.Intn(1000), "trigger"}
		keep := errs[:0]
		for _, e := range errs {
			if e != k.kerr {
				keep = append(keep, e)
			}
		}
		errs = append(keep, end)
		ws.add(w.nodes[k.node].name, end.Error(), "error", "", true)
		k.end <- end
	} else {
		r.Kill()
	}
	done := make(chan error, 1)
	go func() { done <- r.Wait() }()
	synctest.Wait()
	w.mu.Lock()
	for _, k := range some {
		if k.alive() && k.killT != w.killT {
			w.fail("C17", "%s was not killed when the runner began to stop (%d workers)", w.nodes[k.node].name, len(some))
		}
		if k.ctx.Err() == nil {
			w.fail("C29", "the context of %s is not done though the runner is stopping (%d workers)", w.nodes[k.node].name, len(some))
		}
	}
	w.mu.Unlock()
	time.Sleep(time.Hour)
	synctest.Wait()
	w.end(done, errs, "C17", "C18")
	for _, k := range some {
		if k.err != nil && k.kerr == k.err {
			ws.add(w.nodes[k.node].name, k.err.Error(), "error", "", true)
		}
	}
	if w.failures() == 0 {
		judgeLog(logs.lines, &ws, func(format string, args ...any) { w.fail("C31", format, args...) })
	}
}

// ---- catacomb ----

func (w *bigworld) catacomb() {
	c := w.c
	var site catacomb.Catacomb
	var init []worker.Worker
	half := c.N / 2
	if c.Opt == 100 {
		half = c.N
	}
	for _, n := range w.nodes {
		w.mu.Lock()
		k := w.make(n)
		w.begin(n, k)
		w.mu.Unlock()
		if n.i < half {
			init = append(init, k)
		}
	}
	defer func() {
		for _, n := range w.nodes {
			n.cur().Kill()
		}
		site.Kill(nil)
		time.Sleep(time.Hour)
	}()
	err := catacomb.Invoke(catacomb.Plan{Name: "big", Site: &site, Init: init, Work: func() error {
		<-site.Dying()
		return site.ErrDying()
	}})
	if err != nil {
		w.fail("C24", "Invoke with %d workers: %v", len(init), err)
		return
	}
	for _, n := range w.nodes[half:] {
		add := func() {
			if err := site.Add(n.cur()); err != nil {
				w.fail("C21", "Add of worker %d to a living catacomb: %v", n.i, err)
			}
		}
		if c.Async {
			go add()
		} else {
			add()
		}
	}
	synctest.Wait()
	var ctxs []context.Context
	for i := 0; i < c.N; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		ctxs = append(ctxs, site.Context(ctx))
	}
	for _, rd := range c.Rounds {
		// Some workers end without an error, which changes nothing.
		for i := 0; i < rd.Times && i < c.N-1; i++ {
			n := w.nodes[(rd.V+i)%c.N]
			if n.i != 0 && n.cur().alive() {
				select {
				case n.cur().end <- nil:
				default:
				}
			}
		}
		time.Sleep(time.Minute)
		synctest.Wait()
		select {
		case <-site.Dying():
			w.fail("C22", "the catacomb is dying though no worker failed")
			return
		default:
		}
		for i, n := range w.nodes {
			if k := n.cur(); k.killT >= 0 && (k.deadT < 0 || k.deadT > k.killT) {
				w.fail("C21", "worker %d was killed while the catacomb was alive", i)
			}
		}
		for i, ctx := range ctxs {
			if ctx.Err() != nil {
				w.fail("C24", "context %d of a living catacomb is done", i)
			}
		}
	}
	var alive []*bigW
	w.mu.Lock()
	for _, n := range w.nodes {
		if k := n.cur(); k.alive() {
			alive = append(alive, k)
			if w.rnd.Intn(100) < c.KErr {
				k.kerr = bigErr{true, 0, n.name}
			}
		}
	}
	w.killT = w.now()
	w.mu.Unlock()
	first := error(bigErr{false, 0, "first"})
	latest := w.killT
	if c.Fatal {
		k := w.nodes[0].cur()
		k.end <- first
	} else {
		site.Kill(first)
	}
	synctest.Wait()
	for _, k := range alive {
		if k.alive() && k.killT != w.killT {
			w.fail("C21", "worker %d of %d was not killed when the catacomb began to die", k.node, c.N)
		}
		if k.alive() {
			latest = max(latest, w.killT+k.slow)
		}
	}
	for i, ctx := range ctxs {
		if ctx.Err() == nil {
			w.fail("C24", "context %d of %d is not done though the catacomb is dying", i, len(ctxs))
		}
	}
	select {
	case <-site.Dead():
		for _, k := range alive {
			if k.alive() {
				w.fail("C22", "dead before worker %d", k.node)
			}
		}
	default:
	}
	if latest > w.now() {
		time.Sleep(latest - w.now() - 1)
		select {
		case <-site.Dead():
			w.fail("C22", "dead before its slowest worker of %d", c.N)
		default:
		}
		time.Sleep(1)
	}
	synctest.Wait()
	select {
	case <-site.Dead():
	default:
		w.fail("C22", "not dead though all %d workers have finished", c.N)
		return
	}
	if err := site.Wait(); err != first {
		w.fail("C23", "Wait returned %v, the first error was %v", err, first)
	}
}

func init() {
	register(&Scenario{Name: "scale", Gen: genBigCase, New: func() any { return new(BigCase) }, Run: runBigCase})
}

// withScale makes a few percent of the check's cases large ones.
func withScale(c *Check) {
	rate := 29
	if bigKinds[c.Prop] == "engine" {
		rate = 49
	} else if c.Prop == "C28" {
		rate = 99
	}
	var scn []string
	for len(scn) < rate {
		scn = append(scn, c.Scn...)
	}
	c.Scn = append(scn, "scale")
	old := c.Nontrivial
	c.Nontrivial = func(k map[string]int) bool { return k["scale-many"] > 0 || old(k) }
	c.Rule += "; or when a history had many manifolds, ids or workers"
}
