package checks

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/juju/clock"
	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/catacomb"
	"github.com/juju/worker/v4/dependency"
	"pgregory.net/rapid"
)

// LW is one worker started by a runner.
type LW struct {
	ID     string `json:"id"`
	Kind   int    `json:"kind,omitempty"`  // 0 a goroutine, 1 a catacomb, 2 a runner
	Fails  int    `json:"fails,omitempty"` // how often it is restarted before it stays
	InWork bool   `json:"inwork,omitempty"`
	Name   string `json:"name,omitempty"` // of the catacomb's plan or the inner runner
	Ctx    int    `json:"ctx,omitempty"`  // labels of the context given to StartWorker: 0 none, 1 a foreign one, 2 conflicting ones, 3 (inner) that of the start function
	Before bool   `json:"before,omitempty"`
	After  bool   `json:"after,omitempty"`
	Init   int    `json:"init,omitempty"` // initial workers of the catacomb, and as many added by its work
	Subs   []*LW  `json:"subs,omitempty"`
}

// LCase is one set of labelled workers.
type LCase struct {
	Name  string `json:"name"`
	Ws    []*LW  `json:"ws"`
	Delay int    `json:"delay"`
	// A catacomb invoked by a goroutine with labels of its own.
	Cat   string `json:"cat,omitempty"`
	UseIt bool   `json:"useit,omitempty"`
	Stop  int    `json:"stop,omitempty"` // which worker is stopped and started again
}

var labelNames = []string{"r", "worker", "", " ", "ü/\"\\\n", "a{b}:c,", strings.Repeat("n", 300), "type", "id"}

func genLCase(t *rapid.T, _ string) any {
	c := &LCase{}
	name := func(l string) string { return rapid.SampledFrom(labelNames).Draw(t, l) }
	var lw func(depth int, i int) *LW
	lw = func(depth, i int) *LW {
		w := &LW{ID: fmt.Sprintf("%s%d", name("id"), i), Kind: pick(t, "kind", 0, 1, 2)}
		if i == 0 {
			w.ID = name("id")
		}
		if depth > 1 && w.Kind == 2 {
			w.Kind = 0
		}
		w.Fails = pick(t, "fails", 0, 0, 1, 2, 6)
		w.InWork = prob(t, "inwork", 50)
		w.Name = name("inner")
		if w.Name == "" {
			w.Name = "q"
		}
		w.Init = pick(t, "init", 0, 0, 1, 2)
		w.Ctx = rapid.IntRange(0, 3).Draw(t, "ctx")
		w.Before, w.After = prob(t, "before", 40), prob(t, "after", 40)
		if w.Kind == 2 {
			for j := 0; j < 1+rapid.IntRange(0, 1).Draw(t, "nsubs"); j++ {
				w.Subs = append(w.Subs, lw(depth+1, j))
			}
		}
		return w
	}
	c.Name = name("name")
	if c.Name == "" {
		c.Name = "p"
	}
	for i := 0; i < 1+rapid.IntRange(0, 3).Draw(t, "n"); i++ {
		c.Ws = append(c.Ws, lw(0, i))
	}
	c.Delay = pick(t, "delay", 1, 10)
	c.UseIt = prob(t, "useit", 40)
	c.Cat = name("cat")
	if c.Cat == "" {
		c.Cat = "z"
	}
	c.Stop = rapid.IntRange(-1, 3).Draw(t, "stop")
	return c
}

// lab is what the labels of a goroutine must be; id "-" is not judged.
type lab struct{ typ, name, id string }

type lworld struct {
	mu     sync.Mutex
	r      *Res
	expect map[lab]int
	delay  time.Duration
	starts map[*LW]int
}

// labelPark waits for stop; while it does its goroutine must have the labels.
func (w *lworld) labelPark(l lab, stop <-chan struct{}) {
	w.mu.Lock()
	w.expect[l]++
	w.mu.Unlock()
	<-stop
	w.mu.Lock()
	w.expect[l]--
	w.mu.Unlock()
}

// parseLabels reads the "# labels: {...}" line of a text profile.
func parseLabels(s string) map[string]string {
	m := map[string]string{}
	s = strings.TrimPrefix(s, "{")
	for {
		s = strings.TrimLeft(s, ", ")
		k, err := strconv.QuotedPrefix(s)
		if err != nil {
			return m
		}
		s = strings.TrimPrefix(s[len(k):], ":")
		v, err := strconv.QuotedPrefix(s)
		if err != nil {
			return m
		}
		s = s[len(v):]
		k, _ = strconv.Unquote(k)
		v, _ = strconv.Unquote(v)
		m[k] = v
	}
}

// judge compares the goroutine profile with what was expected.
func (w *lworld) judge(when string) {
	var b bytes.Buffer
	pprof.Lookup("goroutine").WriteTo(&b, 1)
	got := map[lab]int{}
	for _, g := range strings.Split(b.String(), "\n\n") {
		if !strings.Contains(g, ".labelPark+") {
			continue
		}
		n := 0
		ls := map[string]string{}
		for _, l := range strings.Split(g, "\n") {
			if i := strings.Index(l, " @ "); i > 0 && n == 0 {
				n, _ = strconv.Atoi(l[:i])
			}
			if strings.HasPrefix(l, "# labels: ") {
				ls = parseLabels(l[len("# labels: "):])
			}
		}
		l := lab{ls["type"], ls["name"], ls["id"]}
		if l.typ == "catacomb" {
			l.id = "-"
		}
		got[l] += n
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	total := 0
	var msg []string
	for l, n := range w.expect {
		total += n
		if n != got[l] {
			msg = append(msg, fmt.Sprintf("%d goroutines of %+v have these labels, %d should", got[l], l, n))
		}
	}
	for l, n := range got {
		if w.expect[l] == 0 {
			msg = append(msg, fmt.Sprintf("%d goroutines have the labels %+v, none should", n, l))
		}
	}
	sort.Strings(msg)
	if len(msg) > 0 {
		w.r.Fail("C33", "%s: %s", when, strings.Join(msg, "; "))
	}
	if total > 0 {
		w.r.Class("profiled")
	}
	if total > 3 {
		w.r.Class("profiled-many")
	}
}

type lworker struct {
	stop chan struct{}
	once sync.Once
	wait func() error
	kill func()
}

func (k *lworker) Kill() {
	k.once.Do(func() {
		close(k.stop)
		if k.kill != nil {
			k.kill()
		}
	})
}
func (k *lworker) Wait() error { return k.wait() }

// idlers are workers that do nothing until they are killed.
func (w *lworld) idlers(n int) []worker.Worker {
	var out []worker.Worker
	for i := 0; i < n; i++ {
		k := &lworker{stop: make(chan struct{})}
		k.wait = func() error { <-k.stop; return nil }
		out = append(out, k)
	}
	return out
}

// useLibrary makes all kinds of calls in the calling goroutine.
func (w *lworld) useLibrary(cat *ncat) {
	idle := func(context.Context) (worker.Worker, error) { return w.idlers(1)[0], nil }
	check := func(prop, what string, err error) {
		if err != nil {
			w.r.Fail(prop, "%s: %v", what, err)
		}
	}
	check("C21", "Add", cat.Add(w.idlers(1)[0]))
	cat.Context(context.Background())
	rn, err := worker.NewRunner(worker.RunnerParams{Name: "used", Logger: quiet{}})
	check("C30", "NewRunner", err)
	check("C14", "StartWorker", rn.StartWorker(context.Background(), "x", idle))
	check("C14", "StartWorker", rn.StartWorker(context.Background(), "y", idle))
	_, err = rn.Worker("x", nil)
	check("C19", "Worker", err)
	rn.Report()
	rn.WorkerNames()
	check("C16", "StopWorker", rn.StopWorker("y"))
	check("C16", "StopAndRemoveWorker", rn.StopAndRemoveWorker("x", nil))
	check("C17", "Stop of a runner", worker.Stop(rn))
	e, err := dependency.NewEngine(dependency.EngineConfig{
		IsFatal: func(error) bool { return false }, WorstError: func(a, b error) error { return a },
		Clock: clock.WallClock, Metrics: dependency.DefaultMetrics(), Logger: nullLogger{}})
	check("C30", "NewEngine", err)
	check("C07", "Install", dependency.Install(e, dependency.Manifolds{
		"a": {Start: func(ctx context.Context, _ dependency.Getter) (worker.Worker, error) { return idle(ctx) }},
		"b": {Inputs: []string{"a"}, Start: func(ctx context.Context, g dependency.Getter) (worker.Worker, error) {
			if err := g.Get("a", nil); err != nil {
				return nil, err
			}
			return idle(ctx)
		}}}))
	time.Sleep(time.Second)
	e.Report()
	<-worker.Dead(func() worker.Worker { e.Kill(); return e }())
	check("C09", "Wait of an engine", e.Wait())
}

func labelCtx(kind int, start context.Context) context.Context {
	switch kind {
	case 1:
		return pprof.WithLabels(context.Background(), pprof.Labels("request", "17"))
	case 2:
		return pprof.WithLabels(context.Background(), pprof.Labels("id", "foreign", "type", "caller", "name", "foreign"))
	case 3:
		if start != nil {
			return start
		}
	}
	return context.Background()
}

// start is the start function of s in the runner called name.
func (w *lworld) start(name string, s *LW) worker.StartFunc {
	return func(ctx context.Context) (worker.Worker, error) {
		w.mu.Lock()
		w.starts[s]++
		n := w.starts[s]
		w.mu.Unlock()
		me := lab{"worker", name, s.ID}
		for _, l := range []struct{ k, v string }{{"type", "worker"}, {"name", name}, {"id", s.ID}} {
			if v, ok := pprof.Label(ctx, l.k); !ok || v != l.v {
				w.r.Fail("C33", "call %d of the start function of %q in runner %q: its context has the label %s=%q, want %q", n, s.ID, name, l.k, v, l.v)
			}
		}
		if v, ok := pprof.Label(ctx, "request"); n == 1 && s.Ctx == 1 && (!ok || v != "17") {
			w.r.Fail("C29", "the context of the first call of the start function of %q has lost the labels of the one given to StartWorker", s.ID)
		}
		if n > 1 {
			w.r.Class("restarted")
		}
		k := &lworker{stop: make(chan struct{})}
		var wg sync.WaitGroup
		park := func() {
			wg.Add(1)
			go func() { defer wg.Done(); w.labelPark(me, k.stop) }()
		}
		if s.Before {
			park()
		}
		if n <= s.Fails && !s.InWork {
			close(k.stop)
			wg.Wait()
			return nil, errors.New("failing start")
		}
		var inner worker.Worker
		switch s.Kind {
		case 0:
			park()
		case 1:
			cat := &ncat{}
			err := catacomb.Invoke(catacomb.Plan{Name: s.Name, Site: &cat.Catacomb, Init: w.idlers(s.Init), Work: func() error {
				for _, idle := range w.idlers(s.Init) {
					if err := cat.Add(idle); err != nil {
						return err
					}
				}
				var in sync.WaitGroup
				in.Add(1)
				go func() { defer in.Done(); w.labelPark(lab{"catacomb", s.Name, "-"}, cat.Dying()) }()
				w.labelPark(lab{"catacomb", s.Name, "-"}, cat.Dying())
				in.Wait()
				return nil
			}})
			if err != nil {
				w.r.Fail("C24", "Invoke: %v", err)
			}
			inner = cat
			w.r.Class("catacomb")
		case 2:
			inner = w.runner(s.Name, s.Subs, ctx)
			w.r.Class("inner-runner")
		}
		if s.After {
			park()
		}
		if inner != nil {
			k.kill = inner.Kill
		}
		var res error
		if n <= s.Fails {
			res = errors.New("failing run")
			time.AfterFunc(5*time.Millisecond, k.Kill)
		}
		k.wait = func() error {
			wg.Wait()
			if inner != nil {
				inner.Wait()
			}
			return res
		}
		return k, nil
	}
}

func (w *lworld) runner(name string, ws []*LW, ctx context.Context) *worker.Runner {
	rn, err := worker.NewRunner(worker.RunnerParams{Name: name, IsFatal: func(error) bool { return false }, RestartDelay: w.delay, Logger: quiet{}})
	if err != nil {
		w.r.Fail("C30", "NewRunner: %v", err)
		panic(err)
	}
	for _, s := range ws {
		if err := rn.StartWorker(labelCtx(s.Ctx, ctx), s.ID, w.start(name, s)); err != nil {
			w.r.Fail("C14", "StartWorker(%q): %v", s.ID, err)
		}
	}
	return rn
}

func runLCase(t *testing.T, c *LCase, r *Res) {
	w := &lworld{r: r, expect: map[lab]int{}, delay: time.Duration(c.Delay) * time.Millisecond, starts: map[*LW]int{}}
	bubble(t, r, func() []string { return []string{"C33"} }, func() {
		seen := map[string]bool{}
		var ws []*LW
		for _, s := range c.Ws {
			if !seen[s.ID] {
				seen[s.ID] = true
				ws = append(ws, s)
			}
		}
		var wg sync.WaitGroup
		stop := make(chan struct{})
		var cat *ncat
		if c.UseIt {
			// A goroutine with labels of its own uses the library.
			wg.Add(1)
			own := lab{"harness", "caller", c.Cat}
			cat = &ncat{}
			go func() {
				defer wg.Done()
				pprof.Do(context.Background(), pprof.Labels("type", own.typ, "name", own.name, "id", own.id), func(context.Context) {
					err := catacomb.Invoke(catacomb.Plan{Name: c.Cat, Site: &cat.Catacomb, Work: func() error {
						w.labelPark(lab{"catacomb", c.Cat, "-"}, cat.Dying())
						return nil
					}})
					if err != nil {
						w.r.Fail("C24", "Invoke: %v", err)
					}
					w.useLibrary(cat)
					w.labelPark(own, stop)
				})
			}()
		}
		rn := w.runner(c.Name, ws, nil)
		synctest.Wait()
		w.judge("after the first starts")
		time.Sleep(7 * time.Millisecond)
		synctest.Wait()
		w.judge("during restarts")
		time.Sleep(2 * time.Second)
		synctest.Wait()
		w.judge("after all restarts")
		if c.Stop >= 0 && c.Stop < len(ws) {
			s := ws[c.Stop]
			if err := rn.StopAndRemoveWorker(s.ID, nil); err != nil {
				w.r.Fail("C16", "StopAndRemoveWorker(%q): %v", s.ID, err)
			}
			w.mu.Lock()
			w.starts[s] = 0
			w.mu.Unlock()
			if err := rn.StartWorker(labelCtx(s.Ctx, nil), s.ID, w.start(c.Name, s)); err != nil {
				w.r.Fail("C14", "StartWorker(%q) again: %v", s.ID, err)
			}
			time.Sleep(2 * time.Second)
			synctest.Wait()
			w.judge("after a new start of one id")
		}
		rn.Kill()
		rn.Wait()
		if cat != nil {
			cat.Kill()
			cat.Wait()
		}
		synctest.Wait()
		w.judge("after the runner's end")
		close(stop)
		wg.Wait()
	})
}

func init() {
	register(&Scenario{Name: "label", Gen: genLCase, New: func() any { return &LCase{} },
		Run: func(t *testing.T, c any, r *Res) { runLCase(t, c.(*LCase), r) }})
	addCheck("C33", "runners with generated names, ids and nested catacombs and runners, whose goroutines are looked up in the goroutine profile; non-trivial when a worker was restarted or contained others", func(c map[string]int) bool {
		return c["profiled"] > 0 && c["restarted"]+c["catacomb"]+c["inner-runner"] > 0
	}, "label")
}
