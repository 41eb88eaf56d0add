package checks

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sync"
	"testing"
	"time"

	jerrors "github.com/juju/errors"
	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/dependency"
	"pgregory.net/rapid"
)

// Whole sets of manifolds: Validate against a reference cycle check, Install
// of a set through a recording installer and into a real engine.

// GCase is a set of manifolds by number, with the numbers of their inputs.
type GCase struct {
	In     map[int][]int `json:"in"`
	Reject []int         `json:"reject,omitempty"` // names the recording installer rejects
	Used   []int         `json:"used,omitempty"`   // names installed in the engine beforehand
	Ladder int           `json:"ladder,omitempty"` // that many layers of two manifolds that each need the layer before
	Close  bool          `json:"close,omitempty"`  // the first layer of the ladder or chain needs the last
	Chain  int           `json:"chain,omitempty"`  // a chain of that many manifolds
}

func genGCase(t *rapid.T, focus string) any {
	c := &GCase{In: map[int][]int{}}
	n := rapid.IntRange(0, 12).Draw(t, "n")
	density := pick(t, "dens", 8, 15, 25, 40)
	order := rapid.Permutation(seq(n)).Draw(t, "order")
	pos := make([]int, n)
	for i, v := range order {
		pos[v] = i
	}
	style := rapid.IntRange(0, 3).Draw(t, "style") // 0,1: acyclic; 2: acyclic + one back edge; 3: any
	for i := 0; i < n; i++ {
		c.In[i] = nil
		for j := 0; j < n; j++ {
			if (style == 3 || pos[j] < pos[i]) && prob(t, "edge", density) {
				c.In[i] = append(c.In[i], j)
			}
		}
		if prob(t, "ghost", 15) {
			c.In[i] = append(c.In[i], 100+rapid.IntRange(0, 2).Draw(t, "gh"))
		}
	}
	if style == 2 && n > 0 {
		i, j := rapid.IntRange(0, n-1).Draw(t, "bi"), rapid.IntRange(0, n-1).Draw(t, "bj")
		c.In[i] = append(c.In[i], j)
	}
	if prob(t, "rej", 50) {
		for i := 0; i < n; i++ {
			if prob(t, "rejn", 20) {
				c.Reject = append(c.Reject, i)
			}
		}
	}
	if prob(t, "used", 30) && n > 0 {
		c.Used = append(c.Used, rapid.IntRange(0, n-1).Draw(t, "un"))
	}
	if prob(t, "ladder", 6) {
		c.Ladder = pick(t, "layers", 36, 44)
		c.Close = prob(t, "close", 40)
	} else if prob(t, "chain", 4) {
		c.Chain = pick(t, "chainlen", 40, 130, 300, 5000)
		c.Close = prob(t, "close", 40)
	}
	return c
}

// graph is the whole graph of the case.
func (c *GCase) graph() map[int][]int {
	if c.Ladder+c.Chain == 0 {
		return c.In
	}
	in := map[int][]int{}
	for n, deps := range c.In {
		in[n] = deps
	}
	for l := 0; l < c.Ladder; l++ {
		var deps []int
		if l > 0 {
			deps = []int{200 + 2*l - 2, 200 + 2*l - 1}
		} else if c.Close {
			deps = []int{200 + 2*c.Ladder - 1}
		}
		in[200+2*l], in[200+2*l+1] = deps, deps
	}
	for l := 0; l < c.Chain; l++ {
		in[1000+l] = nil
		if l > 0 {
			in[1000+l] = []int{1000 + l - 1}
		} else if c.Close {
			in[1000] = []int{1000 + c.Chain - 1}
		}
	}
	return in
}

func cyclic(in map[int][]int) bool {
	// Kahn: repeatedly remove nodes whose inputs have all been removed.
	gone := map[int]bool{}
	for {
		progress := false
		for n, deps := range in {
			if gone[n] {
				continue
			}
			free := true
			for _, d := range deps {
				if _, ok := in[d]; ok && !gone[d] {
					free = false
				}
			}
			if free {
				gone[n], progress = true, true
			}
		}
		if !progress {
			return len(gone) < len(in)
		}
	}
}

type recInstaller struct {
	reject map[string]error
	got    []string
	man    []dependency.Manifold
	fails  []error
}

func (ri *recInstaller) Install(name string, m dependency.Manifold) error {
	ri.got = append(ri.got, name)
	ri.man = append(ri.man, m)
	err := ri.reject[name]
	if err != nil {
		ri.fails = append(ri.fails, err)
	}
	return err
}

func runGCase(t *testing.T, cc any, r *Res) {
	c := cc.(*GCase)
	gname := func(i int) string { return fmt.Sprintf("g%d", i) }
	var mu sync.Mutex
	starts := map[string]int{}
	ms := dependency.Manifolds{}
	graph := c.graph()
	for i, in := range graph {
		name := gname(i)
		m := dependency.Manifold{Start: func(ctx context.Context, _ dependency.Getter) (worker.Worker, error) {
			mu.Lock()
			starts[name]++
			mu.Unlock()
			w := newBwrk()
			go func() { <-w.killc; close(w.dead) }()
			return w, nil
		}}
		for _, j := range in {
			m.Inputs = append(m.Inputs, gname(j))
		}
		ms[name] = m
	}
	copyInputs := func() map[string][]string {
		out := map[string][]string{}
		for n, m := range ms {
			out[n] = append([]string(nil), m.Inputs...)
		}
		return out
	}
	before := copyInputs()
	cyc := cyclic(c.In) || (c.Ladder+c.Chain > 0 && c.Close)
	if cyc {
		r.Class("cyclic")
	} else if len(graph) > 1 {
		r.Class("acyclic")
	}
	var err error
	if c.Ladder > 0 {
		// There are 2^Ladder paths; a check that follows each of them never ends.
		r.Class("many-paths")
		res := make(chan error, 1)
		go func() { res <- dependency.Validate(ms) }()
		select {
		case err = <-res:
		case <-time.After(15 * time.Second):
			r.Fail("C07", "Validate has not decided about %d manifolds after 15 seconds", len(ms))
			return
		}
	} else {
		err = dependency.Validate(ms)
	}
	if (err != nil) != cyc {
		r.Fail("C07", "Validate returned %v; the declared inputs are cyclic: %v", err, cyc)
	}
	if !reflect.DeepEqual(before, copyInputs()) {
		r.Fail("C07", "Validate changed the manifolds")
	}

	// A recording installer.
	ri := &recInstaller{reject: map[string]error{}}
	for _, i := range c.Reject {
		ri.reject[gname(i)] = fmt.Errorf("rejected %d", i)
	}
	err = dependency.Install(ri, ms)
	count := map[string]int{}
	for i, n := range ri.got {
		count[n]++
		m, ok := ms[n]
		if !ok || count[n] > 1 {
			r.Fail("C07", "Install installed %q %d times (in the set: %v)", n, count[n], ok)
		} else if !reflect.DeepEqual(append([]string(nil), m.Inputs...), append([]string(nil), ri.man[i].Inputs...)) {
			r.Fail("C07", "Install installed %q with inputs %v instead of %v", n, ri.man[i].Inputs, m.Inputs)
		}
	}
	if len(c.Reject) == 0 {
		if err != nil || len(ri.got) != len(ms) {
			r.Fail("C07", "Install of %d manifolds installed %d and returned %v", len(ms), len(ri.got), err)
		}
	} else {
		r.Class("install-rejected")
		switch {
		case len(ri.fails) == 0:
			r.Fail("C07", "Install of %d manifolds left out all rejected ones, and returned %v", len(ms), err)
		case len(ri.fails) > 1:
			r.Fail("C07", "Install went on after %v: %v", ri.fails[0], ri.got)
		case ri.reject[ri.got[len(ri.got)-1]] == nil:
			r.Fail("C07", "Install installed more after %v: %v", ri.fails[0], ri.got)
		case err == nil || (!errors.Is(err, ri.fails[0]) && jerrors.Cause(err) != ri.fails[0]):
			r.Fail("C07", "Install returned %v instead of %v", err, ri.fails[0])
		}
	}

	if c.Chain > 300 {
		r.Class("long-chain")
		return
	}
	// A real engine.
	bubble(t, r, func() []string { return []string{"C07"} }, func() {
		e, err := dependency.NewEngine(dependency.EngineConfig{
			IsFatal:    func(error) bool { return false },
			WorstError: func(a, b error) error { return a },
			Clock:      realClock{}, Metrics: dependency.DefaultMetrics(), Logger: nullLogger{},
		})
		if err != nil {
			r.Fail("C07", "NewEngine: %v", err)
			return
		}
		for _, i := range c.Used {
			err := e.Install(gname(i), dependency.Manifold{Start: ms[gname(i)].Start})
			if err != nil {
				r.Fail("C07", "Install into an empty engine: %v", err)
			}
		}
		err = dependency.Install(e, ms)
		want := cyc || len(c.Used) > 0
		if (err != nil) != want {
			r.Fail("C07", "Install into an engine returned %v; cyclic %v, names in use %v", err, cyc, c.Used)
		}
		rep := e.Report()
		mans, _ := rep[dependency.KeyManifolds].(map[string]interface{})
		if err == nil && len(mans) != len(ms) {
			r.Fail("C07", "installed %d manifolds, Report lists %d", len(ms), len(mans))
		}
		e.Kill()
		if err := e.Wait(); err != nil {
			r.Fail("C07", "Wait: %v", err)
		}
		mu.Lock()
		defer mu.Unlock()
		for n := range starts {
			if _, ok := mans[n]; !ok {
				r.Fail("C07", "%q was started but is not installed", n)
			}
		}
	})
}

func init() {
	register(&Scenario{Name: "graph", Gen: genGCase, New: func() any { return &GCase{} }, Run: runGCase})
}
