package checks

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/juju/clock"
	jerrors "github.com/juju/errors"
	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/catacomb"
	"github.com/juju/worker/v4/dependency"
	"pgregory.net/rapid"
)

// A sprint lets several goroutines call the library in the very same moment,
// round after round, and checks what must hold whichever of them is first.
// The histories of the other scenarios have such calls too, but few of them.

// SprCase is one sprint.
type SprCase struct {
	Kind   string `json:"kind"`
	Rounds int    `json:"rounds"`
	N      int    `json:"n"`              // goroutines
	Spin   []int  `json:"spin,omitempty"` // how long each waits after the common start
	Var    int    `json:"var,omitempty"`
}

var sprintKinds = map[string][]string{
	"C24": {"invoke"}, "C21": {"invoke", "add", "add"}, "C22": {"add", "catkill"}, "C23": {"catkill"},
	"C14": {"start", "churn"}, "C16": {"start", "churn", "replace", "replace"}, "C19": {"churn"}, "C20": {"churn", "start", "report"},
	"C17": {"runkill"}, "C18": {"runfatal"}, "C15": {"runrestart"},
	"C07": {"install", "ring"}, "C09": {"engkill"}, "C10": {"engfatal"}, "C06": {"get"}, "C11": {"engreport"}, "C13": {"engreport"},
	"C01": {"graph"}, "C02": {"graph"}, "C04": {"graph"}, "C25": {"dead"},
}

func init() {
	all := map[string]bool{}
	for _, ks := range sprintKinds {
		for _, k := range ks {
			all[k] = true
		}
	}
	for k := range all {
		sprintKinds["C28"] = append(sprintKinds["C28"], k)
	}
	sort.Strings(sprintKinds["C28"])
}

func genSprCase(t *rapid.T, focus string) any {
	c := &SprCase{Kind: rapid.SampledFrom(sprintKinds[focus]).Draw(t, "kind")}
	c.Rounds = rapid.IntRange(5, 25).Draw(t, "rounds")
	c.N = rapid.IntRange(2, 6).Draw(t, "n")
	for i := 0; i < c.N; i++ {
		c.Spin = append(c.Spin, pick(t, "spin", 0, 0, 0, 10, 50, 200))
	}
	c.Var = rapid.IntRange(0, 7).Draw(t, "var")
	return c
}

type sprworld struct {
	c   *SprCase
	r   *Res
	seq atomic.Int64
}

func (w *sprworld) next() int64 { return w.seq.Add(1) }

var spinSink atomic.Int64

// together lets every f run at the same moment and waits for all of them.
func (w *sprworld) together(fs ...func()) {
	var ready atomic.Int32
	var wg sync.WaitGroup
	for i, f := range fs {
		spin := 0
		if i < len(w.c.Spin) {
			spin = w.c.Spin[i]
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			ready.Add(1)
			for n := 0; ready.Load() < int32(len(fs)); n++ {
				if n%64 == 63 {
					runtime.Gosched()
				}
			}
			for k := 0; k < spin; k++ {
				spinSink.Add(1)
			}
			f()
		}()
	}
	wg.Wait()
}

func (w *sprworld) each(n int, f func(i int)) {
	var fs []func()
	for i := 0; i < n; i++ {
		fs = append(fs, func() { f(i) })
	}
	w.together(fs...)
}

// sprwrk is a worker that ends when killed or told to.
type sprwrk struct {
	w      *sprworld
	killc  chan struct{}
	endc   chan error
	dead   chan struct{}
	once   sync.Once
	killed atomic.Int64
	ended  atomic.Int64
	kerr   error
	err    error
	val    int
}

func (w *sprworld) worker(kerr error) *sprwrk {
	s := &sprwrk{w: w, killc: make(chan struct{}), endc: make(chan error, 1), dead: make(chan struct{}), kerr: kerr}
	go func() {
		select {
		case s.err = <-s.endc:
		case <-s.killc:
			s.err = s.kerr
		}
		s.ended.Store(w.next())
		close(s.dead)
	}()
	return s
}

func (s *sprwrk) Kill() {
	s.once.Do(func() {
		s.killed.Store(s.w.next())
		close(s.killc)
	})
}

func (s *sprwrk) Wait() error {
	<-s.dead
	return s.err
}

func (s *sprwrk) end(err error) {
	select {
	case s.endc <- err:
	default:
	}
}

func runSprCase(t *testing.T, cc any, r *Res) {
	c := cc.(*SprCase)
	w := &sprworld{c: c, r: r}
	props := map[string][]string{
		"invoke": {"C24"}, "add": {"C21", "C22"}, "catkill": {"C22"}, "start": {"C14", "C16"}, "churn": {"C16", "C19"}, "replace": {"C16", "C14"}, "report": {"C20", "C28"}, "engreport": {"C11", "C13", "C28"},
		"runkill": {"C17"}, "runfatal": {"C18"}, "runrestart": {"C15"}, "install": {"C07"}, "ring": {"C07"},
		"engkill": {"C09"}, "engfatal": {"C10"}, "get": {"C06"}, "graph": {"C02", "C04"}, "dead": {"C25"},
	}[c.Kind]
	if c.N < 1 || props == nil {
		return
	}
	bubble(t, r, func() []string { return props }, func() {
		r.Class("sprint-" + c.Kind)
		r.Class("sprint")
		map[string]func(){
			"invoke": w.invoke, "add": w.add, "catkill": w.catkill, "start": w.start, "churn": w.churn, "replace": w.replace, "report": w.report, "engreport": w.engreport,
			"runkill": w.runkill, "runfatal": w.runfatal, "runrestart": w.runrestart, "install": w.install, "ring": w.ring,
			"engkill": w.engkill, "engfatal": w.engfatal, "get": w.get, "graph": w.graph, "dead": w.dead,
		}[c.Kind]()
	})
}

// ---- catacombs ----

func (w *sprworld) invoke() {
	for round := 0; round < w.c.Rounds; round++ {
		var cat catacomb.Catacomb
		var ran atomic.Int32
		ran.Store(-1)
		var runs atomic.Int32
		errs := make([]error, w.c.N)
		rets := make([]int64, w.c.N)
		ws := make([]*sprwrk, w.c.N)
		for i := range ws {
			ws[i] = w.worker(nil)
		}
		w.each(w.c.N, func(i int) {
			errs[i] = catacomb.Invoke(catacomb.Plan{
				Name: "sprint", Site: &cat, Init: []worker.Worker{ws[i]},
				Work: func() error {
					ran.Store(int32(i))
					runs.Add(1)
					<-cat.Dying()
					return cat.ErrDying()
				},
			})
			rets[i] = w.next()
		})
		synctest.Wait()
		ok := 0
		for i, err := range errs {
			switch {
			case err == nil:
				ok++
				if int(ran.Load()) != i {
					w.r.Fail("C24", "Invoke %d of %d at once succeeded, but the work function of %d was run", i, w.c.N, ran.Load())
				}
				if k := ws[i].killed.Load(); k > 0 {
					w.r.Fail("C21", "the worker of the Invoke that succeeded was killed while the catacomb was alive")
					w.r.Fail("C24", "the worker of the Invoke that succeeded was killed while the catacomb was alive")
				}
			case ws[i].ended.Load() == 0 || ws[i].ended.Load() > rets[i]:
				w.r.Fail("C21", "Invoke %d of %d at once failed with %v before its worker had finished", i, w.c.N, err)
			}
		}
		if ok != 1 || runs.Load() != 1 {
			w.r.Fail("C24", "%d of %d Invoke calls at once succeeded, %d work functions were run", ok, w.c.N, runs.Load())
		}
		if ok == 0 {
			return
		}
		cat.Kill(nil)
		if err := cat.Wait(); err != nil {
			w.r.Fail("C23", "Wait of a killed catacomb returned %v", err)
		}
		synctest.Wait()
		for i, s := range ws {
			if s.ended.Load() == 0 {
				w.r.Fail("C21", "worker of Invoke %d never killed", i)
				s.Kill()
			}
		}
	}
}

// add hands workers over while the catacomb begins to die.
func (w *sprworld) add() {
	for round := 0; round < w.c.Rounds; round++ {
		var cat catacomb.Catacomb
		stop := make(chan struct{})
		boom := errors.New("boom")
		first := w.worker(nil)
		err := catacomb.Invoke(catacomb.Plan{Name: "sprint", Site: &cat, Init: []worker.Worker{first}, Work: func() error {
			select {
			case <-cat.Dying():
				return cat.ErrDying()
			case <-stop:
				return nil
			}
		}})
		if err != nil {
			w.r.Fail("C24", "Invoke: %v", err)
			return
		}
		var waitSeq atomic.Int64
		var waited sync.WaitGroup
		waited.Add(1)
		go func() {
			defer waited.Done()
			_ = cat.Wait()
			waitSeq.Store(w.next())
		}()
		ws := make([]*sprwrk, w.c.N)
		errs := make([]error, w.c.N)
		rets := make([]int64, w.c.N)
		for i := range ws {
			var kerr error
			if w.c.Var&1 == 1 && i == 0 {
				kerr = boom
			}
			ws[i] = w.worker(kerr)
		}
		fs := []func(){func() {
			switch w.c.Var >> 1 {
			case 0:
				cat.Kill(nil)
			case 1:
				close(stop)
			case 2:
				first.end(boom)
			default:
				cat.Kill(boom)
			}
		}}
		for i := range ws {
			fs = append(fs, func() {
				errs[i] = cat.Add(ws[i])
				rets[i] = w.next()
			})
		}
		w.together(fs...)
		waited.Wait()
		synctest.Wait()
		for i, s := range ws {
			e := s.ended.Load()
			switch {
			case e == 0:
				w.r.Fail("C21", "worker %d added while the catacomb began to die (Add: %v) was never stopped", i, errs[i])
				s.Kill()
			case errs[i] == nil && e > waitSeq.Load():
				w.r.Fail("C21", "the catacomb was dead before added worker %d had finished", i)
				w.r.Fail("C22", "the catacomb was dead before added worker %d had finished", i)
			case errs[i] != nil && e > rets[i]:
				w.r.Fail("C21", "Add failed with %v before its worker had finished", errs[i])
			case errs[i] != nil && s.kerr != nil && !errors.Is(errs[i], s.kerr):
				w.r.Fail("C21", "Add returned %v, not the error %v of the stopped worker", errs[i], s.kerr)
			}
		}
		select {
		case <-cat.Dead():
		default:
			w.r.Fail("C22", "Wait has returned but Dead is not closed")
		}
	}
}

// catkill kills a catacomb with several errors at once.
func (w *sprworld) catkill() {
	for round := 0; round < w.c.Rounds; round++ {
		var cat catacomb.Catacomb
		var ws []*sprwrk
		var init []worker.Worker
		for i := 0; i < w.c.N; i++ {
			s := w.worker(nil)
			ws, init = append(ws, s), append(init, s)
		}
		boom := errors.New("work")
		stop := make(chan struct{})
		var once sync.Once
		err := catacomb.Invoke(catacomb.Plan{Name: "sprint", Site: &cat, Init: init, Work: func() error {
			select {
			case <-cat.Dying():
				return cat.ErrDying()
			case <-stop:
				return boom
			}
		}})
		if err != nil {
			w.r.Fail("C24", "Invoke: %v", err)
			return
		}
		given := make([]error, w.c.N)
		for i := range given {
			given[i] = fmt.Errorf("error %d", i)
		}
		w.each(w.c.N, func(i int) {
			switch (i + w.c.Var) % 4 {
			case 0:
				cat.Kill(given[i])
			case 1:
				ws[i].end(given[i])
			case 2:
				cat.Kill(given[i])
				_ = cat.Err()
			default:
				cat.Kill(given[i])
				once.Do(func() { close(stop) })
			}
		})
		got := cat.Wait()
		seq := w.next()
		synctest.Wait()
		ok := errors.Is(got, boom)
		for _, g := range given {
			ok = ok || errors.Is(got, g)
		}
		if !ok {
			w.r.Fail("C23", "Wait returned %v, none of the errors the catacomb was killed with", got)
		}
		for i, s := range ws {
			if e := s.ended.Load(); e == 0 || e > seq {
				w.r.Fail("C22", "Wait returned before worker %d had finished", i)
				w.r.Fail("C21", "Wait returned before worker %d had finished", i)
				s.Kill()
			}
		}
		if again := cat.Wait(); again != got || cat.Err() != got {
			w.r.Fail("C23", "Wait returned %v, then %v; Err %v", got, again, cat.Err())
		}
	}
}

// ---- runners ----

type sprlife struct {
	live, max, calls atomic.Int32
}

func (l *sprlife) enter() {
	l.calls.Add(1)
	n := l.live.Add(1)
	for {
		m := l.max.Load()
		if n <= m || l.max.CompareAndSwap(m, n) {
			return
		}
	}
}

// started makes the start function of an id: the worker ends the life.
func (w *sprworld) startFn(l *sprlife, kerr error, made *atomic.Pointer[sprwrk]) worker.StartFunc {
	return func(context.Context) (worker.Worker, error) {
		l.enter()
		s := &sprwrk{w: w, killc: make(chan struct{}), endc: make(chan error, 1), dead: make(chan struct{}), kerr: kerr}
		go func() {
			select {
			case s.err = <-s.endc:
			case <-s.killc:
				s.err = s.kerr
			}
			s.ended.Store(w.next())
			l.live.Add(-1)
			close(s.dead)
		}()
		if made != nil {
			made.Store(s)
		}
		return s, nil
	}
}

func (w *sprworld) runner(p worker.RunnerParams) *worker.Runner {
	p.Name = "sprint"
	if w.c.Var&1 == 1 {
		p.Clock = clock.WallClock
	}
	r, err := worker.NewRunner(p)
	if err != nil {
		panic(err)
	}
	return r
}

func nofatal(error) bool { return false }

// start lets StartWorker calls for one id compete, then removals of it.
func (w *sprworld) start() {
	boom := errors.New("boom")
	rn := w.runner(worker.RunnerParams{IsFatal: nofatal})
	for round := 0; round < w.c.Rounds; round++ {
		id := fmt.Sprint("id", round%2)
		l := &sprlife{}
		errs := make([]error, w.c.N)
		calls := make([]atomic.Int32, w.c.N)
		seen := make([]error, w.c.N)
		names := make([]int, w.c.N)
		var kerr error
		if w.c.Var&2 == 2 {
			kerr = boom
		}
		w.each(w.c.N, func(i int) {
			fn := w.startFn(l, kerr, nil)
			errs[i] = rn.StartWorker(context.Background(), id, func(ctx context.Context) (worker.Worker, error) {
				calls[i].Add(1)
				return fn(ctx)
			})
			// Accepted or not, the id is known from now on.
			if w.c.Var&4 == 0 {
				_, seen[i] = rn.Worker(id, nil)
			} else {
				names[i] = len(rn.WorkerNames())
				if ws, _ := rn.Report()["workers"].(map[string]any); len(ws) != 1 {
					w.r.Fail("C20", "Report lists %d ids, expected 1", len(ws))
				}
			}
		})
		synctest.Wait()
		ok := 0
		for i, err := range errs {
			switch {
			case err == nil:
				ok++
				if calls[i].Load() != 1 {
					w.r.Fail("C14", "the start function of the accepted of %d StartWorker calls at once was called %d times", w.c.N, calls[i].Load())
				}
			case calls[i].Load() != 0:
				w.r.Fail("C14", "the start function of a rejected StartWorker call (%v) was called", err)
			}
			if seen[i] != nil {
				w.r.Fail("C19", "Worker right after StartWorker (%v): %v", err, seen[i])
				w.r.Fail("C14", "Worker right after StartWorker (%v): %v", err, seen[i])
			}
			if w.c.Var&4 == 4 && names[i] != 1 {
				w.r.Fail("C20", "WorkerNames right after StartWorker lists %d ids, expected 1", names[i])
				w.r.Fail("C14", "WorkerNames right after StartWorker lists %d ids, expected 1", names[i])
			}
		}
		if ok != 1 || l.max.Load() > 1 {
			w.r.Fail("C14", "%d of %d StartWorker calls at once were accepted, up to %d workers at a time", ok, w.c.N, l.max.Load())
		}
		w.each(w.c.N, func(i int) {
			if w.c.Var&2 == 0 && i%2 == 1 {
				_ = rn.StopWorker(id)
				return
			}
			errs[i] = rn.StopAndRemoveWorker(id, nil)
			if _, err := rn.Worker(id, nil); err == nil {
				w.r.Fail("C16", "Worker finds %s after StopAndRemoveWorker has returned %v", id, errs[i])
			}
			if n := len(rn.WorkerNames()); n != 0 {
				w.r.Fail("C16", "WorkerNames lists %d ids after StopAndRemoveWorker has returned %v", n, errs[i])
			}
		})
		synctest.Wait()
		nice := 0
		for i, err := range errs {
			if w.c.Var&2 == 2 {
				if err == boom {
					nice++
				} else if err == nil {
					w.r.Fail("C16", "StopAndRemoveWorker %d of %d at once returned nil, not the worker's error", i, w.c.N)
				}
			}
		}
		if w.c.Var&2 == 2 && nice == 0 {
			w.r.Fail("C16", "none of %d StopAndRemoveWorker calls at once returned the worker's error: %v", w.c.N, errs)
		}
		if l.live.Load() != 0 || l.calls.Load() != 1 {
			w.r.Fail("C16", "%d workers live, %d start calls after the id was removed", l.live.Load(), l.calls.Load())
		}
	}
	rn.Kill()
	if err := rn.Wait(); err != nil {
		w.r.Fail("C18", "Wait of a killed runner: %v", err)
	}
}

// churn lets everybody start, look up, stop and remove the same ids.
func (w *sprworld) churn() {
	rn := w.runner(worker.RunnerParams{IsFatal: nofatal, RestartDelay: time.Millisecond})
	var ls [2]sprlife
	boom := errors.New("boom")
	for round := 0; round < w.c.Rounds; round++ {
		w.each(w.c.N, func(i int) {
			for k := 0; k < 4; k++ {
				n := (i + k*w.c.Var) % 2
				id := fmt.Sprint("id", n)
				var made atomic.Pointer[sprwrk]
				var kerr error
				if (i+k+w.c.Var)%3 == 0 {
					kerr = boom
				}
				switch (i + k + w.c.Var) % 4 {
				case 0, 1:
					err := rn.StartWorker(context.Background(), id, w.startFn(&ls[n], kerr, &made))
					if s := made.Load(); err == nil && s != nil && k%2 == 1 {
						s.end(kerr)
					}
				case 2:
					wk, err := rn.Worker(id, nil)
					if err == nil && wk == nil {
						w.r.Fail("C19", "Worker returned neither a worker nor an error")
					}
				}
				err := rn.StopAndRemoveWorker(id, nil)
				if err != nil && err != boom && !errors.Is(err, jerrors.NotFound) {
					w.r.Fail("C16", "StopAndRemoveWorker: %v", err)
				}
			}
		})
		time.Sleep(time.Second)
		synctest.Wait()
		// A start may have been the last call for its id.
		names := rn.WorkerNames()
		sort.Strings(names)
		live := 0
		for i := range ls {
			if ls[i].max.Load() > 1 {
				w.r.Fail("C14", "%d workers of one id at a time", ls[i].max.Load())
			}
			live += int(ls[i].live.Load())
		}
		if live != len(names) {
			w.r.Fail("C20", "WorkerNames gives %v, but %d workers are running", names, live)
			w.r.Fail("C16", "WorkerNames gives %v, but %d workers are running", names, live)
		}
		for _, id := range names {
			if _, err := rn.Worker(id, nil); err != nil {
				w.r.Fail("C19", "Worker(%q) of a running id: %v", id, err)
			}
			if err := rn.StopAndRemoveWorker(id, nil); err != nil && err != boom {
				w.r.Fail("C16", "StopAndRemoveWorker(%q): %v", id, err)
			}
		}
	}
	rn.Kill()
	if err := rn.Wait(); err != nil {
		w.r.Fail("C18", "Wait of a killed runner: %v", err)
	}
}

// replace lets a worker end and its id be used again while others ask for its
// removal: the new worker may only be stopped by a call that was about it.
func (w *sprworld) replace() {
	rn := w.runner(worker.RunnerParams{IsFatal: nofatal})
	for round := 0; round < w.c.Rounds; round++ {
		var l sprlife
		var made1, made2 atomic.Pointer[sprwrk]
		kerr1, kerr2 := fmt.Errorf("first %d", round), fmt.Errorf("second %d", round)
		if err := rn.StartWorker(context.Background(), "id", w.startFn(&l, kerr1, &made1)); err != nil {
			w.r.Fail("C14", "StartWorker: %v", err)
			return
		}
		synctest.Wait()
		errs := make([]error, w.c.N+1)
		w.each(w.c.N+1, func(i int) {
			if i > 0 {
				errs[i] = rn.StopAndRemoveWorker("id", nil)
				return
			}
			made1.Load().end(nil)
			for made2.Load() == nil {
				if err := rn.StartWorker(context.Background(), "id", w.startFn(&l, kerr2, &made2)); err == nil {
					return
				} else if !errors.Is(err, jerrors.AlreadyExists) {
					w.r.Fail("C14", "StartWorker on a running runner: %v", err)
					return
				}
				runtime.Gosched()
			}
		})
		synctest.Wait()
		killer := false
		for _, err := range errs[1:] {
			switch {
			case err == kerr2:
				killer = true
			case err != nil && err != kerr1 && !errors.Is(err, jerrors.NotFound):
				w.r.Fail("C16", "StopAndRemoveWorker: %v", err)
			}
		}
		s := made2.Load()
		switch {
		case s == nil:
			w.r.Fail("C14", "StartWorker succeeded but its function was not called")
		case s.killed.Load() != 0 && !killer:
			w.r.Fail("C16", "a worker was killed though every StopAndRemoveWorker call was about the one before it: %v", errs[1:])
		case s.killed.Load() == 0 && killer:
			w.r.Fail("C16", "StopAndRemoveWorker returned an error no worker finished with")
		}
		if l.max.Load() > 1 {
			w.r.Fail("C14", "%d workers of one id at a time", l.max.Load())
		}
		if err := rn.StopAndRemoveWorker("id", nil); err != nil && err != kerr2 && !errors.Is(err, jerrors.NotFound) {
			w.r.Fail("C16", "StopAndRemoveWorker: %v", err)
		}
	}
	rn.Kill()
	if err := rn.Wait(); err != nil {
		w.r.Fail("C18", "Wait of a killed runner: %v", err)
	}
}

// asking is a worker whose Report asks its runner, or waits for its own
// goroutine, which may be using the runner just then.
type asking struct {
	*sprwrk
	rep func() map[string]interface{}
}

func (a *asking) Report() map[string]interface{} { return a.rep() }

// report lets workers use their runner while it is asked for its report.
func (w *sprworld) report() {
	rn := w.runner(worker.RunnerParams{IsFatal: nofatal})
	const n = 3
	reqs := make([]chan chan string, n)
	for i := range reqs {
		reqs[i] = make(chan chan string)
		id := fmt.Sprint("id", i)
		err := rn.StartWorker(context.Background(), id, func(context.Context) (worker.Worker, error) {
			s := w.worker(nil)
			a := &asking{sprwrk: s}
			switch (i + w.c.Var) % 3 {
			case 0:
				a.rep = func() map[string]interface{} {
					return map[string]interface{}{"names": len(rn.WorkerNames()), "me": i}
				}
			case 1:
				a.rep = func() map[string]interface{} {
					wk, err := rn.Worker(id, nil)
					return map[string]interface{}{"found": wk != nil && err == nil, "me": i}
				}
			default:
				// The worker answers from its loop, which also uses the runner.
				go func() {
					for k := 0; ; k++ {
						select {
						case <-s.killc:
							return
						case r := <-reqs[i]:
							r <- "busy"
						default:
							_ = rn.StopWorker("nobody")
							time.Sleep(time.Millisecond)
						}
					}
				}()
				a.rep = func() map[string]interface{} {
					r := make(chan string, 1)
					select {
					case reqs[i] <- r:
						return map[string]interface{}{"state": <-r, "me": i}
					case <-s.killc:
						return map[string]interface{}{"me": i}
					}
				}
			}
			return a, nil
		})
		if err != nil {
			w.r.Fail("C14", "StartWorker: %v", err)
			return
		}
	}
	time.Sleep(time.Millisecond)
	for round := 0; round < w.c.Rounds; round++ {
		w.each(w.c.N, func(i int) {
			switch i % 3 {
			case 0, 1:
				all, _ := rn.Report()["workers"].(map[string]interface{})
				if len(all) < n {
					w.r.Fail("C20", "Report lists %d workers of %d", len(all), n)
				}
				for k := 0; k < n; k++ {
					one, _ := all[fmt.Sprint("id", k)].(map[string]interface{})
					rep, _ := one[worker.KeyReport].(map[string]interface{})
					if rep["me"] != k {
						w.r.Fail("C20", "Report of running worker id%d: %v", k, one)
					}
				}
			case 2:
				id := fmt.Sprint("more", round, i)
				if err := rn.StartWorker(context.Background(), id, func(context.Context) (worker.Worker, error) { return w.worker(nil), nil }); err != nil {
					w.r.Fail("C14", "StartWorker: %v", err)
				}
				if err := rn.StopAndRemoveWorker(id, nil); err != nil {
					w.r.Fail("C16", "StopAndRemoveWorker: %v", err)
				}
			}
		})
	}
	// A report that takes its time delays nobody else.
	gate := make(chan struct{})
	var slow *sprwrk
	err := rn.StartWorker(context.Background(), "slow", func(context.Context) (worker.Worker, error) {
		slow = w.worker(nil)
		return &asking{slow, func() map[string]interface{} { <-gate; return nil }}, nil
	})
	if err != nil {
		w.r.Fail("C14", "StartWorker: %v", err)
		return
	}
	synctest.Wait()
	go rn.Report()
	synctest.Wait()
	if w.c.Var%2 == 0 {
		go func() { _ = rn.StopAndRemoveWorker("slow", nil) }()
	} else {
		go rn.Kill()
	}
	synctest.Wait()
	if slow.killed.Load() == 0 {
		w.r.Fail("C20", "a worker is not stopped while its report is being made")
		w.r.Fail("C28", "a worker is not stopped while its report is being made")
	}
	close(gate)
	rn.Kill()
	if err := rn.Wait(); err != nil {
		w.r.Fail("C18", "Wait of a killed runner: %v", err)
	}
	time.Sleep(time.Second) // until the loops above have ended
}

// runkill kills a runner while workers are started, looked up and stopped.
func (w *sprworld) runkill() {
	for round := 0; round < w.c.Rounds; round++ {
		rn := w.runner(worker.RunnerParams{IsFatal: func(err error) bool { return w.c.Var >= 4 && err != nil }, RestartDelay: time.Millisecond})
		ls := make([]sprlife, w.c.N+1)
		var entered atomic.Int64 // of the last start function
		var waitSeq atomic.Int64
		var boss atomic.Pointer[sprwrk]
		boom := errors.New("boom")
		if err := rn.StartWorker(context.Background(), "boss", w.startFn(&ls[w.c.N], nil, &boss)); err != nil {
			w.r.Fail("C14", "StartWorker: %v", err)
		}
		synctest.Wait()
		var waited sync.WaitGroup
		waited.Add(1)
		go func() {
			defer waited.Done()
			err := rn.Wait()
			waitSeq.Store(w.next())
			if w.c.Var >= 4 && err != boom || w.c.Var < 4 && err != nil {
				w.r.Fail("C18", "Wait returned %v", err)
			}
		}()
		fs := []func(){func() {
			if w.c.Var >= 4 {
				boss.Load().end(boom)
			} else {
				rn.Kill()
				if _, err := rn.Worker("boss", nil); err == nil {
					w.r.Fail("C19", "Worker returned a worker although Kill had returned")
				}
			}
		}}
		for i := 0; i < w.c.N; i++ {
			fs = append(fs, func() {
				fn := w.startFn(&ls[i], nil, nil)
				id := fmt.Sprint("id", i)
				err := rn.StartWorker(context.Background(), id, func(ctx context.Context) (worker.Worker, error) {
					entered.Store(w.next())
					return fn(ctx)
				})
				if err != nil && err != worker.ErrDead {
					w.r.Fail("C17", "StartWorker while the runner is killed: %v", err)
				}
				switch (i + w.c.Var) % 3 {
				case 0:
					_, _ = rn.Worker(id, nil)
				case 1:
					_ = rn.StopAndRemoveWorker(id, nil)
				default:
					_ = rn.StopWorker(id)
				}
			})
		}
		w.together(fs...)
		waited.Wait()
		live := 0
		for i := range ls {
			live += int(ls[i].live.Load())
		}
		if live > 0 {
			w.r.Fail("C17", "Wait returned while %d workers were running", live)
		}
		time.Sleep(time.Second)
		synctest.Wait()
		if entered.Load() > waitSeq.Load() {
			w.r.Fail("C17", "a start function was called after Wait had returned")
		}
		for i := range ls {
			if ls[i].calls.Load() > 1 {
				w.r.Fail("C17", "a start function was called %d times although its runner was killed", ls[i].calls.Load())
			}
		}
		if err := rn.StartWorker(context.Background(), "late", w.startFn(&sprlife{}, nil, nil)); err != worker.ErrDead {
			w.r.Fail("C17", "StartWorker after the end: %v", err)
		}
		if n := len(rn.WorkerNames()); n != 0 {
			w.r.Fail("C17", "WorkerNames lists %d ids after the end", n)
		}
	}
}

type srank struct{ n int }

func (e srank) Error() string { return fmt.Sprint("rank ", e.n) }

func srankOf(err error) int {
	var s srank
	errors.As(err, &s)
	return s.n
}

// runfatal ends several workers with fatal errors at once.
func (w *sprworld) runfatal() {
	for round := 0; round < w.c.Rounds; round++ {
		rn := w.runner(worker.RunnerParams{
			IsFatal: func(err error) bool { return err != nil },
			MoreImportant: func(a, b error) bool {
				return srankOf(a) > srankOf(b)
			},
		})
		made := make([]atomic.Pointer[sprwrk], w.c.N)
		for i := range made {
			if err := rn.StartWorker(context.Background(), fmt.Sprint(i), w.startFn(&sprlife{}, srank{(i+round)%w.c.N + 1}, &made[i])); err != nil {
				w.r.Fail("C14", "StartWorker: %v", err)
				return
			}
		}
		synctest.Wait()
		if w.c.Var&2 == 2 {
			// Only some of them by themselves; the others when they are stopped.
			made[w.c.Var%w.c.N].Load().end(srank{(w.c.Var%w.c.N+round)%w.c.N + 1})
		} else {
			w.each(w.c.N, func(i int) { made[i].Load().end(srank{(i+round)%w.c.N + 1}) })
		}
		if err := rn.Wait(); srankOf(err) != w.c.N {
			w.r.Fail("C18", "Wait returned %v, the most important of the %d fatal errors is %v", err, w.c.N, srank{w.c.N})
		}
	}
}

// runrestart lets several workers fail at once; each comes back once.
func (w *sprworld) runrestart() {
	rn := w.runner(worker.RunnerParams{IsFatal: nofatal, RestartDelay: 10 * time.Millisecond})
	made := make([]atomic.Pointer[sprwrk], w.c.N)
	ls := make([]sprlife, w.c.N)
	for i := range made {
		_ = rn.StartWorker(context.Background(), fmt.Sprint(i), w.startFn(&ls[i], nil, &made[i]))
	}
	synctest.Wait()
	boom := errors.New("boom")
	for round := 0; round < w.c.Rounds; round++ {
		skip := (w.c.Var + round) % w.c.N
		w.each(w.c.N, func(i int) {
			if i != skip {
				made[i].Load().end(boom)
			} else {
				_ = rn.Report()
			}
		})
		synctest.Wait()
		before := make([]int32, w.c.N)
		for i := range before {
			before[i] = ls[i].calls.Load()
		}
		time.Sleep(9 * time.Millisecond)
		synctest.Wait()
		for i := range before {
			if ls[i].calls.Load() != before[i] {
				w.r.Fail("C15", "a worker was restarted before RestartDelay had passed")
			}
		}
		time.Sleep(2 * time.Millisecond)
		synctest.Wait()
		for i := range before {
			want := before[i] + 1
			if i == skip {
				want = before[i]
			}
			if ls[i].calls.Load() != want || ls[i].live.Load() != 1 || ls[i].max.Load() > 1 {
				w.r.Fail("C15", "%d workers failed at once: start function %d called %d times (expected %d), %d live", w.c.N-1, i, ls[i].calls.Load(), want, ls[i].live.Load())
				ls[i].calls.Store(want)
			}
		}
	}
	rn.Kill()
	_ = rn.Wait()
}

// ---- engines ----

func (w *sprworld) engine(worst func(a, b error) error, fatal func(error) bool) *dependency.Engine {
	if worst == nil {
		worst = func(a, b error) error { return a }
	}
	e, err := dependency.NewEngine(dependency.EngineConfig{
		IsFatal: fatal, WorstError: worst, ErrorDelay: 5 * time.Millisecond, BounceDelay: time.Millisecond,
		Clock: clock.WallClock, Metrics: dependency.DefaultMetrics(), Logger: quietLogger{},
	})
	if err != nil {
		panic(err)
	}
	return e
}

type quietLogger struct{}

func (quietLogger) Tracef(string, ...interface{}) {}
func (quietLogger) Debugf(string, ...interface{}) {}
func (quietLogger) Infof(string, ...interface{})  {}
func (quietLogger) Errorf(string, ...interface{}) {}

func (w *sprworld) manifold(l *sprlife, inputs ...string) dependency.Manifold {
	return dependency.Manifold{Inputs: inputs, Start: func(ctx context.Context, g dependency.Getter) (worker.Worker, error) {
		return w.startFn(l, nil, nil)(ctx)
	}}
}

// install lets Install calls for one name compete.
func (w *sprworld) install() {
	e := w.engine(nil, nofatal)
	for round := 0; round < w.c.Rounds; round++ {
		name := fmt.Sprint("m", round)
		errs := make([]error, w.c.N)
		ls := make([]sprlife, w.c.N)
		w.each(w.c.N, func(i int) { errs[i] = e.Install(name, w.manifold(&ls[i])) })
		synctest.Wait()
		ok := 0
		for i, err := range errs {
			if err == nil {
				ok++
			}
			if (ls[i].calls.Load() == 1) != (err == nil) {
				w.r.Fail("C07", "Install of a name by %d at once gave %v to one whose Start was called %d times", w.c.N, err, ls[i].calls.Load())
			}
		}
		if ok != 1 {
			w.r.Fail("C07", "%d of %d Install calls of one name at once succeeded", ok, w.c.N)
		}
		if ms, _ := e.Report()["manifolds"].(map[string]any); len(ms) != round+1 {
			w.r.Fail("C11", "Report lists %d manifolds, expected %d", len(ms), round+1)
		}
	}
	e.Kill()
	_ = e.Wait()
}

// ring installs manifolds at once of which all but one may be accepted.
func (w *sprworld) ring() {
	e := w.engine(nil, nofatal)
	for round := 0; round < w.c.Rounds; round++ {
		n := w.c.N
		errs := make([]error, n)
		ls := make([]sprlife, n)
		w.each(n, func(i int) {
			errs[i] = e.Install(fmt.Sprint("m", round, "-", i), w.manifold(&ls[i], fmt.Sprint("m", round, "-", (i+1)%n)))
		})
		time.Sleep(time.Second)
		synctest.Wait()
		bad := 0
		for i, err := range errs {
			if err != nil {
				bad++
			}
			if (ls[i].calls.Load() > 0) != (err == nil) {
				w.r.Fail("C07", "Install answered %v, but Start was called %d times", err, ls[i].calls.Load())
			}
			if ls[i].max.Load() > 1 {
				w.r.Fail("C01", "%d workers of a manifold at a time", ls[i].max.Load())
			}
		}
		if bad != 1 {
			w.r.Fail("C07", "%d of %d manifolds that form a ring were rejected, expected 1", bad, n)
		}
	}
	e.Kill()
	_ = e.Wait()
}

// engreport lets workers use their engine while it is asked for its report.
func (w *sprworld) engreport() {
	e := w.engine(nil, nofatal)
	_ = e.Install("self", dependency.SelfManifold(e))
	const n = 2
	for i := 0; i < n; i++ {
		err := e.Install(fmt.Sprint("id", i), dependency.Manifold{Inputs: []string{"self"}, Start: func(ctx context.Context, g dependency.Getter) (worker.Worker, error) {
			var ins dependency.Installer
			if err := g.Get("self", &ins); err != nil {
				return nil, err
			}
			again := func() bool {
				return ins.Install("self", dependency.Manifold{Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
					return nil, errors.New("boom")
				}}) != nil
			}
			s := w.worker(nil)
			a := &asking{sprwrk: s}
			if (i+w.c.Var)%2 == 0 {
				a.rep = func() map[string]interface{} { return map[string]interface{}{"rejected": again(), "me": i} }
				return a, nil
			}
			// The worker answers from its loop, which also uses the engine.
			reqs := make(chan chan string)
			go func() {
				for {
					select {
					case <-s.killc:
						return
					case r := <-reqs:
						r <- "busy"
					default:
						again()
						time.Sleep(time.Millisecond)
					}
				}
			}()
			a.rep = func() map[string]interface{} {
				r := make(chan string, 1)
				select {
				case reqs <- r:
					return map[string]interface{}{"state": <-r, "me": i}
				case <-s.killc:
					return map[string]interface{}{"me": i}
				}
			}
			return a, nil
		}})
		if err != nil {
			w.r.Fail("C07", "Install: %v", err)
		}
	}
	time.Sleep(time.Minute)
	for round := 0; round < w.c.Rounds; round++ {
		w.each(w.c.N, func(i int) {
			switch i % 3 {
			case 0, 1:
				all, _ := e.Report()["manifolds"].(map[string]interface{})
				for k := 0; k < n; k++ {
					one, _ := all[fmt.Sprint("id", k)].(map[string]interface{})
					rep, _ := one[dependency.KeyReport].(map[string]interface{})
					if one[dependency.KeyState] != "started" || rep["me"] != k {
						w.r.Fail("C11", "Report of the running worker id%d: %v", k, one)
					}
				}
			case 2:
				if err := e.Install(fmt.Sprint("more", round, i), dependency.Manifold{Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
					return w.worker(nil), nil
				}}); err != nil {
					w.r.Fail("C07", "Install: %v", err)
				}
			}
		})
	}
	// A report that takes its time delays nobody else.
	gate := make(chan struct{})
	var slow *sprwrk
	if err := e.Install("slow", dependency.Manifold{Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
		slow = w.worker(nil)
		return &asking{slow, func() map[string]interface{} { <-gate; return nil }}, nil
	}}); err != nil {
		w.r.Fail("C07", "Install: %v", err)
		return
	}
	synctest.Wait()
	go e.Report()
	synctest.Wait()
	e.Kill()
	synctest.Wait()
	if slow.killed.Load() == 0 {
		for _, p := range []string{"C11", "C13", "C28"} {
			w.r.Fail(p, "a worker of a dying engine is not stopped while its report is being made")
		}
	}
	close(gate)
	if err := e.Wait(); err != nil {
		w.r.Fail("C13", "Wait of a killed engine: %v", err)
	}
	time.Sleep(time.Second) // until the loops above have ended
}

// engkill kills an engine while manifolds are installed.
func (w *sprworld) engkill() {
	for round := 0; round < w.c.Rounds; round++ {
		boom := errors.New("boom")
		e := w.engine(nil, func(err error) bool { return errors.Is(err, boom) })
		n := w.c.N
		ls := make([]sprlife, n+1)
		var boss atomic.Pointer[sprwrk]
		_ = e.Install("boss", dependency.Manifold{Start: func(ctx context.Context, g dependency.Getter) (worker.Worker, error) {
			return w.startFn(&ls[n], nil, &boss)(ctx)
		}})
		synctest.Wait()
		var entered, waitSeq atomic.Int64
		var waited sync.WaitGroup
		waited.Add(1)
		go func() {
			defer waited.Done()
			err := e.Wait()
			waitSeq.Store(w.next())
			if w.c.Var&1 == 1 && !errors.Is(err, boom) || w.c.Var&1 == 0 && err != nil {
				w.r.Fail("C10", "Wait returned %v", err)
			}
		}()
		fs := []func(){func() {
			if w.c.Var&1 == 1 {
				boss.Load().end(boom)
			} else {
				e.Kill()
			}
		}}
		for i := 0; i < n; i++ {
			fs = append(fs, func() {
				in := []string{"boss"}
				if i > 0 && w.c.Var&2 == 2 {
					in = append(in, fmt.Sprint("m", i-1))
				}
				_ = e.Install(fmt.Sprint("m", i), dependency.Manifold{Inputs: in, Start: func(ctx context.Context, g dependency.Getter) (worker.Worker, error) {
					entered.Store(w.next())
					return w.startFn(&ls[i], nil, nil)(ctx)
				}})
				_ = e.Report()
			})
		}
		w.together(fs...)
		waited.Wait()
		live := 0
		for i := range ls {
			live += int(ls[i].live.Load())
		}
		if live > 0 {
			w.r.Fail("C09", "Wait returned while %d workers were running", live)
		}
		time.Sleep(time.Second)
		synctest.Wait()
		if entered.Load() > waitSeq.Load() {
			w.r.Fail("C09", "Start was called after Wait had returned")
		}
		if err := e.Install("late", w.manifold(&sprlife{})); err == nil {
			w.r.Fail("C09", "Install succeeded after the end")
		}
		if e.Report()["state"] != "stopped" {
			w.r.Fail("C11", "the engine's state after its end is %v", e.Report()["state"])
		}
	}
}

// engfatal ends several manifolds with fatal errors at once.
func (w *sprworld) engfatal() {
	for round := 0; round < w.c.Rounds; round++ {
		e := w.engine(func(a, b error) error {
			if srankOf(a) > srankOf(b) {
				return a
			}
			return b
		}, func(err error) bool { return srankOf(err) > 0 })
		n := w.c.N
		made := make([]atomic.Pointer[sprwrk], n)
		for i := range made {
			var in []string
			if i > 0 && w.c.Var&1 == 1 {
				in = []string{"m0"}
			}
			_ = e.Install(fmt.Sprint("m", i), dependency.Manifold{Inputs: in, Start: func(ctx context.Context, g dependency.Getter) (worker.Worker, error) {
				return w.startFn(&sprlife{}, srank{(i+round)%n + 1}, &made[i])(ctx)
			}})
			if i == 0 {
				synctest.Wait()
			}
		}
		time.Sleep(10 * time.Millisecond)
		synctest.Wait()
		if w.c.Var&2 == 2 {
			e.Kill()
		} else {
			w.each(n, func(i int) { made[i].Load().end(srank{(i+round)%n + 1}) })
		}
		if err := e.Wait(); srankOf(err) != n {
			w.r.Fail("C10", "Wait returned %v, the worst of the %d fatal errors is %v", err, n, srank{n})
		}
	}
}

// get calls one Start's getter from several goroutines.
func (w *sprworld) get() {
	e := w.engine(nil, nofatal)
	up := w.worker(nil)
	_ = e.Install("up", dependency.Manifold{
		Start: func(context.Context, dependency.Getter) (worker.Worker, error) { return up, nil },
		Output: func(in worker.Worker, out interface{}) error {
			*(out.(*worker.Worker)) = in
			return nil
		},
	})
	synctest.Wait()
	for round := 0; round < w.c.Rounds; round++ {
		in := []string{"up", "gone"}
		var during, late, undeclared, missing atomic.Int32
		var done sync.WaitGroup
		done.Add(1)
		_ = e.Install(fmt.Sprint("m", round), dependency.Manifold{Inputs: in, Start: func(ctx context.Context, g dependency.Getter) (worker.Worker, error) {
			defer done.Done()
			w.each(w.c.N, func(i int) {
				var got worker.Worker
				if err := g.Get("up", &got); err != nil || got != worker.Worker(up) {
					during.Add(1)
				}
				if err := g.Get("gone", &got); !errors.Is(err, dependency.ErrMissing) {
					missing.Add(1)
				}
				if err := g.Get("m0", nil); !errors.Is(err, dependency.ErrMissing) {
					undeclared.Add(1)
				}
			})
			done.Add(1)
			go func() {
				defer done.Done()
				time.Sleep(5 * time.Millisecond) // Start has certainly returned
				w.each(w.c.N, func(i int) {
					var got worker.Worker
					if err := g.Get("up", &got); err == nil || got != nil {
						late.Add(1)
					}
				})
			}()
			return w.startFn(&sprlife{}, nil, nil)(ctx)
		}})
		done.Wait()
		synctest.Wait()
		if n := during.Load(); n > 0 {
			w.r.Fail("C06", "%d of %d Get calls at once during Start did not give the running input", n, w.c.N)
		}
		if n := missing.Load() + undeclared.Load(); n > 0 {
			w.r.Fail("C06", "%d Get calls of a missing or undeclared name did not fail with ErrMissing", n)
		}
		if n := late.Load(); n > 0 {
			w.r.Fail("C06", "%d of %d Get calls at once after Start gave a worker", n, w.c.N)
		}
	}
	e.Kill()
	_ = e.Wait()
}

// graph restarts several manifolds of a small graph at once.
func (w *sprworld) graph() {
	e := w.engine(nil, nofatal)
	ins := [][]string{{}, {"0"}, {"0", "1"}, {"1"}, {"2", "3"}, {"0", "4"}}
	const n = 6
	ls := make([]sprlife, n)
	made := make([]atomic.Pointer[sprwrk], n)
	saw := make([]atomic.Pointer[[]worker.Worker], n)
	boom := errors.New("boom")
	order := []int{0, 1, 2, 3, 4, 5}
	if w.c.Var&1 == 1 {
		order = []int{5, 4, 3, 2, 1, 0}
	}
	for _, i := range order {
		_ = e.Install(fmt.Sprint(i), dependency.Manifold{
			Inputs: ins[i],
			Start: func(ctx context.Context, g dependency.Getter) (worker.Worker, error) {
				var got []worker.Worker
				for _, in := range ins[i] {
					var x worker.Worker
					_ = g.Get(in, &x)
					got = append(got, x)
				}
				saw[i].Store(&got)
				return w.startFn(&ls[i], nil, &made[i])(ctx)
			},
			Output: func(in worker.Worker, out interface{}) error {
				*(out.(*worker.Worker)) = in
				return nil
			},
			Filter: func(err error) error {
				if err == boom && w.c.Var&2 == 2 {
					return dependency.ErrBounce
				}
				return err
			},
		})
	}
	settle := func(what string) {
		time.Sleep(time.Second)
		synctest.Wait()
		for i := range ins {
			if ls[i].max.Load() > 1 {
				w.r.Fail("C01", "%s: %d workers of manifold %d at a time", what, ls[i].max.Load(), i)
				ls[i].max.Store(0)
			}
			s := made[i].Load()
			if s == nil || s.ended.Load() > 0 || ls[i].live.Load() != 1 {
				w.r.Fail("C04", "%s: manifold %d is not running", what, i)
				continue
			}
			for k, in := range ins[i] {
				var now worker.Worker
				for j := range ins {
					if fmt.Sprint(j) == in {
						now = made[j].Load()
					}
				}
				if got := *saw[i].Load(); got[k] != now {
					w.r.Fail("C02", "%s: the latest Start of manifold %d saw another worker of its input %s", what, i, in)
				}
			}
		}
	}
	settle("after the installs")
	for round := 0; round < w.c.Rounds; round++ {
		w.each(w.c.N, func(i int) {
			s := made[(i*(w.c.Var|1)+round)%n].Load()
			if s == nil {
				return
			}
			if (i+round)%2 == 0 {
				s.end(boom)
			} else {
				s.end(dependency.ErrBounce)
			}
		})
		if w.c.Var&4 == 4 {
			time.Sleep(time.Duration(round%3) * time.Millisecond)
			w.each(w.c.N, func(i int) {
				if s := made[(i+round*2)%n].Load(); s != nil {
					s.end(boom)
				}
			})
		}
		settle(fmt.Sprintf("after %d at once", w.c.N))
	}
	e.Kill()
	_ = e.Wait()
}

// ---- helpers ----

// dead calls Stop and Dead at once.
func (w *sprworld) dead() {
	boom := errors.New("boom")
	for round := 0; round < w.c.Rounds; round++ {
		s := w.worker(boom)
		var fs []func()
		for i := 0; i < w.c.N; i++ {
			fs = append(fs, func() {
				if (i+w.c.Var)%2 == 0 {
					if err := worker.Stop(s); err != boom || s.ended.Load() == 0 {
						w.r.Fail("C25", "Stop returned %v", err)
					}
					return
				}
				<-worker.Dead(s)
				if s.ended.Load() == 0 {
					w.r.Fail("C25", "the channel of Dead was closed before the worker had finished")
				}
			})
		}
		fs = append(fs, s.Kill)
		w.together(fs...)
		synctest.Wait()
	}
}

func init() {
	register(&Scenario{
		Name: "sprint",
		Gen:  genSprCase,
		New:  func() any { return new(SprCase) },
		Run:  runSprCase,
	})
}

// withSprints makes about a tenth of the check's cases sprints.
func withSprints(c *Check) {
	var scn []string
	for len(scn) < 9 {
		scn = append(scn, c.Scn...)
	}
	c.Scn = append(scn, "sprint")
	old := c.Nontrivial
	c.Nontrivial = func(k map[string]int) bool { return k["sprint"] > 0 || old(k) }
	c.Rule += "; or when calls were made at once in a sprint"
}
