package checks

import (
	"context"
	"errors"
	"fmt"
	"math"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/dependency"
	"pgregory.net/rapid"
)

// CfgCase is one configuration for an engine or a runner.
type CfgCase struct {
	Runner bool `json:"runner,omitempty"`
	// What is left out: for engines bits 0-5 IsFatal, WorstError, Clock,
	// Metrics, Logger, Filter; for runners IsFatal, ShouldRestart,
	// MoreImportant, Clock, Logger, Name.
	Nil    int    `json:"nil,omitempty"`
	Err    int64  `json:"err,omitempty"`
	Bounce int64  `json:"bounce,omitempty"`
	Reset  int64  `json:"reset,omitempty"`
	Max    int64  `json:"max,omitempty"`
	Factor int    `json:"factor,omitempty"`
	Delay  int    `json:"delay,omitempty"`  // runner: restart delay in µs
	Should bool   `json:"should,omitempty"` // runner: what ShouldRestart answers
	Fatal  bool   `json:"fatal,omitempty"`  // runner: what IsFatal answers
	Prefer bool   `json:"prefer,omitempty"` // runner: what MoreImportant answers
	Lives  [2]int `json:"lives"`            // runner: how long the two workers live, ms
	Late   [2]int `json:"late"`             // runner: how long they take to stop
}

var factors = []float64{0, 1, 1.5, 2, 1e300, math.Inf(1), math.MaxFloat64, 0.5, 0.9999999, -1, 1e-300, math.Inf(-1), math.Nextafter(1, 0), math.Nextafter(1, 2), math.NaN()}

func factorOK(f float64) bool { return f == 0 || f >= 1 }

func genCfgCase(t *rapid.T, _ string) any {
	c := &CfgCase{Runner: rapid.Bool().Draw(t, "runner")}
	for i := 0; i < 6; i++ {
		p := 6
		if c.Runner {
			p = 45
			if i == 5 {
				p = 8
			}
		}
		if prob(t, "nil", p) {
			c.Nil |= 1 << i
		}
	}
	d := func(l string) int64 {
		if prob(t, l+"neg", 7) {
			return pick(t, l, int64(-1), -int64(time.Second), math.MinInt64)
		}
		return pick(t, l, int64(0), 1, int64(time.Second), math.MaxInt64)
	}
	c.Err, c.Bounce, c.Reset, c.Max = d("err"), d("bounce"), d("reset"), d("max")
	c.Factor = rapid.IntRange(0, 6).Draw(t, "factor")
	if prob(t, "odd", 25) {
		c.Factor = rapid.IntRange(7, len(factors)-1).Draw(t, "oddfactor")
	}
	c.Delay = pick(t, "delay", 0, 0, 5000, 1000000, 400, 1, 2999999)
	c.Should, c.Fatal, c.Prefer = rapid.Bool().Draw(t, "should"), rapid.Bool().Draw(t, "fatal"), rapid.Bool().Draw(t, "prefer")
	c.Lives = [2]int{pick(t, "life", 10, 20, 50), pick(t, "life", 15, 25, 4000)}
	c.Late = [2]int{pick(t, "late", 0, 1, 100), pick(t, "late", 0, 1, 100)}
	return c
}

func (c *CfgCase) has(bit int) bool { return c.Nil&(1<<bit) == 0 }

// twiceClock makes every wait twice as long, which shows that it is used.
type twiceClock struct{}

func (twiceClock) Now() time.Time                         { return time.Now() }
func (twiceClock) After(d time.Duration) <-chan time.Time { return time.After(2 * d) }

type gmetrics struct{}

func (gmetrics) RecordStart(string) {}

type glogger struct{}

func (glogger) Tracef(string, ...interface{}) {}
func (glogger) Debugf(string, ...interface{}) {}
func (glogger) Infof(string, ...interface{})  {}
func (glogger) Errorf(string, ...interface{}) {}

func runCfgCase(t *testing.T, cc any, r *Res) {
	c := cc.(*CfgCase)
	bubble(t, r, func() []string { return []string{"C30"} }, func() {
		if c.Runner {
			c.runRunner(r)
		} else {
			c.runEngine(r)
		}
	})
}

func (c *CfgCase) runEngine(r *Res) {
	calls := 0
	cfg := dependency.EngineConfig{
		ErrorDelay: time.Duration(c.Err), BounceDelay: time.Duration(c.Bounce),
		BackoffFactor: factors[c.Factor], BackoffResetTime: time.Duration(c.Reset), MaxDelay: time.Duration(c.Max),
	}
	if c.has(0) {
		cfg.IsFatal = func(error) bool { calls++; return false }
	}
	if c.has(1) {
		cfg.WorstError = func(a, b error) error { calls++; return a }
	}
	if c.has(2) {
		cfg.Clock = realClock{}
	}
	if c.has(3) {
		cfg.Metrics = gmetrics{}
	}
	if c.has(4) {
		cfg.Logger = glogger{}
	}
	filtered := errors.New("filtered")
	if c.has(5) {
		cfg.Filter = func(error) error { return filtered }
	}
	valid := c.Nil&31 == 0 && c.Err >= 0 && c.Bounce >= 0 && c.Reset >= 0 && c.Max >= 0 && factorOK(cfg.BackoffFactor)
	if err := cfg.Validate(); (err == nil) != valid {
		r.Fail("C30", "EngineConfig.Validate returned %v, valid: %v", err, valid)
	}
	e, err := dependency.NewEngine(cfg)
	if (err == nil) != valid || (e != nil) != valid {
		r.Fail("C30", "NewEngine returned %v, %v; configuration valid: %v", e != nil, err, valid)
	}
	if calls > 0 {
		r.Fail("C30", "NewEngine called the configured functions")
	}
	if e == nil {
		r.Class("refused")
		return
	}
	r.Class("accepted")
	started := make(chan struct{}, 1)
	ierr := e.Install("m", dependency.Manifold{Start: func(ctx context.Context, g dependency.Getter) (worker.Worker, error) {
		started <- struct{}{}
		<-ctx.Done()
		return nil, ctx.Err()
	}})
	synctest.Wait()
	if ierr != nil || len(started) != 1 {
		r.Fail("C30", "a new engine does not work: Install returned %v, %d starts", ierr, len(started))
	}
	e.Kill()
	done := false
	go func() {
		werr := e.Wait()
		want := error(nil)
		if c.has(5) {
			want = filtered
		}
		if werr != want {
			r.Fail("C30", "Wait of a killed engine returned %v, want %v", werr, want)
		}
		done = true
	}()
	synctest.Wait()
	if !done {
		r.Fail("C30", "a killed engine does not finish")
	}
}

func (c *CfgCase) runRunner(r *Res) {
	t0 := time.Now()
	p := worker.RunnerParams{RestartDelay: time.Duration(c.Delay) * time.Microsecond}
	delay := p.RestartDelay
	if delay == 0 {
		delay = 3 * time.Second
	}
	if c.has(0) {
		p.IsFatal = func(error) bool { return c.Fatal }
	}
	if c.has(1) {
		p.ShouldRestart = func(error) bool { return c.Should }
	}
	if c.has(2) {
		p.MoreImportant = func(a, b error) bool { return c.Prefer }
	}
	if c.has(3) {
		p.Clock = twiceClock{}
		delay *= 2
	}
	if c.has(4) {
		p.Logger = glogger{}
	}
	if c.has(5) {
		p.Name = planNames[(c.Delay+c.Lives[0])%len(planNames)]
	}
	if err := p.Validate(); (err == nil) != c.has(5) {
		r.Fail("C30", "RunnerParams.Validate returned %v, has a name: %v", err, c.has(5))
	}
	rn, err := worker.NewRunner(p)
	if (err == nil) != c.has(5) || (rn != nil) != c.has(5) {
		r.Fail("C30", "NewRunner returned %v, %v; has a name: %v", rn != nil, err, c.has(5))
	}
	if rn == nil {
		r.Class("refused")
		return
	}
	r.Class("accepted")
	var mu sync.Mutex
	var starts [2][]time.Duration
	errs := [2]error{errors.New("first"), errors.New("second")}
	for i := range 2 {
		serr := rn.StartWorker(context.Background(), fmt.Sprint("w", i), func(context.Context) (worker.Worker, error) {
			mu.Lock()
			starts[i] = append(starts[i], time.Since(t0))
			mu.Unlock()
			k := &gwrk{killc: make(chan struct{}), dead: make(chan struct{})}
			go func() {
				select {
				case <-time.After(time.Duration(c.Lives[i]) * time.Millisecond):
				case <-k.killc:
					time.Sleep(time.Duration(c.Late[i]) * time.Millisecond)
				}
				k.err = errs[i]
				close(k.dead)
			}()
			return k, nil
		})
		if serr != nil {
			r.Fail("C30", "StartWorker on a new runner returned %v", serr)
		}
	}
	var waitT time.Duration
	var waitErr error
	done := make(chan struct{})
	go func() {
		waitErr = rn.Wait()
		waitT = time.Since(t0)
		close(done)
	}()
	synctest.Wait()
	time.Sleep(time.Minute - time.Millisecond/2)
	synctest.Wait()
	ms := func(n int) time.Duration { return time.Duration(n) * time.Millisecond }
	fatal := !c.has(0) || c.Fatal
	restart := !c.has(1) || c.Should
	finished := false
	select {
	case <-done:
		finished = true
	default:
	}
	switch {
	case fatal:
		r.Class("default-fatal")
		// Both fail; the first one to do so stops the other.
		a, b := 0, 1
		if c.Lives[1] < c.Lives[0] {
			a, b = 1, 0
		}
		end := ms(c.Lives[a] + c.Late[b])
		want := errs[a]
		if c.has(2) && c.Prefer {
			want = errs[b]
		}
		if !finished || waitErr != want || waitT != end {
			r.Fail("C30", "runner (IsFatal %v, MoreImportant %v) finished: %v at %v with %v, expected %v with %v", c.has(0), c.has(2), finished, waitT, waitErr, end, want)
		}
	case finished:
		r.Fail("C30", "runner finished by itself at %v with %v though nothing is fatal", waitT, waitErr)
	default:
		for i := range 2 {
			var want []time.Duration
			for s := time.Duration(0); s <= time.Minute-time.Millisecond/2 && (restart || len(want) == 0); s += ms(c.Lives[i]) + delay {
				want = append(want, s)
			}
			mu.Lock()
			got := append([]time.Duration(nil), starts[i]...)
			mu.Unlock()
			if fmt.Sprint(got) != fmt.Sprint(want) {
				r.Fail("C30", "worker %d (delay %v, ShouldRestart set %v and true %v, own clock %v) was started at %v, expected %v", i, p.RestartDelay, c.has(1), c.Should, c.has(3), head(got), head(want))
			}
		}
		r.Class("default-restart")
	}
	rn.Kill()
	time.Sleep(time.Minute)
	synctest.Wait()
	select {
	case <-done:
	default:
		r.Fail("C30", "a killed runner does not finish")
	}
}

func head(ts []time.Duration) []time.Duration {
	if len(ts) > 6 {
		return ts[:6]
	}
	return ts
}

type gwrk struct {
	once  sync.Once
	killc chan struct{}
	dead  chan struct{}
	err   error
}

func (k *gwrk) Kill()       { k.once.Do(func() { close(k.killc) }) }
func (k *gwrk) Wait() error { <-k.dead; return k.err }

func init() {
	register(&Scenario{Name: "config", Gen: genCfgCase, New: func() any { return &CfgCase{} }, Run: runCfgCase})
	addCheck("C30", "configurations of engines and runners with settings left out or out of range; non-trivial when one was refused or the omitted settings were judged by a small history", func(c map[string]int) bool {
		return c["refused"]+c["accepted"]+c["default-fatal"]+c["default-restart"] > 0
	}, "config")
}
