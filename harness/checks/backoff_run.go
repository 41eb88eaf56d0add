package checks

import (
	"context"
	"fmt"
	"math"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/dependency"
	"pgregory.net/rapid"
)

// Series of consecutive failures of one manifold under a clock that jumps:
// every After fires at once and moves the clock, so that delays of centuries
// can be observed exactly.

// BItem is one run of the manifold.
type BItem struct {
	K    int   `json:"k"`              // 0 Start fails, 1 Start bounces, 2 worker fails, 3 worker bounces
	W    bool  `json:"w,omitempty"`    // the error is wrapped
	Life int64 `json:"life,omitempty"` // ns the worker lives (2, 3) or Start takes (0, 1)
}

// BCase is one series.
type BCase struct {
	ErrorDelay  int64   `json:"errordelay"`
	BounceDelay int64   `json:"bouncedelay"`
	Factor      float64 `json:"factor"`
	MaxDelay    int64   `json:"maxdelay"`
	Reset       int64   `json:"reset"`
	Items       []BItem `json:"items"`
	Repeat      int     `json:"repeat,omitempty"` // further times the items are gone through
}

func genBCase(t *rapid.T, focus string) any {
	c := &BCase{}
	const (
		ms = int64(time.Millisecond)
		y  = int64(365 * 24 * time.Hour)
	)
	c.ErrorDelay = pick(t, "ed", 10*ms, 0, 1*ms, 3000*ms, 3600000*ms, y, 100*y, 280*y, 1, 1500000)
	c.BounceDelay = pick(t, "bd", 10*ms, 0, 1*ms, 3000*ms, 3600000*ms, y, 100*y, 280*y)
	c.Factor = pick(t, "bf", 2, 0, 1, 1.1, 1.5, 3, 10, 1e6, 1e300)
	if c.Factor > 0 {
		c.MaxDelay = pick(t, "md", 0, 0, 60000*ms, 1*ms, 3600000*ms, 200*y, 290*y)
	}
	c.Reset = pick(t, "rt", 1000*ms, 0, 1, 60000*ms, y)
	n := rapid.IntRange(1, 12).Draw(t, "n")
	if prob(t, "long", 30) {
		n = rapid.IntRange(30, 90).Draw(t, "nl")
	}
	style := rapid.IntRange(0, 2).Draw(t, "style")
	for i := 0; i < n; i++ {
		it := BItem{W: prob(t, "w", 25)}
		switch style {
		case 0:
			it.K = rapid.IntRange(0, 3).Draw(t, "k")
		case 1:
			it.K = pick(t, "k1", 0, 0, 0, 2)
		default:
			it.K = pick(t, "k2", 2, 2, 3, 3, 0)
		}
		if it.K >= 2 {
			it.Life = pick(t, "life", 0, 1, c.Reset-1, c.Reset/2, c.Reset, c.Reset+1, c.Reset*3)
			if prob(t, "shortlife", 60) {
				it.Life = c.Reset / 2
			}
			if it.Life < 0 {
				it.Life = 0
			}
		} else if prob(t, "slow", 20) {
			it.Life = pick(t, "slowness", c.Reset/2, c.Reset, c.Reset*3)
		}
		c.Items = append(c.Items, it)
	}
	if prob(t, "again", 20) {
		c.Repeat = pick(t, "repeat", 3, 12, 30, 120)
	}
	return c
}

// jumpClock fires every alarm at once and moves forward by its delay.
type jumpClock struct {
	mu    sync.Mutex
	t     time.Time
	delta float64 // ns asked for since mark
	bad   []time.Duration
}

func (k *jumpClock) Now() time.Time {
	k.mu.Lock()
	defer k.mu.Unlock()
	return k.t
}

func (k *jumpClock) After(d time.Duration) <-chan time.Time {
	k.mu.Lock()
	defer k.mu.Unlock()
	if d < 0 {
		k.bad = append(k.bad, d)
	} else {
		k.t = k.t.Add(d)
	}
	k.delta += float64(d)
	ch := make(chan time.Time, 1)
	ch <- k.t
	return ch
}

func (k *jumpClock) jump(d time.Duration) {
	k.mu.Lock()
	k.t = k.t.Add(d)
	k.mu.Unlock()
}

func (k *jumpClock) mark() {
	k.mu.Lock()
	k.delta = 0
	k.mu.Unlock()
}

func (k *jumpClock) since() (float64, []time.Duration) {
	k.mu.Lock()
	defer k.mu.Unlock()
	return k.delta, k.bad
}

type bwrk struct {
	killc chan struct{}
	once  sync.Once
	dead  chan struct{}
	err   error
}

func newBwrk() *bwrk { return &bwrk{killc: make(chan struct{}), dead: make(chan struct{})} }

func (b *bwrk) Kill()       { b.once.Do(func() { close(b.killc) }) }
func (b *bwrk) Wait() error { <-b.dead; return b.err }

// lineLogger keeps what operators get to see.
type lineLogger struct {
	nullLogger
	mu    sync.Mutex
	lines []logLine
}

func (l *lineLogger) keep(level, f string, a []interface{}) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.lines = append(l.lines, logLine{level, fmt.Sprintf(f, a...)})
}
func (l *lineLogger) Infof(f string, a ...interface{})  { l.keep("info", f, a) }
func (l *lineLogger) Errorf(f string, a ...interface{}) { l.keep("error", f, a) }

type nullLogger struct{}

func (nullLogger) Tracef(string, ...interface{})   {}
func (nullLogger) Debugf(string, ...interface{})   {}
func (nullLogger) Infof(string, ...interface{})    {}
func (nullLogger) Errorf(string, ...interface{})   {}
func (nullLogger) Warningf(string, ...interface{}) {}

func runBCase(t *testing.T, cc any, r *Res) {
	c := cc.(*BCase)
	bubble(t, r, func() []string { return []string{"C04", "C05"} }, func() {
		logs := &lineLogger{}
		var ws logWants
		clk := &jumpClock{t: time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)}
		e, err := dependency.NewEngine(dependency.EngineConfig{
			IsFatal:          func(error) bool { return false },
			WorstError:       func(a, b error) error { return a },
			ErrorDelay:       time.Duration(c.ErrorDelay),
			BounceDelay:      time.Duration(c.BounceDelay),
			BackoffFactor:    c.Factor,
			BackoffResetTime: time.Duration(c.Reset),
			MaxDelay:         time.Duration(c.MaxDelay),
			Clock:            clk,
			Metrics:          dependency.DefaultMetrics(),
			Logger:           logs,
		})
		if err != nil {
			r.Fail("C05", "NewEngine refused a valid configuration: %v", err)
			return
		}
		total := len(c.Items) * (1 + c.Repeat)
		if total > 4000 {
			total = 4000
		}
		done := make(chan struct{})
		k, n := 0, 0 // index of the next run; consecutive failures so far
		base := int64(0)
		mkErr := func(it BItem, id int) error {
			if it.K == 1 || it.K == 3 {
				return SErr{K: kBounce, W: it.W}.make(id)
			}
			err := SErr{K: kPlain, R: 3 * b2i(id%5 == 1), W: it.W}.make(id)
			level := "error"
			if strings.Contains(err.Error(), "try again") {
				level = "info"
			}
			r.Class("logged-" + level)
			ws.add("m", err.Error(), level, "", true)
			return err
		}
		settle := func(it BItem, started bool) {
			if started && it.Life >= c.Reset {
				n = 1
			} else {
				n++
			}
			base = c.ErrorDelay
			if it.K == 1 || it.K == 3 {
				base = c.BounceDelay
			}
			clk.mark()
		}
		judge := func() {
			d, bad := clk.since()
			if len(bad) > 0 {
				r.Fail("C05", "run %d: the engine asked for a negative delay %v", k, bad)
			}
			if k == 0 {
				if d != 0 {
					r.Fail("C05", "first Start delayed by %v ns", d)
				}
				return
			}
			v := float64(base)
			if c.Factor > 0 && v > 0 {
				v *= math.Pow(c.Factor, float64(n-1))
				if c.MaxDelay > 0 && v > float64(c.MaxDelay) {
					v = float64(c.MaxDelay)
				}
				if n > 1 && c.Factor > 1 {
					r.Class("timed-backoff")
					if n > 128 {
						r.Class("series-over-128")
					}
				}
			}
			r.Class("timed-restart")
			r.Class("restart")
			lo, hi := math.Min(v, math.MaxInt64)*0.9-1e6, v*1.1+1e6
			if v >= math.MaxInt64 {
				r.Class("delay-beyond-int64")
			}
			if v == 0 {
				lo, hi = 0, 0
			}
			if d < lo || d > hi {
				r.Fail("C05", "run %d after %d consecutive failures: delay %.6g s, want within [%.6g, %.6g] s", k, n, d/1e9, lo/1e9, hi/1e9)
			}
		}
		err = e.Install("m", dependency.Manifold{Start: func(ctx context.Context, _ dependency.Getter) (worker.Worker, error) {
			judge()
			id := k
			k++
			w := newBwrk()
			if id >= total {
				if id == total {
					close(done)
				}
				go func() { <-w.killc; close(w.dead) }()
				return w, nil
			}
			it := c.Items[id%len(c.Items)]
			if it.K < 2 {
				clk.jump(time.Duration(it.Life))
				settle(it, false)
				return nil, mkErr(it, id)
			}
			go func() {
				time.Sleep(time.Millisecond) // of the bubble: the engine has noticed the start
				clk.jump(time.Duration(it.Life))
				settle(it, true)
				w.err = mkErr(it, id)
				close(w.dead)
			}()
			return w, nil
		}})
		if err != nil {
			r.Fail("C05", "Install: %v", err)
		}
		tm := time.NewTimer(time.Hour)
		select {
		case <-done:
		case <-tm.C:
			r.Fail("C05", "the manifold was not restarted after run %d", k)
			r.Fail("C04", "a failed manifold was not restarted after run %d", k)
		}
		tm.Stop()
		e.Kill()
		if err := e.Wait(); err != nil {
			r.Fail("C05", "Wait: %v", err)
		}
		if k > total && total <= 400 {
			judgeLog(logs.lines, &ws, func(format string, args ...any) { r.Fail("C31", "series: "+format, args...) })
		}
		r.Trace = append(r.Trace, fmt.Sprintf("%d runs", k))
	})
}

func init() {
	register(&Scenario{Name: "backoff", Gen: genBCase, New: func() any { return &BCase{} }, Run: runBCase})
}
