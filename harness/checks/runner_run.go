package checks

import (
	"context"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	jerrors "github.com/juju/errors"
	"github.com/juju/worker/v4"
	"pgregory.net/rapid"
)

// RAtt scripts one call of a start function and the worker it makes.
type RAtt struct {
	Delay  int  `json:"delay,omitempty"`
	Mode   int  `json:"mode,omitempty"` // 0 ignore ctx, 1 honour ctx, 2 block until ctx is done
	Err    SErr `json:"err,omitempty"`
	CErr   SErr `json:"cerr,omitempty"` // result when ctx is done first (nil: make a worker nevertheless)
	Goexit bool `json:"goexit,omitempty"`
	Life   int  `json:"life,omitempty"`
	Exit   SErr `json:"exit,omitempty"`
	Kill   int  `json:"kill,omitempty"`
	KErr   SErr `json:"kerr,omitempty"`
	Sub    *ROp `json:"sub,omitempty"` // a call made from inside the start function
}

// ROp is one step of the driving history.
type ROp struct {
	Op    string `json:"op"`
	ID    int    `json:"id,omitempty"`
	Spec  int    `json:"spec,omitempty"`
	MS    int    `json:"ms,omitempty"`    // kill: if not 0, every id is looked up as soon as Kill has returned
	Abort int    `json:"abort,omitempty"` // 0 none, -1 aborted before the call, else the abort channel is closed after that many ms
	Ctx   int    `json:"ctx,omitempty"`   // start: parent context is cancelled after that many ms (0 never)
	Odd   int    `json:"odd,omitempty"`   // start: kind of the context, see oddCtx
	E     SErr   `json:"e,omitempty"`
	Async bool   `json:"async,omitempty"`
	Then  *ROp   `json:"then,omitempty"` // done by the same goroutine as soon as this has returned
}

// RCase is one runner history.
type RCase struct {
	Delay   int      `json:"delay"`
	Fatal   int      `json:"fatal"`   // 0 kFatal, 1 nil, 2 none
	Restart int      `json:"restart"` // 0 nil, 1 all but kCustom, 2 never
	Imp     int      `json:"imp"`     // 0 nil, 1 by rank
	Gosched int      `json:"gosched,omitempty"`
	Names   int      `json:"names,omitempty"` // style of the ids
	Same    bool     `json:"same,omitempty"`  // all fatal errors have the same text
	Specs   [][]RAtt `json:"specs"`
	Ops     []ROp    `json:"ops"`
}

const nIDs = 4

func rid(i int) string { return styled("w", i) }

func (c *RCase) fatal(err error) bool {
	if err == nil {
		return false
	}
	switch c.Fatal {
	case 0:
		return kindOf(err) == kFatal
	case 1:
		return true
	}
	return false
}

func (c *RCase) restart(err error) bool {
	if err == nil || c.fatal(err) {
		return false
	}
	switch c.Restart {
	case 0:
		return true
	case 1:
		return kindOf(err) != kCustom
	}
	return false
}

func (c *RCase) delay() time.Duration {
	if c.Delay == 0 {
		return 3 * time.Second
	}
	return time.Duration(c.Delay) * time.Millisecond
}

func genRErr(t *rapid.T, pNil, pFatal int) SErr {
	k := pct(t, "ek")
	e := SErr{R: rapid.IntRange(0, 3).Draw(t, "er")}
	switch {
	case k < pNil:
		return SErr{}
	case k < pNil+pFatal:
		e.K = kFatal
	case k < pNil+pFatal+15:
		e.K = kCustom
	default:
		e.K = kPlain
	}
	e.W = prob(t, "ew", 15)
	if !e.W {
		e.P = pick(t, "ep", 0, 0, 0, 0, 0, 0, 1, 2, 4)
	}
	if e.K == kPlain && prob(t, "ebare", 12) {
		e.P = 3
	}
	return e
}

func genRCase(t *rapid.T, focus string) any {
	c := &RCase{}
	c.Delay = pick(t, "delay", 10, 10, 20, 1, 1000, 0)
	c.Fatal = pick(t, "fatal", 0, 0, 0, 0, 1, 2)
	c.Restart = pick(t, "restart", 1, 1, 0, 0, 2)
	c.Imp = pick(t, "imp", 1, 0)
	c.Gosched = pick(t, "gs", 0, 1, 2, 5)
	c.Names = pick(t, "names", 0, 0, 0, 1, 2, 3)
	c.Same = focus == "C18" && prob(t, "sametext", 40)
	pFatal, pCtx, pLate := 4, 12, 4
	switch focus {
	case "C29":
		pCtx = 60
	case "C18", "C17":
		pFatal, pLate = 14, 14
		if focus == "C18" {
			// Most ties are among the errors of those that are stopped.
			pLate = 40
		}
		if focus == "C18" && prob(t, "all", 15) {
			c.Fatal = 1
		}
	}
	ms := func(l string) int { return far(t, l, pick(t, l, 0, 0, 1, 5, 10, 10, 20, 30, 100, 3000)) }
	genOp := func(sub bool) ROp {
		op := ROp{ID: rapid.IntRange(0, nIDs-1).Draw(t, "id"), Async: prob(t, "async", 40)}
		if prob(t, "same", 40) {
			op.ID = 0
		}
		k := pct(t, "opk")
		switch {
		case k < 25:
			op.Op, op.Spec = "start", rapid.IntRange(0, 5).Draw(t, "sp")
			if prob(t, "pctx", pCtx) {
				op.Ctx = pick(t, "ctxms", 5, 1, 10, 100)
			}
			op.Odd = pick(t, "odd", 0, 0, 0, 1, 2)
		case k < 38:
			op.Op = "stop"
		case k < 54:
			op.Op = "stopremove"
			if prob(t, "ab", 50) {
				op.Abort = pick(t, "abms", 5, 1, 10, 20, 100, -1)
			}
		case k < 74:
			op.Op = "worker"
			if prob(t, "ab", 50) {
				op.Abort = pick(t, "abms", 5, 1, 10, 20, 100, -1)
			}
		case k < 94:
			op.Op, op.E = "exit", genRErr(t, 25, pFatal)
		case k < 97:
			op.Op = "report"
		default:
			op.Op = "report"
			if !sub && prob(t, "dokill", 40) {
				op.Op, op.MS = "kill", pick(t, "look", 0, 1)
			}
		}
		if !sub && prob(t, "then", 25) {
			n := &op
			for i := 0; i < 2 && (i == 0 || prob(t, "then2", 40)); i++ {
				n.Then = &ROp{Op: pick(t, "thenop", "start", "worker", "names", "stop", "stopremove", "report"), ID: op.ID, Spec: rapid.IntRange(0, 5).Draw(t, "tsp")}
				if n = n.Then; n.Op == "worker" || n.Op == "stopremove" {
					n.Abort = pick(t, "tab", 0, 0, 1, 10, 100, -1)
				}
			}
		}
		return op
	}
	nspec := rapid.IntRange(1, 6).Draw(t, "nspec")
	for i := 0; i < nspec; i++ {
		var atts []RAtt
		n := rapid.IntRange(0, 3).Draw(t, "natt")
		for j := 0; j < n; j++ {
			a := RAtt{Delay: ms("sd"), Mode: pick(t, "mode", 0, 0, 1, 1, 2)}
			if a.Mode == 2 && !prob(t, "m2", 30) {
				a.Mode = 1
			}
			if prob(t, "serr", 35) {
				a.Err = genRErr(t, 0, pFatal)
			}
			if prob(t, "cerr", 50) {
				a.CErr = genRErr(t, 0, pFatal)
			}
			a.Goexit = prob(t, "goexit", 4)
			if prob(t, "life", 50) {
				a.Life = far(t, "lifems", pick(t, "lifems", 10, 1, 5, 20, 50, -1))
				a.Exit = genRErr(t, 20, pFatal)
			}
			a.Kill = far(t, "kd", pick(t, "kd", 0, 0, 1, 5, 10, 20, 100))
			if prob(t, "kerr", 50) {
				a.KErr = genRErr(t, 10, pLate)
			}
			if prob(t, "sub", 8) {
				op := genOp(true)
				if op.Op == "exit" {
					op.Op = "report"
				}
				if op.Op == "stopremove" || op.Op == "worker" {
					op.Async = true
				}
				a.Sub = &op
			}
			atts = append(atts, a)
		}
		c.Specs = append(c.Specs, atts)
	}
	n0 := rapid.IntRange(1, nIDs).Draw(t, "n0")
	for i := 0; i < n0; i++ {
		c.Ops = append(c.Ops, ROp{Op: "start", ID: i, Spec: rapid.IntRange(0, nspec-1).Draw(t, "sp"), Async: prob(t, "async", 20)})
	}
	nops := rapid.IntRange(1, 16).Draw(t, "nops")
	for i := 0; i < nops; i++ {
		if prob(t, "sl", 40) {
			c.Ops = append(c.Ops, ROp{Op: "sleep", MS: ms("slms")})
			continue
		}
		c.Ops = append(c.Ops, genOp(false))
		if focus == "C19" && prob(t, "burst", 15) {
			c.Ops = append(c.Ops, ROp{Op: "burst", ID: c.Ops[len(c.Ops)-1].ID, Spec: rapid.IntRange(0, 1).Draw(t, "bm")})
		}
	}
	if prob(t, "settle", 60) {
		c.Ops = append(c.Ops, ROp{Op: "settle"})
	}
	return c
}

// ---- world ----

type ratt struct {
	l        *rlife
	idx      int
	sc       RAtt
	ctx      context.Context
	tEnter   time.Duration
	seqEnter int
	returned bool
	tRet     time.Duration
	seqRet   int
	err      error // error of the start function (errGoexit for Goexit)
	w        *rwrk
	ctxT     time.Duration
	ctxSeq   int
	stopCtx  func() bool
}

var errGoexit = simErr{kPlain, -1, -77}

func (a *ratt) ended() bool {
	return a.returned && (a.err != nil || a.w.finSeq > 0)
}
func (a *ratt) tEnd() time.Duration {
	if a.err != nil {
		return a.tRet
	}
	return a.w.finT
}
func (a *ratt) seqEnd() int {
	if a.err != nil {
		return a.seqRet
	}
	return a.w.finSeq
}
func (a *ratt) endErr() error {
	if a.err != nil {
		return a.err
	}
	return a.w.err
}

// rlife is one StartWorker call.
type rlife struct {
	n       int
	id      int
	spec    int
	callT   time.Duration
	callSeq int
	ret     bool
	retSeq  int
	retT    time.Duration
	err     error
	atts    []*ratt
	ctxT    time.Duration // when the parent context was cancelled, -1 never
}

func (l *rlife) ok() bool { return l.ret && l.err == nil }
func (l *rlife) last() *ratt {
	if len(l.atts) == 0 {
		return nil
	}
	return l.atts[len(l.atts)-1]
}

// rcall is one Worker, StopWorker or StopAndRemoveWorker call.
type rcall struct {
	kind    string
	id      int
	quiet   bool
	callT   time.Duration
	callSeq int
	ret     bool
	retT    time.Duration
	retSeq  int
	abortT  time.Duration // -1 never

	preAbort bool // aborted before the call
	w        worker.Worker
	err      error

	named, reported, judged bool // names: whether the id was listed
}

func (c *rcall) String() string {
	return fmt.Sprintf("%s(%s) called at %v", c.kind, rid(c.id), c.callT)
}

type rwrk struct {
	rw              *rworld
	a               *ratt
	id              int
	killc           chan struct{}
	exitc           chan error
	dead            chan struct{}
	err             error
	killT           time.Duration
	killSeq, finSeq int
	finT            time.Duration
	kills           int
}

func (k *rwrk) Kill() {
	k.rw.gosched()
	k.rw.mu.Lock()
	k.kills++
	first := k.killSeq == 0
	if first {
		k.killT = k.rw.now()
		k.killSeq = k.rw.ev("kill %s#%d", rid(k.a.l.id), k.id)
	}
	k.rw.mu.Unlock()
	if first {
		close(k.killc)
	}
}

func (k *rwrk) Wait() error {
	<-k.dead
	k.rw.gosched()
	return k.err
}

// mute tells that the worker is handed over without its Report method.
func (k *rwrk) mute() bool { return k.id%5 == 3 }

func (k *rwrk) Report() map[string]interface{} { return map[string]interface{}{"inst": k.id} }

func (k *rwrk) run() {
	sc := k.a.sc
	var life <-chan time.Time
	if sc.Life > 0 {
		tm := time.NewTimer(time.Duration(sc.Life) * time.Millisecond)
		defer tm.Stop()
		life = tm.C
	} else if sc.Life < 0 {
		c := make(chan time.Time, 1)
		c <- time.Time{}
		life = c // finished before it is handed over
	}
	var err error
	select {
	case <-life:
		err = sc.Exit.make(k.rw.newID())
	case err = <-k.exitc:
	case <-k.killc:
		if sc.Kill > 0 {
			select {
			case <-time.After(time.Duration(sc.Kill) * time.Millisecond):
			case <-k.rw.closing:
			}
		}
		err = sc.KErr.make(k.rw.newID())
	case <-k.rw.closing:
	}
	k.rw.mu.Lock()
	k.err = err
	k.finT = k.rw.now()
	k.finSeq = k.rw.ev("finish %s#%d err=%v", rid(k.a.l.id), k.id, err)
	k.rw.mu.Unlock()
	close(k.dead)
}

type rworld struct {
	mu      sync.Mutex
	c       *RCase
	r       *Res
	t0      time.Time
	seq     int
	ids     int
	gs      uint32
	trace   []string
	closing chan struct{}
	closed  bool
	runner  *worker.Runner
	lives   []*rlife
	calls   []*rcall
	killT   time.Duration
	killSeq int
	killRet int // when Kill has first returned

	waitDone bool
	waitErr  error
	waitT    time.Duration
	waitSeq  int

	logs    []logLine
	nAtts   int
	runaway bool
	busy    int // concurrent calls made without waiting since the last quiet point
}

func (w *rworld) now() time.Duration { return time.Since(w.t0) }

func (w *rworld) ev(format string, args ...any) int {
	w.seq++
	if len(w.trace) < 3000 {
		w.trace = append(w.trace, fmt.Sprintf("%4d %10v ", w.seq, w.now())+fmt.Sprintf(format, args...))
	}
	return w.seq
}

func (w *rworld) newID() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.ids++
	return w.ids
}

func (w *rworld) fail(prop, format string, args ...any) { w.r.Fail(prop, format, args...) }

func (w *rworld) gosched() {
	if w.c.Gosched == 0 {
		return
	}
	w.mu.Lock()
	w.gs = w.gs*1664525 + 1013904223
	n := int(w.gs>>24) % (w.c.Gosched + 1)
	w.mu.Unlock()
	for i := 0; i < n; i++ {
		runtime.Gosched()
	}
}

// rclock is real time with other goroutines let in between.
type rclock struct{ w *rworld }

func (c rclock) Now() time.Time { c.w.gosched(); return time.Now() }
func (c rclock) After(d time.Duration) <-chan time.Time {
	c.w.gosched()
	return time.After(d)
}

type rlogger struct{ w *rworld }

func (l rlogger) Debugf(string, ...interface{}) { l.w.gosched() }
func (l rlogger) Infof(string, ...interface{})  { l.w.gosched() }
func (l rlogger) Errorf(f string, a ...interface{}) {
	w := l.w
	w.mu.Lock()
	if len(w.logs) < 3000 {
		w.logs = append(w.logs, logLine{"error", fmt.Sprintf(f, a...)})
	}
	w.mu.Unlock()
	w.gosched()
}

// stackErr is an error that comes with a stack, from a panic or not.
type stackErr struct {
	simErr
	panicked bool
}

func (e stackErr) Unwrap() error        { return e.simErr }
func (e stackErr) Panicked() bool       { return e.panicked }
func (e stackErr) StackTrace() []string { return []string{"stacktrace:", e.frame()} }
func (e stackErr) frame() string        { return fmt.Sprintf("frame.go:%d", e.ID) }

type rkey struct{}

// startFn is the start function of one StartWorker call.
func (w *rworld) startFn(l *rlife) worker.StartFunc {
	return func(ctx context.Context) (worker.Worker, error) {
		w.gosched()
		w.mu.Lock()
		a := &ratt{l: l, idx: len(l.atts), ctx: ctx, tEnter: w.now()}
		a.seqEnter = w.ev("start %s (call %d, attempt %d)", rid(l.id), l.n, a.idx)
		for _, o := range w.lives {
			if o.id != l.id {
				continue
			}
			for _, p := range o.atts {
				if !p.ended() {
					w.fail("C14", "start function of %s called at %v while the run begun at %v (call %d) has not finished", rid(l.id), a.tEnter, p.tEnter, o.n)
				}
			}
		}
		if l.ret && l.err != nil {
			w.fail("C14", "start function of %s called although StartWorker failed: %v", rid(l.id), l.err)
		}
		if w.waitDone {
			w.fail("C17", "start function of %s called after Wait returned", rid(l.id))
		}
		l.atts = append(l.atts, a)
		w.nAtts++
		if w.nAtts > 3000 && !w.runaway {
			w.runaway = true
			w.fail("C15", "more than 3000 calls of start functions")
		}
		if a.idx < len(w.c.Specs[l.spec]) {
			a.sc = w.c.Specs[l.spec][a.idx]
		} else {
			a.sc = RAtt{Mode: 1}
		}
		hold := w.runaway || w.closed
		w.mu.Unlock()
		if got := ctx.Value(rkey{}); a.idx == 0 && got != l.n {
			w.fail("C29", "the context of the start function of %s lacks the value of the context given to StartWorker: %v", rid(l.id), got)
		}
		if ctx.Err() != nil {
			w.mu.Lock()
			a.ctxT, a.ctxSeq = w.now(), w.ev("ctxdone %s attempt %d already", rid(l.id), a.idx)
			w.mu.Unlock()
		}
		a.stopCtx = context.AfterFunc(ctx, func() {
			w.mu.Lock()
			defer w.mu.Unlock()
			if a.ctxSeq == 0 {
				a.ctxT = w.now()
				a.ctxSeq = w.ev("ctxdone %s attempt %d", rid(l.id), a.idx)
			}
		})
		if hold {
			<-w.closing
			return nil, w.startRet(a, simErr{kPlain, 0, -1}, nil)
		}
		sc := a.sc
		w.mu.Lock()
		few := len(w.lives) < 30
		w.mu.Unlock()
		if sc.Sub != nil && few {
			if sc.Sub.Async {
				go w.do(*sc.Sub, false)
			} else {
				w.do(*sc.Sub, false)
			}
		}
		cancelled := false
		var dl <-chan time.Time
		var cd <-chan struct{}
		if sc.Mode != 2 {
			if sc.Delay > 0 {
				dl = time.After(time.Duration(sc.Delay) * time.Millisecond)
			} else {
				c := make(chan time.Time, 1)
				c <- time.Time{}
				dl = c
			}
		}
		if sc.Mode != 0 {
			cd = ctx.Done()
		}
		select {
		case <-dl:
		case <-cd:
			cancelled = true
		case <-w.closing:
		}
		err := sc.Err.make(w.newID())
		if cancelled {
			err = sc.CErr.make(w.newID())
		}
		if err != nil {
			return nil, w.startRet(a, err, nil)
		}
		if sc.Goexit {
			w.startRet(a, errGoexit, nil)
			w.r.Class("goexit")
			runtime.Goexit()
		}
		k := &rwrk{rw: w, a: a, id: w.newID(), killc: make(chan struct{}), exitc: make(chan error, 1), dead: make(chan struct{})}
		w.startRet(a, nil, k)
		if sc.Life < 0 {
			k.run()
		} else {
			go k.run()
		}
		return dressed(k, k.id, k.killc, k.dead), nil
	}
}

func (w *rworld) startRet(a *ratt, err error, k *rwrk) error {
	w.mu.Lock()
	defer w.mu.Unlock()
	a.returned, a.tRet, a.err, a.w = true, w.now(), err, k
	if k != nil {
		a.seqRet = w.ev("startret %s attempt %d worker #%d", rid(a.l.id), a.idx, k.id)
	} else {
		a.seqRet = w.ev("startret %s attempt %d err=%v", rid(a.l.id), a.idx, err)
	}
	return err
}

// ---- operations ----

// do makes one call in the current goroutine and records it. quiet tells that
// the world was at rest when it was made and nothing else runs beside it.
func (w *rworld) do(op ROp, quiet bool) {
	w.doOne(op, quiet)
	for n := op.Then; n != nil; n = n.Then {
		w.mu.Lock()
		closed := w.closed || w.runaway
		w.mu.Unlock()
		if closed {
			return
		}
		w.doOne(*n, false)
	}
}

func (w *rworld) doOne(op ROp, quiet bool) {
	id := op.ID % nIDs
	switch op.Op {
	case "start":
		w.mu.Lock()
		l := &rlife{n: len(w.lives), id: id, spec: op.Spec % len(w.c.Specs), callT: w.now(), ctxT: -1}
		exp := ""
		if quiet {
			exp = w.expectStart(id)
		}
		l.callSeq = w.ev("StartWorker %s (call %d, spec %d)", rid(id), l.n, l.spec)
		w.lives = append(w.lives, l)
		closing := w.closing
		w.mu.Unlock()
		ctx := context.WithValue(context.Background(), rkey{}, l.n)
		if op.Ctx > 0 {
			c2, cancel := context.WithCancel(ctx)
			l.ctxT = w.now() + time.Duration(op.Ctx)*time.Millisecond
			go func() {
				select {
				case <-time.After(time.Duration(op.Ctx) * time.Millisecond):
				case <-closing:
				}
				cancel()
			}()
			ctx = c2
		}
		err := w.runner.StartWorker(oddCtx(ctx, op.Odd), rid(id), w.startFn(l))
		w.mu.Lock()
		defer w.mu.Unlock()
		l.ret, l.err, l.retT = true, err, w.now()
		l.retSeq = w.ev("StartWorker call %d returned %v", l.n, err)
		if l.retT != l.callT {
			w.fail("C14", "StartWorker(%s) called at %v returned only at %v", rid(id), l.callT, l.retT)
		}
		switch {
		case err == nil, answerIs(err, jerrors.AlreadyExists):
		case answerIs(err, worker.ErrDead):
			if _, dying := w.dying(); !dying {
				w.fail("C14", "StartWorker(%s) on a running runner returned %v", rid(id), err)
			}
		default:
			w.fail("C14", "StartWorker(%s) returned %v", rid(id), err)
		}
		if err != nil && len(l.atts) > 0 {
			w.fail("C14", "StartWorker(%s) failed (%v) but its function was called", rid(id), err)
		}
		for _, o := range w.calls {
			if o.id != id || !o.removed() || o.retSeq > l.callSeq || w.startedAgain(o, l.retSeq, l) {
				continue
			}
			w.r.Class("start-after-remove")
			if answerIs(err, jerrors.AlreadyExists) {
				w.fail("C16", "StartWorker(%s) at %v returned %v, though it was removed by a call that had returned", rid(id), l.callT, err)
			}
		}
		if answerIs(err, jerrors.AlreadyExists) {
			w.r.Class("start-rejected")
		}
		switch {
		case exp == "exists" && !answerIs(err, jerrors.AlreadyExists):
			w.fail("C14", "StartWorker(%s) of a known id returned %v, want AlreadyExists", rid(id), err)
		case exp == "new" && err != nil:
			w.fail("C14", "StartWorker(%s) of an unknown id on a running runner returned %v", rid(id), err)
		case exp == "dead" && !answerIs(err, worker.ErrDead):
			w.fail("C17", "StartWorker(%s) on a finished runner returned %v", rid(id), err)
		}
	case "stop":
		c := w.begin(op, quiet)
		err := w.runner.StopWorker(rid(id))
		w.end(c, nil, err)
	case "stopremove", "worker":
		var abort chan struct{}
		c := w.begin(op, quiet)
		if op.Abort < 0 {
			abort = make(chan struct{})
			close(abort)
			w.mu.Lock()
			c.abortT, c.preAbort = c.callT, true
			w.mu.Unlock()
		}
		if op.Abort > 0 {
			abort = make(chan struct{})
			w.mu.Lock()
			c.abortT = w.now() + time.Duration(op.Abort)*time.Millisecond
			w.mu.Unlock()
			time.AfterFunc(time.Duration(op.Abort)*time.Millisecond, func() {
				close(abort)
			})
		}
		if op.Op == "worker" {
			wk, err := w.runner.Worker(rid(id), abort)
			w.end(c, wk, err)
		} else {
			err := w.runner.StopAndRemoveWorker(rid(id), abort)
			w.end(c, nil, err)
		}
	case "exit":
		w.mu.Lock()
		var k *rwrk
		for _, l := range w.lives {
			if a := l.last(); l.id == id && a != nil && a.w != nil && a.w.finSeq == 0 {
				k = a.w
			}
		}
		if k != nil {
			w.ev("exit %s#%d", rid(id), k.id)
		}
		w.mu.Unlock()
		if k != nil {
			select {
			case k.exitc <- op.E.make(w.newID()):
			default:
			}
		}
	case "report":
		w.runner.Report()
		w.runner.WorkerNames()
	case "kill":
		w.mu.Lock()
		if w.killSeq == 0 {
			w.killT = w.now()
			w.killSeq = w.ev("KILL runner")
		}
		w.mu.Unlock()
		w.runner.Kill()
		w.mu.Lock()
		if w.killRet == 0 {
			w.killRet = w.ev("Kill returned")
		}
		w.mu.Unlock()
		for i := 0; op.MS > 0 && i < nIDs; i++ {
			w.doOne(ROp{Op: "worker", ID: i}, false)
		}
	case "names":
		c := w.begin(op, false)
		names := w.runner.WorkerNames()
		rep, _ := w.runner.Report()["workers"].(map[string]interface{})
		_, c.reported = rep[rid(id)]
		for _, n := range names {
			c.named = c.named || n == rid(id)
		}
		w.end(c, nil, nil)
	}
}

func (w *rworld) begin(op ROp, quiet bool) *rcall {
	w.mu.Lock()
	defer w.mu.Unlock()
	c := &rcall{kind: op.Op, id: op.ID % nIDs, quiet: quiet, callT: w.now(), abortT: -1}
	c.callSeq = w.ev("%s %s (quiet %v)", op.Op, rid(c.id), quiet)
	w.calls = append(w.calls, c)
	return c
}

func (w *rworld) end(c *rcall, wk worker.Worker, err error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	c.ret, c.w, c.err, c.retT = true, wk, err, w.now()
	what := "nothing"
	if k, ok := bare(wk).(*rwrk); ok {
		what = fmt.Sprintf("%s#%d", rid(k.a.l.id), k.id)
	}
	c.retSeq = w.ev("%s of %s called at %v returned %s, %v", c.kind, rid(c.id), c.callT, what, err)
}

func runRCase(t *testing.T, cc any, r *Res) {
	w := &rworld{c: cc.(*RCase), r: r, gs: 12345}
	// The variant of an error depends on its number, so begin anywhere.
	w.ids = (13*len(w.c.Ops) + 7*len(w.c.Specs) + w.c.Delay + 3*w.c.Gosched) % 70
	nameStyle, sameText = w.c.Names, w.c.Same
	bubble(t, r, func() []string { return []string{"C17"} }, w.main)
	if len(r.Viol) > 0 {
		r.Trace = w.trace
	}
}

func (w *rworld) main() {
	c := w.c
	w.t0 = time.Now()
	w.closing = make(chan struct{})
	p := worker.RunnerParams{
		Name:  "vp",
		Clock: rclock{w},
	}
	if c.Gosched > 0 {
		p.Logger = rlogger{w}
	}
	if c.Fatal != 1 {
		p.IsFatal = func(err error) bool { w.gosched(); return c.fatal(err) }
	}
	switch c.Restart {
	case 1:
		p.ShouldRestart = func(err error) bool { w.gosched(); return kindOf(err) != kCustom }
	case 2:
		p.ShouldRestart = func(err error) bool { return false }
	}
	if c.Imp == 1 {
		p.MoreImportant = func(a, b error) bool { return rankOf(a) > rankOf(b) }
	}
	if c.Delay > 0 {
		p.RestartDelay = c.delay()
	}
	rn, err := worker.NewRunner(p)
	if err != nil {
		w.fail("C14", "NewRunner: %v", err)
		return
	}
	w.runner = rn
	go func() {
		err := rn.Wait()
		w.mu.Lock()
		defer w.mu.Unlock()
		w.waitDone, w.waitErr, w.waitT = true, err, w.now()
		w.waitSeq = w.ev("Wait returned %v", err)
	}()
	quiet := true
	synctest.Wait()
	for _, op := range c.Ops {
		if w.runaway {
			break
		}
		switch op.Op {
		case "sleep":
			psleep(op.MS)
			synctest.Wait()
			quiet = true
			w.checkQuiet()
		case "settle":
			for i := 0; i < 3; i++ {
				time.Sleep(settleTime)
				synctest.Wait()
				w.checkQuiet()
			}
			quiet = true
		case "burst":
			w.burst(op)
			quiet = true
		default:
			if op.Async {
				go w.do(op, false)
				quiet = false
				continue
			}
			q := quiet
			go w.do(op, q)
			synctest.Wait()
			w.checkQuiet()
			quiet = true
		}
	}
	w.finish()
}

// countGoroutines counts exactly, unlike runtime.NumGoroutine, which may be off
// by dozens while goroutines end.
func countGoroutines() int {
	recs := make([]runtime.StackRecord, 256)
	for {
		if n, ok := runtime.GoroutineProfile(recs); ok {
			return n
		}
		recs = make([]runtime.StackRecord, 2*len(recs))
	}
}

// burst makes many lookups of one id that are aborted at once, and judges that
// they leave nothing running behind.
func (w *rworld) burst(op ROp) {
	const n = 24
	synctest.Wait()
	before := countGoroutines()
	abort, start := make(chan struct{}), make(chan struct{})
	waited := 0
	for i := 0; i < n; i++ {
		go func() {
			<-start
			c := w.begin(ROp{Op: "worker", ID: op.ID}, false)
			w.mu.Lock()
			c.abortT = c.callT
			w.mu.Unlock()
			wk, err := w.runner.Worker(rid(c.id), abort)
			w.end(c, wk, err)
			if answerIs(err, worker.ErrAborted) {
				w.mu.Lock()
				waited++
				w.mu.Unlock()
			}
		}()
	}
	if op.Spec%2 == 0 {
		// All wait before the abort.
		close(start)
		synctest.Wait()
		close(abort)
	} else {
		close(abort)
		close(start)
	}
	synctest.Wait()
	w.mu.Lock()
	defer w.mu.Unlock()
	if _, dying := w.dying(); dying || waited < n {
		return
	}
	w.r.Class("abort-burst")
	grown := n
	for try := 0; try < 50 && grown >= n/2; try++ {
		runtime.Gosched() // let goroutines that have ended disappear
		grown = countGoroutines() - before
	}
	if grown >= n/2 {
		w.fail("C19", "%d aborted lookups of %s left %d goroutines behind", n, rid(op.ID%nIDs), grown)
	}
}

func (w *rworld) finish() {
	synctest.Wait()
	w.mu.Lock()
	alive := w.killSeq == 0 && !w.waitDone
	w.mu.Unlock()
	if alive {
		go w.do(ROp{Op: "kill", MS: len(w.c.Ops) % 2}, false)
		synctest.Wait()
	}
	if !w.runaway {
		for i := 0; i < 3; i++ {
			time.Sleep(settleTime)
			synctest.Wait()
		}
		w.checkQuiet()
		w.checkEnd()
		if w.waitDone {
			go w.do(ROp{Op: "start", ID: 0}, true)
			go func() {
				if err := w.runner.StopWorker(rid(0)); !answerIs(err, worker.ErrDead) {
					w.fail("C17", "StopWorker on a finished runner returned %v", err)
				}
			}()
			go func() {
				if wk, err := w.runner.Worker(rid(0), nil); !answerIs(err, worker.ErrDead) || wk != nil {
					w.fail("C17", "Worker on a finished runner returned %v, %v", wk, err)
				}
				if err := w.runner.StopAndRemoveWorker(rid(0), nil); err == nil {
					w.fail("C17", "StopAndRemoveWorker on a finished runner returned nil")
				}
				if n := w.runner.WorkerNames(); len(n) > 0 {
					w.fail("C17", "WorkerNames of a finished runner: %v", n)
				}
			}()
			synctest.Wait()
		}
	}
	w.mu.Lock()
	w.closed = true
	for _, l := range w.lives {
		for _, a := range l.atts {
			if a.stopCtx != nil {
				a.stopCtx()
			}
		}
	}
	w.mu.Unlock()
	close(w.closing)
	synctest.Wait()
	time.Sleep(settleTime)
}

// ---- oracle ----

// dying returns the first moment the runner had a reason to stop.
func (w *rworld) dying() (change, bool) {
	d := change{1 << 60, 1 << 62}
	if w.killSeq > 0 {
		d = change{w.killSeq, w.killT}
	}
	for _, l := range w.lives {
		for _, a := range l.atts {
			if a.ended() && a.seqEnd() < d.seq && w.c.fatal(a.endErr()) {
				d = change{a.seqEnd(), a.tEnd()}
			}
		}
	}
	return d, d.seq != 1<<60
}

// checkLog judges that fatal errors and errors that cause a restart, and only
// failures, were reported to the operators.
func (w *rworld) checkLog() {
	if w.c.Gosched == 0 || w.runaway || len(w.logs) >= 3000 {
		return // without a logger, or too much
	}
	dy, dying := w.dying()
	ws := &logWants{}
	for _, l := range w.lives {
		for _, a := range l.atts {
			if !a.ended() || a.endErr() == nil {
				continue
			}
			err := a.endErr()
			if eqErr(err, errGoexit) {
				ws.add(rid(l.id), "Goexit", "error", "", false)
				continue
			}
			stack := ""
			if p, ok := err.(stackErr); ok && p.panicked {
				stack = p.frame()
			}
			sure := false
			switch {
			case w.c.fatal(err):
				sure = true
				w.r.Class("logged-fatal")
			case w.c.restart(err):
				sure = !(dying && dy.t <= a.tEnd()) && !w.maybeStopped(l, a.tEnd())
				if sure {
					w.r.Class("logged-error")
				}
			default:
				continue
			}
			if sure && stack != "" {
				w.r.Class("logged-panic")
			}
			ws.add(rid(l.id), err.Error(), "error", stack, sure)
		}
	}
	judgeLog(w.logs, ws, func(format string, args ...any) { w.fail("C31", format, args...) })
}

// maybeStopped tells that a stop request may have hit the life by time t.
func (w *rworld) maybeStopped(l *rlife, t time.Duration) bool {
	for _, c := range w.calls {
		if c.id != l.id || c.callT > t || (c.ret && l.callSeq > c.retSeq) {
			continue
		}
		switch c.kind {
		case "stop":
			return true
		case "stopremove":
			for _, a := range l.atts {
				if a.w != nil && (!c.ret || a.tRet <= c.retT) && (a.w.finSeq == 0 || a.w.finT >= c.callT) {
					return true
				}
			}
		}
	}
	return false
}

// sureStopped returns the first time at which a stop request certainly hit
// the life.
func (w *rworld) sureStopped(l *rlife) (time.Duration, bool) {
	best, ok := time.Duration(1<<62), false
	put := func(t time.Duration) {
		if t < best {
			best, ok = t, true
		}
	}
	dy, dying := w.dying()
	for _, c := range w.calls {
		if c.id != l.id || !l.ok() || l.retSeq > c.callSeq || (dying && dy.t <= c.callT) {
			continue
		}
		switch c.kind {
		case "stop":
			if c.ret {
				put(c.callT)
			}
		case "stopremove":
			for _, a := range l.atts {
				if a.w == nil {
					continue
				}
				t := a.tRet
				if a.tRet < c.callT {
					t = c.callT
				} else if a.tRet == c.callT {
					continue
				}
				if a.w.finSeq > 0 && a.w.finT <= t {
					continue
				}
				if c.ret && c.retT < t || c.abortT >= 0 && c.abortT <= t || dying && dy.t <= t {
					continue
				}
				put(t)
				break
			}
		}
	}
	return best, ok
}

// rstate is what is known about an id at a quiet moment.
type rstate struct {
	known, ambiguous bool
	life             *rlife
	run              *rwrk // running worker, told to stop or not
	starting         bool
	stopSure         bool
	stopMaybe        bool
}

// state of an id at a quiet moment.
func (w *rworld) state(id int) rstate {
	now := w.now()
	_, dying := w.dying()
	var st rstate
	for _, l := range w.lives {
		if l.id != id || !l.ret || l.err != nil {
			continue
		}
		a := l.last()
		if a == nil {
			if !dying {
				// reported by checkQuiet
				st.known, st.life = true, l
			}
			continue
		}
		stT, sure := w.sureStopped(l)
		sure = sure && stT <= now
		maybe := w.maybeStopped(l, now)
		if !a.ended() {
			st = rstate{known: true, life: l, run: a.w, starting: a.w == nil, stopSure: sure || dying, stopMaybe: maybe || dying}
			continue
		}
		switch {
		case !w.c.restart(a.endErr()), sure, dying:
			continue
		case maybe:
			st = rstate{ambiguous: true, life: l}
		default:
			st = rstate{known: true, life: l}
		}
	}
	return st
}

func (w *rworld) expectStart(id int) string {
	if w.waitDone {
		return "dead"
	}
	if _, dying := w.dying(); dying {
		return ""
	}
	st := w.state(id)
	switch {
	case st.ambiguous:
		return ""
	case st.known:
		return "exists"
	}
	return "new"
}

// checkQuiet judges the runner when everything at the present instant has been
// dealt with.
func (w *rworld) checkQuiet() {
	if w.runaway {
		return
	}
	var names []string
	var rep map[string]interface{}
	done := make(chan struct{})
	go func() {
		defer close(done)
		names = w.runner.WorkerNames()
		rep = w.runner.Report()
	}()
	synctest.Wait()
	select {
	case <-done:
	default:
		w.fail("C20", "Report or WorkerNames did not return")
		return
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	now := w.now()
	dy, dying := w.dying()
	workers, _ := rep["workers"].(map[string]interface{})
	sort.Strings(names)
	listed := map[string]bool{}
	for _, n := range names {
		if listed[n] {
			w.fail("C20", "WorkerNames lists %s twice", n)
		}
		listed[n] = true
		if _, ok := workers[n]; !ok {
			w.fail("C20", "WorkerNames lists %s, Report does not", n)
		}
	}
	if len(workers) != len(listed) {
		w.fail("C20", "Report lists %d workers, WorkerNames %v", len(workers), names)
	}

	w.checkLog()

	// Policy.
	for _, l := range w.lives {
		if !l.ret {
			w.fail("C14", "StartWorker(%s) called at %v has not returned", rid(l.id), l.callT)
			continue
		}
		if l.ok() && len(l.atts) == 0 && !(dying && dy.t <= l.callT) && (!w.maybeStopped(l, now) || true) {
			w.fail("C14", "StartWorker(%s) succeeded at %v but the function was not called", rid(l.id), l.callT)
		}
		stT, sure := w.sureStopped(l)
		for k, a := range l.atts {
			if k == 0 && a.tEnter != l.callT {
				w.fail("C14", "StartWorker(%s) called at %v, its function only at %v", rid(l.id), l.callT, a.tEnter)
			}
			if dying && a.tEnter > dy.t {
				w.fail("C17", "start function of %s called at %v, after the runner began to stop at %v", rid(l.id), a.tEnter, dy.t)
			}
			if k > 0 {
				w.r.Class("restart")
				p := l.atts[k-1]
				if !w.c.restart(p.endErr()) {
					w.fail("C15", "%s ended at %v with %v and was started again at %v", rid(l.id), p.tEnd(), p.endErr(), a.tEnter)
				} else if a.tEnter != p.tEnd()+w.c.delay() {
					w.fail("C15", "%s ended at %v with %v and was started again at %v; the restart delay is %v", rid(l.id), p.tEnd(), p.endErr(), a.tEnter, w.c.delay())
				}
				if sure && stT < a.tEnter {
					w.fail("C16", "%s was stopped at %v but started again at %v", rid(l.id), stT, a.tEnter)
				}
			}
			if k == len(l.atts)-1 && a.ended() && w.c.restart(a.endErr()) {
				due := a.tEnd() + w.c.delay()
				if now >= due && !(dying && dy.t <= due) && !w.maybeStopped(l, due) {
					w.fail("C15", "%s ended at %v with %v and was not started again by %v", rid(l.id), a.tEnd(), a.endErr(), now)
				}
			}
			w.judgeKill(l, a, now, dy, dying)
			w.judgeCtx(l, a, now, dy, dying)
		}
		if sure {
			w.r.Class("stopped")
		}
	}

	// Names and Report.
	for i := 0; i < nIDs; i++ {
		st := w.state(i)
		if st.ambiguous {
			continue
		}
		n := rid(i)
		if st.known != listed[n] {
			if st.known {
				w.fail("C20", "%s is known at %v but not listed", n, now)
				continue
			}
			w.fail("C20", "%s is not known at %v but listed", n, now)
			for _, l := range w.lives {
				if t, sure := w.sureStopped(l); l.id == i && sure && l.last() != nil {
					w.fail("C16", "%s was stopped at %v and has finished but is still listed at %v", n, t, now)
				}
			}
			if dying {
				w.fail("C17", "%s is still listed at %v though the runner is stopping since %v and it is neither running nor starting", n, now, dy.t)
			}
			continue
		}
		if !st.known {
			continue
		}
		m, _ := workers[n].(map[string]interface{})
		got, _ := m["state"].(string)
		want := map[string]bool{}
		switch {
		case st.stopSure:
			want["stopping"] = true
		case st.run != nil && st.run.killSeq > 0:
			want["stopping"] = true
		case st.run != nil:
			want["started"] = true
		default:
			want["stopped"] = true
			if st.stopMaybe {
				want["stopping"] = true
			}
		}
		if !want[got] {
			w.fail("C20", "Report of %s at %v says %q, want one of %v", n, now, got, want)
		}
		w.r.Class("report-" + got)
		if want["started"] && got == "started" {
			if st.run.mute() {
				if rep, ok := m["report"]; ok {
					w.fail("C20", "Report of %s at %v contains %v, the running worker #%d does not report", n, now, rep, st.run.id)
				}
			} else if !reflect.DeepEqual(m["report"], map[string]interface{}{"inst": st.run.id}) {
				w.fail("C20", "Report of %s at %v contains %v, the running worker is #%d", n, now, m["report"], st.run.id)
			}
		}
		var made *ratt
		for _, x := range st.life.atts {
			if x.w != nil {
				made = x
			}
		}
		ts, ok := m["started"].(string)
		f := func(d time.Duration) string { return w.t0.Add(d).UTC().Format("2006-01-02 15:04:05") }
		if made == nil {
			if ok && len(st.life.atts) > 0 && ts != f(st.life.atts[0].tEnter) {
				w.fail("C20", "Report of %s at %v says started at %q, but there has not been a worker yet", n, now, ts)
			}
		} else if ts != f(made.tEnter) && ts != f(made.tRet) {
			w.fail("C20", "Report of %s at %v says started at %q, was started at %q", n, now, ts, f(made.tRet))
		}
	}

	// Calls.
	for _, c := range w.calls {
		w.judgeCall(c, now, dy, dying)
	}
	if dying {
		// Finished exactly when all is finished.
		all := true
		last := dy.t
		for _, l := range w.lives {
			for _, a := range l.atts {
				if !a.ended() {
					all = false
				} else if a.tEnd() > last {
					last = a.tEnd()
				}
			}
		}
		if all != w.waitDone {
			w.fail("C17", "at %v runner stopping since %v: everything finished: %v, Wait returned: %v", now, dy.t, all, w.waitDone)
		} else if all && w.waitT != last {
			w.fail("C17", "Wait returned at %v, everything had finished at %v", w.waitT, last)
		}
		if all && len(w.lives) > 1 {
			w.r.Class("shutdown-several")
		}
	} else if w.waitDone {
		w.fail("C18", "runner finished by itself at %v without a fatal error: %v", w.waitT, w.waitErr)
	}
}

// judgeCtx judges whether the context of a start function is done exactly when
// it should be.
func (w *rworld) judgeCtx(l *rlife, a *ratt, now time.Duration, dy change, dying bool) {
	want, why := time.Duration(1<<62), ""
	if a.idx == 0 && l.ctxT >= 0 {
		want, why = l.ctxT, "the caller's context was cancelled"
	}
	if dying && dy.t < want {
		want, why = dy.t, "the runner began to stop"
	}
	if want < a.tEnter {
		want = a.tEnter
	}
	if a.ctxSeq > 0 && a.ctxT < want && (!a.ended() || a.ctxT < a.tEnd()) && !w.maybeStopped(l, a.ctxT) {
		w.fail("C29", "context of start function of %s (attempt %d) was cancelled at %v without a reason", rid(l.id), a.idx, a.ctxT)
	}
	if want > now || a.ended() && a.tEnd() <= want {
		return
	}
	if a.ctxSeq == 0 || a.ctxT > want {
		w.fail("C29", "context of start function of %s (attempt %d) was not cancelled at %v, when %s (done: %v at %v)", rid(l.id), a.idx, want, why, a.ctxSeq > 0, a.ctxT)
	}
	if a.idx > 0 && l.ctxT >= 0 {
		w.r.Class("ctx-restart")
	}
	if a.tRet > want || !a.returned {
		w.r.Class("ctx-in-start")
	} else {
		w.r.Class("ctx-in-run")
	}
}

// judgeKill judges whether the worker was told to stop exactly when it should.
func (w *rworld) judgeKill(l *rlife, a *ratt, now time.Duration, dy change, dying bool) {
	if dying && a.tEnter < dy.t && (!a.returned || a.tRet > dy.t) {
		w.r.Class("dying-in-start")
		if l.ctxT < 0 || a.idx > 0 {
			if a.ctxSeq == 0 || a.ctxT > dy.t {
				w.fail("C17", "context of the start function of %s in progress was not cancelled when the runner began to stop at %v", rid(l.id), dy.t)
			}
		}
	}
	k := a.w
	if k == nil {
		return
	}
	if k.killSeq > 0 && (k.finSeq == 0 || k.killSeq < k.finSeq) && !(dying && dy.t <= k.killT) && !w.maybeStopped(l, k.killT) {
		w.fail("C15", "worker #%d of %s was killed at %v though nobody stopped it", k.id, rid(l.id), k.killT)
		w.fail("C16", "worker #%d of %s was killed at %v though nobody stopped it", k.id, rid(l.id), k.killT)
	}
	stT, sure := w.sureStopped(l)
	must, prop := time.Duration(1<<62), ""
	if sure {
		must, prop = stT, "C16"
	}
	if dying && dy.t < must {
		must, prop = dy.t, "C17"
	}
	if prop == "" || must > now {
		return
	}
	if must < a.tRet {
		must = a.tRet
	}
	if k.finSeq > 0 && k.finT <= must {
		return
	}
	w.r.Class("must-kill-" + prop)
	if k.killSeq == 0 || k.killT > must {
		w.fail(prop, "worker #%d of %s should have been killed at %v, was not (killed: %v at %v)", k.id, rid(l.id), must, k.killSeq > 0, k.killT)
	}
}

// judgeCall judges one lookup or stop call, pending or not.
func (w *rworld) judgeCall(c *rcall, now time.Duration, dy change, dying bool) {
	if c.ret && !c.judged {
		c.judged = true
		w.judgeAfter(c)
	}
	if c.kind == "names" {
		if !c.ret || c.retT != c.callT {
			w.fail("C20", "%s did not return at once", c)
		}
		return
	}
	if c.kind == "stop" {
		switch {
		case !c.ret:
			w.fail("C16", "%s has not returned at %v", c, now)
		case c.retT != c.callT:
			w.fail("C16", "%s returned at %v", c, c.retT)
		case c.err != nil && !(dying && dy.t <= c.callT && answerIs(c.err, worker.ErrDead)):
			w.fail("C16", "%s returned %v", c, c.err)
		}
		return
	}
	prop := "C19"
	if c.kind == "stopremove" {
		prop = "C16"
	}
	end := now
	if c.ret {
		end = c.retT
	}
	// Never longer than the abort.
	if c.abortT >= 0 && c.abortT < end || !c.ret && c.abortT >= 0 && c.abortT <= now {
		w.fail(prop, "%s with abort at %v still pending then (returned: %v at %v)", c, c.abortT, c.ret, c.retT)
		return
	}
	if c.ret {
		w.r.Class(c.kind + "-returned")
		if c.retT > c.callT {
			w.r.Class(c.kind + "-waited")
		}
		w.judgeResult(c, prop, dy, dying)
	} else if c.quiet || true {
		st := w.state(c.id)
		switch {
		case st.ambiguous:
		case dying && c.kind == "worker":
			w.fail(prop, "%s is pending at %v though the runner is stopping since %v", c, now, dy.t)
		case !st.known && dying:
			w.fail(prop, "%s is pending at %v though the runner is stopping and %s not running", c, now, rid(c.id))
		case !st.known:
			w.fail(prop, "%s is pending at %v though %s is not known", c, now, rid(c.id))
		case c.kind == "worker" && st.run != nil && st.run.killSeq == 0 && !st.stopMaybe:
			w.fail(prop, "%s is pending at %v though worker #%d is running", c, now, st.run.id)
		case c.kind == "stopremove" && st.run != nil && st.run.killSeq == 0 && st.life.retSeq < c.callSeq:
			w.fail(prop, "%s is pending at %v though worker #%d is running and not killed", c, now, st.run.id)
		}
	}
	// Prompt: the first event that certainly answers it.
	for _, l := range w.lives {
		if l.id != c.id || !l.ok() {
			continue
		}
		for _, a := range l.atts {
			if a.w == nil {
				continue
			}
			k := a.w
			if c.kind == "worker" {
				t := a.tRet
				if t < c.callT {
					t = c.callT
				}
				// certainly running and not told to stop, strictly around t
				if a.tRet == c.callT || k.finSeq > 0 && k.finT <= t || w.maybeStopped(l, t) || dying && dy.t <= t || t >= end {
					continue
				}
				w.fail(prop, "%s not answered when worker #%d was running at %v", c, k.id, t)
				return
			}
		}
	}
	if dying && c.callT < dy.t && dy.t < end && c.kind == "worker" {
		w.fail(prop, "%s not answered when the runner began to stop at %v", c, dy.t)
	}
}

// startedAgain tells that StartWorker may have accepted the id between the
// call of the StopAndRemoveWorker c and the event seq.
func (w *rworld) startedAgain(c *rcall, seq int, but *rlife) bool {
	for _, l := range w.lives {
		if l != but && l.id == c.id && l.callSeq < seq && (!l.ret || l.retSeq > c.callSeq) {
			return true
		}
	}
	return false
}

// removed tells that the StopAndRemoveWorker call c has seen the worker removed.
func (c *rcall) removed() bool {
	return c.kind == "stopremove" && c.ret && !answerIs(c.err, worker.ErrAborted) && !answerIs(c.err, worker.ErrDead) && !answerIs(c.err, jerrors.NotFound)
}

// judgeAfter judges the answer to a call, or the effect of one, by what had
// returned before it was made.
func (w *rworld) judgeAfter(c *rcall) {
	if c.kind == "names" {
		for _, l := range w.lives {
			if l.id == c.id && l.ok() && l.retSeq < c.callSeq && w.knownThrough(l, c.retT) {
				w.r.Class("named-after-start")
				if !c.named || !c.reported {
					w.fail("C20", "%s does not list the id (WorkerNames: %v, Report: %v), started by call %d, which had returned", c, c.named, c.reported, l.n)
				}
			}
		}
	}
	if c.kind == "names" || c.kind == "worker" {
		for _, o := range w.calls {
			if o.id != c.id || !o.removed() || o.retSeq > c.callSeq || w.startedAgain(o, c.retSeq, nil) {
				continue
			}
			w.r.Class(c.kind + "-after-remove")
			if c.named || c.reported {
				w.fail("C16", "%s lists the id (WorkerNames: %v, Report: %v), removed by a call that had returned", c, c.named, c.reported)
			}
			if c.kind == "worker" && c.err == nil {
				w.fail("C16", "%s found a worker, removed by a call that had returned", c)
			}
		}
	}
}

// answerIs tells that the library itself answered with the given error; a
// worker's own error may wrap it too.
func answerIs(err, target error) bool {
	var own simErr
	return !jerrors.As(err, &own) && jerrors.Is(err, target)
}

func (w *rworld) judgeResult(c *rcall, prop string, dy change, dying bool) {
	switch {
	case answerIs(c.err, worker.ErrAborted):
		if c.abortT < 0 || c.retT != c.abortT {
			w.fail(prop, "%s (abort at %v) returned ErrAborted at %v", c, c.abortT, c.retT)
		}
		w.r.Class(c.kind + "-aborted")
		if c.preAbort && !(dying && dy.t <= c.callT) {
			w.judgePreAborted(c, prop)
		}
		return
	case answerIs(c.err, worker.ErrDead):
		if c.kind == "worker" && w.killRet > 0 && w.killRet < c.callSeq {
			w.r.Class("looked-up-after-kill")
		}
		if !dying || c.retT < dy.t {
			w.fail(prop, "%s returned ErrDead at %v though the runner is running", c, c.retT)
		} else if c.retT != c.callT && c.retT != dy.t && c.kind == "worker" {
			w.fail(prop, "%s returned ErrDead at %v, the runner began to stop at %v", c, c.retT, dy.t)
		} else if c.kind == "stopremove" && dy.t > c.callT {
			for _, l := range w.lives {
				for _, a := range l.atts {
					if l.id == c.id && a.w != nil && a.tRet < c.callT && (a.w.finSeq == 0 || a.w.finT > c.callT) {
						w.fail(prop, "%s of worker #%d, then running, returned ErrDead at %v", c, a.w.id, c.retT)
					}
				}
			}
		}
		return
	case answerIs(c.err, jerrors.NotFound):
		w.r.Class(c.kind + "-notfound")
		if c.kind == "worker" && w.killRet > 0 && w.killRet < c.callSeq {
			w.fail(prop, "%s returned NotFound though Kill had returned before", c)
		}
		if dying && dy.t < c.callT && c.kind == "worker" {
			w.fail(prop, "%s returned NotFound though the runner is stopping since %v", c, dy.t)
		}
		// No life may be known throughout [call, return].
		var ends []time.Duration
		for _, l := range w.lives {
			if l.id != c.id || l.err != nil {
				continue
			}
			if l.ret && l.retSeq < c.callSeq && w.knownThrough(l, c.retT) {
				w.fail(prop, "%s returned NotFound at %v though %s was known all the time", c, c.retT, rid(c.id))
			}
			for _, a := range l.atts {
				if a.ended() {
					ends = append(ends, a.tEnd())
				}
			}
			if c.kind == "stopremove" && l.ret && l.retSeq < c.callSeq {
				for _, a := range l.atts {
					if a.w != nil && a.tRet < c.callT && (a.w.finSeq == 0 || a.w.finT > c.callT) && c.retT > c.callT &&
						!w.stopWorkerBefore(l, c) && !(dying && dy.t <= c.callT) {
						w.fail(prop, "%s while worker #%d was running returned NotFound", c, a.w.id)
					}
				}
			}
		}
		if c.retT != c.callT {
			prompt := false
			for _, t := range ends {
				prompt = prompt || t == c.retT
			}
			for _, o := range w.calls {
				if o.kind != "worker" && o.kind != "names" && o.id == c.id && o.callT == c.retT {
					prompt = true
				}
			}
			if dying && dy.t == c.retT {
				prompt = true
			}
			if !prompt {
				w.fail(prop, "%s returned NotFound at %v, when nothing happened", c, c.retT)
			}
		}
		return
	}
	if c.kind == "worker" {
		if c.err != nil {
			w.fail(prop, "%s returned %v", c, c.err)
			return
		}
		k, ok := bare(c.w).(*rwrk)
		if !ok || k.a.l.id != c.id {
			w.fail(prop, "%s returned a foreign worker %v", c, c.w)
			return
		}
		if w.killRet > 0 && w.killRet < c.callSeq && k.a.tRet < c.callT {
			w.fail(prop, "%s returned worker #%d though Kill had returned before", c, k.id)
		}
		if k.finSeq > 0 && k.finT < c.retT {
			w.fail(prop, "%s returned at %v worker #%d, which finished at %v", c, c.retT, k.id, k.finT)
		}
		if k.a.tRet > c.retT || (c.retT != c.callT && c.retT != k.a.tRet) {
			w.fail(prop, "%s returned at %v worker #%d, available since %v", c, c.retT, k.id, k.a.tRet)
		}
		if k.killSeq > 0 && k.killT < c.retT && k.killSeq < c.callSeq {
			w.fail(prop, "%s returned at %v worker #%d, which is being stopped since %v", c, c.retT, k.id, k.killT)
		}
		return
	}
	// StopAndRemoveWorker returned a worker's error.
	match := false
	for _, l := range w.lives {
		if l.id != c.id || l.ret && l.err != nil {
			continue
		}
		for _, a := range l.atts {
			if !a.ended() {
				if l.callSeq < c.callSeq && (!l.ret || l.retSeq < c.callSeq) {
					w.fail(prop, "%s returned at %v while %s has not finished", c, c.retT, rid(c.id))
				}
				continue
			}
			e := a.endErr()
			if eqErr(e, c.err) || eqErr(e, errGoexit) && c.err != nil && strings.Contains(c.err.Error(), "Goexit") {
				if a.tEnd() == c.retT {
					match = true
				}
			}
			if a == l.last() && a.tEnd() <= c.retT && w.c.restart(e) && (w.maybeStopped(l, c.retT) || dying && dy.t <= c.retT) && (c.err == nil || eqErr(c.err, e)) && !w.stoppedBeforeEnd(a) {
				// a pending restart was dropped
				match = true
			}
			if l.retSeq < c.callSeq && l.ok() && a.seqEnd() > c.retSeq && a.tEnd() > c.retT {
				w.fail(prop, "%s returned at %v before %s finished at %v", c, c.retT, rid(c.id), a.tEnd())
			}
		}
	}
	if !match {
		w.fail(prop, "%s returned %v at %v, which no worker finished with then", c, c.err, c.retT)
	}
}

// judgePreAborted judges a call that was aborted before it was made, and that
// answered so: then it must have had something to wait for.
func (w *rworld) judgePreAborted(c *rcall, prop string) {
	w.r.Class(c.kind + "-preaborted")
	ever := false
	for _, l := range w.lives {
		if l.id != c.id || l.ret && l.err != nil {
			continue
		}
		if l.callSeq < c.retSeq {
			ever = true
		}
		for _, a := range l.atts {
			k := a.w
			if c.kind == "worker" && k != nil && a.tRet < c.callT && (k.finSeq == 0 || k.finT > c.callT) && k.killSeq == 0 && !w.maybeStopped(l, c.callT) {
				w.fail(prop, "%s returned ErrAborted though worker #%d was running, so that there was nothing to wait for", c, k.id)
			}
		}
	}
	if !ever {
		w.fail(prop, "%s returned ErrAborted though %s was never started, so that there was nothing to wait for", c, rid(c.id))
	}
}

// stoppedBeforeEnd tells that the run was certainly stopped before it ended, so
// that no restart can have been pending.
func (w *rworld) stoppedBeforeEnd(a *ratt) bool {
	if a.w != nil && a.w.killSeq > 0 && a.w.killT < a.tEnd() {
		return true
	}
	for _, o := range w.calls {
		if o.kind == "stop" && o.id == a.l.id && o.ret && o.err == nil && a.l.retSeq > 0 && o.callSeq > a.l.retSeq && o.callSeq > a.seqEnter && o.callT < a.tEnd() {
			return true
		}
	}
	return false
}

// stopWorkerBefore tells that someone else stopped the life before the call.
func (w *rworld) stopWorkerBefore(l *rlife, c *rcall) bool {
	for _, o := range w.calls {
		if o.kind == "stop" && o.id == c.id && o.callT <= c.callT && (!o.ret || o.retSeq > l.callSeq) {
			return true
		}
	}
	return false
}

// knownThrough tells that the accepted life was certainly known up to hi.
func (w *rworld) knownThrough(l *rlife, hi time.Duration) bool {
	dy, dying := w.dying()
	if dying && dy.t <= hi {
		return false
	}
	for _, a := range l.atts {
		if !a.ended() || a.tEnd() > hi {
			continue
		}
		if !w.c.restart(a.endErr()) {
			return false
		}
	}
	if w.maybeStopped(l, hi) {
		a := l.last()
		// stopped and finished, or in between two runs
		if a == nil || a.ended() && a.tEnd() <= hi {
			return false
		}
		for _, a := range l.atts {
			if a.tEnter <= hi && (!a.ended() || a.tEnd() > hi) {
				return true
			}
		}
		return false
	}
	return true
}

// checkEnd judges the whole history of a runner that should be finished.
func (w *rworld) checkEnd() {
	w.mu.Lock()
	defer w.mu.Unlock()
	if !w.waitDone {
		return
	}
	for _, l := range w.lives {
		for _, a := range l.atts {
			if a.ended() && a.seqEnd() > w.waitSeq {
				w.fail("C17", "Wait returned at %v before %s finished at %v", w.waitT, rid(l.id), a.tEnd())
			}
		}
	}
	var fatal []*ratt
	for _, l := range w.lives {
		for _, a := range l.atts {
			if a.ended() && w.c.fatal(a.endErr()) {
				fatal = append(fatal, a)
			}
		}
	}
	var want []error
	for _, a := range fatal {
		ok := true
		for _, b := range fatal {
			if w.c.Imp == 0 && b.tEnd() < a.tEnd() || w.c.Imp == 1 && rankOf(b.endErr()) > rankOf(a.endErr()) {
				ok = false
			}
		}
		if ok {
			want = append(want, a.endErr())
		}
	}
	if len(fatal) > 0 {
		w.r.Class("fatal")
	}
	if len(fatal) > 1 && len(want) < len(fatal) {
		w.r.Class("fatal-several")
	}
	if len(want) == 0 {
		if w.waitErr != nil {
			w.fail("C18", "Wait returned %v, no fatal error was reported", w.waitErr)
		}
		return
	}
	for _, e := range want {
		if eqErr(w.waitErr, e) || eqErr(e, errGoexit) && w.waitErr != nil && strings.Contains(w.waitErr.Error(), "Goexit") {
			return
		}
	}
	w.fail("C18", "Wait returned %v, want one of %v", w.waitErr, want)
}

func init() {
	register(&Scenario{Name: "runner", Gen: genRCase, New: func() any { return &RCase{} }, Run: runRCase})
	any2 := func(keys ...string) func(map[string]int) bool {
		return func(c map[string]int) bool {
			for _, k := range keys {
				if c[k] > 0 {
					return true
				}
			}
			return false
		}
	}
	addCheck("C29", "runner histories; non-trivial when the context of a run had to be cancelled during its start function or worker", any2("ctx-in-start", "ctx-in-run"), "runner")
	addCheck("C14", "runner histories; non-trivial when a StartWorker call was rejected or a worker restarted", any2("start-rejected", "restart"), "runner")
	addCheck("C15", "runner histories; non-trivial when a worker was restarted", any2("restart"), "runner")
	addCheck("C16", "runner histories; non-trivial when a stop request certainly hit a running or starting worker", any2("must-kill-C16"), "runner")
	addCheck("C17", "runner histories; non-trivial when workers were running or starting when the runner began to stop", any2("must-kill-C17", "dying-in-start"), "runner")
	addCheck("C18", "runner histories; non-trivial when a fatal error was reported", any2("fatal"), "runner")
	addCheck("C19", "runner histories; non-trivial when a Worker lookup had to wait", any2("worker-waited"), "runner")
	addCheck("C20", "runner histories; non-trivial when a report showed a stopping or stopped worker", any2("report-stopping", "report-stopped"), "runner")
}
