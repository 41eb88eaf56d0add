package checks

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
	"weak"

	jerrors "github.com/juju/errors"
	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/catacomb"
	"gopkg.in/tomb.v2"
	"pgregory.net/rapid"
)

// KErr is a scripted error given to a catacomb.
type KErr struct {
	K string `json:"k,omitempty"` // "", sim, own, other, tombdying, tombalive
	W int    `json:"w,omitempty"` // 0 plain, 1 traced, 2 fmt-wrapped, 3 wrapped out of sight (own and other only)
}

// KW scripts a worker.
type KW struct {
	Life int  `json:"life,omitempty"` // ms until it ends by itself; -1 already ended
	Exit KErr `json:"exit,omitempty"`
	Kill int  `json:"kill,omitempty"`
	KErr KErr `json:"kerr,omitempty"`
}

// KWork scripts the work function.
type KWork struct {
	Mode int  `json:"mode,omitempty"` // 0 until dying, 1 for MS whatever happens, 2 for MS or until dying
	MS   int  `json:"ms,omitempty"`
	Late int  `json:"late,omitempty"` // ms it takes to stop when dying
	Err  KErr `json:"err,omitempty"`
	Pan  int  `json:"panic,omitempty"` // 1 panic with a string, 2 with an error, 3 runtime error
	Adds []KW `json:"adds,omitempty"`
}

// KOp is one step of the driving history.
type KOp struct {
	Op    string `json:"op"`
	N     int    `json:"n,omitempty"`
	MS    int    `json:"ms,omitempty"`
	E     KErr   `json:"e,omitempty"`
	W     KW     `json:"w,omitempty"`
	Ws    []KW   `json:"ws,omitempty"`  // badinvoke: further workers
	Nil   int    `json:"nil,omitempty"` // badinvoke: where the nil worker goes
	Odd   int    `json:"odd,omitempty"` // context: kind of the parent, see oddCtx
	Async bool   `json:"async,omitempty"`
}

// KCase is one catacomb history.
type KCase struct {
	Work    KWork `json:"work"`
	Init    []KW  `json:"init,omitempty"`
	Compete int   `json:"compete,omitempty"` // further Invoke calls at the same moment
	Mutate  bool  `json:"mutate,omitempty"`  // replace the plan's Init workers after Invoke
	Gosched int   `json:"gosched,omitempty"`
	Pre     []KOp `json:"pre,omitempty"` // before Invoke
	Ops     []KOp `json:"ops,omitempty"`
	Release int   `json:"release,omitempty"` // workers to check for release
	Name    int   `json:"name,omitempty"`    // which of the plan names
}

var planNames = []string{"vp", "x", " ", "\x00", "名", "a name\nof two lines", strings.Repeat("long", 500)}

func genKErr(t *rapid.T, pNil int) KErr {
	k := pct(t, "ek")
	switch {
	case k < pNil:
		return KErr{}
	case k < pNil+(100-pNil)/5:
		return KErr{K: "bare", W: pick(t, "wr", 0, 0, 1, 2)}
	case k < pNil+(100-pNil)/2:
		return KErr{K: "sim", W: pick(t, "wr", 0, 0, 1)}
	}
	return KErr{K: pick(t, "kk", "own", "own", "own", "other", "tombdying", "tombalive"), W: pick(t, "wr", 0, 1, 2, 3)}
}

func genKCase(t *rapid.T, focus string) any {
	c := &KCase{}
	ms := func(l string) int { return far(t, l, pick(t, l, 0, 0, 1, 5, 5, 10, 20, 100)) }
	kw := func() KW {
		w := KW{Kill: far(t, "kd", pick(t, "kd", 0, 0, 1, 5, 10, 50))}
		if prob(t, "life", 45) {
			w.Life = far(t, "lifems", pick(t, "lifems", 5, 1, 10, 20, -1))
			w.Exit = genKErr(t, 60)
		}
		if prob(t, "kerr", 45) {
			w.KErr = genKErr(t, 10)
		}
		return w
	}
	c.Gosched = pick(t, "gs", 0, 1, 2, 5)
	c.Work.Mode = pick(t, "wm", 0, 0, 0, 1, 2)
	c.Work.MS = ms("wms")
	c.Work.Late = far(t, "late", pick(t, "late", 0, 0, 1, 10, 30))
	c.Work.Err = genKErr(t, 30)
	if prob(t, "pan", 12) {
		c.Work.Pan = rapid.IntRange(1, 3).Draw(t, "pk")
	}
	for i := rapid.IntRange(0, 2).Draw(t, "nwa"); i > 0; i-- {
		c.Work.Adds = append(c.Work.Adds, kw())
	}
	for i := rapid.IntRange(0, 3).Draw(t, "ninit"); i > 0; i-- {
		c.Init = append(c.Init, kw())
	}
	if prob(t, "comp", 25) {
		c.Compete = rapid.IntRange(1, 3).Draw(t, "nc")
	}
	c.Mutate = prob(t, "mut", 20)
	op := func(pre bool) KOp {
		k := pct(t, "opk")
		o := KOp{Async: prob(t, "async", 45)}
		switch {
		case k < 24 && !pre:
			o.Op, o.W = "add", kw()
		case k < 36:
			o.Op, o.E = "kill", genKErr(t, 35)
			if pre && !prob(t, "prekill", 30) {
				o.Op = "context"
			}
		case k < 46 && !pre:
			o.Op, o.N, o.E = "exit", rapid.IntRange(0, 7).Draw(t, "xn"), genKErr(t, 55)
		case k < 52 && !pre:
			o.Op, o.N = "wkill", rapid.IntRange(0, 7).Draw(t, "xn")
		case k < 66:
			o.Op, o.N, o.MS = "context", rapid.IntRange(0, 4).Draw(t, "cn"), ms("cms")
			o.Odd = pick(t, "odd", 0, 0, 1, 2)
		case k < 74:
			o.Op, o.N, o.W = "badinvoke", rapid.IntRange(0, 4).Draw(t, "bn"), kw()
			if pre && o.N == 4 {
				o.N = 0
			}
			for i := pick(t, "nws", 0, 1, 2, 3); i > 0; i-- {
				o.Ws = append(o.Ws, kw())
			}
			o.Nil = rapid.IntRange(0, len(o.Ws)+1).Draw(t, "nilpos")
		case k < 78:
			o.Op = "errdying"
		default:
			o.Op, o.MS, o.Async = "sleep", ms("slms"), false
		}
		return o
	}
	for i := pick(t, "npre", 0, 0, 0, 1, 2); i > 0; i-- {
		c.Pre = append(c.Pre, op(true))
	}
	for i := rapid.IntRange(0, 12).Draw(t, "nops"); i > 0; i-- {
		c.Ops = append(c.Ops, op(false))
	}
	if focus == "C22" && prob(t, "rel", 6) {
		c.Release = rapid.IntRange(3, 12).Draw(t, "nrel")
	}
	if prob(t, "named", 15) {
		c.Name = rapid.IntRange(1, len(planNames)-1).Draw(t, "name")
	}
	return c
}

// ---- world ----

type kwrk struct {
	kw        *kworld
	sc        KW
	id        int
	killc     chan struct{}
	exitc     chan error
	dead      chan struct{}
	mu        sync.Mutex
	err       error
	killT     time.Duration // first Kill not made by the harness
	killSeq   int
	clientSeq int // first Kill made by the harness
	finT      time.Duration
	finSeq    int
	killed    bool

	how     string // init, add, loser, bad, spare
	owned   bool   // handed over successfully
	addT    time.Duration
	addSeq  int
	callSeq int
	callT   time.Duration
	ret     bool
	retT    time.Duration
	retSeq  int
	retErr  error
}

func (k *kwrk) Kill() { k.kill(false) }

func (k *kwrk) kill(client bool) {
	k.kw.gosched()
	w := k.kw
	w.mu.Lock()
	if client {
		if k.clientSeq == 0 {
			k.clientSeq = w.ev("client kills worker %d", k.id)
		}
	} else if k.killSeq == 0 {
		k.killT = w.now()
		k.killSeq = w.ev("kill worker %d", k.id)
	}
	first := !k.killed
	k.killed = true
	w.mu.Unlock()
	if first {
		close(k.killc)
	}
}

func (k *kwrk) Wait() error {
	<-k.dead
	k.kw.gosched()
	return k.err
}

// dressed is the worker as the catacomb gets it.
func (k *kwrk) dressed() worker.Worker {
	return dressed(k, k.id+k.kw.c.Gosched, k.killc, k.dead)
}

func (k *kwrk) run() {
	var life <-chan time.Time
	w := k.kw
	if k.sc.Life > 0 {
		tm := time.NewTimer(time.Duration(k.sc.Life) * time.Millisecond)
		defer tm.Stop()
		life = tm.C
	} else if k.sc.Life < 0 {
		c := make(chan time.Time, 1)
		c <- time.Time{}
		life = c
	}
	var err error
	select {
	case <-life:
		err = w.mkErr(k.sc.Exit)
	case err = <-k.exitc:
	case <-k.killc:
		if k.sc.Kill > 0 {
			select {
			case <-time.After(time.Duration(k.sc.Kill) * time.Millisecond):
			case <-w.closing:
			}
		}
		err = w.mkErr(k.sc.KErr)
	case <-w.closing:
	}
	w.mu.Lock()
	k.err = err
	k.finT = w.now()
	k.finSeq = w.ev("finish worker %d err=%v", k.id, err)
	w.mu.Unlock()
	close(k.dead)
}

type kctx struct {
	n       int
	ctx     context.Context
	makeT   time.Duration
	parentT time.Duration // -1 never
	doneT   time.Duration
	done    bool
	stop    func() bool
}

// kevent is something that may give the catacomb its final error.
type kevent struct {
	t     time.Duration
	err   error // as given
	what  string
	maybe bool
	kill  bool
}

type kworld struct {
	mu      sync.Mutex
	c       *KCase
	r       *Res
	t0      time.Time
	seq     int
	ids     int
	gs      uint32
	trace   []string
	closing chan struct{}

	cat      *catacomb.Catacomb
	other    *catacomb.Catacomb
	otherErr error
	owns     map[error]bool

	workers []*kwrk
	ctxs    []*kctx
	events  []*kevent

	invoked   bool
	winner    int
	invokeT   time.Duration
	workBegan int
	workEnded bool
	workT     time.Duration
	workSeq   int
	workLosr  int

	waitDone  bool
	waitErr   error
	waitT     time.Duration
	waitSeq   int
	cancelPar []func()
}

func (w *kworld) now() time.Duration { return time.Since(w.t0) }

func (w *kworld) ev(format string, args ...any) int {
	w.seq++
	if len(w.trace) < 2000 {
		w.trace = append(w.trace, fmt.Sprintf("%4d %10v ", w.seq, w.now())+fmt.Sprintf(format, args...))
	}
	return w.seq
}

func (w *kworld) fail(prop, format string, args ...any) { w.r.Fail(prop, format, args...) }

func (w *kworld) gosched() {
	if w.c.Gosched == 0 {
		return
	}
	w.mu.Lock()
	w.gs = w.gs*1664525 + 1013904223
	n := int(w.gs>>24) % (w.c.Gosched + 1)
	w.mu.Unlock()
	for i := 0; i < n; i++ {
		runtime.Gosched()
	}
}

// mkErr makes the scripted error; an own ErrDying is asked for now.
func (w *kworld) mkErr(e KErr) error {
	var err error
	switch e.K {
	case "":
		return nil
	case "sim":
		w.mu.Lock()
		w.ids++
		err = simErr{kPlain, 0, w.ids}
		if w.ids%6 == 5 {
			err = listErr{err}
		}
		w.mu.Unlock()
	case "bare":
		w.mu.Lock()
		w.ids++
		err = bareErrs[w.ids%len(bareErrs)]
		w.mu.Unlock()
	case "own":
		err = w.errDying()
	case "other":
		err = w.otherErr
	case "tombdying":
		return tomb.ErrDying
	case "tombalive":
		return tomb.ErrStillAlive
	}
	switch e.W {
	case 1:
		return jerrors.Trace(err)
	case 2:
		if e.K != "sim" {
			return fmt.Errorf("wrapped: %w", err)
		}
	case 3:
		if e.K != "sim" {
			return &hidingErr{err}
		}
	}
	return err
}

// hidingErr wraps an error and doesn't show its text.
type hidingErr struct{ err error }

func (*hidingErr) Error() string   { return "something is wrong" }
func (e *hidingErr) Unwrap() error { return e.err }

// isDying by what the channel says.
func (w *kworld) chanDying() bool {
	select {
	case <-w.cat.Dying():
		return true
	default:
		return false
	}
}

// errDying asks the catacomb for its ErrDying and judges what it gives.
func (w *kworld) errDying() error {
	before := w.chanDying()
	err := w.cat.ErrDying()
	after := w.chanDying()
	if err == nil {
		w.fail("C23", "ErrDying returned nil")
		return errors.New("nil ErrDying")
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if before {
		w.owns[err] = true
		if len(w.owns) > 1 {
			w.fail("C23", "ErrDying of one catacomb gave different errors")
		}
		if !w.waitDone {
			w.r.Class("own-errdying")
		}
	} else if !after {
		if w.owns[err] {
			w.fail("C23", "ErrDying of a live catacomb gave %v", err)
		}
		w.r.Class("alive-errdying")
	}
	return err
}

func (w *kworld) newWorker(sc KW, how string) *kwrk {
	w.mu.Lock()
	k := &kwrk{kw: w, sc: sc, id: len(w.workers), how: how, killc: make(chan struct{}), exitc: make(chan error, 1), dead: make(chan struct{})}
	w.workers = append(w.workers, k)
	w.mu.Unlock()
	if sc.Life < 0 {
		k.run() // already finished
		return k
	}
	go k.run()
	return k
}

func runKCase(t *testing.T, cc any, r *Res) {
	w := &kworld{c: cc.(*KCase), r: r, owns: map[error]bool{}, winner: -1}
	// The variant of an error depends on its number, so begin anywhere.
	w.ids = (13*len(w.c.Ops) + 7*len(w.c.Init) + w.c.Work.MS + 3*w.c.Gosched) % 70
	bubble(t, r, func() []string { return []string{"C22"} }, w.main)
	if len(r.Viol) > 0 {
		r.Trace = w.trace
	}
}

var panicErr = errors.New("a panic value that is an error")

func (w *kworld) work(inv int) func() error {
	return func() (err error) {
		w.mu.Lock()
		w.workBegan++
		w.ev("work of invoke %d begins", inv)
		w.winner = inv
		if w.workBegan > 1 {
			w.fail("C24", "work functions were run %d times", w.workBegan)
		}
		w.mu.Unlock()
		w.gosched()
		sc := w.c.Work
		var what string
		defer func() {
			w.mu.Lock()
			w.workEnded, w.workT = true, w.now()
			w.workSeq = w.ev("work ends %v panic=%q", err, what)
			w.events = append(w.events, &kevent{t: w.workT, err: err, what: what})
			w.mu.Unlock()
		}()
		for _, a := range sc.Adds {
			if e := w.add(a); e != nil {
				return jerrors.Annotate(e, "adding")
			}
		}
		dying := w.cat.Dying()
		var tm <-chan time.Time
		if sc.Mode != 0 {
			tm = time.After(time.Duration(sc.MS) * time.Millisecond)
		}
		if sc.Mode == 1 {
			dying = nil
		}
		select {
		case <-tm:
		case <-dying:
			if sc.Late > 0 {
				select {
				case <-time.After(time.Duration(sc.Late) * time.Millisecond):
				case <-w.closing:
				}
			}
		case <-w.closing:
		}
		w.gosched()
		switch sc.Pan {
		case 1:
			what = "blow up 42"
			panic("blow up 42")
		case 2:
			what = panicErr.Error()
			panic(panicErr)
		case 3:
			what = "runtime error"
			var m map[string]int
			m["x"] = 1
		}
		return w.mkErr(sc.Err)
	}
}

// add hands a new worker over and judges the answer.
func (w *kworld) add(sc KW) error {
	k := w.newWorker(sc, "add")
	w.mu.Lock()
	k.callT = w.now()
	k.callSeq = w.ev("Add worker %d", k.id)
	w.mu.Unlock()
	before := w.chanDying()
	err := w.cat.Add(k.dressed())
	after := w.chanDying()
	w.mu.Lock()
	defer w.mu.Unlock()
	k.ret, k.retErr, k.retT = true, err, w.now()
	k.retSeq = w.ev("Add worker %d returned %v", k.id, err)
	if err == nil {
		k.owned, k.addT, k.addSeq = true, k.retT, k.retSeq
		w.r.Class("added")
		return nil
	}
	w.r.Class("add-failed")
	_ = before
	if !after {
		w.fail("C21", "Add failed (%v) at %v though the catacomb is alive", err, k.retT)
	}
	if k.finSeq == 0 {
		w.fail("C21", "Add of worker %d failed at %v but the worker has not finished", k.id, k.retT)
		return err
	}
	if k.killSeq == 0 && k.sc.Life == 0 && k.clientSeq == 0 {
		w.fail("C21", "Add of worker %d failed at %v but the worker was not killed", k.id, k.retT)
	}
	want := k.finT
	if want < k.callT {
		want = k.callT
	}
	if k.retT != want {
		w.fail("C21", "failed Add of worker %d (called %v, finished %v) returned only at %v", k.id, k.callT, k.finT, k.retT)
	}
	if k.err != nil {
		if !errIs(err, k.err) {
			w.fail("C21", "failed Add of worker %d returned %v, the worker finished with %v", k.id, err, k.err)
		}
	} else if own := w.cat.ErrDying(); !errors.Is(err, own) {
		w.fail("C21", "failed Add of worker %d (which finished without error) returned %v, want %v", k.id, err, own)
	}
	return err
}

func (w *kworld) do(op KOp) {
	switch op.Op {
	case "add":
		w.add(op.W)
	case "kill":
		err := w.mkErr(op.E)
		w.mu.Lock()
		e := &kevent{t: w.now(), err: err, kill: true}
		w.ev("Kill(%v)", err)
		w.events = append(w.events, e)
		w.mu.Unlock()
		func() {
			defer func() {
				if p := recover(); p != nil {
					w.fail("C23", "Kill(%v) panicked: %v", err, p)
				}
			}()
			w.cat.Kill(err)
		}()
	case "exit", "wkill":
		w.mu.Lock()
		var live []*kwrk
		for _, k := range w.workers {
			if k.finSeq == 0 {
				live = append(live, k)
			}
		}
		w.mu.Unlock()
		if len(live) == 0 {
			return
		}
		k := live[op.N%len(live)]
		if op.Op == "wkill" {
			k.kill(true)
			return
		}
		select {
		case k.exitc <- w.mkErr(op.E):
		default:
		}
	case "context":
		w.context(op)
	case "badinvoke":
		w.badInvoke(op)
	case "errdying":
		w.errDying()
	}
}

type kkey struct{}

func (w *kworld) context(op KOp) {
	x := &kctx{n: op.N, parentT: -1}
	var parent context.Context
	switch op.N {
	case 0:
		parent = nil
	case 1:
		parent = context.Background()
	case 2:
		parent = context.WithValue(context.Background(), kkey{}, 42)
	default:
		p, cancel := context.WithCancel(context.WithValue(context.Background(), kkey{}, 43))
		parent = p
		w.mu.Lock()
		w.cancelPar = append(w.cancelPar, cancel)
		x.parentT = w.now() + time.Duration(op.MS)*time.Millisecond
		w.mu.Unlock()
		if op.MS == 0 {
			cancel()
		} else {
			time.AfterFunc(time.Duration(op.MS)*time.Millisecond, cancel)
		}
	}
	if parent != nil {
		parent = oddCtx(parent, op.Odd)
	}
	x.ctx = w.cat.Context(parent)
	if x.ctx == nil {
		w.fail("C24", "Context returned nil")
		return
	}
	want := map[int]any{2: 42, 3: 43, 4: 43}[op.N]
	if got := x.ctx.Value(kkey{}); got != want {
		w.fail("C24", "Context lost the parent's value: %v, want %v", got, want)
	}
	w.mu.Lock()
	x.makeT = w.now()
	w.ctxs = append(w.ctxs, x)
	w.ev("Context %d made", op.N)
	w.mu.Unlock()
	x.stop = context.AfterFunc(x.ctx, func() {
		w.mu.Lock()
		defer w.mu.Unlock()
		x.done, x.doneT = true, w.now()
	})
}

// badInvoke makes an Invoke call that must fail.
func (w *kworld) badInvoke(op KOp) {
	ran := false
	ks := []*kwrk{w.newWorker(op.W, "bad")}
	for _, sc := range op.Ws {
		ks = append(ks, w.newWorker(sc, "bad"))
	}
	plan := catacomb.Plan{Name: "bad", Site: w.cat, Work: func() error { ran = true; return nil }}
	for i, k := range ks {
		if op.N == 3 && i == op.Nil {
			plan.Init = append(plan.Init, nil)
		}
		plan.Init = append(plan.Init, k.dressed())
	}
	switch op.N {
	case 0:
		plan.Name = ""
	case 1:
		plan.Site = nil
	case 2:
		plan.Work = nil
	case 3:
		if op.Nil >= len(ks) {
			plan.Init = append(plan.Init, nil)
		}
	}
	w.mu.Lock()
	for _, k := range ks {
		k.callT = w.now()
		w.ev("bad Invoke %d with worker %d", op.N, k.id)
	}
	w.mu.Unlock()
	verr := plan.Validate()
	if (verr != nil) != (op.N < 4) {
		w.fail("C24", "Validate of plan (defect %d) returned %v", op.N, verr)
	}
	err := catacomb.Invoke(plan)
	w.mu.Lock()
	defer w.mu.Unlock()
	w.ev("bad Invoke %d returned %v", op.N, err)
	w.r.Class("bad-invoke")
	if err == nil {
		w.fail("C24", "Invoke (defect %d) succeeded", op.N)
	}
	if ran {
		w.fail("C24", "Invoke (defect %d) ran its work", op.N)
	}
	for _, k := range ks {
		k.ret, k.retT, k.retErr = true, w.now(), err
		k.retSeq = w.seq
		w.judgeStopped(k, "failed Invoke")
	}
}

// judgeStopped judges a worker that a failed call must have stopped.
func (w *kworld) judgeStopped(k *kwrk, what string) {
	if k.finSeq == 0 || k.finSeq > k.retSeq {
		w.fail("C21", "%s returned at %v but worker %d has not finished", what, k.retT, k.id)
		return
	}
	if k.killSeq == 0 && k.sc.Life == 0 && k.clientSeq == 0 && k.sc.Kill >= 0 && !k.exited() {
		w.fail("C21", "%s returned at %v but worker %d was not killed", what, k.retT, k.id)
	}
}

func (k *kwrk) exited() bool { return k.killSeq == 0 || k.killSeq > k.finSeq }

func (w *kworld) main() {
	c := w.c
	w.t0 = time.Now()
	w.closing = make(chan struct{})
	w.cat = &catacomb.Catacomb{}
	w.other = &catacomb.Catacomb{}
	w.other.Kill(nil)
	w.otherErr = w.other.ErrDying()
	step := func(op KOp) {
		if op.Op == "sleep" {
			psleep(op.MS)
			synctest.Wait()
			w.checkQuiet()
			return
		}
		go w.do(op)
		if !op.Async {
			synctest.Wait()
			w.checkQuiet()
		}
	}
	for _, op := range c.Pre {
		step(op)
	}
	// Invoke, possibly several at once.
	type inv struct {
		n    int
		plan catacomb.Plan
		ws   []*kwrk
		err  error
		ret  bool
	}
	var invs []*inv
	for i := 0; i <= c.Compete; i++ {
		v := &inv{n: i}
		scs := c.Init
		if i > 0 {
			scs = []KW{{Kill: i}}
		}
		for _, sc := range scs {
			k := w.newWorker(sc, "init")
			v.ws = append(v.ws, k)
			v.plan.Init = append(v.plan.Init, k.dressed())
		}
		v.plan.Name, v.plan.Site, v.plan.Work = planNames[c.Name%len(planNames)], w.cat, w.work(i)
		invs = append(invs, v)
	}
	synctest.Wait()
	var spares []*kwrk
	for _, v := range invs {
		v := v
		go func() {
			w.gosched()
			w.mu.Lock()
			callT := w.now()
			callSeq := w.ev("Invoke %d", v.n)
			w.mu.Unlock()
			err := catacomb.Invoke(v.plan)
			w.mu.Lock()
			v.err, v.ret = err, true
			retSeq := w.ev("Invoke %d returned %v", v.n, err)
			if err == nil {
				w.invoked, w.invokeT = true, w.now()
			}
			for _, k := range v.ws {
				k.callT, k.callSeq, k.ret, k.retT, k.retSeq = callT, callSeq, true, w.now(), retSeq
				if err == nil {
					k.owned, k.addT, k.addSeq = true, w.now(), callSeq
				} else {
					k.how = "loser"
					w.judgeStopped(k, "failed competing Invoke")
				}
			}
			w.mu.Unlock()
			if err == nil && c.Mutate {
				for i := range v.plan.Init {
					sp := w.newWorker(KW{}, "spare")
					w.mu.Lock()
					spares = append(spares, sp)
					w.mu.Unlock()
					v.plan.Init[i] = sp
				}
			}
		}()
	}
	go func() {
		err := w.cat.Wait()
		w.mu.Lock()
		defer w.mu.Unlock()
		w.waitDone, w.waitErr, w.waitT = true, err, w.now()
		w.waitSeq = w.ev("Wait returned %v", err)
	}()
	synctest.Wait()
	time.Sleep(time.Duration(c.Compete) * 100 * time.Microsecond) // stays below any other time step
	synctest.Wait()
	w.checkQuiet()
	if c.Release > 0 && !w.chanDying() {
		w.release(c.Release)
	}
	for _, op := range c.Ops {
		step(op)
	}
	synctest.Wait()
	w.checkQuiet()
	// End.
	if !w.chanDying() {
		w.do(KOp{Op: "kill"})
		synctest.Wait()
		w.checkQuiet()
	}
	for i := 0; i < 3; i++ {
		time.Sleep(settleTime)
		synctest.Wait()
		w.checkQuiet()
	}
	nOK := 0
	for _, v := range invs {
		if !v.ret {
			w.fail("C24", "Invoke never returned")
		} else if v.err == nil {
			nOK++
			if w.winner != v.n {
				w.fail("C24", "Invoke %d succeeded but the work of %d was run", v.n, w.winner)
			}
		}
	}
	if nOK != 1 {
		w.fail("C24", "%d of %d competing Invoke calls succeeded", nOK, len(invs))
	}
	if len(invs) > 1 {
		w.r.Class("competing-invokes")
	}
	for _, sp := range spares {
		if sp.killSeq > 0 {
			w.fail("C24", "worker put into the plan after Invoke was killed")
			w.fail("C21", "worker put into the plan after Invoke was killed")
		}
		w.r.Class("mutated-plan")
	}
	if w.waitDone {
		// Kill after death changes nothing.
		for _, e := range []KErr{{}, {K: "sim"}, {K: "own"}, {K: "other"}, {K: "tombdying"}, {K: "tombalive"}} {
			err := w.mkErr(e)
			func() {
				defer func() {
					if p := recover(); p != nil {
						w.fail("C23", "Kill(%v) after death panicked: %v", err, p)
					}
				}()
				w.cat.Kill(err)
			}()
			if got := w.cat.Err(); !eqErr(got, w.waitErr) {
				w.fail("C23", "Kill(%v) after death changed the error from %v to %v", err, w.waitErr, got)
				break
			}
		}
		if got := w.cat.Wait(); !eqErr(got, w.waitErr) {
			w.fail("C23", "Wait returned %v first, later %v", w.waitErr, got)
		}
		k := w.newWorker(KW{Kill: 1, KErr: KErr{K: "sim"}}, "add")
		done := make(chan struct{})
		go func() {
			defer close(done)
			err := w.cat.Add(k.dressed())
			if err == nil || k.finSeq == 0 || !errIs(err, k.err) {
				w.fail("C21", "Add to a dead catacomb returned %v", err)
			}
		}()
		time.Sleep(settleTime)
		synctest.Wait()
		select {
		case <-done:
		default:
			w.fail("C21", "Add to a dead catacomb did not return")
		}
	}
	close(w.closing)
	for _, f := range w.cancelPar {
		f()
	}
	for _, x := range w.ctxs {
		x.stop()
	}
	synctest.Wait()
	time.Sleep(settleTime)
}

type relWorker struct {
	done chan struct{}
	pad  [64]int
}

func (r *relWorker) Kill()       {}
func (r *relWorker) Wait() error { <-r.done; return nil }

// release adds workers that end cleanly and checks that nothing keeps them.
func (w *kworld) release(n int) {
	var ptrs []weak.Pointer[relWorker]
	var mu sync.Mutex
	before := countGoroutines()
	for i := 0; i < n; i++ {
		go func() {
			r := &relWorker{done: make(chan struct{})}
			mu.Lock()
			ptrs = append(ptrs, weak.Make(r))
			mu.Unlock()
			err := w.cat.Add(r)
			close(r.done)
			if err != nil {
				mu.Lock()
				ptrs = nil
				mu.Unlock()
			}
		}()
	}
	synctest.Wait()
	if w.chanDying() {
		return
	}
	w.r.Class("release")
	grown := n
	for try := 0; try < 50 && grown > n/2; try++ {
		runtime.Gosched() // let goroutines that have ended disappear
		grown = countGoroutines() - before
	}
	if grown > n/2 {
		w.fail("C22", "%d workers that finished without error left %d goroutines behind", n, grown)
	}
	left := 0
	for try := 0; try < 5; try++ {
		runtime.GC()
		left = 0
		for _, p := range ptrs {
			if p.Value() != nil {
				left++
			}
		}
		if left == 0 {
			return
		}
	}
	w.fail("C22", "%d of %d workers that finished without error are still referenced", left, n)
}

// ---- oracle ----

// dyingT returns the first moment the catacomb had a reason to die.
func (w *kworld) dyingT() (time.Duration, bool) {
	d, ok := time.Duration(1<<62), false
	put := func(t time.Duration) {
		if t < d {
			d = t
		}
		ok = true
	}
	for _, e := range w.events {
		put(e.t)
	}
	for _, k := range w.workers {
		if k.owned && k.finSeq > 0 && k.err != nil {
			put(maxDur(k.finT, k.addT))
		}
	}
	return d, ok
}

func maxDur(a, b time.Duration) time.Duration {
	if a > b {
		return a
	}
	return b
}

// checkQuiet judges the catacomb when all that belongs to this moment is done.
func (w *kworld) checkQuiet() {
	w.mu.Lock()
	defer w.mu.Unlock()
	now := w.now()
	d, dying := w.dyingT()
	if got := w.chanDying(); got != dying {
		w.fail("C22", "at %v the catacomb is dying: %v, expected %v", now, got, dying)
		return
	}
	// Death.
	all := w.invoked && w.workEnded
	last := maxDur(d, w.workT)
	last = maxDur(last, w.invokeT)
	for _, k := range w.workers {
		if k.owned && k.finSeq == 0 {
			all = false
		} else if k.owned {
			last = maxDur(last, maxDur(k.finT, k.addT))
			if w.waitDone && k.finSeq > w.waitSeq {
				w.fail("C21", "catacomb dead at %v before worker %d finished", w.waitT, k.id)
			}
		}
	}
	all = all && dying
	dead := false
	select {
	case <-w.cat.Dead():
		dead = true
	default:
	}
	if dead != all {
		w.fail("C22", "at %v the catacomb is dead: %v, expected %v (dying %v, work ended %v)", now, dead, all, dying, w.workEnded)
		if dead {
			for _, k := range w.workers {
				if k.owned && k.finSeq == 0 {
					w.fail("C21", "catacomb dead at %v but worker %d has not finished", now, k.id)
				}
			}
		}
		return
	}
	if dead != w.waitDone {
		w.fail("C22", "at %v dead: %v, Wait returned: %v", now, dead, w.waitDone)
		return
	}
	if dead && w.waitT != last {
		w.fail("C22", "Wait returned at %v, everything had finished at %v", w.waitT, last)
	}
	// Workers.
	for _, k := range w.workers {
		if k.how == "add" && k.callSeq > 0 && !k.ret {
			if !dying || k.finSeq > 0 {
				w.fail("C21", "Add of worker %d called at %v is still pending at %v (dying %v, worker finished %v)", k.id, k.callT, now, dying, k.finSeq > 0)
			}
			if dying && k.killSeq == 0 && k.finSeq == 0 {
				w.fail("C21", "Add of worker %d is pending and the worker was not killed", k.id)
			}
			w.r.Class("add-waiting")
			continue
		}
		if !k.owned {
			continue
		}
		if k.killSeq > 0 && (!dying || k.killT < d) && (k.finSeq == 0 || k.killSeq < k.finSeq) {
			w.fail("C21", "worker %d was killed at %v while the catacomb was alive", k.id, k.killT)
		}
		if dying {
			must := maxDur(d, k.addT)
			if must > now || k.finSeq > 0 && k.finT <= must {
				continue
			}
			w.r.Class("must-kill")
			if k.finSeq == 0 || k.finT > k.addT && k.clientSeq == 0 {
				w.r.Class("slow-stop")
			}
			if k.killSeq == 0 || k.killT > must {
				w.fail("C21", "worker %d was not killed when the catacomb was dying at %v (added %v, killed %v at %v)", k.id, d, k.addT, k.killSeq > 0, k.killT)
			}
		} else if k.finSeq > 0 {
			w.r.Class("clean-end")
		}
	}
	// Contexts.
	for _, x := range w.ctxs {
		want, must := time.Duration(1<<62), false
		if dying {
			want, must = d, true
		}
		if x.parentT >= 0 && x.parentT <= now && x.parentT < want {
			want, must = x.parentT, true
		}
		want = maxDur(want, x.makeT)
		if x.done != must || (x.ctx.Err() != nil) != must {
			w.fail("C24", "at %v a context made at %v is done: %v, expected %v", now, x.makeT, x.done, must)
		} else if must && x.doneT != want {
			w.fail("C24", "a context made at %v was done at %v, expected %v", x.makeT, x.doneT, want)
		}
		w.r.Class("context")
	}
	w.checkErr(d, dying, dead)
}

// checkErr judges the error reported so far.
func (w *kworld) checkErr(d time.Duration, dying, dead bool) {
	got := w.cat.Err()
	if !dying {
		if got != tomb.ErrStillAlive {
			w.fail("C23", "Err of a live catacomb is %v", got)
		}
		return
	}
	w.owns[w.cat.ErrDying()] = true
	var evs []*kevent
	for _, e := range w.events {
		if !(e.kill && dead && e.t > w.waitT) {
			evs = append(evs, e)
		}
	}
	for _, k := range w.workers {
		if k.owned && k.finSeq > 0 && k.err != nil {
			evs = append(evs, &kevent{t: maxDur(k.finT, k.addT), err: k.err})
		}
	}
	nCause := 0
	for _, e := range evs {
		if e.t <= d {
			nCause++
		}
	}
	// The first non-nil error; at the same instant any of them.
	best := time.Duration(1 << 62)
	for _, e := range evs {
		if w.effective(e) && !w.maybeLate(e, d, nCause, dead) && e.t < best {
			best = e.t
		}
	}
	var cands []*kevent
	for _, e := range evs {
		if w.effective(e) && e.t <= best {
			cands = append(cands, e)
		}
	}
	if len(cands) > 1 {
		w.r.Class("several-errors")
	}
	if best == 1<<62 && got == nil {
		return
	}
	for _, e := range cands {
		if w.matches(e, got) {
			if w.misuse(e.err) {
				w.r.Class("misuse")
			}
			return
		}
	}
	var desc []string
	for _, e := range cands {
		desc = append(desc, fmt.Sprintf("%v at %v", e.err, e.t))
	}
	w.fail("C23", "catacomb's error is %v (nil allowed: %v), expected one of %v", got, best == 1<<62, desc)
}

// maybeLate tells that a Kill call at the very moment of death may have come
// too late.
func (w *kworld) maybeLate(e *kevent, d time.Duration, nCause int, dead bool) bool {
	return e.kill && dead && e.t == w.waitT && !(e.t == d && nCause == 1)
}

// effective tells that an error, once given to Kill, sets the result.
func (w *kworld) effective(e *kevent) bool {
	err := e.err
	if e.what != "" {
		return true
	}
	if err == nil {
		return false
	}
	for own := range w.owns {
		if errors.Is(err, own) {
			return false
		}
	}
	return true
}

func (w *kworld) misuse(err error) bool {
	return err == tomb.ErrDying || err == tomb.ErrStillAlive || errors.Is(err, w.otherErr)
}

func (w *kworld) matches(e *kevent, got error) bool {
	if got == nil {
		return false
	}
	if e.what != "" {
		if p, ok := got.(interface{ Panicked() bool }); ok && !p.Panicked() {
			return false // denies being a panic
		}
		st, ok := got.(interface{ StackTrace() []string })
		return strings.Contains(got.Error(), strings.TrimPrefix(e.what, "runtime error")) &&
			(e.what != "runtime error" || strings.Contains(got.Error(), "nil map")) &&
			ok && strings.Contains(strings.Join(st.StackTrace(), "\n"), "catacomb_run.go")
	}
	if w.misuse(e.err) {
		return got != tomb.ErrDying && got != tomb.ErrStillAlive && !eqErr(got, e.err) && !errors.Is(got, w.otherErr)
	}
	return eqErr(got, e.err)
}

func init() {
	register(&Scenario{Name: "catacomb", Gen: genKCase, New: func() any { return &KCase{} }, Run: runKCase})
	anyOf := func(keys ...string) func(map[string]int) bool {
		return func(c map[string]int) bool {
			for _, k := range keys {
				if c[k] > 0 {
					return true
				}
			}
			return false
		}
	}
	addCheck("C21", "catacomb histories (Init workers, Add, Kill, worker exits, competing and invalid Invokes); non-trivial when a handed-over worker had to be killed or an Add failed", anyOf("must-kill", "add-failed", "bad-invoke"), "catacomb")
	addCheck("C22", "catacomb histories; non-trivial when a worker ended cleanly while the catacomb lived, had to be killed slowly, or release was checked", anyOf("clean-end", "slow-stop", "release"), "catacomb")
	addCheck("C23", "catacomb histories; non-trivial when several errors competed, an error was misused, or ErrDying was used", anyOf("several-errors", "misuse", "own-errdying"), "catacomb")
	addCheck("C24", "catacomb histories; non-trivial when an Invoke had to fail, a plan was mutated or a context was followed", anyOf("bad-invoke", "competing-invokes", "mutated-plan", "context"), "catacomb")
}
