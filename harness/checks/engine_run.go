package checks

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/dependency"
)

const settleTime = 1e7 * time.Second

type obsRec struct {
	present bool
	known   bool // identity known
	inst    *ewrk
}

// eatt is one observed Start call.
type eatt struct {
	in       *einstall
	idx      int
	sc       EAtt
	tEnter   time.Duration
	seqEnter int
	returned bool
	tRet     time.Duration
	seqRet   int
	err      error
	w        *ewrk
	ctx      context.Context
	stopCtx  func() bool
	ctxT     time.Duration
	ctxSeq   int
	obs      map[int]obsRec
	getter   dependency.Getter
	rec      int
	recT     time.Duration
	self     bool
}

func (a *eatt) ended() bool {
	if !a.returned {
		return false
	}
	if a.self {
		return a.err != nil
	}
	return a.err != nil || a.w.finSeq > 0
}

func (a *eatt) endErr() error {
	if a.err != nil {
		return a.err
	}
	return a.w.err
}

func (a *eatt) tEnd() time.Duration {
	if a.err != nil {
		return a.tRet
	}
	return a.w.finT
}

func (a *eatt) seqEnd() int {
	if a.err != nil {
		return a.seqRet
	}
	return a.w.finSeq
}

// engineStopped tells that the engine certainly asked this run to stop before
// it ended.
func (a *eatt) engineStopped() bool {
	e := a.seqEnd()
	if a.ctxSeq > 0 && a.ctxSeq < e {
		return true
	}
	return a.w != nil && a.w.killSeq > 0 && a.w.killSeq < e
}

// filtered is the error as converted by the manifold's Filter.
func (a *eatt) filtered() error { return applyFilter(a.in.spec.Filter, a.endErr()) }

type einstall struct {
	id      int
	spec    *ESpec
	callT   time.Duration
	callSeq int
	ret     bool
	retSeq  int
	err     error
	atts    []*eatt
	recs    int
	gone    bool
}

func (in *einstall) ok() bool { return in.ret && in.err == nil }

// ewrk is a scripted worker.
type ewrk struct {
	w               *eworld
	a               *eatt
	id              int
	killc           chan struct{}
	exitc           chan error
	dead            chan struct{}
	err             error
	killT           time.Duration
	killSeq, finSeq int
	finT            time.Duration
}

func (k *ewrk) Kill() {
	k.w.mu.Lock()
	first := k.killSeq == 0
	if first {
		k.killT = k.w.now()
		k.killSeq = k.w.ev("kill %s#%d", nm(k.a.in.spec.Name), k.id)
	}
	k.w.mu.Unlock()
	if first {
		close(k.killc)
	}
}

func (k *ewrk) Wait() error {
	<-k.dead
	return k.err
}

// mute tells that the worker is handed over without its Report method.
func (k *ewrk) mute() bool { return k.id%5 == 3 }

func (k *ewrk) Report() map[string]interface{} {
	return map[string]interface{}{"inst": k.id}
}

func (k *ewrk) run(ctx context.Context) {
	sc := k.a.sc
	var life <-chan time.Time
	if sc.Life > 0 {
		tm := time.NewTimer(time.Duration(sc.Life) * time.Millisecond)
		defer tm.Stop()
		life = tm.C
	} else if sc.Life < 0 {
		c := make(chan time.Time, 1)
		c <- time.Time{}
		life = c // finished before it is handed over
	}
	var ctxc <-chan struct{}
	if sc.CtxDie {
		ctxc = ctx.Done()
	}
	var err error
	select {
	case <-life:
		err = sc.Exit.make(k.w.newID())
	case err = <-k.exitc:
	case <-ctxc:
		err = sc.KErr.make(k.w.newID())
	case <-k.killc:
		if sc.Kill > 0 {
			select {
			case <-time.After(time.Duration(sc.Kill) * time.Millisecond):
			case <-k.w.closing:
			}
		}
		err = sc.KErr.make(k.w.newID())
	case <-k.w.closing:
	}
	k.w.mu.Lock()
	k.err = err
	k.finT = k.w.now()
	k.finSeq = k.w.ev("finish %s#%d err=%v", nm(k.a.in.spec.Name), k.id, err)
	k.w.mu.Unlock()
	close(k.dead)
}

type outBox struct {
	called int
	in     worker.Worker
	from   *einstall
	err    error
}

type eworld struct {
	mu       sync.Mutex
	c        *ECase
	r        *Res
	t0       time.Time
	seq      int
	ids      int
	trace    []string
	engine   *dependency.Engine
	installs []*einstall
	closing  chan struct{}
	closed   bool
	nAtts    int
	runaway  bool

	killT   time.Duration
	killSeq int
	killRet bool // Kill has returned

	waitDone bool
	waitErr  error
	waitT    time.Duration
	waitSeq  int

	logs       []logLine
	logN       int
	settled    int // sequence number of the last idle point
	settles    []int
	hasSelf    bool
	pendingRep int
}

func nm(i int) string { return styled("n", i) }

func (w *eworld) now() time.Duration { return time.Since(w.t0) }

// ev appends to the history; w.mu must be held.
func (w *eworld) ev(format string, args ...any) int {
	w.seq++
	if len(w.trace) < 3000 {
		w.trace = append(w.trace, fmt.Sprintf("%4d %10v ", w.seq, w.now())+fmt.Sprintf(format, args...))
	}
	return w.seq
}

func (w *eworld) newID() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.ids++
	return w.ids
}

func (w *eworld) fail(prop, format string, args ...any) {
	w.r.Fail(prop, format, args...)
	if w.hasSelf && (prop == "C09" || prop == "C10") {
		w.r.Fail("C13", format, args...)
	}
}

// ---- callbacks ----

func psleep(ms int) {
	if ms > 0 {
		time.Sleep(time.Duration(ms) * time.Millisecond)
	}
}

type elogger struct{ w *eworld }

func (l elogger) log() {
	w := l.w
	if !w.c.Cfg.Gosched && w.c.Cfg.PLog == 0 {
		return
	}
	w.mu.Lock()
	w.logN++
	n := w.logN
	w.mu.Unlock()
	if w.c.Cfg.Gosched {
		for i := 0; i < (n*7)%4; i++ {
			runtime.Gosched()
		}
	}
	if w.c.Cfg.PLog > 0 && n%(w.c.Cfg.PLogMod+1) == 0 {
		psleep(w.c.Cfg.PLog)
	}
}
func (l elogger) Tracef(string, ...interface{}) { l.log() }
func (l elogger) Debugf(string, ...interface{}) { l.log() }
func (l elogger) Infof(f string, a ...interface{}) {
	l.keep("info", f, a)
	l.log()
}
func (l elogger) Errorf(f string, a ...interface{}) {
	l.keep("error", f, a)
	l.log()
}

// keep records what operators get to see.
func (l elogger) keep(level, f string, a []interface{}) {
	w := l.w
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.logs) < 3000 {
		w.logs = append(w.logs, logLine{level, fmt.Sprintf(f, a...)})
	}
}

type realClock struct{}

func (realClock) Now() time.Time                         { return time.Now() }
func (realClock) After(d time.Duration) <-chan time.Time { return time.After(d) }

// RecordStart implements dependency.Metrics.
func (w *eworld) RecordStart(name string) {
	w.mu.Lock()
	w.ev("recordstart %s", name)
	var last *eatt
	for _, in := range w.installs {
		if nm(in.spec.Name) != name {
			continue
		}
		for _, a := range in.atts {
			if a.returned && a.err == nil && (last == nil || a.seqEnter > last.seqEnter) {
				last = a
			}
		}
	}
	if last == nil {
		w.fail("C11", "start of %s recorded but no Start call produced a worker", name)
	} else {
		last.rec++
		last.recT = w.now()
		last.in.recs++
		if last.rec > 1 {
			w.fail("C11", "one start of %s recorded %d times", name, last.rec)
		}
	}
	w.mu.Unlock()
	psleep(w.c.Cfg.PRecord)
}

func (w *eworld) isFatal(err error) bool {
	psleep(w.c.Cfg.PFatal)
	return fatalFor(w.c.Cfg.Fatal)(err)
}

func (w *eworld) worst(a, b error) error {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if rankOf(a) >= rankOf(b) {
		return a
	}
	return b
}

var errNothing = errors.New("nothing went wrong")

type wrappedErr struct{ err error }

func (e *wrappedErr) Error() string { return "outer: " + e.err.Error() }
func (e *wrappedErr) Unwrap() error { return e.err }

// ---- manifolds ----

func (w *eworld) manifold(in *einstall) dependency.Manifold {
	s := in.spec
	var inputs []string
	for _, i := range s.Inputs {
		inputs = append(inputs, nm(i))
	}
	if s.Self {
		m := dependency.SelfManifold(w.engine)
		for _, foreign := range []worker.Worker{new(dependency.Engine), newBwrk(), nil, (*dependency.Engine)(nil)} {
			var in dependency.Installer
			var rep dependency.Reporter
			if m.Output(foreign, &in) == nil || m.Output(foreign, &rep) == nil || in != nil || rep != nil {
				w.fail("C13", "the self manifold's Output accepts the foreign worker %T", foreign)
			}
		}
		inner := m.Start
		m.Start = func(ctx context.Context, g dependency.Getter) (worker.Worker, error) {
			a := w.enter(in, ctx, g)
			wk, err := inner(ctx, g)
			w.mu.Lock()
			if wk != worker.Worker(w.engine) || err != nil {
				w.r.Fail("C13", "self manifold's Start returned %v, %v", wk, err)
			}
			a.returned, a.tRet, a.err = true, w.now(), err
			a.seqRet = w.ev("startret self %s", nm(s.Name))
			w.mu.Unlock()
			return wk, err
		}
		return m
	}
	m := dependency.Manifold{Inputs: inputs, Start: w.startFn(in)}
	if f := filterFor(s.Filter); f != nil {
		m.Filter = func(err error) error {
			psleep(w.c.Cfg.PFilter)
			return f(err)
		}
	}
	switch w.c.Out[s.Name] {
	case 1:
		m.Output = func(wk worker.Worker, out interface{}) error {
			b := out.(*outBox)
			b.called++
			b.in, b.from = wk, in
			return nil
		}
	case 2:
		m.Output = func(wk worker.Worker, out interface{}) error {
			b := out.(*outBox)
			b.called++
			b.in, b.from = wk, in
			b.err = simErr{kPlain, 1, -b.called - w.newID()}
			return b.err
		}
	}
	return m
}

// enter records the beginning of a Start call.
func (w *eworld) enter(in *einstall, ctx context.Context, g dependency.Getter) *eatt {
	w.mu.Lock()
	a := &eatt{in: in, idx: len(in.atts), ctx: ctx, getter: g, tEnter: w.now(), obs: map[int]obsRec{}, self: in.spec.Self}
	a.seqEnter = w.ev("start %s (install %d, attempt %d)", nm(in.spec.Name), in.id, a.idx)
	for _, o := range w.installs {
		if o.spec.Name != in.spec.Name {
			continue
		}
		for _, p := range o.atts {
			if !p.ended() {
				w.fail("C01", "Start of %s (attempt %d) began at %v while attempt %d (install %d) begun at %v has not finished",
					nm(in.spec.Name), a.idx, a.tEnter, p.idx, o.id, p.tEnter)
			}
		}
	}
	if w.waitDone {
		w.fail("C09", "Start of %s called after Wait returned", nm(in.spec.Name))
	}
	if in.ret && in.err != nil {
		w.fail("C07", "Start of %s called although its Install was rejected: %v", nm(in.spec.Name), in.err)
	}
	if in.gone {
		w.fail("C08", "Start of %s called again after it was uninstalled", nm(in.spec.Name))
	}
	in.atts = append(in.atts, a)
	w.nAtts++
	if w.nAtts > 5000 && !w.runaway {
		w.runaway = true
		w.fail("C03", "more than 5000 Start calls")
		w.fail("C05", "more than 5000 Start calls")
	}
	w.mu.Unlock()
	a.stopCtx = context.AfterFunc(ctx, func() {
		w.mu.Lock()
		defer w.mu.Unlock()
		if a.ctxSeq == 0 {
			a.ctxT = w.now()
			a.ctxSeq = w.ev("ctxdone %s attempt %d", nm(in.spec.Name), a.idx)
		}
	})
	return a
}

func (w *eworld) isSelfName(i int) bool {
	for _, s := range w.c.Specs {
		if s.Self && s.Name == i {
			return true
		}
	}
	return false
}

// gets asks for every declared input and some undeclared names and compares
// with what was seen before in the same Start.
func (w *eworld) gets(a *eatt, declared []int, out []int) {
	g := a.getter
	isDecl := map[int]bool{}
	for _, d := range declared {
		isDecl[d] = true
	}
	for d := 0; d < nNames; d++ {
		if !isDecl[d] {
			if (d+a.idx)%3 != 0 && d != a.in.spec.Name {
				continue
			}
			box := &outBox{}
			if err := g.Get(nm(d), nil); !errors.Is(err, dependency.ErrMissing) {
				w.fail("C06", "%s: Get of undeclared %s with nil out: %v, want ErrMissing", nm(a.in.spec.Name), nm(d), err)
			}
			if err := g.Get(nm(d), box); !errors.Is(err, dependency.ErrMissing) || box.called > 0 {
				w.fail("C06", "%s: Get of undeclared %s: %v (Output called %d times), want ErrMissing", nm(a.in.spec.Name), nm(d), err, box.called)
			}
			continue
		}
		var o obsRec
		e1 := g.Get(nm(d), nil)
		o.present = e1 == nil
		if e1 != nil && !errors.Is(e1, dependency.ErrMissing) {
			w.fail("C06", "%s: Get(%s, nil) failed with %v, want nil or ErrMissing", nm(a.in.spec.Name), nm(d), e1)
		}
		box := &outBox{}
		if w.isSelfName(d) {
			var ins dependency.Installer
			var rep dependency.Reporter
			e2 := g.Get(nm(d), &ins)
			e3 := g.Get(nm(d), &rep)
			e4 := g.Get(nm(d), box)
			switch {
			case o.present:
				if e2 != nil || ins != dependency.Installer(w.engine) {
					w.fail("C13", "self manifold does not give the engine's Installer: %v", e2)
				}
				if e3 != nil || rep != dependency.Reporter(w.engine) {
					w.fail("C13", "self manifold does not give the engine's Reporter: %v", e3)
				}
				if e4 == nil {
					w.fail("C13", "self manifold accepted a %T", box)
				}
			case e2 == nil || e3 == nil || e4 == nil:
				w.fail("C13", "Get of a self manifold that is not running succeeded")
			}
			w.putObs(a, d, o)
			continue
		}
		e2 := g.Get(nm(d), box)
		switch {
		case !o.present:
			if !errors.Is(e2, dependency.ErrMissing) || box.called > 0 {
				w.fail("C06", "%s: Get(%s) of a missing input: %v (Output called %d times)", nm(a.in.spec.Name), nm(d), e2, box.called)
			}
		case out[d] == 0:
			if !errors.Is(e2, dependency.ErrMissing) {
				w.fail("C06", "%s: Get(%s) without Output: %v, want ErrMissing", nm(a.in.spec.Name), nm(d), e2)
			}
		default:
			if box.called != 1 {
				w.fail("C06", "%s: Get(%s) called Output %d times", nm(a.in.spec.Name), nm(d), box.called)
				break
			}
			if out[d] == 1 && e2 != nil {
				w.fail("C06", "%s: Get(%s) = %v though Output succeeded", nm(a.in.spec.Name), nm(d), e2)
			}
			if out[d] == 2 && !errors.Is(e2, box.err) {
				w.fail("C06", "%s: Get(%s) = %v, want Output's error %v", nm(a.in.spec.Name), nm(d), e2, box.err)
			}
			k, ok := bare(box.in).(*ewrk)
			if !ok || k.a.in.spec.Name != d || k.a.in != box.from {
				w.fail("C06", "%s: Output of %s (install %d) called with a foreign worker %v", nm(a.in.spec.Name), nm(d), box.from.id, box.in)
			} else {
				o.known, o.inst = true, k
			}
		}
		if e3 := g.Get(nm(d), nil); (e3 == nil) != o.present {
			w.fail("C06", "%s: two Get(%s, nil) calls in one Start disagree", nm(a.in.spec.Name), nm(d))
		}
		w.putObs(a, d, o)
	}
}

// judgeEntry compares what a Start call saw at its very beginning with what was
// running then. Called with w.mu held.
func (w *eworld) judgeEntry(a *eatt, d int, o obsRec) {
	if w.c.perturbed() || w.now() != a.tEnter || w.isSelfName(d) {
		return
	}
	live := false
	for _, in := range w.installs {
		if in.spec.Name != d {
			continue
		}
		for _, x := range in.atts {
			k := x.w
			if k == nil || x == a {
				continue
			}
			switch {
			case k.finSeq > 0 && k.finT < a.tEnter:
				if o.known && o.inst == k {
					w.fail("C06", "%s: Get(%s) in a Start that began at %v gave worker #%d, finished at %v", nm(a.in.spec.Name), nm(d), a.tEnter, k.id, k.finT)
				}
			case k.finSeq == 0 && x.rec > 0 && x.recT < a.tEnter:
				live = true
				w.r.Class("entry-judged")
				if k.killSeq > 0 {
					w.r.Class("entry-stopping-input")
				}
				if !o.present {
					w.fail("C06", "%s: Get(%s) in a Start that began at %v failed, though worker #%d has been running since %v", nm(a.in.spec.Name), nm(d), a.tEnter, k.id, x.recT)
				} else if o.known && o.inst != k {
					w.fail("C06", "%s: Get(%s) in a Start that began at %v gave worker #%d, #%d is running since %v", nm(a.in.spec.Name), nm(d), a.tEnter, o.inst.id, k.id, x.recT)
				}
			default:
				live = true // started or finished at this very moment
			}
		}
	}
	if o.present && !live {
		w.fail("C06", "%s: Get(%s) in a Start that began at %v succeeded, but no worker is running", nm(a.in.spec.Name), nm(d), a.tEnter)
	}
}

func (w *eworld) putObs(a *eatt, d int, o obsRec) {
	w.mu.Lock()
	defer w.mu.Unlock()
	prev, seen := a.obs[d]
	if seen && prev != o {
		w.fail("C06", "%s: Get(%s) changed within one Start", nm(a.in.spec.Name), nm(d))
	}
	a.obs[d] = o
	if !seen {
		w.judgeEntry(a, d, o)
		id := -1
		if o.inst != nil {
			id = o.inst.id
		}
		w.ev("  %s saw %s present=%v #%d", nm(a.in.spec.Name), nm(d), o.present, id)
	}
}

func (w *eworld) startFn(in *einstall) dependency.StartFunc {
	s := in.spec
	return func(ctx context.Context, g dependency.Getter) (worker.Worker, error) {
		a := w.enter(in, ctx, g)
		a.sc = EAtt{Need: s.Need, Mode: 1}
		if a.idx < len(s.Atts) {
			a.sc = s.Atts[a.idx]
		}
		w.mu.Lock()
		runaway, closed := w.runaway, w.closed
		w.mu.Unlock()
		if runaway || closed {
			select {
			case <-ctx.Done():
			case <-w.closing:
			}
			<-w.closing
			return nil, w.startRet(a, simErr{kPlain, 0, -1}, nil)
		}
		w.gets(a, s.Inputs, w.c.Out)
		if s.InstallSpec > 0 && s.InstallSpec <= len(w.c.Specs) && in.id < 40 && a.idx < 3 {
			for _, d := range s.Inputs {
				var ins dependency.Installer
				if w.isSelfName(d) && g.Get(nm(d), &ins) == nil {
					w.r.Class("self-install")
					w.install(s.InstallSpec-1, ins)
					break
				}
			}
		}
		sc := a.sc
		cancelled := false
		switch sc.Mode {
		case 0:
			if sc.Delay > 0 {
				select {
				case <-time.After(time.Duration(sc.Delay) * time.Millisecond):
				case <-w.closing:
				}
			}
		case 1:
			if sc.Delay > 0 {
				select {
				case <-time.After(time.Duration(sc.Delay) * time.Millisecond):
				case <-ctx.Done():
					cancelled = true
				case <-w.closing:
				}
			}
		case 2:
			select {
			case <-ctx.Done():
				cancelled = true
			case <-w.closing:
			}
		}
		if sc.Mid {
			w.gets(a, s.Inputs, w.c.Out)
		}
		if cancelled {
			err := sc.CErr.make(w.newID())
			if err == nil {
				err = ctx.Err()
			}
			return nil, w.startRet(a, err, nil)
		}
		if sc.Need {
			w.mu.Lock()
			missing := false
			for _, d := range s.Inputs {
				if !a.obs[d].present {
					missing = true
				}
			}
			w.mu.Unlock()
			if missing {
				return nil, w.startRet(a, SErr{K: kMissing, W: true}.make(w.newID()), nil)
			}
		}
		if err := sc.Err.make(w.newID()); err != nil {
			return nil, w.startRet(a, err, nil)
		}
		k := &ewrk{w: w, a: a, id: w.newID(), killc: make(chan struct{}), exitc: make(chan error, 1), dead: make(chan struct{})}
		w.startRet(a, nil, k)
		if sc.Life < 0 {
			k.run(ctx)
		} else {
			go k.run(ctx)
		}
		return dressed(k, k.id, k.killc, k.dead), nil
	}
}

func (w *eworld) startRet(a *eatt, err error, k *ewrk) error {
	w.mu.Lock()
	defer w.mu.Unlock()
	a.returned, a.tRet, a.err, a.w = true, w.now(), err, k
	if k != nil {
		a.seqRet = w.ev("startret %s attempt %d worker #%d", nm(a.in.spec.Name), a.idx, k.id)
	} else {
		a.seqRet = w.ev("startret %s attempt %d err=%v", nm(a.in.spec.Name), a.idx, err)
	}
	return err
}

// ---- operations ----

// install calls Install for the spec and judges the answer when certain.
func (w *eworld) install(si int, via dependency.Installer) {
	w.mu.Lock()
	in := &einstall{id: len(w.installs), spec: &w.c.Specs[si], callT: w.now()}
	exp := w.expectInstall(in.spec)
	in.callSeq = w.ev("install %s (spec %d, install %d)", nm(in.spec.Name), si, in.id)
	w.installs = append(w.installs, in)
	seq0 := w.seq
	w.mu.Unlock()
	err := via.Install(nm(in.spec.Name), w.manifold(in))
	w.mu.Lock()
	defer w.mu.Unlock()
	in.ret, in.err = true, err
	in.retSeq = w.ev("install %d returned %v", in.id, err)
	if err != nil {
		w.r.Class("install-rejected")
		if len(in.atts) > 0 {
			w.fail("C07", "Install of %s rejected (%v) but its Start was called", nm(in.spec.Name), err)
		}
	}
	// Judge only if nothing but this install's own consequences happened in
	// between, or the expectation does not depend on it.
	quiet := true
	for _, o := range w.installs {
		if o != in && o.callSeq > seq0 {
			quiet = false
		}
		if o == in || o.spec.Self {
			continue
		}
		for _, a := range o.atts {
			if a.ended() && a.seqEnd() > seq0 {
				quiet = false
			}
		}
	}
	if w.killSeq > 0 || w.waitDone || w.anyFatal() {
		quiet = false
	}
	switch {
	case exp == "reject-certain" && err == nil && w.expectInstallStill(in):
		w.fail("C07", "Install of %s succeeded though it must be rejected (name in use or cyclic)", nm(in.spec.Name))
	case exp == "accept" && quiet && err != nil:
		w.fail("C07", "Install of %s rejected though nothing forbids it: %v", nm(in.spec.Name), err)
		w.fail("C08", "Install of %s rejected though nothing forbids it: %v", nm(in.spec.Name), err)
	}
}

// expectInstallStill tells that no uninstall has happened that might have made
// room for the install.
func (w *eworld) expectInstallStill(in *einstall) bool {
	for _, o := range w.installs {
		if o == in || !o.ok() {
			continue
		}
		for _, a := range o.atts {
			if a.ended() && !a.self && a.seqEnd() > in.callSeq && kindOf(a.filtered()) == kUninstall {
				return false
			}
		}
	}
	return true
}

func (w *eworld) anyFatal() bool {
	f := fatalFor(w.c.Cfg.Fatal)
	for _, in := range w.installs {
		for _, a := range in.atts {
			if !a.self && a.ended() && f(a.filtered()) {
				return true
			}
		}
	}
	return false
}

// membership of an accepted install: 0 certainly gone, 1 maybe, 2 certainly installed.
func (w *eworld) membership(in *einstall) int {
	if !in.ret {
		return 1
	}
	if in.err != nil || in.gone {
		return 0
	}
	if len(in.atts) == 0 {
		return 2
	}
	last := in.atts[len(in.atts)-1]
	if last.self || !last.ended() || kindOf(last.filtered()) != kUninstall {
		return 2
	}
	if last.engineStopped() {
		return 2
	}
	return 1
}

func (w *eworld) expectInstall(s *ESpec) string {
	if w.killSeq > 0 || w.waitDone || w.anyFatal() {
		return "unknown"
	}
	certain, maybe := map[string][]int{}, map[string][]int{}
	inUse, maybeUse := false, false
	for _, o := range w.installs {
		switch w.membership(o) {
		case 2:
			certain[nm(o.spec.Name)] = o.spec.Inputs
			maybe[nm(o.spec.Name)] = append(append([]int(nil), maybe[nm(o.spec.Name)]...), o.spec.Inputs...)
			inUse = inUse || o.spec.Name == s.Name
			maybeUse = maybeUse || o.spec.Name == s.Name
		case 1:
			maybe[nm(o.spec.Name)] = append(append([]int(nil), maybe[nm(o.spec.Name)]...), o.spec.Inputs...)
			maybeUse = maybeUse || o.spec.Name == s.Name
		}
	}
	if inUse {
		return "reject-certain"
	}
	certain[nm(s.Name)] = s.Inputs
	if hasCycle(certain) {
		return "reject-certain"
	}
	maybe[nm(s.Name)] = append(append([]int(nil), maybe[nm(s.Name)]...), s.Inputs...)
	if !maybeUse && !hasCycle(maybe) {
		return "accept"
	}
	return "unknown"
}

// hasCycle is the reference cycle test (repeated removal of sources).
func hasCycle(g map[string][]int) bool {
	left := map[string]map[string]bool{}
	for n, ins := range g {
		left[n] = map[string]bool{}
		for _, i := range ins {
			if _, ok := g[nm(i)]; ok {
				left[n][nm(i)] = true
			}
		}
	}
	for len(left) > 0 {
		rm, found := "", false
		for n, deps := range left {
			if len(deps) == 0 {
				rm, found = n, true
				break
			}
		}
		if !found {
			return true
		}
		delete(left, rm)
		for _, deps := range left {
			delete(deps, rm)
		}
	}
	return false
}

// call runs f on a goroutine of its own and, unless async, waits for the
// bubble to become idle; a call that has not returned by then is stuck.
func (w *eworld) call(async bool, what string, props []string, f func()) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	if async {
		return
	}
	synctest.Wait()
	select {
	case <-done:
	default:
		if !w.c.perturbed() && !w.runaway {
			for _, p := range props {
				w.fail(p, "%s did not return", what)
			}
		}
	}
}

func (w *eworld) report() map[string]interface{} {
	w.mu.Lock()
	w.pendingRep++
	w.ev("report requested")
	wasDone, wasKilled := w.waitDone, w.killRet
	t0 := w.now()
	w.mu.Unlock()
	rep := w.engine.Report()
	w.mu.Lock()
	defer w.mu.Unlock()
	w.pendingRep--
	w.ev("report returned %v", rep[dependency.KeyState])
	st, _ := rep[dependency.KeyState].(string)
	okState := map[string]bool{"started": true, "stopping": true, "stopped": true}
	if w.killSeq == 0 && !w.anyFatal() {
		okState = map[string]bool{"started": true}
	} else if wasDone {
		okState = map[string]bool{"stopped": true}
	} else if wasKilled {
		delete(okState, "started")
	}
	if !okState[st] {
		w.fail("C11", "Report says engine state %q, possible: %v", st, okState)
	}
	w.checkReportError(rep, st, t0)
	return rep
}

// checkReportError judges the engine's own error in a report asked for at t0.
// Called with w.mu held.
func (w *eworld) checkReportError(rep map[string]interface{}, st string, t0 time.Duration) {
	e, present := rep[dependency.KeyError]
	text, isText := e.(string)
	if present && !isText {
		w.fail("C11", "engine error in a report is a %T", e)
		return
	}
	switch st {
	case "started":
		if present {
			w.fail("C11", "Report of a running engine has error %q", text)
		}
	case "stopped":
		if !w.waitDone {
			return
		}
		w.r.Class("report-finished")
		want := ""
		if w.waitErr != nil {
			w.r.Class("report-finished-err")
			want = w.waitErr.Error()
		}
		if present != (w.waitErr != nil) || text != want {
			w.fail("C11", "Report of a finished engine has error %q (present: %v), Wait returned %v", text, present, w.waitErr)
		}
	case "stopping":
		// best is the rank of the fatal errors that ended before t0, which
		// the engine must know of by now.
		f := fatalFor(w.c.Cfg.Fatal)
		best, ok := -2, false
		for _, in := range w.installs {
			for _, a := range in.atts {
				if a.self || !a.ended() {
					continue
				}
				fe := a.filtered()
				if !f(fe) {
					continue
				}
				if a.tEnd() < t0 && !w.c.perturbed() && rankOf(fe) > best {
					best = rankOf(fe)
				}
			}
		}
		for _, in := range w.installs {
			for _, a := range in.atts {
				if a.self || !a.ended() {
					continue
				}
				if fe := a.filtered(); f(fe) && fe.Error() == text && rankOf(fe) >= best {
					ok = true
				}
			}
		}
		if best > -2 {
			w.r.Class("report-stopping-fatal")
		}
		switch {
		case !present && best > -2:
			w.fail("C11", "Report of an engine stopping for a fatal error has no error")
		case present && !ok:
			w.fail("C11", "Report of a stopping engine has error %q, which is not the worst fatal error so far", text)
		}
	}
}

func (w *eworld) exit(name int, e SErr) {
	w.mu.Lock()
	var k *ewrk
	for _, in := range w.installs {
		if in.spec.Name != name || in.spec.Self {
			continue
		}
		for _, a := range in.atts {
			if a.w != nil && a.w.finSeq == 0 {
				k = a.w
			}
		}
	}
	if k != nil {
		w.ev("exit %s#%d", nm(name), k.id)
	}
	w.mu.Unlock()
	if k != nil {
		select {
		case k.exitc <- e.make(w.newID()):
		default:
		}
	}
}

func (w *eworld) kill() {
	w.mu.Lock()
	if w.killSeq == 0 {
		w.killT = w.now()
		w.killSeq = w.ev("KILL engine")
	}
	w.mu.Unlock()
	w.engine.Kill()
	w.mu.Lock()
	w.killRet = true
	w.mu.Unlock()
}

func runECase(t *testing.T, cc any, r *Res) {
	c := cc.(*ECase)
	nameStyle, sameText = c.Names, c.Same
	w := &eworld{c: c, r: r}
	// The variant of an error depends on its number, so begin anywhere.
	w.ids = (13*len(c.Ops) + 7*len(c.Specs) + c.Cfg.ErrorDelay + c.Cfg.BounceDelay + c.Cfg.Reset) % 70
	for _, s := range c.Specs {
		if s.Self {
			w.hasSelf = true
		}
	}
	bubble(t, r, func() []string {
		if w.hasSelf {
			return []string{"C09", "C13"}
		}
		return []string{"C09"}
	}, func() { w.main() })
	if len(r.Viol) > 0 {
		r.Trace = w.trace
	}
}

func (w *eworld) main() {
	c := w.c
	w.t0 = time.Now()
	w.closing = make(chan struct{})
	cfg := dependency.EngineConfig{
		IsFatal:          w.isFatal,
		WorstError:       w.worst,
		ErrorDelay:       time.Duration(c.Cfg.ErrorDelay) * time.Millisecond,
		BounceDelay:      time.Duration(c.Cfg.BounceDelay) * time.Millisecond,
		BackoffFactor:    c.Cfg.Factor,
		BackoffResetTime: time.Duration(c.Cfg.Reset) * time.Millisecond,
		MaxDelay:         time.Duration(c.Cfg.MaxDelay) * time.Millisecond,
		Clock:            realClock{},
		Metrics:          w,
		Logger:           elogger{w},
	}
	switch c.Cfg.Filter {
	case 1:
		cfg.Filter = func(err error) error {
			if err == nil {
				return nil
			}
			return &wrappedErr{err}
		}
	case 2:
		cfg.Filter = func(err error) error { return nil }
	case 3:
		cfg.Filter = func(err error) error {
			if err == nil {
				return errNothing
			}
			return err
		}
	}
	e, err := dependency.NewEngine(cfg)
	if err != nil {
		w.fail("C07", "NewEngine: %v", err)
		return
	}
	w.engine = e
	go func() {
		err := e.Wait()
		w.mu.Lock()
		defer w.mu.Unlock()
		w.waitDone, w.waitErr, w.waitT = true, err, w.now()
		w.waitSeq = w.ev("Wait returned %v", err)
	}()
	for _, op := range c.Ops {
		if w.runaway {
			break
		}
		switch op.Op {
		case "install":
			n := op.N % len(c.Specs)
			w.call(op.Async, "Install", []string{"C07"}, func() { w.install(n, w.engine) })
		case "sleep":
			psleep(op.MS)
		case "exit":
			w.exit(op.N, op.E)
			if !op.Async {
				synctest.Wait()
			}
		case "settle":
			w.settle()
		case "probe":
			w.probe()
		case "report":
			if op.Async || w.c.perturbed() {
				w.call(op.Async, "Report", []string{"C11"}, func() { w.report() })
				continue
			}
			synctest.Wait()
			var rep map[string]interface{}
			w.call(false, "Report", []string{"C11"}, func() { rep = w.report() })
			w.judgeManifolds(rep)
		case "kill":
			w.kill()
			if !op.Async {
				synctest.Wait()
			}
		}
	}
	w.finish()
}

// unwrapped removes one wrapping by the configured Filter.
func unwrapped(err error) error {
	if x, ok := err.(*wrappedErr); ok {
		return x.err
	}
	return err
}

// settle lets everything that is under way come to rest and judges the state.
func (w *eworld) settle() {
	time.Sleep(settleTime)
	synctest.Wait()
	if w.runaway {
		return
	}
	w.checkIdle()
}

func (w *eworld) finish() {
	w.mu.Lock()
	killed := w.killSeq > 0 || w.waitDone
	w.mu.Unlock()
	if !killed {
		w.kill()
	}
	if !w.runaway {
		time.Sleep(settleTime)
		synctest.Wait()
		w.checkIdle()
		w.checkEnd()
		w.call(false, "Report", []string{"C11", "C09"}, func() {
			if rep := w.report(); !w.c.perturbed() {
				w.judgeManifolds(rep)
			}
		})
		w.call(false, "Install", []string{"C09"}, func() {
			if err := w.engine.Install("late", dependency.Manifold{Start: func(context.Context, dependency.Getter) (worker.Worker, error) {
				w.fail("C09", "Start called after shutdown")
				return nil, dependency.ErrMissing
			}}); err == nil {
				w.fail("C09", "Install succeeded after shutdown")
			}
		})
	}
	if w.waitDone {
		w.call(false, "Wait", []string{"C09"}, func() {
			if got := w.engine.Wait(); fmt.Sprint(unwrapped(got)) != fmt.Sprint(unwrapped(w.waitErr)) {
				w.fail("C10", "a later Wait returned %v, the first one %v", got, w.waitErr)
			}
		})
	}
	// Release whatever the harness itself holds, so that what is left
	// belongs to the engine.
	w.mu.Lock()
	w.closed = true
	for _, in := range w.installs {
		for _, a := range in.atts {
			if a.stopCtx != nil {
				a.stopCtx()
			}
		}
	}
	w.mu.Unlock()
	close(w.closing)
	synctest.Wait()
	time.Sleep(settleTime)
}
