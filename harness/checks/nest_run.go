package checks

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/juju/clock"
	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/catacomb"
	"github.com/juju/worker/v4/dependency"
	"pgregory.net/rapid"
)

// NTry scripts one incarnation of a node.
type NTry struct {
	Start int  `json:"start,omitempty"` // ms until its start function returns
	SErr  bool `json:"serr,omitempty"`  // which then fails
	// A leaf's, or the work function of a catacomb's: how long until it ends
	// by itself (0 never), and whether with an error.
	Life int  `json:"life,omitempty"`
	Err  bool `json:"err,omitempty"`
	// How long it takes to stop, and whether an error then comes out.
	Kill int  `json:"kill,omitempty"`
	KErr bool `json:"kerr,omitempty"`
}

// NNode is a worker of the tree: a leaf, or a container with its workers.
type NNode struct {
	Kind  string   `json:"kind"`           // leaf, engine, runner, catacomb
	Mode  int      `json:"mode,omitempty"` // 0 every error is fatal, 1 errors restart, 2 errors are forgotten (runner)
	Rank  int      `json:"rank,omitempty"` // 0 first error counts, 1 highest, 2 lowest number (engine: 0 is 1)
	Delay int      `json:"delay,omitempty"`
	Late  int      `json:"late,omitempty"` // catacomb: how many of the kids are added by the work function
	Dep   int      `json:"dep,omitempty"`  // in an engine: declares the Dep'th earlier sibling (1 is the one before)
	Mute  bool     `json:"mute,omitempty"` // without Report
	Raw   bool     `json:"raw,omitempty"`  // an engine or runner given to its container as it is
	Tries []NTry   `json:"tries,omitempty"`
	Kids  []*NNode `json:"kids,omitempty"`
}

// NOp is one step.
type NOp struct {
	Op string `json:"op"` // report, kill (some live worker, from outside)
	N  int    `json:"n,omitempty"`
	MS int    `json:"ms,omitempty"`
}

// NCase is one tree of workers and what is done to it.
type NCase struct {
	Top     *NNode `json:"top"`
	Ops     []NOp  `json:"ops,omitempty"`
	Settle  bool   `json:"settle,omitempty"` // wait for everything to calm down before the end
	End     int    `json:"end,omitempty"`    // 0 Kill, 1 Stop, 2 several Kills and Stops at once
	Gosched int    `json:"gosched,omitempty"`
}

func genNCase(t *rapid.T, _ string) any {
	c := &NCase{}
	budget := 14
	ms := func(l string) int { return far(t, l, pick(t, l, 0, 0, 0, 3, 7, 12, 20, 45)) }
	try := func(pEnd int) NTry {
		y := NTry{Start: ms("start"), Kill: ms("kill"), KErr: prob(t, "kerr", 25), SErr: prob(t, "serr", 10)}
		if prob(t, "ends", pEnd) {
			y.Life = pick(t, "life", 5, 1, 9, 17, 30, 80)
			y.Err = prob(t, "err", 65)
		}
		return y
	}
	var node func(depth int) *NNode
	node = func(depth int) *NNode {
		n := &NNode{Kind: "leaf"}
		budget--
		if depth < 4 && budget > 0 && (depth == 0 || prob(t, "inner", 60-depth*8)) {
			n.Kind = pick(t, "kind", "engine", "runner", "catacomb")
		}
		pEnd := 55
		if n.Kind == "catacomb" {
			pEnd = 25
		}
		for i := rapid.IntRange(0, 3).Draw(t, "ntries"); i > 0; i-- {
			n.Tries = append(n.Tries, try(pEnd))
		}
		n.Mute = prob(t, "mute", 15)
		if n.Kind == "leaf" {
			return n
		}
		n.Mode = pick(t, "mode", 0, 0, 1, 1)
		if n.Kind == "runner" {
			n.Mode = pick(t, "rmode", 0, 1, 1, 2)
		}
		if n.Kind == "catacomb" {
			n.Mode = 0
		}
		n.Rank = rapid.IntRange(0, 2).Draw(t, "rank")
		n.Delay = pick(t, "delay", 10, 2, 25, 60)
		for i := rapid.IntRange(0, 4).Draw(t, "nkids"); i > 0 && budget > 0; i-- {
			k := node(depth + 1)
			if n.Kind == "engine" && len(n.Kids) > 0 && prob(t, "dep", 35) {
				k.Dep = rapid.IntRange(1, len(n.Kids)).Draw(t, "depn")
			} else if k.Kind == "engine" || k.Kind == "runner" {
				k.Raw = prob(t, "raw", 40)
			}
			n.Kids = append(n.Kids, k)
		}
		if n.Kind == "catacomb" && len(n.Kids) > 0 {
			n.Late = rapid.IntRange(0, len(n.Kids)).Draw(t, "late")
		}
		return n
	}
	c.Top = node(0)
	for i := rapid.IntRange(0, 8).Draw(t, "nops"); i > 0; i-- {
		o := NOp{Op: pick(t, "op", "report", "report", "kill"), MS: pick(t, "oms", 0, 1, 6, 13, 40, 150)}
		o.N = rapid.IntRange(0, 20).Draw(t, "on")
		c.Ops = append(c.Ops, o)
	}
	c.Settle = prob(t, "settle", 60)
	c.End = rapid.IntRange(0, 2).Draw(t, "end")
	c.Gosched = pick(t, "gs", 0, 1, 3)
	return c
}

// nErr is a scripted error.
type nErr struct{ n int }

func (e *nErr) Error() string { return fmt.Sprintf("scripted error %d", e.n) }

// Cause makes errors.Cause of some of them something else altogether.
func (e *nErr) Cause() error {
	if e.n%4 == 3 {
		return errInnermost
	}
	return nil
}

// ninc is one incarnation of a node.
type ninc struct {
	w     *nworld
	node  *NNode
	up    *ninc // the container it runs in
	att   *natt
	uid   int
	kids  []*natt
	inner worker.Worker
	// Times are relative to the beginning; -1 means not yet.
	born, killed, ended time.Duration
	ext                 bool // killed from outside before its container did
	extAt               time.Duration
	workEnd             time.Duration // catacomb: its work function ended by itself
	workErr             error
	err                 error
	addErr              []error
}

// natt is one call of a node's start function.
type natt struct {
	slot, n    int
	node       *NNode
	start, ret time.Duration
	err        error
	inc        *ninc
	saw        *ninc // the input's incarnation
	missing    bool
	ctx        context.Context
}

type nworld struct {
	c     *NCase
	mu    sync.Mutex
	t0    time.Time
	incs  []*ninc
	tries map[*NNode]int
	errN  int
	r     *Res
	lastE time.Duration // last time anything happened
	gs    int
	// closing makes everything scripted last forever from then on.
	log []string
}

func (w *nworld) now() time.Duration { return time.Since(w.t0) }

func (w *nworld) note(f string, a ...any) {
	w.lastE = w.now()
	w.log = append(w.log, fmt.Sprintf("%v ", w.now())+fmt.Sprintf(f, a...))
}

func (w *nworld) sched() {
	for i := 0; i < w.gs; i++ {
		runtime.Gosched()
	}
}

func (w *nworld) newErr() error {
	w.errN++
	return &nErr{w.errN}
}

// try takes the script of the node's next incarnation; afterwards it runs forever.
func (w *nworld) try(n *NNode) NTry {
	i := w.tries[n]
	w.tries[n]++
	if i < len(n.Tries) {
		return n.Tries[i]
	}
	return NTry{}
}

func (i *ninc) name() string { return fmt.Sprintf("%s#%d", i.node.Kind, i.uid) }

// Kill is the worker's.
func (i *ninc) Kill() {
	i.w.mu.Lock()
	if i.killed < 0 {
		i.killed = i.w.now()
		i.w.note("%s killed", i.name())
	}
	i.w.mu.Unlock()
	i.w.sched()
	i.inner.Kill()
}

// Wait is the worker's.
func (i *ninc) Wait() error { return i.inner.Wait() }

// Report is the worker's.
func (i *ninc) Report() map[string]interface{} {
	m := map[string]interface{}{"uid": i.uid}
	if r, ok := i.inner.(interface{ Report() map[string]interface{} }); ok {
		m["inner"] = r.Report()
	}
	if i.node.Kind == "catacomb" {
		in := map[string]interface{}{}
		i.w.mu.Lock()
		var ks []*ninc
		for _, a := range i.kids {
			if a.inc != nil && a.inc.ended < 0 {
				ks = append(ks, a.inc)
			}
		}
		i.w.mu.Unlock()
		for _, k := range ks {
			if !k.node.Mute {
				if r, ok := k.asWorker().(interface{ Report() map[string]interface{} }); ok {
					in[fmt.Sprint(k.uid)] = r.Report()
				}
			}
		}
		m["inner"] = in
	}
	return m
}

// nleaf is a worker without others.
type nleaf struct {
	w     *nworld
	y     NTry
	once  sync.Once
	killc chan struct{}
	done  chan struct{}
	err   error
}

func (l *nleaf) Kill()       { l.once.Do(func() { close(l.killc) }) }
func (l *nleaf) Wait() error { <-l.done; return l.err }

func (l *nleaf) run() {
	defer close(l.done)
	var c <-chan time.Time
	if l.y.Life > 0 {
		c = time.After(time.Duration(l.y.Life) * time.Millisecond)
	}
	fails := false
	select {
	case <-c:
		fails = l.y.Err
	case <-l.killc:
		if l.y.Kill > 0 {
			time.Sleep(time.Duration(l.y.Kill) * time.Millisecond)
		}
		fails = l.y.KErr
	}
	if fails {
		l.w.mu.Lock()
		l.err = l.w.newErr()
		l.w.mu.Unlock()
	}
}

type ncat struct{ catacomb.Catacomb }

func (c *ncat) Kill()       { c.Catacomb.Kill(nil) }
func (c *ncat) Wait() error { return c.Catacomb.Wait() }

// build makes a new incarnation of a node. Called without w.mu.
func (w *nworld) build(n *NNode, up *ninc, a *natt, y NTry) *ninc {
	w.mu.Lock()
	i := &ninc{w: w, node: n, up: up, att: a, uid: len(w.incs) + 1, born: w.now(), killed: -1, ended: -1, extAt: -1, workEnd: -1}
	w.incs = append(w.incs, i)
	if a != nil {
		a.inc = i
	}
	w.note("%s made in %v", i.name(), up.label())
	w.mu.Unlock()
	switch n.Kind {
	case "leaf":
		l := &nleaf{w: w, y: y, killc: make(chan struct{}), done: make(chan struct{})}
		i.inner = l
		go l.run()
	case "engine":
		i.inner = w.engine(i)
	case "runner":
		i.inner = w.runner(i)
	case "catacomb":
		i.inner = w.catacomb(i, y)
	}
	go func() {
		err := i.inner.Wait()
		w.mu.Lock()
		i.ended, i.err = w.now(), err
		w.note("%s ended: %v", i.name(), err)
		w.mu.Unlock()
	}()
	return i
}

func (i *ninc) label() string {
	if i == nil {
		return "nothing"
	}
	return i.name()
}

// raw tells that the container works on the inner engine or runner itself, so
// that it is not seen when it is killed.
func (i *ninc) raw() bool { return i.up != nil && i.node.Raw }

// asWorker is what the container gets.
func (i *ninc) asWorker() worker.Worker {
	switch {
	case i.raw() && i.node.Mute:
		return mute{Worker: i.inner}
	case i.raw():
		return i.inner
	case i.node.Mute:
		return mute{Worker: i}
	}
	return i
}

// startKid is the start function of a kid.
func (w *nworld) startKid(ctx context.Context, up *ninc, slot int, get func() (*ninc, bool)) (worker.Worker, error) {
	n := up.node.Kids[slot]
	w.mu.Lock()
	a := &natt{slot: slot, n: len(up.kids), node: n, start: w.now(), ret: -1, ctx: ctx}
	up.kids = append(up.kids, a)
	var y NTry
	w.note("start of kid %d (%s) in %s", slot, n.Kind, up.name())
	w.mu.Unlock()
	w.sched()
	if get != nil {
		in, ok := get()
		w.mu.Lock()
		a.saw = in
		w.mu.Unlock()
		if !ok {
			w.mu.Lock()
			defer w.mu.Unlock()
			a.missing, a.ret, a.err = true, w.now(), dependency.ErrMissing
			return nil, a.err
		}
	}
	w.mu.Lock()
	y = w.try(n)
	w.mu.Unlock()
	if y.Start > 0 {
		time.Sleep(time.Duration(y.Start) * time.Millisecond)
	}
	if y.SErr {
		w.mu.Lock()
		defer w.mu.Unlock()
		a.err = w.newErr()
		a.ret = w.now()
		w.note("start of kid %d in %s failed: %v", slot, up.name(), a.err)
		return nil, a.err
	}
	i := w.build(n, up, a, y)
	w.mu.Lock()
	a.ret = w.now()
	w.mu.Unlock()
	return i.asWorker(), nil
}

func isNErr(err error) bool {
	var e *nErr
	return errors.As(err, &e)
}

// nRoot is the scripted error in err, or err; a failed Add wraps the error.
func nRoot(err error) error {
	var e *nErr
	if errors.As(err, &e) {
		return e
	}
	return err
}

func nRank(mode int, a, b error) bool {
	var x, y *nErr
	errors.As(a, &x)
	errors.As(b, &y)
	if x == nil || y == nil {
		return y == nil
	}
	if mode == 2 {
		return x.n < y.n
	}
	return x.n > y.n
}

func (w *nworld) engine(i *ninc) worker.Worker {
	n := i.node
	d := time.Duration(n.Delay) * time.Millisecond
	e, err := dependency.NewEngine(dependency.EngineConfig{
		IsFatal: func(err error) bool { return n.Mode == 0 && isNErr(err) },
		WorstError: func(a, b error) error {
			if nRank(n.Rank, a, b) {
				return a
			}
			return b
		},
		ErrorDelay: d, BounceDelay: d,
		Clock: clock.WallClock, Metrics: dependency.DefaultMetrics(), Logger: quiet{},
	})
	if err != nil {
		panic(err)
	}
	for slot, k := range n.Kids {
		slot, k := slot, k
		m := dependency.Manifold{
			Output: func(in worker.Worker, out interface{}) error {
				*out.(**ninc) = w.of(bare(in))
				return nil
			},
			Start: func(ctx context.Context, g dependency.Getter) (worker.Worker, error) {
				var get func() (*ninc, bool)
				if k.Dep > 0 {
					get = func() (*ninc, bool) {
						var in *ninc
						err := g.Get(nName(slot-k.Dep), &in)
						if err != nil && !errors.Is(err, dependency.ErrMissing) {
							w.r.Fail("C06", "Get of a declared input: %v", err)
						}
						return in, err == nil
					}
				}
				return w.startKid(ctx, i, slot, get)
			},
		}
		if k.Dep > 0 {
			m.Inputs = []string{nName(slot - k.Dep)}
		}
		if err := e.Install(nName(slot), m); err != nil {
			// Possible only when the first ones already ended it.
			w.mu.Lock()
			i.addErr = append(i.addErr, err)
			w.mu.Unlock()
		}
	}
	return e
}

// of is the incarnation a worker stands for.
func (w *nworld) of(in worker.Worker) *ninc {
	if i, ok := in.(*ninc); ok {
		return i
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, i := range w.incs {
		if i.inner == in {
			return i
		}
	}
	return nil
}

func nName(slot int) string { return fmt.Sprintf("kid-%d", slot) }

func (w *nworld) runner(i *ninc) worker.Worker {
	n := i.node
	p := worker.RunnerParams{
		Name:          i.name(),
		IsFatal:       func(err error) bool { return n.Mode == 0 },
		ShouldRestart: func(error) bool { return n.Mode == 1 },
		RestartDelay:  time.Duration(n.Delay) * time.Millisecond,
		Logger:        quiet{},
	}
	if n.Rank > 0 {
		p.MoreImportant = func(a, b error) bool { return nRank(n.Rank, a, b) }
	}
	rn, err := worker.NewRunner(p)
	if err != nil {
		panic(err)
	}
	for slot := range n.Kids {
		slot := slot
		err := rn.StartWorker(context.Background(), nName(slot), func(ctx context.Context) (worker.Worker, error) {
			return w.startKid(ctx, i, slot, nil)
		})
		if err != nil {
			w.mu.Lock()
			i.addErr = append(i.addErr, err)
			w.mu.Unlock()
		}
	}
	return rn
}

func (w *nworld) catacomb(i *ninc, y NTry) worker.Worker {
	n := i.node
	cat := &ncat{}
	mk := func(slot int) worker.Worker {
		k := n.Kids[slot]
		w.mu.Lock()
		a := &natt{slot: slot, n: len(i.kids), node: k, start: w.now(), ret: w.now()}
		i.kids = append(i.kids, a)
		ky := w.try(k)
		w.mu.Unlock()
		return w.build(k, i, a, ky).asWorker()
	}
	first := len(n.Kids) - n.Late
	var init []worker.Worker
	for s := 0; s < first; s++ {
		init = append(init, mk(s))
	}
	err := catacomb.Invoke(catacomb.Plan{Name: i.name(), Site: &cat.Catacomb, Init: init, Work: func() error {
		for s := first; s < len(n.Kids); s++ {
			w.sched()
			if err := cat.Add(mk(s)); err != nil {
				w.mu.Lock()
				i.addErr = append(i.addErr, err)
				w.mu.Unlock()
				return err
			}
		}
		var c <-chan time.Time
		if y.Life > 0 {
			c = time.After(time.Duration(y.Life) * time.Millisecond)
		}
		fails := false
		select {
		case <-c:
			fails = y.Err
		case <-cat.Dying():
			if y.Kill > 0 {
				time.Sleep(time.Duration(y.Kill) * time.Millisecond)
			}
			fails = y.KErr
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		i.workEnd = w.now()
		if fails {
			i.workErr = w.newErr()
			return i.workErr
		}
		select {
		case <-cat.Dying():
			return cat.ErrDying()
		default:
			return nil
		}
	}})
	if err != nil {
		w.r.Fail("C24", "Invoke of a valid plan: %v", err)
	}
	return cat
}

type quiet struct{}

func (quiet) Tracef(string, ...interface{}) {}
func (quiet) Debugf(string, ...interface{}) {}
func (quiet) Infof(string, ...interface{})  {}
func (quiet) Errorf(string, ...interface{}) {}

func runNCase(t *testing.T, c *NCase, r *Res) {
	w := &nworld{c: c, tries: map[*NNode]int{}, r: r, gs: c.Gosched}
	defer func() {
		w.mu.Lock()
		r.Trace = append(r.Trace, w.log...)
		w.mu.Unlock()
	}()
	bubble(t, r, func() []string { return []string{"C32"} }, func() {
		w.t0 = time.Now()
		top := w.build(c.Top, nil, nil, w.tryTop(c.Top))
		synctest.Wait()
		for _, o := range c.Ops {
			if o.MS > 0 {
				time.Sleep(time.Duration(o.MS) * time.Millisecond)
			}
			synctest.Wait()
			switch o.Op {
			case "report":
				w.judgeReport(top)
			case "kill":
				if k := w.someLive(o.N); k != nil {
					k.inner.Kill()
					synctest.Wait()
				}
			}
			w.judgeNow(top)
		}
		if c.Settle {
			time.Sleep(settleTime)
			synctest.Wait()
			w.judgeReport(top)
			w.judgeNow(top)
			w.judgeSettled()
		}
		dead := worker.Dead(top)
		var wg sync.WaitGroup
		stop := func() {
			wg.Add(1)
			go func() {
				defer wg.Done()
				err := worker.Stop(top)
				w.mu.Lock()
				defer w.mu.Unlock()
				if err != top.inner.Wait() {
					r.Fail("C32", "Stop of the outermost returned %v, its Wait %v", err, top.inner.Wait())
				}
			}()
		}
		switch c.End {
		case 0:
			top.Kill()
		case 1:
			stop()
		case 2:
			for i := 0; i < 3; i++ {
				stop()
			}
			top.Kill()
		}
		synctest.Wait()
		w.judgeNow(top)
		w.judgeReport(top)
		time.Sleep(settleTime)
		synctest.Wait()
		select {
		case <-dead:
		default:
			r.Fail("C32", "the outermost was killed long ago and is not dead")
		}
		w.judgeAll(top)
	})
}

func (w *nworld) tryTop(n *NNode) NTry {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.try(n)
}

// someLive picks a live worker other than the outermost and notes that it was
// killed from outside.
func (w *nworld) someLive(n int) *ninc {
	w.mu.Lock()
	defer w.mu.Unlock()
	var live []*ninc
	for _, i := range w.incs {
		if i.up != nil && i.ended < 0 {
			live = append(live, i)
		}
	}
	if len(live) == 0 {
		return nil
	}
	i := live[n%len(live)]
	if i.extAt < 0 {
		i.extAt = w.now()
		w.r.Class("killed-inside")
		w.note("%s killed from outside", i.name())
	}
	return i
}

// dying is when and why a container began to stop (-1: not yet).
func (i *ninc) dying() time.Duration {
	d := time.Duration(-1)
	min := func(x time.Duration) {
		if x >= 0 && (d < 0 || x < d) {
			d = x
		}
	}
	min(i.killed)
	min(i.extAt)
	if i.raw() {
		// Its container has told it by then; the rest shows whether it has.
		if pd := i.up.dying(); pd >= 0 {
			if pd < i.born {
				pd = i.born
			}
			if i.ended < 0 || i.ended >= pd {
				min(pd)
			}
		}
	}
	if i.node.Kind == "catacomb" {
		min(i.workEnd)
	}
	for _, f := range i.fatals() {
		min(f.at)
	}
	return d
}

type nfatal struct {
	at  time.Duration
	err error
}

// fatals lists the errors inside that end the container.
func (i *ninc) fatals() (out []nfatal) {
	if i.node.Mode != 0 {
		return nil
	}
	if i.workErr != nil {
		out = append(out, nfatal{i.workEnd, i.workErr})
	}
	for _, a := range i.kids {
		if a.err != nil && !a.missing {
			out = append(out, nfatal{a.ret, a.err})
		}
		if a.inc != nil && a.inc.ended >= 0 && a.inc.err != nil {
			out = append(out, nfatal{a.inc.ended, a.inc.err})
		}
	}
	return out
}

// judgeNow judges what must be true at every quiet point.
func (w *nworld) judgeNow(top *ninc) {
	w.mu.Lock()
	defer w.mu.Unlock()
	now := w.now()
	for _, x := range w.incs {
		if x.node.Kind == "leaf" {
			continue
		}
		d := x.dying()
		open := 0
		for _, a := range x.kids {
			if a.ret < 0 || a.inc != nil && a.inc.ended < 0 {
				open++
			}
			if k := a.inc; k != nil && k.ended < 0 && d >= 0 && k.killed < 0 && !k.raw() {
				w.r.Fail("C32", "%s began to stop at %v, and %s inside it was not told to (now %v)", x.name(), d, k.name(), now)
			}
			if a.ret < 0 && d >= 0 && a.ctx != nil && a.ctx.Err() == nil {
				w.r.Fail("C32", "%s began to stop at %v, and the context of the start of its kid %d is not done (now %v)", x.name(), d, a.slot, now)
			}
		}
		if x.node.Kind == "catacomb" && x.workEnd < 0 {
			open++
			if len(x.addErr) > 0 {
				open--
			}
		}
		if x.ended >= 0 && open > 0 {
			w.r.Fail("C32", "%s finished at %v with %d things inside it still going on", x.name(), x.ended, open)
		}
		if x.ended >= 0 && d < 0 {
			w.r.Fail("C32", "%s finished at %v (%v) without a cause", x.name(), x.ended, x.err)
		}
		if x.ended < 0 && d >= 0 && open == 0 {
			w.r.Fail("C32", "%s began to stop at %v, everything inside it has finished, and it has not (now %v)", x.name(), d, now)
		}
	}
}

// judgeReport compares the outermost report with what is running inside.
func (w *nworld) judgeReport(top *ninc) {
	if top.node.Kind == "leaf" {
		return
	}
	rep := top.Report()
	synctest.Wait()
	w.mu.Lock()
	defer w.mu.Unlock()
	w.judgeRep(top, rep, 0)
}

func (w *nworld) judgeRep(x *ninc, rep map[string]interface{}, depth int) {
	if x.raw() {
		w.r.Class("raw-report")
		rep = map[string]interface{}{"inner": rep}
	} else if rep["uid"] != x.uid {
		w.r.Fail("C32", "the report of %s belongs to another worker: %v", x.name(), rep)
		return
	}
	if x.node.Kind == "leaf" {
		return
	}
	if depth > 0 {
		w.r.Class("nested-report")
	}
	if depth > 1 {
		w.r.Class("deep-report")
	}
	inner, _ := rep["inner"].(map[string]interface{})
	if inner == nil {
		w.r.Fail("C32", "%s gave no report: %v", x.name(), rep)
		return
	}
	sub := map[string]interface{}{}
	switch x.node.Kind {
	case "engine":
		sub, _ = inner["manifolds"].(map[string]interface{})
	case "runner":
		sub, _ = inner["workers"].(map[string]interface{})
	}
	live := map[int]*ninc{}
	for _, a := range x.kids {
		if a.inc != nil && a.inc.ended < 0 {
			live[a.slot] = a.inc
		}
	}
	if x.node.Kind == "catacomb" {
		for _, k := range live {
			if !k.node.Mute {
				r, _ := inner[fmt.Sprint(k.uid)].(map[string]interface{})
				w.judgeRep(k, r, depth+1)
			}
		}
		return
	}
	if x.node.Kind == "engine" && len(x.addErr) == 0 && len(sub) != len(x.node.Kids) {
		w.r.Fail("C32", "the report of %s lists %d manifolds of %d", x.name(), len(sub), len(x.node.Kids))
	}
	for slot := range x.node.Kids {
		e, _ := sub[nName(slot)].(map[string]interface{})
		k := live[slot]
		r, has := e["report"].(map[string]interface{})
		if k != nil && (k.killed == k.born || x.dying() >= 0 && k.born >= x.dying()) {
			continue // came too late; not taken over
		}
		switch {
		case k == nil && has:
			w.r.Fail("C32", "at %v the report of %s has a report for kid %d, which is not running: %v", w.now(), x.name(), slot, r)
		case k != nil && !has && !k.node.Mute && e["state"] == "stopping":
			// A runner gives no reports of workers it has told to stop.
		case k != nil && !has && !k.node.Mute:
			w.r.Fail("C32", "at %v the report of %s has no report of %s: %v", w.now(), x.name(), k.name(), e)
		case k != nil && has:
			if k.node.Mute {
				w.r.Fail("C32", "the report of %s has one of %s, which gives none", x.name(), k.name())
				continue
			}
			w.judgeRep(k, r, depth+1)
		}
		if k != nil {
			want := "started"
			if x.dying() >= 0 {
				want = "stopping"
			}
			if s := e["state"]; s != want && !(k.killed >= 0 && s == "stopping") {
				w.r.Fail("C32", "at %v %s inside %s is reported as %v, want %s", w.now(), k.name(), x.name(), s, want)
			}
		} else if s := e["state"]; s == "started" {
			w.r.Fail("C32", "at %v kid %d of %s is reported as started and does not run", w.now(), slot, x.name())
		}
	}
}

// judgeSettled judges a tree in which nothing happens any more.
func (w *nworld) judgeSettled() {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.now()-w.lastE < 5*time.Second {
		return // still busy
	}
	w.r.Class("settled")
	for _, x := range w.incs {
		if x.ended >= 0 || x.node.Kind == "leaf" || x.node.Kind == "catacomb" {
			continue
		}
		if x.dying() >= 0 {
			continue // judged by judgeNow
		}
		last := make([]*natt, len(x.node.Kids))
		for _, a := range x.kids {
			last[a.slot] = a
		}
		for slot, k := range x.node.Kids {
			a := last[slot]
			if a == nil {
				w.r.Fail("C32", "kid %d of %s was never started", slot, x.name())
				continue
			}
			running := a.inc != nil && a.inc.ended < 0
			failed := a.err != nil && !a.missing || a.inc != nil && a.inc.ended >= 0 && a.inc.err != nil
			if x.node.Mode == 1 && !running && failed {
				w.r.Fail("C32", "kid %d of %s failed and was not restarted", slot, x.name())
			}
			if k.Dep > 0 {
				var in *ninc
				if b := last[slot-k.Dep]; b != nil && b.inc != nil && b.inc.ended < 0 {
					in = b.inc
				}
				if running && a.saw != in {
					w.r.Fail("C32", "kid %d of %s runs on %s, and its input is now %s", slot, x.name(), a.saw.label(), in.label())
				}
				if in != nil && !running && a.missing {
					w.r.Fail("C32", "kid %d of %s was not restarted when its input came (%s)", slot, x.name(), in.name())
				}
				if running {
					w.r.Class("dependent-settled")
				}
			}
		}
	}
}

// judgeAll judges the whole history after the end.
func (w *nworld) judgeAll(top *ninc) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, i := range w.incs {
		if i.ended < 0 {
			w.r.Fail("C32", "%s never finished", i.name())
			return
		}
		if err := i.inner.Wait(); err != i.err {
			w.r.Fail("C32", "Wait of %s returned first %v, then %v", i.name(), i.err, err)
		}
		i.inner.Kill()
		if err := i.inner.Wait(); err != i.err {
			w.r.Fail("C32", "Wait of %s returned first %v, then, after another Kill, %v", i.name(), i.err, err)
		}
		if rp, ok := i.inner.(interface{ Report() map[string]interface{} }); ok {
			m := rp.Report()
			for _, sub := range []string{"manifolds", "workers"} {
				s, _ := m[sub].(map[string]interface{})
				for n, e := range s {
					if e, _ := e.(map[string]interface{}); e["report"] != nil || e["state"] == "started" {
						w.r.Fail("C32", "%s has finished, and its report says of %s: %v", i.name(), n, e)
					}
				}
			}
		}
	}
	depth := func(i *ninc) int {
		d := 0
		for ; i.up != nil; i = i.up {
			d++
		}
		return d
	}
	for _, x := range w.incs {
		if x.node.Kind == "leaf" {
			continue
		}
		d := x.dying()
		end := d
		lastEnd := map[int]time.Duration{}
		for _, a := range x.kids {
			if a.start > d && x.node.Kind != "catacomb" {
				w.r.Fail("C32", "%s began to stop at %v, and its kid %d was started at %v", x.name(), d, a.slot, a.start)
			}
			if le, ok := lastEnd[a.slot]; ok && (le < 0 || a.start < le) {
				w.r.Fail("C32", "kid %d of %s was started at %v, before the one before had finished (%v)", a.slot, x.name(), a.start, le)
			}
			e := a.ret
			if k := a.inc; k != nil {
				e = k.ended
				if k.up != nil && depth(k) > 1 && k.killed >= 0 && k.err != nil {
					w.r.Class("late-error")
				}
				if k.killed >= 0 {
					if k.node.Kind != "leaf" && len(k.kids) > 0 {
						w.r.Class("killed-container")
					}
					if a.node.Dep == 0 && k.killed < d {
						w.r.Fail("C32", "%s was killed at %v, and its container %s was not to stop until %v", k.name(), k.killed, x.name(), d)
					}
					at := d
					if k.born > at {
						at = k.born
					}
					if k.killed > at {
						w.r.Fail("C32", "%s was killed at %v, and its container %s had to stop at %v", k.name(), k.killed, x.name(), d)
					}
				} else if k.ended > d && !k.raw() {
					w.r.Fail("C32", "%s was never killed and ran until %v; its container %s had to stop at %v", k.name(), k.ended, x.name(), d)
				}
			}
			lastEnd[a.slot] = e
			if e > end {
				end = e
			}
		}
		if x.workEnd > end {
			end = x.workEnd
		}
		if x.ended != end {
			w.r.Fail("C32", "%s finished at %v, want %v, when the last thing inside it had (it began to stop at %v)", x.name(), x.ended, end, d)
		}
		w.judgeErr(x)
		w.judgeRestarts(x, d)
		if x.err != nil && x.up != nil {
			w.r.Class("error-passed-on")
			if x.up.up != nil && x.up.err == x.err {
				w.r.Class("error-passed-far")
			}
		}
	}
}

// judgeErr judges what a container's Wait returned.
func (w *nworld) judgeErr(x *ninc) {
	fs := x.fatals()
	if len(fs) == 0 {
		if x.err != nil {
			w.r.Fail("C32", "%s returned %v, and nothing inside failed in a way that counts", x.name(), x.err)
		}
		return
	}
	rank := x.node.Rank
	if x.node.Kind == "catacomb" {
		rank = 0
	} else if x.node.Kind == "engine" && rank == 0 {
		rank = 1
	}
	var ok []error
	best := fs[0]
	for _, f := range fs {
		if rank == 0 {
			if f.at < best.at {
				best = f
			}
		} else if nRank(rank, f.err, best.err) {
			best = f
		}
	}
	for _, f := range fs {
		if nRoot(f.err) == nRoot(best.err) || rank == 0 && f.at == best.at {
			ok = append(ok, f.err)
		}
	}
	for _, e := range ok {
		if nRoot(e) == nRoot(x.err) {
			return
		}
	}
	w.r.Fail("C32", "%s returned %v, want %v, of the errors inside %v", x.name(), x.err, ok, fs)
}

// judgeRestarts judges that exactly what failed inside a container came back.
func (w *nworld) judgeRestarts(x *ninc, dying time.Duration) {
	if x.node.Kind == "catacomb" {
		return
	}
	bySlot := map[int][]*natt{}
	for _, a := range x.kids {
		bySlot[a.slot] = append(bySlot[a.slot], a)
	}
	delay := time.Duration(x.node.Delay) * time.Millisecond
	lo, hi := delay, delay
	if x.node.Kind == "engine" {
		lo, hi = delay*9/10-time.Millisecond, delay*11/10+time.Millisecond
	}
	for slot, as := range bySlot {
		if x.node.Kids[slot].Dep > 0 {
			continue // also restarted for its input
		}
		if as[0].start != x.born {
			w.r.Fail("C32", "%s was made at %v and its kid %d started at %v", x.name(), x.born, slot, as[0].start)
		}
		for j, a := range as {
			end, err := a.ret, a.err
			if a.inc != nil {
				end, err = a.inc.ended, a.inc.err
			}
			back := x.node.Mode == 1 && err != nil
			if j+1 < len(as) {
				gap := as[j+1].start - end
				if !back || gap < lo || gap > hi {
					w.r.Fail("C32", "kid %d of %s ended at %v (%v) and was started again %v later (delay %v)", slot, x.name(), end, err, gap, delay)
				}
				w.r.Class("restarted-inside")
				if a.inc != nil && len(a.inc.kids) > 0 {
					w.r.Class("restarted-container")
				}
			} else if back && end+hi < dying {
				w.r.Fail("C32", "kid %d of %s ended at %v (%v) and was not started again before %v", slot, x.name(), end, err, dying)
			}
		}
	}
}

func init() {
	register(&Scenario{Name: "nest", Gen: genNCase, New: func() any { return &NCase{} },
		Run: func(t *testing.T, c any, r *Res) { runNCase(t, c.(*NCase), r) }})
	addCheck("C32", "trees of engines, runners, catacombs and leaf workers; non-trivial when a container inside another was restarted, killed with workers in it, passed an error on, or appeared in the outermost report", func(c map[string]int) bool {
		return c["restarted-container"]+c["killed-container"]+c["error-passed-on"]+c["nested-report"] > 0
	}, "nest")
}
