package checks

import (
	"context"
	"errors"
	"fmt"
	"io"

	jerrors "github.com/juju/errors"
	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/dependency"
	"gopkg.in/tomb.v2"
	"pgregory.net/rapid"
)

// Error kinds.
const (
	kNil = iota
	kPlain
	kFatal
	kMissing
	kBounce
	kUninstall
	kCustom
)

var kindNames = []string{"nil", "plain", "fatal", "missing", "bounce", "uninstall", "custom"}

// SErr is a scripted error: kind, rank and whether it is wrapped.
type SErr struct {
	K int  `json:"k,omitempty"`
	R int  `json:"r,omitempty"`
	W bool `json:"w,omitempty"`
	P int  `json:"p,omitempty"` // 1 from a panic with a stack, 2 only a stack, 3 one of ownErrs, 4 uncomparable
}

// simErr is the concrete error; ID identifies the occurrence.
type simErr struct{ K, R, ID int }

func (e simErr) Error() string {
	s := fmt.Sprintf("sim-%s-r%d-#%d", kindNames[e.K], e.R, e.ID)
	if e.K == kFatal && sameText {
		s = "sim-fatal"
	}
	if e.ID%7 == 3 {
		// Must not be taken for a format.
		s += " 100% of %d: %s%!"
	}
	if e.K == kPlain && e.R == 3 {
		s += tryTexts[(e.ID%7+7)%7]
	}
	return s
}

// tryTexts says "try again" in some places, and only nearly in others.
var tryTexts = []string{" please try again", " please try again later", "try again", " Try again", " please try  again", " TRY AGAIN", " tryagain"}

// Cause makes errors.Cause of some occurrences something else altogether.
func (e simErr) Cause() error {
	if e.ID > 0 && e.ID%5 == 2 {
		return errInnermost
	}
	return e
}

var errInnermost = errors.New("innermost cause, try again")

// specials are errors that some occurrences wrap. None of them means anything
// special to an engine, runner or catacomb that finds it in a worker's error.
var specials = []error{context.Canceled, context.DeadlineExceeded, worker.ErrDead, worker.ErrAborted, io.EOF, jerrors.NotFound}

// bareErrs are ordinary errors of the standard library that some workers end with.
var bareErrs = []error{context.Canceled, context.DeadlineExceeded, io.EOF}

// ownErrs adds errors with a meaning for tombs, which engines and runners are built on.
var ownErrs = append([]error{tomb.ErrDying, tomb.ErrStillAlive}, bareErrs...)

// Unwrap makes some occurrences satisfy errors.Is for a special error.
func (e simErr) Unwrap() error {
	if e.ID < 0 || e.ID%2 == 0 || e.ID/2 >= 1<<20 {
		return nil
	}
	return specials[e.ID/2%len(specials)]
}

// listErr is an error of a type whose values cannot be compared.
type listErr []error

func (e listErr) Error() string   { return e[0].Error() }
func (e listErr) Unwrap() []error { return e }

// eqErr tells whether two errors are identical.
func eqErr(a, b error) bool {
	x, ok := a.(listErr)
	y, ok2 := b.(listErr)
	if ok && ok2 {
		return &x[0] == &y[0]
	}
	return ok == ok2 && a == b
}

// errIs is errors.Is for targets that may be uncomparable.
func errIs(err, target error) bool {
	var l listErr
	if t, ok := target.(listErr); ok {
		return errors.As(err, &l) && eqErr(l, t)
	}
	return errors.Is(err, target)
}

func (e SErr) make(id int) error {
	switch e.K {
	case kNil:
		return nil
	case kMissing, kBounce, kUninstall:
		c := map[int]error{kMissing: dependency.ErrMissing, kBounce: dependency.ErrBounce, kUninstall: dependency.ErrUninstall}[e.K]
		if e.W {
			return jerrors.Annotatef(c, "occurrence %d", id)
		}
		if e.R == 3 {
			return fmt.Errorf("occurrence %d: %w", id, c)
		}
		return c
	}
	if e.P == 3 && e.K == kPlain {
		if e.W {
			return jerrors.Trace(ownErrs[id%len(ownErrs)])
		}
		return ownErrs[id%len(ownErrs)]
	}
	if e.W {
		return jerrors.Trace(simErr{e.K, e.R, id})
	}
	if e.P == 4 {
		return listErr{simErr{e.K, e.R, id}}
	}
	if e.P == 1 || e.P == 2 {
		return stackErr{simErr{e.K, e.R, id}, e.P == 1}
	}
	return simErr{e.K, e.R, id}
}

func kindOf(err error) int {
	var s simErr
	switch {
	case err == nil:
		return kNil
	case errors.As(err, &s):
		return s.K
	case errors.Is(err, dependency.ErrMissing):
		return kMissing
	case errors.Is(err, dependency.ErrBounce):
		return kBounce
	case errors.Is(err, dependency.ErrUninstall):
		return kUninstall
	}
	for _, b := range ownErrs {
		if errors.Is(err, b) {
			return kPlain
		}
	}
	return -1
}

func rankOf(err error) int {
	var s simErr
	if errors.As(err, &s) {
		return s.R
	}
	return -1
}

// EAtt scripts one Start call and the worker it makes.
type EAtt struct {
	Delay  int  `json:"delay,omitempty"`  // ms spent inside Start
	Mode   int  `json:"mode,omitempty"`   // 0 ignore ctx, 1 honour ctx, 2 block until ctx is done
	Need   bool `json:"need,omitempty"`   // ErrMissing if an input is missing
	Err    SErr `json:"err,omitempty"`    // result of Start
	CErr   SErr `json:"cerr,omitempty"`   // result of Start when ctx is done first (nil: ctx.Err())
	Life   int  `json:"life,omitempty"`   // ms until the worker ends by itself, 0 never, -1 ended already
	Exit   SErr `json:"exit,omitempty"`   // its error then
	Kill   int  `json:"kill,omitempty"`   // ms the worker takes to stop when killed
	KErr   SErr `json:"kerr,omitempty"`   // its error then
	CtxDie bool `json:"ctxdie,omitempty"` // worker also stops when ctx is done
	Mid    bool `json:"mid,omitempty"`    // repeat Gets after the delay
}

// ESpec is a manifold to install.
type ESpec struct {
	Name   int    `json:"name"`
	Inputs []int  `json:"inputs,omitempty"`
	Filter int    `json:"filter,omitempty"`
	Self   bool   `json:"self,omitempty"`
	Atts   []EAtt `json:"atts,omitempty"`
	Need   bool   `json:"need,omitempty"`
	// InstallSpec, if positive, is a spec-1 that this manifold's Start
	// installs through a self manifold among its inputs.
	InstallSpec int `json:"installspec,omitempty"`
}

// EOp is one step of the driving history.
type EOp struct {
	Op    string `json:"op"`
	N     int    `json:"n,omitempty"`
	MS    int    `json:"ms,omitempty"`
	E     SErr   `json:"e,omitempty"`
	Async bool   `json:"async,omitempty"`
}

// ECfg is the engine configuration.
type ECfg struct {
	ErrorDelay  int     `json:"errordelay"`
	BounceDelay int     `json:"bouncedelay"`
	Factor      float64 `json:"factor,omitempty"`
	MaxDelay    int     `json:"maxdelay,omitempty"`
	Reset       int     `json:"reset,omitempty"`
	Fatal       int     `json:"fatal"`            // 0 kFatal only, 1 none, 2 anything unknown to the harness too, 3 plain errors too
	Filter      int     `json:"filter,omitempty"` // 0 none, 1 wrap, 2 to nil, 3 nil to an error
	// Perturbation: virtual ms slept in callbacks.
	PFatal, PFilter, PRecord, PLog int
	PLogMod                        int
	Gosched                        bool
}

// ECase is one engine history.
type ECase struct {
	Cfg   ECfg    `json:"cfg"`
	Names int     `json:"names,omitempty"` // style of the manifolds' names
	Same  bool    `json:"same,omitempty"`  // all fatal errors have the same text
	Out   []int   `json:"out"`             // per name: 0 no Output, 1 exposes, 2 Output fails
	Specs []ESpec `json:"specs"`
	Ops   []EOp   `json:"ops"`
}

func (c *ECase) perturbed() bool {
	return c.Cfg.PFatal+c.Cfg.PFilter+c.Cfg.PRecord+c.Cfg.PLog > 0
}

const nNames = 8 // the last two are never installed

func pick[T any](t *rapid.T, label string, vs ...T) T { return rapid.SampledFrom(vs).Draw(t, label) }

// prob is true with probability p percent (and shrinks to false).
func prob(t *rapid.T, label string, p int) bool {
	v := pct(t, label)
	return v > 0 && v <= p
}

// far replaces few of the durations (in ms) by minutes, hours or days.
func far(t *rapid.T, label string, ms int) int {
	if prob(t, label+"far", 2) {
		return pick(t, label+"how", 120000, 900000, 4000000, 100000000, 260000000)
	}
	return ms
}

// pct draws 0..100, spread so that rapid's preference for small numbers does
// not favour any range (0 is the simplest value).
func pct(t *rapid.T, label string) int {
	return rapid.IntRange(0, 100).Draw(t, label) * 37 % 101
}

func genErr(t *rapid.T, focus string, pFatal, pUn int) SErr {
	k := pct(t, "ek")
	e := SErr{R: rapid.IntRange(0, 3).Draw(t, "er")}
	switch {
	case k < 30:
		e.K = kNil
		e.R = 0
		return e
	case k < 50:
		e.K = kPlain
	case k < 62:
		e.K = kBounce
	case k < 74:
		e.K = kMissing
	case k < 74+pUn:
		e.K = kUninstall
	case k < 74+pUn+pFatal:
		e.K = kFatal
	default:
		e.K = kCustom
	}
	e.W = prob(t, "ew", 30)
	if e.K == kPlain && prob(t, "ebare", 12) {
		e.P = 3
	} else if !e.W && prob(t, "elist", 10) {
		e.P = 4
	}
	return e
}

func genECase(t *rapid.T, focus string) any {
	c := &ECase{}
	ms := func(label string) int {
		return far(t, label, pick(t, label, 0, 0, 1, 5, 10, 10, 20, 50, 100, 1000, 30000))
	}
	c.Cfg.ErrorDelay = pick(t, "ed", 10, 10, 0, 20, 100, 3000)
	c.Cfg.BounceDelay = pick(t, "bd", 10, 0, 1, 10, 20, 1000)
	c.Cfg.Factor = pick(t, "bf", 0, 0, 1, 1.5, 2, 3)
	if c.Cfg.Factor > 1 {
		c.Cfg.MaxDelay = pick(t, "md", 60000, 20, 3000)
	}
	c.Cfg.Reset = pick(t, "rt", 0, 0, 15, 60, 60000)
	c.Cfg.Fatal = pick(t, "fk", 0, 0, 2, 2, 1, 3)
	c.Cfg.Filter = pick(t, "cf", 0, 0, 0, 1, 2, 3)
	if focus != "C05" && prob(t, "pert", 30) {
		p := func(l string) int { return pick(t, l, 0, 0, 1, 5, 10, 20) }
		c.Cfg.PFatal, c.Cfg.PFilter, c.Cfg.PRecord, c.Cfg.PLog = p("pf"), p("pfi"), p("pr"), p("pl")
		c.Cfg.PLogMod = rapid.IntRange(1, 7).Draw(t, "plm")
	}
	c.Cfg.Gosched = prob(t, "gs", 40)
	c.Names = pick(t, "names", 0, 0, 0, 1, 2, 3)
	c.Same = focus == "C10" && prob(t, "sametext", 40)
	c.Out = make([]int, nNames)
	for i := range c.Out {
		c.Out[i] = pick(t, "out", 1, 1, 1, 1, 2, 0)
	}
	pFatal, pUn := 2, 8
	switch focus {
	case "C08", "C07":
		pUn = 20
	case "C10", "C09":
		pFatal = 8
	}
	genAtt := func() EAtt {
		a := EAtt{}
		a.Delay = ms("sd")
		a.Mode = pick(t, "mode", 0, 0, 1, 1, 2)
		a.Need = prob(t, "need", 40)
		if prob(t, "serr", 35) {
			a.Err = genErr(t, focus, pFatal, pUn)
		}
		if prob(t, "cerr", 20) {
			a.CErr = genErr(t, focus, pFatal, pUn)
		}
		if prob(t, "life", 45) {
			a.Life = far(t, "lifems", pick(t, "lifems", 10, 1, 5, 20, 50, 100, 70000, -1))
			a.Exit = genErr(t, focus, pFatal, pUn)
		}
		a.Kill = far(t, "kd", pick(t, "kd", 0, 0, 1, 5, 10, 20, 100, 30000))
		if prob(t, "kerr", 40) {
			a.KErr = genErr(t, focus, pFatal, pUn)
		}
		a.CtxDie = prob(t, "ctxdie", 15)
		a.Mid = prob(t, "mid", 25)
		return a
	}
	series := focus == "C05" && prob(t, "series", 60)
	if series {
		c.Cfg.Factor = pick(t, "serf", 2, 1.5, 3, 10)
		c.Cfg.MaxDelay = pick(t, "serm", 0, 60000, 3000, 50)
		c.Cfg.ErrorDelay = pick(t, "sered", 10, 20, 100, 3000)
		c.Cfg.BounceDelay = pick(t, "serbd", 10, 1, 20, 1000)
	}
	nspec := rapid.IntRange(1, 6).Draw(t, "nspec")
	selfPct := 5
	if focus == "C13" {
		selfPct = 45
	}
	for i := 0; i < nspec; i++ {
		s := ESpec{Name: i}
		if i > 0 && prob(t, "dupname", 20) {
			s.Name = rapid.IntRange(0, i-1).Draw(t, "dn")
		}
		if prob(t, "self", selfPct) {
			s.Self = true
			c.Specs = append(c.Specs, s)
			continue
		}
		var cand []int
		for j := 0; j < s.Name; j++ {
			cand = append(cand, j)
		}
		for _, j := range cand {
			p := 50
			if s.Name-j == 1 {
				p = 70
			}
			if prob(t, "edge", p) {
				s.Inputs = append(s.Inputs, j)
				if prob(t, "dup", 4) {
					s.Inputs = append(s.Inputs, j)
				}
			}
		}
		if prob(t, "ghost", 8) {
			s.Inputs = append(s.Inputs, rapid.IntRange(nNames-2, nNames-1).Draw(t, "gh"))
		}
		backPct := 4
		if focus == "C07" {
			backPct = 25
		}
		if prob(t, "back", backPct) {
			s.Inputs = append(s.Inputs, rapid.IntRange(0, nspec-1).Draw(t, "bk"))
		}
		s.Need = prob(t, "sneed", 70)
		if prob(t, "flt", 25) {
			s.Filter = rapid.IntRange(1, 11).Draw(t, "filter")
		}
		if focus == "C31" && prob(t, "flt31", 15) {
			s.Filter = 11
		}
		na := pick(t, "natt", 1, 1, 2, 2, 0, 3, 4)
		for j := 0; j < na; j++ {
			s.Atts = append(s.Atts, genAtt())
		}
		if series && prob(t, "sers", 60) {
			// Mostly failures, to build up consecutive ones.
			s.Atts = nil
			na := rapid.IntRange(3, 7).Draw(t, "serlen")
			for j := 0; j < na; j++ {
				a := EAtt{Delay: pick(t, "serd", 0, 0, 1, 10)}
				e := SErr{K: pick(t, "serk", kPlain, kPlain, kCustom, kBounce, kPlain, kMissing, kNil), R: 1}
				if e.K != kNil && prob(t, "sere", 50) {
					a.Err = e
				} else {
					a.Exit, a.Life = e, pick(t, "serl", 1, 5, 10, 20, 50, 100)
				}
				s.Atts = append(s.Atts, a)
			}
		}
		if focus == "C13" && prob(t, "insp", 40) {
			s.InstallSpec = rapid.IntRange(0, nspec).Draw(t, "is")
		}
		c.Specs = append(c.Specs, s)
	}
	// A name belongs to self manifolds or to ordinary ones, not both.
	selfName := map[int]bool{}
	for _, s := range c.Specs {
		selfName[s.Name] = selfName[s.Name] || s.Self
	}
	for i := range c.Specs {
		if s := &c.Specs[i]; selfName[s.Name] {
			*s = ESpec{Name: s.Name, Self: true}
		}
	}
	// Install most specs first, in some order, then act.
	order := rapid.Permutation(seq(nspec)).Draw(t, "order")
	for _, i := range order {
		c.Ops = append(c.Ops, EOp{Op: "install", N: i, Async: prob(t, "ia", 25)})
		if prob(t, "isl", 35) {
			c.Ops = append(c.Ops, EOp{Op: "sleep", MS: ms("slms")})
		}
	}
	killPct := 10
	if focus == "C09" || focus == "C10" || focus == "C13" {
		killPct = 35
	}
	nops := rapid.IntRange(0, 10).Draw(t, "nops")
	if focus == "C08" {
		nops += 5
	}
	for i := 0; i < nops; i++ {
		k := pct(t, "opk")
		if focus == "C08" {
			k = pick(t, "opk8", k, 10, 50, 50, 65, 75)
		}
		op := EOp{Async: prob(t, "async", 30)}
		switch {
		case k < 38:
			op.Op, op.MS, op.Async = "sleep", ms("slms"), false
		case k < 62:
			op.Op, op.N, op.E = "exit", rapid.IntRange(0, nNames-3).Draw(t, "xn"), genErr(t, focus, pFatal, pUn)
			if focus == "C08" {
				op.N %= nspec
				if prob(t, "xun", 45) {
					op.E = SErr{K: kUninstall, W: op.E.W}
				}
			}
		case k < 70:
			op.Op, op.N = "install", rapid.IntRange(0, nspec-1).Draw(t, "in")
		case k < 80:
			op.Op, op.Async = "settle", false
		case k < 86:
			op.Op, op.Async = "probe", false
		case k < 94:
			op.Op = "report"
		default:
			op.Op = "report"
			if prob(t, "dokill", killPct*2) {
				op.Op = "kill"
			}
		}
		c.Ops = append(c.Ops, op)
		if focus == "C11" && prob(t, "rep", 50) {
			if prob(t, "repsl", 30) {
				c.Ops = append(c.Ops, EOp{Op: "sleep", MS: ms("slms")})
			}
			c.Ops = append(c.Ops, EOp{Op: "report"})
		}
	}
	tailPct := 8
	switch focus {
	case "C09", "C10", "C11":
		tailPct = 40
	}
	if prob(t, "tail", tailPct) {
		genShutdown(t, c, nspec)
		return c
	}
	if !prob(t, "earlykill", killPct) {
		c.Ops = append(c.Ops, EOp{Op: "settle"}, EOp{Op: "probe"})
	}
	return c
}

// genShutdown ends the history with a slow shutdown during which more happens:
// further fatal errors, reports, installs.
func genShutdown(t *rapid.T, c *ECase, nspec int) {
	fatal := func() SErr {
		e := SErr{K: kFatal, R: rapid.IntRange(0, 3).Draw(t, "tr")}
		if !prob(t, "tfat", 65) {
			e.K = pick(t, "tk", kPlain, kNil, kMissing, kBounce, kCustom, kUninstall)
		}
		e.W = prob(t, "tw", 30)
		return e
	}
	name := func() int { return rapid.IntRange(0, nspec-1).Draw(t, "tn") }
	for i := range c.Specs {
		s := &c.Specs[i]
		if s.Self || !prob(t, "tslow", 60) {
			continue
		}
		if len(s.Atts) == 0 || prob(t, "tonly", 60) {
			s.Atts, s.Filter = []EAtt{{}}, 0
		}
		// The attempt after the scripted ones has no script, so make the
		// last one live on.
		a := &s.Atts[len(s.Atts)-1]
		a.Need, a.Err, a.Life, a.CtxDie = false, SErr{}, 0, false
		a.Kill, a.KErr = far(t, "tkd", pick(t, "tkd", 20, 5, 100, 1000)), fatal()
	}
	if prob(t, "tset", 70) {
		c.Ops = append(c.Ops, EOp{Op: "settle"})
	}
	if prob(t, "tkill", 40) {
		c.Ops = append(c.Ops, EOp{Op: "kill", Async: prob(t, "tka", 50)})
	} else {
		c.Ops = append(c.Ops, EOp{Op: "exit", N: name(), E: SErr{K: kFatal, R: rapid.IntRange(0, 3).Draw(t, "tr0")}, Async: prob(t, "tka", 50)})
	}
	for i, n := 0, rapid.IntRange(1, 5).Draw(t, "tops"); i < n; i++ {
		op := EOp{Async: prob(t, "ta", 30)}
		switch k := pct(t, "tok"); {
		case k < 35:
			op.Op, op.MS, op.Async = "sleep", pick(t, "tms", 5, 1, 10, 20, 50, 100), false
		case k < 75:
			op.Op = "report"
		case k < 90:
			op.Op, op.N, op.E = "exit", name(), fatal()
		case k < 96:
			op.Op, op.N = "install", name()
		default:
			op.Op = "kill"
		}
		c.Ops = append(c.Ops, op)
	}
}

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

func filterFor(kind int) dependency.FilterFunc {
	if kind == 0 {
		return nil
	}
	return func(err error) error {
		if err == nil {
			switch kind {
			case 7:
				return fmt.Errorf("converted nil: %w", dependency.ErrUninstall)
			case 8:
				return simErr{kFatal, 1, -8}
			case 9:
				return fmt.Errorf("converted nil: %w", dependency.ErrBounce)
			case 10:
				return simErr{kPlain, 1, -10}
			}
			return nil
		}
		var s simErr
		if !errors.As(err, &s) {
			return err
		}
		switch {
		case kind == 1 && s.K == kCustom:
			return fmt.Errorf("converted #%d: %w", s.ID, dependency.ErrBounce)
		case kind == 2 && s.K == kCustom:
			return fmt.Errorf("converted #%d: %w", s.ID, dependency.ErrUninstall)
		case kind == 3 && s.K == kCustom:
			return nil
		case kind == 4 && s.K == kCustom:
			return simErr{kFatal, s.R, s.ID}
		case kind == 5 && s.K == kPlain:
			return dependency.ErrMissing
		case kind == 6 && s.K == kFatal:
			return simErr{kPlain, s.R, s.ID}
		case kind == 11 && s.K == kPlain: // another rank, and another text
			return simErr{kPlain, s.R ^ 2, s.ID}
		}
		return err
	}
}

func applyFilter(kind int, err error) error {
	if f := filterFor(kind); f != nil {
		return f(err)
	}
	return err
}

func fatalFor(kind int) func(error) bool {
	return func(err error) bool {
		k := kindOf(err)
		switch kind {
		case 0:
			return k == kFatal
		case 1:
			return false
		case 2:
			return k == kFatal || k == -1
		default:
			return k == kFatal || k == kPlain || k == -1
		}
	}
}
