package checks

import (
	"context"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"testing/synctest"
	"time"

	"github.com/juju/worker/v4"
	"github.com/juju/worker/v4/dependency"
)

// change is an observable start or end of the worker of one name.
type change struct {
	seq int
	t   time.Duration
}

// possible lists every moment at which the worker of the name may have been
// registered or lost by the engine; definite lists those that certainly were,
// according to the start metric.
func (w *eworld) possible(name int) (out []change) {
	for _, in := range w.installs {
		if in.spec.Name != name {
			continue
		}
		for _, a := range in.atts {
			if a.returned && a.err == nil {
				out = append(out, change{a.seqRet, a.tRet})
				if a.w != nil && a.w.finSeq > 0 {
					out = append(out, change{a.w.finSeq, a.w.finT})
				}
			}
		}
	}
	return out
}

func (w *eworld) definite(name int) (out []change) {
	for _, in := range w.installs {
		if in.spec.Name != name {
			continue
		}
		for _, a := range in.atts {
			if a.rec > 0 {
				out = append(out, change{a.seqRet, a.recT})
				if a.w != nil && a.w.finSeq > 0 {
					out = append(out, change{a.w.finSeq, a.w.finT})
				}
			}
		}
	}
	return out
}

// dying returns the first moment the engine had a reason to stop.
func (w *eworld) dying() (change, bool) {
	d := change{math.MaxInt, math.MaxInt64}
	if w.killSeq > 0 {
		d = change{w.killSeq, w.killT}
	}
	f := fatalFor(w.c.Cfg.Fatal)
	for _, in := range w.installs {
		for _, a := range in.atts {
			if !a.self && a.ended() && a.seqEnd() < d.seq && f(a.filtered()) {
				d = change{a.seqEnd(), a.tEnd()}
			}
		}
	}
	return d, d.seq != math.MaxInt
}

func (w *eworld) alive(name int) (k *ewrk, self bool) {
	for _, in := range w.installs {
		if in.spec.Name != name {
			continue
		}
		for _, a := range in.atts {
			if a.self && a.returned && a.err == nil {
				self = true
			}
			if a.w != nil && a.w.finSeq == 0 {
				k = a.w
			}
		}
	}
	return k, self
}

func distinct(xs []int) []int {
	seen := map[int]bool{}
	var out []int
	for _, x := range xs {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

// checkIdle judges an engine in which nothing is under way any more.
func (w *eworld) checkIdle() {
	var rep map[string]interface{}
	got := false
	w.call(false, "Report", []string{"C11"}, func() { rep = w.engine.Report(); got = true })
	if w.c.perturbed() {
		time.Sleep(time.Second)
		synctest.Wait()
	}
	if !got {
		w.fail("C11", "Report of an idle engine did not return")
		return
	}
	w.checkLateGets()
	w.mu.Lock()
	defer w.mu.Unlock()
	defer func() {
		w.settled = w.seq
		w.settles = append(w.settles, w.seq)
	}()
	w.classify()
	state, _ := rep[dependency.KeyState].(string)
	mans, _ := rep[dependency.KeyManifolds].(map[string]interface{})

	for _, in := range w.installs {
		if !in.ret {
			w.fail("C07", "Install of %s never returned", nm(in.spec.Name))
		}
	}
	w.checkCauses()
	w.checkContextsIdle()
	w.checkLog()
	if d, ok := w.dying(); ok {
		w.checkReportError(rep, state, w.now())
		if !w.waitDone {
			if w.killSeq > 0 {
				w.fail("C09", "engine killed at %v has not finished", w.killT)
			} else if state == "started" {
				w.fail("C10", "engine still running though a fatal error was returned at %v", d.t)
			} else {
				w.fail("C09", "engine stopped by a fatal error at %v has not finished", d.t)
			}
		} else if state != "stopped" {
			w.fail("C11", "Report of a finished engine says %q", state)
		}
		return
	}
	if w.waitDone {
		w.fail("C10", "engine stopped by itself without a fatal error: Wait returned %v", w.waitErr)
		for _, in := range w.installs {
			for _, a := range in.atts {
				if !a.self && a.ended() && !a.engineStopped() && kindOf(a.filtered()) == kUninstall && w.waitErr != nil && strings.Contains(w.waitErr.Error(), fmt.Sprintf("%q", nm(in.spec.Name))) {
					w.fail("C08", "engine broke because of %s, which was uninstalled: Wait returned %v", nm(in.spec.Name), w.waitErr)
				}
			}
		}
		return
	}
	if state != "started" {
		if state == "stopping" {
			w.fail("C10", "engine is stopping without a fatal error")
		}
		w.fail("C11", "Report of a running engine says %q", state)
	}
	if e, ok := rep[dependency.KeyError]; ok {
		w.fail("C11", "Report of a running engine has error %v", e)
	}

	// Which installs are in force?
	byName := map[string]*einstall{}
	for _, in := range w.installs {
		if !in.ok() || in.gone {
			continue
		}
		name := nm(in.spec.Name)
		newer := false
		for _, o := range w.installs {
			if o != in && o.ok() && o.spec.Name == in.spec.Name && w.laterInstall(o, in) {
				newer = true
			}
		}
		if len(in.atts) == 0 {
			w.fail("C04", "%s (install %d) was installed but its Start never called", name, in.id)
			byName[name] = in
			continue
		}
		last := in.atts[len(in.atts)-1]
		if !last.self && last.ended() {
			fk := kindOf(last.filtered())
			_, listed := mans[name]
			switch {
			case last.engineStopped():
				w.fail("C04", "%s was told to stop, ended at %v with %v and was never started again", name, last.tEnd(), last.endErr())
			case fk == kNil || fk == kMissing:
			case fk == kUninstall:
				if newer || !listed {
					in.gone = true
					w.r.Class("uninstalled")
					continue
				}
				if w.ambiguousEnd(last) {
					w.fail("C04", "%s ended with ErrUninstall at %v, is still listed but not restarted", name, last.tEnd())
				} else {
					w.fail("C11", "%s ended with ErrUninstall at %v but Report still lists it", name, last.tEnd())
				}
				w.fail("C08", "%s ended with ErrUninstall at %v but is neither gone nor restarted", name, last.tEnd())
			default:
				w.fail("C04", "%s failed at %v with %v and was never started again", name, last.tEnd(), last.endErr())
			}
		}
		if newer {
			w.fail("C07", "two installs of %s are in force", name)
		}
		byName[name] = in
	}

	// Convergence.
	names := make([]string, 0, len(byName))
	for n := range byName {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		in := byName[n]
		if in.spec.Self || len(in.atts) == 0 {
			continue
		}
		last := in.atts[len(in.atts)-1]
		for _, d := range distinct(in.spec.Inputs) {
			k, self := w.alive(d)
			o, ok := last.obs[d]
			if !ok {
				continue
			}
			want := k != nil || self
			if o.present != want {
				w.fail("C02", "idle: latest Start of %s (at %v) saw %s present=%v, but it is running=%v", n, last.tEnter, nm(d), o.present, want)
				w.staleTags(in, last, d)
			} else if o.known && k != nil && o.inst != k {
				w.fail("C02", "idle: latest Start of %s (at %v) saw %s worker #%d, but #%d is running", n, last.tEnter, nm(d), o.inst.id, k.id)
				w.staleTags(in, last, d)
			}
			w.r.Class("idle-edge")
		}
	}

	// Report.
	for n := range mans {
		if byName[n] == nil {
			w.fail("C11", "Report lists %s, which is not installed", n)
			for _, in := range w.installs {
				if nm(in.spec.Name) == n && in.gone {
					w.fail("C08", "Report lists %s, which was uninstalled", n)
				}
			}
		}
	}
	for _, n := range names {
		in := byName[n]
		m, ok := mans[n].(map[string]interface{})
		if !ok {
			w.fail("C11", "Report does not list %s", n)
			continue
		}
		var inputs []string
		for _, i := range in.spec.Inputs {
			inputs = append(inputs, nm(i))
		}
		gotInputs, _ := m[dependency.KeyInputs].([]string)
		if len(gotInputs) != len(inputs) || (len(inputs) > 0 && !reflect.DeepEqual(gotInputs, inputs)) {
			w.fail("C11", "Report of %s lists inputs %v, declared %v", n, gotInputs, inputs)
		}
		if len(in.atts) == 0 {
			continue
		}
		last := in.atts[len(in.atts)-1]
		st, _ := m[dependency.KeyState].(string)
		want := "stopped"
		switch {
		case !last.returned:
			want = "starting"
		case last.self, last.w != nil && last.w.finSeq == 0:
			want = "started"
		}
		if st != want {
			w.fail("C11", "Report of %s says %q, but it is %s", n, st, want)
		}
		cnt, _ := m[dependency.KeyStartCount].(int)
		if cnt != in.recs {
			w.fail("C11", "Report of %s says %d starts, Metrics recorded %d", n, cnt, in.recs)
		}
		if want == "started" {
			if last.rec == 0 {
				w.fail("C11", "running worker of %s was never recorded by Metrics", n)
			}
			if ts, _ := m[dependency.KeyLastStart].(string); !w.c.perturbed() {
				exp := w.t0.Add(last.tRet).UTC().Format("2006-01-02 15:04:05")
				if ts != exp {
					w.fail("C11", "Report of %s says started %q, was started %q", n, ts, exp)
				}
			}
			if !last.self && last.w.mute() {
				if rep, ok := m[dependency.KeyReport]; ok {
					w.fail("C11", "Report of %s has worker report %v, the running worker #%d does not report", n, rep, last.w.id)
				}
			} else if !last.self {
				if !reflect.DeepEqual(m[dependency.KeyReport], map[string]interface{}{"inst": last.w.id}) {
					w.fail("C11", "Report of %s has worker report %v, the running worker is #%d", n, m[dependency.KeyReport], last.w.id)
				}
			}
			if e, ok := m[dependency.KeyError]; ok {
				w.fail("C11", "Report of running %s has error %v", n, e)
			}
		} else if _, ok := m[dependency.KeyReport]; ok {
			w.fail("C11", "Report of %s (%s) contains a worker report", n, want)
		}
		if want == "stopped" && !last.engineStopped() {
			e, _ := m[dependency.KeyError].(string)
			exp := ""
			if err := last.filtered(); err != nil {
				exp = err.Error()
			}
			if e != exp {
				w.fail("C11", "Report of stopped %s has error %q, it ended with %q", n, e, exp)
			}
			w.r.Class("idle-stopped")
		}
	}
}

// judgeManifolds judges the manifolds in a report that was taken when nothing
// could happen without time passing, though the engine need not be idle.
func (w *eworld) judgeManifolds(rep map[string]interface{}) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if rep == nil || w.runaway {
		return
	}
	mans, _ := rep[dependency.KeyManifolds].(map[string]interface{})
	dy, dying := w.dying()
	byName := map[int][]*einstall{}
	for _, in := range w.installs {
		if !in.ret {
			return
		}
		if in.ok() && !in.gone {
			byName[in.spec.Name] = append(byName[in.spec.Name], in)
		}
	}
	for name, ins := range byName {
		if len(ins) != 1 {
			continue
		}
		in := ins[0]
		if in.spec.Self || len(in.atts) == 0 {
			continue
		}
		n := nm(name)
		last := in.atts[len(in.atts)-1]
		if last.ended() && kindOf(last.filtered()) == kUninstall {
			continue
		}
		m, ok := mans[n].(map[string]interface{})
		if !ok {
			w.fail("C11", "Report at %v does not list %s", w.now(), n)
			continue
		}
		if cnt, _ := m[dependency.KeyStartCount].(int); cnt != in.recs {
			w.fail("C11", "Report at %v of %s says %d starts, Metrics recorded %d", w.now(), n, cnt, in.recs)
		}
		st, _ := m[dependency.KeyState].(string)
		errText, hasErr := m[dependency.KeyError].(string)
		wrep, hasRep := m[dependency.KeyReport]
		var want []string
		running := false
		switch {
		case !last.returned, last.err == nil && last.w.finSeq == 0 && last.rec == 0:
			// A worker that is not wanted any more by the time its Start
			// returns has never been running.
			want = []string{"starting", "stopping"}
			if last.ctxSeq == 0 {
				want = want[:1]
				w.r.Class("quiet-starting")
			} else {
				w.r.Class("quiet-start-aborted")
			}
		case !last.ended() && last.w.killSeq == 0:
			want = []string{"started"}
			running = true
			w.r.Class("quiet-started")
		case !last.ended():
			want = []string{"stopping"}
			running = true
			w.r.Class("quiet-stopping")
		case dying:
			want = []string{"stopped"}
			w.r.Class("quiet-stopped-dying")
			if last.tEnd() > dy.t {
				exp := ""
				if err := last.filtered(); err != nil {
					exp = err.Error()
				}
				if errText != exp {
					w.fail("C11", "Report at %v of stopped %s has error %q, it ended with %q", w.now(), n, errText, exp)
				}
			}
		default:
			fk := kindOf(last.filtered())
			if last.engineStopped() || (fk != kNil && fk != kMissing) {
				want = []string{"starting"}
				w.r.Class("quiet-delayed")
				break
			}
			want = []string{"stopped"}
			changed := false
			for _, d := range distinct(in.spec.Inputs) {
				for _, ch := range w.possible(d) {
					if ch.t >= last.tEnter || ch.seq > last.seqEnter {
						changed = true
					}
				}
				if w.isSelfName(d) {
					changed = true
				}
			}
			if changed {
				want = append(want, "starting")
			} else {
				w.r.Class("quiet-stopped")
			}
		}
		found := false
		for _, s := range want {
			if s == st {
				found = true
			}
		}
		if !found {
			w.fail("C11", "Report at %v of %s says %q, but it is %s", w.now(), n, st, strings.Join(want, " or "))
			continue
		}
		if st != "stopped" && hasErr {
			w.fail("C11", "Report at %v of %s (%s) has error %q", w.now(), n, st, errText)
		}
		if !running {
			if hasRep {
				w.fail("C11", "Report at %v of %s (%s) contains a worker report", w.now(), n, st)
			}
			continue
		}
		if last.w.mute() {
			if hasRep {
				w.fail("C11", "Report at %v of %s has worker report %v, the running worker #%d does not report", w.now(), n, wrep, last.w.id)
			}
		} else if !reflect.DeepEqual(wrep, map[string]interface{}{"inst": last.w.id}) {
			w.fail("C11", "Report at %v of %s has worker report %v, the running worker is #%d", w.now(), n, wrep, last.w.id)
		}
		exp := w.t0.Add(last.tRet).UTC().Format("2006-01-02 15:04:05")
		if ts, _ := m[dependency.KeyLastStart].(string); ts != exp {
			w.fail("C11", "Report at %v of %s says started %q, was started %q", w.now(), n, ts, exp)
		}
	}
}

// checkLog judges that unexpected failures, and only those, were reported to
// the operators.
func (w *eworld) checkLog() {
	if w.runaway || len(w.logs) >= 3000 {
		return
	}
	dy, _ := w.dying()
	f := fatalFor(w.c.Cfg.Fatal)
	ws := &logWants{}
	for _, in := range w.installs {
		for _, a := range in.atts {
			if a.self || !a.ended() {
				continue
			}
			err := a.filtered()
			if k := kindOf(err); k == kNil || k == kMissing || k == kBounce || k == kUninstall || f(err) {
				continue
			}
			level := "error"
			if strings.Contains(err.Error(), "try again") {
				level = "info"
			}
			sure := a.tEnd() < dy.t && a.seqEnd() < dy.seq && !a.engineStopped() && !w.ambiguousEnd(a)
			if sure {
				w.r.Class("logged-" + level)
			}
			ws.add(nm(in.spec.Name), err.Error(), level, "", sure)
		}
	}
	judgeLog(w.logs, ws, func(format string, args ...any) { w.fail("C31", format, args...) })
}

// laterInstall tells that of two accepted installs of one name, o came after in.
func (w *eworld) laterInstall(o, in *einstall) bool {
	switch {
	case len(in.atts) == 0:
		return false
	case len(o.atts) == 0:
		return o.retSeq > in.atts[len(in.atts)-1].seqEnter
	}
	return o.atts[0].seqEnter > in.atts[0].seqEnter
}

// staleTags attributes staleness to further properties where that is certain.
func (w *eworld) staleTags(in *einstall, last *eatt, d int) {
	for _, o := range w.installs {
		if o.spec.Name == d && o.gone {
			w.fail("C08", "%s was not restarted properly around the uninstall or reinstall of %s", nm(in.spec.Name), nm(d))
			return
		}
	}
}

// ambiguousEnd tells that an input may have changed at the very moment the run
// ended, so that either order of events is right.
func (w *eworld) ambiguousEnd(a *eatt) bool {
	if w.c.perturbed() {
		return true
	}
	for _, d := range distinct(a.in.spec.Inputs) {
		for _, ch := range w.possible(d) {
			if ch.t == a.tEnd() {
				return true
			}
		}
	}
	return false
}

// checkCauses judges every stop and start since the beginning for its cause.
func (w *eworld) checkCauses() {
	dy, _ := w.dying()
	for _, in := range w.installs {
		if in.spec.Self {
			continue
		}
		var chs []change
		weighted := 0
		for _, d := range in.spec.Inputs {
			for _, ch := range w.possible(d) {
				if ch.seq > w.settled {
					weighted++
				}
			}
		}
		for _, d := range distinct(in.spec.Inputs) {
			chs = append(chs, w.possible(d)...)
		}
		// caused tells that an input may have changed, as seen by the
		// engine, since the moment lo and before the event hi.
		idle := w.idleBefore(in.callSeq)
		caused := func(lo time.Duration, hi int) bool {
			for _, ch := range chs {
				if ch.seq >= hi {
					continue
				}
				if w.c.perturbed() {
					// the engine may lag behind the harness's record
					if ch.seq > idle {
						return true
					}
				} else if ch.t >= lo {
					return true
				}
			}
			return false
		}
		attempts, bound := 0, weighted
		if in.callSeq > w.settled {
			bound++
		}
		for k, a := range in.atts {
			lo := in.callT // no earlier than this was the snapshot taken
			if k > 0 {
				lo = in.atts[k-1].tEnd()
			}
			if a.seqEnter > w.settled {
				attempts++
			}
			if a.ended() && a.seqEnd() > w.settled {
				if fk := kindOf(a.filtered()); fk != kNil && fk != kMissing {
					bound++
				}
			}
			if a.w != nil && a.w.killSeq > 0 && a.w.killSeq < dy.seq && !caused(lo, a.w.killSeq) {
				w.fail("C03", "worker #%d of %s was told to stop at %v without any change of its inputs", a.w.id, nm(in.spec.Name), a.w.killT)
			}
			if a.ctxSeq > 0 && a.ctxSeq < dy.seq && (!a.ended() || a.ctxSeq < a.seqEnd()) && !caused(lo, a.ctxSeq) {
				w.fail("C12", "context of Start of %s (attempt %d) cancelled at %v though no input changed", nm(in.spec.Name), a.idx, a.ctxT)
			}
			if k > 0 {
				p := in.atts[k-1]
				fk := kindOf(p.filtered())
				if fk == kUninstall && !p.engineStopped() && !w.ambiguousEnd(p) {
					w.fail("C08", "Start of %s called again at %v after it ended with ErrUninstall at %v", nm(in.spec.Name), a.tEnter, p.tEnd())
				}
				if (fk == kNil || fk == kMissing) && !p.engineStopped() {
					plo := in.callT
					if k > 1 {
						plo = in.atts[k-2].tEnd()
					}
					if !caused(plo, a.seqEnter) {
						w.fail("C03", "%s ended with %v at %v and was started again at %v though no input changed", nm(in.spec.Name), p.endErr(), p.tEnd(), a.tEnter)
					}
				}
			}
		}
		if attempts > bound {
			w.fail("C03", "%s was started %d times since the last idle point; causes for at most %d", nm(in.spec.Name), attempts, bound)
		}
	}
}

// idleBefore is the last idle point before the sequence number.
func (w *eworld) idleBefore(seq int) (last int) {
	for _, s := range w.settles {
		if s < seq {
			last = s
		}
	}
	return last
}

func (w *eworld) checkContextsIdle() {
	dy, dying := w.dying()
	for _, in := range w.installs {
		for _, a := range in.atts {
			if a.self {
				continue
			}
			switch {
			case a.ended():
				if a.ctx.Err() == nil {
					w.fail("C12", "context of %s attempt %d is still not cancelled though its run ended at %v", nm(in.spec.Name), a.idx, a.tEnd())
				}
			case !dying && a.w != nil && a.ctx.Err() != nil:
				w.fail("C12", "context of running %s (attempt %d) is cancelled", nm(in.spec.Name), a.idx)
			}
			if w.c.perturbed() {
				continue
			}
			// Prompt cancellation on a certain change of an input.
			for _, d := range distinct(in.spec.Inputs) {
				for _, ch := range w.definite(d) {
					if ch.t > a.tEnter && (!a.ended() || ch.t < a.tEnd()) && (!dying || ch.t < dy.t) {
						w.r.Class("change-during-run")
						if a.ctxSeq == 0 || a.ctxT > ch.t {
							w.fail("C12", "context of %s (attempt %d, begun %v) not cancelled when %s changed at %v", nm(in.spec.Name), a.idx, a.tEnter, nm(d), ch.t)
						}
					}
				}
			}
			if dying && a.tEnter < dy.t && (!a.ended() || a.tEnd() > dy.t) {
				if a.ctxSeq == 0 || a.ctxT > dy.t {
					w.fail("C12", "context of %s (attempt %d) not cancelled when the engine began to stop at %v", nm(in.spec.Name), a.idx, dy.t)
				}
			}
		}
	}
}

// checkLateGets uses getters after their Start has returned.
func (w *eworld) checkLateGets() {
	for _, in := range w.installs {
		w.mu.Lock()
		atts := append([]*eatt(nil), in.atts...)
		w.mu.Unlock()
		for i, a := range atts {
			if !a.returned || a.self || i < len(atts)-2 {
				continue
			}
			for _, d := range append(distinct(in.spec.Inputs), in.spec.Name) {
				box := &outBox{}
				e1 := a.getter.Get(nm(d), nil)
				e2 := a.getter.Get(nm(d), box)
				if e1 == nil || e2 == nil || box.called > 0 {
					w.fail("C06", "%s: Get(%s) after Start returned: %v, %v, Output calls %d", nm(in.spec.Name), nm(d), e1, e2, box.called)
				}
				w.r.Class("late-get")
			}
		}
	}
}

// checkEnd judges the whole history of an engine that should be finished.
func (w *eworld) checkEnd() {
	w.mu.Lock()
	defer w.mu.Unlock()
	dy, _ := w.dying()
	f := fatalFor(w.c.Cfg.Fatal)
	strict := !w.c.perturbed()
	best := -2
	var worst []error
	lastEnd := dy.t
	for _, in := range w.installs {
		for _, a := range in.atts {
			if a.self {
				continue
			}
			if strict && a.tEnter > dy.t {
				w.fail("C09", "Start of %s called at %v, after the engine began to stop at %v", nm(in.spec.Name), a.tEnter, dy.t)
			}
			if !a.ended() {
				w.fail("C09", "%s attempt %d has not ended after shutdown (Start returned: %v)", nm(in.spec.Name), a.idx, a.returned)
				continue
			}
			if w.waitDone && a.seqEnd() > w.waitSeq {
				w.fail("C09", "Wait returned at %v before %s attempt %d ended at %v", w.waitT, nm(in.spec.Name), a.idx, a.tEnd())
			}
			if a.tEnd() > lastEnd {
				lastEnd = a.tEnd()
			}
			if fe := a.filtered(); f(fe) {
				switch rk := rankOf(fe); {
				case rk > best:
					best, worst = rk, []error{fe}
				case rk == best:
					worst = append(worst, fe)
				}
			}
			if strict {
				if a.tEnter < dy.t && a.tRet > dy.t {
					w.r.Class("dying-in-start")
					if a.ctxSeq == 0 || a.ctxT > dy.t {
						w.fail("C09", "context of Start of %s in progress not cancelled when the engine began to stop at %v", nm(in.spec.Name), dy.t)
					}
					if a.w != nil && (a.w.killSeq == 0 || a.w.killT > a.tRet) && a.w.finT > a.tRet {
						w.fail("C09", "worker #%d of %s, made at %v while the engine was stopping, was not killed at once", a.w.id, nm(in.spec.Name), a.tRet)
					}
				}
				if a.w != nil && a.tRet < dy.t && a.w.finT > dy.t {
					w.r.Class("dying-running")
					if a.w.killSeq == 0 || a.w.killT > dy.t {
						w.fail("C09", "worker #%d of %s not told to stop when the engine began to stop at %v", a.w.id, nm(in.spec.Name), dy.t)
					}
				}
			}
			if a.w != nil && a.w.killSeq == 0 && a.w.finT > dy.t && strict && a.tRet != dy.t {
				w.fail("C09", "worker #%d of %s was never killed", a.w.id, nm(in.spec.Name))
			}
		}
	}
	if !w.waitDone {
		return
	}
	if strict && w.waitT != lastEnd {
		w.fail("C09", "Wait returned at %v; the engine began to stop at %v and the last run ended at %v", w.waitT, dy.t, lastEnd)
	}
	if len(worst) > 0 {
		w.r.Class("fatal")
		if len(worst) > 1 {
			w.r.Class("fatal-several")
		}
	}
	ok := false
	got := w.waitErr
	switch {
	case w.c.Cfg.Filter == 3 && len(worst) == 0:
		ok = got == errNothing
	case w.c.Cfg.Filter == 2 || len(worst) == 0:
		ok = got == nil
	default:
		if w.c.Cfg.Filter == 1 {
			we, isw := got.(*wrappedErr)
			if isw {
				got = we.err
			} else {
				got = fmt.Errorf("not passed through the configured Filter: %v", got)
			}
		}
		for _, e := range worst {
			var x, y simErr
			if eqErr(got, e) || (errors.As(got, &x) && errors.As(e, &y) && x == y) {
				ok = true
			}
			if k := kindOf(e); k != kFatal && got != nil && e.Error() == got.Error() {
				ok = true // e.g. a context error counted as fatal
			}
		}
	}
	if !ok {
		w.fail("C10", "Wait returned %v, want one of %v (config filter %d)", w.waitErr, worst, w.c.Cfg.Filter)
	}
	if strict {
		w.checkTiming(dy)
	}
}

// checkTiming judges the delays of all starts before the engine began to stop.
func (w *eworld) checkTiming(dy change) {
	ms := func(n int) float64 { return float64(n) * 1e6 }
	for _, in := range w.installs {
		if in.spec.Self || !in.ok() {
			continue
		}
		type pc struct {
			t   time.Duration
			def bool
		}
		var pcs []pc
		for _, d := range distinct(in.spec.Inputs) {
			for _, ch := range w.possible(d) {
				pcs = append(pcs, pc{ch.t, false})
			}
			for _, ch := range w.definite(d) {
				pcs = append(pcs, pc{ch.t, true})
			}
		}
		lo, hi := 0, 0
		for k, a := range in.atts {
			type cand struct {
				t    time.Duration
				base int
			}
			var cands []cand
			from := in.callT
			if k == 0 {
				cands = append(cands, cand{in.callT, 0})
			} else {
				p := in.atts[k-1]
				from = p.tEnd()
				raw, fk := kindOf(p.endErr()), kindOf(p.filtered())
				if raw == kNil || fk == kNil {
					hi2 := 0
					if raw != kNil {
						hi2 = hi + 1
					}
					lo, hi = 0, hi2
				} else if raw == kMissing || fk == kMissing {
					lo, hi = 0, hi+1
					if raw == kMissing {
						hi = 1
					}
				} else if p.rec > 0 && p.tEnd()-p.recT >= time.Duration(w.c.Cfg.Reset)*time.Millisecond {
					lo, hi = 1, 1
				} else {
					lo, hi = lo+1, hi+1
				}
				tie := w.ambiguousEnd(p)
				if p.engineStopped() || tie || fk == kBounce {
					cands = append(cands, cand{from, w.c.Cfg.BounceDelay})
				}
				if !p.engineStopped() && fk != kBounce && fk != kNil && fk != kMissing {
					cands = append(cands, cand{from, w.c.Cfg.ErrorDelay})
				}
			}
			aborted := false
			for _, p := range pcs {
				if p.t >= from && p.t <= a.tEnter {
					cands = append(cands, cand{p.t, w.c.Cfg.BounceDelay})
					aborted = true
				}
			}
			if aborted {
				lo = 0
				hi++
			}
			ok := false
			var desc []string
			for _, cd := range cands {
				superseded := false
				for _, p := range pcs {
					if p.def && p.t > cd.t && p.t < a.tEnter {
						superseded = true
					}
				}
				if superseded {
					continue
				}
				min, max := ms(cd.base), ms(cd.base)
				if cd.base > 0 {
					if w.c.Cfg.Factor > 0 {
						e := func(n int) float64 {
							if n < 1 {
								n = 1
							}
							v := ms(cd.base) * math.Pow(w.c.Cfg.Factor, float64(n-1))
							if w.c.Cfg.MaxDelay > 0 && v > ms(w.c.Cfg.MaxDelay) {
								v = ms(w.c.Cfg.MaxDelay)
							}
							return v
						}
						min, max = e(lo), e(hi)
					}
					min, max = min*0.9-1e6, max*1.1+1e6
				}
				d := float64(a.tEnter - cd.t)
				desc = append(desc, fmt.Sprintf("%v + [%v,%v]", cd.t, time.Duration(min), time.Duration(max)))
				if d >= min && d <= max {
					ok = true
				}
			}
			if !ok && a.tEnter <= dy.t {
				w.fail("C05", "Start %d of %s came at %v, expected one of %v", k, nm(in.spec.Name), a.tEnter, desc)
			}
			if k > 0 {
				w.r.Class("timed-restart")
				if lo == hi && lo > 1 && w.c.Cfg.Factor > 1 {
					w.r.Class("timed-backoff")
				}
			}
		}
	}
}

// probe installs a short-lived manifold that declares every name and compares
// what it can get with what is running.
func (w *eworld) probe() {
	w.settle()
	w.mu.Lock()
	_, dying := w.dying()
	w.mu.Unlock()
	if dying || w.waitDone || w.runaway {
		return
	}
	w.r.Class("probe")
	var inputs []string
	var decl []int
	for i := 0; i < nNames-1; i++ {
		inputs = append(inputs, nm(i))
		decl = append(decl, i)
	}
	in := &einstall{id: -1, spec: &ESpec{Name: 99, Inputs: decl}}
	a := &eatt{in: in, obs: map[int]obsRec{}}
	ran := 0
	w.call(false, "Install", []string{"C07"}, func() {
		err := w.engine.Install("probe", dependency.Manifold{Inputs: inputs,
			Start: func(ctx context.Context, g dependency.Getter) (worker.Worker, error) {
				ran++
				a.getter = g
				w.gets(a, decl, w.c.Out)
				if ctx.Err() != nil {
					w.fail("C12", "context of a Start call on an idle engine is cancelled")
				}
				return nil, dependency.ErrUninstall
			}})
		if err != nil {
			w.fail("C07", "Install of a fresh name rejected: %v", err)
			w.fail("C08", "Install of a name that was uninstalled or never used rejected: %v", err)
		}
	})
	if w.c.perturbed() {
		time.Sleep(settleTime)
		synctest.Wait()
	}
	for _, d := range decl {
		if a.getter == nil {
			break
		}
		box := &outBox{}
		if e := a.getter.Get(nm(d), box); e == nil || box.called > 0 {
			w.fail("C06", "Get(%s) after Start failed: %v, Output calls %d", nm(d), e, box.called)
		}
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if ran != 1 {
		w.fail("C04", "Start of a fresh manifold on an idle engine called %d times", ran)
		return
	}
	for _, d := range decl {
		k, self := w.alive(d)
		o := a.obs[d]
		if o.present != (k != nil || self) {
			w.fail("C06", "Get(%s) on an idle engine: present=%v, running=%v", nm(d), o.present, k != nil || self)
		} else if o.known && k != nil && o.inst != k {
			w.fail("C06", "Get(%s) on an idle engine gave worker #%d, #%d is running", nm(d), o.inst.id, k.id)
		}
	}
}

// classify counts what kind of history this is.
func (w *eworld) classify() {
	restarts, multi := 0, 0
	for _, in := range w.installs {
		if len(in.atts) > 1 {
			restarts++
		}
		if len(in.atts) > 2 {
			multi++
		}
		for _, a := range in.atts {
			if a.self || !a.ended() {
				continue
			}
			if a.engineStopped() {
				w.r.Class("engine-stopped-run")
			} else if kindOf(a.filtered()) != kNil {
				w.r.Class("ended-" + kindNames[maxInt(0, kindOf(a.filtered()))])
			}
			if a.w != nil && a.w.killSeq > 0 && a.w.finT > a.w.killT {
				w.r.Class("slow-stop")
			}
		}
	}
	if restarts > 0 {
		w.r.Class("restart")
	}
	if multi > 0 {
		w.r.Class("multi-restart")
	}
	if w.c.perturbed() {
		w.r.Class("perturbed")
	}
	if w.hasSelf {
		w.r.Class("self")
	}
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func has(keys ...string) func(map[string]int) bool {
	return func(c map[string]int) bool {
		for _, k := range keys {
			if c[k] == 0 {
				return false
			}
		}
		return true
	}
}

func init() {
	addCheck("C31", "engine and runner histories and long series of failures; non-trivial when a failure had to be logged at ERROR or INFO, or a panic with its stack", func(c map[string]int) bool {
		return c["logged-error"]+c["logged-info"]+c["logged-panic"]+c["logged-fatal"] > 0
	}, "engine", "engine", "engine", "engine", "runner", "runner", "runner", "runner", "backoff")
	register(&Scenario{Name: "engine", Gen: genECase, New: func() any { return &ECase{} }, Run: runECase})
	addCheck("C01", "engine histories; non-trivial when a manifold was started more than once", has("restart"), "engine")
	addCheck("C02", "engine histories; non-trivial when at an idle point a manifold with inputs was judged after a run was stopped by the engine", has("idle-edge", "engine-stopped-run"), "engine")
	addCheck("C03", "engine histories; non-trivial when a manifold was restarted and another stayed stopped", has("restart"), "engine")
	addCheck("C04", "engine histories; non-trivial when a run failed or was stopped by the engine", has("restart"), "engine", "engine", "engine", "engine", "engine", "engine", "engine", "engine", "backoff")
	addCheck("C05", "engine histories; non-trivial when at least one restart delay was judged", has("timed-restart"), "engine", "backoff")
	addCheck("C06", "engine histories; non-trivial when an idle engine was probed or late Gets were made", has("late-get"), "engine")
	addCheck("C07", "engine histories and whole sets of manifolds; non-trivial when an install was rejected or a set with several manifolds was judged", func(c map[string]int) bool { return c["install-rejected"]+c["cyclic"]+c["acyclic"] > 0 }, "engine", "engine", "graph")
	addCheck("C08", "engine histories; non-trivial when a manifold was uninstalled", has("uninstalled"), "engine")
	addCheck("C09", "engine histories; non-trivial when workers or Start calls were in progress at the beginning of shutdown", func(c map[string]int) bool { return c["dying-running"]+c["dying-in-start"] > 0 }, "engine")
	addCheck("C10", "engine histories; non-trivial when a fatal error was returned", has("fatal"), "engine")
	addCheck("C11", "engine histories; non-trivial when a stopped and a restarted manifold were reported", has("restart", "idle-stopped"), "engine")
	addCheck("C12", "engine histories; non-trivial when an input changed during a run", has("change-during-run"), "engine")
	addCheck("C13", "engine histories with self manifolds", has("self"), "engine")
}
