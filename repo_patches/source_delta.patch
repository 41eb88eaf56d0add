From 93b67612e677a6f0b2233cb6a327f48d2f3ae5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:44 +0000
Subject: [PATCH 01/23] fix: engine restart delay must not shrink below the
 configured delay

After a clean stop recentErrors is zero, so a restart caused by a dependency
change was delayed by BounceDelay/BackoffFactor instead of BounceDelay.
---
 dependency/engine.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index ce03911..ad742fc 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -417,7 +417,9 @@ func (engine *Engine) requestStart(name string, delay time.Duration) {
 			// Use the float64 values for max comparison. Otherwise when casting
 			// the float back to a duration we hit the int64 max which is negative.
 			maxDelay := float64(engine.config.MaxDelay)
-			floatDelay := float64(delay) * math.Pow(engine.config.BackoffFactor, float64(info.recentErrors-1))
+			// Without a preceding failure there's nothing to back off from.
+			exponent := math.Max(float64(info.recentErrors-1), 0)
+			floatDelay := float64(delay) * math.Pow(engine.config.BackoffFactor, exponent)
 			if engine.config.MaxDelay > 0 && floatDelay > maxDelay {
 				delay = engine.config.MaxDelay
 			} else {
-- 
2.43.0


From 87e1e9110147d6f7c4bd83ee6b3666e711af8ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:44 +0000
Subject: [PATCH 02/23] fix: engine backoff delay must not overflow

Without MaxDelay a long series of failures overflowed the duration, which
made the delay negative and the engine restart the worker in a busy loop.
---
 dependency/engine.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index ad742fc..5ec5269 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -422,13 +422,17 @@ func (engine *Engine) requestStart(name string, delay time.Duration) {
 			floatDelay := float64(delay) * math.Pow(engine.config.BackoffFactor, exponent)
 			if engine.config.MaxDelay > 0 && floatDelay > maxDelay {
 				delay = engine.config.MaxDelay
+			} else if floatDelay >= math.MaxInt64 {
+				delay = math.MaxInt64
 			} else {
 				delay = time.Duration(floatDelay)
 			}
 		}
 		// Fuzz to ±10% of final duration.
 		fuzz := rand.Float64()*0.2 + 0.9
-		delay = time.Duration(float64(delay) * fuzz).Round(time.Millisecond)
+		if floatDelay := float64(delay) * fuzz; floatDelay < math.MaxInt64 {
+			delay = time.Duration(floatDelay).Round(time.Millisecond)
+		}
 	}
 
 	go engine.runWorker(name, delay, manifold.Start, snapshot)
-- 
2.43.0


From 371358afe80943ccd71c81a7c8ff8541d8edfe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:44 +0000
Subject: [PATCH 03/23] fix: cancel the context of a manifold's run when the
 run has ended

The context was only cancelled when the engine itself stopped the worker, so
every run that ended by itself leaked its context until engine shutdown.
---
 dependency/engine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dependency/engine.go b/dependency/engine.go
index 5ec5269..388ddf8 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -667,6 +667,11 @@ func (engine *Engine) gotStopped(name string, err error, resourceLog []resourceA
 		engine.tomb.Kill(nil)
 	}
 
+	// The run is over, so nothing may rely on its context any more.
+	if info.cancel != nil {
+		info.cancel()
+	}
+
 	// Reset engine info; and bail out if we can be sure there's no need to bounce.
 	engine.current[name] = workerInfo{
 		err:         err,
-- 
2.43.0


From d758849eebcc5919b67f612eaa9e7d7089f8fd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:44 +0000
Subject: [PATCH 04/23] fix: an aborted restart is not a manifold error

When a dependency changed during a restart delay, the engine's internal abort
marker was passed to the manifold's Filter and to IsFatal, and could stop the
engine and be returned from Wait.
---
 dependency/engine.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index 388ddf8..dd18ce9 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -621,12 +621,13 @@ type stackTracer interface {
 func (engine *Engine) gotStopped(name string, err error, resourceLog []resourceAccess) {
 	// Copy current info and check for reasons to stop the engine.
 	info := engine.current[name]
+	aborted := errors.Is(err, errAborted)
 
 	switch {
 	case err == nil:
 		engine.config.Logger.Debugf("%q manifold worker completed successfully", name)
 		info.recentErrors = 0
-	case errors.Is(err, errAborted):
+	case aborted:
 		// The start attempt was aborted, so we haven't really started.
 		engine.config.Logger.Tracef("%q manifold worker bounced while starting", name)
 		// If we have been aborted while trying to start, we are more likely
@@ -656,13 +657,15 @@ func (engine *Engine) gotStopped(name string, err error, resourceLog []resourceA
 		}
 	}
 
-	if filter := engine.manifolds[name].Filter; filter != nil {
+	// An aborted start attempt is internal to the engine, and not an error from
+	// the manifold that could be filtered or fatal.
+	if filter := engine.manifolds[name].Filter; filter != nil && !aborted {
 		err = filter(err)
 	}
 
 	if info.stopped() {
 		engine.tomb.Kill(errors.Errorf("fatal: unexpected %q manifold worker stop", name))
-	} else if engine.config.IsFatal(err) {
+	} else if !aborted && engine.config.IsFatal(err) {
 		engine.worstError = engine.config.WorstError(err, engine.worstError)
 		engine.tomb.Kill(nil)
 	}
-- 
2.43.0


From 2a56fac0180c8acbb2e7f27beac014a7371e97eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:44 +0000
Subject: [PATCH 05/23] fix: self manifold must not leak a goroutine or fail
 the engine

The goroutine of a self manifold blocked forever if the engine finished before
it could report itself stopped, and otherwise reported tomb.ErrDying, which
IsFatal and WorstError could turn into the engine's error.
---
 dependency/engine.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index dd18ce9..b9e5286 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -565,17 +565,22 @@ func (engine *Engine) runWorker(name string, delay time.Duration, start StartFun
 			// need this func to keep running to keep the self manifold
 			// accessible as a resource.
 			<-engine.tomb.Dying()
-			return tomb.ErrDying
+			return nil
 		}
 
 		return worker.Wait()
 	}
 
-	// We may or may not send on started, but we *must* send on stopped.
-	engine.stopped <- stoppedTicket{
+	// We may or may not send on started, but we *must* send on stopped; unless
+	// the worker is the engine itself, whose loop doesn't wait for that.
+	err := startWorkerAndWait()
+	select {
+	case engine.stopped <- stoppedTicket{
 		name:        name,
-		err:         startWorkerAndWait(),
+		err:         err,
 		resourceLog: snapshot.accessLog,
+	}:
+	case <-engine.tomb.Dead():
 	}
 }
 
-- 
2.43.0


From d80d3c28b35b513df4a7cf27f94a750582fc8b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:15 +0000
Subject: [PATCH 06/23] fix: runner without MoreImportant must return the first
 fatal error

The documentation of RunnerParams.MoreImportant says that without it the
first error reported is returned; the default made every later fatal
error, such as those of workers stopped because of the first one, replace
it.
---
 runner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runner.go b/runner.go
index bda5937..bc35766 100644
--- a/runner.go
+++ b/runner.go
@@ -220,7 +220,7 @@ func NewRunner(p RunnerParams) (*Runner, error) {
 	}
 	if p.MoreImportant == nil {
 		p.MoreImportant = func(err0, err1 error) bool {
-			return true
+			return false
 		}
 	}
 	if p.RestartDelay == 0 {
-- 
2.43.0


From ef5ec21c23b5eceb7b755c7a46687ff1fc3db821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:15 +0000
Subject: [PATCH 07/23] fix: a fatal error must interrupt pending restarts and
 start functions

When a worker failed fatally the runner waited for every worker that was
in its restart delay to be started again (only to be killed), and start
functions in progress were not told through their context, so that the
runner might never finish.
---
 runner.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runner.go b/runner.go
index bc35766..cd75abd 100644
--- a/runner.go
+++ b/runner.go
@@ -530,6 +530,8 @@ func (runner *Runner) workerDone(info doneInfo) {
 			if !runner.isDying {
 				runner.isDying = true
 				runner.killAll()
+				// Interrupt pending restarts and start functions.
+				runner.tomb.Kill(nil)
 			}
 			return
 		} else {
-- 
2.43.0


From 13219a246d7ef71712530c892304b1fe4287ddc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:15 +0000
Subject: [PATCH 08/23] fix: a worker waiting to be restarted is not available

Worker returned, and Report described as started, the finished worker
until the new one was there.
---
 runner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runner.go b/runner.go
index cd75abd..37788bb 100644
--- a/runner.go
+++ b/runner.go
@@ -553,6 +553,9 @@ func (runner *Runner) workerDone(info doneInfo) {
 		runner.removeWorker(info.id, workerInfo.done)
 		return
 	}
+	runner.mu.Lock()
+	workerInfo.worker = nil
+	runner.mu.Unlock()
 	pprof.Do(runner.tomb.Context(context.Background()), workerInfo.labels, func(ctx context.Context) {
 		go runner.runWorker(ctx, workerInfo.restartDelay, info.id, workerInfo.start)
 	})
-- 
2.43.0


From a1ed080b98dada1aac38e9348622880a1cde86a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:15 +0000
Subject: [PATCH 09/23] fix: report the time a worker was last started

Report kept showing the time of the first start after a restart.
---
 runner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runner.go b/runner.go
index 37788bb..f368793 100644
--- a/runner.go
+++ b/runner.go
@@ -578,6 +578,7 @@ func (runner *Runner) setWorker(id string, w Worker) {
 	defer runner.mu.Unlock()
 	info := runner.workers[id]
 	info.worker = w
+	info.started = runner.params.Clock.Now().UTC()
 	if runner.isDying || info.stopping {
 		// We're dying or the worker has already been
 		// stopped, so kill it already.
-- 
2.43.0


From b70e40874670d5906363d141bcf18a67e8e7dc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:15 +0000
Subject: [PATCH 10/23] fix: report a worker being stopped as stopping

killWorkerLocked clears the worker when it marks it as stopping, so that
state was never reported.
---
 runner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runner.go b/runner.go
index f368793..6b8719b 100644
--- a/runner.go
+++ b/runner.go
@@ -103,7 +103,7 @@ type workerInfo struct {
 }
 
 func (i *workerInfo) status() string {
-	if i.stopping && i.worker != nil {
+	if i.stopping {
 		return "stopping"
 	}
 	if i.worker == nil {
-- 
2.43.0


From 7604082e37a2148cc68a4f6bcee8b8e2ae28d0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:15 +0000
Subject: [PATCH 11/23] fix: stopping a worker must interrupt its pending
 restart

A worker stopped while waiting to be restarted was started once more
after the delay, and stayed known until then.
---
 runner.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/runner.go b/runner.go
index 6b8719b..dca34da 100644
--- a/runner.go
+++ b/runner.go
@@ -94,6 +94,10 @@ type workerInfo struct {
 	// still exist while this is true.
 	stopping bool
 
+	// stopped is closed when the worker has been asked to stop, to
+	// interrupt a pending restart.
+	stopped chan struct{}
+
 	// done is used to signal when the worker has finished
 	// running and is removed from the runner.
 	done chan struct{}
@@ -487,10 +491,11 @@ func (runner *Runner) startWorker(req startReq) error {
 		restartDelay: runner.params.RestartDelay,
 		started:      runner.params.Clock.Now().UTC(),
 		done:         make(chan struct{}, 1),
+		stopped:      make(chan struct{}),
 	}
 
 	pprof.Do(runner.tomb.Context(req.ctx), labels, func(ctx context.Context) {
-		go runner.runWorker(ctx, 0, req.id, req.start)
+		go runner.runWorker(ctx, 0, req.id, req.start, nil)
 	})
 	return nil
 }
@@ -557,7 +562,7 @@ func (runner *Runner) workerDone(info doneInfo) {
 	workerInfo.worker = nil
 	runner.mu.Unlock()
 	pprof.Do(runner.tomb.Context(context.Background()), workerInfo.labels, func(ctx context.Context) {
-		go runner.runWorker(ctx, workerInfo.restartDelay, info.id, workerInfo.start)
+		go runner.runWorker(ctx, workerInfo.restartDelay, info.id, workerInfo.start, workerInfo.stopped)
 	})
 	workerInfo.restartDelay = params.RestartDelay
 }
@@ -611,6 +616,9 @@ func (runner *Runner) killWorkerLocked(id string) {
 	if info == nil {
 		return
 	}
+	if !info.stopping {
+		close(info.stopped)
+	}
 	info.stopping = true
 	info.start = nil
 	if info.worker != nil {
@@ -622,16 +630,18 @@ func (runner *Runner) killWorkerLocked(id string) {
 	}
 }
 
-// runWorker starts the given worker after waiting for the given delay.
-func (runner *Runner) runWorker(ctx context.Context, delay time.Duration, id string, start StartFunc) {
+// runWorker starts the given worker after waiting for the given delay,
+// unless stopped is closed first.
+func (runner *Runner) runWorker(ctx context.Context, delay time.Duration, id string, start StartFunc, stopped <-chan struct{}) {
 	if delay > 0 {
 		runner.params.Logger.Infof("restarting %q in %v", id, delay)
-		// TODO(rog) provide a way of interrupting this
-		// so that it can be stopped when a worker is removed.
 		select {
 		case <-runner.tomb.Dying():
 			runner.donec <- doneInfo{id, nil}
 			return
+		case <-stopped:
+			runner.donec <- doneInfo{id, nil}
+			return
 		case <-runner.params.Clock.After(delay):
 		}
 	}
-- 
2.43.0


From 9ec71e1fa20dc38cf4e4c081753011669b3df522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:42 +0000
Subject: [PATCH 12/23] fix: StopAndRemoveWorker must stop the worker for good
 and never hang

It killed the worker behind the run goroutine's back, so that a worker
that finished with a restartable error was restarted and the caller hung;
it ignored abort while waiting for the worker to finish; and of several
concurrent callers only one was told that the worker had been removed.
---
 runner.go | 78 +++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 50 insertions(+), 28 deletions(-)

diff --git a/runner.go b/runner.go
index dca34da..3b90dd4 100644
--- a/runner.go
+++ b/runner.go
@@ -32,7 +32,7 @@ type StartFunc = func(context.Context) (Worker, error)
 type Runner struct {
 	tomb     tomb.Tomb
 	startc   chan startReq
-	stopc    chan string
+	stopc    chan stopReq
 	donec    chan doneInfo
 	startedc chan startInfo
 
@@ -98,10 +98,14 @@ type workerInfo struct {
 	// interrupt a pending restart.
 	stopped chan struct{}
 
-	// done is used to signal when the worker has finished
+	// done is closed when the worker has finished
 	// running and is removed from the runner.
 	done chan struct{}
 
+	// err holds the error the worker finished with; it may be
+	// read when done is closed.
+	err error
+
 	// started holds the time the worker was started.
 	started time.Time
 }
@@ -123,6 +127,12 @@ type startReq struct {
 	reply chan error
 }
 
+type stopReq struct {
+	id string
+	// info, if not nil, restricts the request to that very entry.
+	info *workerInfo
+}
+
 type startInfo struct {
 	id     string
 	worker Worker
@@ -239,7 +249,7 @@ func NewRunner(p RunnerParams) (*Runner, error) {
 
 	runner := &Runner{
 		startc:   make(chan startReq),
-		stopc:    make(chan string),
+		stopc:    make(chan stopReq),
 		donec:    make(chan doneInfo),
 		startedc: make(chan startInfo),
 		params:   p,
@@ -280,7 +290,7 @@ func (runner *Runner) StartWorker(ctx context.Context, id string, startFunc Star
 // StopWorker returns ErrDead if the runner is not running.
 func (runner *Runner) StopWorker(id string) error {
 	select {
-	case runner.stopc <- id:
+	case runner.stopc <- stopReq{id: id}:
 		return nil
 	case <-runner.tomb.Dead():
 	}
@@ -293,16 +303,20 @@ func (runner *Runner) StopWorker(id string) error {
 //
 // StopAndRemoveWorker returns ErrDead if the runner is not running.
 func (runner *Runner) StopAndRemoveWorker(id string, abort <-chan struct{}) error {
-	w, done, err := runner.workerInfo(id, abort)
+	_, info, err := runner.workerInfo(id, abort, true)
 	if err != nil {
 		return err
 	}
-	workerErr := Stop(w)
+	// Let the run goroutine stop it, so that it isn't restarted.
+	select {
+	case runner.stopc <- stopReq{id, info}:
+	case <-info.done:
+	}
 
 	select {
 	case <-abort:
-	case <-done:
-		return workerErr
+	case <-info.done:
+		return info.err
 	}
 	return ErrAborted
 }
@@ -328,7 +342,7 @@ func (runner *Runner) Kill() {
 // waiting, Worker will return ErrAborted. If the runner
 // has been killed while waiting, Worker will return ErrDead.
 func (runner *Runner) Worker(id string, abort <-chan struct{}) (Worker, error) {
-	w, _, err := runner.workerInfo(id, abort)
+	w, _, err := runner.workerInfo(id, abort, false)
 	return w, err
 }
 
@@ -346,21 +360,26 @@ func (runner *Runner) WorkerNames() []string {
 	return names
 }
 
-func (runner *Runner) workerInfo(id string, abort <-chan struct{}) (Worker, <-chan struct{}, error) {
+// workerInfo waits until the worker with the given id is available or, if
+// stopping is true, being stopped.
+func (runner *Runner) workerInfo(id string, abort <-chan struct{}, stopping bool) (Worker, *workerInfo, error) {
 	runner.mu.Lock()
 	// getWorker returns the current worker for the id
 	// and reports an ErrNotFound error if the worker
 	// isn't found.
-	getWorker := func() (Worker, <-chan struct{}, error) {
+	getWorker := func() (Worker, *workerInfo, error) {
 		info := runner.workers[id]
 		if info == nil {
 			// No entry for the id means the worker
 			// will never become available.
 			return nil, nil, errors.NotFoundf("worker %q", id)
 		}
-		return info.worker, info.done, nil
+		return info.worker, info, nil
 	}
-	if w, done, err := getWorker(); err != nil || w != nil {
+	ready := func(w Worker, info *workerInfo, err error) bool {
+		return err != nil || w != nil || stopping && info.stopping
+	}
+	if w, info, err := getWorker(); ready(w, info, err) {
 		// The worker is immediately available  (or we know it's
 		// not going to become available). No need
 		// to block waiting for it.
@@ -374,11 +393,11 @@ func (runner *Runner) workerInfo(id string, abort <-chan struct{}) (Worker, <-ch
 			return nil, nil, ErrDead
 		default:
 		}
-		return w, done, err
+		return w, info, err
 	}
 	type workerResult struct {
 		w    Worker
-		done <-chan struct{}
+		info *workerInfo
 		err  error
 	}
 	wc := make(chan workerResult, 1)
@@ -393,8 +412,8 @@ func (runner *Runner) workerInfo(id string, abort <-chan struct{}) (Worker, <-ch
 				// Note: sync.Condition.Wait unlocks the mutex before
 				// waiting, then locks it again before returning.
 				runner.workersChangedCond.Wait()
-				if w, done, err := getWorker(); err != nil || w != nil {
-					wc <- workerResult{w, done, err}
+				if w, info, err := getWorker(); ready(w, info, err) {
+					wc <- workerResult{w, info, err}
 					return
 				}
 			}
@@ -413,7 +432,7 @@ func (runner *Runner) workerInfo(id string, abort <-chan struct{}) (Worker, <-ch
 			default:
 			}
 		}
-		return w.w, w.done, w.err
+		return w.w, w.info, w.err
 	case <-runner.tomb.Dying():
 		return nil, nil, ErrDead
 	case <-abort:
@@ -445,9 +464,11 @@ func (runner *Runner) run() error {
 			runner.params.Logger.Debugf("start %q", req.id)
 			req.reply <- runner.startWorker(req)
 
-		case id := <-runner.stopc:
-			runner.params.Logger.Debugf("stop %q", id)
-			runner.killWorker(id)
+		case req := <-runner.stopc:
+			runner.params.Logger.Debugf("stop %q", req.id)
+			if req.info == nil || req.info == runner.workers[req.id] {
+				runner.killWorker(req.id)
+			}
 
 		case info := <-runner.startedc:
 			runner.params.Logger.Debugf("%q started", info.id)
@@ -490,7 +511,7 @@ func (runner *Runner) startWorker(req startReq) error {
 		start:        req.start,
 		restartDelay: runner.params.RestartDelay,
 		started:      runner.params.Clock.Now().UTC(),
-		done:         make(chan struct{}, 1),
+		done:         make(chan struct{}),
 		stopped:      make(chan struct{}),
 	}
 
@@ -515,7 +536,7 @@ func (runner *Runner) workerDone(info doneInfo) {
 	workerInfo := runner.workers[info.id]
 	if !workerInfo.stopping && info.err == nil {
 		params.Logger.Debugf("removing %q from known workers", info.id)
-		runner.removeWorker(info.id, workerInfo.done)
+		runner.removeWorker(info.id, workerInfo, info.err)
 		return
 	}
 	if info.err != nil {
@@ -531,7 +552,7 @@ func (runner *Runner) workerDone(info doneInfo) {
 			if runner.finalError == nil || params.MoreImportant(info.err, runner.finalError) {
 				runner.finalError = info.err
 			}
-			runner.removeWorker(info.id, workerInfo.done)
+			runner.removeWorker(info.id, workerInfo, info.err)
 			if !runner.isDying {
 				runner.isDying = true
 				runner.killAll()
@@ -545,7 +566,7 @@ func (runner *Runner) workerDone(info doneInfo) {
 
 		if !params.ShouldRestart(info.err) {
 			params.Logger.Debugf("removing %q from known workers", info.id)
-			runner.removeWorker(info.id, workerInfo.done)
+			runner.removeWorker(info.id, workerInfo, info.err)
 			return
 		}
 		params.Logger.Errorf("exited %q: %s", info.id, errStr)
@@ -555,7 +576,7 @@ func (runner *Runner) workerDone(info doneInfo) {
 
 		// The worker has been deliberately stopped;
 		// we can now remove it from the list of workers.
-		runner.removeWorker(info.id, workerInfo.done)
+		runner.removeWorker(info.id, workerInfo, info.err)
 		return
 	}
 	runner.mu.Lock()
@@ -570,10 +591,11 @@ func (runner *Runner) workerDone(info doneInfo) {
 // removeWorker removes the worker with the given id from the
 // set of current workers. This should only be called when
 // the worker is not running.
-func (runner *Runner) removeWorker(id string, removed chan<- struct{}) {
+func (runner *Runner) removeWorker(id string, info *workerInfo, err error) {
 	runner.mu.Lock()
 	delete(runner.workers, id)
-	removed <- struct{}{}
+	info.err = err
+	close(info.done)
 	runner.mu.Unlock()
 }
 
-- 
2.43.0


From 790e45f432563558601a588260a91df723ba5d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:46 +0000
Subject: [PATCH 13/23] fix: Kill with tomb.ErrStillAlive must not panic

It is documented to be always safe to call Kill, but with the error of a
tomb that is still alive, which is also what a worker returns that passes
on another catacomb's Err, it crashed the process.
---
 catacomb/catacomb.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/catacomb/catacomb.go b/catacomb/catacomb.go
index 442b9dd..e15d311 100644
--- a/catacomb/catacomb.go
+++ b/catacomb/catacomb.go
@@ -243,7 +243,7 @@ func (catacomb *Catacomb) scopedContext() context.Context {
 // Kill kills the Catacomb's internal tomb with the supplied error, or one
 // derived from it.
 //   - if it's caused by this catacomb's ErrDying, it passes on tomb.ErrDying.
-//   - if it's tomb.ErrDying, or caused by another catacomb's ErrDying, it passes
+//   - if it's tomb.ErrDying or tomb.ErrStillAlive, or caused by another catacomb's ErrDying, it passes
 //     on a new error complaining about the misuse.
 //   - all other errors are passed on unmodified.
 //
@@ -253,6 +253,9 @@ func (catacomb *Catacomb) Kill(err error) {
 	if err == tomb.ErrDying {
 		err = errors.New("bad catacomb Kill: tomb.ErrDying")
 	}
+	if err == tomb.ErrStillAlive {
+		err = errors.New("bad catacomb Kill: tomb.ErrStillAlive")
+	}
 	var dyingErr dyingError
 	if errors.As(err, &dyingErr) {
 		if catacomb != dyingErr.catacomb {
-- 
2.43.0


From 34d0036c093ad2860d3927ce6730ff7fa523b7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:46 +0000
Subject: [PATCH 14/23] fix: Kill after the catacomb is dead must not change
 its error

Errors passed to Kill then are documented to be ignored, but replaced a
nil error.
---
 catacomb/catacomb.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/catacomb/catacomb.go b/catacomb/catacomb.go
index e15d311..895158c 100644
--- a/catacomb/catacomb.go
+++ b/catacomb/catacomb.go
@@ -265,6 +265,12 @@ func (catacomb *Catacomb) Kill(err error) {
 		}
 	}
 
+	select {
+	case <-catacomb.tomb.Dead():
+		return
+	default:
+	}
+
 	// TODO(fwereade) it's pretty clear that this ought to be a Kill(nil), and
 	// the catacomb should be responsible for ranking errors, just like the
 	// dependency.Engine does, rather than determining priority by scheduling
-- 
2.43.0


From 0b8f4bf98b4560ff19871a73287cc6047c13f1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:38 +0000
Subject: [PATCH 15/23] fix: concurrent Get calls must not race

---
 dependency/engine.go   |  4 ++--
 dependency/snapshot.go | 14 ++++++++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index b9e5286..67948ac 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -555,7 +555,7 @@ func (engine *Engine) runWorker(name string, delay time.Duration, start StartFun
 		case engine.started <- startedTicket{
 			name:        name,
 			worker:      worker,
-			resourceLog: snapshot.accessLog,
+			resourceLog: snapshot.resourceLog(),
 		}:
 			engine.config.Logger.Tracef("registered %q manifold worker", name)
 		}
@@ -578,7 +578,7 @@ func (engine *Engine) runWorker(name string, delay time.Duration, start StartFun
 	case engine.stopped <- stoppedTicket{
 		name:        name,
 		err:         err,
-		resourceLog: snapshot.accessLog,
+		resourceLog: snapshot.resourceLog(),
 	}:
 	case <-engine.tomb.Dead():
 	}
diff --git a/dependency/snapshot.go b/dependency/snapshot.go
index 915f652..67e35e1 100644
--- a/dependency/snapshot.go
+++ b/dependency/snapshot.go
@@ -6,6 +6,7 @@ package dependency
 import (
 	"context"
 	"fmt"
+	"sync"
 
 	"github.com/juju/errors"
 
@@ -30,6 +31,10 @@ type snapshot struct {
 	// outputs holds the snapshot of manifold output funcs.
 	outputs map[string]OutputFunc
 
+	// mu guards accessLog: Get may be called from several goroutines, and
+	// might be called while the snapshot expires.
+	mu sync.Mutex
+
 	// accessLog holds the names and types of resource requests, and any error
 	// encountered. It does not include requests made after expiry.
 	accessLog []resourceAccess
@@ -46,6 +51,8 @@ func (s *snapshot) Get(resourceName string, out interface{}) error {
 		return errors.New("expired context: cannot be used outside Start func")
 	default:
 		err := s.rawAccess(resourceName, out)
+		s.mu.Lock()
+		defer s.mu.Unlock()
 		s.accessLog = append(s.accessLog, resourceAccess{
 			name: resourceName,
 			as:   fmt.Sprintf("%T", out),
@@ -60,6 +67,13 @@ func (s *snapshot) expire() {
 	close(s.expired)
 }
 
+// resourceLog returns the resource requests made so far.
+func (s *snapshot) resourceLog() []resourceAccess {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	return s.accessLog
+}
+
 // rawAccess is a GetResourceFunc that neither checks enpiry nor records access.
 func (s *snapshot) rawAccess(resourceName string, out interface{}) error {
 	input, found := s.workers[resourceName]
-- 
2.43.0


From 882193e51818479ba9351516379cfce39fa925a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:19 +0000
Subject: [PATCH 16/23] fix: reject a BackoffFactor that is not a number

---
 dependency/engine.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index 67948ac..6b00870 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -103,7 +103,8 @@ func (config *EngineConfig) Validate() error {
 	if config.BounceDelay < 0 {
 		return errors.New("BounceDelay is negative")
 	}
-	if config.BackoffFactor != 0 && config.BackoffFactor < 1 {
+	// Negated, so that it rejects NaN as well.
+	if config.BackoffFactor != 0 && !(config.BackoffFactor >= 1) {
 		return errors.Errorf("BackoffFactor %v must be >= 1", config.BackoffFactor)
 	}
 	if config.BackoffResetTime < 0 {
-- 
2.43.0


From 79b39b187140d6eb2093dc0a148f3bb8486ab738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:55 +0000
Subject: [PATCH 17/23] fix: Invoke must not remove the profiler labels of its
 caller

---
 catacomb/catacomb.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/catacomb/catacomb.go b/catacomb/catacomb.go
index 895158c..fdf095f 100644
--- a/catacomb/catacomb.go
+++ b/catacomb/catacomb.go
@@ -123,12 +123,13 @@ func Invoke(plan Plan) (err error) {
 		"type", "catacomb",
 		"name", plan.Name,
 	)
-	pprof.Do(catacomb.scopedContext(), labels, func(ctx context.Context) {
-		catacomb.tomb.Go(func() error {
-			defer catacomb.wg.Wait()
-			catacomb.Kill(runSafely(plan.Work))
-			return nil
-		})
+	ctx := pprof.WithLabels(catacomb.scopedContext(), labels)
+	catacomb.tomb.Go(func() error {
+		// Label only this goroutine, and leave the caller's labels alone.
+		pprof.SetGoroutineLabels(ctx)
+		defer catacomb.wg.Wait()
+		catacomb.Kill(runSafely(plan.Work))
+		return nil
 	})
 	return nil
 }
-- 
2.43.0


From f6e64048edc43d72e9ec99463c40e250f18d3821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:00 +0000
Subject: [PATCH 18/23] fix: a fatal tomb.ErrDying or tomb.ErrStillAlive of a
 worker must be returned

The runner passed the error of a worker through its tomb, so that Wait
returned nil for tomb.ErrDying, and tomb.ErrStillAlive panicked.
---
 runner.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/runner.go b/runner.go
index 3b90dd4..e4e057b 100644
--- a/runner.go
+++ b/runner.go
@@ -323,7 +323,12 @@ func (runner *Runner) StopAndRemoveWorker(id string, abort <-chan struct{}) erro
 
 // Wait implements Worker.Wait
 func (runner *Runner) Wait() error {
-	return runner.tomb.Wait()
+	if err := runner.tomb.Wait(); err != nil {
+		return err
+	}
+	// The error of a worker is not passed through the tomb, to which
+	// tomb.ErrDying and tomb.ErrStillAlive have a special meaning.
+	return runner.finalError
 }
 
 // Kill implements Worker.Kill
@@ -451,7 +456,8 @@ func (runner *Runner) run() error {
 	tombDying := runner.tomb.Dying()
 	for {
 		if runner.isDying && len(runner.workers) == 0 {
-			return runner.finalError
+			// Wait returns finalError.
+			return nil
 		}
 		select {
 		case <-tombDying:
-- 
2.43.0


From 89564814cc2fe726f377162a904f3016944b18e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:00 +0000
Subject: [PATCH 19/23] fix: error and forever workers must fail with any error
 supplied

The error was passed through the tomb, which panics when killed with
tomb.ErrDying or tomb.ErrStillAlive while alive.
---
 workertest/workers.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/workertest/workers.go b/workertest/workers.go
index 36355a6..9cf05b7 100644
--- a/workertest/workers.go
+++ b/workertest/workers.go
@@ -30,12 +30,14 @@ type errorWorker struct {
 
 // Kill is part of the worker.Worker interface.
 func (w *errorWorker) Kill() {
-	w.tomb.Kill(w.err)
+	w.tomb.Kill(nil)
 }
 
 // Wait is part of the worker.Worker interface.
 func (w *errorWorker) Wait() error {
-	return w.tomb.Wait()
+	// The error is not passed through the tomb, which refuses some errors.
+	w.tomb.Wait()
+	return w.err
 }
 
 // NewDeadWorker returns a Worker that's already dead, and always immediately
@@ -79,10 +81,12 @@ func (w *ForeverWorker) Kill() {}
 
 // Wait is part of the worker.Worker interface.
 func (w *ForeverWorker) Wait() error {
-	return w.tomb.Wait()
+	// The error is not passed through the tomb, which refuses some errors.
+	w.tomb.Wait()
+	return w.err
 }
 
 // ReallyKill does what Kill should.
 func (w *ForeverWorker) ReallyKill() {
-	w.tomb.Kill(w.err)
+	w.tomb.Kill(nil)
 }
-- 
2.43.0


From 41d3c2ac7b6e7749c5f07e676db82015e7f45cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:23 +0000
Subject: [PATCH 20/23] fix: a catacomb's Context must not panic for a parent
 that can't be compared

tomb.Context uses the parent as a map key.
---
 catacomb/catacomb.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/catacomb/catacomb.go b/catacomb/catacomb.go
index fdf095f..0c24ba1 100644
--- a/catacomb/catacomb.go
+++ b/catacomb/catacomb.go
@@ -6,6 +6,7 @@ package catacomb
 import (
 	"context"
 	"fmt"
+	"reflect"
 	"runtime/debug"
 	"runtime/pprof"
 	"strings"
@@ -232,9 +233,17 @@ func (catacomb *Catacomb) Err() error {
 //
 // If parent is nil, it defaults to the empty background context.
 func (catacomb *Catacomb) Context(parent context.Context) context.Context {
+	if parent != nil && !reflect.ValueOf(parent).Comparable() {
+		// The tomb uses the parents of its contexts as map keys.
+		parent = context.WithValue(parent, comparableKey{}, nil)
+	}
 	return catacomb.tomb.Context(parent)
 }
 
+// comparableKey is the key of a value that isn't used; it makes a context
+// whose type can't be compared into one that can.
+type comparableKey struct{}
+
 // scopedContext returns a context that is associated with the catacomb's
 // tomb.Context, and will be cancelled when the tomb dies.
 func (catacomb *Catacomb) scopedContext() context.Context {
-- 
2.43.0


From 4e1c5fe4952d9401429da22333773f366307e039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:03 +0000
Subject: [PATCH 21/23] fix: StartWorker must not crash the runner for a
 context that can't be compared

tomb.Context uses the parent as a map key.
---
 runner.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/runner.go b/runner.go
index e4e057b..29ecc21 100644
--- a/runner.go
+++ b/runner.go
@@ -5,6 +5,7 @@ package worker
 
 import (
 	"context"
+	"reflect"
 	"runtime/pprof"
 	"strings"
 	"sync"
@@ -521,12 +522,21 @@ func (runner *Runner) startWorker(req startReq) error {
 		stopped:      make(chan struct{}),
 	}
 
-	pprof.Do(runner.tomb.Context(req.ctx), labels, func(ctx context.Context) {
+	ctx := req.ctx
+	if !reflect.ValueOf(ctx).Comparable() {
+		// The tomb uses the parents of its contexts as map keys.
+		ctx = context.WithValue(ctx, comparableKey{}, nil)
+	}
+	pprof.Do(runner.tomb.Context(ctx), labels, func(ctx context.Context) {
 		go runner.runWorker(ctx, 0, req.id, req.start, nil)
 	})
 	return nil
 }
 
+// comparableKey is the key of a value that isn't used; it makes a context
+// whose type can't be compared into one that can.
+type comparableKey struct{}
+
 type panicError interface {
 	error
 	StackTrace() []string
-- 
2.43.0


From e8df2b4a245e40e8a870d0d455991dba49f0f602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:13 +0000
Subject: [PATCH 22/23] fix: a runner's Report must not hold the mutex while
 workers report

A worker that uses the runner in its Report, or answers it from a loop that
uses the runner, deadlocked the runner for good, and one that takes its time
delayed everything else.
---
 runner.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/runner.go b/runner.go
index 29ecc21..25e708f 100644
--- a/runner.go
+++ b/runner.go
@@ -725,25 +725,28 @@ type reporter interface {
 // Report implements Reporter.
 func (runner *Runner) Report() map[string]interface{} {
 	workers := make(map[string]interface{})
+	reporters := make(map[string]reporter)
 	runner.mu.Lock()
-	defer runner.mu.Unlock()
 	for id, info := range runner.workers {
-		worker := info.worker
 		workerReport := map[string]interface{}{
 			KeyState: info.status(),
 		}
 		if !info.started.IsZero() {
 			workerReport[KeyLastStart] = info.started.Format("2006-01-02 15:04:05")
 		}
-		if worker != nil {
-			if r, ok := worker.(reporter); ok {
-				if report := r.Report(); len(report) > 0 {
-					workerReport[KeyReport] = report
-				}
-			}
+		if r, ok := info.worker.(reporter); ok {
+			reporters[id] = r
 		}
 		workers[id] = workerReport
 	}
+	runner.mu.Unlock()
+	// The workers are asked without holding the mutex, as they may take
+	// their time, or use the runner themselves.
+	for id, r := range reporters {
+		if report := r.Report(); len(report) > 0 {
+			workers[id].(map[string]interface{})[KeyReport] = report
+		}
+	}
 	return map[string]interface{}{
 		"workers": workers,
 	}
-- 
2.43.0


From ea1bf4f4d14be671f0ba456ea94cc0152636146c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:07 +0000
Subject: [PATCH 23/23] fix: an engine's Report must not run the workers'
 Reports in its loop

A worker that uses the engine in its Report, or answers it from a loop that
uses the engine, deadlocked the engine for good, and one that takes its time
delayed everything else.
---
 dependency/engine.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/dependency/engine.go b/dependency/engine.go
index 6b00870..17b33e9 100644
--- a/dependency/engine.go
+++ b/dependency/engine.go
@@ -250,7 +250,7 @@ func (engine *Engine) Report() map[string]interface{} {
 	select {
 	case engine.report <- reportTicket{report}:
 		// This is safe so long as the loop sends a result.
-		return <-report
+		return addWorkerReports(<-report)
 	case <-engine.tomb.Dead():
 		// Note that we don't abort on Dying as we usually would; the
 		// oneShotDying approach in loop means that it can continue to
@@ -263,10 +263,23 @@ func (engine *Engine) Report() map[string]interface{} {
 		if err := engine.Wait(); err != nil {
 			report[KeyError] = err.Error()
 		}
-		return report
+		return addWorkerReports(report)
 	}
 }
 
+// addWorkerReports replaces the reporters in an engine's report by what they
+// report, and returns it. It must not be called from the loop goroutine, as
+// the workers may take their time, or use the engine themselves.
+func addWorkerReports(report map[string]interface{}) map[string]interface{} {
+	for _, manifold := range report[KeyManifolds].(map[string]interface{}) {
+		manifold := manifold.(map[string]interface{})
+		if reporter, ok := manifold[KeyReport].(Reporter); ok {
+			manifold[KeyReport] = reporter.Report()
+		}
+	}
+	return report
+}
+
 // liveReport collects and returns information about the engine, its manifolds,
 // and their workers. It must only be called from the loop goroutine.
 func (engine *Engine) liveReport() map[string]interface{} {
@@ -311,7 +324,8 @@ func (engine *Engine) manifoldsReport() map[string]interface{} {
 		}
 		if reporter, ok := info.worker.(Reporter); ok {
 			if reporter != engine {
-				report[KeyReport] = reporter.Report()
+				// See addWorkerReports.
+				report[KeyReport] = reporter
 			}
 		}
 		manifolds[name] = report
-- 
2.43.0

