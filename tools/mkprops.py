#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)."""
import json
ENG="dependency/engine.go"; INT="dependency/interface.go"; SNAP="dependency/snapshot.go"; UTIL="dependency/util.go"; REP="dependency/reporter.go"; RUN="runner.go"; CAT="catacomb/catacomb.go"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=None)))

p("C01","Engine: at most one incarnation of a manifold at any time",
"For every manifold name a dependency engine never has two incarnations at once. A Start call for a name begins only after the previous Start call for that name has returned and, if it produced a worker, after that worker has completely finished (its Wait has returned).",
["histories","schedules"],"all install/exit/error/kill histories over dependency graphs and all interleavings of worker events with engine decisions",
"Tests start a handful of manifolds and count starts; none checks overlap while inputs change during a slow start, a slow stop or a pending restart delay.",
[ENG],[("single loop goroutine; start requested only from stopped state","requestStart/gotStopped in "+ENG),("wait for worker before reporting it stopped","runWorker in "+ENG)],
[("current","per-name worker info",ENG)],["Start calls","worker Wait"])

p("C02","Engine: workers always end up built on the current dependencies",
"Whenever an engine that is not shutting down has become idle, the latest Start call of every installed manifold saw, for each declared input, exactly the worker of that input that is running now (or that it is unavailable, if none is). Whatever was built on a superseded state of an input has been told to stop and been replaced.",
["histories","schedules"],"all acyclic graphs, all histories of installs, exits, failures and uninstalls, all timings of starts and stops",
"Tests use chains of at most three manifolds with one injected error at a time; convergence must hold when several inputs change while dependents are starting, stopping or waiting to restart.",
[ENG,SNAP],[("bounce dependents on every registered start and stop","bounceDependents in "+ENG),("snapshot of inputs at start request","snapshot in "+ENG)],
[("dependents","reverse edges",ENG)],["Get results inside Start","Report"])

p("C03","Engine: nothing is restarted without a cause",
"A manifold's worker is told to stop, or its Start called again, only because its own run failed with an error that asks for a restart, because the worker of a directly declared input started or stopped (each such change causes at most one restart per declaration), or because the engine is shutting down. In particular a manifold that finished without error or reported ErrMissing stays stopped while its inputs are unchanged, and manifolds that do not depend on what changed are not disturbed.",
["histories","schedules"],"all graphs and histories; restarts counted between idle points",
"Tests assert 'no start' for a short real-time window in a few fixed scenarios.",
[ENG],[("interpretation of the exit error","gotStopped in "+ENG),("only declared dependents bounced","bounceDependents in "+ENG)],[],["Start and Kill calls"])

p("C04","Engine: every failure or deliberate stop is followed by a restart",
"Every successfully installed manifold gets a Start call whether or not its inputs are available, and while the engine is not shutting down every run that ends with an error other than ErrMissing or ErrUninstall (as converted by the manifold's Filter), and every run the engine itself told to stop, is followed by another Start call. When the engine is idle every installed manifold is therefore running, still inside Start, or stopped because it last finished without error or with ErrMissing.",
["histories","fault_sequences","schedules"],"all failure sequences of start functions and workers, including failures while being stopped and changes while a restart is pending",
"Tests inject one error and wait for one restart; a lost wake-up after a particular sequence (for instance an abort of a pending restart) is not sampled.",
[ENG],[("restart decision","gotStopped in "+ENG),("restart of stopped dependents","bounceDependents in "+ENG)],[],["Start calls"])

p("C05","Engine: restart delays follow the configured delays and backoff",
"The first Start call after Install is immediate; after a failed run or Start the next one comes ErrorDelay later, and after ErrBounce or a dependency change BounceDelay later, in both cases multiplied, when BackoffFactor is set, by BackoffFactor once for each directly preceding failure and capped at MaxDelay when that is set, all within +-10% (and rounding to a millisecond). Failures stop being consecutive after a clean finish, after ErrMissing, or after a run of at least BackoffResetTime. However many failures accumulate the delay never wraps, turns negative or drops below 90% of the base delay (or of MaxDelay, if that is smaller).",
["histories","configurations"],"all delay configurations and all sequences of failures, bounces and run lengths",
"Three tests check fixed configurations with one series each; interactions of clean stops, reset time, missing MaxDelay and long series are not reached.",
[ENG],[("delay computation","requestStart in "+ENG),("failure counting","gotStopped in "+ENG)],[("recentErrors","consecutive failures",ENG)],["Clock.After","Start times"])

p("C06","Engine: Get exposes exactly the declared, running, exported inputs",
"Inside Start, Get of a name that is not a declared input, or of an input whose worker is not running, fails with ErrMissing; otherwise Get with a nil out succeeds, Get with a non-nil out fails with ErrMissing if that manifold has no Output, and else returns the result of its Output called with that manifold's current worker and the same out. All Get calls during one Start agree on the same set of input workers, and once Start has returned Get fails without reaching any Output.",
["inputs","histories","schedules"],"all manifold declarations, Output behaviours, requested names and out values, at any moment of the engine's life",
"Tests cover one declared and one undeclared name with a constant environment.",
[SNAP,ENG],[("snapshot and expiry","Get/rawAccess/expire in "+SNAP)],[],["Get results","Output calls"])

p("C07","Engine: exactly the acyclic, unambiguous installs are accepted",
"Validate reports an error exactly when the declared inputs of the given manifolds contain a cycle (including self-dependency; names without a manifold are harmless), and decides quickly however many paths the graph has. Install on a running engine succeeds exactly when the name is not in use and adding the manifold keeps the installed graph acyclic, and a rejected Install changes nothing: its Start is never called, the existing manifolds are undisturbed and later installs behave as if it had not happened. Installing a set of manifolds at once installs all of them or stops with an error at the first one rejected.",
["inputs","histories"],"all finite graphs over names, all install orders, also after uninstalls",
"Tests validate two example graphs and one two-node install cycle.",
[UTIL,ENG],[("depth-first cycle check","validator in "+UTIL),("check before recording","gotInstall/checkAcyclic in "+ENG)],[],["Install and Validate errors","Report"])

p("C08","Engine: an uninstalled manifold is gone, and its name is reusable",
"When a manifold's run or Start ends with ErrUninstall (as converted by its Filter) without the engine having asked it to stop, its Start is never called again, it disappears from Report, its former dependents are restarted without it, and its name can be installed again. Manifolds that declare that name are then restarted with the new worker exactly as for any other install.",
["histories"],"all histories in which manifolds with and without dependents and inputs are uninstalled and reinstalled any number of times",
"One test uninstalls and reinstalls a single input once.",
[ENG],[("removal that keeps the edges of dependents","uninstall in "+ENG)],[],["Start calls","Report","Install"])

p("C09","Engine: shutdown stops everything, starts nothing and always finishes",
"Once an engine has been killed or has met a fatal error, every running worker is promptly told to stop, the context of every Start call in progress is cancelled, and no further Start call begins. Wait returns as soon as, and not before, all Start calls have returned and all workers have finished; afterwards Install fails, Report still answers, and no goroutine of the engine is left behind.",
["schedules","histories","crash_points"],"kill or fatal error at any point of any history: during starts, restart delays, slow stops, installs and reports",
"Tests kill engines in a quiet state or while one Start blocks.",
[ENG],[("one-shot stop of all workers and waiting for tickets","loop/requestStop/allOthersStopped in "+ENG)],[],["Wait","Kill calls","goroutines"])

p("C10","Engine: stops by itself only for a fatal error, and reports the worst one",
"An engine stops without being killed exactly when some manifold's Start or worker returned an error that, after the manifold's Filter, satisfies IsFatal; nothing the engine does internally, such as abandoning a pending restart, counts as such an error. Wait then returns the result of the configured Filter (if any) applied to the most important of all fatal errors received up to the end, including those received while shutting down, as ranked by WorstError, or to nil if there were none.",
["histories","fault_sequences","schedules"],"all sequences and ties of fatal and non-fatal errors before and during shutdown",
"Tests inject one or two fatal errors; WorstError is a constant function there.",
[ENG],[("accumulate worst error","gotStopped in "+ENG),("filter at the end","Wait in "+ENG)],[("worstError","most important fatal error so far",ENG)],["Wait","IsFatal/WorstError/Filter calls"])

p("C11","Engine: Report and start metrics tell the truth",
"Whenever the engine is idle, Report lists exactly the installed manifolds, each with its declared inputs, state 'started' exactly if its worker is running (together with that worker's own report and start time), 'starting' if its Start is in progress and 'stopped' otherwise (with the text of the error it last ended with, if any), and the number of times its worker has been started, which equals the number of starts recorded through Metrics. While more is to come, or the engine is shutting down, a running worker that was told to stop is 'stopping' instead, and a manifold waiting out its restart delay is 'starting'. The engine's own state reads started, stopping or stopped accordingly, its own error is what Wait returns once it has stopped, the worst fatal error so far while it is stopping and absent otherwise, and Report never blocks, at any time.",
["histories","schedules"],"all histories; reports requested at any moment, also concurrently with shutdown",
"Tests look at one report in each of four fixed situations.",
[ENG,REP],[("live report from the loop","liveReport/manifoldsReport in "+ENG),("start accounting","gotStarted in "+ENG)],[],["Report","Metrics.RecordStart"])

p("C12","Engine: a Start call's context lives exactly as long as that run is wanted",
"The context passed to Start is not cancelled while the engine is running, the run is neither finished nor superseded, and no declared input has changed. It is cancelled as soon as an input's worker starts or stops during or after that Start call, as soon as the engine begins to shut down, and at the latest when the run has ended.",
["histories","schedules"],"all moments of input changes, failures and shutdown relative to a Start call",
"Two tests check cancellation of one blocked Start; nothing checks the absence of early cancellation or cancellation after the run.",
[ENG],[("scoped context cancelled on stop","scopedContext/requestStop in "+ENG)],[],["ctx.Done in Start and workers"])

p("C13","Engine: an engine installed into itself works and still shuts down",
"A manifold made by SelfManifold gives those that declare it an Installer and a Reporter backed by that very engine, usable from Start functions and workers at any time, and rejects any other target type. However many self manifolds and dependents on them are installed, killing the engine or a fatal error stops everything, Wait returns nil respectively the fatal error and never the engine's own shutdown marker, and no goroutine is left behind.",
["histories","schedules"],"any number of self manifolds, installs through them from inside the engine, and shutdown at any moment",
"Tests install self manifolds and kill a quiet engine; errors and leaks are not looked at.",
[UTIL,ENG],[("self manifold outputs","SelfManifold in "+UTIL),("engine never waits for itself","runWorker/allOthersStopped in "+ENG)],[],["Output","Wait","goroutines"])

p("C14","Runner: at most one worker per id, and StartWorker never duplicates",
"For every id a runner never has two Start functions in progress or workers running at once: a start function is called only after the previous call for that id has returned and the worker it made has finished. StartWorker for an id that is known (starting, running, stopping or waiting to restart) fails with AlreadyExists and never calls the given function; for any other id on a running runner it succeeds and the function is called at once and exactly once unless restarted by policy. (A call whose context is done already may fail instead, and then never calls the function.) When it has returned, the id is known to every later call.",
["histories","schedules"],"all sequences and interleavings of StartWorker, StopWorker, StopAndRemoveWorker and worker exits",
"One test tries a duplicate start in two states.",
[RUN],[("run loop owns the id table","startWorker/workerDone in "+RUN)],[("workers","known ids",RUN)],["start function calls","StartWorker result"])

p("C15","Runner: restart policy is applied exactly",
"When a worker or its start function ends with a non-fatal error accepted by ShouldRestart, and the worker has not been stopped, the same start function is called again exactly once, RestartDelay (default three seconds) later. When it ends without error, or ShouldRestart rejects the error, the id is forgotten and the function is never called again; a start function that exits its goroutine counts as an error. Other workers are not affected in any of these cases.",
["histories","fault_sequences"],"all exit sequences and restart configurations",
"Tests check one restart, one refusal and one delay lower bound in real time.",
[RUN],[("exit handling","workerDone/runWorker in "+RUN)],[],["start function calls and their times"])

p("C16","Runner: stopping a worker really stops and removes it",
"StopWorker kills the worker with that id at once (or as soon as its start function has returned), and however that worker ends, its start function is not called again unless StartWorker accepts the id anew; once it has finished the id is unknown. StopAndRemoveWorker additionally waits until the id is unknown and returns the error that worker finished with, for every one of any number of concurrent callers, after which no later call finds the worker or the id and StartWorker may use it again at once; it returns ErrAborted promptly when its abort channel fires first, NotFound for an unknown id, and never hangs when the worker finishes.",
["histories","schedules"],"stop requests in any state (starting, running, stopping, waiting to restart), concurrent callers, aborts, slow or failing workers",
"Tests stop running workers that exit cleanly or fatally, with a single caller.",
[RUN],[("mark and kill","killWorkerLocked/setWorker in "+RUN),("completion signal","StopAndRemoveWorker/removeWorker in "+RUN)],[],["Kill calls","results"])

p("C17","Runner: shutdown stops everything, starts nothing and always finishes",
"Once a runner has been killed or a worker has ended with a fatal error, every running worker is promptly killed, workers still being started are killed as soon as they exist, pending restarts are dropped at once, the contexts of start functions in progress are cancelled, and no start function is called any more. Wait returns as soon as, and not before, every start function has returned and every worker has finished; afterwards StartWorker and StopWorker return ErrDead, lookups fail, WorkerNames is empty, and no goroutine is left behind.",
["schedules","histories","crash_points"],"kill or fatal error at any point of any history, with concurrent StartWorker, StopWorker and Worker calls",
"Tests kill runners with running workers; fatal errors while others wait to restart are not sampled.",
[RUN],[("dying state and killAll","run/killAll/workerDone in "+RUN)],[("isDying","shutting down",RUN)],["Wait","Kill and start calls"])

p("C18","Runner: Wait reports the most important fatal error and nothing else",
"A runner finishes by itself exactly when a worker or start function ends with an error for which IsFatal holds (any error if IsFatal is nil). Wait returns, of all fatal errors up to the end including those of workers stopped during shutdown, the most important one according to MoreImportant, or the first one if MoreImportant is nil; non-fatal errors are never returned and a killed runner without fatal errors returns nil.",
["histories","fault_sequences","schedules"],"all sets and orders of fatal and non-fatal errors, configurations with and without IsFatal and MoreImportant",
"One test ranks ten errors in one configuration; the nil MoreImportant default is untested.",
[RUN],[("final error selection","workerDone in "+RUN),("defaults","NewRunner in "+RUN)],[("finalError","most important so far",RUN)],["Wait"])

p("C19","Runner: Worker lookup returns the live worker or waits correctly",
"Worker returns the currently running worker of a known id; while that id is starting, waiting to restart or stopping it waits, and returns the new worker as soon as there is one, NotFound as soon as the id is forgotten, ErrAborted when the abort channel fires and ErrDead when the runner is killed; for an unknown id it returns NotFound at once. It never returns a worker of another id or one whose end the runner has already dealt with, nor a running one to a call made after Kill has returned, and never blocks longer than that.",
["histories","schedules"],"lookups in every state of the id, any number of concurrent waiters, any abort or kill moment",
"Tests cover lookups for one worker in each state, but not after a running worker died.",
[RUN],[("condition-variable wait","workerInfo in "+RUN)],[("worker","current instance",RUN)],["Worker results and return times"])

p("C20","Runner: WorkerNames and Report reflect the known workers",
"Whenever the runner is idle, WorkerNames and Report list exactly the known ids: those accepted by StartWorker and not yet finished for good. Report says 'started' exactly for those whose worker is running and not being stopped (with that worker's own report and the time it was last started), 'stopping' for those that were told to stop and have not finished, and 'stopped' for those starting or waiting to restart.",
["histories","schedules"],"all histories, observed at any idle point",
"One test reports on five freshly started workers.",
[RUN,"reporter.go"],[("report under the lock","Report/status in "+RUN)],[],["WorkerNames","Report"])

p("C21","Catacomb: every worker handed over is stopped and waited for",
"Every worker passed to Invoke (whether or not Invoke succeeds) or to Add (whether or not Add succeeds, at any time) is the catacomb's responsibility: as soon as the catacomb is dying it is killed, and the catacomb is not dead, or the failed call has not returned, before that worker has finished. If Add fails the catacomb is dying and Add returns the error of the now stopped worker or, if it has none, the catacomb's ErrDying. Workers are never killed while the catacomb is alive.",
["schedules","histories"],"any number of workers added from any goroutine at any time relative to Kill, worker failure and completion of the work function; slow, failing and already finished workers; invalid plans",
"Two stress tests race Add and Kill with well-behaved workers; most tests are single-worker.",
[CAT],[("two tracking goroutines per worker and the wait group","add/Add/Invoke/stopWorkers in "+CAT)],[("wg","outstanding workers",CAT)],["Kill calls","Dead","Add and Invoke results"])

p("C22","Catacomb: alive exactly until killed, dead exactly when all is finished",
"A catacomb starts dying exactly when it is killed, its work function returns or panics, or one of its workers ends with an error; a worker that ends without error leaves it unaffected and is released. It becomes dead, and Wait returns, exactly when it is dying and its work function and all its workers have finished, leaving no goroutine behind.",
["schedules","histories"],"all orders and ties of worker exits, Kill and work completion, arbitrarily many short-lived workers",
"Tests check each transition once with one worker.",
[CAT],[("kill on worker error, wait group before dead","add/Invoke in "+CAT)],[],["Dying","Dead","goroutines"])

p("C23","Catacomb: the first real error wins and Kill is always safe",
"Wait and Err report the first non-nil error among those passed to Kill, returned by the work function (a panic becomes an error carrying its message and stack) and returned by workers before the catacomb was dead; nil errors and the catacomb's own ErrDying, also when wrapped, never replace anything. Another catacomb's ErrDying, the tomb package's ErrDying and ErrStillAlive, and asking a live catacomb for ErrDying yield an error complaining about misuse instead of a panic. Kill after death changes nothing.",
["inputs","histories","schedules"],"all sequences of error values, wrapped or not, from all sources, before, during and after death",
"Tests try about ten fixed pairs of errors; errors after death and ErrStillAlive are not tried.",
[CAT],[("error translation","Kill/ErrDying/runSafely in "+CAT)],[],["Wait","Err"])

p("C24","Catacomb: used once, plans validated, contexts follow the lifetime",
"Invoke fails, running nothing, for a plan without name, site or work function or with a nil initial worker, and for a catacomb that has been used before, however many Invoke calls compete; exactly one of them wins and the running catacomb is not disturbed by the others. A context obtained from a catacomb at any time is done exactly when the catacomb is dying or its parent is done, and carries the parent's values. Modifying the plan's initial workers after Invoke has no effect.",
["inputs","histories","schedules"],"all plans, all numbers of competing Invoke calls, all context creation times and parents",
"Tests check single bad fields, one sequential reuse, and a context without parent.",
[CAT],[("validation and one-shot flag","Validate/Invoke in "+CAT),("context","Context in "+CAT)],[("dirty","already used",CAT)],["Invoke errors","contexts"])

p("C25","Stop and Dead report a worker's end truthfully",
"Stop kills the worker and returns exactly what its Wait returns, not before the worker has finished. The channel returned by Dead is closed when, and not before, the worker has finished, whether the worker provides its own Dead channel, provides a nil one or none, and however often and from wherever Dead is called; Dead never kills the worker.",
["inputs","schedules"],"all worker implementations and lifetimes, any number of concurrent calls",
"Tests use one worker of each kind and one call.",
["worker.go"],[("Stop and Dead","worker.go")],[],["Dead channel","Stop result"])

p("C26","workertest: helpers judge and manage workers correctly",
"The alive check fails the test exactly when the worker finishes within the alive period; the kill checks kill the worker (the 'killed' variant does not), return its error, and fail the test exactly when it does not finish within the kill timeout or, for the clean variant, finishes with an error; the constructor check leaves a nil alone and fails and stops anything else. The provided workers do what they say: an error worker runs until killed and then returns its error, a dead worker has always finished with its error, a forever worker ignores Kill until really killed, and a fake watcher delivers exactly its preloaded and pinged changes.",
["inputs","schedules"],"all worker lifetimes relative to the timeouts, and all errors",
"Tests use workers that finish at once or never.",
["workertest/check.go","workertest/workers.go","workertest/fake_watcher.go"],[("bounded waits","workertest/check.go")],[],["test verdicts","returned errors"])

p("C27","dependency/testing: stub resources resolve like real ones",
"A stub getter returns, for a name with an error, that error; for an unknown name an error; with a nil target success; and otherwise sets the pointed-to target to the first listed output convertible to its type and succeeds, or leaves the target untouched and fails if there is none or the target is not a (non-nil) pointer; it never panics. Building stubs from raw values treats an error value as the error, a list as several outputs and anything else as one output.",
["inputs"],"all resource maps, output lists and target types",
"The package has no tests.",
["dependency/testing/stub.go"],[("reflective assignment","Get in dependency/testing/stub.go")],[],["Get results"])

p("C28","Runner, engine and catacomb are safe for concurrent use",
"All exported methods of runners, engines and catacombs, and the Getters they pass to start functions, may be used from any number of goroutines at any time, also by workers that are being started, stopped or asked for a report, without data races, deadlocks or crashes of the library. Successive runs of one id or manifold, and whoever waits for the whole, are ordered, so that they may share plain memory.",
["schedules","histories"],"all concurrent combinations of public calls with worker starts, exits and shutdown",
"The test suite is not run under the race detector and exercises few calls concurrently.",
[RUN,ENG,CAT],[("mutex, channels and single loop goroutines",RUN+", "+ENG+", "+CAT)],[],["race detector","calls return"])

p("C29","Runner: a start function's context follows its caller and the runner",
"The context a start function gets when it is called for StartWorker carries the values of the context given to StartWorker and is done as soon as that context is done or the runner begins to stop (by Kill or a fatal error). Until then it is not done while the run goes on and nobody has stopped the worker. The context of a restart is done as soon as the runner begins to stop, but not because the context once given to StartWorker is cancelled.",
["histories","schedules"],"all times at which callers' contexts are cancelled, runners killed and fatal errors returned, relative to start functions and runs",
"One test cancels a context during one start function.",
[RUN],[("tomb contexts","startWorker/workerDone in "+RUN)],[],["the context given to start functions"])

p("C30","Constructors refuse exactly unusable settings and defaults are as documented",
"NewEngine fails exactly when IsFatal, WorstError, Clock, Metrics or Logger is missing, a delay, reset time or maximum is negative, or BackoffFactor is neither 0 nor at least 1; NewRunner exactly when the name is missing; Validate agrees. A failed constructor returns no engine or runner, starts nothing and calls nothing. Otherwise the result is running until it is killed or meets a fatal error, and uses the given settings; left-out runner settings mean: every error is fatal, every non-fatal error restarts, the first fatal error is returned, restarts come after three seconds of real time, nothing is logged.",
["inputs"],"all combinations of missing, extreme and ordinary settings",
"Tests try one bad value per engine field and no combinations; no test covers a runner with all defaults.",
[RUN,ENG],[("validation","Validate/NewEngine in "+ENG),("defaults","NewRunner in "+RUN)],[],["constructor results","the first runs"])

p("C31","Failures are logged where operators look",
"Every run of a manifold that ends with an unexpected error (after its Filter: not fatal, ErrMissing, ErrBounce or ErrUninstall), without the engine having stopped it, is logged once with the manifold's name and the error's text: at INFO if the text says 'try again', else at ERROR. A runner logs at ERROR, with id and text, every fatal error and every error that makes it restart a worker, including the stack of an error that says it comes from a panic. Nothing else is logged at ERROR.",
["histories","inputs"],"all histories of failures of any number of workers, with and without filters, stacks and wrapping",
"Tests look at the log for two fixed errors.",
[RUN,ENG],[("logging of ends","gotStopped in "+ENG+", workerDone in "+RUN)],[],["the configured Logger"])

p("C32","Engines, runners and catacombs nest",
"A runner, engine or catacomb used as a worker inside another one behaves like any worker, to any depth. As soon as the outermost begins to stop everything inside is told to stop, nothing inside is started any more, and its Wait returns exactly when the last thing inside has finished. An error that every level treats as fatal ends the outermost, whose Wait returns that very error, after everything inside was stopped; a level that restarts what failed replaces it by a complete new instance, rebuilds what depends on it, and disturbs nothing else. While all is running the outermost Report contains the reports of the engines and runners inside, at every depth, and once one of them has ended every Wait on it returns the same error, Kill changes nothing and Report still answers.",
["histories","schedules"],"all trees of containers and workers with all lifetimes, errors, slow starts and slow stops at every level",
"Tests use one container with scripted workers at a time; none nests them.",
[RUN,ENG,CAT,"dependency/doc.go"],[("each container implements worker.Worker and Reporter","Kill/Wait/Report in "+RUN+", "+ENG+", "+CAT)],[],["Kill, Wait, Report of the workers at every level"])

p("C33","Profiles tell which worker a goroutine belongs to",
"A start function called by a runner, on the first call and on every restart, and every goroutine it starts run under the profiler labels type=worker, name= the runner's name and id= the worker's id, and the context it is given carries these labels. A catacomb's work function and the goroutines it starts run under type=catacomb and name= the plan's name. With containers inside each other a goroutine has the labels of the innermost, whatever labels the caller's goroutine or context had, and using the library never changes the labels of the calling goroutine.",
["inputs","histories"],"all names and ids, callers' labels, restarts and nestings",
"One test each looks at the labels of a first start.",
[RUN,CAT],[("pprof labels","startWorker/workerDone in "+RUN+", Invoke in "+CAT)],[],["goroutine profile","labels of the context"])

for x in P: print(json.dumps(x))
