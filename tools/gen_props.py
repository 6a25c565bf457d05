#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

WAIT = "prim/wait/wait.go"; LIM = "goroutines/limited/goroutines.go"; POO = "goroutines/pooled/goroutines.go"
REG = "goroutines/internal/register/register.go"; GO = "goroutines/goroutines.go"
SL = "prim/slices/slice.go"; SLO = "prim/slices/options.go"; CH = "prim/chans/chans.go"; CHO = "prim/chans/options.go"
AT = "prim/atomics/atomics.go"; SP = "pipelines/stagedpipe/stagedpipe.go"; ST = "pipelines/stagedpipe/stats.go"
QU = "pipelines/stagedpipe/internal/queue/queue.go"

prop("W01", "Group.Wait returns only after every started function has finished",
 "Every function passed to a wait group's Go method is executed exactly once (unless its context was already cancelled when its turn came), and Wait does not return before the last of them has returned. Afterwards the same group can be used again for a new batch with the same guarantee, with or without a goroutine pool. Wait always returns once all functions have returned.",
 ["schedules", "configurations"], "all interleavings of Go, the spawned functions and Wait; no pool, limited pool, pooled pool, non-blocking submit option; one and several batches",
 "tests run one sleep-based schedule and look at the final sum; a Wait that returns one scheduling step early, or a lost wake-up, only shows in specific interleavings",
 [WAIT], [("Group.Go add/done pairing", WAIT+":Go"), ("Group.Wait and reset", WAIT+":Wait")], ["return of Wait", "calls of the user functions"])
prop("W02", "Group.Wait reports every error returned by its functions",
 "Wait returns nil if and only if no function of the batch failed and none was skipped because of a cancelled context. Otherwise the returned error matches, through the standard error-chain inspection, every error that a function returned, except that a bare context cancellation or deadline error is kept only when it was the first. Errors of one batch never leak into the next batch of the same group.",
 ["schedules", "inputs"], "all interleavings of up to four failing/succeeding functions including context errors, over one and two batches, in every pool mode",
 "the tests have one failing function, or inspect only that some error came back; concurrent failures meet in the lock-free update only in particular interleavings",
 [WAIT], [("applyErr compare-and-swap loop", WAIT+":applyErr")], ["error returned by Wait"])
prop("W03", "Group cancels on error and skips functions whose context is cancelled",
 "If a cancel function is configured, it has been called by the time Wait returns, it is called no later than the first failing function's completion, and it is cleared for the next batch. A function whose context is already cancelled when it is about to start is not executed and the context's error takes part in the result. No function is skipped while its context is live.",
 ["schedules", "configurations"], "all interleavings of failing functions, cancel and starting functions, in every pool mode",
 "the existing cancel test samples one schedule in which most functions start late",
 [WAIT], [("ctx check before f and CancelOnErr call", WAIT+":Go"), ("final cancel", WAIT+":Wait")], ["executed functions", "context state", "error of Wait"])
prop("W04", "Group.Running is an exact, non-negative count of unfinished functions",
 "The number of running functions reported by a wait group is never negative and never larger than the number of functions handed to it in the current batch. It is at least the number of functions that are executing at that moment, and it is zero when Wait has returned and nothing new was started. Whenever nothing can make progress (all unfinished functions are blocked), it equals the number of functions handed over that have not finished.",
 ["schedules"], "all interleavings of functions starting and ending, observers reading the count, and Wait resetting the group",
 "no test reads the count concurrently; a late decrement after the reset needs a precise interleaving",
 [WAIT], [("count add/sub", WAIT+":Go"), ("reset", WAIT+":reset")], ["Group.Running()"])

prop("P01", "A pool executes every accepted job exactly once, with the caller's context",
 "Every job for which Submit returned no error is executed exactly once, receiving the context it was submitted with, on both pool kinds, whether submitted blocking or non-blocking and from any number of goroutines, including from inside other jobs when capacity allows it. No job is lost or duplicated, and jobs are never run with another job's context.",
 ["schedules", "configurations"], "all interleavings of up to 3 submitters and up to 5 jobs, sizes 1..3, mixed submit options",
 "the tests count to a total once per run under the scheduler's default schedule",
 [LIM, POO], [("Submit hand-off", LIM+":Submit"), ("Submit queue and runner", POO+":Submit,runner")], ["job executions", "Submit result"])
prop("P02", "A pool never runs more blocking-submitted jobs at once than its size",
 "At no moment are more jobs that were submitted without the non-blocking option executing than the size the pool was created with, for both kinds of pool. The pool is also able to use its full size: as many jobs as its size can be in execution at the same time, so jobs that wait for each other within that number complete.",
 ["schedules", "configurations"], "all interleavings of submitters and job start/finish events for sizes 1..3 and up to size+3 jobs, mixed with non-blocking jobs",
 "no test measures simultaneous execution; a limit that is released too early or acquired too late shows only when a job outlives its Submit",
 [LIM, POO], [("queue slot acquired before start and released at job end", LIM+":Submit"), ("fixed number of runners", POO+":New")], ["maximum number of simultaneously executing jobs"])
prop("P03", "Non-blocking submission starts the job at once even on a saturated pool",
 "Submitting with the non-blocking option never waits for other jobs, and the job starts without needing any other job to finish, even when all of the pool's goroutines are busy and however many non-blocking jobs were submitted before. A non-blocking job does not consume capacity of later blocking submissions of a limited pool.",
 ["schedules", "configurations"], "all interleavings of saturating jobs, non-blocking jobs they depend on, and further submissions, sizes 1..2",
 "the existing test uses a pool without any goroutine; the state 'all workers busy but one slot free in the queue' is not reached",
 [LIM, POO], [("NonBlocking branch", LIM+":Submit"), ("NonBlocking select", POO+":Submit")], ["progress (absence of deadlock) of jobs that depend on the non-blocking job"])
prop("P04", "Pool Wait and Close return exactly when all jobs are done, leaking nothing",
 "Wait and Close do not return while any job accepted before the call is unexecuted or still executing, and do return once all of them have finished. After Close every goroutine the pool created terminates, and neither call panics, deadlocks or disturbs jobs. A pool that was waited for can be used again.",
 ["schedules"], "all interleavings of submitters, jobs, Wait and Close for both pools, sizes 1..3",
 "the tests never check for goroutines left behind nor for a job still running when Wait returns",
 [LIM, POO], [("wait group accounting", LIM+":Submit,Close,Wait"), ("runner loop and queue close", POO+":runner,Close")], ["return of Wait/Close", "goroutines alive at quiescence"])
prop("P05", "Pool size and running counters are accurate",
 "The reported number of running jobs is never negative, never below the number of jobs currently executing, never above the number of jobs submitted and unfinished (including those whose submission is in progress or whose end is still being recorded), equal to the number of accepted unfinished jobs when nothing can make progress, and zero after Wait. The reported length of a pool is the size it was created with, at all times until it is closed.",
 ["schedules", "configurations"], "all interleavings of observers with submissions and job ends; sizes 1..4",
 "no test reads the counters while jobs run",
 [LIM, POO], [("running counter", LIM+":Submit,Running"), ("running counter", POO+":Submit,runner,Running"), ("Len", POO+":Len")], ["Running()", "Len()"])
prop("P06", "Pool creation validates its arguments and always yields a unique name",
 "Creating a pool fails, with no effect, exactly when the size is below one or the name contains a space, a hyphen or a digit. Otherwise creation always terminates and no two live named pools of any kind have the same name, whatever the number of pools sharing a base name and whatever the order of creations and closings; the first keeps its base name and later ones get the base name, a dash and a number. A name stays taken until the Close of its pool has finished, is free again after that, and unnamed pools are never registered.",
 ["schedules", "inputs", "histories"], "all sequences of create/close operations up to a depth over both pool kinds and several base names, all short names over a character-class alphabet, and all interleavings of concurrent creations and closings",
 "the tests create at most one pool per name",
 [REG, LIM, POO], [("Register/Unregister/NewName", REG), ("retry loop in New", LIM+":New")], ["GetName()", "error of New", "termination of New"])
prop("P07", "Rejected submissions have no effect",
 "Submitting a nil job, or using an option that belongs to the other pool kind, returns an error; nothing is executed, no counter changes, no capacity is consumed, and the pool keeps working and can be waited for and closed. The same options used with their own pool kind are accepted.",
 ["inputs", "histories", "schedules"], "all sequences up to a depth of valid and invalid submissions over both pool kinds and every option combination up to length two",
 "no test submits an invalid job or option",
 [LIM, POO], [("argument checks before any accounting", LIM+":Submit"), ("argument checks before any accounting", POO+":Submit")], ["Submit error", "Running()", "Wait/Close termination", "number of executions"])
prop("P08", "A job that ends its goroutine has finished",
 "A job of a pool, or a function given to a wait group or to the parallel slice and channel operations, that ends its goroutine with runtime.Goexit (as a failing test does) has finished like one that returns: it no longer counts as running, it gives back the capacity that it held so that the pool can still run as many jobs at the same time as its size says, and Wait, Close and the parallel operations return once all the others have finished. A replacement function that does so leaves the value unchanged and usable.",
 ["schedules", "configurations", "inputs"], "all interleavings of up to three jobs of which any subset ends its goroutine, in every pool mode, blocking and non-blocking, one and two batches",
 "no test has a job that does not return",
 [LIM, POO, WAIT, AT], [("deferred accounting", LIM+":Submit"), ("runner", POO+":runner"), ("deferred accounting", WAIT+":Go"), ("deferred unlock", AT+":LoadReplace")], ["return of Wait/Close", "Running()", "a barrier of as many jobs as the size"])
prop("R01", "Listing registered pools is complete, terminates and never blocks the registry",
 "Enumerating the registered pools yields every named pool that is registered throughout the enumeration exactly once, yields no pool that was closed before it began, and ends. Creating or closing pools while a listing is in progress or has been abandoned by its consumer never deadlocks.",
 ["schedules", "histories"], "all interleavings of one enumeration with creations and closings; partial consumption",
 "nothing in the test suite calls the enumeration",
 [REG], [("Pools goroutine", REG+":Pools")], ["values and end of the returned channel", "progress of New/Close"])
prop("E01", "The concurrent error collector loses no error and is safe to read at any time",
 "Recording errors from several goroutines keeps every one of them exactly once, and what is recorded by one goroutine stays in that goroutine's order. The single-error accessor returns nil while nothing is recorded and otherwise the earliest recorded error, never a later one. Both accessors may be called concurrently with recording, without data race and without later recordings altering a list already returned; such a list is the caller's own.",
 ["schedules"], "all interleavings of up to three recorders and readers, under the race detector",
 "there is no test of the collector at all",
 [GO], [("Errors mutex", GO+":Errors")], ["Error()", "Errors()", "race reports"])
prop("A01", "The copy-on-write value is linearizable",
 "Loads, stores and load-and-replace updates of a shared value, issued concurrently by any goroutines, behave as if executed one at a time in an order consistent with real time. A load never returns a mixture of two values, and no update made by a successful store or replacement is lost.",
 ["schedules", "histories"], "all interleavings of up to four concurrent operations on two or three goroutines, each history checked for linearizability against a sequential register, starting from the unset and from a set value",
 "the test increments a counter under one schedule and never starts from the unset value",
 [AT], [("writer mutex and atomic pointer", AT)], ["operation results"])
prop("A02", "Load-and-replace runs its function once, atomically, without blocking readers",
 "A load-and-replace calls the supplied function exactly once, with the current value or the zero value if none was ever stored, while no other writer completes; if the function fails, its error is returned unchanged and the stored value stays as it was, otherwise the function's result becomes the value. Readers complete even while the function is running. A failing or panicking function leaves the value usable.",
 ["schedules", "inputs"], "all interleavings of replacers (succeeding, failing, panicking, blocked until a reader has finished) with loads and stores, from the unset and from a set value",
 "the test always stores a value first and never fails the function",
 [AT], [("LoadReplace", AT+":LoadReplace")], ["function calls and arguments", "values read", "progress of readers"])

prop("S01", "Slice access visits every element exactly once with its own index and value",
 "Unless it is stopped early, parallel slice access calls the accessor exactly once per element, with that element's index and original value, returns only after all calls have returned, and the slice afterwards holds exactly the modifications the accessors made, each at its own index. The empty and the nil slice yield no call and no error. No accessor runs after the call has returned, on success, error or cancellation alike.",
 ["schedules", "inputs", "configurations"], "all interleavings for slices of length 0..4 and accessors that modify, fail or cancel, with default and supplied pools",
 "tests check the final slice of one schedule",
 [SL], [("Access loop", SL+":Access"), ("wait.Group", WAIT)], ["accessor calls", "final slice", "goroutines after return"])
prop("S02", "Slice access reports accessor errors and honours stop-on-error and cancellation",
 "If any accessor failed, an error matching a failed accessor's error is returned (a bare context error among several errors may give way to the others), and nil is returned only if every element was accessed successfully. Without the stop option an error does not prevent the remaining elements from being accessed; with it, elements not yet started when the error has been processed are skipped, and the caller's own context is never cancelled. Cancelling the context stops starting new accesses and yields a non-nil error whenever an element was skipped. The accessors run with the context of the call, so that they see its values and its end.",
 ["schedules", "inputs", "configurations"], "all interleavings of failing accessors and an external canceller, slices up to length 4, with and without stop-on-error, default and supplied pools",
 "the tests contain one error case under one schedule",
 [SL, WAIT], [("ctx handling and CancelOnErr", SL+":Access"), ("error capture", WAIT+":applyErr")], ["returned error", "set of accessed elements"])
prop("S03", "Slice access runs its work on the supplied pool with the supplied options",
 "When a pool is supplied, the accessors run as jobs of that pool: no more run at once than its size unless the non-blocking option is also given, and the pool is left open and usable afterwards. Every documented option is accepted, alone and combined with the others. Without a supplied pool no goroutine survives the call.",
 ["schedules", "configurations"], "all option combinations over both pool kinds, sizes 1..2, all interleavings",
 "no test uses an option of this package",
 [SL, SLO], [("option application", SLO), ("pool selection", SL+":Access")], ["error of the call", "simultaneous accessors", "pool's running counter"])

prop("C01", "Channel access processes every received value exactly once before returning",
 "Unless stopped early, parallel channel access calls the accessor exactly once for every value sent on the input until it is closed, and returns only after all those calls have returned. It returns nil exactly if all calls succeeded; a nil input yields no call. No accessor runs after the call has returned, on success, error or cancellation alike.",
 ["schedules", "inputs", "configurations"], "all interleavings of producers, accessors and the call for up to 4 values, buffered and unbuffered inputs, default and supplied pools",
 "the package has no tests",
 [CH], [("Access loop", CH+":Access")], ["accessor calls", "return of Access"])
prop("C02", "Channel access reports errors and stops promptly on cancellation or first error",
 "If any accessor failed, the returned error matches a failed accessor's error (a bare context error among several errors may give way to the others). Cancelling the context makes the call return once running accessors return, even if the input is never closed and no value ever arrives again, and with a non-nil error; with the stop option the same happens after an accessor fails, without cancelling the caller's own context. Without the stop option an error does not prevent later values from being processed. The accessors run with the context of the call, so that they see its values and its end.",
 ["schedules", "inputs", "configurations"], "all interleavings of an external canceller or failing accessor with a producer that stops sending without closing, with and without stop-on-error",
 "the package has no tests",
 [CH], [("ctx handling in Access", CH+":Access"), ("CancelOnErr", WAIT+":Go")], ["returned error", "termination"])
prop("C03", "Channel modify emits one result per processed value and closes its output once",
 "For every input value that is processed, exactly one result carrying either the modifier's value or its error is sent on the output (once the context is cancelled, which includes stopping after an error, the result of a failed or not yet delivered modification may be dropped), and the output is closed exactly once, after the last result and before the call returns, on success, error and cancellation alike. No result is ever sent after the close, results are not mixed up between values, and the returned error is non-nil whenever a modifier failed.",
 ["schedules", "inputs", "configurations"], "all interleavings of producer, modifiers and consumer for up to 4 values, with failing modifiers, stop-on-error, external cancellation and supplied pools",
 "the package has no tests",
 [CH], [("output sends and deferred close", CH+":Modify")], ["values on output", "close of output", "panic freedom"])
prop("C04", "Channel access and modify run on the supplied pool with the supplied options",
 "When a pool is supplied, the work runs as jobs of that pool: no more run at once than its size unless the non-blocking option is given, and the pool is left open and usable afterwards. Every documented option is accepted, alone and combined. Without a supplied pool no goroutine survives the call.",
 ["schedules", "configurations"], "all option combinations over both pool kinds, sizes 1..2, all interleavings",
 "the package has no tests",
 [CH, CHO], [("option application", CHO), ("pool selection", CH+":Access")], ["error of the call", "simultaneous accessors", "pool's running counter"])

prop("T01", "Every accepted pipeline request comes out of its own group exactly once",
 "Every request whose submission succeeded is delivered exactly once on the output of the request group it was submitted to, and on no other group's output, however many groups, pipelines and submitters run concurrently. After the group is closed and drained its output channel closes, after the last request. A request whose submission was refused never comes out.",
 ["schedules", "configurations", "inputs"], "all interleavings, up to a deviation bound, of 1..3 groups, 1..3 pipelines, 1..3 stages, up to 5 requests, with draining consumers",
 "tests count outputs under the default schedule, mostly with a single group at a time",
 [SP], [("runner/out/demux routing", SP+":runner"), ("group goroutine", SP+":NewRequestGroup"), ("Close", SP+":RequestGroup.Close")], ["RequestGroup.Out()", "Submit error"])
prop("T02", "Ordered pipelines deliver each group's requests in submission order",
 "With the ordering option, each group's output is exactly the sequence of its successfully submitted requests in submission order, no matter how long individual requests take, which of them fail or which submissions are refused because their context was cancelled. Order is kept per group independently, and ordering never loses, duplicates or indefinitely withholds a request.",
 ["schedules", "inputs", "histories"], "all interleavings, up to a deviation bound, of request completion orders, refused submissions at every position, two groups, 1..3 pipelines",
 "the ordering test relies on random sleeps and never has a refused submission",
 [SP], [("item numbering", SP+":Submit"), ("in-order demultiplexer", SP+":NewRequestGroup")], ["order on RequestGroup.Out()"])
prop("T03", "A request visits exactly the stages its state machine dictates, in order",
 "Each request runs the start stage and then, one after the other, each stage that the previous one named as next, until a stage names none or an error is set; the data and error produced by a stage are what the next stage, and finally the consumer, sees. Before every stage all preprocessors run in the order given, an error set by a preprocessor or stage ends processing there, and the next stage is always unset on entry. A request whose context is cancelled runs no further stage and comes out with the context's error.",
 ["inputs", "schedules", "programs"], "all stage graphs and stage outcomes up to a path length (continue, stop, error, cancel at each step) with 0..2 preprocessors each possibly failing, cross-checked against a reference interpreter; small schedules with concurrent requests",
 "tests drive one linear state machine; errors, preprocessors and cancellation between stages are not combined",
 [SP], [("processReq loop and execStage", SP+":processReq,execStage")], ["stage and preprocessor call log", "delivered request"])
prop("T04", "DAG pipelines stop a request that would visit a stage twice, and only then",
 "With the DAG option a request that is routed to a stage it has already visited is stopped before that stage runs again and comes out with the distinguishable cyclic error naming the visited stages; a request that visits no stage twice never gets that error. This holds independently for concurrently processed requests and for a request submitted again later, to this or to another pipeline with or without the option. Stages are the methods of the state machine: reaching the same method in another way is still the same stage. Without the option repeated stages are allowed.",
 ["inputs", "schedules", "histories"], "all stage graphs up to length 5 over 3 stages, concurrent requests on 1..2 pipelines, resubmission histories of length two over DAG and non-DAG pipelines",
 "the DAG test has one fixed cyclic and one acyclic request",
 [SP], [("seenStages tracking and reuse", SP+":processReq,execStage")], ["Err of delivered requests", "stage call log", "race reports"])
prop("T05", "Pipelines process exactly up to pipelines times stages requests concurrently",
 "A set of N pipelines over a state machine with S stages, plus any declared sub-stages, processes up to N*(S+sub-stages) requests at the same time and never more. Creation fails for fewer than one pipeline, a missing state machine or an invalid option, and then starts no processing.",
 ["configurations", "schedules"], "N in 1..3, S in 1..3, 0..3 sub-stages, invalid arguments; requests that only finish when N*S of them are in process (reachability) and a monitor of the maximum over all explored interleavings (bound)",
 "no test measures the degree of concurrency",
 [SP], [("numStages and runner creation", SP+":newPipeline,numStages"), ("argument validation", SP+":New")], ["simultaneous stage executions", "error of New"])
prop("T06", "Closing pipelines ends them: state machine closed once, all goroutines exit",
 "After the pipelines are closed and all groups have been closed and drained, the state machine's close function is called exactly once, never before the last accepted request has finished all its stages, and every goroutine the pipelines package started for them and their groups terminates. Requests accepted before the close are still processed and delivered. Closing never panics when no submission is made afterwards.",
 ["schedules"], "all interleavings, up to a deviation bound, of close with in-flight requests, consumers and group closes; plain, ordered, delay-warning variants",
 "no test closes the pipelines and looks whether anything remains",
 [SP], [("in-flight wait group and Close goroutine", SP+":Close")], ["state machine Close calls", "goroutines alive at quiescence"])
prop("T07", "Cancelled submissions are refused cleanly and never wedge a group",
 "A submission without a context is refused with an error; a submission whose context is cancelled while the pipelines are saturated returns with the context's error instead of blocking for ever. In each case the group can still be used, closed and drained, all accepted requests are delivered, and the pipelines can be closed.",
 ["schedules", "inputs"], "all interleavings, up to a deviation bound, of submitters, cancellers and consumers on saturated pipelines, cancel before, during and after submission",
 "no test cancels a submission",
 [SP], [("Submit select on context and accounting rollback", SP+":Submit")], ["Submit error", "termination of Close", "Out()"])
prop("T08", "Pipeline statistics are exact at quiescence and consistent while running",
 "When nothing is in flight, the completed count equals the number of requests processed and the running count is zero. While requests are in flight the running count is never negative nor larger than the number of requests in flight, the completed count never decreases nor exceeds the number submitted. Minimum, maximum and average of processing and of queueing times equal those of the actual durations once everything is complete.",
 ["schedules", "inputs"], "all interleavings of up to 3 requests with virtual-time durations from a small set, with a concurrent statistics reader",
 "the tests do not compare statistics to known durations",
 [ST, SP], [("setMin/setMax/avg", ST), ("calcExitStats", SP+":calcExitStats")], ["Pipelines.Stats()"])
prop("T09", "Groups can be created and closed at any time without disturbing each other",
 "Creating, using, closing and draining request groups concurrently with each other and with traffic of other groups neither loses nor misroutes a request, nor terminates the process, nor blocks the other groups as long as every group is being drained. An unused group can be closed and its output closes.",
 ["schedules", "histories"], "all interleavings, up to a deviation bound, of two or three goroutines each creating, using and closing groups",
 "tests create and close groups strictly one after the other",
 [SP], [("receiver registration and removal", SP+":NewRequestGroup,RequestGroup.Close")], ["process survival", "RequestGroup.Out()"])
prop("T10", "The delay warning only logs; it never changes what is delivered",
 "With the delay-warning option, requests are delivered exactly once, complete and in the same order guarantees as without it, however slow the consumer and whenever the warning fires relative to the delivery. Warnings are logged only when a delivery has been blocked for longer than the configured time, at least once per such period; a negative period is refused at creation.",
 ["schedules", "configurations"], "all interleavings of deliveries, consumer delays in virtual time around the warning period, and timer firings",
 "no test uses the option",
 [SP], [("ticker loop around the output send", SP+":runner")], ["RequestGroup.Out()", "log output"])
prop("T11", "Telemetry never changes results, and every span that is started is ended",
 "With a recording trace span in the contexts, requests, groups, wait groups, slice and channel operations yield the same results as without tracing. Every span the library starts is ended by the time the work it covers has been completely delivered, closed or waited for, the span of a request belongs to its group's or submitter's span and the span of a stage to that of its request, work never runs under a span that has already ended, and the request a consumer receives carries the context it was accepted with (or the one a stage has put there), not one scoped to a finished stage.",
 ["schedules", "configurations", "inputs"], "tracing on and off over the scenarios of the other properties with an in-memory span recorder",
 "no test enables tracing",
 [SP, WAIT], [("span creation and End", SP+":Submit,execStage,otelEnd"), ("group span", WAIT+":Go,Wait")], ["span recorder", "delivered requests"])
prop("Q01", "The bounded queue is a FIFO that loses nothing and wakes its waiters",
 "The internal bounded queue hands out every pushed value exactly once in first-in-first-out order, never holds more than its limit, blocks a push only while full, and after closing lets consumers take all remaining values before reporting the end. A blocked push proceeds once another goroutine makes room, and a blocked pop once a value is added or the queue is closed. The queue is closed by its senders after all pushes have finished.",
 ["schedules", "histories"], "all interleavings of up to 2 producers and 2 consumers with limits 1..2 and a close, and all operation sequences up to a depth against a reference queue",
 "the queue has no tests",
 [QU], [("Queue", QU)], ["Pop results", "Push results"])
prop("D01", "The library's own state is free of data races under documented concurrent use",
 "Using any of the packages concurrently in the documented way never makes the library access its own or the caller's memory in a data race: user functions, submitters, observers of counters and statistics, waiters and closers may run on different goroutines without any additional synchronisation by the caller.",
 ["schedules", "configurations"], "every schedule explored for a set of mixed-use scenarios over all packages, each executed under the happens-before race detector with no synchronisation added by the harness",
 "the test command runs without the race detector and exercises observers rarely",
 [WAIT, LIM, POO, SP, ST, AT, GO, CH, SL], [("synchronisation of all shared fields", "all packages")], ["race detector reports"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
